// BOUNDS: history*: every history of 4 (thorough 5) steps, starting with one mock and one expectation, over two mock slots, two expectation slots and one sequence: create, destroy, move-construct, move-assign (onto itself included) mocks and scoped expectations, create expectations (free or in the sequence, arbitrary limits 0 <= min <= 1 <= max <= 2), call, destroy the sequence object; the reporter throws for unfulfilled expectations or does not
// BOUNDS: overloads: one mock with two overloads, policies and return values owning memory, every order of moving and destroying
// BOUNDS: sequence_report: a sequence object that outlives its unsatisfied expectations, error reports throw
// BOUNDS: containers: four expectations in a vector; grown, one erased, rotated, swapped, reversed, moved to another vector, cleared; 2 (thorough 3) steps with calls in between, mock ends before or after
// ASSUME: a moved-from mock or scoped expectation is only destroyed or assigned to
// OUTSIDE: destroying a mock while one of its calls is running
#include "common.hpp"
#include "seqmodel.hpp"
using namespace mimicpp;
namespace e = mimicpp::expect;
namespace f = mimicpp::finally;

using MockT = Mock<int(Sym)>;

static const char* const opn[]{"op0", "op1", "op2", "op3", "op4", "op5", "op6"};
static const char* const minn[]{"min0", "min1", "min2", "min3"};
static const char* const maxn[]{"max0", "max1", "max2", "max3"};

enum Op
{
	opMock,    // creates or destroys
	opMockNew, // move-construct from the other
	opMockAssign,
	opMockSelf,
	opExpect, // on a mock, in the first free slot
	opExpectSeq,
	opEnd, // of an expectation slot
	opExpNew,
	opExpAssign,
	opExpSelf,
	opCall0, // expectation 0 through a mock
	opCall1,
	opSeqEnd,
	opCount
};

struct Exp
{
	int coll{}, min{}, max{}, count{}, seq{-1};
	bool live{true};
};

static void run(const bool useSeq, const int steps)
{
	setup();
	rec = Rec{};
	rec.throwUnfulfilled = sym::flag("throwing");
	const bool throwing = rec.throwUnfulfilled;
	const std::uint64_t heap0 = __sym_heap_live();
	{
		std::unique_ptr<SequenceT> seq{};
		if (useSeq)
			seq = std::make_unique<SequenceT>();
		bool seqExpected = useSeq; // the report of the sequence is still to come
		SeqModel sm{};
		MockT* mock[2]{};
		int coll[2]{-1, -1}; // -1: absent or moved from
		ScopedExpectation* slot[2]{};
		int holds[2]{-1, -1}; // -1: absent or moved from
		int colls = 0;
		std::vector<Exp> model{};
		int full = 0, none = 0, inapplicable = 0, unfulfilled = 0;

		auto live_in_seq = [&] {
			for (const Exp& x : model)
				if (x.live && x.seq >= 0)
					return true;
			return false;
		};
		auto verify = [&] {
			CHECK_THAT(rec.full == full && rec.noMatch == none && rec.inapplicable == inapplicable, "every call is reported exactly once");
			CHECK_THAT(rec.unfulfilled == unfulfilled, "every unmet expectation is reported exactly once, when it ends");
			const bool over = useSeq && !seq && !live_in_seq();
			if (over && seqExpected)
			{
				seqExpected = false;
				CHECK_THAT(rec.error == (sm.first_unsatisfied() >= 0 ? 1 : 0), "a sequence reports when its object and its last expectation are gone");
				sym::reach("sequence over");
			}
			else if (seqExpected)
				CHECK_THAT(rec.error == 0, "a sequence does not report while it is in use");
			CHECK_THAT(rec.error <= 1 && rec.unhandled == 0, "nothing else is reported");
			for (int k = 0; k < 2; ++k)
				if (holds[k] >= 0)
				{
					const Exp& x = model[static_cast<std::size_t>(holds[k])];
					CHECK_THAT(slot[k]->is_satisfied() == (x.min <= x.count), "counts move along");
					CHECK_THAT(loc_index(slot[k]->from()) == holds[k], "identity moves along");
				}
		};
		auto expect = [&](int i, int k, bool inSeq) {
			const std::size_t id = model.size();
			const int min = sym::range<int>(minn[id], 0, 1);
			const int max = sym::range<int>(maxn[id], 1, 2);
			const int n = static_cast<int>(id);
			if (inSeq)
				slot[k] = new ScopedExpectation(finalize_at(mock[i]->expect_call(bit(n)) && e::times(min, max) && e::in_sequence(*seq) && f::returns(n), n));
			else
				slot[k] = new ScopedExpectation(finalize_at(mock[i]->expect_call(bit(n)) && e::times(min, max) && f::returns(n), n));
			model.push_back(Exp{coll[i], min, max, 0, inSeq ? sm.add(min, max) : -1, true});
			holds[k] = n;
		};
		// the model of an ending expectation; true if that throws
		auto ends = [&](int id) {
			Exp& x = model[static_cast<std::size_t>(id)];
			x.live = false;
			if (x.count < x.min)
			{
				++unfulfilled;
				sym::reach("unfulfilled");
				return throwing;
			}
			return false;
		};
		auto guarded = [&](bool throws, auto&& fn) {
			bool thrown = false;
			try
			{
				fn();
			}
			catch (const UnfulfilledEx&)
			{
				thrown = true;
			}
			CHECK_THAT(thrown == throws, "the report of an unmet expectation arrives");
		};
		auto end_slot = [&](int k) {
			const bool throws = holds[k] >= 0 && ends(holds[k]);
			holds[k] = -1;
			ScopedExpectation* const p = slot[k];
			slot[k] = nullptr;
			guarded(throws, [&] { delete p; });
		};
		auto call = [&](int i, std::size_t id) {
			Outcome want = Outcome::noMatch;
			if (id < model.size() && model[id].live && model[id].coll == coll[i])
			{
				Exp& x = model[id];
				if (x.count < x.max && (x.seq < 0 || sm.order_ok(x.seq)))
				{
					want = Outcome::ok;
					++x.count;
					if (x.seq >= 0)
						sm.accept(x.seq);
					++full;
				}
				else
				{
					want = Outcome::inapplicable;
					++inapplicable;
				}
			}
			else
				++none;
			int got = -1;
			const Outcome o = attempt([&] { got = (*mock[i])(Sym{1u << id}); });
			CHECK_THAT(o == want, "expectations stay effective for the mock they moved to");
			if (want == Outcome::ok)
				CHECK_THAT(got == static_cast<int>(id), "result");
			if (want == Outcome::ok)
				sym::reach("call accepted");
		};

		mock[0] = new MockT{};
		coll[0] = colls++;
		expect(0, 0, useSeq);
		for (int s = 0; s < steps; ++s)
		{
			const int code = sym::choice(opn[s], opCount * 2);
			const int op = code >> 1, i = code & 1, j = 1 - i;
			switch (op)
			{
			case opMock:
				if (mock[i])
				{
					delete mock[i];
					mock[i] = nullptr;
					coll[i] = -1;
				}
				else
				{
					mock[i] = new MockT{};
					coll[i] = colls++;
				}
				break;
			case opMockNew:
				if (mock[i] || coll[j] < 0)
					return;
				mock[i] = new MockT{std::move(*mock[j])};
				coll[i] = std::exchange(coll[j], -1);
				sym::reach("mock moved");
				break;
			case opMockAssign:
				if (!mock[i] || coll[j] < 0)
					return;
				*mock[i] = std::move(*mock[j]);
				coll[i] = std::exchange(coll[j], -1);
				break;
			case opMockSelf:
			{
				if (coll[i] < 0)
					return;
				MockT& self = *mock[i];
				*mock[i] = std::move(self);
				break;
			}
			case opExpect:
			case opExpectSeq:
			{
				const int k = !slot[0] ? 0 : 1;
				const bool inSeq = op == opExpectSeq;
				if (coll[i] < 0 || slot[k] || (inSeq && !seq) || model.size() >= 3)
					return;
				expect(i, k, inSeq);
				break;
			}
			case opEnd:
				if (!slot[i])
					return;
				end_slot(i);
				break;
			case opExpNew:
				if (slot[i] || holds[j] < 0)
					return;
				slot[i] = new ScopedExpectation{std::move(*slot[j])};
				holds[i] = std::exchange(holds[j], -1);
				sym::reach("expectation moved");
				break;
			case opExpAssign:
			{
				if (!slot[i] || !slot[j] || holds[j] < 0)
					return;
				const bool throws = holds[i] >= 0 && ends(holds[i]);
				if (holds[i] >= 0)
					sym::reach("expectation replaced");
				guarded(throws, [&] { *slot[i] = std::move(*slot[j]); });
				holds[i] = std::exchange(holds[j], -1);
				break;
			}
			case opExpSelf:
			{
				if (holds[i] < 0)
					return;
				ScopedExpectation& self = *slot[i];
				*slot[i] = std::move(self);
				break;
			}
			case opCall0:
			case opCall1:
			{
				const std::size_t id = op == opCall0 ? 0 : model.size() > 2 ? 2 : 1;
				if (coll[i] < 0 || id > model.size())
					return;
				call(i, id);
				break;
			}
			default:
				if (!seq || i)
					return;
				seq.reset();
				sym::reach("sequence object gone");
				break;
			}
			verify();
		}
		// what is left goes in one of the possible orders
		const int order = sym::choice("order", useSeq ? 3 : 2);
		auto mocks = [&] {
			for (MockT*& p : mock)
			{
				delete p;
				p = nullptr;
			}
			coll[0] = coll[1] = -1;
		};
		auto slots = [&] {
			for (int k = 1; k >= 0; --k)
				if (slot[k])
				{
					end_slot(k);
					verify();
				}
		};
		if (order == 2)
		{
			seq.reset();
			verify();
		}
		if (order == 0)
			mocks();
		slots();
		mocks();
		verify();
		seq.reset();
		verify();
		CHECK_THAT(!seqExpected, "all over");
	}
	clear_rec();
	CHECK_THAT(__sym_heap_live() == heap0, "nothing leaks");
}

HARNESS(history_free) { run(false, THOROUGH ? 5 : 4); }
HARNESS(history_sequence) { run(true, THOROUGH ? 5 : 4); }

// several overloads, memory owning policies
HARNESS(overloads)
{
	setup();
	rec = Rec{};
	const std::uint64_t heap0 = __sym_heap_live();
	using M = Mock<std::vector<int>(int), std::vector<int>(int) const, int(const std::vector<int>&) const>;
	{
		M* a = new M{};
		M* b = nullptr;
		const int v = sym::make<int>("v");
		const std::vector<int> values{v, 1, 2};
		auto* x = new ScopedExpectation(a->expect_call(v) && e::times(0, 2) && f::returns(std::vector<int>{v, v}));
		auto* y = new ScopedExpectation(std::as_const(*a).expect_call(v) && f::returns_result_of([values] { return values; }));
		auto* z = new ScopedExpectation(a->expect_call(matches::range::eq(values)) && e::at_most(1) && f::returns(v));
		int nx = 0, ny = 0, nz = 0;
		for (int s = 0; s < (THOROUGH ? 5 : 4); ++s)
		{
			M*& cur = a ? a : b;
			switch (sym::choice(opn[s], 8))
			{
			case 0:
				if (b || !a)
					return;
				b = new M{std::move(*a)};
				delete a;
				a = nullptr;
				sym::reach("moved");
				break;
			case 1:
				if (a || !b)
					return;
				a = new M{};
				*a = std::move(*b);
				delete b;
				b = nullptr;
				break;
			case 2:
				if (!cur)
					return;
				delete cur;
				cur = nullptr;
				break;
			case 3:
			{
				if (!cur)
					return;
				std::vector<int> r{};
				const Outcome o = attempt([&] { r = (*cur)(v); });
				CHECK_THAT(o == (!x ? Outcome::noMatch : nx < 2 ? Outcome::ok : Outcome::inapplicable), "mutable overload");
				if (o == Outcome::ok)
				{
					++nx;
					CHECK_THAT(r.size() == 2 && r[0] == v && r[1] == v, "stored value");
				}
				break;
			}
			case 4:
			{
				if (!cur)
					return;
				std::vector<int> r{};
				const Outcome o = attempt([&] { r = std::as_const(*cur)(v); });
				CHECK_THAT(o == (!y ? Outcome::noMatch : ny < 1 ? Outcome::ok : Outcome::inapplicable), "const overload");
				if (o == Outcome::ok)
				{
					++ny;
					CHECK_THAT(r == values, "computed value");
				}
				break;
			}
			case 5:
			{
				if (!cur)
					return;
				int r{};
				const std::vector<int> arg{values};
				const Outcome o = attempt([&] { r = (*cur)(arg); });
				CHECK_THAT(o == (!z ? Outcome::noMatch : nz < 1 ? Outcome::ok : Outcome::inapplicable), "other overload");
				if (o == Outcome::ok)
				{
					++nz;
					CHECK_THAT(r == v, "value");
				}
				break;
			}
			case 6:
				if (!x)
					return;
				delete x;
				x = nullptr;
				break;
			default:
				if (!y)
					return;
				delete y;
				y = nullptr;
				break;
			}
		}
		if (sym::flag("mockFirst"))
		{
			delete a;
			delete b;
			a = b = nullptr;
		}
		delete x;
		delete y;
		delete z;
		delete a;
		delete b;
		CHECK_THAT(rec.unfulfilled == (ny ? 0 : 1) && rec.full == nx + ny + nz, "reports");
		sym::reach("overloads");
	}
	clear_rec();
	CHECK_THAT(__sym_heap_live() == heap0, "nothing leaks");
}

// builders may be moved and dropped
HARNESS(builders)
{
	setup();
	rec = Rec{};
	const std::uint64_t heap0 = __sym_heap_live();
	{
		SequenceT seq{};
		auto mock = std::make_unique<MockT>();
		const int n = sym::range<int>("n", 0, 2);
		auto b = mock->expect_call(bit(0)) && e::times(n) && f::returns(std::vector<int>(3).size());
		const bool drop = sym::flag("drop");
		const bool early = sym::flag("mockFirst");
		std::optional<ScopedExpectation> exp{};
		MockT* const raw = mock.get();
		{
			auto b2 = std::move(b);
			if (early)
				mock.reset();
			if (!drop)
				exp.emplace(std::move(b2));
		}
		int calls = 0;
		if (mock)
			for (int s = 0; s < 3; ++s)
				if (sym::flag(opn[s]))
				{
					const Outcome o = attempt([&] { (void)(*raw)(Sym{1}); });
					CHECK_THAT(o == (drop ? Outcome::noMatch : calls < n ? Outcome::ok : Outcome::inapplicable), "a dropped builder has no effect");
					calls += o == Outcome::ok;
				}
		if (sym::flag("mockSecond"))
			mock.reset();
		exp.reset();
		CHECK_THAT(rec.unfulfilled == (!drop && calls < n ? 1 : 0), "reports");
		sym::reach("builders");
	}
	CHECK_THAT(rec.error == 0, "sequence without elements");
	clear_rec();
	CHECK_THAT(__sym_heap_live() == heap0, "nothing leaks");
}

// FINDING (see known_findings.txt): the report of a sequence is made inside a noexcept deleter
HARNESS(sequence_report)
{
	setup();
	rec = Rec{};
	rec.throwUnfulfilled = true;
	rec.throwError = true;
	bool thrown = false;
	try
	{
		SequenceT seq{};
		MockT mock{};
		const int n = sym::range<int>("n", 0, 1);
		try
		{
			ScopedExpectation exp = mock.expect_call(bit(0)) && e::times(n, 1) && e::in_sequence(seq) && f::returns(0);
		}
		catch (const UnfulfilledEx&)
		{
			sym::reach("unfulfilled");
		}
	}
	catch (const ErrorEx&)
	{
		thrown = true;
	}
	CHECK_THAT(thrown == (rec.unfulfilled == 1), "the report of an unfinished sequence arrives");
}

// expectations kept in growing, shrinking and reordered containers
HARNESS(containers)
{
	setup();
	rec = Rec{};
	const std::uint64_t heap0 = __sym_heap_live();
	{
		constexpr int count = 4;
		auto mock = std::make_unique<MockT>();
		std::vector<ScopedExpectation> v{};
		std::vector<int> who{};
		for (int i = 0; i < count; ++i)
		{
			v.push_back(finalize_at(mock->expect_call(bit(i)) && f::returns(i), i)); // grows and relocates
			who.push_back(i);
		}
		bool called[count]{}, alive[count]{true, true, true, true};
		int unfulfilled = 0;
		auto call = [&](int i) {
			clear_rec();
			int got = -1;
			const Outcome o = attempt([&] { got = (*mock)(Sym{1u << i}); });
			CHECK_THAT(o == (!alive[i] ? Outcome::noMatch : called[i] ? Outcome::inapplicable : Outcome::ok), "wherever the handle lives");
			if (o == Outcome::ok)
			{
				called[i] = true;
				CHECK_THAT(got == i, "the right one");
			}
		};
		auto end = [&](int i) {
			alive[i] = false;
			unfulfilled += called[i] ? 0 : 1;
		};
		static const char* const a0[]{"first0", "first1", "first2"};
		static const char* const a1[]{"what0", "what1", "what2"};
		for (int s = 0; s < (THOROUGH ? 3 : 2); ++s)
		{
			const int n = static_cast<int>(v.size());
			rec = Rec{};
			unfulfilled = 0;
			switch (sym::choice(a1[s], 7))
			{
			case 0: call(sym::range(a0[s], 0, count - 1)); break;
			case 1: // erase one
				if (n)
				{
					const int i = sym::range(a0[s], 0, n - 1);
					end(who[static_cast<std::size_t>(i)]);
					v.erase(v.begin() + i);
					who.erase(who.begin() + i);
					CHECK_THAT(rec.unfulfilled == unfulfilled, "only the erased one ends");
				}
				break;
			case 2: // rotate
				if (n > 1)
				{
					const int i = sym::range(a0[s], 0, n - 1);
					std::rotate(v.begin(), v.begin() + i, v.end());
					std::rotate(who.begin(), who.begin() + i, who.end());
				}
				break;
			case 3: // swap
				if (n > 1)
				{
					const int i = sym::range(a0[s], 1, n - 1);
					using std::swap;
					swap(v[0], v[static_cast<std::size_t>(i)]);
					swap(who[0], who[static_cast<std::size_t>(i)]);
				}
				break;
			case 4: // reverse
				std::reverse(v.begin(), v.end());
				std::reverse(who.begin(), who.end());
				break;
			case 5: // insert another copy of the container's content
			{
				std::vector<ScopedExpectation> other{};
				other.reserve(static_cast<std::size_t>(n));
				for (ScopedExpectation& x : v)
					other.push_back(std::move(x));
				v = std::move(other);
				break;
			}
			default:
				for (int i : who)
					end(i);
				v.clear();
				who.clear();
				CHECK_THAT(rec.unfulfilled == unfulfilled, "all end");
				break;
			}
			unfulfilled = 0;
			int loc = 0;
			for (const ScopedExpectation& x : v)
				CHECK_THAT(x.is_satisfied() == called[who[static_cast<std::size_t>(loc++)]], "each handle still stands for its own");
		}
		call(sym::range("last", 0, count - 1));
		rec = Rec{};
		for (int i : who)
			end(i);
		const bool mockFirst = sym::flag("mockFirst");
		if (mockFirst)
			mock.reset();
		v.clear();
		CHECK_THAT(rec.unfulfilled == unfulfilled, "every unmet one is reported once");
		sym::reach("containers");
	}
	clear_rec();
	CHECK_THAT(__sym_heap_live() == heap0, "nothing leaks");
}

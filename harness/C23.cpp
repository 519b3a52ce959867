// BOUNDS: history*: every history of 5 (thorough 6) steps over two object slots: create, destroy, copy-construct, move-construct, copy-assign, move-assign (onto itself included), create a relocation expectation with arbitrary limits 0 <= min <= max <= 2, end one; at most 2 (thorough 3) expectations
// BOUNDS: for a bare RelocationWatcher and for Watched objects with an arbitrary payload
// ASSUME: a moved-from object is only destroyed or assigned to
// OUTSIDE: bases whose moves are noexcept while the reporter throws (documented: the watched object takes over the exception specification of its base)
#include "common.hpp"
using namespace mimicpp;
namespace e = mimicpp::expect;
using U = std::uint32_t;

inline int baseMoves = 0, baseCopies = 0;
struct Payload
{
	U v{};
	Payload() = default;
	explicit Payload(U x) : v{x} {}
	Payload(const Payload& o) noexcept(false) : v{o.v} { ++baseCopies; }
	Payload(Payload&& o) noexcept(false) : v{o.v} { ++baseMoves; }
	Payload& operator=(const Payload& o) noexcept(false)
	{
		v = o.v;
		++baseCopies;
		return *this;
	}
	Payload& operator=(Payload&& o) noexcept(false)
	{
		v = o.v;
		++baseMoves;
		return *this;
	}
};

struct Exp
{
	int state, min, max, count;
	bool live;
};
struct SlotModel
{
	bool alive{};
	int state{-1}; // -1: moved from
	U payload{};
};

template <typename T>
static T* make_obj(U v)
{
	if constexpr (std::is_constructible_v<T, U>)
		return new T(v);
	else
		return new T{};
}
template <typename T>
static U payload_of(const T& t)
{
	if constexpr (requires { t.v; })
		return t.v;
	else
		return 0;
}

static const char* const opn[]{"op0", "op1", "op2", "op3", "op4", "op5", "op6"};
static const char* const pn[]{"p0", "p1", "p2", "p3", "p4", "p5", "p6"};
static const char* const minn[]{"min0", "min1", "min2"};
static const char* const maxn[]{"max0", "max1", "max2"};

enum Op
{
	opCreate,
	opDestroy,
	opCopyCtor,
	opMoveCtor,
	opCopyAssign,
	opMoveAssign,
	opSelfCopy,
	opSelfMove,
	opExpect,
	opEndExp,
	opCount
};

template <typename T>
static void history(const int steps, const bool inFlight = false)
{
	constexpr bool payload = std::is_constructible_v<T, U>;
	setup();
	rec = Rec{};
	baseMoves = baseCopies = 0;
	int moves = 0, copies = 0;
	T* slot[2]{};
	SlotModel ms[2]{};
	std::vector<Exp> model{};
	std::vector<std::optional<ScopedExpectation>> exps{};
	int full = 0, none = 0, inapplicable = 0, unfulfilled = 0, states = 0;
	// a move away from `state`
	auto relocate = [&](int state) {
		int any = 0;
		for (std::size_t k = model.size(); k-- > 0;)
			if (model[k].live && model[k].state == state)
			{
				++any;
				if (model[k].count < model[k].max)
				{
					++model[k].count;
					++full;
					return Outcome::ok;
				}
			}
		if (any)
		{
			++inapplicable;
			return Outcome::inapplicable;
		}
		++none;
		return Outcome::noMatch;
	};
	auto verify = [&] {
		CHECK_THAT(rec.full == full, "an expected move is a match, exactly once");
		CHECK_THAT(rec.noMatch == none, "a move without expectation is a mismatch, exactly once");
		CHECK_THAT(rec.inapplicable == inapplicable, "a move too many is inapplicable, exactly once");
		CHECK_THAT(rec.unfulfilled == unfulfilled, "an expectation that ends unmet is reported exactly once");
		CHECK_THAT(rec.error == 0 && rec.unhandled == 0, "nothing else is reported");
		for (std::size_t k = 0; k < exps.size(); ++k)
			if (model[k].live)
				CHECK_THAT(exps[k]->is_satisfied() == (model[k].min <= model[k].count), "the moves of the watched state are counted");
		if (payload)
		{
			for (int i = 0; i < 2; ++i)
				if (ms[i].alive)
					CHECK_THAT(payload_of(*slot[i]) == ms[i].payload, "the watched object itself behaves like its base");
			CHECK_THAT(baseMoves == moves && baseCopies == copies, "the base is moved and copied exactly once");
		}
	};
	auto end_exp = [&](std::size_t k) {
		exps[k].reset();
		model[k].live = false;
		if (model[k].count < model[k].min)
		{
			++unfulfilled;
			sym::reach("unfulfilled");
		}
	};
	ms[0] = SlotModel{true, states++, sym::make<U>("p")};
	slot[0] = make_obj<T>(ms[0].payload);
	auto step = [&](const int s) -> bool
	{
		const int code = sym::choice(opn[s], opCount * 2);
		const int op = code >> 1, i = code & 1, j = 1 - i;
		switch (op)
		{
		case opCreate:
			if (ms[i].alive)
				return false;
			ms[i] = SlotModel{true, states++, sym::make<U>(pn[s])};
			slot[i] = make_obj<T>(ms[i].payload);
			break;
		case opDestroy:
			if (!ms[i].alive)
				return false;
			ms[i].alive = false;
			delete slot[i];
			slot[i] = nullptr;
			break;
		case opCopyCtor:
			if (ms[i].alive || !ms[j].alive)
				return false;
			slot[i] = new T(std::as_const(*slot[j]));
			++copies;
			ms[i] = SlotModel{true, states++, ms[j].payload};
			break;
		case opMoveCtor:
		{
			if (ms[i].alive || !ms[j].alive || ms[j].state < 0)
				return false;
			const Outcome want = relocate(ms[j].state);
			const Outcome got = attempt([&] { slot[i] = new T(std::move(*slot[j])); });
			CHECK_THAT(got == want, "a move succeeds exactly if it was expected");
			if (want == Outcome::ok)
			{
				++moves;
				ms[i] = ms[j];
				ms[j].state = -1;
				sym::reach("moved");
			}
			else
				sym::reach("move refused");
			break;
		}
		case opCopyAssign:
		case opSelfCopy:
		{
			const int from = op == opSelfCopy ? i : j;
			if (!ms[i].alive || !ms[from].alive)
				return false;
			*slot[i] = std::as_const(*slot[from]);
			++copies;
			ms[i].payload = ms[from].payload;
			ms[i].state = states++;
			break;
		}
		case opMoveAssign:
		case opSelfMove:
		{
			const int from = op == opSelfMove ? i : j;
			if (!ms[i].alive || !ms[from].alive || ms[from].state < 0)
				return false;
			const Outcome want = relocate(ms[from].state);
			T& source = *slot[from];
			const Outcome got = attempt([&] { *slot[i] = std::move(source); });
			CHECK_THAT(got == want, "a move succeeds exactly if it was expected");
			if (want == Outcome::ok)
			{
				++moves;
				if (from != i)
				{
					ms[i] = ms[from];
					ms[from].state = -1;
				}
				sym::reach("assigned");
			}
			break;
		}
		case opExpect:
		{
			const std::size_t k = model.size();
			if (!ms[i].alive || ms[i].state < 0 || k >= (THOROUGH ? 3u : 2u))
				return false;
			const int min = sym::range<int>(minn[k], 0, 2);
			const int max = sym::range<int>(maxn[k], 0, 2);
			sym::assume(min <= max);
			exps.emplace_back(slot[i]->expect_relocate() && e::times(min, max));
			model.push_back(Exp{ms[i].state, min, max, 0, true});
			break;
		}
		default:
		{
			std::size_t k = 0;
			int seen = 0;
			for (; k < model.size(); ++k)
				if (model[k].live && seen++ == i)
					break;
			if (k == model.size())
				return false;
			end_exp(k);
			break;
		}
		}
		verify();
		return true;
	};
	for (int s = 0; s < steps; ++s)
	{
		bool possible = false;
		perhaps_in_flight(inFlight, [&] { possible = step(s); });
		if (!possible)
			return;
	}
	for (std::size_t k = 0; k < model.size(); ++k)
		if (model[k].live)
			end_exp(k);
	verify();
	for (int i = 0; i < 2; ++i)
		if (ms[i].alive)
		{
			ms[i].alive = false;
			delete slot[i];
		}
	verify();
}

HARNESS(history_bare) { history<RelocationWatcher>(THOROUGH ? 6 : 5); }
HARNESS(history_watched) { history<Watched<Payload, RelocationWatcher>>(THOROUGH ? 6 : 5); }
// the same while a foreign exception propagates
HARNESS(history_in_flight) { history<RelocationWatcher>(THOROUGH ? 4 : 3, true); }
HARNESS(history_in_flight_watched) { history<Watched<Payload, RelocationWatcher>>(THOROUGH ? 4 : 3, true); }
// the order of the watchers does not matter, moves are reported before the base is moved
struct Accepting : LifetimeWatcher
{
};
HARNESS(combined)
{
	setup();
	rec = Rec{};
	baseMoves = baseCopies = 0;
	using T = Watched<Payload, RelocationWatcher, LifetimeWatcher>;
	const U v = sym::make<U>("v");
	T* a = new T(v);
	const int n = sym::range<int>("n", 0, 3);
	ScopedExpectation end = a->expect_destruct();
	{
		ScopedExpectation move = a->expect_relocate() && e::times(n);
		int done = 0;
		for (int s = 0; s < 4; ++s)
			if (sym::flag(opn[s]))
			{
				T* next{};
				const Outcome o = attempt([&] { next = new T(std::move(*a)); });
				CHECK_THAT((o == Outcome::ok) == (done < n), "moves are accepted exactly as expected");
				if (o != Outcome::ok)
					break;
				++done;
				delete a;
				a = next;
				CHECK_THAT(a->v == v && baseMoves == done, "payload");
			}
		CHECK_THAT(move.is_satisfied() == (done == n), "counted");
		CHECK_THAT(rec.full == done, "each move once");
		rec = Rec{};
		sym::reach("combined");
		if (done < n)
			sym::reach("not moved often enough");
	}
	delete a;
	CHECK_THAT(rec.full == 1 && end.is_satisfied(), "the end of the last object is reported");
}

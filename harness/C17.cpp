// BOUNDS: subsets: three expectations, each throws, accepts or rejects as the 32-bit argument says (all 64 patterns), limits, 2 calls (thorough: 3), one expectation may end in between
// BOUNDS: sources: matcher predicate, value comparison, projection, custom matcher, custom policy, matcher inside a range matcher, negated matcher; payload int64, polymorphic, std::exception derived, move-only content
// BOUNDS: sequences: two elements of one sequence, either may throw, 3 calls
// BOUNDS: active: calls made while another exception is handled or while the stack is unwound
// BOUNDS: crowd: 24 expectations all but at most one of which throw; kinds: numbers, pointers, null, enum, string, bad_alloc, counted object
// OUTSIDE: exceptions thrown while a requirement describes itself or an argument is printed (see known_findings.txt)
#include "common.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;
using U = std::uint32_t;

struct Boom
{
	int who;
	U payload;
};

// bit 2k: expectation k throws, bit 2k+1: it accepts
static auto three_way(int k)
{
	return m::predicate([k](const Sym& s) {
		if ((s.v >> (2 * k)) & 1u)
			throw Boom{k, s.v};
		return ((s.v >> (2 * k + 1)) & 1u) != 0;
	});
}

HARNESS(subsets)
{
	setup();
	Mock<U(Sym)> mock{};
	const int max[3]{2, 1, 1};
	int used[3]{};
	std::optional<ScopedExpectation> e[3];
	e[0].emplace(finalize_at(mock.expect_call(three_way(0)) && finally::returns(100u) && expect::at_most(2), 0));
	e[1].emplace(finalize_at(mock.expect_call(three_way(1)) && finally::returns(101u) && expect::at_most(1), 1));
	e[2].emplace(finalize_at(mock.expect_call(three_way(2)) && finally::returns(102u) && expect::at_most(1), 2));
	bool alive[3]{true, true, true};
	const int calls = THOROUGH ? 3 : 2;
	for (int c = 0; c < calls; ++c)
	{
		if (c == 1)
		{
			const int d = sym::choice("drop", 4);
			if (d < 3)
			{
				e[d].reset();
				alive[d] = false;
			}
		}
		const Sym s{sym::make<U>("s")};
		const bool thr[3]{(s.v & 1u) != 0, (s.v & 4u) != 0, (s.v & 16u) != 0};
		const bool acc[3]{(s.v & 2u) != 0, (s.v & 8u) != 0, (s.v & 32u) != 0};
		rec = Rec{};
		U got = 0;
		const Outcome o = attempt([&] { got = mock(s); });
		int sel = -1, inapp = 0, none = 0, thrown = 0;
		int order[3]{};
		for (int i = 0; i < 3; ++i)
		{
			const int k = 2 - i; // newest first
			if (!alive[k])
				continue;
			if (thr[k])
				order[thrown++] = k;
			else if (!acc[k])
				++none;
			else if (used[k] < max[k])
			{
				if (sel < 0)
					sel = k;
			}
			else
				++inapp;
		}
		CHECK_THAT(rec.unhandled == thrown && rec.unhandledFrom.size() == static_cast<std::size_t>(thrown), "one report for each throwing expectation");
		for (int i = 0; i < thrown; ++i)
		{
			bool found = false;
			for (int j = 0; j < thrown; ++j)
				if (loc_index(rec.unhandledFrom[static_cast<std::size_t>(j)]) == order[i])
				{
					CHECK_THAT(!found, "only one");
					found = true;
					try
					{
						std::rethrow_exception(rec.exceptions[static_cast<std::size_t>(j)]);
					}
					catch (const Boom& b)
					{
						CHECK_THAT(b.who == order[i] && b.payload == s.v, "the very exception of that expectation");
					}
				}
			CHECK_THAT(found, "names the throwing expectation");
		}
		if (thrown)
		{
			CHECK_THAT(rec.call && rec.call->argDetails.size() == 1 && rec.call->argDetails[0].stateString == "S", "names the call");
			sym::reach("thrown");
		}
		if (sel >= 0)
		{
			CHECK_THAT(o == Outcome::ok && got == 100u + static_cast<U>(sel), "the others are considered as if the throwing one were absent");
			CHECK_THAT(rec.full == 1 && rec.noMatch == 0 && rec.inapplicable == 0, "full");
			++used[sel];
			if (thrown)
				sym::reach("matched beside a throwing one");
		}
		else if (inapp)
			CHECK_THAT(o == Outcome::inapplicable && rec.inapplicable == 1 && rec.reports.size() == static_cast<std::size_t>(inapp), "inapplicable, throwing ones are not listed");
		else
		{
			CHECK_THAT(o == Outcome::noMatch && rec.noMatch == 1 && rec.reports.size() == static_cast<std::size_t>(none), "no match, throwing ones are not listed");
			for (const auto& r : rec.reports)
			{
				const int k = loc_index(r.sourceLocation);
				CHECK_THAT(k >= 0 && alive[k] && !thr[k] && !acc[k], "listed ones");
			}
			if (thrown == 3)
				sym::reach("all throw");
		}
		CHECK_THAT(rec.unfulfilled == 0 && rec.error == 0, "nothing else");
	}
	for (int k = 0; k < 3; ++k)
		if (alive[k])
			CHECK_THAT(e[k]->is_satisfied(), "at_most is always satisfied");
}

// consumption must not change by throwing: exact limits reveal it
HARNESS(not_consumed)
{
	setup();
	Mock<void(Sym)> mock{};
	const int n = sym::range("n", 0, 3);
	std::optional<ScopedExpectation> e{finalize_at(mock.expect_call(three_way(0)) && expect::times(n), 0)};
	int used = 0;
	for (int c = 0; c < 4; ++c)
	{
		const Sym s{sym::make<U>("s")};
		const Outcome o = attempt([&] { mock(s); });
		if (s.v & 1u)
			CHECK_THAT(o == Outcome::noMatch && rec.reports.empty(), "throwing");
		else if (!(s.v & 2u))
			CHECK_THAT(o == Outcome::noMatch && rec.reports.size() == 1, "rejecting");
		else if (used < n)
		{
			CHECK_THAT(o == Outcome::ok, "accepted");
			++used;
		}
		else
			CHECK_THAT(o == Outcome::inapplicable, "saturated");
		CHECK_THAT(e->is_satisfied() == (used == n), "state");
	}
	e.reset();
	CHECK_THAT(rec.unfulfilled == (used == n ? 0 : 1), "throwing calls do not count");
	sym::reach("counted");
}

struct Base
{
	virtual ~Base() = default;
	virtual int id() const { return 1; }
	U p{};
};
struct Derived : Base
{
	static inline int live = 0;
	explicit Derived(U v)
	{
		p = v;
		++live;
	}
	Derived(const Derived& o)
		: Base{o}
	{
		++live;
	}
	~Derived() override { --live; }
	int id() const override { return 2; }
};
struct StdLike : std::runtime_error
{
	explicit StdLike(U v)
		: std::runtime_error{"std like"},
		  p{v}
	{
	}
	U p;
};

[[noreturn]] static void throw_kind(int kind, U p)
{
	switch (kind)
	{
	case 0: throw static_cast<std::int64_t>(p);
	case 1: throw Derived{p};
	case 2: throw StdLike{p};
	default: throw std::make_unique<U>(p);
	}
}
static int gKind = 0;
static U gTrigger = 0;

struct Touchy
{
	U v;
	friend bool operator==(const Touchy& a, const Touchy& b)
	{
		if (a.v == gTrigger || b.v == gTrigger)
			throw_kind(gKind, gTrigger);
		return a.v == b.v;
	}
};
template <>
struct mimicpp::custom::Printer<Touchy>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Touchy&)
	{
		*out++ = 'T';
		return out;
	}
};

struct TouchyMatcher
{
	static bool matches(const Touchy& t)
	{
		if (t.v == gTrigger)
			throw_kind(gKind, gTrigger);
		return true;
	}
	static StringT describe() { return "touchy"; }
};
template <>
struct mimicpp::custom::matcher_traits<TouchyMatcher>
{
	static bool matches(const TouchyMatcher& mt, auto& t) { return mt.matches(t); }
	static StringT describe(const TouchyMatcher& mt) { return mt.describe(); }
};

struct TouchyPolicy
{
	static bool is_satisfied() noexcept { return true; }
	static bool matches(const auto& info)
	{
		if (std::get<0>(info.args).get().v == gTrigger)
			throw_kind(gKind, gTrigger);
		return true;
	}
	static StringT describe() { return "touchy policy"; }
	static void consume(const auto&) {}
};

HARNESS(sources)
{
	setup();
	gKind = sym::choice("kind", 4);
	gTrigger = sym::make<U>("trigger");
	const Touchy a{sym::make<U>("a")};
	Mock<int(const Touchy&)> mock{};
	ScopedExpectation fallback = finalize_at(mock.expect_call(m::_) && finally::returns(1) && expect::at_most(1), 0);
	std::optional<ScopedExpectation> e{};
	const auto pred = [](const Touchy& t) {
		if (t.v == gTrigger)
			throw_kind(gKind, gTrigger);
		return true;
	};
	auto build = [&](auto&& b) { e.emplace(finalize_at(std::move(b) && finally::returns(2) && expect::at_most(1), 1)); };
	const U other = a.v; // equal value: accepts unless it throws
	switch (sym::choice("source", 7))
	{
	case 0: build(mock.expect_call(m::predicate(pred))); break;
	case 1: build(mock.expect_call(Touchy{other})); break;
	case 2: build(mock.expect_call(m::_) && expect::arg<0>(m::_, [&](const Touchy& t) { return pred(t); })); break;
	case 3: build(mock.expect_call(TouchyMatcher{})); break;
	case 4: build(mock.expect_call(m::_) && TouchyPolicy{}); break;
	case 5: build(mock.expect_call(m::_) && expect::arg<0>(m::range::each_element(m::predicate(pred)), [](const Touchy& t) { return std::vector<Touchy>{t}; })); break;
	default: build(mock.expect_call(!!m::predicate(pred))); break;
	}
	int got = 0;
	const Outcome o = attempt([&] { got = mock(a); });
	CHECK_THAT(o == Outcome::ok && rec.full == 1, "matched");
	if (a.v == gTrigger)
	{
		CHECK_THAT(got == 1 && rec.unhandled == 1, "the other expectation is used");
		CHECK_THAT(rec.expectation && loc_index(rec.expectation->sourceLocation) == 1, "the throwing expectation is named");
		CHECK_THAT(rec.expectation->timesDescription.has_value() && !rec.expectation->expectationDescriptions.empty(), "described");
		int caught = -1;
		U p = ~gTrigger;
		try
		{
			std::rethrow_exception(rec.exception);
		}
		catch (const std::int64_t& v)
		{
			caught = 0;
			p = static_cast<U>(v);
		}
		catch (const Base& b)
		{
			caught = b.id() == 2 ? 1 : -2;
			p = b.p;
		}
		catch (const std::exception& x)
		{
			caught = std::string_view{x.what()} == "std like" ? 2 : -3;
			p = dynamic_cast<const StdLike&>(x).p;
		}
		catch (const std::unique_ptr<U>& q)
		{
			caught = 3;
			p = *q;
		}
		CHECK_THAT(caught == gKind && p == gTrigger, "type and value of the exception");
		sym::reach("thrown");
		rec = Rec{};
		CHECK_THAT(Derived::live == 0, "the exception object is released with the report");
	}
	else
	{
		CHECK_THAT(got == 2 && rec.unhandled == 0, "nothing thrown");
		sym::reach("quiet");
	}
}

HARNESS(sequences)
{
	setup();
	Mock<int(Sym)> mock{};
	SequenceT seq{};
	std::optional<ScopedExpectation> e0{finalize_at(mock.expect_call(three_way(0)) && expect::in_sequence(seq) && finally::returns(0), 0)};
	std::optional<ScopedExpectation> e1{finalize_at(mock.expect_call(three_way(1)) && expect::in_sequence(seq) && expect::at_most(2) && finally::returns(1), 1)};
	int cursor = 0, used0 = 0, used1 = 0;
	for (int c = 0; c < 3; ++c)
	{
		const Sym s{sym::make<U>("s")};
		const bool t0 = s.v & 1u, a0 = s.v & 2u, t1 = s.v & 4u, a1 = s.v & 8u;
		const int before = rec.unhandled;
		int got = -1;
		const Outcome o = attempt([&] { got = mock(s); });
		CHECK_THAT(rec.unhandled - before == (t0 ? 1 : 0) + (t1 ? 1 : 0), "reported");
		const bool m0 = !t0 && a0, m1 = !t1 && a1;
		if (m0 && cursor == 0 && used0 < 1)
		{
			CHECK_THAT(o == Outcome::ok && got == 0, "first element");
			++used0;
		}
		else if (m1 && (cursor == 1 || used0 == 1) && used1 < 2)
		{
			CHECK_THAT(o == Outcome::ok && got == 1, "second element");
			++used1;
			cursor = 1;
			sym::reach("second");
		}
		else
			CHECK_THAT(o == (m0 || m1 ? Outcome::inapplicable : Outcome::noMatch), "failure");
	}
	e0.reset();
	e1.reset();
	CHECK_THAT(rec.unfulfilled == (used0 == 1 ? 0 : 1), "only real calls count");
}

HARNESS(active)
{
	setup();
	Mock<int(Sym)> mock{};
	ScopedExpectation e0 = finalize_at(mock.expect_call(m::_) && finally::returns(7) && expect::at_most(5), 0);
	ScopedExpectation e1 = finalize_at(mock.expect_call(three_way(0)) && finally::returns(8) && expect::at_most(5), 1);
	const Sym s{sym::make<U>("s")};
	const U outer = sym::make<U>("outer");
	const int want = (s.v & 1u) ? 7 : ((s.v & 2u) ? 8 : 7);
	if (sym::flag("unwinding"))
	{
		struct Guard
		{
			Mock<int(Sym)>& mock;
			const Sym& s;
			int& got;
			~Guard() { got = mock(s); }
		};
		int got = 0;
		U p = ~outer;
		try
		{
			Guard g{mock, s, got};
			throw outer;
		}
		catch (U v)
		{
			p = v;
		}
		CHECK_THAT(got == want && p == outer, "call while the stack is unwound");
		sym::reach("unwinding");
	}
	else
	{
		U p = ~outer;
		int got = 0;
		try
		{
			try
			{
				throw outer;
			}
			catch (...)
			{
				got = mock(s);
				throw;
			}
		}
		catch (U v)
		{
			p = v;
		}
		CHECK_THAT(got == want && p == outer, "the handled exception stays the current one");
		sym::reach("handling");
	}
	CHECK_THAT(rec.unhandled == ((s.v & 1u) ? 1 : 0), "reported");
	if (s.v & 1u)
	{
		U p = 0;
		try
		{
			std::rethrow_exception(rec.exception);
		}
		catch (const Boom& b)
		{
			p = b.payload;
		}
		CHECK_THAT(p == s.v, "the inner exception is the reported one");
	}
}

struct MuteMatcher
{
};
template <>
struct mimicpp::custom::matcher_traits<MuteMatcher>
{
	static bool matches(const MuteMatcher&, auto& t) { return (t.v & 1u) != 0; }
	static StringT describe(const MuteMatcher&)
	{
		if (gTrigger == 1)
			throw 42;
		return "mute";
	}
};

// a requirement whose description throws, like one whose check throws, must not bring the test down
HARNESS(describing)
{
	setup();
	Mock<int(Sym)> mock{};
	ScopedExpectation e0 = finalize_at(mock.expect_call(m::_) && finally::returns(7) && expect::at_most(5), 0);
	ScopedExpectation e1 = finalize_at(mock.expect_call(MuteMatcher{}) && finally::returns(8) && expect::at_most(5), 1);
	gTrigger = sym::range<U>("trigger", 0, 1);
	const Sym s{sym::make<U>("s")};
	int got = 0;
	const Outcome o = attempt([&] { got = mock(s); });
	CHECK_THAT(o == Outcome::ok, "matched");
	CHECK_THAT(got == (gTrigger == 0 && (s.v & 1u) ? 8 : 7), "selected");
	gTrigger = 0;
}

// many throwing expectations beside few which do not
HARNESS(crowd)
{
	setup();
	constexpr int size = 24;
	Mock<U(Sym)> mock{};
	std::vector<ScopedExpectation> e{};
	const int normal = sym::range("normal", 0, size); // position of the one expectation which does not throw, size: none
	bool accept = false;
	for (int i = 0; i < size; ++i)
	{
		if (i == normal)
			e.emplace_back(mock.expect_call(m::predicate([&](const Sym&) { return accept; })) && finally::returns(7u) && expect::at_least(0));
		else
			e.emplace_back(mock.expect_call(m::predicate([i](const Sym& s) -> bool { throw Boom{i, s.v}; })) && finally::returns(1u) && expect::at_least(0));
	}
	const Sym s{sym::make<U>("s")};
	accept = sym::flag("accept");
	clear_rec();
	U got = 0;
	const Outcome o = attempt([&] { got = mock(s); });
	const int throwing = normal == size ? size : size - 1;
	CHECK_THAT(rec.unhandled == throwing && rec.exceptions.size() == static_cast<std::size_t>(throwing), "one report for each throwing expectation");
	bool seen[size]{};
	for (const auto& p : rec.exceptions)
	{
		try
		{
			std::rethrow_exception(p);
		}
		catch (const Boom& b)
		{
			CHECK_THAT(b.who >= 0 && b.who < size && b.who != normal && !seen[b.who] && b.payload == s.v, "each one once");
			seen[b.who] = true;
		}
	}
	if (normal < size && accept)
	{
		CHECK_THAT(o == Outcome::ok && got == 7u && rec.full == 1, "the remaining one is used");
		sym::reach("used beside many");
	}
	else
	{
		CHECK_THAT(o == Outcome::noMatch && rec.reports.size() == (normal < size ? 1u : 0u), "nothing else takes the call");
		sym::reach("none beside many");
	}
}

// whatever is thrown reaches the reporter as it is
enum class Odd : std::uint8_t
{
};
struct Counted
{
	static inline int alive = 0;
	U v;
	explicit Counted(U v)
		: v{v}
	{
		++alive;
	}
	Counted(const Counted& o)
		: v{o.v}
	{
		++alive;
	}
	~Counted() { --alive; }
};
HARNESS(kinds)
{
	setup();
	const int kind = sym::choice("kind", 9);
	const U v = sym::make<U>("v");
	static int there = 3;
	Mock<U(Sym)> mock{};
	auto thrower = [&](const Sym& s) -> bool {
		switch (kind)
		{
		case 0: throw s.v;
		case 1: throw static_cast<std::int8_t>(s.v);
		case 2: throw "a text";
		case 3: throw std::bad_alloc{};
		case 4: throw std::string{"a text which is too long for the object"};
		case 5: throw &there;
		case 6: throw nullptr;
		case 7: throw static_cast<Odd>(s.v);
		default: throw Counted{s.v};
		}
	};
	std::optional<ScopedExpectation> lower{mock.expect_call(m::_) && finally::returns(5u) && expect::at_least(0)};
	ScopedExpectation upper = mock.expect_call(m::predicate(thrower)) && finally::returns(6u) && expect::at_least(0);
	const bool with = sym::flag("another");
	if (!with)
		lower.reset();
	for (int c = 0; c < 2; ++c)
	{
		clear_rec();
		U got = 0;
		const Outcome o = attempt([&] { got = mock(Sym{v}); });
		CHECK_THAT(with ? o == Outcome::ok && got == 5u : o == Outcome::noMatch, "as if the throwing one were absent");
		CHECK_THAT(rec.unhandled == 1 && rec.exception, "reported once, with the exception");
		bool same = false;
		try
		{
			std::rethrow_exception(rec.exception);
		}
		catch (std::nullptr_t) { same = kind == 6; }
		catch (const U& x) { same = kind == 0 && x == v; }
		catch (const std::int8_t& x) { same = kind == 1 && x == static_cast<std::int8_t>(v); }
		catch (const char* x) { same = kind == 2 && std::string_view{x} == "a text"; }
		catch (const std::bad_alloc&) { same = kind == 3; }
		catch (const std::string& x) { same = kind == 4 && x == "a text which is too long for the object"; }
		catch (const int* x) { same = kind == 5 && x == &there; }
		catch (const Odd& x) { same = kind == 7 && x == static_cast<Odd>(v); }
		catch (const Counted& x) { same = kind == 8 && x.v == v && Counted::alive == 1; }
		CHECK_THAT(same, "the very object");
		clear_rec();
		CHECK_THAT(Counted::alive == 0, "which ends with its last owner");
	}
	sym::reach("any type");
}

// BOUNDS: scenario: histories of 5 steps (thorough: 6) over {create, call, destroy k}, at most 3 live expectations, each with arbitrary 32-bit operand (value match) and limits 0<=min<=max<=2, arguments arbitrary 32-bit
// BOUNDS: sequenced: 3 expectations (2 attached to one sequence), limits 0..2, 4 calls, all accept patterns
// BOUNDS: nothing_expected/two_arguments: arbitrary 32-bit arguments, single calls
// BOUNDS: in_flight: two expectations, limits 0..2, three calls made (or not) within a destructor while a foreign exception propagates
// BOUNDS: nested: a matcher of one mock calls another mock of the same signature, whose matcher calls a third one; limits 0..1, arbitrary accept pattern
// BOUNDS: crowd: 300 live expectations with distinct operands, limits 0..1, two calls at selected positions or aimed at none
// OUTSIDE: longer histories, more than 3 simultaneously live expectations; multi-threaded use (C26)
#include "common.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;

HARNESS(one_expectation)
{
	setup();
	Mock<int(Sym)> mock{};
	const int min = sym::range<int>("min", 0, 3);
	const int max = sym::range<int>("max", 0, 3);
	sym::assume(min <= max);
	const Sym want{sym::make<std::uint32_t>("want")};
	const int result = sym::make<int>("result");
	{
		ScopedExpectation exp = mock.expect_call(m::eq(want)) && expect::times(min, max) && finally::returns(result);
		int count = 0;
		for (int i = 0; i < 3; ++i)
		{
			const Sym arg{sym::make<std::uint32_t>("arg")};
			int got{};
			const int before = rec.total();
			const Outcome o = attempt([&] { got = mock(arg); });
			const bool matching = arg.v == want.v;
			const Outcome expected = !matching ? Outcome::noMatch : count == max ? Outcome::inapplicable : Outcome::ok;
			CHECK_THAT(o == expected, "verdict of a call");
			CHECK_THAT(rec.total() == before + 1, "exactly one report per call");
			if (o == Outcome::ok)
			{
				++count;
				CHECK_THAT(got == result, "returned value");
				sym::reach("matched");
			}
			else if (o == Outcome::inapplicable)
				sym::reach("saturated");
			else
				sym::reach("rejected");
			CHECK_THAT(exp.is_satisfied() == (min <= count && count <= max), "is_satisfied");
			sym::observe("outcome", static_cast<unsigned>(o));
		}
	}
}

struct Entry
{
	ScopedExpectation exp;
	int id, min, max, count;
	Sym want;
};

HARNESS(scenario)
{
	setup();
	Mock<int(Sym)> mock{};
	std::vector<Entry> live{}; // oldest first
	int created = 0;
	const int steps = THOROUGH ? 6 : 5;
	for (int step = 0; step < steps; ++step)
	{
		const int op = sym::choice("op", 3);
		if (op == 0)
		{
			if (live.size() >= 3 || created >= 4)
				__sym_stop();
			const int min = sym::range<int>("min", 0, 2);
			const int max = sym::range<int>("max", 0, 2);
			sym::assume(min <= max);
			const Sym want{sym::make<std::uint32_t>("want")};
			const int id = created++;
			live.push_back(Entry{
				finalize_at(mock.expect_call(m::eq(want)) && expect::times(min, max) && finally::returns(id), id), id, min, max, 0, want});
		}
		else if (op == 1)
		{
			const Sym arg{sym::make<std::uint32_t>("arg")};
			const int before = rec.total();
			int got = -1;
			const Outcome o = attempt([&] { got = mock(arg); });
			CHECK_THAT(rec.total() == before + 1, "exactly one report per call");
			unsigned accepting = 0, applicable = 0;
			for (auto& e : live)
				if (e.want.v == arg.v)
				{
					accepting |= 1u << e.id;
					if (e.count < e.max)
						applicable |= 1u << e.id;
				}
			if (applicable)
			{
				CHECK_THAT(o == Outcome::ok, "a live applicable expectation accepts: the call must succeed");
				CHECK_THAT(rec.reports.size() == 1, "one match report");
				const int id = loc_index(rec.reports[0].sourceLocation);
				CHECK_THAT(id >= 0 && ((applicable >> id) & 1u), "the reported expectation accepts and is applicable");
				CHECK_THAT(got == id, "result of the reported expectation");
				for (auto& e : live)
					if (e.id == id)
						++e.count;
				sym::reach("full match");
			}
			else if (accepting)
			{
				CHECK_THAT(o == Outcome::inapplicable, "only inapplicable expectations accept");
				unsigned listed = 0;
				for (auto& r : rec.reports)
					listed |= 1u << loc_index(r.sourceLocation);
				CHECK_THAT(listed == accepting && rec.reports.size() == static_cast<std::size_t>(__builtin_popcount(accepting)),
					"inapplicable report lists exactly the accepting expectations");
				if (rec.reports.size() > 1)
					sym::reach("several inapplicable");
			}
			else
			{
				CHECK_THAT(o == Outcome::noMatch, "nothing accepts");
				unsigned listed = 0, all = 0;
				for (auto& r : rec.reports)
					listed |= 1u << loc_index(r.sourceLocation);
				for (auto& e : live)
					all |= 1u << e.id;
				CHECK_THAT(listed == all && rec.reports.size() == live.size(), "no-match report lists every live expectation once");
				if (live.size() > 1)
					sym::reach("several not matching");
			}
			// consumed state is exactly what the model says
			for (auto& e : live)
				CHECK_THAT(e.exp.is_satisfied() == (e.min <= e.count && e.count <= e.max), "exactly one expectation consumed");
			sym::observe("outcome", static_cast<unsigned>(o));
			sym::observe("got", static_cast<unsigned>(got));
		}
		else
		{
			if (live.empty())
				__sym_stop();
			const int k = sym::choice("victim", static_cast<int>(live.size()));
			// move the victim out and let it die
			{
				ScopedExpectation victim{std::move(live[static_cast<std::size_t>(k)].exp)};
				std::vector<Entry> rest{};
				for (std::size_t i = 0; i < live.size(); ++i)
					if (static_cast<int>(i) != k)
						rest.push_back(std::move(live[i]));
				live = std::move(rest);
			}
			sym::reach("destroyed");
		}
	}
	sym::observe("unfulfilled", static_cast<unsigned>(rec.unfulfilled));
}

HARNESS(sequenced)
{
	setup();
	Mock<int(Sym)> mock{};
	const int max0 = sym::range<int>("max0", 0, 2);
	const int max1 = sym::range<int>("max1", 0, 2);
	const int max2 = THOROUGH ? sym::range<int>("max2", 0, 2) : 1;
	const int min0 = sym::range<int>("min0", 0, 2);
	const int min1 = 0;
	sym::assume(min0 <= max0);
	SequenceT seq{};
	ScopedExpectation e0 = finalize_at(mock.expect_call(bit(0)) && expect::times(min0, max0) && expect::in_sequence(seq) && finally::returns(0), 0);
	ScopedExpectation e1 = finalize_at(mock.expect_call(bit(1)) && expect::times(min1, max1) && expect::in_sequence(seq) && finally::returns(1), 1);
	ScopedExpectation e2 = finalize_at(mock.expect_call(bit(2)) && expect::times(0, max2) && finally::returns(2), 2);
	int c[3]{};
	const int mx[3]{max0, max1, max2};
	bool passed0 = false;
	for (int i = 0; i < (THOROUGH ? 5 : 4); ++i)
	{
		const Sym arg{static_cast<std::uint32_t>(sym::choice("pattern", 8))};
		int got = -1;
		const int before = rec.total();
		const Outcome o = attempt([&] { got = mock(arg); });
		CHECK_THAT(rec.total() == before + 1, "exactly one report per call");
		unsigned applicable = 0;
		if ((arg.v & 1) && !passed0 && c[0] < mx[0])
			applicable |= 1;
		if ((arg.v & 2) && c[1] < mx[1] && (passed0 || c[0] >= min0))
			applicable |= 2;
		if ((arg.v & 4) && c[2] < mx[2])
			applicable |= 4;
		if (applicable)
		{
			CHECK_THAT(o == Outcome::ok, "a live applicable expectation accepts: the call must succeed");
			CHECK_THAT(got >= 0 && got < 3 && ((applicable >> got) & 1u), "an applicable expectation is used");
			CHECK_THAT(rec.reports.size() == 1 && loc_index(rec.reports[0].sourceLocation) == got, "the used one is reported");
			++c[got];
			if (got == 1)
				passed0 = true;
			sym::reach("sequence full");
		}
		else
		{
			CHECK_THAT(o == (arg.v ? Outcome::inapplicable : Outcome::noMatch), "failure class");
			unsigned listed = 0;
			for (auto& r : rec.reports)
				listed |= 1u << loc_index(r.sourceLocation);
			CHECK_THAT(listed == (arg.v ? arg.v : 7u), "listed expectations");
			CHECK_THAT(rec.reports.size() == static_cast<std::size_t>(__builtin_popcount(arg.v ? arg.v : 7u)), "listed once each");
			if (arg.v)
				sym::reach("sequence inapplicable");
		}
		sym::observe("got", static_cast<unsigned>(got));
	}
}

HARNESS(two_arguments)
{
	setup();
	Mock<void(Sym, Sym)> mock{};
	Mock<void()> plain{};
	const Sym a{sym::make<std::uint32_t>("a")}, b{sym::make<std::uint32_t>("b")}, c{sym::make<std::uint32_t>("c")}, d{sym::make<std::uint32_t>("d")};
	CHECK_THAT(attempt([&] { mock(a, b); }) == Outcome::noMatch, "no expectation: no match");
	CHECK_THAT(rec.noMatch == 1 && rec.total() == 1 && rec.reports.empty(), "empty no-match report");
	CHECK_THAT(attempt([&] { plain(); }) == Outcome::noMatch, "no expectation: no match");
	CHECK_THAT(rec.noMatch == 2 && rec.total() == 2 && rec.reports.empty(), "empty no-match report");
	ScopedExpectation e0 = mock.expect_call(m::eq(a), m::_);
	ScopedExpectation e1 = mock.expect_call(m::_, m::eq(b));
	ScopedExpectation e2 = plain.expect_call();
	CHECK_THAT(attempt([&] { plain(); }) == Outcome::ok, "unconditional expectation");
	CHECK_THAT(rec.full == 1 && rec.total() == 3, "one full match");
	CHECK_THAT(attempt([&] { plain(); }) == Outcome::inapplicable, "saturated");
	CHECK_THAT(rec.inapplicable == 1 && rec.total() == 4 && rec.reports.size() == 1, "one inapplicable");
	const Outcome o = attempt([&] { mock(c, d); });
	CHECK_THAT(o == (c.v == a.v || d.v == b.v ? Outcome::ok : Outcome::noMatch), "verdict");
	CHECK_THAT(rec.total() == 5, "one report");
	if (o == Outcome::ok)
	{
		sym::reach("two args ok");
		CHECK_THAT(e0.is_satisfied() != e1.is_satisfied(), "exactly one consumed");
	}
	else
	{
		CHECK_THAT(rec.reports.size() == 2, "both listed");
		CHECK_THAT(!e0.is_satisfied() && !e1.is_satisfied(), "none consumed");
		sym::reach("two args rejected");
	}
}

// the verdict does not depend on an exception that is propagating
HARNESS(in_flight)
{
	setup();
	Mock<int(Sym)> mock{};
	int min[2], max[2], count[2]{};
	std::vector<ScopedExpectation> exps{};
	for (int i = 0; i < 2; ++i)
	{
		min[i] = sym::range<int>(i ? "min1" : "min0", 0, 1);
		max[i] = sym::range<int>(i ? "max1" : "max0", 0, 2);
		sym::assume(min[i] <= max[i]);
		exps.push_back(finalize_at(mock.expect_call(bit(i)) && expect::times(min[i], max[i]) && finally::returns(10 + i), i));
	}
	static const char* const flight[]{"f0", "f1", "f2"};
	static const char* const arg[]{"a0", "a1", "a2"};
	for (int c = 0; c < 3; ++c)
	{
		const Sym x{sym::make<std::uint32_t>(arg[c])};
		const int before = rec.total();
		int result = -1;
		Outcome o{};
		perhaps_in_flight(sym::flag(flight[c]), [&] { o = attempt([&] { result = mock(x); }); });
		int want = -1;
		bool any = false;
		for (int i = 1; i >= 0; --i)
			if ((x.v >> i) & 1u)
			{
				any = true;
				if (want < 0 && count[i] < max[i])
					want = i;
			}
		CHECK_THAT(o == (want >= 0 ? Outcome::ok : any ? Outcome::inapplicable : Outcome::noMatch), "verdict");
		CHECK_THAT(rec.total() == before + 1, "exactly one report");
		if (want >= 0)
		{
			++count[want];
			CHECK_THAT(result == 10 + want, "result of the selected expectation");
			sym::reach("match in flight");
		}
		else
			sym::reach("mismatch in flight");
	}
	for (std::size_t i = 0; i < 2; ++i)
		CHECK_THAT(exps[i].is_satisfied() == (min[i] <= count[i]), "counted");
}

// many expectations at once: none is overlooked, all are reported
HARNESS(crowd)
{
	setup();
	constexpr int n = 300;
	static constexpr int at[]{0, 1, 15, 16, 63, 64, 127, 128, 254, 255, 256, n - 1, n};
	Mock<int(Sym)> mock{};
	std::vector<ScopedExpectation> exps{};
	for (int i = 0; i < n; ++i)
		exps.push_back(mock.expect_call(Sym{static_cast<std::uint32_t>(i)}) && expect::at_most(1) && finally::returns(static_cast<int>(i)));
	int used = -1;
	for (int c = 0; c < 2; ++c)
	{
		const int k = at[sym::choice(c ? "second" : "first", 13)];
		int got = -1;
		const Outcome o = attempt([&] { got = mock(Sym{static_cast<std::uint32_t>(k)}); });
		if (k == n)
		{
			CHECK_THAT(o == Outcome::noMatch, "nothing matches");
			CHECK_THAT(rec.reports.size() == n, "all live expectations are reported");
		}
		else if (k == used)
		{
			CHECK_THAT(o == Outcome::inapplicable, "the only matching one is saturated");
			CHECK_THAT(rec.reports.size() == 1, "and reported");
			sym::reach("saturated in a crowd");
		}
		else
		{
			CHECK_THAT(o == Outcome::ok && got == k, "the matching one is found");
			used = k;
		}
	}
	CHECK_THAT(rec.total() == 2, "one outcome per call");
	__sym_done();
}

// calls made by a matcher are calls like any other
HARNESS(nested)
{
	setup();
	Mock<int(Sym)> outer{}, inner{}, innermost{};
	const int max = sym::flag("max");
	Outcome io = Outcome::ok, iio = Outcome::ok;
	int depth = 0, got = -1, igot = -1, iigot = -1;
	ScopedExpectation c = innermost.expect_call(bit(2)) && expect::at_most(max) && finally::returns(3);
	ScopedExpectation b = inner.expect_call(m::predicate([&](const Sym& s) {
		++depth;
		iio = attempt([&] { iigot = innermost(s); });
		return ((s.v >> 1) & 1u) != 0;
	})) && expect::at_most(1) && finally::returns(2);
	ScopedExpectation a = outer.expect_call(m::predicate([&](const Sym& s) {
		++depth;
		io = attempt([&] { igot = inner(s); });
		return (s.v & 1u) != 0;
	})) && expect::at_most(1) && finally::returns(1);
	const Sym x{sym::make<std::uint32_t>("x")};
	const Outcome o = attempt([&] { got = outer(x); });
	CHECK_THAT(depth == 2, "each matcher is asked once");
	CHECK_THAT(o == (x.v & 1u ? Outcome::ok : Outcome::noMatch) && got == (x.v & 1u ? 1 : -1), "verdict of the outer call");
	CHECK_THAT(io == (x.v & 2u ? Outcome::ok : Outcome::noMatch) && igot == (x.v & 2u ? 2 : -1), "verdict of the inner call");
	CHECK_THAT(iio == (!(x.v & 4u) ? Outcome::noMatch : max ? Outcome::ok : Outcome::inapplicable) && iigot == (x.v & 4u && max ? 3 : -1), "verdict of the innermost call");
	CHECK_THAT(rec.total() == 3, "one outcome per call");
	if (o == Outcome::ok && io == Outcome::ok && iio == Outcome::ok)
		sym::reach("nested");
}

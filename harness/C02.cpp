// BOUNDS: scenario: histories of 6 steps (thorough: 7) over {create, call, destroy k}, at most 4 live expectations with limits max in 1..2, every accept pattern per call
// BOUNDS: many: 9 simultaneously live expectations (thorough: 11), every accept pattern (one symbolic mask), two successive calls, destruction of an arbitrary one in between
// BOUNDS: values: three live expectations with arbitrary 32-bit operands under eq/lt/ge matchers, three calls with arbitrary 32-bit arguments, limits max in 1..2
// BOUNDS: crowd: 300 simultaneously live expectations, any two of 12 selected positions accept the calls, one arbitrary of these positions destroyed in between
// OUTSIDE: more live expectations, longer histories; expectations attached to sequences (C06-C08)
#include "common.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;

struct Entry
{
	ScopedExpectation exp;
	int id, max, count;
};

HARNESS(scenario)
{
	setup();
	Mock<int(Sym)> mock{};
	std::vector<Entry> live{}; // oldest first
	int created = 0;
	const int steps = THOROUGH ? 7 : 6;
	for (int step = 0; step < steps; ++step)
	{
		const int op = step == 0 ? 0 : sym::choice("op", 3);
		if (op == 0)
		{
			if (live.size() >= 4 || created >= 4)
				__sym_stop();
			const int max = sym::range<int>("max", 1, 2);
			const int id = created++;
			live.push_back(Entry{
				finalize_at(mock.expect_call(bit(id)) && expect::at_most(max) && finally::returns(id), id), id, max, 0});
		}
		else if (op == 1)
		{
			const Sym arg{sym::make<std::uint32_t>("arg")};
			int want = -1;
			for (auto& e : live)
				if (((arg.v >> e.id) & 1u) && e.count < e.max)
					want = e.id; // the youngest one wins
			int got = -1;
			attempt([&] { got = mock(arg); });
			CHECK_THAT(got == want, "the newest applicable matching expectation is used");
			if (want >= 0)
				CHECK_THAT(loc_index(rec.reports.at(0).sourceLocation) == want, "and reported");
			std::size_t n = 0;
			for (auto& e : live)
			{
				if (e.id == want)
					++e.count;
				n += ((arg.v >> e.id) & 1u) != 0;
			}
			if (want >= 0 && n >= 2)
				sym::reach("choice between several");
			if (want >= 0 && want != live.back().id)
				sym::reach("older one used");
			sym::observe("got", static_cast<unsigned>(got));
		}
		else
		{
			if (live.empty())
				__sym_stop();
			const int k = sym::choice("victim", static_cast<int>(live.size()));
			live.erase(live.begin() + k); // shifts the younger ones by move assignment
			sym::reach("destroyed");
		}
	}
}

HARNESS(many)
{
	setup();
	constexpr int n = THOROUGH ? 11 : 9;
	Mock<int(Sym)> mock{};
	std::vector<std::unique_ptr<ScopedExpectation>> exps{};
	for (int i = 0; i < n; ++i)
		exps.push_back(std::make_unique<ScopedExpectation>(mock.expect_call(bit(i)) && expect::at_most(1) && finally::returns(i)));
	std::uint32_t open = (1u << n) - 1;
	const Sym first{sym::make<std::uint32_t>("first")};
	int got = -1;
	attempt([&] { got = mock(first); });
	int want = -1;
	for (int i = 0; i < n; ++i)
		if ((first.v >> i) & 1u)
			want = i;
	CHECK_THAT(got == want, "the newest matching expectation is used");
	if (want >= 0)
		open &= ~(1u << want);
	const int victim = sym::choice("victim", n);
	exps[static_cast<std::size_t>(victim)].reset();
	open &= ~(1u << victim);
	got = -1;
	attempt([&] { got = mock(first); });
	want = -1;
	for (int i = 0; i < n; ++i)
		if ((first.v >> i) & (open >> i) & 1u)
			want = i;
	CHECK_THAT(got == want, "the newest applicable one of the remaining expectations is used");
	if (want >= 0)
		sym::reach("second pick");
	sym::observe("got", static_cast<unsigned>(got));
}

HARNESS(values)
{
	setup();
	Mock<int(Sym)> mock{};
	const Sym a{sym::make<std::uint32_t>("a")}, b{sym::make<std::uint32_t>("b")}, c{sym::make<std::uint32_t>("c")};
	int left[3]{sym::range<int>("m0", 1, 2), sym::range<int>("m1", 1, 2), sym::range<int>("m2", 1, 2)};
	ScopedExpectation e0 = mock.expect_call(m::eq(a)) && expect::at_most(left[0]) && finally::returns(0);
	ScopedExpectation e1 = mock.expect_call(m::lt(b)) && expect::at_most(left[1]) && finally::returns(1);
	ScopedExpectation e2 = mock.expect_call(m::ge(c)) && expect::at_most(left[2]) && finally::returns(2);
	for (int i = 0; i < 3; ++i)
	{
		const Sym x{sym::make<std::uint32_t>("x")};
		int got = -1;
		attempt([&] { got = mock(x); });
		const int want = x.v >= c.v && left[2] ? 2 : x.v < b.v && left[1] ? 1 : x.v == a.v && left[0] ? 0 : -1;
		CHECK_THAT(got == want, "the newest applicable matching expectation is used");
		if (want >= 0)
			--left[want];
		if (want == 0)
			sym::reach("oldest");
		if (want == 1)
			sym::reach("middle");
	}
}

HARNESS(crowd)
{
	setup();
	constexpr int n = 300;
	static constexpr int at[]{0, 1, 15, 16, 63, 64, 127, 128, 254, 255, 256, n - 1};
	Mock<int(Sym)> mock{};
	std::vector<std::unique_ptr<ScopedExpectation>> exps{};
	for (int i = 0; i < n; ++i)
		exps.push_back(std::make_unique<ScopedExpectation>(
			mock.expect_call(m::predicate([i](const Sym& s) { return (s.v >> 16) == static_cast<unsigned>(i) || (s.v & 0xffffu) == static_cast<unsigned>(i); }))
			&& expect::at_most(2) && finally::returns(static_cast<int>(i))));
	const int a = at[sym::choice("a", 12)], b = at[sym::choice("b", 12)];
	const Sym arg{static_cast<std::uint32_t>(a) << 16 | static_cast<std::uint32_t>(b)};
	int got = -1;
	attempt([&] { got = mock(arg); });
	CHECK_THAT(got == (a > b ? a : b), "the newest matching expectation is used");
	const int victim = sym::flag("victim") ? a : at[sym::choice("other", 3) + 6];
	exps[static_cast<std::size_t>(victim)].reset();
	got = -1;
	attempt([&] { got = mock(arg); });
	int want = -1;
	for (const int x : {a, b})
		if (x != victim && x > want)
			want = x;
	CHECK_THAT(got == want, "the newest of the remaining ones is used");
	sym::reach("crowd");
	__sym_done();
}

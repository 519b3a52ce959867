// BOUNDS: one: 0<=min<=max<=3, up to 3 calls with arbitrary arguments, throwing and silent reporter; full_range: min in 0..3, 65536, INT_MAX-1 and INT_MAX with every max, up to 3 calls
// BOUNDS: pool: 3 expectations with limits 0..2, up to 3 calls with every accept pattern, destroyed in every order (thorough: 4 expectations), optionally moved before
// BOUNDS: policy: custom policies with arbitrary satisfied flags (up to 2 per expectation), limits 0..1
// BOUNDS: throwing: reporter throws; expectation ended by scope exit, reset of a unique_ptr, or while another exception is in flight
// BOUNDS: in_flight: two expectations and an expectation of another mock, ended (in either order, moved before or not) within a destructor while a foreign exception propagates; throwing and silent reporter
// BOUNDS: lifetimes: two expectations on two mocks, each used or not; one mock may be destroyed or moved first, one expectation may be overwritten by the other, by a new one or moved onto itself
// BOUNDS: crowd: 300 expectations, one of 8 selected positions satisfied, ended oldest or newest first
// OUTSIDE: reporters that throw while an exception is propagating; the text of the report (C19)
#include "common.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;

HARNESS(one)
{
	setup();
	rec.throwUnfulfilled = sym::flag("throwing");
	Mock<void(Sym)> mock{};
	const int min = sym::range<int>("min", 0, 3), max = sym::range<int>("max", 0, 3);
	sym::assume(min <= max);
	const int calls = sym::choice("calls", 4);
	int count = 0;
	bool thrown = false;
	try
	{
		ScopedExpectation exp = finalize_at(mock.expect_call(bit(0)) && expect::times(min, max), 3);
		for (int i = 0; i < calls; ++i)
			count += attempt([&] { mock(Sym{sym::make<std::uint32_t>("x")}); }) == Outcome::ok;
		CHECK_THAT(rec.unfulfilled == 0, "nothing is reported while the scope is alive");
	}
	catch (const UnfulfilledEx&)
	{
		thrown = true;
	}
	const bool unsatisfied = count < min;
	CHECK_THAT(rec.unfulfilled == (unsatisfied ? 1 : 0), "reported exactly once if unsatisfied");
	CHECK_THAT(thrown == (unsatisfied && rec.throwUnfulfilled), "the reporter's exception reaches the scope");
	if (unsatisfied)
	{
		CHECK_THAT(loc_index(rec.expectation->sourceLocation) == 3, "report identifies the expectation");
		CHECK_THAT(rec.expectation->timesDescription.has_value() && !rec.expectation->timesDescription->empty(), "times text present");
		CHECK_THAT(rec.expectation->expectationDescriptions.size() == 3 && rec.expectation->expectationDescriptions[0] == "expect: arg[0] passes predicate",
			"policy descriptions present");
		sym::reach("unsatisfied");
	}
	else
		sym::reach("satisfied");
	CHECK_THAT(attempt([&] { mock(Sym{1}); }) == Outcome::noMatch && rec.reports.empty(), "the expectation takes part in no later call");
	CHECK_THAT(rec.error == 0 && rec.unhandled == 0, "no other report");
	sym::observe("unfulfilled", static_cast<unsigned>(rec.unfulfilled));
}

HARNESS(full_range)
{
	setup();
	Mock<void(Sym)> mock{};
	const int min = sym::make<int>("min"), max = sym::make<int>("max");
	sym::assume(0 <= min && min <= max && (min <= 3 || min >= std::numeric_limits<int>::max() - 1 || min == 65536));
	const int calls = sym::choice("calls", 4);
	int count = 0;
	{
		ScopedExpectation exp = mock.expect_call(bit(0)) && expect::times(min, max);
		for (int i = 0; i < calls; ++i)
			count += attempt([&] { mock(Sym{1}); }) == Outcome::ok;
		// the text would print max: fix it now, the verdicts above are already decided for every value
		if (count < min)
			sym::assume(max == min || max == std::numeric_limits<int>::max());
	}
	CHECK_THAT(rec.unfulfilled == (count < min ? 1 : 0), "reported exactly once if unsatisfied");
	if (count < min)
		sym::reach("large minimum");
}

struct Slot
{
	std::unique_ptr<ScopedExpectation> exp;
	int id, min, max, count;
};

HARNESS(pool)
{
	setup();
	constexpr int n = THOROUGH ? 4 : 3;
	Mock<void(Sym)> mock{};
	std::vector<Slot> live{};
	for (int i = 0; i < n; ++i)
	{
		const int min = i == 0 ? sym::range<int>("min", 0, 2) : sym::range<int>("min", 0, 1);
		const int max = i == 0 ? 2 : 1;
		live.push_back(Slot{std::make_unique<ScopedExpectation>(finalize_at(mock.expect_call(bit(i)) && expect::times(min, max), i)), i, min, max, 0});
	}
	int budget = 3;
	while (!live.empty())
	{
		if (budget > 0 && sym::flag("call"))
		{
			--budget;
			const Sym arg{static_cast<std::uint32_t>(sym::choice("arg", 1 << n))};
			const int before = rec.unfulfilled;
			attempt([&] { mock(arg); });
			CHECK_THAT(rec.unfulfilled == before, "calls report no unfulfilled expectation");
			for (std::size_t i = live.size(); i-- > 0;)
				if (((arg.v >> live[i].id) & 1u) && live[i].count < live[i].max)
				{
					++live[i].count;
					break;
				}
			continue;
		}
		const int k = sym::choice("victim", static_cast<int>(live.size()));
		Slot s = std::move(live[static_cast<std::size_t>(k)]);
		live.erase(live.begin() + k);
		if (THOROUGH && sym::flag("moved"))
			s.exp = std::make_unique<ScopedExpectation>(std::move(*s.exp));
		const int before = rec.unfulfilled;
		CHECK_THAT(rec.total() - rec.full - rec.noMatch - rec.inapplicable == before, "no other reports");
		s.exp.reset();
		CHECK_THAT(rec.unfulfilled == before + (s.count < s.min ? 1 : 0), "exactly one report if unsatisfied, none otherwise");
		if (s.count < s.min)
		{
			CHECK_THAT(loc_index(rec.expectation->sourceLocation) == s.id, "the report identifies the expectation");
			sym::reach("reported");
		}
		// it takes part in no later call
		const Outcome o = attempt([&] { mock(Sym{1u << s.id}); });
		CHECK_THAT(o == Outcome::noMatch && rec.reports.size() == live.size(), "no later participation");
	}
	sym::observe("unfulfilled", static_cast<unsigned>(rec.unfulfilled));
}

struct FlagPolicy
{
	const bool* satisfied;
	bool is_satisfied() const noexcept { return *satisfied; }
	template <typename Info>
	static bool matches(const Info&) noexcept { return true; }
	static StringT describe() { return "flag policy"; }
	template <typename Info>
	static void consume(const Info&) noexcept {}
};

HARNESS(policy)
{
	setup();
	Mock<void(Sym)> mock{};
	bool a = sym::make<bool>("a"), b = sym::make<bool>("b");
	const int min = sym::range<int>("min", 0, 1);
	const bool called = sym::flag("called");
	bool count = false;
	{
		ScopedExpectation exp = finalize_at(mock.expect_call(m::_) && FlagPolicy{&a} && expect::times(min, 1) && FlagPolicy{&b}, 2);
		if (called)
		{
			CHECK_THAT(attempt([&] { mock(Sym{0}); }) == Outcome::ok, "policies without opinion do not block");
			count = true;
		}
		a = sym::make<bool>("a2");
		CHECK_THAT(exp.is_satisfied() == ((count || min == 0) && a && b), "is_satisfied is the conjunction");
	}
	const bool ok = (count || min == 0) && a && b;
	CHECK_THAT(rec.unfulfilled == (ok ? 0 : 1), "unsatisfied custom policy counts");
	if (!ok)
	{
		CHECK_THAT(loc_index(rec.expectation->sourceLocation) == 2, "identified");
		int flags = 0;
		for (auto& d : rec.expectation->expectationDescriptions)
			flags += d == "flag policy";
		CHECK_THAT(flags == 2, "both policies are described");
		if (count || min == 0)
			sym::reach("only policy unsatisfied");
	}
}

HARNESS(throwing)
{
	setup();
	rec.throwUnfulfilled = true;
	const std::uint64_t heap0 = __sym_heap_live();
	{
		Mock<void(Sym)> mock{};
		const int how = sym::choice("how", 4);
		int caught = 0;
		try
		{
			if (how == 0)
			{
				ScopedExpectation e0 = finalize_at(mock.expect_call(bit(0)), 0);
				ScopedExpectation e1 = finalize_at(mock.expect_call(bit(1)) && expect::at_most(1), 1);
			}
			else if (how == 1)
			{
				ScopedExpectation* p = new ScopedExpectation(mock.expect_call(bit(0)));
				delete p;
			}
			else if (how == 2)
			{
				ScopedExpectation e0 = finalize_at(mock.expect_call(bit(0)), 0);
				ScopedExpectation e1 = finalize_at(mock.expect_call(bit(1)), 1);
			}
			else
			{
				ScopedExpectation e0 = finalize_at(mock.expect_call(bit(0)), 0);
				mock(Sym{2}); // throws, e0 dies while that exception propagates
			}
		}
		catch (const UnfulfilledEx&)
		{
			++caught;
		}
		catch (const NoMatchEx&)
		{
			caught += 10;
		}
		CHECK_THAT(caught == (how == 3 ? 10 : 1), "the right exception arrives");
		CHECK_THAT(rec.unfulfilled == (how == 2 ? 2 : 1), "every unsatisfied expectation is reported exactly once");
		CHECK_THAT(attempt([&] { mock(Sym{3}); }) == Outcome::noMatch && rec.reports.empty(), "none remains");
		sym::reach("throwing");
	}
	rec = Rec{};
	CHECK_THAT(__sym_heap_live() == heap0, "no leak");
}

// expectations that end while a foreign exception propagates are reported like all others
HARNESS(in_flight)
{
	setup();
	rec.throwUnfulfilled = sym::flag("throwing");
	Mock<void(Sym)> mock{};
	Mock<int()> other{};
	const int min0 = sym::range<int>("min0", 0, 1), min1 = sym::range<int>("min1", 0, 2), min2 = sym::range<int>("min2", 0, 1);
	int count[2]{};
	const bool inside = sym::flag("inside"), moved = sym::flag("moved"), first = sym::flag("first");
	auto e0 = std::make_unique<ScopedExpectation>(finalize_at(mock.expect_call(bit(0)) && expect::times(min0, 2), 0));
	auto e1 = std::make_unique<ScopedExpectation>(finalize_at(mock.expect_call(bit(1)) && expect::times(min1, 2), 1));
	auto e2 = std::make_unique<ScopedExpectation>(finalize_at(other.expect_call() && expect::times(min2, 2) && finally::returns(1), 2));
	const std::uint32_t x = sym::make<std::uint32_t>("x");
	auto call = [&] {
		if (attempt([&] { mock(Sym{x}); }) == Outcome::ok)
			++count[(x & 2u) ? 1 : 0];
	};
	if (!inside)
		call();
	perhaps_in_flight(true, [&] {
		if (inside)
			call();
		if (moved)
			e0 = std::make_unique<ScopedExpectation>(std::move(*e0));
		CHECK_THAT(rec.unfulfilled == 0, "nothing ended so far");
		int want = 0;
		for (int k = 0; k < 2; ++k)
		{
			const bool zero = (k == 0) == first;
			(zero ? e0 : e1).reset();
			const bool un = zero ? count[0] < min0 : count[1] < min1;
			want += un;
			CHECK_THAT(rec.unfulfilled == want, "reported exactly once if unsatisfied");
			if (un)
			{
				CHECK_THAT(loc_index(rec.expectation->sourceLocation) == (zero ? 0 : 1), "identified");
				sym::reach("reported in flight");
			}
		}
		CHECK_THAT(attempt([&] { mock(Sym{3}); }) == Outcome::noMatch && rec.reports.empty(), "neither takes part in a later call");
		e2.reset();
		CHECK_THAT(rec.unfulfilled == want + (min2 > 0), "another mock's expectation likewise");
	});
	CHECK_THAT(attempt([&] { mock(Sym{3}); }) == Outcome::noMatch && rec.reports.empty(), "none remains");
}

HARNESS(crowd)
{
	setup();
	constexpr int n = 300;
	static constexpr int at[]{0, 15, 63, 127, 128, 255, 256, n - 1};
	Mock<void(Sym)> mock{};
	std::vector<std::unique_ptr<ScopedExpectation>> exps{};
	for (int i = 0; i < n; ++i)
		exps.push_back(std::make_unique<ScopedExpectation>(mock.expect_call(Sym{static_cast<std::uint32_t>(i)}) && expect::once()));
	const int k = at[sym::choice("k", 8)];
	CHECK_THAT(attempt([&] { mock(Sym{static_cast<std::uint32_t>(k)}); }) == Outcome::ok, "found");
	const bool reverse = sym::flag("reverse");
	int want = 0;
	for (int j = 0; j < n; ++j)
	{
		const int i = reverse ? n - 1 - j : j;
		exps[static_cast<std::size_t>(i)].reset();
		want += i != k;
		CHECK_THAT(rec.unfulfilled == want, "reported when it ends unless satisfied");
	}
	sym::reach("crowd");
}

// what is reported, and when, does not depend on the life of the mock and the identity of the scoped object
HARNESS(lifetimes)
{
	setup();
	auto a = std::make_unique<Mock<void(Sym)>>();
	auto b = std::make_unique<Mock<void(Sym)>>();
	std::optional<ScopedExpectation> first{finalize_at(a->expect_call(m::_) && expect::times(1, 2), 0)};
	std::optional<ScopedExpectation> second{finalize_at((sym::flag("same_mock") ? *a : *b).expect_call(bit(0)) && expect::times(1, 2), 1)};
	bool used[3]{};
	if (sym::flag("use_first"))
	{
		attempt([&] { (*a)(Sym{0}); });
		used[0] = true;
	}
	if (sym::flag("use_second"))
	{
		// the newest matching one wins
		if (second)
			(void)(attempt([&] { (*a)(Sym{1}); }) == Outcome::ok);
		attempt([&] { (*b)(Sym{1}); });
		used[1] = second->is_satisfied();
		used[0] = first->is_satisfied();
	}
	CHECK_THAT(first->is_satisfied() == used[0] && second->is_satisfied() == used[1], "satisfied");
	CHECK_THAT(rec.unfulfilled == 0, "nothing is reported while the scopes are alive");
	switch (sym::choice("mock", 3))
	{
	case 0:
		break;
	case 1:
		a.reset();
		break;
	default:
		b = std::make_unique<Mock<void(Sym)>>(std::move(*a));
		a.reset();
		break;
	}
	CHECK_THAT(rec.unfulfilled == 0, "the end of a mock is not the end of its expectations");
	int open = -1; // which expectation `first` holds afterwards, if it was changed
	int want = 0;
	switch (sym::choice("assign", 4))
	{
	case 0:
		open = 0;
		break;
	case 1:
		*first = std::move(*second);
		want += !used[0];
		CHECK_THAT(rec.unfulfilled == want, "the overwritten expectation ends at once");
		if (!used[0])
			CHECK_THAT(loc_index(rec.expectation->sourceLocation) == 0, "and is the one reported");
		second.reset();
		CHECK_THAT(rec.unfulfilled == want, "a moved-from object ends nothing");
		open = 1;
		break;
	case 2:
		*first = finalize_at(b->expect_call(m::_) && expect::once(), 2);
		want += !used[0];
		CHECK_THAT(rec.unfulfilled == want, "the overwritten expectation ends at once");
		open = 2;
		break;
	default:
	{
		auto& self = *first;
		*first = std::move(self);
		CHECK_THAT(rec.unfulfilled == 0, "self assignment ends nothing");
		open = 0;
		break;
	}
	}
	first.reset();
	want += !used[open];
	CHECK_THAT(rec.unfulfilled == want, "reported exactly once if unsatisfied");
	if (!used[open])
		CHECK_THAT(loc_index(rec.expectation->sourceLocation) == open, "identified");
	if (second)
	{
		second.reset();
		want += !used[1];
		CHECK_THAT(rec.unfulfilled == want, "reported exactly once if unsatisfied");
	}
	sym::reach("lifetimes");
	if (want == 3)
		sym::reach("three ends");
}

// BOUNDS: every pair of int values for every factory; construct, then 3 calls
// OUTSIDE: nothing within the statement (limits are observed through min()/max() and through 3 calls)
#include "common.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;

template <typename F>
static int build(F&& f, int& min, int& max)
{
	try
	{
		const mimicpp::detail::TimesConfig c = f();
		min = c.min();
		max = c.max();
		return 0;
	}
	catch (const std::invalid_argument&)
	{
		return 1;
	}
	catch (...)
	{
		return 2;
	}
}

HARNESS(two_limits)
{
	const int a = sym::make<int>("a"), b = sym::make<int>("b");
	int min{}, max{};
	const int r = build([&] { return expect::times(a, b); }, min, max);
	const bool valid = a >= 0 && b >= 0 && b >= a;
	CHECK_THAT(r == (valid ? 0 : 1), "times(min,max) throws std::invalid_argument exactly for invalid limits");
	if (valid)
	{
		CHECK_THAT(min == a && max == b, "limits are [min,max]");
		sym::reach("valid");
	}
	else
		sym::reach("invalid");
	sym::observe("r", static_cast<unsigned>(r));
}

HARNESS(one_limit)
{
	const int n = sym::make<int>("n");
	int min{}, max{};
	const int k = sym::choice("factory", 3);
	const int r = build([&] { return k == 0 ? expect::times(n) : k == 1 ? expect::at_least(n) : expect::at_most(n); }, min, max);
	CHECK_THAT(r == (n >= 0 ? 0 : 1), "throws std::invalid_argument exactly for negative n");
	if (n >= 0)
	{
		CHECK_THAT(min == (k == 2 ? 0 : n), "lower limit");
		CHECK_THAT(max == (k == 1 ? std::numeric_limits<int>::max() : n), "upper limit");
		sym::reach("valid n");
	}
}

HARNESS(constants)
{
	constexpr auto o = expect::once();
	constexpr auto t = expect::twice();
	const mimicpp::detail::TimesConfig d{};
	CHECK_THAT(o.min() == 1 && o.max() == 1, "once");
	CHECK_THAT(t.min() == 2 && t.max() == 2, "twice");
	CHECK_THAT(d.min() == 1 && d.max() == 1, "default");
	sym::reach("constants");
}

HARNESS(through_expectation)
{
	setup();
	Mock<void()> mock{};
	const int a = sym::make<int>("a"), b = sym::make<int>("b");
	const int k = sym::choice("factory", 4);
	int min = 0, max = 0;
	bool valid = true;
	switch (k)
	{
	case 0: min = a; max = b; break;
	case 1: min = a; max = a; break;
	case 2: min = a; max = std::numeric_limits<int>::max(); break;
	default: min = 0; max = a; break;
	}
	valid = min >= 0 && max >= min;
	bool threw = false;
	try
	{
		ScopedExpectation exp = k == 0 ? ScopedExpectation{mock.expect_call() && expect::times(a, b)}
							  : k == 1 ? ScopedExpectation{mock.expect_call() && expect::times(a)}
							  : k == 2 ? ScopedExpectation{mock.expect_call() && expect::at_least(a)}
									   : ScopedExpectation{mock.expect_call() && expect::at_most(a)};
		CHECK_THAT(valid, "invalid limits are never accepted");
		for (int i = 0; i < 3; ++i)
		{
			CHECK_THAT(exp.is_satisfied() == (min <= i), "lower limit in effect");
			const Outcome o = attempt([&] { mock(); });
			CHECK_THAT(o == (i < max ? Outcome::ok : Outcome::inapplicable), "upper limit in effect");
			if (o != Outcome::ok)
				break;
		}
		sym::reach("in effect");
		// do not print the numbers
		__sym_done();
	}
	catch (const std::invalid_argument&)
	{
		threw = true;
	}
	CHECK_THAT(threw && !valid, "throws only for invalid limits");
	CHECK_THAT(attempt([&] { mock(); }) == Outcome::noMatch && rec.reports.empty(), "a rejected expectation leaves no trace");
	CHECK_THAT(rec.unfulfilled == 0, "and reports nothing");
	sym::reach("rejected");
}

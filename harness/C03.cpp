// BOUNDS: spelling: limits 0..3, stated at 8 positions of the expression (before/after requirement, side effect, finalizer, one or two sequences; moved builder)
// BOUNDS: full_range: every valid (min,max) over all of int, 4 calls
// BOUNDS: counting: all 0<=min<=max<=40 (thorough: 150), max+1 calls, through a mock; other expectations and non-matching calls interleaved
// BOUNDS: control_policy_long: exact limits n in {255,256,257,32767,32768,65535,65536,65537} and ranges [k,n], k in {0,1,n-2,n}, counted through ControlPolicy to the end (concrete histories), sequence attached or not
// BOUNDS: full_range_policy: ControlPolicy with every valid (min,max) over all of int, 6 acceptances
// OUTSIDE: call counts above 65537 (the counter is only known to behave linearly up to there)
// OPTIONS *: --max-inst 400000000
#include "common.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;

HARNESS(full_range)
{
	setup();
	Mock<void(Sym)> mock{};
	const int min = sym::make<int>("min"), max = sym::make<int>("max");
	sym::assume(0 <= min && min <= max);
	{
		ScopedExpectation exp = mock.expect_call(m::_) && expect::times(min, max);
		CHECK_THAT(exp.is_satisfied() == (min == 0), "initially satisfied");
		int count = 0;
		for (int i = 0; i < 4; ++i)
		{
			const Outcome o = attempt([&] { mock(Sym{sym::make<std::uint32_t>("x")}); });
			CHECK_THAT(o == (count < max ? Outcome::ok : Outcome::inapplicable), "accepts exactly the first max calls");
			count += o == Outcome::ok;
			CHECK_THAT(exp.is_satisfied() == (min <= count && count <= max), "is_satisfied");
			sym::observe("count", static_cast<unsigned>(count));
		}
		if (max == std::numeric_limits<int>::max())
			sym::reach("INT_MAX");
		// the report at the end of the scope would print the numbers: not the subject here
		sym::assume(exp.is_satisfied());
	}
	sym::reach("done");
}

HARNESS(counting)
{
	setup();
	constexpr int n = THOROUGH ? 150 : 40;
	Mock<void(Sym)> mock{};
	const int min = sym::range<int>("min", 0, n), max = sym::range<int>("max", 0, n);
	sym::assume(min <= max);
	ScopedExpectation other = mock.expect_call(bit(1)) && expect::at_most(3);
	ScopedExpectation exp = mock.expect_call(bit(0)) && expect::times(min, max);
	int count = 0;
	for (int i = 0; i <= n; ++i)
	{
		const Outcome o = attempt([&] { mock(Sym{1}); });
		CHECK_THAT(o == (count < max ? Outcome::ok : Outcome::inapplicable), "accepts exactly the first max calls");
		if (i % 16 == 5)
			CHECK_THAT(attempt([&] { mock(Sym{2}); }) == Outcome::ok, "calls of others do not count");
		if (i % 16 == 9)
			CHECK_THAT(attempt([&] { mock(Sym{0}); }) == Outcome::noMatch, "rejected calls do not count");
		if (o != Outcome::ok)
		{
			sym::reach("saturated");
			CHECK_THAT(attempt([&] { mock(Sym{1}); }) == Outcome::inapplicable, "stays saturated");
			break;
		}
		++count;
		CHECK_THAT(exp.is_satisfied() == (min <= count), "is_satisfied");
	}
	CHECK_THAT(count == max && exp.is_satisfied(), "exactly max");
}

HARNESS(defaults_and_factories)
{
	setup();
	Mock<void(Sym)> mock{};
	const int n = sym::range<int>("n", 0, 4);
	const int k = sym::choice("factory", 7);
	int min = 1, max = 1;
	auto make = [&]() -> ScopedExpectation
	{
		switch (k)
		{
		case 0: return mock.expect_call(m::_);
		case 1: return mock.expect_call(m::_) && expect::once();
		case 2: min = max = 2; return mock.expect_call(m::_) && expect::twice();
		case 3: min = max = n; return mock.expect_call(m::_) && expect::times(n);
		case 4: min = n; max = std::numeric_limits<int>::max(); return mock.expect_call(m::_) && expect::at_least(n);
		case 5: min = 0; max = n; return mock.expect_call(m::_) && expect::at_most(n);
		default: min = n; max = 4; return mock.expect_call(m::_) && expect::times(n, 4);
		}
	};
	ScopedExpectation exp = make();
	int count = 0;
	for (int i = 0; i < 6; ++i)
	{
		CHECK_THAT(exp.is_satisfied() == (min <= count && count <= max), "is_satisfied");
		const Outcome o = attempt([&] { mock(Sym{sym::make<std::uint32_t>("x")}); });
		CHECK_THAT(o == (count < max ? Outcome::ok : Outcome::inapplicable), "accepts exactly the first max calls");
		count += o == Outcome::ok;
	}
	sym::observe("count", static_cast<unsigned>(count));
	sym::reach("factories");
	sym::assume(exp.is_satisfied());
}

HARNESS(full_range_policy)
{
	const int min = sym::make<int>("min"), max = sym::make<int>("max");
	sym::assume(0 <= min && min <= max);
	ControlPolicy policy{mimicpp::detail::TimesConfig{min, max}, sequence::detail::Config<>{}};
	for (int count = 0; count < 6; ++count)
	{
		CHECK_THAT(policy.is_satisfied() == (min <= count && count <= max), "is_satisfied");
		CHECK_THAT(policy.is_saturated() == (count == max), "is_saturated");
		CHECK_THAT(policy.is_applicable() == (count < max), "is_applicable");
		const control_state_t st = policy.state();
		if (count == max)
		{
			const auto* s = std::get_if<state_saturated>(&st);
			CHECK_THAT(s && s->min == min && s->max == max && s->count == count, "state saturated");
			sym::reach("policy saturated");
			return;
		}
		const auto* s = std::get_if<state_applicable>(&st);
		CHECK_THAT(s && s->min == min && s->max == max && s->count == count, "state applicable");
		policy.consume();
	}
	sym::reach("policy open");
}

HARNESS(control_policy_long)
{
	setup();
	constexpr int limits[]{255, 256, 257, 32767, 32768, 65535, 65536, 65537};
	const int max = limits[sym::choice("limit", 8)];
	const bool inSeq = sym::flag("sequence");
	const int mins[]{max, max - 2, 1, 0};
	const int min = mins[sym::choice("min", 4)];
	auto run = [&](auto&& policy)
	{
		for (int count = 0; count < max; ++count)
		{
			CHECK_THAT(policy.is_satisfied() == (min <= count), "is_satisfied");
			CHECK_THAT(policy.is_applicable(), "is_applicable");
			policy.consume();
		}
		CHECK_THAT(policy.is_satisfied() && policy.is_saturated() && !policy.is_applicable(), "saturated after exactly max");
		sym::reach("long");
	};
	if (inSeq)
	{
		SequenceT seq{};
		run(ControlPolicy{mimicpp::detail::TimesConfig{min, max}, sequence::detail::Config<>{}.concat(expect::in_sequence(seq))});
	}
	else
		run(ControlPolicy{mimicpp::detail::TimesConfig{min, max}, sequence::detail::Config<>{}});
}

// the limits hold wherever they are stated in the expression
template <int form>
static ScopedExpectation spelled(Mock<int(Sym)>& mock, SequenceT& a, SequenceT& b, int min, int max, int* effects)
{
	const auto effect = [effects] { return then::invoke([effects] { ++*effects; }); };
	const auto req = [] { return expect::arg<0>(bit(0)); };
	if constexpr (form == 0)
		return mock.expect_call(m::_) && expect::times(min, max) && req() && effect() && finally::returns(7);
	else if constexpr (form == 1)
		return mock.expect_call(m::_) && req() && expect::times(min, max) && effect() && finally::returns(7);
	else if constexpr (form == 2)
		return mock.expect_call(m::_) && req() && effect() && finally::returns(7) && expect::times(min, max);
	else if constexpr (form == 3)
		return mock.expect_call(m::_) && expect::times(min, max) && expect::in_sequence(a) && req() && effect() && finally::returns(7);
	else if constexpr (form == 4)
		return mock.expect_call(m::_) && finally::returns(7) && expect::in_sequence(a) && effect() && req() && expect::times(min, max);
	else if constexpr (form == 5)
		return mock.expect_call(m::_) && expect::in_sequence(a) && expect::times(min, max) && finally::returns(7) && expect::in_sequence(b) && req() && effect();
	else if constexpr (form == 6)
		return mock.expect_call(m::_) && finally::returns(7) && expect::times(min, max) && expect::in_sequences(a, b) && effect() && req();
	else
	{
		auto first = mock.expect_call(m::_) && expect::times(min, max);
		auto second = std::move(first) && effect() && finally::returns(7);
		auto third{std::move(second)};
		ScopedExpectation e = std::move(third) && req() && expect::in_sequence(b);
		ScopedExpectation moved{std::move(e)};
		return moved;
	}
}

HARNESS(spelling)
{
	setup();
	Mock<int(Sym)> mock{};
	SequenceT a{}, b{};
	const int min = sym::range<int>("min", 0, 3), max = sym::range<int>("max", 0, 3);
	sym::assume(min <= max);
	const int form = sym::choice("form", 8);
	int effects = 0;
	auto make = [&]() -> ScopedExpectation
	{
		switch (form)
		{
		case 0: return spelled<0>(mock, a, b, min, max, &effects);
		case 1: return spelled<1>(mock, a, b, min, max, &effects);
		case 2: return spelled<2>(mock, a, b, min, max, &effects);
		case 3: return spelled<3>(mock, a, b, min, max, &effects);
		case 4: return spelled<4>(mock, a, b, min, max, &effects);
		case 5: return spelled<5>(mock, a, b, min, max, &effects);
		case 6: return spelled<6>(mock, a, b, min, max, &effects);
		default: return spelled<7>(mock, a, b, min, max, &effects);
		}
	};
	std::optional<ScopedExpectation> exp{make()};
	int count = 0;
	for (int i = 0; i < 4; ++i)
	{
		CHECK_THAT(exp->is_satisfied() == (min <= count && count <= max), "is_satisfied");
		CHECK_THAT(attempt([&] { (void)mock(Sym{2}); }) == Outcome::noMatch, "the requirement is part of it");
		const Outcome o = attempt([&] { CHECK_THAT(mock(Sym{1}) == 7, "result"); });
		CHECK_THAT(o == (count < max ? Outcome::ok : Outcome::inapplicable), "accepts exactly the first max calls");
		count += o == Outcome::ok;
		CHECK_THAT(effects == count, "side effect of accepted calls only");
	}
	sym::observe("count", static_cast<unsigned>(count));
	sym::reach("spelled");
}

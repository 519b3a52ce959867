// BOUNDS: cv_any: {f(), f() const}, called through lvalue/rvalue and const/mutable access; any subset of overloads has an expectation; every argument
// BOUNDS: cv_ref: {f() &, f() const &, f() &&, f() const &&}, likewise, 2 calls
// BOUNDS: noexcept_any, noexcept_ref: the noexcept forms of both sets
// BOUNDS: subsets: incomplete sets {&, const &}, {const &, &&}, {const}, {const &&}, single signatures, where the language selects the overload
// BOUNDS: parameters: {f(A), f(B), f(A,B), f(B,A) const, f()} sharing one mock, every argument
// BOUNDS: relation: is_matching on all pairs
// OUTSIDE: reports for calls through noexcept overloads that fail (the program terminates after the report)
#include "common.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;

template <int k>
static decltype(auto) as(auto& mock)
{
	if constexpr (k == 0)
		return (mock);
	else if constexpr (k == 1)
		return std::as_const(mock);
	else if constexpr (k == 2)
		return std::move(mock);
	else
		return std::move(std::as_const(mock));
}

// which overload (index into the set) the language selects for access k
struct Want
{
	ValueCategory category;
	Constness constness;
};

// M: the mock, n overloads; access kinds 0..3; route[k] = overload selected for access k; repr[o] = an access that selects o
template <typename M, bool nothrow>
static void overloads(const int (&route)[4], const Want (&want)[4], int n, int calls)
{
	M mock{};
	const std::uint32_t a = sym::make<std::uint32_t>("a");
	int expected[4]{}, used[4]{};
	std::vector<ScopedExpectation> es{};
	for (int o = 0; o < n; ++o)
	{
		if (!sym::flag("has"))
			continue;
		expected[o] = 1;
		// created through the first access that selects o
		int k = 0;
		while (route[k] != o)
			++k;
		switch (k)
		{
		case 0: es.push_back(as<0>(mock).expect_call(Sym{a}) && expect::at_most(1) && finally::returns(o)); break;
		case 1: es.push_back(as<1>(mock).expect_call(Sym{a}) && expect::at_most(1) && finally::returns(o)); break;
		case 2: es.push_back(as<2>(mock).expect_call(Sym{a}) && expect::at_most(1) && finally::returns(o)); break;
		default: es.push_back(as<3>(mock).expect_call(Sym{a}) && expect::at_most(1) && finally::returns(o)); break;
		}
	}
	for (int c = 0; c < calls; ++c)
	{
		const std::uint32_t x = sym::make<std::uint32_t>("x");
		const int k = sym::choice("access", 4);
		const int o = route[k];
		const bool accepts = expected[o] && x == a;
		const Outcome should = accepts ? (used[o] ? Outcome::inapplicable : Outcome::ok) : Outcome::noMatch;
		if (nothrow)
			sym::assume(should == Outcome::ok); // a failing call through noexcept terminates after its report, see `refused`
		int got = -1;
		const Outcome out = attempt([&] {
			switch (k)
			{
			case 0: got = as<0>(mock)(Sym{x}); break;
			case 1: got = as<1>(mock)(Sym{x}); break;
			case 2: got = as<2>(mock)(Sym{x}); break;
			default: got = as<3>(mock)(Sym{x}); break;
			}
		});
		CHECK_THAT(out == should, "only expectations of the called overload take part");
		if (out == Outcome::ok)
		{
			CHECK_THAT(got == o, "the expectation of the called overload is used");
			++used[o];
			sym::reach("accepted");
		}
		CHECK_THAT(rec.call->fromCategory == want[o].category && rec.call->fromConstness == want[o].constness, "the report names constness and category of the call");
	}
	// nothing else was consumed: every other overload still has its expectation
	for (int k = 0; k < 4; ++k)
	{
		const int o = route[k];
		if (!expected[o] || used[o])
			continue;
		int got = -1;
		const Outcome out = attempt([&] {
			switch (k)
			{
			case 0: got = as<0>(mock)(Sym{a}); break;
			case 1: got = as<1>(mock)(Sym{a}); break;
			case 2: got = as<2>(mock)(Sym{a}); break;
			default: got = as<3>(mock)(Sym{a}); break;
			}
		});
		CHECK_THAT(out == Outcome::ok && got == o, "expectations of other overloads are not consumed");
		++used[o];
	}
}

static const int anyRoute[4]{0, 1, 0, 1};
static const Want anyWant[4]{{ValueCategory::any, Constness::non_const}, {ValueCategory::any, Constness::as_const}};
static const int refRoute[4]{0, 1, 2, 3};
static const Want refWant[4]{
	{ValueCategory::lvalue, Constness::non_const},
	{ValueCategory::lvalue, Constness::as_const},
	{ValueCategory::rvalue, Constness::non_const},
	{ValueCategory::rvalue, Constness::as_const}};

HARNESS(cv_any)
{
	setup();
	overloads<Mock<int(Sym), int(Sym) const>, false>(anyRoute, anyWant, 2, 2);
}
HARNESS(cv_ref)
{
	setup();
	overloads<Mock<int(Sym)&, int(Sym) const&, int(Sym)&&, int(Sym) const&&>, false>(refRoute, refWant, 4, THOROUGH ? 3 : 2);
}
HARNESS(noexcept_any)
{
	setup();
	overloads<Mock<int(Sym) noexcept, int(Sym) const noexcept>, true>(anyRoute, anyWant, 2, 2);
}
HARNESS(noexcept_ref)
{
	setup();
	overloads<Mock<int(Sym) & noexcept, int(Sym) const & noexcept, int(Sym) && noexcept, int(Sym) const && noexcept>, true>(refRoute, refWant, 4, 2);
}

// a call through a noexcept overload for which only other overloads have expectations must be refused
class FinalReporter final : public IReporter
{
public:
	static inline Want want{};
	static inline std::size_t inapplicable{}, none{};
	[[noreturn]] void report_no_matches(CallReport call, std::vector<MatchReport> r) override
	{
		CHECK_THAT(inapplicable == 0 && r.size() == none, "refused as no match, all expectations listed");
		CHECK_THAT(call.fromCategory == want.category && call.fromConstness == want.constness, "constness and category of the call");
		sym::reach("refused");
		__sym_done();
	}
	[[noreturn]] void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override
	{
		CHECK_THAT(false, "no expectation of the called overload exists");
		__sym_done();
	}
	void report_full_match(CallReport, MatchReport) noexcept override { CHECK_THAT(false, "no expectation of the called overload exists"); }
	void report_unfulfilled_expectation(ExpectationReport) override {}
	void report_error(StringT) override {}
	void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override { CHECK_THAT(false, "nothing throws"); }
};

template <typename M>
static void refuse(const int (&route)[4], const Want (&want)[4], int n)
{
	M mock{};
	const int k = sym::choice("access", 4);
	std::vector<ScopedExpectation> es{};
	for (int o = 0; o < n; ++o)
	{
		if (o == route[k] || !sym::flag("has"))
			continue;
		int j = 0;
		while (route[j] != o)
			++j;
		switch (j)
		{
		case 0: es.push_back(as<0>(mock).expect_call(m::_) && finally::returns(o)); break;
		case 1: es.push_back(as<1>(mock).expect_call(m::_) && finally::returns(o)); break;
		case 2: es.push_back(as<2>(mock).expect_call(m::_) && finally::returns(o)); break;
		default: es.push_back(as<3>(mock).expect_call(m::_) && finally::returns(o)); break;
		}
	}
	FinalReporter::want = want[route[k]];
	FinalReporter::none = es.size();
	const Sym x{sym::make<std::uint32_t>("x")};
	switch (k)
	{
	case 0: (void)as<0>(mock)(x); break;
	case 1: (void)as<1>(mock)(x); break;
	case 2: (void)as<2>(mock)(x); break;
	default: (void)as<3>(mock)(x); break;
	}
}

HARNESS(noexcept_refused)
{
	install_reporter<FinalReporter>();
	switch (sym::choice("set", 4))
	{
	case 0: refuse<Mock<int(Sym) noexcept, int(Sym) const noexcept>>(anyRoute, anyWant, 2); break;
	case 1: refuse<Mock<int(Sym) & noexcept, int(Sym) const & noexcept, int(Sym) && noexcept, int(Sym) const && noexcept>>(refRoute, refWant, 4); break;
	case 2: refuse<Mock<int(Sym) &, int(Sym) const & noexcept, int(Sym) && noexcept, int(Sym) const &&>>(refRoute, refWant, 4); break;
	default: refuse<Mock<int(Sym) noexcept, int(Sym) const>>(anyRoute, anyWant, 2); break;
	}
}

HARNESS(subsets)
{
	setup();
	switch (sym::choice("set", 7))
	{
	case 0:
	{
		// only const: every access uses it
		static const int route[4]{0, 0, 0, 0};
		static const Want want[4]{{ValueCategory::any, Constness::as_const}};
		overloads<Mock<int(Sym) const>, false>(route, want, 1, 2);
		break;
	}
	case 1:
	{
		static const int route[4]{0, 0, 0, 0};
		static const Want want[4]{{ValueCategory::lvalue, Constness::as_const}};
		overloads<Mock<int(Sym) const&>, false>(route, want, 1, 2);
		break;
	}
	case 2:
	{
		static const int route[4]{0, 0, 1, 0};
		static const Want want[4]{{ValueCategory::lvalue, Constness::as_const}, {ValueCategory::rvalue, Constness::non_const}};
		overloads<Mock<int(Sym) const&, int(Sym)&&>, false>(route, want, 2, 2);
		break;
	}
	case 3:
	{
		static const int route[4]{0, 1, 1, 1};
		static const Want want[4]{{ValueCategory::lvalue, Constness::non_const}, {ValueCategory::lvalue, Constness::as_const}};
		overloads<Mock<int(Sym)&, int(Sym) const&>, false>(route, want, 2, 2);
		break;
	}
	case 4:
	{
		static const int route[4]{0, 1, 2, 2};
		static const Want want[4]{{ValueCategory::lvalue, Constness::non_const}, {ValueCategory::lvalue, Constness::as_const}, {ValueCategory::rvalue, Constness::as_const}};
		overloads<Mock<int(Sym)&, int(Sym) const&, int(Sym) const&&>, false>(route, want, 3, 2);
		break;
	}
	case 5:
	{
		static const int route[4]{0, 0, 1, 1};
		static const Want want[4]{{ValueCategory::lvalue, Constness::as_const}, {ValueCategory::rvalue, Constness::as_const}};
		overloads<Mock<int(Sym) const & noexcept, int(Sym) const && noexcept>, true>(route, want, 2, 2);
		break;
	}
	default: overloads<Mock<int(Sym) noexcept, int(Sym) const>, true>(anyRoute, anyWant, 2, 2); break;
	}
}

struct B
{
	std::uint64_t v;
	friend bool operator==(const B&, const B&) = default;
};
template <>
struct mimicpp::custom::Printer<B>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const B&)
	{
		*out++ = 'B';
		return out;
	}
};

HARNESS(parameters)
{
	setup();
	Mock<int(Sym), int(B), int(Sym, B), int(B, Sym) const, int()> mock{};
	const Sym a{sym::make<std::uint32_t>("a")}, x{sym::make<std::uint32_t>("x")};
	const B b{sym::make<std::uint64_t>("b")}, y{sym::make<std::uint64_t>("y")};
	const int made = sym::choice("made", 5), called = sym::choice("called", 5);
	std::optional<ScopedExpectation> e{};
	switch (made)
	{
	case 0: e.emplace(mock.expect_call(a) && expect::at_most(1) && finally::returns(0)); break;
	case 1: e.emplace(mock.expect_call(b) && expect::at_most(1) && finally::returns(1)); break;
	case 2: e.emplace(mock.expect_call(a, b) && expect::at_most(1) && finally::returns(2)); break;
	case 3: e.emplace(mock.expect_call(b, a) && expect::at_most(1) && finally::returns(3)); break;
	default: e.emplace(mock.expect_call() && expect::at_most(1) && finally::returns(4)); break;
	}
	const bool needA = called == 0 || called == 2 || called == 3, needB = called >= 1 && called <= 3;
	const bool want = made == called && (!needA || a == x) && (!needB || b == y);
	int got = -1;
	const Outcome o = attempt([&] {
		switch (called)
		{
		case 0: got = mock(x); break;
		case 1: got = mock(y); break;
		case 2: got = mock(x, y); break;
		case 3: got = mock(y, x); break;
		default: got = mock(); break;
		}
	});
	CHECK_THAT(o == (want ? Outcome::ok : Outcome::noMatch), "parameter types and values must agree");
	if (want)
	{
		CHECK_THAT(got == made, "result");
		sym::reach("match");
	}
	else
	{
		// expectations of other parameter lists do not even appear
		CHECK_THAT(rec.reports.size() == (made == called ? 1u : 0u), "only the same parameter list is considered");
		sym::reach("no match");
	}
	CHECK_THAT(rec.call->argDetails.size() == (called == 4 ? 0u : called >= 2 ? 2u : 1u), "arguments of the call");
}

HARNESS(relation)
{
	const ValueCategory v[3]{ValueCategory::lvalue, ValueCategory::rvalue, ValueCategory::any};
	const Constness c[3]{Constness::non_const, Constness::as_const, Constness::any};
	const int i = sym::choice("i", 3), j = sym::choice("j", 3);
	CHECK_THAT(is_matching(v[i], v[j]) == (i == j || i == 2 || j == 2), "categories agree if equal or any");
	CHECK_THAT(is_matching(c[i], c[j]) == (i == j || i == 2 || j == 2), "constness agrees if equal or any");
	// the policies on hand made calls
	const call::Info<int> info{.args = {}, .fromCategory = v[i], .fromConstness = c[j], .fromSourceLocation = std::source_location::current()};
	CHECK_THAT(expectation_policies::Category<ValueCategory::lvalue>::matches(info) == (i == 0 || i == 2), "lvalue policy");
	CHECK_THAT(expectation_policies::Category<ValueCategory::rvalue>::matches(info) == (i == 1 || i == 2), "rvalue policy");
	CHECK_THAT(expectation_policies::Category<ValueCategory::any>::matches(info), "any category policy");
	CHECK_THAT(expectation_policies::Constness<Constness::non_const>::matches(info) == (j == 0 || j == 2), "mutable policy");
	CHECK_THAT(expectation_policies::Constness<Constness::as_const>::matches(info) == (j == 1 || j == 2), "const policy");
	CHECK_THAT(expectation_policies::Constness<Constness::any>::matches(info), "any constness policy");
	sym::reach("related");
}

// VARIANT fmt: -DMIMICPP_CONFIG_USE_FMT -DFMT_HEADER_ONLY
// BOUNDS: every entry a second time with the {fmt} backend (MIMICPP_CONFIG_USE_FMT)
// BOUNDS: integers: every target/operand pair of int8..int64, uint8..uint64 for eq/ne/lt/le/gt/ge, plain and negated one to three times, by copy and by move
// BOUNDS: mixed_width: every pair of (int8,int64), (uint16,uint32), (bool,bool), (enum,enum)
// BOUNDS: sides: an asymmetric user type with an arbitrary relation; double evaluation
// BOUNDS: predicates: every predicate over a 64 element domain, every target, negated up to three times
// BOUNDS: instances: 4 objects of one type (adjacent, equal valued), base subobjects, overloaded operator&
// BOUNDS: descriptions: all matchers, negation depth 0..3, by copy and by move
// BOUNDS: through_mock: one mock with eight matchers (one per bit of a symbolic selection) and every argument
// OUTSIDE: floating point operands; more than three negations
#include "common.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;
namespace d = mimicpp::detail;

template <typename M, typename T>
static bool hit(const M& matcher, T&& target) { return d::matches_hook::matches(matcher, target); }

template <typename M, typename T>
static void all_depths(M matcher, T& target, bool want)
{
	CHECK_THAT(hit(matcher, target) == want, "verdict");
	auto n1 = !matcher;
	CHECK_THAT(hit(n1, target) == !want, "negated verdict");
	auto n2 = !n1;
	CHECK_THAT(hit(n2, target) == want, "doubly negated verdict");
	auto n3 = !std::move(n2);
	CHECK_THAT(hit(n3, target) == !want, "triply negated verdict");
	CHECK_THAT(hit(matcher, target) == want && hit(n1, target) == !want, "negating by copy leaves the matcher alone");
	auto r1 = !std::move(matcher);
	CHECK_THAT(hit(r1, target) == !want, "negated rvalue");
	const T& c = target;
	CHECK_THAT(hit(n1, c) == !want && hit(r1, c) == !want, "const targets likewise");
}

template <typename T, typename O = T>
static void compare()
{
	T t = sym::make<T>("target");
	const T copy = t;
	O o = sym::make<O>("operand");
	const O oc = o;
	switch (sym::choice("matcher", 6))
	{
	case 0: all_depths(m::eq(o), t, t == oc); break;
	case 1: all_depths(m::ne(o), t, t != oc); break;
	case 2: all_depths(m::lt(o), t, t < oc); break;
	case 3: all_depths(m::le(o), t, t <= oc); break;
	case 4: all_depths(m::gt(o), t, t > oc); break;
	default: all_depths(m::ge(o), t, t >= oc); break;
	}
	CHECK_THAT(t == copy && o == oc, "target and operand are unchanged");
	if (sizeof(T) == 4)
	{
		// the operand is stored, later changes of the variable do not matter
		auto le = m::le(o);
		auto eq = m::eq(std::as_const(o));
		auto inv = !eq;
		o = O{};
		CHECK_THAT(hit(le, t) == (t <= oc) && hit(eq, t) == (t == oc) && hit(inv, t) == (t != oc), "the operand is stored by value");
	}
	sym::reach("compared");
	sym::observe("eq", t == oc);
}

HARNESS(integers)
{
	switch (sym::choice("type", 8))
	{
	case 0: compare<std::int8_t>(); break;
	case 1: compare<std::int16_t>(); break;
	case 2: compare<std::int32_t>(); break;
	case 3: compare<std::int64_t>(); break;
	case 4: compare<std::uint8_t>(); break;
	case 5: compare<std::uint16_t>(); break;
	case 6: compare<std::uint32_t>(); break;
	default: compare<std::uint64_t>(); break;
	}
}

enum class Color : std::int16_t
{
};

HARNESS(mixed_width)
{
	switch (sym::choice("type", 4))
	{
	case 0: compare<std::int8_t, std::int64_t>(); break;
	case 1: compare<std::uint16_t, std::uint32_t>(); break;
	case 2: compare<bool>(); break;
	default: compare<Color>(); break;
	}
}

// an arbitrary relation: the operators of (Target, Operand) answer from a table, the exchanged ones must not be asked
struct Table
{
	bool eq, ne, lt, le, gt, ge;
	int asked;
};
static Table table;
struct Tgt
{
	int v;
};
struct Opd
{
	int v;
};
static bool ask(const Tgt& t, const Opd& o, bool r)
{
	++table.asked;
	CHECK_THAT(t.v == 1 && o.v == 2, "operands of the comparison");
	return r;
}
bool operator==(const Tgt& t, const Opd& o) { return ask(t, o, table.eq); }
bool operator!=(const Tgt& t, const Opd& o) { return ask(t, o, table.ne); }
bool operator<(const Tgt& t, const Opd& o) { return ask(t, o, table.lt); }
bool operator<=(const Tgt& t, const Opd& o) { return ask(t, o, table.le); }
bool operator>(const Tgt& t, const Opd& o) { return ask(t, o, table.gt); }
bool operator>=(const Tgt& t, const Opd& o) { return ask(t, o, table.ge); }
static bool wrong()
{
	CHECK_THAT(false, "the target is the left operand");
	return false;
}
bool operator==(const Opd&, const Tgt&) { return wrong(); }
bool operator!=(const Opd&, const Tgt&) { return wrong(); }
bool operator<(const Opd&, const Tgt&) { return wrong(); }
bool operator<=(const Opd&, const Tgt&) { return wrong(); }
bool operator>(const Opd&, const Tgt&) { return wrong(); }
bool operator>=(const Opd&, const Tgt&) { return wrong(); }

HARNESS(sides)
{
	for (bool* b : {&table.eq, &table.ne, &table.lt, &table.le, &table.gt, &table.ge})
		*b = sym::make<bool>("relation");
	Tgt t{1};
	switch (sym::choice("matcher", 6))
	{
	case 0: all_depths(m::eq(Opd{2}), t, table.eq); break;
	case 1: all_depths(m::ne(Opd{2}), t, table.ne); break;
	case 2: all_depths(m::lt(Opd{2}), t, table.lt); break;
	case 3: all_depths(m::le(Opd{2}), t, table.le); break;
	case 4: all_depths(m::gt(Opd{2}), t, table.gt); break;
	default: all_depths(m::ge(Opd{2}), t, table.ge); break;
	}
	sym::reach("relation");
}

HARNESS(predicates)
{
	const std::uint64_t truth = sym::make<std::uint64_t>("predicate");
	std::uint8_t v = sym::make<std::uint8_t>("v");
	sym::assume(v < 64);
	int evaluations = 0;
	auto matcher = m::predicate([truth, &evaluations](const std::uint8_t& x) {
		++evaluations;
		return ((truth >> x) & 1u) != 0;
	});
	const bool want = ((truth >> v) & 1u) != 0;
	all_depths(matcher, v, want);
	// a non-bool result that is contextually true
	auto masked = m::predicate([truth](const std::uint8_t& x) { return truth & (std::uint64_t{1} << x); });
	all_depths(masked, v, want);
	CHECK_THAT(hit(m::_, v) && hit(m::_, truth) && hit(m::_, masked), "the wildcard accepts everything");
	CHECK_THAT(m::_.describe() == "has no constraints", "wildcard text");
	sym::reach("predicate");
	sym::observe("want", want);
}

struct Base
{
	std::uint32_t b;
	Base* operator&() { return nullptr; }
	const Base* operator&() const { return nullptr; }
	friend bool operator==(const Base&, const Base&) { return true; }
};
struct Derived : Base
{
	std::uint32_t x;
};

HARNESS(instances)
{
	const int i = sym::choice("i", 4), j = sym::choice("j", 4);
	Base arr[2]{{7}, {7}};
	Derived der{};
	auto single = std::make_unique<Base>(Base{7});
	Base* pool[4]{std::addressof(arr[0]), std::addressof(arr[1]), std::addressof(static_cast<Base&>(der)), single.get()};
	all_depths(m::instance(*pool[j]), *pool[i], i == j);
	const Base& c = *pool[j];
	all_depths(m::instance(c), *pool[i], i == j);
	std::uint64_t words[3]{sym::make<std::uint64_t>("w"), sym::make<std::uint64_t>("w"), sym::make<std::uint64_t>("w")};
	if (i < 3 && j < 3)
		all_depths(m::instance(words[j]), words[i], i == j);
	if (i == j)
		sym::reach("same");
	else
		sym::reach("different");
}

template <typename M>
static void texts(M matcher, std::string_view plain, std::string_view inverted)
{
	CHECK_THAT(d::describe_hook::describe(matcher) == plain, "description");
	auto n1 = !matcher;
	CHECK_THAT(d::describe_hook::describe(n1) == inverted, "negated description");
	CHECK_THAT(d::describe_hook::describe(matcher) == plain, "unchanged by negation");
	auto n2 = !n1;
	CHECK_THAT(d::describe_hook::describe(n2) == plain, "doubly negated description");
	auto n3 = !std::move(n2);
	CHECK_THAT(d::describe_hook::describe(n3) == inverted, "triply negated description");
	auto r1 = !std::move(matcher);
	CHECK_THAT(d::describe_hook::describe(r1) == inverted, "negated rvalue description");
	auto r2 = !std::move(r1);
	CHECK_THAT(d::describe_hook::describe(r2) == plain, "doubly negated rvalue description");
	sym::reach("described");
}

HARNESS(descriptions)
{
	const auto yes = [](const auto&) { return true; };
	int object{};
	std::vector<int> two{1, 2}, one{1};
	switch (sym::choice("matcher", 19))
	{
	case 0: texts(m::eq(-42), "== -42", "!= -42"); break;
	case 1: texts(m::ne(7u), "!= 7", "== 7"); break;
	case 2: texts(m::lt(7), "< 7", ">= 7"); break;
	case 3: texts(m::le(7), "<= 7", "> 7"); break;
	case 4: texts(m::gt(7), "> 7", "<= 7"); break;
	case 5: texts(m::ge(7), ">= 7", "< 7"); break;
	case 6: texts(m::predicate(yes), "passes predicate", "fails predicate"); break;
	case 7: texts(m::predicate(yes, "a", "b"), "a", "b"); break;
	case 8: texts(m::instance(object), "is instance at " + mimicpp::print(&object), "is not instance at " + mimicpp::print(&object)); break;
	case 9: texts(m::str::eq("x{}"), "is equal to \"x{}\"", "is not equal to \"x{}\""); break;
	case 10: texts(m::str::starts_with("x"), "starts with \"x\"", "starts not with \"x\""); break;
	case 11: texts(m::str::ends_with("x"), "ends with \"x\"", "ends not with \"x\""); break;
	case 12: texts(m::str::contains("x"), "contains \"x\"", "contains not \"x\""); break;
	case 13: texts(m::str::eq("x", case_insensitive), "is case-insensitively equal to \"x\"", "is case-insensitively not equal to \"x\""); break;
	case 14: texts(m::range::eq(two), "elements are { 1, 2 }", "elements are not { 1, 2 }"); break;
	case 15: texts(m::range::unordered_eq(one), "is a permutation of { 1 }", "is not a permutation of { 1 }"); break;
	case 16: texts(m::range::has_size(3), "has size of 3", "has different size than 3"); break;
	case 17: texts(m::range::each_element(m::eq(3)), "each el in range: el == 3", "not each el in range: el == 3"); break;
	default: texts(m::range::any_element(!m::eq(3)), "any el in range: el != 3", "none el in range: el != 3"); break;
	}
}

HARNESS(more_descriptions)
{
	switch (sym::choice("matcher", 5))
	{
	case 0: texts(m::str::starts_with("x", case_insensitive), "case-insensitively starts with \"x\"", "case-insensitively starts not with \"x\""); break;
	case 1: texts(m::str::ends_with("x", case_insensitive), "case-insensitively ends with \"x\"", "case-insensitively ends not with \"x\""); break;
	case 2: texts(m::str::contains("x", case_insensitive), "case-insensitively contains \"x\"", "case-insensitively contains not \"x\""); break;
	case 3: texts(m::range::is_sorted(), "is a sorted range", "is an unsorted range"); break;
	default: texts(m::range::is_empty(), "is an empty range", "is not an empty range"); break;
	}
}

// the same verdicts when used for a mock, and the report shows the matcher's own text
HARNESS(through_mock)
{
	setup();
	Mock<void(Sym&)> mock{};
	Sym a{sym::make<std::uint32_t>("a")}, x{sym::make<std::uint32_t>("x")}, other = x;
	bool want{};
	const char* text{};
	std::optional<ScopedExpectation> e{};
	switch (sym::choice("matcher", 9))
	{
	case 0: e.emplace(mock.expect_call(m::eq(a)) && expect::at_most(1)), want = x.v == a.v, text = "== S"; break;
	case 1: e.emplace(mock.expect_call(!m::eq(a)) && expect::at_most(1)), want = x.v != a.v, text = "!= S"; break;
	case 2: e.emplace(mock.expect_call(m::lt(a)) && expect::at_most(1)), want = x.v < a.v, text = "< S"; break;
	case 3: e.emplace(mock.expect_call(!m::lt(a)) && expect::at_most(1)), want = x.v >= a.v, text = ">= S"; break;
	case 4: e.emplace(mock.expect_call(!!m::gt(a)) && expect::at_most(1)), want = x.v > a.v, text = "> S"; break;
	case 5: e.emplace(mock.expect_call(m::instance(x)) && expect::at_most(1)), want = true; break;
	case 6: e.emplace(mock.expect_call(m::instance(other)) && expect::at_most(1)), want = false; break;
	case 7: e.emplace(mock.expect_call(!m::instance(other)) && expect::at_most(1)), want = true; break;
	default: e.emplace(mock.expect_call(a) && expect::at_most(1)), want = x.v == a.v, text = "== S"; break;
	}
	CHECK_THAT((attempt([&] { mock(x); }) == Outcome::ok) == want, "the mock uses the matcher's verdict");
	CHECK_THAT(rec.reports.at(0).expectationReports.at(0).isMatching == want, "reported verdict");
	if (text)
		CHECK_THAT(rec.reports[0].expectationReports[0].description == std::string{"expect: arg[0] "} + text, "reported description");
	sym::reach("mock");
}

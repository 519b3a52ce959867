// BOUNDS: vectors: eq, unordered_eq, is_sorted, is_empty, has_size, each_element, any_element on vector<int32>: target length 0..3 (thorough 4), expected length 0..3 (thorough 4), every element value
// BOUNDS: containers: the same on list, array, span, forward_list, deque-free views (iota transform), string; lengths 0..2
// BOUNDS: comparators: every relation over a 4 element domain for eq, every partition for unordered_eq, every weak order for is_sorted; lengths 0..3
// BOUNDS: sizes: every int8/int16/int32/int64/uint8/uint32/uint64 operand, lengths 0..2
// BOUNDS: inner: each_element/any_element with negated, nested and stateful inner matchers, negations of all matchers
// BOUNDS: operands_kept: matchers, comparators and ranges given as lvalue stay usable and unchanged
// BOUNDS: long_ranges: vectors of 16, 255, 256 or 300 elements, one of them (first, middle, last) arbitrary; every matcher
// OUTSIDE: unordered_eq on ranges of prvalues (std::ranges::is_permutation of libstdc++ 13 keeps a dangling reference there)
// OUTSIDE: single pass and infinite ranges; inner matchers that only exist through custom::matcher_traits
#include "common.hpp"
#include <array>
#include <forward_list>
#include <list>
#include <span>
#include <string>
using namespace mimicpp;
namespace m = mimicpp::matches;
namespace r = mimicpp::matches::range;
namespace d = mimicpp::detail;
using I = std::int32_t;
using V = std::vector<I>;

template <typename M, typename T>
static bool hit(const M& matcher, T&& target) { return d::matches_hook::matches(matcher, target); }

static V values(const char* n, int lo, int hi)
{
	V v{};
	const int len = lo + sym::choice("len", hi - lo + 1);
	v.reserve(4);
	for (int i = 0; i < len; ++i)
		v.push_back(sym::make<I>(n));
	return v;
}

// reference relations, branch free in the element values
template <typename Eq>
static bool ref_eq(const V& a, const V& b, Eq eq)
{
	if (a.size() != b.size())
		return false;
	bool ok = true;
	for (std::size_t i = 0; i < a.size(); ++i)
		ok &= static_cast<bool>(eq(a[i], b[i]));
	return ok;
}
template <typename Eq>
static bool ref_perm(const V& a, const V& b, Eq eq)
{
	if (a.size() != b.size())
		return false;
	bool ok = true;
	for (std::size_t i = 0; i < a.size(); ++i)
	{
		unsigned na = 0, nb = 0;
		for (std::size_t j = 0; j < a.size(); ++j)
		{
			na += static_cast<unsigned>(static_cast<bool>(eq(a[j], a[i])));
			nb += static_cast<unsigned>(static_cast<bool>(eq(a[i], b[j])));
		}
		ok &= na == nb;
	}
	return ok;
}
template <typename Less>
static bool ref_sorted(const V& a, Less less)
{
	bool ok = true;
	for (std::size_t i = 1; i < a.size(); ++i)
		ok &= !static_cast<bool>(less(a[i], a[i - 1]));
	return ok;
}
static bool all_lt(const V& a, I x)
{
	bool ok = true;
	for (I e : a)
		ok &= e < x;
	return ok;
}
static bool any_lt(const V& a, I x)
{
	bool ok = false;
	for (I e : a)
		ok |= e < x;
	return ok;
}
constexpr auto equal = [](I a, I b) { return a == b; };
constexpr auto less = [](I a, I b) { return a < b; };

template <typename Target>
static void relations(Target& t, const V& tv, int emax, bool sized = true)
{
	bool got{}, want{};
	const int k = sym::choice("matcher", 7);
	switch (k)
	{
	case 0:
	{
		const V e = values("e", 0, emax);
		got = hit(r::eq(e), t);
		want = ref_eq(tv, e, equal);
		break;
	}
	case 1:
	{
		const V e = values("e", 0, emax);
		if constexpr (std::is_reference_v<std::ranges::range_reference_t<Target>>)
		{
			got = hit(r::unordered_eq(e), t);
			want = ref_perm(tv, e, equal);
		}
		break;
	}
	case 2:
		got = hit(r::is_sorted(), t);
		want = ref_sorted(tv, less);
		break;
	case 3:
		got = hit(r::is_empty(), t);
		want = tv.empty();
		break;
	case 4:
	{
		const int n = sym::make<int>("n");
		if constexpr (std::ranges::sized_range<Target>)
		{
			got = hit(r::has_size(n), t);
			want = n >= 0 && static_cast<std::size_t>(n) == tv.size();
		}
		(void)sized;
		break;
	}
	case 5:
	{
		const I x = sym::make<I>("x");
		got = hit(r::each_element(m::lt(x)), t);
		want = all_lt(tv, x);
		break;
	}
	default:
	{
		const I x = sym::make<I>("x");
		got = hit(r::any_element(m::lt(x)), t);
		want = any_lt(tv, x);
		break;
	}
	}
	CHECK_THAT(got == want, "range relation");
	if (got && tv.size() >= 2)
		sym::reach("holds for two elements");
	sym::observe("got", got);
}

HARNESS(vectors)
{
	V t = values("t", 0, THOROUGH ? 4 : 3);
	const V copy{t};
	relations(t, copy, THOROUGH ? 4 : 3);
	CHECK_THAT(ref_eq(t, copy, equal), "the target is unchanged");
}

HARNESS(containers)
{
	const V tv = values("t", 0, 2);
	switch (sym::choice("container", 7))
	{
	case 0:
	{
		std::list<I> t(tv.begin(), tv.end());
		relations(t, tv, 2);
		break;
	}
	case 1:
	{
		const std::forward_list<I> t(tv.begin(), tv.end());
		relations(t, tv, 2);
		break;
	}
	case 2:
	{
		std::span<const I> t{tv};
		relations(t, tv, 2);
		break;
	}
	case 3:
	{
		if (tv.size() != 2)
			return;
		const std::array<I, 2> t{tv[0], tv[1]};
		relations(t, tv, 2);
		break;
	}
	case 4:
	{
		if (tv.size() != 2)
			return;
		I t[2]{tv[0], tv[1]};
		relations(t, tv, 2);
		break;
	}
	case 5:
	{
		auto t = std::views::iota(std::size_t{0}, tv.size()) | std::views::transform([&](std::size_t i) -> const I& { return tv[i]; });
		relations(t, tv, 2);
		break;
	}
	default:
	{
		auto t = std::views::iota(std::size_t{0}, tv.size()) | std::views::transform([&](std::size_t i) { return tv[i]; });
		relations(t, tv, 2);
		break;
	}
	}
}

HARNESS(comparators)
{
	auto small = [](const char* n) {
		V v = values(n, 0, 3);
		for (I x : v)
			sym::assume(0 <= x && x < 4);
		return v;
	};
	V t = small("t");
	bool got{}, want{};
	switch (sym::choice("matcher", 3))
	{
	case 0:
	{
		const V e = small("e");
		const std::uint32_t table = sym::make<std::uint16_t>("relation");
		auto rel = [table](I a, I b) { return ((table >> (a * 4 + b)) & 1u) != 0; };
		got = hit(r::eq(e, rel), t);
		want = ref_eq(t, e, rel);
		CHECK_THAT(hit(!r::eq(e, rel), t) == !want, "negated");
		break;
	}
	case 1:
	{
		const V e = small("e");
		const std::uint32_t classes = sym::make<std::uint8_t>("partition");
		auto rel = [classes](I a, I b) { return ((classes >> (a * 2)) & 3u) == ((classes >> (b * 2)) & 3u); };
		got = hit(r::unordered_eq(e, rel), t);
		want = ref_perm(t, e, rel);
		CHECK_THAT(hit(!r::unordered_eq(e, rel), t) == !want, "negated");
		break;
	}
	default:
	{
		const std::uint32_t ranks = sym::make<std::uint8_t>("ranks");
		auto rel = [ranks](I a, I b) { return ((ranks >> (a * 2)) & 3u) < ((ranks >> (b * 2)) & 3u); };
		got = hit(r::is_sorted(rel), t);
		want = ref_sorted(t, rel);
		CHECK_THAT(hit(!r::is_sorted(rel), t) == !want, "negated");
		break;
	}
	}
	CHECK_THAT(got == want, "the given comparator decides");
	if (got && t.size() == 3)
		sym::reach("holds for three elements");
	sym::observe("got", got);
}

template <typename N>
static void size_of()
{
	const V t = values("t", 0, 2);
	const N n = sym::make<N>("n");
	const bool want = n >= 0 && static_cast<std::uint64_t>(n) == t.size();
	CHECK_THAT(hit(r::has_size(n), t) == want, "size");
	CHECK_THAT(hit(!r::has_size(n), t) == !want, "negated size");
	CHECK_THAT(hit(r::is_empty(), t) == t.empty() && hit(!r::is_empty(), t) == !t.empty(), "emptiness");
	sym::reach("size");
}

HARNESS(sizes)
{
	switch (sym::choice("type", 7))
	{
	case 0: size_of<signed char>(); break;
	case 1: size_of<std::int16_t>(); break;
	case 2: size_of<std::int32_t>(); break;
	case 3: size_of<std::int64_t>(); break;
	case 4: size_of<unsigned char>(); break;
	case 5: size_of<std::uint32_t>(); break;
	default: size_of<std::uint64_t>(); break;
	}
}

HARNESS(inner)
{
	const V t = values("t", 0, 3);
	const I x = sym::make<I>("x"), y = sym::make<I>("y");
	bool allNe = true, anyEq = false, allIn = true;
	for (I e : t)
	{
		allNe &= e != x;
		anyEq |= e == x;
		allIn &= x <= e && e <= y;
	}
	switch (sym::choice("shape", 7))
	{
	case 0: CHECK_THAT(hit(r::each_element(!m::eq(x)), t) == allNe, "negated inner matcher"); break;
	case 1: CHECK_THAT(hit(!r::any_element(m::eq(x)), t) == !anyEq, "negated any"); break;
	case 2: CHECK_THAT(hit(!r::each_element(m::ne(x)), t) == !allNe, "negated each"); break;
	case 3: CHECK_THAT(hit(r::each_element(m::predicate([=](I e) { return x <= e && e <= y; })), t) == allIn, "stateful inner matcher"); break;
	case 4: CHECK_THAT(hit(r::each_element(WildcardMatcher{}), t) && hit(r::any_element(WildcardMatcher{}), t) == !t.empty(), "wildcard as inner matcher"); break;
	case 5:
	{
		const std::vector<V> tt{t, V{}, t};
		CHECK_THAT(hit(r::any_element(r::any_element(m::eq(x))), tt) == anyEq, "nested any");
		CHECK_THAT(hit(r::each_element(r::each_element(m::ne(x))), tt) == allNe, "nested each");
		CHECK_THAT(hit(r::any_element(r::is_empty()), tt), "nested is_empty");
		break;
	}
	default:
	{
		if (t.empty())
			return;
		CHECK_THAT(hit(r::any_element(m::instance(t.back())), t), "elements are passed by reference");
		const I other = t.back();
		CHECK_THAT(!hit(r::any_element(m::instance(other)), t), "elements are passed by reference");
	}
	}
	sym::reach("inner");
}

HARNESS(operands_kept)
{
	const char c = sym::make<char>("c");
	const std::string text{"a very long operand which is stored on the heap"};
	std::string operand{text};
	operand[0] = c;
	const std::string copy{operand};
	std::vector<std::string> t{copy, copy};
	switch (sym::choice("matcher", 5))
	{
	case 0:
	{
		auto inner = m::str::eq(operand);
		const auto matcher = r::each_element(inner);
		CHECK_THAT(hit(inner, copy), "the inner matcher is still usable");
		CHECK_THAT(hit(matcher, t), "each_element");
		break;
	}
	case 1:
	{
		auto inner = m::str::eq(operand);
		const auto matcher = r::any_element(inner);
		CHECK_THAT(hit(inner, copy), "the inner matcher is still usable");
		CHECK_THAT(hit(matcher, t), "any_element");
		break;
	}
	case 2:
	{
		auto inner = m::eq(operand);
		const auto matcher = !r::any_element(inner);
		CHECK_THAT(hit(inner, copy) && !hit(matcher, t), "the inner matcher is still usable");
		break;
	}
	case 3:
	{
		const auto matcher = r::eq(t);
		std::vector<std::string> same{copy, copy};
		CHECK_THAT(hit(matcher, same) && t.size() == 2 && t[0] == copy && t[1] == copy, "expected range is unchanged");
		break;
	}
	default:
	{
		auto cmp = [operand](const std::string&, const std::string& b) { return b == operand; };
		const auto matcher = r::eq(t, cmp);
		CHECK_THAT(cmp("", copy) && hit(matcher, t), "comparator is still usable");
		break;
	}
	}
	CHECK_THAT(operand == copy, "operand unchanged");
	sym::reach("kept");
}

HARNESS(through_mock)
{
	setup();
	Mock<void(const std::vector<Sym>&)> mock{};
	std::vector<Sym> t(2), e(2);
	for (int i = 0; i < 2; ++i)
	{
		t[static_cast<std::size_t>(i)] = Sym{sym::make<std::uint32_t>("t")};
		e[static_cast<std::size_t>(i)] = Sym{sym::make<std::uint32_t>("e")};
	}
	bool want{};
	std::optional<ScopedExpectation> x{};
	switch (sym::choice("matcher", 4))
	{
	case 0: x.emplace(mock.expect_call(r::eq(e)) && expect::at_most(1)), want = t[0] == e[0] && t[1] == e[1]; break;
	case 1: x.emplace(mock.expect_call(r::unordered_eq(std::vector<Sym>{e})) && expect::at_most(1)), want = (t[0] == e[0] && t[1] == e[1]) || (t[0] == e[1] && t[1] == e[0]); break;
	case 2: x.emplace(mock.expect_call(!r::is_sorted()) && expect::at_most(1)), want = t[1] < t[0]; break;
	default: x.emplace(mock.expect_call(r::any_element(m::eq(e[0]))) && expect::at_most(1)), want = t[0] == e[0] || t[1] == e[0]; break;
	}
	CHECK_THAT((attempt([&] { mock(t); }) == Outcome::ok) == want, "the mock uses the range relation");
	if (want)
		sym::reach("match");
}

HARNESS(long_ranges)
{
	static constexpr int sizes[]{16, 255, 256, 300};
	const int n = sizes[sym::choice("n", 4)];
	const int pos = sym::choice("pos", 3);
	const std::size_t at = pos == 0 ? 0u : pos == 1 ? static_cast<std::size_t>(n / 2) : static_cast<std::size_t>(n - 1);
	V e{}, t{};
	for (I i = 0; i < n; ++i)
		e.push_back(i * 2);
	t = e;
	const I x = sym::make<I>("x"), own = e[at];
	t[at] = x;
	bool got, want;
	switch (sym::choice("matcher", 9))
	{
	case 0: got = hit(r::eq(e), t); want = x == own; break;
	case 1: got = hit(r::unordered_eq(V(e.rbegin(), e.rend())), t); want = x == own; break;
	case 2:
		got = hit(r::is_sorted(), t);
		want = (at == 0 || e[at - 1] <= x) && (at + 1 == e.size() || x <= e[at + 1]);
		break;
	case 3: got = hit(r::is_empty(), t); want = false; break;
	case 4: got = hit(r::has_size(n), t); want = true; break;
	case 5: got = hit(r::has_size(n % 256 + (n == 256 ? 512 : n < 256 ? 256 : 0)), t); want = false; break;
	case 6: got = hit(r::each_element(m::lt(2 * n)), t); want = x < 2 * n; break;
	case 7: got = hit(r::any_element(m::eq(-1)), t); want = x == -1; break;
	default:
	{
		V shorter{e};
		shorter.pop_back();
		got = hit(r::eq(shorter), t);
		want = false;
		break;
	}
	}
	CHECK_THAT(got == want, "relation of long ranges");
	if (got)
		sym::reach("long range");
}

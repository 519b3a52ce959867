// BOUNDS: char_types: eq/starts_with/ends_with/contains on basic_string of char, wchar_t, char8_t, char16_t, char32_t; target length 0..5, pattern length 0..3 (thorough 7/4); every code unit value, embedded zeros included
// BOUNDS: forms: target and pattern each as std::string, string_view, zero terminated pointer or array; lengths 0..3 / 0..2, every byte
// BOUNDS: fold: case-insensitive eq/starts_with/ends_with/contains, target length 0..5, pattern length 0..3 (thorough 6/4), every byte
// BOUNDS: fold_eq: case-insensitive eq on single characters, all 65536 pairs; negation of all eight matchers
// BOUNDS: through_mock: string parameters with string matchers and with plain expected strings
// BOUNDS: long_texts: targets of 16, 64, 255, 256 or 300 units, one of them (first, middle, last) arbitrary; patterns: the whole text, without its first or last unit, one unit more, its last two or twenty units; plain and case-insensitive
// ASSUME: "C" locale
// OUTSIDE: unicode case folding (needs uni_algo, not installed); user defined string types; null pointers
#include "common.hpp"
#include <string>
using namespace mimicpp;
namespace m = mimicpp::matches;
namespace d = mimicpp::detail;

template <typename M, typename T>
static bool hit(const M& matcher, T&& target) { return d::matches_hook::matches(matcher, target); }

template <typename C>
static std::basic_string<C> text(const char* n, int lo, int hi)
{
	std::basic_string<C> s{};
	const int len = lo + sym::choice("len", hi - lo + 1);
	for (int i = 0; i < len; ++i)
		s.push_back(static_cast<C>(sym::make<std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, std::int8_t, std::conditional_t<sizeof(C) == 2, std::int16_t, std::int32_t>>>>(n)));
	return s;
}

// reference relations, branch free
static unsigned fold(unsigned char c, bool on) { return on && static_cast<unsigned>(c - 'a') < 26u ? c - 32u : c; }
template <typename C>
static bool unit_eq(C a, C b, bool f)
{
	if constexpr (sizeof(C) == 1)
		return fold(static_cast<unsigned char>(a), f) == fold(static_cast<unsigned char>(b), f);
	else
		return a == b;
}
template <typename S>
static bool at(const S& t, const S& p, std::size_t pos, bool f)
{
	if (pos + p.size() > t.size())
		return false;
	bool r = true;
	for (std::size_t i = 0; i < p.size(); ++i)
		r &= unit_eq(t[pos + i], p[i], f);
	return r;
}
template <typename S>
static bool reference(int k, const S& t, const S& p, bool f = false)
{
	switch (k)
	{
	case 0: return t.size() == p.size() && at(t, p, 0, f);
	case 1: return at(t, p, 0, f);
	case 2: return p.size() <= t.size() && at(t, p, t.size() - p.size(), f);
	default:
	{
		bool any = false;
		for (std::size_t pos = 0; pos + p.size() <= t.size(); ++pos)
			any |= at(t, p, pos, f);
		return any;
	}
	}
}

template <typename C>
static void char_type()
{
	using S = std::basic_string<C>;
	S t = text<C>("t", 0, THOROUGH ? 7 : 5);
	const S p = text<C>("p", 0, THOROUGH ? 4 : 3);
	const S tc{t}, pc{p};
	const int k = sym::choice("matcher", 4);
	bool got;
	switch (k)
	{
	case 0: got = hit(m::str::eq(p), t); break;
	case 1: got = hit(m::str::starts_with(p), t); break;
	case 2: got = hit(m::str::ends_with(p), t); break;
	default: got = hit(m::str::contains(p), t); break;
	}
	CHECK_THAT(got == reference(k, tc, pc), "textual relation");
	if (got && p.size() == 3 && t.size() >= 3)
		sym::reach("long pattern");
	sym::observe("got", got);
}

HARNESS(char_types)
{
	switch (sym::choice("type", 5))
	{
	case 0: char_type<char>(); break;
	case 1: char_type<wchar_t>(); break;
	case 2: char_type<char8_t>(); break;
	case 3: char_type<char16_t>(); break;
	default: char_type<char32_t>(); break;
	}
}

// calls f with the text in the given form
template <typename F>
static void in_form(int form, const std::string& s, F&& f)
{
	char buf[4]{};
	for (std::size_t i = 0; i < s.size(); ++i)
		buf[i] = s[i];
	switch (form)
	{
	case 0:
	{
		std::string x{s};
		f(x);
		break;
	}
	case 1:
	{
		std::string_view x{s};
		f(x);
		break;
	}
	case 2:
	{
		const char* x = buf;
		f(x);
		break;
	}
	default: f(buf); break;
	}
}

template <bool ci>
static void relation_in_forms(int tmax, int pmax)
{
	const std::string t = text<char>("t", 0, tmax), p = text<char>("p", 0, pmax);
	const int tf = sym::choice("tform", 4), pf = sym::choice("pform", 4), k = sym::choice("matcher", 4);
	if (tf >= 2)
		for (char c : t)
			sym::assume(c != 0);
	if (pf >= 2)
		for (char c : p)
			sym::assume(c != 0);
	bool got{};
	in_form(pf, p, [&](auto& pattern) {
		in_form(tf, t, [&](auto& target) {
			if constexpr (ci)
				switch (k)
				{
				case 0: got = hit(m::str::eq(pattern, case_insensitive), target); break;
				case 1: got = hit(m::str::starts_with(pattern, case_insensitive), target); break;
				case 2: got = hit(m::str::ends_with(pattern, case_insensitive), target); break;
				default: got = hit(m::str::contains(pattern, case_insensitive), target); break;
				}
			else
				switch (k)
				{
				case 0: got = hit(m::str::eq(pattern), target); break;
				case 1: got = hit(m::str::starts_with(pattern), target); break;
				case 2: got = hit(m::str::ends_with(pattern), target); break;
				default: got = hit(m::str::contains(pattern), target); break;
				}
		});
	});
	CHECK_THAT(got == reference(k, t, p, ci), "textual relation in every form");
	if (got && !p.empty())
		sym::reach("related");
	sym::observe("got", got);
}

HARNESS(forms) { relation_in_forms<false>(THOROUGH ? 3 : 2, 2); }
HARNESS(fold_forms) { relation_in_forms<true>(2, THOROUGH ? 2 : 1); }

HARNESS(fold)
{
	const std::string t = text<char>("t", 0, THOROUGH ? 6 : 5), p = text<char>("p", 0, THOROUGH ? 4 : 3);
	const int k = sym::choice("matcher", 4);
	bool got{};
	switch (k)
	{
	case 0: got = hit(m::str::eq(p, case_insensitive), t); break;
	case 1: got = hit(m::str::starts_with(p, case_insensitive), t); break;
	case 2: got = hit(m::str::ends_with(p, case_insensitive), t); break;
	default: got = hit(m::str::contains(p, case_insensitive), t); break;
	}
	CHECK_THAT(got == reference(k, t, p, true), "textual relation after folding");
	if (got && p.size() == 2 && t[0] != p[0] && t.size() > 2)
		sym::reach("folded");
	sym::observe("got", got);
}

HARNESS(negated)
{
	const std::string t = text<char>("t", 1, 2), p = text<char>("p", 1, 2);
	bool got{};
	const int k = sym::choice("matcher", 8);
	switch (k)
	{
	case 0: got = hit(!m::str::eq(p), t); break;
	case 1: got = hit(!m::str::starts_with(p), t); break;
	case 2: got = hit(!m::str::ends_with(p), t); break;
	case 3: got = hit(!m::str::contains(p), t); break;
	case 4: got = hit(!m::str::eq(p, case_insensitive), t); break;
	case 5: got = hit(!m::str::starts_with(p, case_insensitive), t); break;
	case 6: got = hit(!m::str::ends_with(p, case_insensitive), t); break;
	default: got = hit(!m::str::contains(p, case_insensitive), t); break;
	}
	CHECK_THAT(got == !reference(k % 4, t, p, k >= 4), "negated relation");
	sym::reach("negated");
}

HARNESS(through_mock)
{
	setup();
	Mock<void(std::string)> mock{};
	const std::string t = text<char>("t", 0, 2), p = text<char>("p", 1, 2);
	bool want{};
	std::optional<ScopedExpectation> e{};
	switch (sym::choice("matcher", 5))
	{
	case 0: e.emplace(mock.expect_call(p) && expect::at_most(1)), want = reference(0, t, p); break;
	case 1: e.emplace(mock.expect_call(m::str::contains(p)) && expect::at_most(1)), want = reference(3, t, p); break;
	case 2: e.emplace(mock.expect_call(!m::str::starts_with(p)) && expect::at_most(1)), want = !reference(1, t, p); break;
	case 3: e.emplace(mock.expect_call(m::str::ends_with(p, case_insensitive)) && expect::at_most(1)), want = reference(2, t, p, true); break;
	default: e.emplace(mock.expect_call(m::str::eq(std::string{p}, case_insensitive)) && expect::at_most(1)), want = reference(0, t, p, true); break;
	}
	CHECK_THAT((attempt([&] { mock(t); }) == Outcome::ok) == want, "the mock matches by text");
	if (want)
		sym::reach("match");
}

HARNESS(long_texts)
{
	static constexpr int sizes[]{16, 64, 255, 256, 300};
	const int n = sizes[sym::choice("n", 5)];
	const int pos = sym::choice("pos", 3);
	const std::size_t at = pos == 0 ? 0u : pos == 1 ? static_cast<std::size_t>(n / 2) : static_cast<std::size_t>(n - 1);
	std::string t(static_cast<std::size_t>(n), 'a');
	std::string p{t};
	p[at] = 'k';
	t[at] = sym::make<char>("c");
	switch (sym::choice("pattern", 6))
	{
	case 0: break;
	case 1: p.erase(0, 1); break;
	case 2: p.pop_back(); break;
	case 3: p.push_back('a'); break;
	case 4: p.erase(0, p.size() - 2); break;
	default: p.erase(0, p.size() > 20 ? p.size() - 20 : 0); break;
	}
	const int k = sym::choice("matcher", 4);
	const bool f = sym::flag("fold");
	bool got;
	switch (k)
	{
	case 0: got = f ? hit(m::str::eq(p, case_insensitive), t) : hit(m::str::eq(p), t); break;
	case 1: got = f ? hit(m::str::starts_with(p, case_insensitive), t) : hit(m::str::starts_with(p), t); break;
	case 2: got = f ? hit(m::str::ends_with(p, case_insensitive), t) : hit(m::str::ends_with(p), t); break;
	default: got = f ? hit(m::str::contains(p, case_insensitive), t) : hit(m::str::contains(p), t); break;
	}
	CHECK_THAT(got == reference(k, t, p, f), "textual relation of long texts");
	if (got)
		sym::reach("long text");
}

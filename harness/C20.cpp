// VARIANT fmt: -DMIMICPP_CONFIG_USE_FMT -DFMT_HEADER_ONLY
// BOUNDS: every entry a second time with the {fmt} backend (MIMICPP_CONFIG_USE_FMT)
// BOUNDS: text: std::string, std::string_view (exact heap block, no terminator), const char*, char*, char array; 0..3 (thorough 4) arbitrary chars
// BOUNDS: wide: wchar_t, char8_t, char16_t, char32_t, signed char, unsigned char; as string, view and pointer; 0..2 arbitrary code units
// BOUNDS: integers: every value of 8 and 16 bit types, 32 and 64 bit types around each change of width and at the limits, bool, char
// BOUNDS: pointers: every 64-bit address through T*, const void* and nullptr_t
// BOUNDS: ranges: 0..3 elements with arbitrary one-character texts in vector, list, forward_list, deque, set, span, array, map, user-defined forward range; nested two levels
// BOUNDS: compounds: optionals, pairs, tuples, arrays, nesting of each in the others
// BOUNDS: recursive: a range whose elements are of its own type, without printer, with custom printer, with formatter; on its own and within vector, array, optional and a call
// BOUNDS: long: texts of 15..1000 units, ranges of 15..300 elements and long texts within ranges, the last unit/element arbitrary
// ASSUME: pointers to characters are null or null-terminated, character arrays are null-terminated
// OUTSIDE: types other than std::array that are both a range and tuple-like (printed as tuple), ranges that contain themselves through another type; floating point, chrono and other formatter types (std::format)
#include "common.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <span>
#include <limits>
using namespace mimicpp;

// one character, taken from the value: makes order and completeness of elements visible
struct El
{
	char c;
	friend bool operator==(const El&, const El&) = default;
	friend auto operator<=>(const El&, const El&) = default;
};
template <>
struct mimicpp::custom::Printer<El>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const El& v)
	{
		*out++ = v.c;
		return out;
	}
};

static void same_text(const StringT& got, const StringT& want, const char* what)
{
	CHECK_THAT(got.size() == want.size(), what);
	bool same = true;
	for (std::size_t i = 0; i < got.size(); ++i)
		same = same & (got[i] == want[i]);
	CHECK_THAT(same, what);
}

template <typename T>
static void expect_text(T&& value, const StringT& want, const char* what)
{
	try
	{
		same_text(print(std::forward<T>(value)), want, what);
		StringT s{};
		print(std::back_inserter(s), std::forward<T>(value));
		same_text(s, want, what);
	}
	catch (...)
	{
		CHECK_THAT(false, "printing does not throw");
	}
}

static void put(StringT& s, std::uint64_t v)
{
	char buf[24];
	int n = 0;
	do
	{
		buf[n++] = static_cast<char>('0' + v % 10u);
		v /= 10u;
	} while (v != 0);
	while (n > 0)
		s.push_back(buf[--n]);
}

static char hex_digit(unsigned d) { return static_cast<char>(d < 10 ? '0' + d : 'a' + (d - 10)); }

static const char* const cname[]{"c0", "c1", "c2", "c3"};

HARNESS(text)
{
	const int n = sym::choice("len", THOROUGH ? 5 : 4);
	const int kind = sym::choice("kind", 6);
	StringT s{};
	for (int i = 0; i < n; ++i)
		s.push_back(sym::make<char>(cname[i]));
	if (kind >= 2)
		for (int i = 0; i < n; ++i)
			sym::assume(s[static_cast<std::size_t>(i)] != 0);
	const StringT want = '"' + s + '"';
	switch (kind)
	{
	case 0:
		expect_text(s, want, "std::string verbatim in quotes");
		expect_text(std::as_const(s), want, "const std::string verbatim in quotes");
		break;
	case 1:
	{
		const std::unique_ptr<char[]> exact{new char[static_cast<std::size_t>(n)]};
		for (int i = 0; i < n; ++i)
			exact[static_cast<std::size_t>(i)] = s[static_cast<std::size_t>(i)];
		expect_text(std::string_view{exact.get(), static_cast<std::size_t>(n)}, want, "std::string_view verbatim in quotes");
		break;
	}
	case 2:
	{
		const std::unique_ptr<char[]> exact{new char[static_cast<std::size_t>(n) + 1]};
		for (int i = 0; i < n; ++i)
			exact[static_cast<std::size_t>(i)] = s[static_cast<std::size_t>(i)];
		exact[static_cast<std::size_t>(n)] = 0;
		const char* p = exact.get();
		expect_text(p, want, "const char* verbatim in quotes");
		break;
	}
	case 3:
	{
		const std::unique_ptr<char[]> exact{new char[static_cast<std::size_t>(n) + 1]};
		for (int i = 0; i < n; ++i)
			exact[static_cast<std::size_t>(i)] = s[static_cast<std::size_t>(i)];
		exact[static_cast<std::size_t>(n)] = 0;
		char* p = exact.get();
		expect_text(p, want, "char* verbatim in quotes");
		break;
	}
	case 4:
	{
		char a[5]{};
		for (int i = 0; i < n; ++i)
			a[i] = s[static_cast<std::size_t>(i)];
		expect_text(a, want, "char array verbatim in quotes");
		break;
	}
	default:
	{
		std::vector<StringT> v{s, s};
		expect_text(v, "{ " + want + ", " + want + " }", "strings in ranges verbatim in quotes");
		break;
	}
	}
	sym::reach("text");
}

template <typename Char>
static void wide_string(const char* prefix, int form)
{
	const int n = sym::choice("len", 3);
	std::vector<Char> u{};
	for (int i = 0; i < n; ++i)
		u.push_back(sym::make<Char>(cname[i]));
	if (form == 2)
		for (int i = 0; i < n; ++i)
			sym::assume(u[static_cast<std::size_t>(i)] != 0);
	StringT want{prefix};
	want += '"';
	for (int i = 0; i < n; ++i)
	{
		if (i)
			want += ", ";
		want += "0x";
		std::uint64_t v = 0;
		if constexpr (sizeof(Char) == 1)
			v = static_cast<std::uint8_t>(u[static_cast<std::size_t>(i)]);
		else if constexpr (sizeof(Char) == 2)
			v = static_cast<std::uint16_t>(u[static_cast<std::size_t>(i)]);
		else
			v = static_cast<std::uint32_t>(u[static_cast<std::size_t>(i)]);
		int digits = 1;
		while (digits < 8 && (v >> (4 * digits)) != 0)
			++digits;
		for (int d = digits - 1; d >= 0; --d)
			want += hex_digit(static_cast<unsigned>((v >> (4 * d)) & 15u));
	}
	want += '"';
	switch (form)
	{
	case 0:
		expect_text(std::basic_string_view<Char>{u.data(), u.size()}, want, "view of other characters as prefixed hex values");
		break;
	case 1:
		expect_text(std::basic_string<Char>(u.begin(), u.end()), want, "string of other characters as prefixed hex values");
		break;
	default:
	{
		u.push_back(Char{});
		const Char* p = u.data();
		expect_text(p, want, "pointer to other characters as prefixed hex values");
		break;
	}
	}
	sym::reach("other characters");
}

HARNESS(wide)
{
	const int form = sym::choice("form", 3);
	switch (sym::choice("type", 6))
	{
	case 0:
		return wide_string<wchar_t>("L", form);
	case 1:
		return wide_string<char8_t>("u8", form);
	case 2:
		return wide_string<char16_t>("u", form);
	case 3:
		return wide_string<char32_t>("U", form);
	case 4:
		if (form == 2)
			return wide_string<signed char>("", form);
		return;
	default:
		if (form == 2)
			return wide_string<unsigned char>("", form);
		return;
	}
}

template <typename T>
static void small_int()
{
	const T v = sym::make<T>("v");
	StringT want{};
	const long long l = v;
	if (l < 0)
		want += '-';
	const auto a = static_cast<std::uint32_t>(l < 0 ? -l : l); // 16 bits are enough here
	put(want, a);
	expect_text(v, want, "integer in decimal");
	const T& r = v;
	expect_text(r, want, "integer in decimal");
	sym::reach("small integer");
}

HARNESS(integers8) { return sym::flag("signed") ? small_int<signed char>() : small_int<unsigned char>(); }
HARNESS(integers16) { return sym::flag("signed") ? small_int<short>() : small_int<unsigned short>(); }

template <typename T>
static void big_int()
{
	// +-10^k, +-10^k-1, +-10^k+1 and the limits
	const int k = sym::choice("power", 22);
	using U = std::make_unsigned_t<T>;
	T v{};
	if (k >= 20)
		v = k == 20 ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
	else
	{
		U p = 1;
		for (int i = 0; i < k; ++i)
		{
			if (p > static_cast<U>(std::numeric_limits<T>::max()) / 10)
				return;
			p *= 10;
		}
		p += static_cast<U>(sym::choice("near", 3)) - 1;
		v = static_cast<T>(p);
		if (std::is_signed_v<T> && sym::flag("negative"))
			v = static_cast<T>(-v);
	}
	StringT want{};
	if (v < 0)
		want += '-';
	put(want, v < 0 ? std::uint64_t{0} - static_cast<std::uint64_t>(v) : static_cast<std::uint64_t>(v));
	expect_text(v, want, "integer in decimal");
	sym::reach("integer");
}
HARNESS(integers)
{
	switch (sym::choice("type", 6))
	{
	case 0:
		return big_int<int>();
	case 1:
		return big_int<unsigned>();
	case 2:
		return big_int<long>();
	case 3:
		return big_int<unsigned long>();
	case 4:
		return big_int<long long>();
	default:
	{
		const bool b = sym::make<bool>("b");
		expect_text(b, b ? "true" : "false", "bool");
		const char c = sym::make<char>("c");
		expect_text(c, StringT(1, c), "char");
		return;
	}
	}
}

struct Incomplete;
enum class Scoped { a };

HARNESS(pointers)
{
	const auto a = sym::make<std::uint64_t>("address");
	StringT want = "0x";
	for (int d = 15; d >= 0; --d)
		want += hex_digit(static_cast<unsigned>((a >> (4 * d)) & 15u));
	constexpr const char* zeros = "0x0000000000000000";
	switch (sym::choice("kind", 8))
	{
	case 0:
		expect_text(reinterpret_cast<int*>(a), want, "pointer as 16 hex digits");
		break;
	case 1:
		expect_text(reinterpret_cast<const void*>(a), want, "pointer as 16 hex digits");
		break;
	case 2:
		expect_text(reinterpret_cast<Incomplete*>(a), want, "pointer as 16 hex digits");
		break;
	case 3:
		expect_text(nullptr, zeros, "nullptr as 16 zeros");
		break;
	// null is no string, but a possible value of an argument
	case 4:
		expect_text(static_cast<const char*>(nullptr), zeros, "null character pointer as address");
		break;
	case 5:
		expect_text(static_cast<char16_t*>(nullptr), zeros, "null character pointer as address");
		break;
	case 6:
		expect_text(std::pair<const wchar_t*, std::optional<char*>>{}, StringT{"{ "} + zeros + ", nullopt }", "null character pointer within a pair");
		break;
	default:
		{
			Mock<int(const char*)> mock{};
			ScopedExpectation exp = mock.expect_call(matches::_) && finally::returns(7);
			CHECK_THAT(mock(nullptr) == 7, "a call with a null character pointer is reported like any other");
		}
		break;
	}
	sym::reach("pointer");
}

// a forward range which is no container
struct Countdown
{
	const El* first;
	const El* last;
	const El* begin() const { return first; }
	const El* end() const { return last; }
};

template <typename R>
static void range_text(R&& r, const StringT& want)
{
	expect_text(r, want, "every element of a range once and in order");
	expect_text(std::as_const(r), want, "every element of a const range once and in order");
}

HARNESS(ranges)
{
	const int n = sym::choice("len", 4);
	std::vector<El> v{};
	for (int i = 0; i < n; ++i)
		v.push_back(El{sym::make<char>(cname[i])});
	auto list = [&](const std::vector<El>& e) {
		StringT s = "{ ";
		for (std::size_t i = 0; i < e.size(); ++i)
		{
			if (i)
				s += ", ";
			s += e[i].c;
		}
		return s + " }";
	};
	const StringT want = list(v);
	switch (sym::choice("kind", 9))
	{
	case 0:
		range_text(v, want);
		expect_text(std::vector<El>{v}, want, "every element of a temporary range");
		break;
	case 1:
		range_text(std::list<El>(v.begin(), v.end()), want);
		break;
	case 2:
		range_text(std::forward_list<El>(v.begin(), v.end()), want);
		break;
	case 3:
		range_text(std::deque<El>(v.begin(), v.end()), want);
		break;
	case 4:
		range_text(std::span<const El>{v}, want);
		break;
	case 5:
		range_text(Countdown{v.data(), v.data() + v.size()}, want);
		break;
	case 6:
	{
		const std::vector<std::vector<El>> nested{v, {}, v};
		range_text(nested, "{ " + want + ", {  }, " + want + " }");
		break;
	}
	case 7:
	{
		for (int i = 1; i < n; ++i)
			sym::assume(v[static_cast<std::size_t>(i - 1)].c < v[static_cast<std::size_t>(i)].c);
		range_text(std::set<El>(v.begin(), v.end()), want);
		break;
	}
	default:
	{
		std::map<int, El> m{};
		StringT w = "{ ";
		for (int i = 0; i < n; ++i)
		{
			m.emplace(i, v[static_cast<std::size_t>(i)]);
			if (i)
				w += ", ";
			w += "{ ";
			w += static_cast<char>('0' + i);
			w += ", ";
			w += v[static_cast<std::size_t>(i)].c;
			w += " }";
		}
		range_text(m, w + " }");
		break;
	}
	}
	sym::reach("range");
}

HARNESS(compounds)
{
	const El a{sym::make<char>("a")}, b{sym::make<char>("b")}, c{sym::make<char>("c")};
	const StringT A(1, a.c), B(1, b.c), C(1, c.c);
	const bool has = sym::flag("has");
	switch (sym::choice("kind", 10))
	{
	case 0:
		expect_text(has ? std::optional<El>{a} : std::nullopt, has ? "{ value: " + A + " }" : "nullopt", "optional");
		break;
	case 1:
		expect_text(std::nullopt, "nullopt", "nullopt");
		break;
	case 2:
		expect_text(std::pair{a, b}, "{ " + A + ", " + B + " }", "pair in order");
		break;
	case 3:
		expect_text(std::tuple{a, b, c}, "{ " + A + ", " + B + ", " + C + " }", "tuple in order");
		expect_text(std::tie(a, b, c), "{ " + A + ", " + B + ", " + C + " }", "tuple of references in order");
		break;
	case 4:
		expect_text(std::tuple{}, "{  }", "empty tuple");
		expect_text(std::tuple{a}, "{ " + A + " }", "tuple of one");
		break;
	case 5:
		expect_text(std::array{a, b, c}, "{ " + A + ", " + B + ", " + C + " }", "array in order");
		expect_text(std::array<El, 0>{}, "{  }", "empty array");
		break;
	case 6:
		expect_text(has ? std::optional<std::optional<El>>{std::optional<El>{a}} : std::optional<std::optional<El>>{std::optional<El>{}},
			has ? "{ value: { value: " + A + " } }" : "{ value: nullopt }", "nested optional");
		break;
	case 7:
		expect_text(std::tuple{std::vector{a, b}, std::pair{c, std::optional<El>{}}}, "{ { " + A + ", " + B + " }, { " + C + ", nullopt } }", "nested tuple");
		break;
	case 8:
		expect_text(std::vector{std::tuple{a, std::string{"x"}}, std::tuple{b, std::string{}}}, "{ { " + A + ", \"x\" }, { " + B + ", \"\" } }", "range of tuples");
		break;
	default:
		expect_text(std::optional{std::vector{std::pair{a, b}}}, "{ value: { { " + A + ", " + B + " } } }", "optional of a range");
		break;
	}
	sym::reach("compound");
}

// ---- precedence
struct MyRange : std::vector<int>
{
	using vector::vector;
};
struct MyPair : std::pair<int, int>
{
};
template <>
struct std::tuple_size<MyPair> : std::integral_constant<std::size_t, 2>
{
};
struct MyText
{
	std::string s;
};
template <>
struct mimicpp::string_traits<MyText>
{
	using char_t = char;
	static std::string_view view(const MyText& t) noexcept { return t.s; }
};
struct Formattable
{
};
template <>
struct mimicpp::format::formatter<Formattable, char> : mimicpp::format::formatter<std::string_view, char>
{
	auto format(const Formattable&, auto& ctx) const { return mimicpp::format::formatter<std::string_view, char>::format("formatted", ctx); }
};
struct Formattable2
{
};
template <>
struct mimicpp::format::formatter<Formattable2, char> : mimicpp::format::formatter<std::string_view, char>
{
	auto format(const Formattable2&, auto& ctx) const { return mimicpp::format::formatter<std::string_view, char>::format("formatted", ctx); }
};
struct Opaque
{
	int x;
};
#define CUSTOM(type, mark)                             \
	template <>                                        \
	struct mimicpp::custom::Printer<type>              \
	{                                                  \
		template <typename OutIter>                    \
		static OutIter print(OutIter out, type const&) \
		{                                              \
			*out++ = mark;                             \
			return out;                                \
		}                                              \
	};
CUSTOM(MyRange, 'r')
CUSTOM(MyPair, 'p')
CUSTOM(MyText, 't')
CUSTOM(Formattable, 'f')
CUSTOM(std::optional<Opaque>, 'o')
struct MyTraits : std::char_traits<char16_t>
{
};
using MyString = std::basic_string<char16_t, MyTraits>;
CUSTOM(MyString, 'u')
CUSTOM(long*, '*')

HARNESS(precedence)
{
	using namespace std::string_literals;
	expect_text(MyRange{1, 2}, "r", "a custom printer precedes ranges");
	expect_text(MyPair{}, "p", "a custom printer precedes tuples");
	expect_text(MyText{"x"}, "t", "a custom printer precedes strings");
	expect_text(Formattable{}, "f", "a custom printer precedes formatters");
	expect_text(std::optional<Opaque>{}, "o", "a custom printer precedes optionals");
	expect_text(MyString{u"x"}, "u", "a custom printer precedes strings");
	long l{};
	expect_text(&l, "*", "a custom printer precedes pointers");
	const MyRange lr{1};
	expect_text(lr, "r", "a custom printer is used for const lvalues");
	expect_text(std::vector<MyRange>(2), "{ r, r }", "a custom printer is used for elements");
	expect_text(std::tuple{MyPair{}, MyText{}}, "{ p, t }", "a custom printer is used for tuple elements");
	expect_text(std::optional{Formattable{}}, "{ value: f }", "a custom printer is used for optional values");
	expect_text(Formattable2{}, "formatted", "formatters are used");
	expect_text(Opaque{1}, "{?}", "anything else is printed as {?}");
	expect_text(std::vector<Opaque>(2), "{ {?}, {?} }", "anything else is printed as {?}");
	expect_text(std::optional<std::vector<Opaque>>{std::vector<Opaque>(1)}, "{ value: { {?} } }", "anything else is printed as {?}");
	expect_text(std::pair{Scoped::a, 1}, "{ {?}, 1 }", "anything else is printed as {?}");
	sym::reach("precedence");
}

// own string and character types
struct MyWide
{
	std::u32string s;
};
template <>
struct mimicpp::string_traits<MyWide>
{
	using char_t = char32_t;
	static std::u32string_view view(const MyWide& t) noexcept { return t.s; }
};
struct MyPlain
{
	std::string s;
};
template <>
struct mimicpp::string_traits<MyPlain>
{
	using char_t = char;
	static std::string_view view(const MyPlain& t) noexcept { return t.s; }
};
HARNESS(custom_strings)
{
	StringT s{};
	s.push_back(sym::make<char>("a"));
	s.push_back(sym::make<char>("b"));
	expect_text(MyPlain{s}, '"' + s + '"', "a custom string of chars is printed verbatim");
	const char32_t c = sym::range<char32_t>("c", 16, 255);
	const auto v = static_cast<unsigned>(c);
	expect_text(MyWide{std::u32string(2, c)}, StringT{"U\"0x"} + hex_digit(v >> 4) + hex_digit(v & 15u) + ", 0x" + hex_digit(v >> 4) + hex_digit(v & 15u) + '"',
		"a custom string of other characters is printed as hex values");
	sym::reach("custom string");
}

// ranges whose elements are of the range's own type (as std::filesystem::path): not printed element by element, as this need not end
template <int formatting>
struct Recursive
{
	char c;
	const Recursive* begin() const { return this; }
	const Recursive* end() const { return this + 1; }
	friend bool operator==(const Recursive&, const Recursive&) = default;
};
template <>
struct mimicpp::custom::Printer<Recursive<1>>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Recursive<1>& v)
	{
		*out++ = v.c;
		return out;
	}
};
template <>
struct mimicpp::format::formatter<Recursive<2>, char> : mimicpp::format::formatter<std::string_view, char>
{
	template <typename Context>
	auto format(const Recursive<2>& v, Context& ctx) const { return mimicpp::format::formatter<std::string_view, char>::format(std::string_view{&v.c, 1}, ctx); }
};
static_assert(std::ranges::forward_range<Recursive<0>> && std::ranges::forward_range<const Recursive<2>&>);

HARNESS(recursive_ranges)
{
	const char c = sym::make<char>("c");
	const Recursive<0> plain{c};
	expect_text(plain, "{?}", "no printer, no formatter");
	Recursive<0> lvalue{c};
	expect_text(lvalue, "{?}", "no printer, no formatter");
	expect_text(std::vector<Recursive<0>>{plain, plain}, "{ {?}, {?} }", "as elements");
	expect_text(std::optional<Recursive<0>>{plain}, "{ value: {?} }", "as value");
	expect_text(Recursive<1>{c}, StringT(1, c), "custom printer");
	expect_text(Recursive<2>{c}, StringT(1, c), "formatter");
	expect_text(std::array<Recursive<2>, 2>{Recursive<2>{c}, Recursive<2>{'z'}}, StringT{"{ "} + c + ", z }", "formatter, as elements");
	sym::reach("recursive");
	Mock<void(Recursive<0>)> mock{};
	ScopedExpectation e = mock.expect_call(matches::_);
	mock(plain);
	sym::reach("call");
}

HARNESS(library_types)
{
	expect_text(ValueCategory::lvalue, "lvalue", "value category");
	expect_text(ValueCategory::rvalue, "rvalue", "value category");
	expect_text(ValueCategory::any, "any", "value category");
	expect_text(Constness::non_const, "mutable", "constness");
	expect_text(Constness::as_const, "const", "constness");
	expect_text(Constness::any, "any", "constness");
	const auto loc = std::source_location::current();
	StringT want{loc.file_name()};
	want += '[';
	put(want, loc.line());
	want += ':';
	put(want, loc.column());
	want += "], ";
	want += loc.function_name();
	expect_text(loc, want, "source location");
	sym::reach("library types");
}

HARNESS(long_values)
{
	static constexpr int sizes[]{15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 300, 1000};
	const char c = sym::make<char>("c");
	switch (sym::choice("kind", 5))
	{
	case 0:
	{
		StringT s(static_cast<std::size_t>(sizes[sym::choice("n", 14)]), 'x');
		s.back() = c;
		expect_text(s, '"' + s + '"', "long string verbatim");
		expect_text(std::string_view{s}, '"' + s + '"', "long view verbatim");
		break;
	}
	case 1:
	{
		StringT s(static_cast<std::size_t>(sizes[sym::choice("n", 14)]), 'x');
		expect_text(s.c_str(), '"' + s + '"', "long C string verbatim");
		break;
	}
	case 2:
	{
		const std::u16string s(static_cast<std::size_t>(sizes[sym::choice("n", 13)]), u'a');
		StringT want = "u\"0x61";
		for (std::size_t i = 1; i < s.size(); ++i)
			want += ", 0x61";
		expect_text(s, want + '"', "every unit of a long wide string");
		break;
	}
	case 3:
	{
		const int n = sizes[sym::choice("n", 13)];
		std::vector<El> v(static_cast<std::size_t>(n), El{'y'});
		v.back() = El{c};
		StringT want = "{ ";
		for (int i = 0; i < n - 1; ++i)
			want += "y, ";
		want += c;
		want += " }";
		range_text(v, want);
		range_text(std::list<El>(v.begin(), v.end()), want);
		break;
	}
	default:
	{
		const int n = sizes[sym::choice("n", 13)];
		std::vector<StringT> v(3, StringT(static_cast<std::size_t>(n), 'z'));
		v.back().back() = c;
		expect_text(v, "{ \"" + v[0] + "\", \"" + v[1] + "\", \"" + v[2] + "\" }", "long texts within a range");
		expect_text(std::optional{v[2]}, "{ value: \"" + v[2] + "\" }", "long text within an optional");
		break;
	}
	}
	sym::reach("long value");
}

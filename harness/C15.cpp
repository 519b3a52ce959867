// BOUNDS: values: returns(v) for 8..64-bit integers, enum, struct, string (2 symbolic bytes), converted results; 2 calls each, every value
// BOUNDS: references: returns with stored value and std::ref, for T&, const T& and T&& results
// BOUNDS: result_of: stateful, reference returning, move-only returning callables, 3 calls
// BOUNDS: args: returns_arg<0..2> for value, reference, const reference and move-only parameters
// BOUNDS: apply: all 12 selections of one or two of three arguments, all 6 permutations, duplicates, apply_all with 0..3 parameters
// BOUNDS: exceptions: throws(e) with int64, polymorphic and string payload, repeated, also through noexcept(false) const overloads
// BOUNDS: selected: three expectations, arbitrary accept pattern: only the selected finalizer runs, once
// BOUNDS: repeat: values, references, callables and exceptions with heap-owned content, 1, 2, 3, 5, 17 and 300 calls and one beyond the limit
// BOUNDS: reused: finalizers with heap-owned content kept in variables, used for two expectations
// OUTSIDE: more than three arguments, dangling references supplied by the user
#include "common.hpp"
#include <string>
using namespace mimicpp;
namespace m = mimicpp::matches;
using U = std::uint32_t;

template <typename T>
static void value_of_type()
{
	Mock<T()> mock{};
	T v = static_cast<T>(sym::make<std::uint64_t>("v"));
	const T want = v;
	ScopedExpectation e = mock.expect_call() && finally::returns(v) && expect::twice();
	v = static_cast<T>(sym::make<std::uint64_t>("later"));
	CHECK_THAT(mock() == want, "the stored value");
	T got = mock();
	CHECK_THAT(got == want, "on every call");
	sym::observe("v", static_cast<std::uint64_t>(got));
	sym::reach("value");
}

enum class Kind : std::uint16_t
{
};
struct Pair
{
	U a;
	std::uint64_t b;
	friend bool operator==(const Pair&, const Pair&) = default;
};
struct Wrapped
{
	explicit Wrapped(Pair p)
		: p{p}
	{
	}
	Pair p;
};

HARNESS(values)
{
	setup();
	switch (sym::choice("type", 12))
	{
	case 0: value_of_type<std::int8_t>(); break;
	case 1: value_of_type<std::uint8_t>(); break;
	case 2: value_of_type<std::int16_t>(); break;
	case 3: value_of_type<std::int32_t>(); break;
	case 4: value_of_type<std::uint32_t>(); break;
	case 5: value_of_type<std::int64_t>(); break;
	case 6: value_of_type<std::uint64_t>(); break;
	case 7: value_of_type<Kind>(); break;
	case 8:
	{
		// implicit and explicit conversions to the return type
		Mock<std::int64_t()> wide{};
		Mock<std::uint8_t()> narrow{};
		Mock<Wrapped()> wrapped{};
		const std::int32_t v = sym::make<std::int32_t>("v");
		const Pair p{sym::make<U>("a"), sym::make<std::uint64_t>("b")};
		ScopedExpectation e1 = wide.expect_call() && finally::returns(v);
		ScopedExpectation e2 = narrow.expect_call() && finally::returns(v);
		ScopedExpectation e3 = wrapped.expect_call() && finally::returns_result_of([&] { return Wrapped{p}; });
		CHECK_THAT(wide() == v && narrow() == static_cast<std::uint8_t>(v), "converted");
		CHECK_THAT(wrapped().p == p, "user defined result");
		break;
	}
	case 9:
	{
		Mock<Pair()> mock{};
		const Pair p{sym::make<U>("a"), sym::make<std::uint64_t>("b")};
		ScopedExpectation e = mock.expect_call() && finally::returns(Pair{p}) && expect::twice();
		CHECK_THAT(mock() == p && mock() == p, "aggregate");
		break;
	}
	case 10:
	{
		// values owning memory: every call gets a copy, the stored one stays
		Mock<std::string()> mock{};
		std::string s{"a text which is too long for the small buffer"};
		s[3] = sym::make<char>("c");
		s[40] = sym::make<char>("c");
		std::string given{s};
		ScopedExpectation e = mock.expect_call() && finally::returns(given) && expect::times(3);
		given[3] ^= 1; // the value was stored
		for (int i = 0; i < 3; ++i)
		{
			std::string got = mock();
			CHECK_THAT(got == s, "string on every call");
			got[0] = 'X';
			std::string sink = std::move(got);
		}
		break;
	}
	default:
	{
		// void: a finalizer is optional
		Mock<void()> mock{};
		U n = 0;
		ScopedExpectation e = mock.expect_call();
		ScopedExpectation f = mock.expect_call() && finally::returns_result_of([&] { ++n; return 0; });
		mock();
		CHECK_THAT(n == 1, "explicit finalizer of a void call runs");
		mock();
		CHECK_THAT(n == 1, "default finalizer does nothing");
		break;
	}
	}
}

HARNESS(references)
{
	setup();
	U x = sym::make<U>("x");
	const U x0 = x;
	const U change = sym::make<U>("change");
	switch (sym::choice("form", 6))
	{
	case 0:
	{
		Mock<U&()> mock{};
		ScopedExpectation e = mock.expect_call() && finally::returns(std::ref(x)) && expect::twice();
		U& r = mock();
		CHECK_THAT(&r == &x, "same object");
		r = change;
		CHECK_THAT(&mock() == &x && x == change, "still the same object");
		break;
	}
	case 1:
	{
		Mock<const U&()> mock{};
		ScopedExpectation e = mock.expect_call() && finally::returns(std::cref(x)) && expect::twice();
		CHECK_THAT(&mock() == &x, "same object");
		x = change;
		const U& r = mock();
		CHECK_THAT(&r == &x && r == change, "sees the current value");
		break;
	}
	case 2:
	{
		// reference to the stored value: stable and not x
		Mock<U&()> mock{};
		ScopedExpectation e = mock.expect_call() && finally::returns(x) && expect::times(3);
		U& r = mock();
		CHECK_THAT(&r != &x && r == x0, "reference to the stored value");
		CHECK_THAT(&mock() == &r, "the same one on every call");
		r = change;
		CHECK_THAT(mock() == change && x == x0, "a change through the reference persists in the stored value only");
		break;
	}
	case 3:
	{
		Mock<U()> mock{};
		ScopedExpectation e = mock.expect_call() && finally::returns(std::ref(x)) && expect::twice();
		CHECK_THAT(mock() == x0, "unwrapped");
		x = change;
		CHECK_THAT(mock() == change, "read at the time of the call");
		break;
	}
	case 4:
	{
		Mock<const U&()> mock{};
		ScopedExpectation e = mock.expect_call() && finally::returns(x) && expect::twice();
		const U& r = mock();
		x = change;
		CHECK_THAT(r == x0 && &mock() == &r, "reference to the stored value");
		break;
	}
	default:
	{
		Mock<U && ()> mock{};
		ScopedExpectation e = mock.expect_call() && finally::returns(std::ref(x)) && expect::twice();
		U&& r = mock();
		CHECK_THAT(&r == &x, "rvalue reference to the same object");
		break;
	}
	}
	sym::reach("reference");
}

HARNESS(result_of)
{
	setup();
	const U seed = sym::make<U>("seed"), step = sym::make<U>("step");
	switch (sym::choice("form", 5))
	{
	case 0:
	{
		// stateful callable: one evaluation per call
		Mock<U()> mock{};
		ScopedExpectation e = mock.expect_call() && finally::returns_result_of([v = seed, step]() mutable { return v += step; }) && expect::times(3);
		for (U i = 1; i <= 3; ++i)
			CHECK_THAT(mock() == static_cast<U>(seed + i * step), "one evaluation per call");
		break;
	}
	case 1:
	{
		Mock<U&()> mock{};
		U a[2]{seed, step};
		std::size_t i = 0;
		ScopedExpectation e = mock.expect_call() && finally::returns_result_of([&]() -> U& { return a[i++]; }) && expect::twice();
		CHECK_THAT(&mock() == &a[0], "reference result");
		CHECK_THAT(&mock() == &a[1] && i == 2, "reference result");
		break;
	}
	case 2:
	{
		Mock<Own<U>()> mock{};
		const U* made = nullptr;
		ScopedExpectation e = mock.expect_call() && finally::returns_result_of([&] {
			auto p = make_own<U>(seed);
			made = p.get();
			return p;
		}) && expect::twice();
		for (int i = 0; i < 2; ++i)
		{
			Own<U> p = mock();
			CHECK_THAT(p.get() == made && *p == seed, "move-only result arrives");
		}
		break;
	}
	case 3:
	{
		// a failing or throwing callable delivers its exception once
		Mock<U()> mock{};
		U n = 0;
		ScopedExpectation e = mock.expect_call() && finally::returns_result_of([&]() -> U {
			++n;
			throw seed;
		}) && expect::twice();
		for (U i = 1; i <= 2; ++i)
		{
			U got = step;
			try
			{
				(void)mock();
				CHECK_THAT(false, "must throw");
			}
			catch (const U& x)
			{
				got = x;
			}
			CHECK_THAT(got == seed && n == i, "exception of the callable");
		}
		break;
	}
	default:
	{
		// lvalue callables are copied
		Mock<U()> mock{};
		auto fn = [v = seed, step]() mutable { return v += step; };
		ScopedExpectation e = mock.expect_call() && finally::returns_result_of(fn);
		CHECK_THAT(mock() == static_cast<U>(seed + step) && fn() == static_cast<U>(seed + step), "own copy");
		break;
	}
	}
	sym::reach("result");
}

// three arguments of different type and address
struct Arg0
{
	U v;
};
struct Arg1
{
	std::uint64_t v;
};
struct Arg2
{
	std::uint16_t v;
};
#define CONST_PRINT(T)                                    \
	template <>                                           \
	struct mimicpp::custom::Printer<T>                    \
	{                                                     \
		template <typename OutIter>                       \
		static OutIter print(OutIter out, const T&)       \
		{                                                 \
			*out++ = 'A';                                 \
			return out;                                   \
		}                                                 \
	};
CONST_PRINT(Arg0)
CONST_PRINT(Arg1)
CONST_PRINT(Arg2)
CONST_PRINT(Own<std::uint32_t>) // reduced form: SYM_REDUCED

HARNESS(args)
{
	setup();
	const Arg0 a{sym::make<U>("a")};
	const Arg1 b{sym::make<std::uint64_t>("b")};
	const Arg2 c{sym::make<std::uint16_t>("c")};
	switch (sym::choice("form", 8))
	{
	case 0:
	{
		Mock<Arg0(Arg0, Arg1, Arg2)> mock{};
		ScopedExpectation e = mock.expect_call(m::_, m::_, m::_) && finally::returns_arg<0>() && expect::twice();
		CHECK_THAT(mock(a, b, c).v == a.v && mock(a, b, c).v == a.v, "argument 0");
		break;
	}
	case 1:
	{
		Mock<Arg1(Arg0, Arg1, Arg2)> mock{};
		ScopedExpectation e = mock.expect_call(m::_, m::_, m::_) && finally::returns_arg<1>();
		CHECK_THAT(mock(a, b, c).v == b.v, "argument 1");
		break;
	}
	case 2:
	{
		Mock<Arg2(Arg0, Arg1, Arg2)> mock{};
		ScopedExpectation e = mock.expect_call(m::_, m::_, m::_) && finally::returns_arg<2>();
		CHECK_THAT(mock(a, b, c).v == c.v, "argument 2");
		break;
	}
	case 3:
	{
		// same types: the index decides
		Mock<U(U, U, U)> mock{};
		const U x[3]{sym::make<U>("x"), sym::make<U>("x"), sym::make<U>("x")};
		// concrete text for the report, the comparison above stays symbolic
		Mock<Sym(Sym, Sym, Sym)> smock{};
		const int i = sym::choice("index", 3);
		std::optional<ScopedExpectation> e{};
		if (i == 0)
			e.emplace(smock.expect_call(m::_, m::_, m::_) && finally::returns_arg<0>());
		else if (i == 1)
			e.emplace(smock.expect_call(m::_, m::_, m::_) && finally::returns_arg<1>());
		else
			e.emplace(smock.expect_call(m::_, m::_, m::_) && finally::returns_arg<2>());
		CHECK_THAT(smock(Sym{x[0]}, Sym{x[1]}, Sym{x[2]}).v == x[i], "indexed argument");
		break;
	}
	case 4:
	{
		Mock<Arg0&(Arg1&, Arg0&)> mock{};
		Arg0 l{a};
		Arg1 r{b};
		ScopedExpectation e = mock.expect_call(m::_, m::_) && finally::returns_arg<1>();
		Arg0& got = mock(r, l);
		CHECK_THAT(&got == &l && got.v == a.v, "references stay references");
		break;
	}
	case 5:
	{
		Mock<const Arg0&(const Arg0&, const Arg0&)> mock{};
		const Arg0 l{a}, r{a};
		ScopedExpectation e = mock.expect_call(m::_, m::_) && finally::returns_arg<1>();
		CHECK_THAT(&mock(l, r) == &r, "const references stay references");
		break;
	}
	case 6:
	{
		Mock<Own<U>(Own<U>)> mock{};
		ScopedExpectation e = mock.expect_call(m::_) && finally::returns_arg<0>();
		auto p = make_own<U>(a.v);
		const U* raw = p.get();
		auto got = mock(std::move(p));
		CHECK_THAT(got.get() == raw && *got == a.v, "move-only argument is handed through");
		break;
	}
	default:
	{
		Mock<Arg0 && (Arg0 &&)> mock{};
		Arg0 l{a};
		ScopedExpectation e = mock.expect_call(m::_) && finally::returns_arg<0>();
		Arg0&& got = mock(std::move(l));
		CHECK_THAT(&got == &l, "rvalue references stay references");
		break;
	}
	}
	sym::reach("argument");
}

template <std::size_t... idx>
static void apply_form(Sym& x, Sym& y, Sym& z, bool throughRef)
{
	Sym* all[3]{&x, &y, &z};
	constexpr std::size_t n = sizeof...(idx);
	const std::size_t order[n]{idx...};
	const Sym* seen[n]{};
	int calls = 0;
	const U salt = sym::make<U>("salt");
	auto action = [&](auto&... a) {
		const Sym* got[]{&a...};
		for (std::size_t i = 0; i < n; ++i)
			seen[i] = got[i];
		++calls;
		U h = salt;
		(..., (h = h * 31u + a.v));
		return h;
	};
	static_assert(sizeof...(idx) > 0);
	U want = salt;
	for (std::size_t i = 0; i < n; ++i)
		want = want * 31u + all[order[i]]->v;
	if (throughRef)
	{
		Mock<U(Sym&, Sym&, Sym&)> mock{};
		ScopedExpectation e = mock.expect_call(m::_, m::_, m::_) && finally::returns_apply_result_of<idx...>(action) && expect::twice();
		for (int c = 1; c <= 2; ++c)
		{
			CHECK_THAT(mock(x, y, z) == want && calls == c, "result of the action on the selected arguments in order");
			for (std::size_t i = 0; i < n; ++i)
				CHECK_THAT(seen[i] == all[order[i]], "by reference");
		}
	}
	else
	{
		Mock<std::uint64_t(Sym, const Sym&, Sym)> mock{};
		ScopedExpectation e = mock.expect_call(m::_, m::_, m::_) && finally::returns_apply_result_of<idx...>(action);
		CHECK_THAT(mock(x, y, z) == want && calls == 1, "result of the action, converted");
	}
	sym::reach("applied");
}

HARNESS(apply)
{
	setup();
	Sym x{sym::make<U>("x")}, y{sym::make<U>("y")}, z{sym::make<U>("z")};
	const bool ref = sym::flag("ref");
	switch (sym::choice("indices", 19))
	{
	case 0: apply_form<0>(x, y, z, ref); break;
	case 1: apply_form<1>(x, y, z, ref); break;
	case 2: apply_form<2>(x, y, z, ref); break;
	case 3: apply_form<0, 0>(x, y, z, ref); break;
	case 4: apply_form<0, 1>(x, y, z, ref); break;
	case 5: apply_form<0, 2>(x, y, z, ref); break;
	case 6: apply_form<1, 0>(x, y, z, ref); break;
	case 7: apply_form<1, 1>(x, y, z, ref); break;
	case 8: apply_form<1, 2>(x, y, z, ref); break;
	case 9: apply_form<2, 0>(x, y, z, ref); break;
	case 10: apply_form<2, 1>(x, y, z, ref); break;
	case 11: apply_form<2, 2>(x, y, z, ref); break;
	case 12: apply_form<0, 1, 2>(x, y, z, ref); break;
	case 13: apply_form<0, 2, 1>(x, y, z, ref); break;
	case 14: apply_form<1, 0, 2>(x, y, z, ref); break;
	case 15: apply_form<1, 2, 0>(x, y, z, ref); break;
	case 16: apply_form<2, 0, 1>(x, y, z, ref); break;
	case 17: apply_form<2, 1, 0>(x, y, z, ref); break;
	default: apply_form<2, 0, 2, 1>(x, y, z, ref); break;
	}
}

HARNESS(apply_all)
{
	setup();
	Sym x{sym::make<U>("x")}, y{sym::make<U>("y")};
	const Sym z{sym::make<U>("z")};
	const U k = sym::make<U>("k");
	int calls = 0;
	switch (sym::choice("params", 4))
	{
	case 0:
	{
		Mock<U()> mock{};
		ScopedExpectation e = mock.expect_call() && finally::returns_apply_all_result_of([&] { ++calls; return k; });
		CHECK_THAT(mock() == k, "no parameters");
		break;
	}
	case 1:
	{
		Mock<Sym&(Sym&)> mock{};
		ScopedExpectation e = mock.expect_call(m::_) && finally::returns_apply_all_result_of([&](Sym& s) -> Sym& { ++calls; return s; });
		CHECK_THAT(&mock(x) == &x, "reference result");
		break;
	}
	case 2:
	{
		Mock<U(Sym&, const Sym&)> mock{};
		ScopedExpectation e = mock.expect_call(m::_, m::_) && finally::returns_apply_all_result_of([&](Sym& s, const Sym& t) {
			++calls;
			CHECK_THAT(&s == &x && &t == &z, "same objects");
			s.v = k;
			return t.v;
		});
		CHECK_THAT(mock(x, z) == z.v && x.v == k, "arguments by reference");
		break;
	}
	default:
	{
		Mock<U(Sym, Sym&, const Sym&)> mock{};
		ScopedExpectation e = mock.expect_call(m::_, m::_, m::_) && finally::returns_apply_all_result_of([&](Sym& a, Sym& b, const Sym& c) {
			++calls;
			return (a.v * 3u + b.v) * 5u + c.v + k;
		});
		CHECK_THAT(mock(x, y, z) == (x.v * 3u + y.v) * 5u + z.v + k, "all arguments in order");
		break;
	}
	}
	CHECK_THAT(calls == 1, "once per call");
	sym::reach("applied");
}

struct ErrBase
{
	virtual ~ErrBase() = default;
	U tag{};
};
struct Err : ErrBase
{
	explicit Err(std::uint64_t p)
		: payload{p}
	{
	}
	std::uint64_t payload;
	std::string text{"a text which does not fit into the small buffer"};
};

HARNESS(exceptions)
{
	setup();
	const std::uint64_t p = sym::make<std::uint64_t>("p");
	Mock<U()> mock{};
	Mock<void() const> vmock{};
	Mock<U&()> rmock{};
	for (int form = sym::choice("form", 4), c = 0; c < 2; ++c)
	{
		static std::optional<ScopedExpectation> e;
		if (c == 0)
			switch (form)
			{
			case 0: e.emplace(mock.expect_call() && finally::throws(static_cast<std::int64_t>(p)) && expect::twice()); break;
			case 1:
			{
				Err given{p};
				e.emplace(vmock.expect_call() && finally::throws(given) && expect::twice());
				given.payload = ~p; // the value was stored
				break;
			}
			case 2: e.emplace(rmock.expect_call() && expect::twice() && finally::throws(Err{p})); break;
			default: e.emplace(mock.expect_call() && finally::throws(std::runtime_error{"what it is"}) && expect::twice()); break;
			}
		int caught = 0;
		try
		{
			switch (form)
			{
			case 0:
			case 3: (void)mock(); break;
			case 1: vmock(); break;
			default: (void)rmock(); break;
			}
		}
		catch (std::int64_t& v)
		{
			CHECK_THAT(form == 0 && v == static_cast<std::int64_t>(p), "exception value");
			v = 0; // changing the caught object must not change the stored one
			caught = 1;
		}
		catch (ErrBase& b)
		{
			Err* d = dynamic_cast<Err*>(&b);
			CHECK_THAT((form == 1 || form == 2) && d && d->payload == p && d->text.size() == 47, "dynamic type and value");
			d->payload = 0;
			d->text.clear();
			caught = 1;
		}
		catch (const std::runtime_error& r)
		{
			CHECK_THAT(form == 3 && std::string_view{r.what()} == "what it is", "standard exception");
			caught = 1;
		}
		CHECK_THAT(caught == 1 && rec.full == c + 1, "the call is left by the exception, on every call");
		if (c == 1)
		{
			e.reset();
			CHECK_THAT(rec.unfulfilled == 0, "a call left by an exception counts");
			sym::reach("thrown");
		}
	}
}

HARNESS(selected)
{
	setup();
	Mock<U(Sym)> mock{};
	int evaluated[3]{};
	const U v[3]{sym::make<U>("v"), sym::make<U>("v"), sym::make<U>("v")};
	auto fin = [&](int i) { return finally::returns_result_of([&, i] { ++evaluated[i]; return v[i]; }); };
	ScopedExpectation e0 = mock.expect_call(bit(0)) && expect::at_most(2) && fin(0);
	ScopedExpectation e1 = mock.expect_call(bit(1)) && fin(1) && expect::at_most(1);
	ScopedExpectation e2 = fin(2).finalize_call(call::Info<U>{}) == v[2] ? ScopedExpectation{mock.expect_call(bit(2)) && expect::at_most(1) && fin(2)} : ScopedExpectation{mock.expect_call(m::_) && fin(2)};
	CHECK_THAT(evaluated[2] == 1, "a finalizer on its own");
	evaluated[2] = 0;
	int used[3]{};
	const int max[3]{2, 1, 1};
	for (int c = 0; c < 3; ++c)
	{
		const Sym s{sym::make<U>("s")};
		int sel = -1;
		for (int i = 0; i < 3; ++i)
			if (((s.v >> i) & 1u) && used[i] < max[i])
				sel = i;
		U got{};
		const Outcome o = attempt([&] { got = mock(s); });
		CHECK_THAT((o == Outcome::ok) == (sel >= 0), "accepted");
		if (sel >= 0)
		{
			++used[sel];
			CHECK_THAT(got == v[sel], "the result of the selected finalizer");
			sym::reach("selected");
		}
		for (int i = 0; i < 3; ++i)
			CHECK_THAT(evaluated[i] == used[i], "only the selected finalizer runs, once");
	}
}

// the same expectation delivers the stored result or exception again and again
struct Payload
{
	std::string text; // heap owned
	U v;
};
HARNESS(repeat)
{
	setup();
	const int n = std::array<int, 6>{1, 2, 3, 5, 17, 300}[static_cast<std::size_t>(sym::choice("calls", 6))];
	const U v = sym::make<U>("v");
	const std::string text = "a text that is too long for the object itself";
	const int kind = sym::choice("kind", 6);
	int invoked = 0;
	Mock<Payload()> values{};
	Mock<const Payload&()> refs{};
	Mock<U(Sym)> ints{};
	std::optional<ScopedExpectation> e{};
	switch (kind)
	{
	case 0: e.emplace(values.expect_call() && expect::times(n) && finally::returns(Payload{text, v})); break;
	case 1: e.emplace(values.expect_call() && expect::times(n) && finally::throws(Payload{text, v})); break;
	case 2: e.emplace(values.expect_call() && expect::times(n) && finally::returns_result_of([&, p = Payload{text, v}]() mutable { p.v = v + static_cast<U>(invoked++); return p; })); break;
	case 3: e.emplace(refs.expect_call() && expect::times(n) && finally::returns(Payload{text, v})); break;
	case 4: e.emplace(ints.expect_call(m::_) && expect::times(n) && finally::returns_apply_all_result_of([&](const Sym& s) { ++invoked; return s.v ^ v; })); break;
	default: e.emplace(ints.expect_call(m::_) && expect::times(n) && finally::throws(v)); break;
	}
	const Payload* first{};
	for (int i = 0; i < n; ++i)
	{
		clear_rec();
		switch (kind)
		{
		case 0:
		{
			Payload p = values();
			CHECK_THAT(p.text == text && p.v == v, "the stored value, on every call");
			p.text.clear();
			break;
		}
		case 1:
		{
			bool caught = false;
			try
			{
				(void)values();
			}
			catch (Payload& p)
			{
				caught = p.text == text && p.v == v;
				p.text.clear();
				p.v = 0;
			}
			CHECK_THAT(caught, "the stored exception, on every call");
			break;
		}
		case 2:
		{
			const Payload p = values();
			CHECK_THAT(p.text == text && p.v == v + static_cast<U>(i) && invoked == i + 1, "evaluated afresh, once for every call");
			break;
		}
		case 3:
		{
			const Payload& p = refs();
			CHECK_THAT(p.text == text && p.v == v && (!first || first == &p), "the stored object, on every call");
			first = &p;
			break;
		}
		case 4:
		{
			const U s = i < 3 ? sym::make<U>("s") : static_cast<U>(i);
			CHECK_THAT(ints(Sym{s}) == (s ^ v) && invoked == i + 1, "evaluated on the arguments of each call");
			break;
		}
		default:
		{
			bool caught = false;
			try
			{
				(void)ints(Sym{});
			}
			catch (const U& u)
			{
				caught = u == v;
			}
			CHECK_THAT(caught, "the stored number, on every call");
			break;
		}
		}
		CHECK_THAT(rec.full == 1, "each call was matched");
	}
	const Outcome o = attempt([&] {
		if (kind < 3)
			(void)values();
		else if (kind == 3)
			(void)refs();
		else
			(void)ints(Sym{});
	});
	CHECK_THAT(o == Outcome::inapplicable && (kind == 2 || kind == 4 ? invoked == n : invoked == 0), "nothing is delivered beyond the limit");
	e.reset();
	CHECK_THAT(rec.unfulfilled == 0, "and the expectation is fulfilled");
	sym::observe("v", v);
	sym::reach("again and again");
}

// a finalizer kept in a variable serves several expectations alike
HARNESS(reused)
{
	setup();
	Payload stored{"a text that is too long for the object itself", sym::make<U>("v")};
	const Payload was = stored;
	Mock<Payload(Sym)> m0{}, m1{};
	std::optional<ScopedExpectation> e0{}, e1{};
	auto both = [&](auto& finalizer) {
		e0.emplace(m0.expect_call(m::_) && finalizer && expect::twice());
		e1.emplace(m1.expect_call(m::_) && expect::twice() && finalizer);
	};
	const int form = sym::choice("form", 8);
	switch (form)
	{
	case 6: // the same variable handed to both
		e0.emplace(m0.expect_call(m::_) && finally::returns(stored) && expect::twice());
		e1.emplace(m1.expect_call(m::_) && finally::returns(stored) && expect::twice());
		break;
	case 7:
		e0.emplace(m0.expect_call(m::_) && finally::throws(stored) && expect::twice());
		e1.emplace(m1.expect_call(m::_) && finally::throws(stored) && expect::twice());
		break;
	case 0:
	{
		auto f = finally::returns(stored);
		both(f);
		break;
	}
	case 1:
	{
		const auto f = finally::throws(stored);
		both(f);
		break;
	}
	case 2:
	{
		auto f = finally::returns_result_of([stored] { return stored; });
		both(f);
		break;
	}
	case 3:
	{
		auto action = [stored] { return stored; };
		e0.emplace(m0.expect_call(m::_) && finally::returns_result_of(action) && expect::twice());
		e1.emplace(m1.expect_call(m::_) && finally::returns_result_of(action) && expect::twice());
		break;
	}
	case 4:
	{
		auto action = [stored](const Sym& s) { return Payload{stored.text, stored.v ^ s.v ^ 1u}; };
		e0.emplace(m0.expect_call(m::_) && finally::returns_apply_result_of<0>(action) && expect::twice());
		e1.emplace(m1.expect_call(m::_) && finally::returns_apply_all_result_of(action) && expect::twice());
		break;
	}
	default:
	{
		auto f = finally::throws(stored);
		both(f);
		break;
	}
	}
	CHECK_THAT(stored.text == was.text && stored.v == was.v, "the user's variable is untouched");
	stored.text.clear();
	stored.v = 0;
	const bool second = sym::flag("second");
	for (int c = 0; c < 4; ++c)
	{
		auto& mock = ((c & 1) != 0) == second ? m0 : m1;
		bool ok = false;
		try
		{
			const Payload p = mock(Sym{1});
			ok = form != 1 && form != 5 && form != 7 && p.text == was.text && p.v == was.v;
		}
		catch (const Payload& p)
		{
			ok = (form == 1 || form == 5 || form == 7) && p.text == was.text && p.v == was.v;
		}
		CHECK_THAT(ok, "the same result from both");
	}
	sym::reach("finalizer reused");
	__sym_done();
}

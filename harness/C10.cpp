// BOUNDS: positions: three parameters, plain values at each position, every 32/64-bit operand and argument
// BOUNDS: mixed: values, matchers and wildcard mixed at three positions of different type (int8, uint16, int64), all values
// BOUNDS: arg_requirements: up to four expect::arg requirements (two of them on one argument, one with projection), all values, all four attachment rotations
// BOUNDS: clause_orders: all 24 orders of {requirement, limit, sequence, finalizer}; rotations: all 14 rotations/reversals of 7 clauses
// BOUNDS: custom: up to three custom policies with arbitrary verdicts, single consume per accepted call
// BOUNDS: stored: nine forms of giving a requirement by lvalue, the lvalue changed or gone before the call, all values
// BOUNDS: strings: text arguments given as literal, std::string, string_view and pointer, contents of length 0..2, all bytes
// BOUNDS: seven_parameters: a value for each of seven parameters plus two expect::arg requirements, every value
// BOUNDS: same_object: requirements given in five ways on lvalue reference, const reference and rvalue reference parameters of a type that can not be copied
// BOUNDS: many_requirements: 12 requirements on two arguments, every operand and argument
// BOUNDS: reused_values: vector and structure operands in variables used for two expectations, plain and in each comparison
// BOUNDS: reused: matchers, requirements, policies and operands with heap-owned content kept in variables, used for two expectations, 42 character texts with an arbitrary last character
// OUTSIDE: more than seven parameters, more than nine clauses
#include "common.hpp"
#include <string>
using namespace mimicpp;
namespace m = mimicpp::matches;
using U = std::uint32_t;

// a number whose text is constant: keeps call reports concrete
template <typename T>
struct Num
{
	T v;
	friend bool operator==(const Num&, const Num&) = default;
	friend auto operator<=>(const Num&, const Num&) = default;
};
template <typename T>
struct mimicpp::custom::Printer<Num<T>>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Num<T>&)
	{
		*out++ = 'N';
		return out;
	}
};
template <typename T>
static Num<T> num(const char* n) { return Num<T>{sym::make<T>(n)}; }

static void verdict(Outcome o, bool want, std::size_t requirements)
{
	CHECK_THAT(o == (want ? Outcome::ok : Outcome::noMatch), "matches iff every requirement accepts");
	CHECK_THAT(rec.reports.size() == 1 && rec.reports[0].expectationReports.size() == requirements, "no requirement dropped or duplicated");
}

HARNESS(positions)
{
	setup();
	Mock<int(Num<U>, Num<U>, Num<std::int64_t>)> mock{};
	const auto a = num<U>("a"), b = num<U>("b"), x = num<U>("x"), y = num<U>("y");
	const auto c = num<std::int64_t>("c"), z = num<std::int64_t>("z");
	ScopedExpectation e = mock.expect_call(a, b, c) && expect::at_most(9) && finally::returns(1);
	const bool want = a.v == x.v && b.v == y.v && c.v == z.v;
	const Outcome o = attempt([&] { (void)mock(x, y, z); });
	verdict(o, want, 5);
	if (want)
		sym::reach("match");
	else
	{
		sym::reach("no match");
		const auto& r = rec.reports[0].expectationReports;
		CHECK_THAT(r[0].isMatching == (a.v == x.v) && r[1].isMatching == (b.v == y.v) && r[2].isMatching == (c.v == z.v), "each verdict at its own position");
	}
	// exchanged arguments
	const bool want2 = a.v == y.v && b.v == x.v && c.v == z.v;
	CHECK_THAT((attempt([&] { (void)mock(y, x, z); }) == Outcome::ok) == want2, "positions are not exchanged");
	sym::observe("o", static_cast<unsigned>(o));
}

HARNESS(mixed)
{
	setup();
	Mock<int(Num<std::int8_t>, Num<std::uint16_t>, Num<std::int64_t>)> mock{};
	const auto a = num<std::int8_t>("a"), x = num<std::int8_t>("x");
	const auto b = num<std::uint16_t>("b"), y = num<std::uint16_t>("y");
	const auto c = num<std::int64_t>("c"), z = num<std::int64_t>("z");
	bool want = true;
	std::optional<ScopedExpectation> e{};
	switch (sym::choice("shape", 5))
	{
	case 0:
		e.emplace(mock.expect_call(a, m::lt(b), m::_) && finally::returns(1));
		want = x.v == a.v && y.v < b.v;
		break;
	case 1:
		e.emplace(mock.expect_call(m::_, b, m::ge(c)) && finally::returns(1));
		want = y.v == b.v && z.v >= c.v;
		break;
	case 2:
		e.emplace(mock.expect_call(!m::le(a), m::_, c) && finally::returns(1));
		want = !(x.v <= a.v) && z.v == c.v;
		break;
	case 3:
		e.emplace(mock.expect_call(m::predicate([&](const Num<std::int8_t>& v) { return v.v < a.v; }), !m::eq(b), !m::predicate([&](const Num<std::int64_t>& v) { return v.v == c.v; })) && finally::returns(1));
		want = x.v < a.v && y.v != b.v && z.v != c.v;
		break;
	default:
		e.emplace(mock.expect_call(m::_, m::_, m::_) && finally::returns(1));
		break;
	}
	const Outcome o = attempt([&] { (void)mock(x, y, z); });
	verdict(o, want, 5);
	sym::observe("o", static_cast<unsigned>(o));
	if (!want)
		sym::reach("no match");
}

struct Low
{
	Num<std::uint16_t> operator()(const Num<U>& v) const { return Num<std::uint16_t>{static_cast<std::uint16_t>(v.v)}; }
};

HARNESS(arg_requirements)
{
	setup();
	Mock<int(Num<U>, Num<U>, Num<U>)> mock{};
	const auto a = num<U>("a"), b = num<U>("b"), c = num<U>("c"), x = num<U>("x"), y = num<U>("y"), z = num<U>("z");
	const auto d = num<std::uint16_t>("d");
	const U key = sym::make<U>("key");
	const bool c0 = x.v > a.v, c1 = y.v <= b.v, c2 = static_cast<std::uint16_t>(z.v) != d.v, c3 = (x.v ^ key) >= c.v;
	auto R0 = [&] { return expect::arg<0>(m::gt(a)); };
	auto R1 = [&] { return expect::arg<1>(m::le(b)); };
	auto R2 = [&] { return expect::arg<2>(m::ne(d), Low{}); };
	// a stateful projection
	auto R3 = [&] { return expect::arg<0>(m::ge(c), [key](const Num<U>& v) { return Num<U>{v.v ^ key}; }); };
	std::optional<ScopedExpectation> e{};
	int first = sym::choice("rotation", 4);
	switch (first)
	{
	case 0: e.emplace(mock.expect_call(m::_, m::_, m::_) && R0() && R1() && R2() && R3() && finally::returns(1)); break;
	case 1: e.emplace(mock.expect_call(m::_, m::_, m::_) && R1() && finally::returns(1) && R2() && R3() && R0()); break;
	case 2: e.emplace(mock.expect_call(m::_, m::_, m::_) && R2() && R3() && expect::once() && R0() && R1() && finally::returns(1)); break;
	default: e.emplace(mock.expect_call(m::_, m::_, m::_) && finally::returns(1) && R3() && R0() && R1() && R2()); break;
	}
	const Outcome o = attempt([&] { (void)mock(x, y, z); });
	verdict(o, c0 && c1 && c2 && c3, 9);
	if (o == Outcome::noMatch)
	{
		const bool want[4]{c0, c1, c2, c3};
		for (std::size_t i = 0; i < 4; ++i)
			CHECK_THAT(rec.reports[0].expectationReports[5 + i].isMatching == want[(static_cast<std::size_t>(first) + i) % 4], "verdicts in order of attachment");
		sym::reach("no match");
	}
	else
		sym::reach("match");
	sym::observe("o", static_cast<unsigned>(o));
}

// all orders of four clauses of different kind
struct OrderClauses
{
	U a;
	int max;
	int ret;
	LazySequence& seq;
	template <int k>
	auto get()
	{
		if constexpr (k == 0)
			return expect::arg<0>(m::lt(Sym{a}));
		else if constexpr (k == 1)
			return expect::at_most(max);
		else if constexpr (k == 2)
			return expect::in_sequence(seq);
		else
			return finally::returns(ret);
	}
};

template <int... order>
static void orders(U x, U a, int max)
{
	Mock<int(Sym)> mock{};
	LazySequence seq{};
	int ret = sym::make<int>("ret");
	OrderClauses clauses{a, max, ret, seq};
	ScopedExpectation e = (mock.expect_call(m::_) && ... && clauses.template get<order>());
	ScopedExpectation next = mock.expect_call(m::ge(Sym{a})) && expect::in_sequence(seq) && finally::returns(0);
	int got = 0;
	for (int i = 0; i < 2; ++i)
	{
		const Outcome o = attempt([&] { got = mock(Sym{x}); });
		if (x < a)
		{
			CHECK_THAT(o == (i < max ? Outcome::ok : Outcome::inapplicable), "the limit clause is effective");
			if (o == Outcome::ok)
				CHECK_THAT(got == ret, "the finalizer clause is effective");
			sym::reach("accepted side");
		}
		else
		{
			CHECK_THAT(o == (i == 0 ? Outcome::ok : Outcome::inapplicable) && got == 0, "the requirement clause is effective");
			if (i == 1)
			{
				// the second element was passed to: the first one is over
				CHECK_THAT(a == 0 || attempt([&] { (void)mock(Sym{0}); }) == Outcome::inapplicable, "the sequence clause is effective");
				CHECK_THAT(a == 0 || rec.reports.size() == 1, "one matching expectation");
				sym::reach("sequence side");
			}
		}
	}
}

template <int n>
constexpr auto permutation()
{
	std::array<int, 4> p{0, 1, 2, 3};
	for (int i = 0; i < n; ++i)
		std::ranges::next_permutation(p);
	return p;
}
template <int n>
static void order_n(U x, U a, int max)
{
	constexpr auto p = permutation<n>();
	orders<p[0], p[1], p[2], p[3]>(x, a, max);
}

HARNESS(clause_orders)
{
	setup();
	const U x = sym::make<U>("x"), a = sym::make<U>("a");
	const int max = sym::range<int>("max", 1, 2);
	[&]<int... i>(std::integer_sequence<int, i...>) {
		const int k = sym::choice("order", 24);
		(..., (k == i ? order_n<i>(x, a, max) : void()));
	}(std::make_integer_sequence<int, 24>{});
}

// custom policy whose state must survive every builder step exactly once
struct Policy
{
	Own<int> id;
	bool verdict;
	int* consumed; // array indexed by id
	int* trace;
	static constexpr bool is_satisfied() noexcept { return true; }
	bool matches(const auto&) const { return verdict; }
	void consume(const auto&)
	{
		++consumed[*id];
		*trace = *trace * 4 + *id + 1;
	}
	StringT describe() const { return StringT(1, static_cast<char>('a' + *id)); }
};

HARNESS(custom)
{
	setup();
	Mock<int(Sym)> mock{};
	int consumed[3]{}, trace = 0;
	bool v[3];
	for (bool& b : v)
		b = sym::make<bool>("verdict");
	auto P = [&](int i) { return Policy{make_own<int>(i), v[i], consumed, &trace}; };
	const int n = sym::choice("n", 4);
	LazySequence seq{};
	std::optional<ScopedExpectation> e{};
	switch (n)
	{
	case 0: e.emplace(mock.expect_call(m::_) && finally::returns(1) && expect::at_most(2)); break;
	case 1: e.emplace(mock.expect_call(m::_) && P(0) && finally::returns(1) && expect::at_most(2)); break;
	case 2: e.emplace(mock.expect_call(m::_) && P(0) && expect::at_most(2) && P(1) && expect::in_sequence(seq) && finally::returns(1)); break;
	default: e.emplace(mock.expect_call(m::_) && expect::at_most(2) && P(0) && expect::in_sequence(seq) && P(1) && finally::returns(1) && P(2)); break;
	}
	bool want = true;
	for (int i = 0; i < n; ++i)
		want = want && v[i];
	for (int c = 1; c <= 2; ++c)
	{
		trace = 0;
		const Outcome o = attempt([&] { (void)mock(Sym{0}); });
		verdict(o, want, 3 + static_cast<std::size_t>(n));
		for (int i = 0; i < n; ++i)
		{
			const auto& r = rec.reports[0].expectationReports[3 + static_cast<std::size_t>(i)];
			CHECK_THAT(r.isMatching == v[i] && r.description == StringT(1, static_cast<char>('a' + i)), "each policy once, in order");
			CHECK_THAT(consumed[i] == (want ? c : 0), "consumed exactly once per accepted call");
		}
		if (want)
		{
			CHECK_THAT(trace == (n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 1 * 4 + 2 : (1 * 4 + 2) * 4 + 3), "in order of attachment");
			sym::reach("match");
		}
		else
			sym::reach("no match");
	}
}

// 7 clauses, rotated and reversed
struct RotationClauses
{
	Num<U> a, b;
	bool pv;
	U ret;
	int* consumed;
	int* trace;
	U* seen;
	int* effects;
	LazySequence& seq;
	template <int k>
	auto get()
	{
		if constexpr (k == 0)
			return expect::arg<0>(m::eq(a));
		else if constexpr (k == 1)
			return expect::arg<1>(m::ne(b));
		else if constexpr (k == 2)
			return expect::twice();
		else if constexpr (k == 3)
			return Policy{make_own<int>(0), pv, consumed, trace};
		else if constexpr (k == 4)
			return then::apply_arg<1>([s = seen, e = effects](const Num<U>& v) { *s = v.v; ++*e; });
		else if constexpr (k == 5)
			return expect::in_sequence(seq);
		else
			return finally::returns(ret);
	}
};
template <int start, bool reversed, int... i>
static ScopedExpectation all_clauses(auto& mock, RotationClauses& clauses, std::integer_sequence<int, i...>)
{
	return (mock.expect_call(m::_, m::_) && ... && clauses.template get<reversed ? (start + 7 - i) % 7 : (start + i) % 7>());
}

template <int start, bool reversed>
static void rotation()
{
	Mock<U(Num<U>, Num<U>)> mock{};
	LazySequence seq{};
	const auto a = num<U>("a"), b = num<U>("b");
	const bool pv = sym::make<bool>("policy");
	const U ret = sym::make<U>("ret");
	int consumed[1]{}, trace = 0;
	U seen = 0;
	int effects = 0;
	RotationClauses clauses{a, b, pv, ret, consumed, &trace, &seen, &effects, seq};
	{
		ScopedExpectation e = all_clauses<start, reversed>(mock, clauses, std::make_integer_sequence<int, 7>{});
		ScopedExpectation next = mock.expect_call(num<U>("na"), m::_) && expect::in_sequence(seq) && expect::times(0) && finally::returns(ret);
		int accepted = 0;
		for (int c = 0; c < 3; ++c)
		{
			const auto x = num<U>("x"), y = num<U>("y");
			const bool want = x.v == a.v && y.v != b.v && pv;
			U got = 0;
			const Outcome o = attempt([&] { got = mock(x, y); });
			CHECK_THAT((o == Outcome::ok) == (want && accepted < 2), "requirements, policy and limit");
			if (o == Outcome::ok)
			{
				++accepted;
				CHECK_THAT(got == ret, "finalizer");
				CHECK_THAT(seen == y.v, "side effect argument");
				sym::reach("accepted");
			}
			CHECK_THAT(effects == accepted && consumed[0] == accepted, "side effect and policy exactly once per match");
			CHECK_THAT(e.is_satisfied() == (accepted == 2), "limit");
		}
	}
}

HARNESS(rotations)
{
	setup();
	[&]<int... i>(std::integer_sequence<int, i...>) {
		const int k = sym::choice("rotation", 14);
		(..., (k == i ? rotation<i % 7, (i >= 7)>() : void()));
	}(std::make_integer_sequence<int, 14>{});
}

static std::string text(const char* n, int max)
{
	std::string s{};
	const int len = sym::choice("len", max + 1);
	for (int i = 0; i < len; ++i)
		s.push_back(sym::make<char>(n));
	return s;
}
static bool same(const std::string& a, const std::string& b)
{
	if (a.size() != b.size())
		return false;
	bool r = true;
	for (std::size_t i = 0; i < a.size(); ++i)
		r &= a[i] == b[i];
	return r;
}

HARNESS(strings)
{
	setup();
	const std::string p = text("p", 2), t = text("t", 2);
	bool nul = false;
	for (char c : p)
		nul |= c == 0;
	for (char c : t)
		nul |= c == 0;
	const bool want = same(p, t);
	Outcome o{};
	const int form = sym::choice("form", 6);
	// operands and targets given as zero terminated text
	if (form == 0 || form == 2 || form == 5)
		sym::assume(!nul);
	switch (form)
	{
	case 0:
	{
		Mock<void(const char*)> mock{};
		ScopedExpectation e = mock.expect_call(p.c_str()) && expect::at_most(1);
		const std::string copy{t}; // another address
		o = attempt([&] { mock(copy.c_str()); });
		break;
	}
	case 1:
	{
		Mock<void(const std::string&)> mock{};
		ScopedExpectation e = mock.expect_call(p) && expect::at_most(1);
		o = attempt([&] { mock(t); });
		break;
	}
	case 2:
	{
		Mock<void(std::string_view)> mock{};
		ScopedExpectation e = mock.expect_call(p.c_str()) && expect::at_most(1);
		o = attempt([&] { mock(t); });
		break;
	}
	case 3:
	{
		Mock<void(std::string)> mock{};
		ScopedExpectation e = mock.expect_call(std::string_view{p}) && expect::at_most(1);
		o = attempt([&] { mock(t); });
		break;
	}
	case 4:
	{
		Mock<void(std::string_view)> mock{};
		ScopedExpectation e = mock.expect_call(std::string{p}) && expect::at_most(1);
		o = attempt([&] { mock(t); });
		break;
	}
	default:
	{
		char buf[3]{};
		for (std::size_t i = 0; i < p.size(); ++i)
			buf[i] = p[i];
		Mock<void(const std::string&)> mock{};
		ScopedExpectation e = mock.expect_call(buf) && expect::at_most(1);
		o = attempt([&] { mock(t); });
		break;
	}
	}
	CHECK_THAT(o == (want ? Outcome::ok : Outcome::noMatch), "plain strings compare as text");
	if (want && p.size() == 2)
		sym::reach("equal text");
	sym::observe("o", static_cast<unsigned>(o));
}

// what is given for an expectation is stored in it: whatever happens to the caller's objects afterwards does not matter
struct Below
{
	Num<U> limit;
	bool operator()(const Num<U>& x) const { return x < limit; }
};

HARNESS(stored)
{
	setup();
	Num<U> v = num<U>("given");
	const Num<U> was = v;
	const Num<U> t = num<U>("target");
	Mock<void(Num<U>)> mock{};
	Mock<void(const std::string&)> smock{};
	std::string s(2, static_cast<char>(v.v));
	std::string target(2, static_cast<char>(t.v));
	std::optional<ScopedExpectation> e{};
	bool want = t == was;
	const int form = sym::choice("form", 9);
	switch (form)
	{
	case 0: e.emplace(mock.expect_call(v) && expect::at_most(1)); break;
	case 1: e.emplace(mock.expect_call(std::as_const(v)) && expect::at_most(1)); break;
	case 2:
		e.emplace(mock.expect_call(matches::le(v)) && expect::at_most(1));
		want = t <= was;
		break;
	case 3:
		e.emplace(mock.expect_call(matches::_) && expect::at_most(1) && expect::arg<0>(matches::ne(std::as_const(v))));
		want = t != was;
		break;
	case 4:
	{
		auto matcher = matches::gt(v);
		e.emplace(mock.expect_call(matcher) && expect::at_most(1));
		want = t > was;
		break;
	}
	case 5:
	{
		Below below{v};
		e.emplace(mock.expect_call(matches::predicate(below)) && expect::at_most(1));
		below.limit = num<U>("later_limit");
		want = t < was;
		break;
	}
	case 6:
	{
		Below below{v};
		const auto matcher = !matches::predicate(below);
		e.emplace(mock.expect_call(matches::_) && expect::at_most(1) && expect::arg<0>(matcher));
		below.limit = num<U>("later_limit");
		want = t >= was;
		break;
	}
	case 7:
		e.emplace(smock.expect_call(s) && expect::at_most(1));
		want = same(target, s);
		break;
	default:
		e.emplace(smock.expect_call(matches::str::starts_with(std::as_const(s))) && expect::at_most(1));
		want = same(target, s);
		break;
	}
	v = num<U>("later");
	for (char& c : s)
		c = static_cast<char>(v.v);
	const Outcome o = attempt([&] { form < 7 ? mock(t) : smock(target); });
	CHECK_THAT(o == (want ? Outcome::ok : Outcome::noMatch), "requirements keep the values they were built from");
	if (want)
		sym::reach("stored");
	sym::observe("o", static_cast<unsigned>(o));
}

HARNESS(seven_parameters)
{
	setup();
	using N = Num<std::uint16_t>;
	Mock<void(N, N, N, N, N, N, N)> mock{};
	const N w0 = num<std::uint16_t>("w0"), w1 = num<std::uint16_t>("w1"), w2 = num<std::uint16_t>("w2"), w3 = num<std::uint16_t>("w3"), w4 = num<std::uint16_t>("w4"),
			w5 = num<std::uint16_t>("w5"), w6 = num<std::uint16_t>("w6"), x = num<std::uint16_t>("x"), y = num<std::uint16_t>("y");
	const N a0 = num<std::uint16_t>("a0"), a1 = num<std::uint16_t>("a1"), a2 = num<std::uint16_t>("a2"), a3 = num<std::uint16_t>("a3"), a4 = num<std::uint16_t>("a4"),
			a5 = num<std::uint16_t>("a5"), a6 = num<std::uint16_t>("a6");
	ScopedExpectation e = mock.expect_call(w0, m::ne(w1), w2, m::_, w4, m::le(w5), w6) && expect::arg<3>(m::ge(x)) && expect::arg<6>(m::ne(y));
	const bool want = (a0.v == w0.v) & (a1.v != w1.v) & (a2.v == w2.v) & (a4.v == w4.v) & (a5.v <= w5.v) & (a6.v == w6.v) & (a3.v >= x.v) & (a6.v != y.v);
	const Outcome o = attempt([&] { mock(a0, a1, a2, a3, a4, a5, a6); });
	CHECK_THAT(o == (want ? Outcome::ok : Outcome::noMatch), "matches iff every requirement accepts");
	if (want)
		sym::reach("seven accepted");
	(void)w3;
	__sym_done();
}

// a requirement judges the argument itself
struct Pinned
{
	U v;
	explicit Pinned(U x) : v{x} {}
#ifndef SYM_REDUCED
	Pinned(const Pinned&) = delete;
	Pinned& operator=(const Pinned&) = delete;
#endif
};
template <>
struct mimicpp::custom::Printer<Pinned>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Pinned&)
	{
		*out++ = 'P';
		return out;
	}
};
struct Spy
{
	const void** seen;
	U limit;
	bool matches(const Pinned& p) const
	{
		*seen = std::addressof(p);
		return p.v < limit;
	}
	static StringT describe() { return "spied"; }
};
template <typename Param>
static void same_object_impl()
{
	Mock<void(Param)> mock{};
	Pinned object{sym::make<U>("v")}, other{object.v};
	const U limit = sym::make<U>("limit");
	const void* seen = nullptr;
	std::optional<ScopedExpectation> e{};
	const int form = sym::choice("form", 5);
	switch (form)
	{
	case 0: e.emplace(mock.expect_call(Spy{&seen, limit})); break;
	case 1: e.emplace(mock.expect_call(m::_) && expect::arg<0>(Spy{&seen, limit})); break;
	case 2: e.emplace(mock.expect_call(m::_) && expect::arg<0>(Spy{&seen, limit}, [](auto& p) -> auto& { return p; })); break;
	case 3: e.emplace(mock.expect_call(m::instance(object))); break;
	default:
		e.emplace(mock.expect_call(m::predicate([&](const Pinned& p) {
			seen = std::addressof(p);
			return p.v < limit;
		})));
		break;
	}
	const Outcome o = attempt([&] { mock(static_cast<Param>(object)); });
	CHECK_THAT(o == (form == 3 || object.v < limit ? Outcome::ok : Outcome::noMatch), "verdict");
	if (form != 3)
		CHECK_THAT(seen == std::addressof(object), "the requirement is given the argument itself");
	else
	{
		CHECK_THAT(attempt([&] { mock(static_cast<Param>(other)); }) == Outcome::noMatch, "another object is another object");
		sym::reach("instance");
	}
	if (o == Outcome::ok)
		sym::reach("same object");
}
HARNESS(same_object)
{
	setup();
	switch (sym::choice("param", 3))
	{
	case 0: same_object_impl<Pinned&>(); break;
	case 1: same_object_impl<const Pinned&>(); break;
	default: same_object_impl<Pinned&&>(); break;
	}
}

// many requirements on the same two arguments
template <std::size_t k>
static auto many_requirements(auto builder, const U (&w)[12])
{
	if constexpr (k == 0)
		return builder;
	else
	{
		const Num<U> n{w[k - 1]};
		if constexpr (k % 3 == 0)
			return many_requirements<k - 1>(std::move(builder) && expect::arg<0>(m::ne(n)), w);
		else if constexpr (k % 3 == 1)
			return many_requirements<k - 1>(std::move(builder) && expect::arg<1>(m::ge(n)), w);
		else
			return many_requirements<k - 1>(std::move(builder) && expect::arg<1>(m::ne(n)), w);
	}
}

HARNESS(many_requirements)
{
	setup();
	Mock<void(Num<U>, Num<U>)> mock{};
	static const char* const names[12]{"w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8", "w9", "w10", "w11"};
	U w[12];
	for (int i = 0; i < 12; ++i)
		w[i] = sym::make<U>(names[i]);
	const Num<U> a0 = num<U>("a0"), a1 = num<U>("a1");
	ScopedExpectation e = many_requirements<12>(mock.expect_call(m::_, m::_), w);
	bool want = true;
	for (std::size_t i = 0; i < 12; ++i)
	{
		const std::size_t k = i + 1;
		want = want & (k % 3 == 0 ? a0.v != w[i] : k % 3 == 1 ? a1.v >= w[i] : a1.v != w[i]);
	}
	const Outcome o = attempt([&] { mock(a0, a1); });
	CHECK_THAT(o == (want ? Outcome::ok : Outcome::noMatch), "matches iff every requirement accepts");
	if (want)
		sym::reach("twelve accepted");
	else
		sym::reach("one of twelve refuses");
	__sym_done();
}

// a clause kept in a variable serves several expectations alike
struct Judge
{
	std::string text; // heap owned
	bool verdict;
	static constexpr bool is_satisfied() noexcept { return true; }
	bool matches(const auto& info) const { return verdict && std::get<0>(info.args).get() == text; }
	void consume(const auto&) {}
	StringT describe() const { return text; }
};
HARNESS(reused)
{
	setup();
	std::string s = "a text that does not fit into the object?";
	s.back() = sym::make<char>("c");
	const std::string was = s;
	std::string target = s;
	target.back() = sym::make<char>("t");
	const bool equal = target.back() == was.back();
	Mock<void(const std::string&)> m0{}, m1{};
	std::optional<ScopedExpectation> e0{}, e1{};
	auto both = [&](auto&& make) {
		e0.emplace(make(m0) && expect::at_most(1));
		e1.emplace(make(m1) && expect::at_most(1));
	};
	bool want = equal;
	switch (sym::choice("form", 9))
	{
	case 0:
	{
		auto matcher = m::eq(s);
		both([&](auto& mock) { return mock.expect_call(matcher); });
		break;
	}
	case 1:
	{
		auto matcher = m::str::eq(s);
		both([&](auto& mock) { return mock.expect_call(matcher); });
		break;
	}
	case 2:
	{
		auto policy = expect::arg<0>(m::str::starts_with(s));
		both([&](auto& mock) { return mock.expect_call(m::_) && policy; });
		break;
	}
	case 3:
	{
		const auto policy = expect::arg<0>(!m::range::eq(s));
		both([&](auto& mock) { return mock.expect_call(m::_) && policy; });
		want = !equal;
		break;
	}
	case 4:
	{
		auto policy = expect::arg<0>(m::predicate([x = s](const std::string& y) { return x == y; }));
		both([&](auto& mock) { return mock.expect_call(m::_) && policy; });
		break;
	}
	case 5:
	{
		auto policy = expect::arg<0>(m::eq(s.size()), [x = s](const std::string& y) { return y == x ? x.size() : 0u; });
		both([&](auto& mock) { return mock.expect_call(m::_) && policy; });
		break;
	}
	case 6:
	{
		Judge judge{s, sym::make<bool>("verdict")};
		both([&](auto& mock) { return mock.expect_call(m::_) && judge; });
		want = equal && judge.verdict;
		break;
	}
	case 7:
		// the expected value itself
		both([&](auto& mock) { return mock.expect_call(s); });
		break;
	default:
	{
		auto matcher = m::range::each_element(m::predicate([x = s](const char& c) { return x.find(c) != std::string::npos; }));
		both([&](auto& mock) { return mock.expect_call(matcher); });
		want = was.find(target.back()) != std::string::npos;
		break;
	}
	}
	const bool second = sym::flag("second_first");
	const Outcome a = attempt([&] { (second ? m1 : m0)(target); });
	const Outcome b = attempt([&] { (second ? m0 : m1)(target); });
	CHECK_THAT(a == (want ? Outcome::ok : Outcome::noMatch), "the one used first");
	CHECK_THAT(a == b, "both alike");
	CHECK_THAT(s == was, "the operand is left alone");
	if (want)
		sym::reach("reused accepts");
	else
		sym::reach("reused refuses");
	__sym_done();
}

// likewise for operands which are no texts
struct Heavy
{
	std::string text;
	U v;
	bool operator==(const Heavy&) const = default;
	auto operator<=>(const Heavy&) const = default;
};
template <typename T>
static void reused_value(T operand, const T& target)
{
	const T was = operand;
	const bool equal = target == was;
	Mock<void(const T&)> m0{}, m1{};
	std::optional<ScopedExpectation> e0{}, e1{};
	bool want = equal;
	auto both = [&](auto&& make) {
		e0.emplace(make(m0) && expect::at_most(1));
		e1.emplace(make(m1) && expect::at_most(1));
	};
	switch (sym::choice("form", 5))
	{
	case 0:
		both([&](auto& mock) { return mock.expect_call(operand); });
		break;
	case 1:
		both([&](auto& mock) { return mock.expect_call(m::eq(operand)); });
		break;
	case 2:
		both([&](auto& mock) { return mock.expect_call(m::ne(operand)); });
		want = !equal;
		break;
	case 3:
		both([&](auto& mock) { return mock.expect_call(m::le(operand)) && expect::arg<0>(m::ge(operand)); });
		break;
	default:
		both([&](auto& mock) { return mock.expect_call(!m::lt(operand)) && expect::arg<0>(!m::gt(operand)); });
		break;
	}
	CHECK_THAT(operand == was, "the operand is left alone");
	const bool second = sym::flag("second_first");
	const Outcome a = attempt([&] { (second ? m1 : m0)(target); });
	const Outcome b = attempt([&] { (second ? m0 : m1)(target); });
	CHECK_THAT(a == (want ? Outcome::ok : Outcome::noMatch), "the one used first");
	CHECK_THAT(a == b, "both alike");
	if (want)
		sym::reach("value accepts");
	else
		sym::reach("value refuses");
	__sym_done();
}
HARNESS(reused_values)
{
	setup();
	const U x = sym::make<U>("x"), y = sym::make<U>("y");
	if (sym::flag("vector"))
		return reused_value(std::vector<Heavy>{{"a", 1}, {"b", x}}, std::vector<Heavy>{{"a", 1}, {"b", y}});
	reused_value(Heavy{"a text that does not fit into the object?", x}, Heavy{"a text that does not fit into the object?", y});
}

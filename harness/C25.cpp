// BOUNDS: shapes: methods with 0 to 4 parameters of value, lvalue reference, const reference, rvalue reference, move-only, copy-counting and aliased types, plus 20 parameters; every argument, every expected value and every result
// BOUNDS: every method is called through the interface and directly on the mock object: both must meet the same obligations
// BOUNDS: overloads: an overload set of 6 qualified and typed overloads, an expectation on any of them, a call of any of them; multiple inheritance with shared and separate overloads
// BOUNDS: histories: 3 (thorough 4) calls through two interfaces against two expectations with arbitrary limits
// OUTSIDE: rvalue-qualified (&&) methods: the generated override calls its mock as lvalue, which does not compile; type names with commas in macro arguments (do not compile either); more than 20 parameters
#include "common.hpp"
#include <tuple>
using namespace mimicpp;
namespace m = mimicpp::matches;
namespace e = mimicpp::expect;
namespace t = mimicpp::then;
namespace f = mimicpp::finally;
using U = std::uint32_t;

using Ptr = std::unique_ptr<U>;
template <>
struct mimicpp::custom::Printer<Ptr>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Ptr&)
	{
		*out++ = 'P';
		return out;
	}
};
using PairT = std::pair<U, U>;
template <>
struct mimicpp::custom::Printer<PairT>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const PairT&)
	{
		*out++ = 'p';
		return out;
	}
};

struct Counted
{
	static inline int copies = 0, moves = 0;
	U v{};
	explicit Counted(U x) : v{x} {}
	Counted(const Counted& o) : v{o.v} { ++copies; }
	Counted(Counted&& o) noexcept : v{o.v}
	{
		++moves;
		o.v = 0xdead;
	}
	Counted& operator=(const Counted&) = delete;
	Counted& operator=(Counted&&) = delete;
};
template <>
struct mimicpp::custom::Printer<Counted>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Counted&)
	{
		*out++ = 'c';
		return out;
	}
};

struct Boom
{
	U v;
};

using TupleT = std::tuple<U, Sym>;
template <>
struct mimicpp::custom::Printer<TupleT>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const TupleT&)
	{
		*out++ = 't';
		return out;
	}
};
template <>
struct mimicpp::custom::Printer<Sym*>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Sym*)
	{
		*out++ = '*';
		return out;
	}
};
template <>
struct mimicpp::custom::Printer<const Sym*>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Sym*)
	{
		*out++ = '*';
		return out;
	}
};

struct Shapes
{
	virtual ~Shapes() = default;
	virtual void none() = 0;
	virtual U one(Sym) = 0;
	virtual Sym four(Sym, Sym, Sym, Sym) const = 0;
	virtual Sym& ref(Sym&, const Sym&) noexcept(false) = 0;
	virtual const Sym& cref(const Sym&) const = 0;
	virtual Sym&& rref(Sym&&, Sym&) = 0;
#ifndef SYM_REDUCED
	virtual Ptr moved(Ptr, Sym, Ptr) = 0;
#endif
	virtual void counted(Counted, const Counted&, Counted&&) = 0;
	virtual std::pair<U, U> pair(std::pair<U, U>, std::tuple<U, Sym>&) = 0;
	virtual U many(Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym) = 0;
	virtual U safe(Sym) const noexcept = 0;
	virtual U lval(Sym) & = 0;
	virtual U* pointer(const Sym*, Sym* const) = 0;
};
struct ShapesMock final : Shapes
{
	MOCK_METHOD(none, void, ());
	MOCK_METHOD(one, U, (Sym));
	MOCK_METHOD(four, Sym, (Sym, Sym, Sym, Sym), const);
	MOCK_METHOD(ref, Sym&, (Sym&, const Sym&));
	MOCK_METHOD(cref, const Sym&, (const Sym&), const);
	MOCK_METHOD(rref, Sym&&, (Sym&&, Sym&));
#ifndef SYM_REDUCED
	MOCK_METHOD(moved, Ptr, (Ptr, Sym, Ptr));
#endif
	MOCK_METHOD(counted, void, (Counted, const Counted&, Counted&&));
	MOCK_METHOD(pair, PairT, (PairT, TupleT&));
	MOCK_METHOD(many, U, (Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym, Sym));
	MIMICPP_MOCK_METHOD(safe, U, (Sym), const noexcept);
	MIMICPP_MOCK_METHOD(lval, U, (Sym), &);
	MOCK_METHOD(pointer, U*, (const Sym*, Sym* const));
};

struct Fixture
{
	ShapesMock mock{};
	Shapes& iface{mock};
	bool direct{};
	Fixture()
	{
		setup();
		clear_rec();
		direct = sym::flag("direct");
	}
};

HARNESS(values)
{
	Fixture x{};
	const Sym a{sym::make<U>("a")}, b{sym::make<U>("b")}, c{sym::make<U>("c")}, d{sym::make<U>("d")};
	switch (sym::choice("shape", 4))
	{
	case 0:
	{
		int n = 0;
		ScopedExpectation exp = x.mock.none_.expect_call() && t::invoke([&] { ++n; });
		x.direct ? x.mock.none_() : x.iface.none();
		CHECK_THAT(n == 1 && rec.full == 1, "no parameter");
		break;
	}
	case 1:
	{
		const U want = sym::make<U>("want"), res = sym::make<U>("res");
		ScopedExpectation exp = x.mock.one_.expect_call(Sym{want}) && e::at_most(1) && f::returns(res);
		U got{};
		const Outcome o = attempt([&] { got = x.direct ? x.mock.one_(a) : x.iface.one(a); });
		CHECK_THAT((o == Outcome::ok) == (a.v == want), "the argument decides");
		if (o == Outcome::ok)
			CHECK_THAT(got == res, "result");
		else
			CHECK_THAT(o == Outcome::noMatch && rec.noMatch == 1 && rec.call->argDetails.size() == 1, "no match is reported");
		sym::reach("one");
		break;
	}
	case 2:
	{
		const Sym w0{sym::make<U>("w0")}, w1{sym::make<U>("w1")}, w2{sym::make<U>("w2")}, w3{sym::make<U>("w3")};
		const U res = sym::make<U>("res");
		ScopedExpectation exp = x.mock.four_.expect_call(w0, w1, w2, w3) && e::at_most(1) && f::returns(Sym{res});
		Sym got{};
		const Outcome o = attempt([&] { got = x.direct ? x.mock.four_(a, b, c, d) : x.iface.four(a, b, c, d); });
		CHECK_THAT((o == Outcome::ok) == (a == w0 && b == w1 && c == w2 && d == w3), "every argument arrives in its place");
		if (o == Outcome::ok)
			CHECK_THAT(got.v == res, "result");
		else
			CHECK_THAT(o == Outcome::noMatch, "no match");
		if (o == Outcome::ok)
			sym::reach("four");
		break;
	}
	default:
	{
		Sym in[20];
		for (int i = 0; i < 20; ++i)
			in[i].v = sym::make<U>("in");
		U got[20]{};
		int calls = 0;
		ScopedExpectation exp = x.mock.many_.expect_call(m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_, m::_)
							 && f::returns_result_of([&] { return 77u; })
							 && t::apply_all([&](const auto&... args) {
									int i = 0;
									((got[i++] = args.v), ...);
									++calls;
								});
		auto& o = x.mock.many_;
		auto& p = x.iface;
		const U r = x.direct
					  ? o(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7], in[8], in[9], in[10], in[11], in[12], in[13], in[14], in[15], in[16], in[17], in[18], in[19])
					  : p.many(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7], in[8], in[9], in[10], in[11], in[12], in[13], in[14], in[15], in[16], in[17], in[18], in[19]);
		for (int i = 0; i < 20; ++i)
			CHECK_THAT(got[i] == in[i].v, "twenty parameters in order");
		CHECK_THAT(calls == 1 && r == 77u, "one call");
		sym::reach("many");
		break;
	}
	}
}

HARNESS(references)
{
	Fixture x{};
	const U va = sym::make<U>("a"), vb = sym::make<U>("b"), vc = sym::make<U>("c");
	Sym a{va}, b{vb}, c{vc};
	switch (sym::choice("shape", 6))
	{
	case 0:
	{
		const bool second = sym::flag("second");
		ScopedExpectation exp = x.mock.ref_.expect_call(m::_, m::_)
							 && t::apply_all([&](Sym& p, const Sym& q) {
									CHECK_THAT(&p == &a && &q == (second ? &a : &b), "references keep their identity");
									p.v = vc;
								})
							 && f::returns(std::ref(c));
		Sym& r = x.direct ? x.mock.ref_(a, second ? a : b) : x.iface.ref(a, second ? a : b);
		CHECK_THAT(&r == &c && a.v == vc && b.v == vb, "the referenced result");
		sym::reach("ref");
		break;
	}
	case 1:
	{
		ScopedExpectation exp = x.mock.cref_.expect_call(m::_) && f::returns_apply_result_of<0>([](const Sym& p) -> const Sym& { return p; });
		const Sym& r = x.direct ? x.mock.cref_(a) : x.iface.cref(a);
		CHECK_THAT(&r == &a && r.v == va, "the argument itself");
		break;
	}
	case 2:
	{
		Sym taken{};
		ScopedExpectation exp = x.mock.rref_.expect_call(m::_, m::_)
							 && t::apply_all([&](auto& p, auto& q) {
									CHECK_THAT(&p == &a && &q == &b, "rvalue references keep their identity");
									taken = p;
								})
							 && f::returns_result_of([&]() -> Sym&& { return std::move(c); });
		Sym&& r = x.direct ? x.mock.rref_(std::move(a), b) : x.iface.rref(std::move(a), b);
		CHECK_THAT(&r == &c && taken.v == va && a.v == va, "nothing is moved from before the method does it");
		sym::reach("rref");
		break;
	}
#ifndef SYM_REDUCED
	case 3:
	{
		Ptr p1 = std::make_unique<U>(va), p2 = std::make_unique<U>(vb);
		U *const r1 = p1.get(), *const r2 = p2.get();
		Ptr kept{};
		ScopedExpectation exp = x.mock.moved_.expect_call(m::_, c, m::_)
							 && t::apply_arg<0>([&](Ptr& p) {
									CHECK_THAT(p.get() == r1, "first pointer");
									kept = std::move(p);
								})
							 && f::returns_apply_result_of<2>([&](Ptr& p) {
									CHECK_THAT(p.get() == r2, "last pointer");
									return std::move(p);
								});
		Ptr res = x.direct ? x.mock.moved_(std::move(p1), c, std::move(p2)) : x.iface.moved(std::move(p1), c, std::move(p2));
		CHECK_THAT(!p1 && !p2 && kept.get() == r1 && res.get() == r2 && *kept == va && *res == vb, "move-only values are handed over exactly once");
		sym::reach("moved");
		break;
	}
#endif
	case 4:
	{
		PairT in{va, vb};
		TupleT tup{vc, Sym{va}};
		ScopedExpectation exp = x.mock.pair_.expect_call(m::_, m::_)
							 && t::apply_all([&](PairT& p, TupleT& q) {
									CHECK_THAT(p.first == va && p.second == vb && &q == &tup, "types with commas");
									std::get<0>(q) = vb;
								})
							 && f::returns(PairT{vb, vc});
		const PairT r = x.direct ? x.mock.pair_(in, tup) : x.iface.pair(in, tup);
		CHECK_THAT(r.first == vb && r.second == vc && std::get<0>(tup) == vb && in.first == va, "result");
		break;
	}
	default:
	{
		const bool null = sym::flag("null");
		U res = 0;
		ScopedExpectation exp = x.mock.pointer_.expect_call(&a, null ? nullptr : &b) && f::returns(&res);
		U* const r = x.direct ? x.mock.pointer_(&a, null ? nullptr : &b) : x.iface.pointer(&a, null ? nullptr : &b);
		CHECK_THAT(r == &res, "pointers");
		break;
	}
	}
}

HARNESS(copies)
{
	Fixture x{};
	const U va = sym::make<U>("a"), vb = sym::make<U>("b"), vc = sym::make<U>("c");
	Counted a{va}, b{vb}, c{vc};
	const bool lvalue = sym::flag("lvalue");
	ScopedExpectation exp = x.mock.counted_.expect_call(m::_, m::_, m::_)
						 && t::apply_all([&](auto& p, auto& q, auto& r) {
								CHECK_THAT(p.v == va && &q == &b && &r == &c, "arguments");
								CHECK_THAT(q.v == vb && r.v == vc, "values");
							});
	Counted::copies = Counted::moves = 0;
	if (x.direct)
		lvalue ? x.mock.counted_(a, b, std::move(c)) : x.mock.counted_(std::move(a), b, std::move(c));
	else
		lvalue ? x.iface.counted(a, b, std::move(c)) : x.iface.counted(std::move(a), b, std::move(c));
	CHECK_THAT(Counted::copies == (lvalue ? 1 : 0), "an rvalue is never copied, an lvalue once");
	CHECK_THAT(Counted::moves == (x.direct ? 0 : 1) + (lvalue ? 0 : 1), "one hand-over per layer");
	CHECK_THAT(c.v == vc && b.v == vb && (a.v == va) == (lvalue || va == 0xdead), "sources");
	sym::reach("copies");
}

HARNESS(exceptions)
{
	Fixture x{};
	const U va = sym::make<U>("a"), vx = sym::make<U>("x");
	ScopedExpectation exp = x.mock.lval_.expect_call(Sym{va}) && f::throws(Boom{vx});
	U caught{};
	int n = 0;
	try
	{
		(void)(x.direct ? x.mock.lval_(Sym{va}) : x.iface.lval(Sym{va}));
	}
	catch (const Boom& b)
	{
		caught = b.v;
		++n;
	}
	CHECK_THAT(n == 1 && caught == vx, "the exception comes back unchanged");
	// saturated
	CHECK_THAT(attempt([&] { (void)(x.direct ? x.mock.lval_(Sym{va}) : x.iface.lval(Sym{va})); }) == Outcome::inapplicable, "outcomes pass through");
	ScopedExpectation ok = std::as_const(x.mock).safe_.expect_call(m::_) && f::returns(vx);
	CHECK_THAT((x.direct ? std::as_const(x.mock).safe_(Sym{va}) : std::as_const(x.iface).safe(Sym{va})) == vx, "noexcept method");
	static_assert(noexcept(std::as_const(x.mock).safe(Sym{})) && noexcept(std::as_const(x.mock).safe_(Sym{})));
	static_assert(!noexcept(x.mock.one(Sym{})));
	sym::reach("exceptions");
}

#ifdef SYM_REDUCED
using OverPtr = std::shared_ptr<U>;
#else
using OverPtr = Ptr;
#endif
struct OverA
{
	virtual ~OverA() = default;
	virtual U foo(Sym) = 0;
	virtual U foo(Sym) const = 0;
	virtual U foo(Sym&, Sym) = 0;
	virtual U shared(Sym) = 0;
};
struct OverB
{
	virtual ~OverB() = default;
	virtual U foo() const noexcept = 0;
	virtual U foo(const PairT&) const = 0;
	virtual U foo(OverPtr) = 0;
	virtual U shared(Sym) = 0;
};
struct OverMock final : OverA, OverB
{
	MOCK_OVERLOADED_METHOD(
		foo,
		ADD_OVERLOAD(U, (Sym)),
		ADD_OVERLOAD(U, (Sym), const),
		ADD_OVERLOAD(U, (Sym&, Sym)),
		ADD_OVERLOAD(U, (), const noexcept),
		ADD_OVERLOAD(U, (const PairT&), const),
		MIMICPP_ADD_OVERLOAD(U, (OverPtr)));
	MOCK_METHOD(shared, U, (Sym));
};

HARNESS(overloads)
{
	setup();
	clear_rec();
	OverMock mock{};
	OverA& ia = mock;
	OverB& ib = mock;
	const Sym v{sym::make<U>("v")}, w{sym::make<U>("w")};
	const U res = sym::make<U>("res");
	const int expected = sym::choice("expected", 6), called = sym::choice("called", 6);
	std::optional<ScopedExpectation> exp{};
	switch (expected)
	{
	case 0: exp.emplace(mock.foo_.expect_call(m::eq(v)) && e::at_most(1) && f::returns(res)); break;
	case 1: exp.emplace(std::as_const(mock).foo_.expect_call(m::eq(v)) && e::at_most(1) && f::returns(res)); break;
	case 2: exp.emplace(mock.foo_.expect_call(v, w) && e::at_most(1) && f::returns(res)); break;
	case 3: exp.emplace(std::as_const(mock).foo_.expect_call() && e::at_most(1) && f::returns(res)); break;
	case 4: exp.emplace(std::as_const(mock).foo_.expect_call(m::predicate([&](const PairT& p) { return p == PairT{v.v, w.v}; })) && e::at_most(1) && f::returns(res)); break;
	default: exp.emplace(mock.foo_.expect_call(m::predicate([&](const OverPtr& p) { return *p == v.v; })) && e::at_most(1) && f::returns(res)); break;
	}
	if (called == 3 && expected != 3)
		return; // would terminate: noexcept
	U got{};
	Sym local{v};
	const Outcome o = attempt([&] {
		switch (called)
		{
		case 0: got = ia.foo(v); break;
		case 1: got = std::as_const(ia).foo(v); break;
		case 2: got = ia.foo(local, w); break;
		case 3: got = ib.foo(); break;
		case 4: got = ib.foo(PairT{v.v, w.v}); break;
		default: got = ib.foo(OverPtr{std::make_unique<U>(v.v)}); break;
		}
	});
	CHECK_THAT((o == Outcome::ok) == (called == expected), "the equally qualified overload of the mock is selected");
	if (o == Outcome::ok)
	{
		CHECK_THAT(got == res, "result");
		sym::reach("selected");
	}
	else
		CHECK_THAT(o == Outcome::noMatch, "other overloads are not affected");
}

HARNESS(inheritance)
{
	setup();
	clear_rec();
	OverMock mock{};
	OverA& ia = mock;
	OverB& ib = mock;
	const Sym v{sym::make<U>("v")};
	const int n0 = sym::range<int>("n0", 0, 2), n1 = sym::range<int>("n1", 0, 2);
	ScopedExpectation e0 = mock.shared_.expect_call(m::lt(v)) && e::times(0, n0) && f::returns(10u);
	ScopedExpectation e1 = mock.shared_.expect_call(m::ge(v)) && e::times(0, n1) && f::returns(11u);
	int c0 = 0, c1 = 0;
	for (int s = 0; s < (THOROUGH ? 4 : 3); ++s)
	{
		const Sym a{sym::make<U>("a")};
		const bool first = sym::flag("first");
		U got{};
		const Outcome o = attempt([&] { got = first ? ia.shared(a) : ib.shared(a); });
		const bool less = a.v < v.v;
		const bool fits = less ? c0 < n0 : c1 < n1;
		CHECK_THAT(o == (fits ? Outcome::ok : Outcome::inapplicable), "both interfaces reach the same mock");
		if (fits)
		{
			CHECK_THAT(got == (less ? 10u : 11u), "result");
			less ? ++c0 : ++c1;
		}
	}
	if (c0 == 2 && c1 == 1)
		sym::reach("inheritance");
}

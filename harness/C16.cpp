// BOUNDS: order: four side effects of all kinds on (T&, T) with every 32-bit argument, 2 calls, arbitrary operations' operands
// BOUNDS: selections: apply_arg<0..2>, apply_args with all pairs and permutations of three arguments and duplicates
// BOUNDS: forms: value, reference, const and rvalue reference, move-only parameters
// BOUNDS: unmatched: three expectations with side effects, arbitrary accept pattern, limits, 3 calls
// BOUNDS: mixed: side effects between requirements, limits, sequences, finalizer in every position
// BOUNDS: nested: a side effect calls another mock or (with another argument) the same mock
// BOUNDS: finalizers: every return type (void, value, reference) x every finalizer (none, value, result of a callable, exception object, throwing callable) x 0..3 side effects before/after the finalizer clause, 2 calls
// BOUNDS: nested_changes: a side effect ends another expectation or creates a new one, arbitrary accept patterns, 2 calls
// BOUNDS: many: 12 side effects of three forms on one expectation, 1, 2, 9 and 40 calls and one beyond the limit
// BOUNDS: reused: actions with heap-owned content kept in variables, used for two expectations
// OUTSIDE: throwing side effects (documented as not allowed), more than three parameters
#include "common.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;
using U = std::uint32_t;

struct Log
{
	int n = 0;
	int what[16]{};
	int full[16]{};
	void add(int w)
	{
		what[n] = w;
		full[n] = rec.full;
		++n;
	}
};

HARNESS(order)
{
	setup();
	Log log{};
	const U k0 = sym::make<U>("k"), k1 = sym::make<U>("k"), k2 = sym::make<U>("k");
	Mock<U(Sym&, Sym)> mock{};
	Sym* a0{};
	Sym* a1{};
	ScopedExpectation e = mock.expect_call(m::_, m::_)
						&& then::apply_arg<0>([&](Sym& s) { log.add(0); a0 = &s; s.v = (s.v << 1) ^ k0; })
						&& then::invoke([&, n = 0]() mutable { log.add(10 + n++); })
						&& then::apply_args<1, 0>([&](Sym& t, Sym& s) { log.add(2); CHECK_THAT(&s == a0, "same object"); a1 = &t; t.v ^= s.v + k1; })
						&& expect::twice()
						&& then::apply_all([&](Sym& s, Sym& t) { log.add(3); CHECK_THAT(&s == a0 && &t == a1, "same objects"); s.v += t.v; t.v -= k2; })
						&& finally::returns_apply_all_result_of([&](Sym& s, Sym& t) { log.add(4); CHECK_THAT(&s == a0 && &t == a1, "same objects"); return s.v ^ (t.v << 1); });
	for (int c = 0; c < 2; ++c)
	{
		log.n = 0;
		Sym x{sym::make<U>("x")};
		const Sym y{sym::make<U>("y")};
		U s = (x.v << 1) ^ k0;
		U t = y.v ^ (s + k1);
		s += t;
		t -= k2;
		const U got = mock(x, y);
		CHECK_THAT(got == (s ^ (t << 1)), "the finalizer observes all changes");
		CHECK_THAT(x.v == s && a0 == &x, "the caller observes the changes of a reference argument");
		CHECK_THAT(a1 != &y, "a value parameter is the callee's own object");
		CHECK_THAT(log.n == 5, "each side effect exactly once");
		const int want[]{0, 10 + c, 2, 3, 4};
		for (int i = 0; i < 5; ++i)
			CHECK_THAT(log.what[i] == want[i] && log.full[i] == c + 1, "in order of attachment, after the report");
		sym::observe("got", got);
	}
	CHECK_THAT(attempt([&] { Sym x{1}; (void)mock(x, Sym{2}); }) == Outcome::inapplicable && log.n == 5, "not on a saturated expectation");
	sym::reach("ordered");
}

template <std::size_t... idx>
static void selection(Sym& x, Sym& y, Sym& z)
{
	constexpr std::size_t n = sizeof...(idx);
	const std::size_t order[n]{idx...};
	Sym* all[3]{&x, &y, &z};
	U want[3]{x.v, y.v, z.v};
	const U k = sym::make<U>("k");
	for (std::size_t i = 0; i < n; ++i)
		want[order[i]] = want[order[i]] * 5u + static_cast<U>(i) + k;
	int calls = 0;
	auto action = [&](auto&... a) {
		Sym* got[]{&a...};
		static_assert(sizeof...(a) == n);
		for (std::size_t i = 0; i < n; ++i)
		{
			CHECK_THAT(got[i] == all[order[i]], "the designated argument, by reference");
			got[i]->v = got[i]->v * 5u + static_cast<U>(i) + k;
		}
		++calls;
	};
	Mock<void(Sym&, Sym&, Sym&)> mock{};
	std::optional<ScopedExpectation> e{};
	if constexpr (n == 1)
		e.emplace(mock.expect_call(m::_, m::_, m::_) && then::apply_arg<idx...>(action));
	else
		e.emplace(mock.expect_call(m::_, m::_, m::_) && then::apply_args<idx...>(action));
	mock(x, y, z);
	CHECK_THAT(calls == 1, "once");
	for (int i = 0; i < 3; ++i)
		CHECK_THAT(all[i]->v == want[i], "exactly the designated arguments changed");
	sym::reach("selected");
}

HARNESS(selections)
{
	setup();
	Sym x{sym::make<U>("x")}, y{sym::make<U>("y")}, z{sym::make<U>("z")};
	switch (sym::choice("indices", 15))
	{
	case 0: selection<0>(x, y, z); break;
	case 1: selection<1>(x, y, z); break;
	case 2: selection<2>(x, y, z); break;
	case 3: selection<0, 1>(x, y, z); break;
	case 4: selection<1, 0>(x, y, z); break;
	case 5: selection<0, 2>(x, y, z); break;
	case 6: selection<2, 0>(x, y, z); break;
	case 7: selection<1, 2>(x, y, z); break;
	case 8: selection<2, 1>(x, y, z); break;
	case 9: selection<0, 1, 2>(x, y, z); break;
	case 10: selection<2, 1, 0>(x, y, z); break;
	case 11: selection<1, 2, 0>(x, y, z); break;
	case 12: selection<2, 0, 1>(x, y, z); break;
	case 13: selection<1, 1>(x, y, z); break;
	default: selection<2, 0, 2>(x, y, z); break;
	}
}

template <>
struct mimicpp::custom::Printer<Own<std::uint32_t>> // reduced form: SYM_REDUCED
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Own<std::uint32_t>&)
	{
		*out++ = 'P';
		return out;
	}
};

HARNESS(forms)
{
	setup();
	const U v = sym::make<U>("v"), k = sym::make<U>("k");
	int n = 0;
	switch (sym::choice("form", 6))
	{
	case 0:
	{
		Mock<Sym(Sym)> mock{};
		const Sym a{v};
		ScopedExpectation e = mock.expect_call(m::_) && then::apply_arg<0>([&](Sym& s) { ++n; s.v += k; }) && finally::returns_arg<0>();
		CHECK_THAT(mock(a).v == v + k && a.v == v, "value parameter: the finalizer sees the change, the caller does not");
		break;
	}
	case 1:
	{
		Mock<Sym&(Sym&)> mock{};
		Sym a{v};
		ScopedExpectation e = mock.expect_call(m::_) && then::apply_all([&](Sym& s) { ++n; s.v += k; }) && finally::returns_arg<0>();
		CHECK_THAT(&mock(a) == &a && a.v == v + k, "reference parameter");
		break;
	}
	case 2:
	{
		Mock<void(const Sym&)> mock{};
		const Sym a{v};
		ScopedExpectation e = mock.expect_call(m::_) && then::apply_arg<0>([&](const Sym& s) { ++n; CHECK_THAT(&s == &a && s.v == v, "const reference"); });
		mock(a);
		break;
	}
	case 3:
	{
		Mock<void(Sym&&)> mock{};
		Sym a{v};
		ScopedExpectation e = mock.expect_call(m::_) && then::apply_args<0, 0>([&](Sym& s, Sym& t) { ++n; CHECK_THAT(&s == &a && &t == &a, "the object bound to the rvalue reference"); s.v = k; });
		mock(std::move(a));
		CHECK_THAT(a.v == k, "changed in place");
		break;
	}
	case 4:
	{
		Mock<Own<U>(Own<U>)> mock{};
		auto p = make_own<U>(v);
		const U* raw = p.get();
		ScopedExpectation e = mock.expect_call(m::_)
							&& then::apply_arg<0>([&](Own<U>& q) { ++n; CHECK_THAT(q.get() == raw, "same object"); *q += k; })
							&& finally::returns_arg<0>();
		auto r = mock(std::move(p));
		CHECK_THAT(r.get() == raw && *r == v + k, "move-only");
		break;
	}
	default:
	{
		// a side effect takes its action by value: lvalue actions are copied, rvalue actions moved in
		Mock<void(Sym&)> mock{};
		Sym a{v};
		struct Act
		{
			int* n;
			U k;
			Own<U> own;
			void operator()(Sym& s) const
			{
				++*n;
				s.v += k + *own;
			}
		};
		ScopedExpectation e = mock.expect_call(m::_) && then::apply_arg<0>(Act{&n, k, make_own<U>(7u)});
		mock(a);
		CHECK_THAT(a.v == v + k + 7u, "owned state");
		break;
	}
	}
	CHECK_THAT(n == 1, "once");
	sym::reach("form");
}

HARNESS(unmatched)
{
	setup();
	Mock<void(Sym)> mock{};
	int ran[3][2]{};
	int later = 0;
	const int max[3]{1, 2, 1};
	auto eff = [&](int i, int j) { return then::invoke([&, i, j] { ++ran[i][j]; CHECK_THAT(j == 0 ? ran[i][0] == ran[i][1] + 1 : ran[i][0] == ran[i][1], "in order"); }); };
	ScopedExpectation e0 = mock.expect_call(bit(0)) && eff(0, 0) && expect::at_most(1) && eff(0, 1);
	ScopedExpectation e1 = mock.expect_call(bit(1)) && expect::at_most(2) && eff(1, 0) && eff(1, 1);
	std::optional<ScopedExpectation> e2{mock.expect_call(bit(2)) && eff(2, 0) && eff(2, 1) && expect::at_most(1)};
	bool alive2 = true;
	int used[3]{};
	for (int c = 0; c < 3; ++c)
	{
		if (c == 1 && sym::flag("drop"))
		{
			e2.reset();
			alive2 = false;
		}
		const Sym s{sym::make<U>("s")};
		int sel = -1;
		for (int i = 0; i < 3; ++i)
			if (((s.v >> i) & 1u) && used[i] < max[i] && (i < 2 || alive2))
				sel = i;
		const Outcome o = attempt([&] { mock(s); });
		CHECK_THAT((o == Outcome::ok) == (sel >= 0), "accepted");
		if (sel >= 0)
			++used[sel];
		else
			sym::reach("rejected");
		for (int i = 0; i < 3; ++i)
			CHECK_THAT(ran[i][0] == used[i] && ran[i][1] == used[i], "side effects of the consumed expectation only, once");
	}
	(void)later;
	sym::reach("checked");
}

HARNESS(mixed)
{
	setup();
	Mock<U(Sym&)> mock{};
	Log log{};
	SequenceT seq{};
	const U lo = sym::make<U>("lo"), r = sym::make<U>("r");
	auto fx = [&](int i) { return then::apply_arg<0>([&, i](Sym& s) { log.add(i); s.v = s.v * 2u + static_cast<U>(i); }); };
	auto req = [&] { return expect::arg<0>(m::predicate([&](const Sym& s) { return s.v >= lo; })); };
	std::optional<ScopedExpectation> e{};
	switch (sym::choice("clauses", 7))
	{
	case 0: e.emplace(mock.expect_call(m::_) && fx(1) && fx(2) && req() && finally::returns(r) && expect::times(2)); break;
	case 1: e.emplace(mock.expect_call(m::_) && req() && fx(1) && expect::times(2) && finally::returns(r) && fx(2)); break;
	case 2: e.emplace(mock.expect_call(m::_) && expect::in_sequence(seq) && fx(1) && finally::returns(r) && expect::times(2) && fx(2) && req()); break;
	case 3: e.emplace(mock.expect_call(m::_) && finally::returns(r) && fx(1) && expect::times(2) && expect::in_sequence(seq) && req() && fx(2)); break;
	case 4: e.emplace(mock.expect_call(m::_) && expect::times(2) && fx(1) && req() && fx(2) && finally::returns(r)); break;
	case 5: e.emplace(mock.expect_call(m::predicate([&](const Sym& s) { return s.v >= lo; })) && fx(1) && fx(2) && expect::times(2) && expect::in_sequence(seq) && finally::returns(r)); break;
	default: e.emplace(mock.expect_call(m::_) && fx(1) && req() && finally::returns(r) && fx(2) && expect::in_sequence(seq) && expect::times(2)); break;
	}
	int accepted = 0;
	for (int c = 0; c < 2; ++c)
	{
		const U v = sym::make<U>("v");
		Sym s{v};
		log.n = 0;
		U got = ~r;
		const Outcome o = attempt([&] { got = mock(s); });
		if (v >= lo)
		{
			++accepted;
			CHECK_THAT(o == Outcome::ok && got == r && log.n == 2 && log.what[0] == 1 && log.what[1] == 2, "both, in order");
			CHECK_THAT(log.full[0] == accepted && log.full[1] == accepted, "after the report");
			CHECK_THAT(s.v == (v * 2u + 1u) * 2u + 2u, "changes");
			sym::reach("matched");
		}
		else
		{
			CHECK_THAT(o == Outcome::noMatch && log.n == 0 && s.v == v, "no side effect without a match");
			sym::reach("not matched");
		}
	}
}

HARNESS(nested)
{
	setup();
	Mock<U(Sym)> mock{};
	Mock<void(Sym&)> other{};
	Log log{};
	const Sym x{sym::make<U>("x")}, y{sym::make<U>("y")};
	const U k = sym::make<U>("k"), r0 = sym::make<U>("r"), r1 = sym::make<U>("r");
	const bool same = sym::flag("same");
	U inner = 0;
	ScopedExpectation o = other.expect_call(m::_) && then::apply_arg<0>([&](Sym& s) { log.add(2); s.v ^= k; }) && expect::at_most(1);
	ScopedExpectation e0 = mock.expect_call(bit(0)) && expect::at_most(2) && then::invoke([&] { log.add(1); }) && finally::returns(r0);
	ScopedExpectation e1 = mock.expect_call(bit(1)) && expect::at_most(1)
						&& then::apply_arg<0>([&](Sym& s) {
							log.add(0);
							if (same)
							{
								// e1 is already used up by the outer call
								if (attempt([&] { inner = mock(y); }) == Outcome::ok)
									CHECK_THAT((y.v & 1u) && inner == r0, "nested call selects the older expectation");
								else
									CHECK_THAT(!(y.v & 1u), "nested call is rejected");
							}
							else
								other(s);
						})
						&& then::apply_arg<0>([&](Sym& s) { log.add(3); CHECK_THAT(same ? s.v == x.v : s.v == (x.v ^ k), "later side effects observe the changes"); })
						&& finally::returns_apply_result_of<0>([&](Sym& s) { log.add(4); return s.v + r1; });
	U got = 0;
	const Outcome out = attempt([&] { got = mock(x); });
	if (x.v & 2u)
	{
		CHECK_THAT(out == Outcome::ok && got == (same ? x.v : (x.v ^ k)) + r1, "outer result");
		const bool both = !same || (y.v & 1u);
		CHECK_THAT(log.n == (both ? 4 : 3), "each once");
		int i = 0;
		CHECK_THAT(log.what[i++] == 0, "order");
		if (both)
			CHECK_THAT(log.what[i++] == (same ? 1 : 2), "order");
		CHECK_THAT(log.what[i] == 3 && log.what[i + 1] == 4, "order");
		CHECK_THAT(log.full[0] == 1 && log.full[i] == (both ? 2 : 1), "reported before");
		sym::reach("nested");
	}
	else if (x.v & 1u)
	{
		CHECK_THAT(out == Outcome::ok && got == r0 && log.n == 1 && log.what[0] == 1, "other expectation");
	}
	else
		CHECK_THAT(out == Outcome::noMatch && log.n == 0, "none");
}

struct FinalizerEx
{
	U v;
};

// every kind of finalizer, for each kind of return type: all side effects run before it, whether or not it throws
template <typename R, typename B>
static void finalizer_runs(Mock<R(Sym&)>& mock, B&& make, Log& log, const bool logged, const bool throws, const int before, const int after)
{
	Sym x{sym::make<U>("x")};
	U want = x.v;
	auto fx = [&](int i) { return then::apply_arg<0>([&log, i](Sym& s) { log.add(i); s.v = (s.v << 1) + static_cast<U>(i); }); };
	std::optional<ScopedExpectation> e{};
	if (before == 0 && after == 0)
		e.emplace(make(mock.expect_call(m::_) && expect::twice()));
	else if (before == 1 && after == 0)
		e.emplace(make(mock.expect_call(m::_) && expect::twice() && fx(1)));
	else if (before == 0 && after == 1)
		e.emplace(make(mock.expect_call(m::_) && expect::twice()) && fx(1));
	else if (before == 1)
		e.emplace(make(mock.expect_call(m::_) && expect::twice() && fx(1)) && fx(2));
	else if (after == 0)
		e.emplace(make(mock.expect_call(m::_) && fx(1) && expect::twice() && fx(2)));
	else
		e.emplace(make(mock.expect_call(m::_) && expect::twice() && fx(1) && fx(2)) && fx(3));
	const int n = before + after;
	for (int c = 0; c < 2; ++c)
	{
		log.n = 0;
		for (int i = 1; i <= n; ++i)
			want = (want << 1) + static_cast<U>(i);
		bool thrown = false;
		try
		{
			mock(x);
		}
		catch (const FinalizerEx&)
		{
			thrown = true;
		}
		CHECK_THAT(thrown == throws, "the finalizer decides how the call ends");
		CHECK_THAT(x.v == want, "every side effect ran exactly once, in order");
		CHECK_THAT(log.n == n + (logged ? 1 : 0), "nothing else ran");
		for (int i = 0; i < n; ++i)
			CHECK_THAT(log.what[i] == i + 1 && log.full[i] == c + 1, "in order of attachment, after the report");
		if (logged)
			CHECK_THAT(log.what[n] == 9, "the finalizer is last");
		CHECK_THAT(e->is_satisfied() == (c == 1), "counted, however the call ends");
	}
	CHECK_THAT(attempt([&] { mock(x); }) == Outcome::inapplicable && x.v == want, "no side effect on a saturated expectation");
	sym::reach(throws ? "finalizer throws" : "finalizer returns");
}

static U g_value;

template <typename R>
static void finalizer_kinds(Log& log)
{
	Mock<R(Sym&)> mock{};
	const U r = sym::make<U>("r");
	const int before = sym::choice("before", 3), after = sym::choice("after", 2);
	auto run = [&](auto&& make, bool logged, bool throws) {
		finalizer_runs(mock, make, log, logged, throws, before, after);
	};
	switch (sym::choice("finalizer", std::is_void_v<R> ? 4 : 5))
	{
	case 0:
		run([&](auto&& b) { return std::move(b) && finally::throws(FinalizerEx{r}); }, false, true);
		break;
	case 1:
		run([&](auto&& b) { return std::move(b) && finally::returns_apply_all_result_of([&](Sym&) -> R { log.add(9); throw FinalizerEx{r}; }); }, true, true);
		break;
	case 2:
		run([&](auto&& b) { return std::move(b) && finally::returns_apply_all_result_of([&](Sym&) -> R {
			log.add(9);
			if constexpr (!std::is_void_v<R>)
				return g_value;
		}); }, true, false);
		break;
	case 3:
		if constexpr (std::is_void_v<R>)
			run([&](auto&& b) { return std::move(b); }, false, false);
		else
			run([&](auto&& b) { return std::move(b) && finally::returns_result_of([&]() -> R { log.add(9); return g_value; }); }, true, false);
		break;
	default:
		if constexpr (std::is_same_v<R, U&>)
			run([&](auto&& b) { return std::move(b) && finally::returns(std::ref(g_value)); }, false, false);
		else if constexpr (!std::is_void_v<R>)
			run([&](auto&& b) { return std::move(b) && finally::returns(r); }, false, false);
		break;
	}
}

HARNESS(finalizers)
{
	setup();
	Log log{};
	switch (sym::choice("return", 3))
	{
	case 0: finalizer_kinds<void>(log); break;
	case 1: finalizer_kinds<U>(log); break;
	default: finalizer_kinds<U&>(log); break;
	}
}

// side effects that change the set of expectations
HARNESS(nested_changes)
{
	setup();
	Mock<int(Sym)> mock{};
	std::optional<ScopedExpectation> victim{}, fresh{};
	const bool end = sym::flag("end"), create = sym::flag("create"), victimNewer = sym::flag("newer");
	int ran = 0;
	if (!victimNewer)
		victim.emplace(finalize_at(mock.expect_call(bit(1)) && expect::times(0, 2) && finally::returns(1), 1));
	ScopedExpectation own = finalize_at(
		mock.expect_call(bit(0)) && expect::times(0, 2)
			&& then::invoke([&] {
				   ++ran;
				   if (end)
					   victim.reset();
				   if (create && !fresh)
					   fresh.emplace(finalize_at(mock.expect_call(bit(2)) && finally::returns(2), 2));
			   })
			&& finally::returns_result_of([&] { return 10 * ran; }),
		0);
	if (victimNewer)
		victim.emplace(finalize_at(mock.expect_call(bit(1)) && expect::times(0, 2) && finally::returns(1), 1));
	bool hasVictim = true, hasFresh = false, freshUsed = false;
	int runs = 0;
	static const char* const arg[]{"a0", "a1"};
	for (int c = 0; c < 2; ++c)
	{
		const Sym x{sym::make<std::uint32_t>(arg[c])};
		int result = -1;
		const Outcome o = attempt([&] { result = mock(x); });
		int want = -1;
		const bool b0 = x.v & 1u, b1 = hasVictim && (x.v & 2u), b2 = hasFresh && (x.v & 4u);
		if (b2 && !freshUsed)
			want = 2;
		else if (victimNewer)
			want = b1 ? 1 : b0 ? 0 : -1;
		else
			want = b0 ? 0 : b1 ? 1 : -1;
		CHECK_THAT(o == (want >= 0 ? Outcome::ok : b2 ? Outcome::inapplicable : Outcome::noMatch), "verdict for the current set of expectations");
		if (want == 0)
		{
			++runs;
			hasVictim = hasVictim && !end;
			hasFresh = hasFresh || create;
			CHECK_THAT(result == 10 * runs, "finalizer after the side effect");
			sym::reach("changed");
		}
		else if (want > 0)
		{
			CHECK_THAT(result == want, "result of the other one");
			freshUsed = freshUsed || want == 2;
		}
		CHECK_THAT(ran == runs, "the side effect ran exactly once for each match");
	}
	CHECK_THAT(rec.unfulfilled == 0, "the ended expectation was satisfied");
	const bool open = hasFresh && !freshUsed;
	fresh.reset();
	CHECK_THAT(rec.unfulfilled == (open ? 1 : 0), "a new expectation counts like all others");
}

// many side effects on one expectation and many calls of it
struct Effect
{
	int k;
	int* log;
	int* n;
	U* acc;
	U salt;
	void run(Sym& s) const
	{
		log[(*n)++] = k;
		s.v = (s.v << 1 | s.v >> 31) ^ salt ^ static_cast<U>(k);
		*acc ^= s.v;
	}
	void operator()(Sym& s) const { run(s); }
	void operator()(Sym& s, const Sym&) const { run(s); }
};
struct SwappedEffect : Effect
{
	void operator()(const Sym&, Sym& s) const { run(s); }
};
template <std::size_t k>
static auto many_effects(auto builder, const Effect& x)
{
	if constexpr (k == 0)
		return builder;
	else
	{
		Effect f{x};
		f.k = static_cast<int>(k);
		if constexpr (k % 3 == 0)
			return many_effects<k - 1>(std::move(builder) && then::apply_arg<0>(f), x);
		else if constexpr (k % 3 == 1)
			return many_effects<k - 1>(std::move(builder) && then::apply_all(f), x);
		else
			return many_effects<k - 1>(std::move(builder) && then::apply_args<1, 0>(SwappedEffect{f}), x);
	}
}

HARNESS(many)
{
	setup();
	constexpr int effects = 12;
	int log[effects + 1]{};
	int n = 0;
	U acc = 0;
	const U salt = sym::make<U>("salt");
	const int calls = std::array<int, 4>{1, 2, 9, 40}[static_cast<std::size_t>(sym::choice("calls", 4))];
	Mock<U(Sym&, Sym)> mock{};
	ScopedExpectation e = many_effects<effects>(mock.expect_call(m::_, m::_), Effect{0, log, &n, &acc, salt})
						&& expect::times(calls)
						&& finally::returns_apply_result_of<0>([&](Sym& s) { log[n++] = 0; return s.v; });
	for (int c = 0; c < calls; ++c)
	{
		clear_rec();
		n = 0;
		acc = 0;
		Sym x{c < 2 ? sym::make<U>("x") : static_cast<U>(c)};
		U want = x.v, wantAcc = 0;
		for (U k = effects; k > 0; --k)
		{
			want = (want << 1 | want >> 31) ^ salt ^ k;
			wantAcc ^= want;
		}
		const U got = mock(x, Sym{});
		CHECK_THAT(n == effects + 1, "each side effect exactly once");
		for (int i = 0; i <= effects; ++i)
			CHECK_THAT(log[i] == effects - i, "in order of attachment, the finalizer last");
		CHECK_THAT(got == want && x.v == want && acc == wantAcc, "each one observes the changes of the earlier ones");
	}
	n = 0;
	Sym x{1};
	CHECK_THAT(attempt([&] { (void)mock(x, Sym{}); }) == Outcome::inapplicable && n == 0 && x.v == 1, "none on a rejected call");
	sym::observe("acc", acc);
	sym::reach("many side effects");
}

// an action kept in a variable serves several expectations alike
HARNESS(reused)
{
	setup();
	const U k = sym::make<U>("k");
	const std::string text = "a text that is too long for the object itself";
	Mock<void(Sym&)> m0{}, m1{};
	std::optional<ScopedExpectation> e0{}, e1{};
	int runs = 0;
	U want = 0;
	U plain = 0;
	const auto action = [&runs, k, x = text, &text](Sym& s) { ++runs; s.v ^= x == text ? k : ~k; };
	auto action2 = action;
	auto bare = [&runs, k, x = text, &text, &plain] { ++runs; plain ^= x == text ? k : ~k; };
	const int form = sym::choice("form", 4);
	switch (form)
	{
	case 0:
		e0.emplace(m0.expect_call(m::_) && then::apply_arg<0>(action2) && expect::twice());
		e1.emplace(m1.expect_call(m::_) && expect::twice() && then::apply_arg<0>(action2));
		break;
	case 1:
		e0.emplace(m0.expect_call(m::_) && then::apply_args<0>(action) && expect::twice());
		e1.emplace(m1.expect_call(m::_) && then::apply_args<0>(action) && expect::twice());
		break;
	case 2:
		e0.emplace(m0.expect_call(m::_) && then::apply_all(action2) && expect::twice());
		e1.emplace(m1.expect_call(m::_) && then::apply_all(action2) && expect::twice());
		break;
	default:
		e0.emplace(m0.expect_call(m::_) && then::invoke(bare) && expect::twice());
		e1.emplace(m1.expect_call(m::_) && then::invoke(bare) && expect::twice());
		break;
	}
	const bool second = sym::flag("second");
	for (int c = 0; c < 4; ++c)
	{
		Sym s{sym::make<U>("s")};
		want = s.v;
		(((c & 1) != 0) == second ? m0 : m1)(s);
		CHECK_THAT(runs == c + 1, "once for each call");
		if (form < 3)
			CHECK_THAT(s.v == (want ^ k), "the same effect from both");
		else
			CHECK_THAT(plain == ((c & 1) != 0 ? 0u : k) && s.v == want, "the same effect from both");
	}
	sym::reach("action reused");
	__sym_done();
}

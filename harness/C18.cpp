// BOUNDS: call_report: signatures with 0 to 3 parameters, value/reference/const/rvalue/pointer parameters (polymorphic ones included), const and ref qualified calls
// BOUNDS: match_report: three requirements with arbitrary verdicts (32-bit argument), limits 0 <= min <= max <= 4 or unlimited, 3 calls, none/one/two sequences
// BOUNDS: evaluate: up to 4 requirements with arbitrary verdicts, all three control states with arbitrary numbers
// BOUNDS: equal_*: two reports whose parts are independently arbitrary: ints of full width, lists of 0..2 elements, absent/1-character/2-character texts, source locations differing in one component, call infos with 0..2 arguments, call reports with 0..3 (thorough 4) arguments
// BOUNDS: before_effects: reference, value and rvalue reference arguments with arbitrary one-character texts, changed by a side effect and by the finalizer
// BOUNDS: many_arguments: nine parameters of seven types with arbitrary characters, nine requirements with arbitrary verdicts
// OUTSIDE: longer lists and texts
// BOUNDS: overloads: the described overload requirement of the 6 qualifications and three noexcept forms
#include "common.hpp"
#include "locations.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;
using U = std::uint32_t;

static bool same_loc(const std::source_location& a, const std::source_location& b)
{
	auto streq = [](const char* x, const char* y) {
		while (*x && *x == *y)
			++x, ++y;
		return *x == *y;
	};
	return streq(a.file_name(), b.file_name()) && streq(a.function_name(), b.function_name()) && a.line() == b.line() && a.column() == b.column();
}

struct Other
{
	int x;
};
template <>
struct mimicpp::custom::Printer<Other>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Other&)
	{
		*out++ = 'O';
		*out++ = 't';
		return out;
	}
};

struct Base
{
	virtual ~Base() = default;
};
struct Derived : Base
{
};

HARNESS(call_report)
{
	setup();
	using enum ValueCategory;
	const Sym s{sym::make<U>("s")};
	Sym ms{sym::make<U>("s")};
	Other o{1};
	const char c = sym::make<char>("c");
	sym::assume(c >= 'a' && c <= 'z');
	const StringT cs{c};
	rec = Rec{};
	auto verify = [&](std::type_index ret, std::vector<std::pair<std::type_index, StringT>> args, ValueCategory cat, Constness con, std::uint_least32_t line) {
		CHECK_THAT(rec.noMatch == 1 && rec.call, "reported");
		const CallReport& r = *rec.call;
		CHECK_THAT(r.returnTypeIndex == ret, "return type");
		CHECK_THAT(r.argDetails.size() == args.size(), "every argument");
		for (std::size_t i = 0; i < args.size(); ++i)
			CHECK_THAT(r.argDetails[i].typeIndex == args[i].first && r.argDetails[i].stateString == args[i].second, "argument, in order");
		CHECK_THAT(r.fromCategory == cat && r.fromConstness == con, "constness and category of the call");
		CHECK_THAT(r.fromLoc.line() == line, "source location of the call");
		sym::reach("call report");
	};
	const auto id = []<typename T>(std::type_identity<T>) { return std::type_index{typeid(T)}; };
	using std::type_identity;
#define CALL(expr)       \
	try                  \
	{                    \
		(void)(expr);    \
	}                    \
	catch (const NoMatchEx&) \
	{                    \
	}
	switch (sym::choice("shape", 10))
	{
	case 0:
	{
		Mock<void()> mock{};
		CALL(mock()) const auto line = std::source_location::current().line();
		verify(id(type_identity<void>{}), {}, any, Constness::non_const, line);
		break;
	}
	case 1:
	{
		Mock<int(Sym, Other)> mock{};
		CALL(mock(s, o)) const auto line = std::source_location::current().line();
		verify(id(type_identity<int>{}), {{id(type_identity<Sym>{}), "S"}, {id(type_identity<Other>{}), "Ot"}}, any, Constness::non_const, line);
		break;
	}
	case 2:
	{
		Mock<Sym & (const Other&, Sym&, Other&&)> mock{};
		CALL(mock(o, ms, std::move(o))) const auto line = std::source_location::current().line();
		verify(id(type_identity<Sym>{}), {{id(type_identity<Other>{}), "Ot"}, {id(type_identity<Sym>{}), "S"}, {id(type_identity<Other>{}), "Ot"}}, any, Constness::non_const, line);
		break;
	}
	case 3:
	{
		Mock<void(Sym) const> mock{};
		CALL(mock(s)) const auto line = std::source_location::current().line();
		verify(id(type_identity<void>{}), {{id(type_identity<Sym>{}), "S"}}, any, Constness::as_const, line);
		break;
	}
	case 4:
	{
		Mock<void(Sym)&, void(Sym) const&, void(Sym)&&, void(Sym) const&&> mock{};
		const int q = sym::choice("qualifier", 4);
		std::uint_least32_t line{};
		switch (q)
		{
		case 0: CALL(mock(s)) line = std::source_location::current().line(); break;
		case 1: CALL(std::as_const(mock)(s)) line = std::source_location::current().line(); break;
		case 2: CALL(std::move(mock)(s)) line = std::source_location::current().line(); break;
		default: CALL(std::move(std::as_const(mock))(s)) line = std::source_location::current().line(); break;
		}
		verify(id(type_identity<void>{}), {{id(type_identity<Sym>{}), "S"}}, q < 2 ? lvalue : rvalue, q % 2 ? Constness::as_const : Constness::non_const, line);
		break;
	}
	case 5:
	{
		Mock<void(), void() const> mock{};
		const bool asConst = sym::flag("asConst");
		std::uint_least32_t line{};
		if (asConst)
		{
			CALL(std::as_const(mock)()) line = std::source_location::current().line();
		}
		else
		{
			CALL(mock()) line = std::source_location::current().line();
		}
		verify(id(type_identity<void>{}), {}, any, asConst ? Constness::as_const : Constness::non_const, line);
		break;
	}
	case 6:
	{
		Mock<double(StringT)> mock{};
		CALL(mock(cs)) const auto line = std::source_location::current().line();
		verify(id(type_identity<double>{}), {{id(type_identity<StringT>{}), StringT{"\""} + cs + "\""}}, any, Constness::non_const, line);
		break;
	}
	case 7:
	{
		Mock<void(bool, const std::vector<Sym>&)> mock{};
		const bool b = sym::flag("b");
		CALL(mock(b, std::vector<Sym>{s, ms})) const auto line = std::source_location::current().line();
		verify(id(type_identity<void>{}), {{id(type_identity<bool>{}), b ? "true" : "false"}, {id(type_identity<std::vector<Sym>>{}), "{ S, S }"}}, any, Constness::non_const, line);
		break;
	}
	case 8:
	{
		// the declared type counts, not the dynamic one
		Derived d{};
		Mock<void(Base&, const Base&, Base*)> mock{};
		CALL(mock(d, d, &d)) const auto line = std::source_location::current().line();
		CHECK_THAT(rec.call && rec.call->argDetails.size() == 3, "every argument");
		verify(id(type_identity<void>{}), {{id(type_identity<Base>{}), "{?}"}, {id(type_identity<Base>{}), "{?}"}, {id(type_identity<Base*>{}), rec.call->argDetails[2].stateString}}, any, Constness::non_const, line);
		break;
	}
	default:
	{
		// the same for calls that succeed and for inapplicable ones
		Mock<int(Sym)> mock{};
		ScopedExpectation e = mock.expect_call(m::_) && finally::returns(1);
		for (int i = 0; i < 2; ++i)
		{
			rec = Rec{};
			std::uint_least32_t line{};
			try
			{
				(void)mock(s); line = std::source_location::current().line();
			}
			catch (const InapplicableEx&)
			{
				line = std::source_location::current().line() - 4;
			}
			CHECK_THAT(rec.full == 1 - i && rec.inapplicable == i && rec.call && rec.call->fromLoc.line() == line, "location");
			CHECK_THAT(rec.call->argDetails.size() == 1 && rec.call->argDetails[0].stateString == "S" && rec.call->returnTypeIndex == typeid(int), "parts");
		}
		sym::reach("other outcomes");
		break;
	}
	}
}

struct Req
{
	int k;
	static bool is_satisfied() noexcept { return true; }
	bool matches(const auto& info) const { return ((std::get<0>(info.args).get().v >> k) & 1u) != 0; }
	std::optional<StringT> describe() const
	{
		if (k == 2)
			return std::nullopt;
		return StringT{k == 0 ? "first" : "second"};
	}
	static void consume(const auto&) {}
};

HARNESS(match_report)
{
	setup();
	Mock<void(Sym)> mock{};
	const int min = sym::choice("min", 3), extra = sym::choice("extra", 4);
	const int max = extra == 3 ? std::numeric_limits<int>::max() : min + extra;
	SequenceT q0{}, q1{};
	const int seqs = sym::choice("sequences", 4); // 3: behind an unsatisfied element of q1
	std::optional<ScopedExpectation> head{};
	Mock<void(Other)> otherMock{};
	if (seqs == 3)
		head.emplace(otherMock.expect_call(m::_) && expect::in_sequence(q1));
	std::optional<ScopedExpectation> e{};
	auto base = [&] { return mock.expect_call(m::_) && Req{0} && expect::times(min, max) && Req{2} && Req{1}; };
	if (seqs == 0)
		e.emplace(finalize_at(base(), 5));
	else if (seqs == 1)
		e.emplace(finalize_at(base() && expect::in_sequence(q0), 5));
	else
		e.emplace(finalize_at(base() && expect::in_sequences(q0, q1), 5));
	int count = 0;
	for (int c = 0; c < 3; ++c)
	{
		const Sym s{sym::make<U>("s")};
		rec = Rec{};
		const Outcome o = attempt([&] { mock(s); });
		CHECK_THAT(rec.full + rec.noMatch + rec.inapplicable == 1 && rec.reports.size() == 1, "one report with one entry");
		const MatchReport& r = rec.reports[0];
		CHECK_THAT(r.sourceLocation && same_loc(*r.sourceLocation, locs[5]), "location of the expectation");
		const bool v[4]{true, (s.v & 1u) != 0, (s.v & 4u) != 0, (s.v & 2u) != 0};
		const std::optional<StringT> d[4]{StringT{"expect: arg[0] has no constraints"}, StringT{"first"}, std::nullopt, StringT{"second"}};
		std::size_t next = 0;
		for (const auto& x : r.expectationReports)
		{
			if (x.description && x.description->starts_with("expect: from ")) // the overload requirements of the mock itself
			{
				CHECK_THAT(x.isMatching, "called through the right overload");
				continue;
			}
			CHECK_THAT(next < 4 && x.isMatching == v[next] && x.description == d[next], "every requirement, in order, with its own verdict and description");
			++next;
		}
		CHECK_THAT(next == 4, "every requirement");
		const bool all = v[0] && v[1] && v[2] && v[3];
		const MatchResult want = !all ? MatchResult::none : count < max && seqs != 3 ? MatchResult::full : MatchResult::inapplicable;
		CHECK_THAT(evaluate_match_report(r) == want, "classification");
		CHECK_THAT(o == (want == MatchResult::full ? Outcome::ok : want == MatchResult::none ? Outcome::noMatch : Outcome::inapplicable), "outcome");
		const std::size_t n = seqs == 3 ? 2u : static_cast<std::size_t>(seqs);
		if (count == max)
		{
			auto* st = std::get_if<state_saturated>(&r.controlReport);
			CHECK_THAT(st && st->min == min && st->max == max && st->count == count, "saturated, numbers");
			CHECK_THAT(st->sequences.size() == n, "its sequences");
			if (n)
				CHECK_THAT(st->sequences[0] == q0.tag() && (n == 1 || st->sequences[1] == q1.tag()), "tags in order");
			sym::reach("saturated");
		}
		else if (seqs == 3)
		{
			auto* st = std::get_if<state_inapplicable>(&r.controlReport);
			CHECK_THAT(st && st->min == min && st->max == max && st->count == count, "inapplicable, numbers");
			CHECK_THAT(st->inapplicableSequences.size() == 1 && st->inapplicableSequences[0] == q1.tag(), "blocking sequence");
			CHECK_THAT(st->sequenceRatings.size() == 1 && st->sequenceRatings[0].tag == q0.tag(), "the other one");
			sym::reach("inapplicable");
		}
		else
		{
			auto* st = std::get_if<state_applicable>(&r.controlReport);
			CHECK_THAT(st && st->min == min && st->max == max && st->count == count, "applicable, numbers");
			CHECK_THAT(st->sequenceRatings.size() == n, "its sequences");
			if (n)
				CHECK_THAT(st->sequenceRatings[0].tag == q0.tag() && (n == 1 || st->sequenceRatings[1].tag == q1.tag()), "tags in order");
			sym::reach("applicable");
		}
		if (want == MatchResult::full)
			++count;
	}
	rec = Rec{};
	e.reset();
	CHECK_THAT(rec.unfulfilled == (count < min ? 1 : 0), "unfulfilled");
	if (rec.unfulfilled)
	{
		CHECK_THAT(rec.expectation->sourceLocation && same_loc(*rec.expectation->sourceLocation, locs[5]), "location");
		const std::optional<StringT> d[4]{StringT{"expect: arg[0] has no constraints"}, StringT{"first"}, std::nullopt, StringT{"second"}};
		std::size_t next = 0;
		for (const auto& x : rec.expectation->expectationDescriptions)
			if (!(x && x->starts_with("expect: from ")))
			{
				CHECK_THAT(next < 4 && x == d[next], "every description, in order");
				++next;
			}
		CHECK_THAT(next == 4, "every description");
		CHECK_THAT(rec.expectation->timesDescription.has_value(), "times");
		sym::reach("unfulfilled");
	}
}

template <int n>
static control_state_t any_state(const char* name)
{
	const int a = sym::make<int>(name), b = sym::make<int>(name), c = sym::make<int>(name);
	if constexpr (n == 0)
		return state_inapplicable{a, b, c, {}, {}};
	else if constexpr (n == 1)
		return state_applicable{a, b, c, {}};
	else
		return state_saturated{a, b, c, {}};
}

HARNESS(evaluate)
{
	const int n = sym::choice("n", 5);
	MatchReport r{};
	bool all = true;
	for (int i = 0; i < n; ++i)
	{
		const bool v = sym::make<bool>("v");
		all = all & v;
		r.expectationReports.push_back({v, i % 2 ? std::optional<StringT>{"d"} : std::nullopt});
	}
	const int kind = sym::choice("state", 3);
	r.controlReport = kind == 0 ? any_state<0>("k") : kind == 1 ? any_state<1>("k") : any_state<2>("k");
	if (sym::flag("location"))
		r.sourceLocation = locs[0];
	const MatchResult got = evaluate_match_report(r);
	if (!all)
		CHECK_THAT(got == MatchResult::none, "none iff some requirement rejects");
	else
		CHECK_THAT(got == (kind == 1 ? MatchResult::full : MatchResult::inapplicable), "full iff applicable");
	sym::reach("evaluated");
}

// ---------------------------------------------------------------- equality
static std::vector<sequence::rating> ratings(const char* name, int n)
{
	std::vector<sequence::rating> v{};
	for (int i = 0; i < n; ++i)
		v.push_back({sym::make<int>(name), sequence::Tag{static_cast<std::ptrdiff_t>(sym::make<std::uint64_t>(name))}});
	return v;
}
static std::vector<sequence::Tag> tags(const char* name, int n)
{
	std::vector<sequence::Tag> v{};
	for (int i = 0; i < n; ++i)
		v.push_back(sequence::Tag{static_cast<std::ptrdiff_t>(sym::make<std::uint64_t>(name))});
	return v;
}
static bool eq(const std::vector<sequence::rating>& a, const std::vector<sequence::rating>& b)
{
	bool r = a.size() == b.size();
	for (std::size_t i = 0; r && i < a.size(); ++i)
		r = (a[i].priority == b[i].priority) & (a[i].tag == b[i].tag);
	return r;
}
static bool eq(const std::vector<sequence::Tag>& a, const std::vector<sequence::Tag>& b)
{
	bool r = a.size() == b.size();
	for (std::size_t i = 0; r && i < a.size(); ++i)
		r = a[i] == b[i];
	return r;
}
static std::optional<StringT> text(const char* name, int n)
{
	if (n == 0)
		return std::nullopt;
	StringT s{};
	for (int i = 1; i < n; ++i)
		s.push_back(sym::make<char>(name));
	return s;
}
static bool eq(const std::optional<StringT>& a, const std::optional<StringT>& b)
{
	if (!a || !b)
		return !a && !b;
	bool r = a->size() == b->size();
	for (std::size_t i = 0; r && i < a->size(); ++i)
		r = (*a)[i] == (*b)[i];
	return r;
}
template <typename T>
static void verdict(const T& a, const T& b, bool want)
{
	CHECK_THAT((a == b) == want, "equal exactly if all parts are equal");
	CHECK_THAT((b == a) == want && (a != b) == !want, "symmetric, and != is the negation");
	CHECK_THAT(a == a && b == b, "reflexive");
	if (want)
		sym::reach("equal");
	else
		sym::reach("different");
}

HARNESS(equal_states)
{
	const int a0 = sym::make<int>("a"), a1 = sym::make<int>("a"), a2 = sym::make<int>("a");
	const int b0 = sym::make<int>("b"), b1 = sym::make<int>("b"), b2 = sym::make<int>("b");
	const bool nums = (a0 == b0) & (a1 == b1) & (a2 == b2);
	const int na = sym::choice("na", 3), nb = sym::choice("nb", 3);
	switch (sym::choice("kind", 5))
	{
	case 0:
	{
		state_applicable a{a0, a1, a2, ratings("ra", na)}, b{b0, b1, b2, ratings("rb", nb)};
		const bool want = nums && eq(a.sequenceRatings, b.sequenceRatings);
		verdict(a, b, want);
		verdict(control_state_t{a}, control_state_t{b}, want);
		break;
	}
	case 1:
	{
		state_saturated a{a0, a1, a2, tags("ta", na)}, b{b0, b1, b2, tags("tb", nb)};
		const bool want = nums && eq(a.sequences, b.sequences);
		verdict(a, b, want);
		verdict(control_state_t{a}, control_state_t{b}, want);
		break;
	}
	case 2:
	{
		state_inapplicable a{a0, a1, a2, ratings("ra", na), tags("ta", nb)}, b{b0, b1, b2, ratings("rb", na), tags("tb", nb)};
		const bool want = nums && eq(a.sequenceRatings, b.sequenceRatings) && eq(a.inapplicableSequences, b.inapplicableSequences);
		verdict(a, b, want);
		break;
	}
	case 3:
	{
		state_inapplicable a{a0, a1, a2, ratings("ra", na), tags("ta", 1)}, b{b0, b1, b2, ratings("rb", nb), tags("tb", 1)};
		const bool want = nums && eq(a.sequenceRatings, b.sequenceRatings) && eq(a.inapplicableSequences, b.inapplicableSequences);
		verdict(a, b, want);
		break;
	}
	default:
		// different kinds never compare equal
		verdict(control_state_t{state_applicable{a0, a1, a2, {}}}, control_state_t{state_saturated{b0, b1, b2, {}}}, false);
		verdict(control_state_t{state_applicable{a0, a1, a2, {}}}, control_state_t{state_inapplicable{b0, b1, b2, {}, {}}}, false);
		verdict(control_state_t{state_saturated{a0, a1, a2, {}}}, control_state_t{state_inapplicable{b0, b1, b2, {}, {}}}, false);
		break;
	}
}

static std::optional<std::source_location> maybe_loc(int k)
{
	if (k == 6)
		return std::nullopt;
	return k == 5 ? loc_in_function<0>() : loc_variant(k);
}
static bool eq(const std::optional<std::source_location>& a, const std::optional<std::source_location>& b)
{
	if (!a || !b)
		return !a && !b;
	return same_loc(*a, *b);
}

HARNESS(equal_expectation_report)
{
	ExpectationReport a{}, b{};
	a.sourceLocation = maybe_loc(sym::flag("la") ? 6 : 0);
	b.sourceLocation = maybe_loc(sym::choice("lb", 7));
	const int which = sym::choice("which", 3);
	const int n0 = sym::choice("n", 4), n1 = sym::choice("n", 4);
	a.finalizerDescription = text("fa", which == 0 ? n0 : 2);
	b.finalizerDescription = text("fb", which == 0 ? n1 : 2);
	a.timesDescription = text("ta", which == 1 ? n0 : 2);
	b.timesDescription = text("tb", which == 1 ? n1 : 2);
	if (which == 2)
	{
		// lists: 0, 1 or 2 elements, elements absent or one character
		for (int i = 0; i < (n0 + 1) / 2; ++i)
			a.expectationDescriptions.push_back(text("da", n0 % 2 && i == 0 ? 0 : 2));
		for (int i = 0; i < (n1 + 1) / 2; ++i)
			b.expectationDescriptions.push_back(text("db", n1 % 2 && i == 0 ? 0 : 2));
	}
	bool want = eq(a.sourceLocation, b.sourceLocation) && eq(a.finalizerDescription, b.finalizerDescription) && eq(a.timesDescription, b.timesDescription)
				&& a.expectationDescriptions.size() == b.expectationDescriptions.size();
	for (std::size_t i = 0; want && i < a.expectationDescriptions.size(); ++i)
		want = eq(a.expectationDescriptions[i], b.expectationDescriptions[i]);
	verdict(a, b, want);
}

HARNESS(equal_match_report)
{
	MatchReport a{}, b{};
	a.sourceLocation = maybe_loc(sym::flag("la") ? 6 : 0);
	b.sourceLocation = maybe_loc(sym::choice("lb", 7));
	const int which = sym::choice("which", 3);
	const int n0 = sym::choice("n", 4), n1 = sym::choice("n", 4);
	a.finalizeReport.description = text("fa", which == 0 ? n0 : 2);
	b.finalizeReport.description = text("fb", which == 0 ? n1 : 2);
	const int ca = sym::make<int>("ca"), cb = sym::make<int>("cb");
	auto state = [](int kind, int c) -> control_state_t {
		if (kind == 0)
			return state_applicable{0, 2, c, {}};
		if (kind == 1)
			return state_saturated{0, 2, c, {}};
		if (kind == 2)
			return state_inapplicable{0, 2, c, {}, {}};
		return state_applicable{c, 2, 0, {}};
	};
	const int ka = which == 1 ? n0 : 0, kb = which == 1 ? n1 : 0;
	a.controlReport = state(ka, ca);
	b.controlReport = state(kb, cb);
	bool sameState = ka == kb && ca == cb;
	if ((ka == 0 && kb == 3) || (ka == 3 && kb == 0))
		sameState = ca == 0 && cb == 0;
	if (which == 2)
	{
		for (int i = 0; i < (n0 + 1) / 2; ++i)
			a.expectationReports.push_back({sym::make<bool>("ma"), text("da", n0 % 2 && i == 0 ? 0 : 2)});
		for (int i = 0; i < (n1 + 1) / 2; ++i)
			b.expectationReports.push_back({sym::make<bool>("mb"), text("db", n1 % 2 && i == 0 ? 0 : 2)});
	}
	bool want = eq(a.sourceLocation, b.sourceLocation) && eq(a.finalizeReport.description, b.finalizeReport.description) && sameState
				&& a.expectationReports.size() == b.expectationReports.size();
	for (std::size_t i = 0; want && i < a.expectationReports.size(); ++i)
		want = a.expectationReports[i].isMatching == b.expectationReports[i].isMatching && eq(a.expectationReports[i].description, b.expectationReports[i].description);
	verdict(a, b, want);
}

HARNESS(equal_call_report)
{
	const std::type_index types[]{typeid(int), typeid(Sym), typeid(void)};
	auto mk = [&](const char* t, int loc, int n, int ret, int ty, int len) {
		CallReport r{.returnTypeIndex = types[ret]};
		r.fromLoc = *maybe_loc(loc);
		r.fromCategory = static_cast<ValueCategory>(sym::range<std::uint8_t>(t, 0, 2));
		r.fromConstness = static_cast<Constness>(sym::range<std::uint8_t>(t, 0, 2));
		for (int i = 0; i < n; ++i)
		{
			StringT s = *text(t, len + 1);
			r.argDetails.push_back(CallReport::Arg{types[i == 0 ? ty : 0], s});
		}
		return r;
	};
	const CallReport a = mk("a", 0, 1, 0, 0, 1);
	CallReport b = a;
	switch (sym::choice("vary", 4))
	{
	case 0: b = mk("b", sym::choice("lb", 6), 1, 0, 0, 1); break;
	case 1: b = mk("b", 0, sym::choice("nb", 3), 0, 0, 1); break;
	case 2:
	{
		const int rb = sym::choice("rb", 3), tb = sym::choice("tb", 2);
		b = mk("b", 0, 1, rb, tb, 1);
		break;
	}
	default: b = mk("b", 0, 1, 0, 0, sym::choice("len", 3)); break;
	}
	bool want = (a.returnTypeIndex == b.returnTypeIndex) && same_loc(a.fromLoc, b.fromLoc) && a.fromCategory == b.fromCategory && a.fromConstness == b.fromConstness
				&& a.argDetails.size() == b.argDetails.size();
	for (std::size_t i = 0; want && i < a.argDetails.size(); ++i)
		want = a.argDetails[i].typeIndex == b.argDetails[i].typeIndex && eq(std::optional{a.argDetails[i].stateString}, std::optional{b.argDetails[i].stateString});
	verdict(a, b, want);
}

HARNESS(equal_call_args)
{
	const std::type_index types[]{typeid(int), typeid(Sym)};
	constexpr int maxArgs = THOROUGH ? 3 : 2;
	auto mk = [&](const char* t) {
		CallReport r{.returnTypeIndex = types[0]};
		r.fromLoc = locs[0];
		const int n = sym::choice("n", maxArgs + 2);
		for (int i = 0; i < n; ++i)
		{
			const int type = i < maxArgs ? sym::choice("type", 2) : 0;
			r.argDetails.push_back(CallReport::Arg{types[type], *text(t, 2)});
		}
		return r;
	};
	const CallReport a = mk("a");
	const CallReport b = mk("b");
	bool want = a.argDetails.size() == b.argDetails.size();
	for (std::size_t i = 0; want && i < a.argDetails.size(); ++i)
		want = (a.argDetails[i].typeIndex == b.argDetails[i].typeIndex) && (a.argDetails[i].stateString[0] == b.argDetails[i].stateString[0]);
	verdict(a, b, want);
}

HARNESS(equal_call_info)
{
	Sym x{sym::make<U>("x")}, y{x.v};
	Sym* obj[]{&x, &y};
	const int a0 = sym::choice("a0", 2), a1 = sym::choice("a1", 2), b0 = sym::choice("b0", 2), b1 = sym::choice("b1", 2);
	const auto ca = static_cast<ValueCategory>(sym::range<std::uint8_t>("ca", 0, 2)), cb = static_cast<ValueCategory>(sym::range<std::uint8_t>("cb", 0, 2));
	const auto ka = static_cast<Constness>(sym::range<std::uint8_t>("ka", 0, 2)), kb = static_cast<Constness>(sym::range<std::uint8_t>("kb", 0, 2));
	const int lb = sym::choice("lb", 6);
	const std::source_location la = loc_variant(0), l = *maybe_loc(lb);
	const bool rest = ca == cb && ka == kb && same_loc(la, l);
	switch (sym::choice("params", 3))
	{
	case 0:
	{
		using I = call::Info<void>;
		verdict(I{.args = {}, .fromCategory = ca, .fromConstness = ka, .fromSourceLocation = la}, I{.args = {}, .fromCategory = cb, .fromConstness = kb, .fromSourceLocation = l}, rest);
		break;
	}
	case 1:
	{
		using I = call::Info<int, Sym&>;
		verdict(I{.args = {*obj[a0]}, .fromCategory = ca, .fromConstness = ka, .fromSourceLocation = la}, I{.args = {*obj[b0]}, .fromCategory = cb, .fromConstness = kb, .fromSourceLocation = l},
			rest && a0 == b0); // identity of the arguments, not their value
		break;
	}
	default:
	{
		using I = call::Info<int, const Sym&, Sym>;
		verdict(I{.args = {*obj[a0], *obj[a1]}, .fromCategory = ca, .fromConstness = ka, .fromSourceLocation = la},
			I{.args = {*obj[b0], *obj[b1]}, .fromCategory = cb, .fromConstness = kb, .fromSourceLocation = l}, rest && a0 == b0 && a1 == b1);
		break;
	}
	}
}

HARNESS(locations)
{
	const int i = sym::choice("i", 7), j = sym::choice("j", 7);
	auto get = [](int k) { return k == 5 ? loc_in_function<0>() : k == 6 ? loc_in_function<1>() : loc_variant(k); };
	const auto a = get(i), b = get(j);
	const bool want = same_loc(a, b);
	CHECK_THAT(want == (i == j || (i == 0 && j == 4) || (i == 4 && j == 0)), "the test locations differ in one component");
	CHECK_THAT(is_same_source_location(a, b) == want, "same exactly if all components are the same");
	sym::reach("location");
}

// a report shows the arguments as the caller passed them, whatever the match does to them
struct Ch
{
	char c;
	friend bool operator==(const Ch&, const Ch&) = default;
};
template <>
struct mimicpp::custom::Printer<Ch>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Ch& v)
	{
		*out++ = v.c;
		return out;
	}
};
HARNESS(before_effects)
{
	setup();
	clear_rec();
	Mock<int(Ch&, Ch, Ch&&)> mock{};
	const Ch a{sym::make<char>("a")}, b{sym::make<char>("b")}, c{sym::make<char>("c")};
	const bool match = sym::flag("match");
	const bool effect = sym::flag("effect");
	ScopedExpectation exp = mock.expect_call(m::_, m::_, m::_)
						 && expect::arg<0>(m::predicate([&](const Ch&) { return match; }))
						 && expect::at_most(1)
						 && then::apply_all([&](Ch& x, Ch& y, Ch& z) {
								CHECK_THAT(x == a && y == b && z == c, "the side effect sees what was passed");
								if (effect)
									x.c = y.c = z.c = '!';
							})
						 && finally::returns_apply_result_of<0>([&](Ch& x) {
								x.c = '?';
								return 7;
							});
	Ch x{a}, z{c};
	const Outcome o = attempt([&] { CHECK_THAT(mock(x, b, std::move(z)) == 7, "result"); });
	CHECK_THAT(o == (match ? Outcome::ok : Outcome::noMatch), "outcome");
	CHECK_THAT(rec.total() == 1 && rec.call && rec.call->argDetails.size() == 3, "one report");
	const StringT want[3]{StringT(1, a.c), StringT(1, b.c), StringT(1, c.c)};
	for (std::size_t i = 0; i < 3; ++i)
		CHECK_THAT(rec.call->argDetails[i].stateString == want[i], "the arguments as passed");
	if (match)
	{
		CHECK_THAT(x.c == '?', "changed afterwards");
		auto* st = std::get_if<state_applicable>(&rec.reports[0].controlReport);
		CHECK_THAT(st && st->count == 0 && st->max == 1, "the state before the call");
		sym::reach("changed after the report");
	}
}

// calls with many arguments of different types, and expectations with many requirements
HARNESS(many_arguments)
{
	setup();
	using L = std::int64_t;
	const auto id = []<typename T>(std::type_identity<T>) { return std::type_index{typeid(T)}; };
	const char c0 = sym::make<char>("c0"), c1 = sym::make<char>("c1"), c2 = sym::make<char>("c2");
	for (char c : {c0, c1, c2})
		sym::assume(c >= 'a' && c <= 'z');
	Mock<short(char, const StringT&, Sym, Other&, bool, StringT, char, const Sym&, Other)> mock{};
	Other o{1};
	StringT text{"x"};
	text[0] = c1;
	constexpr int reqs = 9;
	const U accept = sym::make<U>("accept");
	auto p = [&](int i) { return m::predicate([=](const auto&) { return ((accept >> i) & 1u) != 0; }); };
	ScopedExpectation e = mock.expect_call(p(0), p(1), p(2), p(3), p(4), p(5), p(6), p(7), p(8))
						&& finally::returns(short{4}) && expect::at_least(0);
	clear_rec();
	const Outcome out = attempt([&] { (void)mock(c0, text, Sym{1}, o, true, StringT{c2}, c2, Sym{3}, Other{2}); });
	bool all = true;
	for (int i = 0; i < reqs; ++i)
		all = all && ((accept >> i) & 1u) != 0;
	CHECK_THAT(out == (all ? Outcome::ok : Outcome::noMatch) && rec.call && rec.reports.size() == 1, "reported");
	const CallReport& r = *rec.call;
	CHECK_THAT(r.returnTypeIndex == id(std::type_identity<short>{}) && r.argDetails.size() == 9, "every argument");
	const std::type_index types[9]{id(std::type_identity<char>{}), id(std::type_identity<StringT>{}), id(std::type_identity<Sym>{}), id(std::type_identity<Other>{}), id(std::type_identity<bool>{}),
								   id(std::type_identity<StringT>{}), id(std::type_identity<char>{}), id(std::type_identity<Sym>{}), id(std::type_identity<Other>{})};
	const StringT texts[9]{StringT{c0}, StringT{'"'} + c1 + '"', "S", "Ot", "true", StringT{'"'} + c2 + '"', StringT{c2}, "S", "Ot"};
	for (std::size_t i = 0; i < 9; ++i)
		CHECK_THAT(r.argDetails[i].typeIndex == types[i] && r.argDetails[i].stateString == texts[i], "type and text of every argument, in order");
	const auto& ex = rec.reports[0].expectationReports;
	int described = 0, accepted = 0;
	for (const auto& x : ex)
		if (x.description && x.description->find("overload") == StringT::npos)
		{
			CHECK_THAT(x.isMatching == (((accept >> described) & 1u) != 0), "its own verdict, in order");
			CHECK_THAT(*x.description == StringT{"expect: arg["} + static_cast<char>('0' + described) + "] passes predicate", "the requirement names its argument");
			++described;
			accepted += x.isMatching ? 1 : 0;
		}
	int want = 0;
	for (int i = 0; i < reqs; ++i)
		want += static_cast<int>((accept >> i) & 1u);
	CHECK_THAT(described == reqs && accepted == want, "every requirement and its verdict");
	sym::observe("accepted", static_cast<std::uint64_t>(accepted));
	if (all)
		sym::reach("nine accepted");
	else
		sym::reach("nine arguments");
	__sym_done();
}

// ---- the requirement of the overload
template <typename F>
static void overload_of(const char* category, const char* constness)
{
	Mock<F> mock{};
	const bool reject = sym::flag("reject");
	const U v = sym::make<U>("v");
	auto expect = [&] {
		if constexpr (std::is_invocable_v<Mock<F>&, Sym>)
			return ScopedExpectation{mock.expect_call(m::predicate([=](const auto&) { return !reject; })) && expect::at_least(0)};
		else if constexpr (std::is_invocable_v<const Mock<F>&&, Sym>)
			return ScopedExpectation{std::move(std::as_const(mock)).expect_call(m::predicate([=](const auto&) { return !reject; })) && expect::at_least(0)};
		else
			return ScopedExpectation{std::move(mock).expect_call(m::predicate([=](const auto&) { return !reject; })) && expect::at_least(0)};
	};
	ScopedExpectation e = expect();
	clear_rec();
	const Outcome out = attempt([&] {
		if constexpr (std::is_invocable_v<Mock<F>&, Sym>)
			mock(Sym{v});
		else
			std::move(mock)(Sym{v});
	});
	CHECK_THAT(out == (reject ? Outcome::noMatch : Outcome::ok) && rec.reports.size() == 1, "reported");
	const StringT wantCategory = StringT{"expect: from "} + category + " category overload";
	const StringT wantConstness = StringT{"expect: from "} + constness + " qualified overload";
	int categories = 0, constnesses = 0;
	for (const auto& x : rec.reports[0].expectationReports)
		if (x.description && x.description->find("overload") != StringT::npos)
		{
			CHECK_THAT(x.isMatching, "the overload matches");
			categories += *x.description == wantCategory;
			constnesses += *x.description == wantConstness;
			CHECK_THAT(*x.description == wantCategory || *x.description == wantConstness, "no other overload requirement");
		}
	CHECK_THAT(categories == 1 && constnesses == 1, "the overload the expectation was declared for");
	sym::reach("overload");
	__sym_done();
}
HARNESS(overloads)
{
	setup();
	switch (sym::choice("signature", 7))
	{
	case 0: return overload_of<void(Sym)>("any", "mutable");
	case 1: return overload_of<void(Sym) const>("any", "const");
	case 2: return overload_of<void(Sym) &>("lvalue", "mutable");
	case 3: return overload_of<void(Sym) const&>("lvalue", "const");
	case 4: return overload_of<void(Sym) &&>("rvalue", "mutable");
	case 5: return overload_of<void(Sym) const&&>("rvalue", "const");
	default: break;
	}
	// the noexcept forms accept the call (a failure would end the program)
	Mock<void(Sym) noexcept> plain{};
	Mock<void(Sym) const& noexcept> cref{};
	Mock<void(Sym) && noexcept> rval{};
	const int which = sym::choice("noexcept", 3);
	ScopedExpectation e = which == 0 ? ScopedExpectation{plain.expect_call(m::_)} : which == 1 ? ScopedExpectation{cref.expect_call(m::_)} : ScopedExpectation{std::move(rval).expect_call(m::_)};
	clear_rec();
	if (which == 0)
		plain(Sym{1});
	else if (which == 1)
		cref(Sym{1});
	else
		std::move(rval)(Sym{1});
	CHECK_THAT(rec.reports.size() == 1, "reported");
	const StringT text = print(rec.reports[0]);
	static const char* const categories[]{"from any category overload", "from lvalue category overload", "from rvalue category overload"};
	static const char* const constnesses[]{"from mutable qualified overload", "from const qualified overload", "from mutable qualified overload"};
	CHECK_THAT(text.find(categories[which]) != StringT::npos && text.find(constnesses[which]) != StringT::npos, "the overload the expectation was declared for");
	sym::reach("noexcept overload");
	__sym_done();
}

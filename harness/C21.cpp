// BOUNDS: routing: every history of 4 (thorough 5) steps, each installing one of two reporter types or producing one of the six outcomes through real mocks
// BOUNDS: default_reporter, basic_reporter: each outcome through real mocks with 0..2 expectations, arbitrary arguments, with and without output stream
// BOUNDS: default_reporter, basic_texts: 10 kinds of exceptions (derived from std::exception in several ways, or not), error texts of 0..3 arbitrary characters
// BOUNDS: failed_install: the constructor of the reporter to be installed throws, after 0..2 installations
// BOUNDS: in_flight: unfulfilled expectations and errors outside of any exception, while one is propagating, inside a handler, and in a destructor run by a propagating exception
// OUTSIDE: adapters of test frameworks (C28)
#include "routing.hpp"
using Scenario = ScenarioOf<Sym>;

static void same_text(const StringT& got, const StringT& want, const char* what)
{
	CHECK_THAT(got == want, what);
}

HARNESS(routing)
{
	static const char* const names[]{"s0", "s1", "s2", "s3", "s4"};
	for (auto& c : counters)
		c = Counter{};
	made = 0;
	int want[8][6]{};
	install_reporter<Routed<0>>(made++);
	const int steps = THOROUGH ? 5 : 4;
	for (int s = 0; s < steps; ++s)
	{
		const int op = sym::choice(names[s], 8);
		if (op == 6)
			install_reporter<Routed<0>>(made++);
		else if (op == 7)
			install_reporter<Routed<1>>(made++);
		else
		{
			Scenario sc{};
			try
			{
				sc.run(static_cast<Kind>(op));
			}
			catch (const NoMatchEx&)
			{
			}
			catch (const InapplicableEx&)
			{
			}
			++want[made - 1][op];
			if (op == kUnhandled)
				++want[made - 1][kFull]; // the other expectation takes the call
		}
		for (int i = 0; i < made; ++i)
		{
			CHECK_THAT(counters[i].made == 1 && counters[i].alive == (i == made - 1 ? 1 : 0) && counters[i].destroyed == (i == made - 1 ? 0 : 1),
				"only the most recently installed reporter is alive, the former ones were destroyed once");
			for (int k = 0; k < 6; ++k)
				CHECK_THAT(counters[i].got[k] == want[i][k], "the active reporter gets every outcome exactly once, the others none");
		}
	}
	install_reporter<RecReporter>();
	CHECK_THAT(counters[made - 1].alive == 0, "destroyed when replaced");
	sym::reach("routing");
}

// a reporter that can not be constructed never becomes active, and the former one stays
struct CtorEx {};
class Unconstructible final : public IReporter
{
public:
	explicit Unconstructible(bool fail)
	{
		if (fail)
			throw CtorEx{};
	}
	[[noreturn]] void report_no_matches(CallReport, std::vector<MatchReport>) override { throw 1; }
	[[noreturn]] void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override { throw 1; }
	void report_full_match(CallReport, MatchReport) noexcept override {}
	void report_unfulfilled_expectation(ExpectationReport) override {}
	void report_error(StringT) override {}
	void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override {}
};
HARNESS(failed_install)
{
	for (auto& c : counters)
		c = Counter{};
	made = 0;
	install_reporter<Routed<0>>(made++);
	const int more = sym::choice("more", 3);
	for (int i = 0; i < more; ++i)
		install_reporter<Routed<1>>(made++);
	bool thrown = false;
	try
	{
		install_reporter<Unconstructible>(true);
	}
	catch (const CtorEx&)
	{
		thrown = true;
	}
	CHECK_THAT(thrown, "the failure reaches the user");
	const int kind = sym::choice("outcome", 6);
	{
		Scenario sc{};
		try
		{
			sc.run(static_cast<Kind>(kind));
		}
		catch (const NoMatchEx&)
		{
		}
		catch (const InapplicableEx&)
		{
		}
	}
	for (int i = 0; i < made; ++i)
	{
		CHECK_THAT(counters[i].alive == (i == made - 1 ? 1 : 0), "the most recently installed reporter stays");
		CHECK_THAT(counters[i].got[kind] == (i == made - 1 ? 1 : 0), "and gets the outcome");
	}
	install_reporter<RecReporter>();
	sym::reach("failed install");
}

// ---- what the default reporter throws and prints
static ExpectationReport expectation_report(const std::source_location& loc)
{
	return ExpectationReport{
		.sourceLocation = loc,
		.timesDescription = "matched never - exactly once is expected",
		.expectationDescriptions = {"expect: from any category overload", "expect: from mutable qualified overload", std::nullopt}};
}

// exceptions of several kinds with the text which describes each of them
class OwnException : public std::exception
{
public:
	explicit OwnException(StringT w) : m_What{std::move(w)} {}
	const char* what() const noexcept override { return m_What.c_str(); }

private:
	StringT m_What;
};
struct Both : public Ex, public OwnException
{
	explicit Both(StringT w) : Ex{1}, OwnException{std::move(w)} {}
};
class Hidden : std::exception
{
};
constexpr int exceptionKinds = 10;
static void throw_kind(int kind, const StringT& why)
{
	switch (kind)
	{
	case 0: throw std::runtime_error{why};
	case 1: throw std::logic_error{why};
	case 2: throw OwnException{why};
	case 3: throw Both{why};
	case 4: throw std::bad_alloc{};
	case 5: throw Ex{3};
	case 6: throw 42;
	case 7: throw why;
	case 8: throw Hidden{};
	default:
		try
		{
			throw Ex{2};
		}
		catch (...)
		{
			std::throw_with_nested(std::out_of_range{why});
		}
	}
}
static StringT kind_text(int kind, const StringT& why)
{
	if (kind == 4)
		return "what: std::bad_alloc\n";
	return kind < 4 || kind == 9 ? "what: " + why + "\n" : StringT{"Unknown exception type.\n"};
}
static StringT some_text(bool nul = false)
{
	StringT text(static_cast<std::size_t>(sym::choice("length", 4)), 'x');
	static const char* const names[]{"t0", "t1", "t2"};
	for (std::size_t i = 0; i < text.size(); ++i)
	{
		text[i] = sym::make<char>(names[i]);
		sym::assume(nul || text[i] != 0);
	}
	return text;
}

HARNESS(default_reporter)
{
	StringStreamT out{};
	const bool withStream = sym::flag("stream");
	install_reporter<DefaultReporter>(withStream ? &out : nullptr);
	const Sym x{sym::make<U>("x")};
	const Sym y{sym::make<U>("y")};
	const int n = sym::choice("expectations", 3);
	Mock<void(Sym)> mock{};
	StringT message{};
	const auto kind = static_cast<Kind>(sym::choice("kind", 6));
	switch (kind)
	{
	case kFull:
	{
		auto a = finalize_at(mock.expect_call(m::_), 0);
		mock(x);
		break;
	}
	case kNoMatch:
	case kInapplicable:
	{
		std::vector<ScopedExpectation> v{};
		const bool inapplicable = kind == kInapplicable;
		if (inapplicable && n == 0)
			return;
		sym::assume(inapplicable ? x == y : x != y);
		for (int i = 0; i < n; ++i)
			v.push_back(finalize_at(mock.expect_call(y) && e::times(0, inapplicable ? 0 : 1), i));
		bool thrown = false;
		std::uint_least32_t line{};
		try
		{
			mock(x), line = std::source_location::current().line();
		}
		catch (const UnmatchedCallT& err)
		{
			thrown = true;
			const auto& [call, reports] = err.data();
			CHECK_THAT(call.argDetails.size() == 1 && call.argDetails[0].stateString == "S" && call.returnTypeIndex == typeid(void), "the call is delivered");
			CHECK_THAT(reports.size() == static_cast<std::size_t>(n), "one report per expectation");
			StringT want{inapplicable ? "No applicable match for " : "No match for "};
			want += print(call) + "\n";
			if (inapplicable)
				want += "Tested expectations:\n";
			else if (n == 0)
				want += "No expectations available.\n";
			else
				want += print(n) + " available expectation(s):\n";
			for (int i = 0; i < n; ++i)
			{
				const auto& r = reports[static_cast<std::size_t>(i)];
				CHECK_THAT(loc_index(r.sourceLocation) == n - 1 - i, "each expectation once");
				CHECK_THAT(evaluate_match_report(r) == (inapplicable ? MatchResult::inapplicable : MatchResult::none), "with its verdict");
				want += print(r) + "\n";
			}
			same_text(err.what(), want, "the text of the failure");
			CHECK_THAT(err.where().line() == call.fromLoc.line() && StringViewT{err.where().file_name()} == call.fromLoc.file_name(), "the failure names the source location of the call");
			message = want + "\n";
		}
		CHECK_THAT(thrown, "an unmatched call is a failure");
		break;
	}
	case kUnfulfilled:
	{
		bool thrown = false;
		try
		{
			auto a = finalize_at(mock.expect_call(m::_), 5);
		}
		catch (const UnfulfilledExpectationT& err)
		{
			thrown = true;
			CHECK_THAT(loc_index(err.data().sourceLocation) == 5, "the expectation is delivered");
			CHECK_THAT(err.data().timesDescription == "matched never - exactly once is expected", "with its state");
			const StringT want = "Unfulfilled expectation:\n" + print(err.data()) + "\n";
			same_text(err.what(), want, "the text of the failure");
			message = want + "\n";
		}
		CHECK_THAT(thrown, "an unfulfilled expectation is a failure");
		break;
	}
	case kError:
	{
		const StringT text = some_text();
		bool thrown = false;
		try
		{
			mimicpp::detail::report_error(text);
		}
		catch (const Error<>& err)
		{
			thrown = true;
			same_text(err.what(), text, "the text of the error");
		}
		CHECK_THAT(thrown, "an error is a failure");
		message = text + "\n";
		break;
	}
	default:
	{
		const int thrown = sym::choice("thrown", exceptionKinds);
		auto a = finalize_at(mock.expect_call(m::_), 0);
		auto b = finalize_at(mock.expect_call(m::predicate([=](const Sym&) -> bool { throw_kind(thrown, "why"); return true; })) && e::times(0, 1), 1);
		std::source_location here{};
		mock(x), here = std::source_location::current();
		if (withStream)
		{
			const StringT got = out.str();
			const StringT head = "Unhandled exception: " + kind_text(thrown, "why") + "while checking expectation:\n";
			CHECK_THAT(got.starts_with(head), "an unhandled exception is described");
			CHECK_THAT(got.find(print(locs[1])) != StringT::npos, "with the expectation");
			CHECK_THAT(got.find("For call from ") != StringT::npos && got.find("value: S") != StringT::npos, "and the call");
			CHECK_THAT(got.find("Unhandled exception", 5) == StringT::npos, "once");
			message = got;
		}
		break;
	}
	}
	same_text(out.str(), withStream ? message : StringT{}, "exactly the text of the outcome is printed, once");
	sym::reach("default reporter");
}

// ---- the callback based reporter
struct Fail
{
};
struct Log
{
	int success{}, warning{}, fail{};
	StringT text{};
};
inline Log logd{};
using Basic = BasicReporter<
	[](const StringT& s) { ++logd.success, logd.text = s; },
	[](const StringT& s) { ++logd.warning, logd.text = s; },
	[](const StringT& s) { ++logd.fail, logd.text = s; throw Fail{}; }>;

HARNESS(basic_reporter)
{
	install_reporter<Basic>();
	logd = Log{};
	const auto kind = static_cast<Kind>(sym::choice("kind", 6));
	bool failed = false;
	{
		Scenario sc{};
		try
		{
			sc.run(kind);
		}
		catch (const Fail&)
		{
			failed = true;
		}
		const bool failure = kind == kNoMatch || kind == kInapplicable || kind == kUnfulfilled || kind == kError;
		CHECK_THAT(failed == failure, "exactly unmatched calls, unfulfilled expectations and errors are failures");
		CHECK_THAT(logd.fail == (failure ? 1 : 0), "every failure exactly once");
		CHECK_THAT(logd.warning == (kind == kUnhandled ? 1 : 0), "an unhandled exception is one warning");
		CHECK_THAT(logd.success == (kind == kFull || kind == kUnhandled ? 1 : 0), "a full match is one success");
		static const char* const heads[]{"Found match for call from ", "No match for call from ", "No applicable match for call from ", "Unfulfilled expectation:\nExpectation report:\nfrom: ", "an error", "Found match for call from "};
		CHECK_THAT(logd.text.starts_with(heads[kind]), "with the text of the outcome");
		if (kind == kError)
			CHECK_THAT(logd.text == "an error", "with the text of the outcome");
		else
			CHECK_THAT(logd.text.find(print(locs[0])) != StringT::npos, "which names the expectation");
	}
	CHECK_THAT(logd.fail <= 1, "no further failure");
	sym::reach("basic reporter");
}

// the texts handed to the callbacks are those of the reports
HARNESS(basic_texts)
{
	install_reporter<Basic>();
	logd = Log{};
	const CallReport call{.returnTypeIndex = typeid(void), .argDetails = {{typeid(int), StringT(1, sym::make<char>("v"))}}, .fromLoc = locs[4], .fromCategory = ValueCategory::lvalue, .fromConstness = Constness::as_const};
	const int n = sym::choice("reports", 3);
	std::vector<MatchReport> reports{};
	for (int i = 0; i < n; ++i)
	{
		MatchReport r{.sourceLocation = locs[i], .controlReport = state_saturated{1, 1, 1, {}}};
		r.expectationReports.push_back({true, StringT(1, sym::make<char>(i ? "d1" : "d0"))});
		reports.push_back(r);
	}
	StringT list{};
	for (const auto& r : reports)
		list += print(r) + "\n";
	ExpectationReport exp = expectation_report(locs[2]);
	auto fails = [](auto&& f) {
		bool failed = false;
		try
		{
			f();
		}
		catch (const Fail&)
		{
			failed = true;
		}
		return failed;
	};
	switch (sym::choice("kind", 6))
	{
	case 0:
		if (n == 0)
			return;
		CHECK_THAT(fails([&] { mimicpp::detail::report_inapplicable_matches(call, reports); }), "a failure");
		same_text(logd.text, "No applicable match for " + print(call) + "\nTested expectations:\n" + list, "text of inapplicable matches");
		break;
	case 1:
		for (auto& r : reports)
			r.expectationReports[0].isMatching = false;
		list.clear();
		for (const auto& r : reports)
			list += print(r) + "\n";
		CHECK_THAT(fails([&] { mimicpp::detail::report_no_matches(call, reports); }), "a failure");
		same_text(logd.text, "No match for " + print(call) + "\n" + (n ? print(n) + " available expectation(s):\n" : StringT{"No expectations available.\n"}) + list, "text of no match");
		break;
	case 2:
	{
		MatchReport r{.sourceLocation = locs[3], .controlReport = state_applicable{1, 1, 0, {}}};
		CHECK_THAT(!fails([&] { mimicpp::detail::report_full_match(call, r); }), "no failure");
		same_text(logd.text, "Found match for " + print(call) + "\n" + print(r) + "\n", "text of a match");
		break;
	}
	case 3:
		CHECK_THAT(fails([&] { mimicpp::detail::report_unfulfilled_expectation(exp); }), "a failure");
		same_text(logd.text, "Unfulfilled expectation:\n" + print(exp) + "\n", "text of an unfulfilled expectation");
		break;
	case 4:
	{
		const StringT text = some_text(true);
		CHECK_THAT(fails([&] { mimicpp::detail::report_error(text); }), "a failure");
		same_text(logd.text, text, "text of an error");
		break;
	}
	default:
	{
		const int thrown = sym::choice("thrown", exceptionKinds);
		const StringT why = some_text();
		std::exception_ptr p{};
		try
		{
			throw_kind(thrown, why);
		}
		catch (...)
		{
			p = std::current_exception();
		}
		CHECK_THAT(!fails([&] { mimicpp::detail::report_unhandled_exception(call, exp, p); }), "no failure");
		same_text(logd.text, "Unhandled exception: " + kind_text(thrown, why) + "while checking expectation:\n" + print(exp) + "\nFor " + print(call) + "\n", "text of an unhandled exception");
		break;
	}
	}
	sym::reach("basic texts");
}

// ---- exceptions in flight
struct Travel
{
};
template <typename F>
struct OnDestroy
{
	F f;
	~OnDestroy() noexcept(false) { f(); }
};

HARNESS(in_flight)
{
	const bool basic = sym::flag("basic");
	StringStreamT out{};
	if (basic)
		install_reporter<Basic>();
	else
		install_reporter<DefaultReporter>(&out);
	logd = Log{};
	const bool error = sym::flag("error");
	const int situation = sym::choice("situation", 5);
	Mock<void(Sym)> mock{};
	int raised = 0, travels = 0;
	auto produce = [&] {
		if (error)
			mimicpp::detail::report_error("an error");
		else
			auto a = finalize_at(mock.expect_call(m::_), 0);
	};
	auto guarded = [&](auto&& f) {
		try
		{
			f();
		}
		catch (const Fail&)
		{
			++raised;
		}
		catch (const UnfulfilledExpectationT&)
		{
			++raised;
		}
		catch (const Error<>&)
		{
			++raised;
		}
		catch (const Travel&)
		{
			++travels;
		}
	};
	bool expectRaise = false;
	switch (situation)
	{
	case 0: // nothing in flight
		expectRaise = true;
		guarded(produce);
		break;
	case 1: // the scope is left by another exception
		guarded([&] {
			OnDestroy d{[&] { produce(); }};
			throw Travel{};
		});
		break;
	case 2: // inside a handler nothing propagates any more
		expectRaise = true;
		try
		{
			throw Travel{};
		}
		catch (const Travel&)
		{
			guarded(produce);
			travels = 1;
		}
		break;
	case 3: // a failure could be handled inside the destructor, still the other exception is propagating
		guarded([&] {
			OnDestroy d{[&] { guarded(produce); }};
			throw Travel{};
		});
		break;
	default: // a failed call propagates
	{
		bool unmatched = false;
		try
		{
			auto a = finalize_at(mock.expect_call(Sym{1}), 0);
			mock(Sym{2});
		}
		catch (const Fail&)
		{
			unmatched = true;
		}
		catch (const UnmatchedCallT&)
		{
			unmatched = true;
		}
		CHECK_THAT(unmatched, "the first failure reaches the caller");
		CHECK_THAT(!basic || logd.fail == 1, "the first failure is the only one");
		logd = Log{};
		out.str("");
		break;
	}
	}
	CHECK_THAT(raised == (expectRaise ? 1 : 0), "failures are raised exactly if no exception is propagating");
	if (situation == 1 || situation == 2 || situation == 3)
		CHECK_THAT(travels == 1, "the propagating exception arrives");
	if (basic)
		CHECK_THAT(logd.fail == (expectRaise ? 1 : 0), "the callback is called exactly if no exception is propagating");
	else
		CHECK_THAT(out.str().empty() == !expectRaise, "the text is printed exactly if the failure is raised");
	sym::reach(expectRaise ? "raised" : "suppressed");
}

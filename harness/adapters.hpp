// Shared part of the C28 harnesses: the adapter header of one test framework (with the real headers of that framework)
// is included by each of them, the few functions of the framework's library are modelled there and record events.
#pragma once
#include "common.hpp"
#include <string>
using namespace mimicpp;
namespace m = mimicpp::matches;
using U = std::uint32_t;

namespace fw
{
	enum EventKind
	{
		fail,    // the running test case has failed
		success, // a passed assertion
		message  // shown, but does not influence the verdict
	};
	struct Event
	{
		EventKind kind;
		std::string text;
	};
	inline Event events[16]{};
	inline int count = 0;
	inline void add(EventKind k, std::string text)
	{
		events[count].kind = k;
		events[count].text = std::move(text);
		++count;
	}
}

enum Kind
{
	kFull,
	kNoMatch,
	kInapplicable,
	kUnfulfilled,
	kError,
	kUnhandled
};

struct PredicateEx
{
};

// produces one outcome
struct Scenario
{
	Mock<U(Sym)> mock{};
	std::optional<ScopedExpectation> a{}, b{};

	void run(Kind k, U arg, U operand)
	{
		switch (k)
		{
		case kFull:
			a.emplace(finalize_at(mock.expect_call(m::_) && finally::returns(operand), 0));
			CHECK_THAT(mock(Sym{arg}) == operand, "a success is not disturbed");
			break;
		case kNoMatch:
			a.emplace(finalize_at(mock.expect_call(m::_) && expect::arg<0>(m::predicate([=](const Sym& s) { return s.v == operand; })) && expect::times(0, 1) && finally::returns(1u), 0));
			(void)mock(Sym{arg});
			break;
		case kInapplicable:
			a.emplace(finalize_at(mock.expect_call(m::_) && expect::times(0) && finally::returns(1u), 0));
			(void)mock(Sym{arg});
			break;
		case kUnfulfilled:
			a.emplace(finalize_at(mock.expect_call(m::_) && finally::returns(1u), 0));
			{
				const ScopedExpectation gone{*std::move(a)};
				a.reset();
			}
			break;
		case kError:
			mimicpp::detail::report_error("an error");
			break;
		default:
			a.emplace(finalize_at(mock.expect_call(m::_) && finally::returns(operand), 0));
			b.emplace(finalize_at(mock.expect_call(m::predicate([](const Sym&) -> bool { throw PredicateEx{}; })) && expect::times(0, 1) && finally::returns(2u), 1));
			CHECK_THAT(mock(Sym{arg}) == operand, "a warning does not disturb the call");
			break;
		}
	}
};

// runs the scenario; true if it ended normally
inline bool produce(Kind k, U arg, U operand, bool inFlight)
{
	struct Marker
	{
	};
	struct Guard
	{
		Kind k;
		U arg, operand;
		bool on;
		~Guard()
		{
			if (on)
			{
				Scenario s{};
				s.run(k, arg, operand);
			}
		}
	};
	try
	{
		if (inFlight)
		{
			Guard g{k, arg, operand, true};
			throw Marker{};
		}
		Scenario s{};
		s.run(k, arg, operand);
		return true;
	}
	catch (const Marker&)
	{
		return true;
	}
	catch (...)
	{
		return false;
	}
}

// the texts as the generic reporter of the library delivers them (C21)
namespace reference
{
	inline std::string text[3]{};
	inline int n = 0;
	struct Stop
	{
	};
	inline void note(const StringT& s) { text[n++] = s; }
	[[noreturn]] inline void fail(const StringT& s)
	{
		text[n++] = s;
		throw Stop{};
	}
	using Reporter = BasicReporter<&note, &note, &fail>;
}

struct Style
{
	fw::EventKind success = fw::success;
	bool warns = true;
	const char* warningPrefix = "";
	bool zeros = true; // the framework itself can show texts with embedded zeros
};

template <typename ReporterT>
void adapter_history(const Style style, const int steps)
{
	static const char* const names[]{"s0", "s1", "s2"};
	for (int s = 0; s < steps; ++s)
	{
		const Kind k = static_cast<Kind>(sym::choice(names[s], 6));
		const bool inFlight = (k == kUnfulfilled || k == kError) && sym::flag("inFlight");
		const U arg = sym::make<U>("arg"), operand = sym::make<U>("operand");
		fw::count = 0;
		const bool normal = produce(k, arg, operand, inFlight); // with the reporter which the header installed by itself
		const int got = fw::count;
		reference::n = 0;
		if (!inFlight)
		{
			install_reporter<reference::Reporter>();
			(void)produce(k, arg, operand, false);
			CHECK_THAT(fw::count == got, "another reporter has replaced the adapter");
		}
		install_reporter<ReporterT>();

		const bool matches = k == kFull || k == kUnhandled || (k == kNoMatch && arg == operand);
		if (inFlight)
		{
			CHECK_THAT(normal && got == 0, "no second failure while an exception is propagating");
			sym::reach("in flight");
			continue;
		}
		if (k == kUnhandled)
		{
			CHECK_THAT(normal, "a warning does not end the test case");
			CHECK_THAT(reference::n == 2 && got == (style.warns ? 2 : 1), "warning and success");
			if (style.warns)
				CHECK_THAT(fw::events[0].kind == fw::message && fw::events[0].text == style.warningPrefix + reference::text[0], "warning");
			const fw::Event& e = fw::events[got - 1];
			CHECK_THAT(e.kind == style.success && e.text == reference::text[1], "success");
			sym::reach("warning");
		}
		else if (matches)
		{
			CHECK_THAT(normal && got == 1 && reference::n == 1, "one success");
			CHECK_THAT(fw::events[0].kind == style.success && fw::events[0].text == reference::text[0], "success with the text");
			sym::reach("success");
		}
		else
		{
			CHECK_THAT(!normal, "a failure ends the test case");
			CHECK_THAT(got == 1 && reference::n == 1, "exactly one failure");
			CHECK_THAT(fw::events[0].kind == fw::fail && fw::events[0].text == reference::text[0], "failure with the text");
			sym::reach("failure");
		}
		sym::observe("events", static_cast<unsigned>(got) * 4u + static_cast<unsigned>(normal));
	}
}

// many calls, of which any may fail: the framework learns of each failure, and only of failures
template <typename ReporterT>
void adapter_calls(const Style style)
{
	Mock<void(Sym)> mock{};
	const U limit = sym::make<U>("limit");
	bool failed = false;
	int left = 2;
	try
	{
		ScopedExpectation e = mock.expect_call(m::predicate([=](const Sym& s) { return s.v < limit; })) && expect::times(1, 2);
		for (int c = 0; c < 3; ++c)
		{
			const U v = sym::make<U>("v");
			fw::count = 0;
			const bool ok = v < limit && left > 0;
			bool normal = true;
			try
			{
				mock(Sym{v});
			}
			catch (...)
			{
				normal = false;
			}
			CHECK_THAT(normal == ok && fw::count == 1 && fw::events[0].kind == (ok ? style.success : fw::fail), "verdict of each call");
			if (ok)
				--left;
			else
				sym::reach("failed call");
		}
		fw::count = 0;
	}
	catch (...)
	{
		failed = true;
	}
	CHECK_THAT(failed == (left == 2), "unfulfilled expectations fail the test case");
	CHECK_THAT(fw::count == (failed ? 1 : 0) && (!failed || fw::events[0].kind == fw::fail), "once");
	sym::reach(failed ? "unfulfilled" : "fulfilled");
}

// the text arrives completely, whatever it contains and however long it is
template <typename ReporterT>
void adapter_text(const Style style)
{
	const bool full = sym::flag("full");
	std::string arg(sym::flag("long") ? 600u : 0u, 'x');
	for (int i = 0; i < 3; ++i)
	{
		const char c = sym::make<char>("c");
		if (!style.zeros)
			sym::assume(c != 0);
		arg.push_back(c);
	}
	const auto go = [&] {
		try
		{
			Mock<void(std::string)> mock{};
			ScopedExpectation e = finalize_at(mock.expect_call(m::_) && expect::times(0, full ? 1 : 0), 0);
			mock(arg);
			return true;
		}
		catch (...)
		{
			return false;
		}
	};
	fw::count = 0;
	const bool normal = go();
	reference::n = 0;
	install_reporter<reference::Reporter>();
	(void)go();
	install_reporter<ReporterT>();
	CHECK_THAT(normal == full && fw::count == 1 && reference::n == 1, "one outcome");
	CHECK_THAT(reference::text[0].size() > arg.size(), "the text shows the argument");
	CHECK_THAT(fw::events[0].kind == (full ? style.success : fw::fail) && fw::events[0].text == reference::text[0], "the whole text");
	sym::reach(full ? "success" : "failure");
}

// Shared part of the C21 harnesses: producing each outcome, and reporters which count what they get
#pragma once
#include "common.hpp"
using namespace mimicpp;
namespace e = mimicpp::expect;
namespace m = mimicpp::matches;
using U = std::uint32_t;

enum Kind
{
	kFull,
	kNoMatch,
	kInapplicable,
	kUnfulfilled,
	kError,
	kUnhandled
};

struct Ex
{
	U v;
};

// produces one outcome; `end` leaves the scope of the expectation
template <typename A>
struct ScenarioOf
{
	Mock<void(A)> mock{};
	std::optional<ScopedExpectation> a{}, b{};

	void run(Kind k)
	{
		switch (k)
		{
		case kFull:
			a.emplace(finalize_at(mock.expect_call(m::_), 0));
			mock(A{1});
			break;
		case kNoMatch:
			a.emplace(finalize_at(mock.expect_call(A{7}) && e::times(0, 1), 0));
			mock(A{1});
			break;
		case kInapplicable:
			a.emplace(finalize_at(mock.expect_call(m::_) && e::times(0), 0));
			mock(A{1});
			break;
		case kUnfulfilled:
			a.emplace(finalize_at(mock.expect_call(m::_), 0));
			{
				const ScopedExpectation gone{*std::move(a)};
				a.reset();
			}
			break;
		case kError:
			mimicpp::detail::report_error("an error");
			break;
		default:
			a.emplace(finalize_at(mock.expect_call(m::_), 0));
			b.emplace(finalize_at(mock.expect_call(m::predicate([](const A&) -> bool { throw Ex{5}; })) && e::times(0, 1), 1));
			mock(A{1});
			break;
		}
	}
};

// ---- routing
struct Counter
{
	int made{}, alive{}, destroyed{};
	int got[6]{};
};
inline Counter counters[8];
inline int made = 0;

template <int type>
class Routed final : public IReporter
{
public:
	explicit Routed(int i) : id{i} { ++counters[id].alive, ++counters[id].made; }
	~Routed() override { --counters[id].alive, ++counters[id].destroyed; }
	Routed(const Routed&) = delete;
	Routed& operator=(const Routed&) = delete;
	[[noreturn]] void report_no_matches(CallReport, std::vector<MatchReport>) override
	{
		++counters[id].got[kNoMatch];
		throw NoMatchEx{};
	}
	[[noreturn]] void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override
	{
		++counters[id].got[kInapplicable];
		throw InapplicableEx{};
	}
	void report_full_match(CallReport, MatchReport) noexcept override { ++counters[id].got[kFull]; }
	void report_unfulfilled_expectation(ExpectationReport) override { ++counters[id].got[kUnfulfilled]; }
	void report_error(StringT) override { ++counters[id].got[kError]; }
	void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override { ++counters[id].got[kUnhandled]; }

private:
	int id;
};


// Shared harness pieces: a reporter that records every report, a symbolic argument type.
#pragma once
#include "sym.hpp"
#include "mimic++/mimic++.hpp"
#include <vector>
#include <memory>
#include <optional>
#include <utility>

// a move-only handle. SYM_REDUCED (used if a harness does not compile otherwise): copying compiles, but is a violation
#ifndef SYM_REDUCED
template <typename T>
using Own = std::unique_ptr<T>;
#else
template <typename T>
class Own : public std::unique_ptr<T>
{
public:
	using std::unique_ptr<T>::unique_ptr;
	Own(std::unique_ptr<T>&& p) : std::unique_ptr<T>{std::move(p)} {}
	Own(Own&&) = default;
	Own& operator=(Own&&) = default;
	Own(const Own&) : std::unique_ptr<T>{} { CHECK_THAT(false, "a value that can only be moved is copied"); }
	Own& operator=(const Own&)
	{
		CHECK_THAT(false, "a value that can only be moved is copied");
		return *this;
	}
};
#endif
template <typename T>
Own<T> make_own(T v)
{
	return Own<T>{std::make_unique<T>(std::move(v))};
}

struct NoMatchEx {};
struct InapplicableEx {};
struct UnfulfilledEx {};
struct ErrorEx {};

struct Rec
{
	int noMatch{}, inapplicable{}, full{}, unfulfilled{}, error{}, unhandled{};
	bool throwUnfulfilled{false};
	bool throwError{false};
	std::vector<mimicpp::MatchReport> reports{};           // of the last no-match / inapplicable / full report
	std::optional<mimicpp::CallReport> call{};             // likewise
	std::optional<mimicpp::ExpectationReport> expectation{}; // of the last unfulfilled / unhandled
	std::exception_ptr exception{};
	std::vector<std::optional<std::source_location>> unhandledFrom{}; // of all unhandled exception reports
	std::vector<std::exception_ptr> exceptions{};
	std::string message{};
	int total() const { return noMatch + inapplicable + full + unfulfilled + error + unhandled; }
};
inline Rec rec{};
// releases everything the recorder owns (a moved-to string may keep its buffer)
inline void clear_rec()
{
	{
		Rec old{std::move(rec)};
	}
	rec = Rec{};
}

class RecReporter final : public mimicpp::IReporter
{
public:
	[[noreturn]] void report_no_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> r) override
	{
		++rec.noMatch;
		rec.call = std::move(call);
		rec.reports = std::move(r);
		throw NoMatchEx{};
	}
	[[noreturn]] void report_inapplicable_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> r) override
	{
		++rec.inapplicable;
		rec.call = std::move(call);
		rec.reports = std::move(r);
		throw InapplicableEx{};
	}
	void report_full_match(mimicpp::CallReport call, mimicpp::MatchReport r) noexcept override
	{
		++rec.full;
		rec.call = std::move(call);
		rec.reports.clear();
		rec.reports.push_back(std::move(r));
	}
	void report_unfulfilled_expectation(mimicpp::ExpectationReport r) override
	{
		++rec.unfulfilled;
		rec.expectation = std::move(r);
		if (rec.throwUnfulfilled && std::uncaught_exceptions() == 0)
			throw UnfulfilledEx{};
	}
	void report_error(mimicpp::StringT message) override
	{
		++rec.error;
		rec.message = std::move(message);
		if (rec.throwError && std::uncaught_exceptions() == 0)
			throw ErrorEx{};
	}
	void report_unhandled_exception(mimicpp::CallReport call, mimicpp::ExpectationReport e, std::exception_ptr ex) override
	{
		++rec.unhandled;
		rec.call = std::move(call);
		rec.expectation = std::move(e);
		rec.unhandledFrom.push_back(rec.expectation->sourceLocation);
		rec.exceptions.push_back(ex);
		rec.exception = std::move(ex);
	}
};

inline void setup() { mimicpp::install_reporter<RecReporter>(); }

// an argument type whose text does not depend on its value, so that reports stay concrete
struct Sym
{
	std::uint32_t v;
	friend bool operator==(const Sym&, const Sym&) = default;
	friend auto operator<=>(const Sym&, const Sym&) = default;
};

template <>
struct mimicpp::custom::Printer<Sym>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Sym&)
	{
		*out++ = 'S';
		return out;
	}
};

enum class Outcome { ok, noMatch, inapplicable };

// performs one call and classifies how it ended
template <typename F>
Outcome attempt(F&& f)
{
	try
	{
		f();
		return Outcome::ok;
	}
	catch (const NoMatchEx&)
	{
		return Outcome::noMatch;
	}
	catch (const InapplicableEx&)
	{
		return Outcome::inapplicable;
	}
}

// runs f, on demand within a destructor while a foreign exception propagates (f must not let exceptions escape then)
struct ForeignEx {};
template <typename F>
void perhaps_in_flight(bool inFlight, F&& f)
{
	if (!inFlight)
	{
		f();
		return;
	}
	struct Guard
	{
		F& f;
		~Guard() noexcept(false) { f(); }
	};
	try
	{
		Guard g{f};
		throw ForeignEx{};
	}
	catch (const ForeignEx&)
	{
	}
}

// distinct source locations, used to tell expectations apart in reports
static const std::source_location locs[] = {
	std::source_location::current(),
	std::source_location::current(),
	std::source_location::current(),
	std::source_location::current(),
	std::source_location::current(),
	std::source_location::current(),
	std::source_location::current(),
	std::source_location::current(),
};
inline int loc_index(const std::source_location& l)
{
	for (int i = 0; i < 8; ++i)
		if (locs[i].line() == l.line() && std::string_view{locs[i].file_name()} == l.file_name())
			return i;
	return -1;
}
inline int loc_index(const std::optional<std::source_location>& l) { return l ? loc_index(*l) : -1; }

template <typename Builder>
mimicpp::ScopedExpectation finalize_at(Builder&& b, int i)
{
	return mimicpp::ScopedExpectation{std::forward<Builder>(b), locs[i]};
}

// accepts exactly the arguments whose bit k is set: all accept patterns come from one symbolic argument
inline auto bit(int k)
{
	return mimicpp::matches::predicate([k](const Sym& s) { return ((s.v >> k) & 1u) != 0; });
}

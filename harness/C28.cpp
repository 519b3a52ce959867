// BOUNDS: catch2: every history of 2 (thorough 3) outcomes (full match, no match, inapplicable, unfulfilled, error, warning) with arbitrary argument and operand, unfulfilled and error also while an exception is propagating; 3 calls against a limit; texts with 3 arbitrary characters, short or of more than 600 characters; user defined matchers, ! and && compositions with every 32-bit operand
// ASSUMES: the functions of the frameworks' libraries (Catch::AssertionHandler, testing::internal::AssertHelper, doctest::detail::MessageBuilder/ResultBuilder, boost::test_tools report_assertion and unit_test_log) behave as modelled in the harness; the macros are those of the installed headers
// OUTSIDE: output formatting of the frameworks, prefixed-macro configurations (compile time)
// FLAGS: -DMIMICPP_CONFIG_EXPERIMENTAL_CATCH2_MATCHER_INTEGRATION -fno-sanitize=vptr
#include "mimic++/mimic++.hpp"
#include "mimic++/adapters/Catch2.hpp"
#include <catch2/internal/catch_test_failure_exception.hpp>
#include <catch2/matchers/catch_matchers.hpp>
#include <catch2/interfaces/catch_interfaces_capture.hpp>
#include <sstream>
#include "adapters.hpp"

// ---- model of the library part of Catch2 (v3)
namespace
{
	Catch::ResultWas::OfType lastType{};
	Catch::ResultDisposition::Flags lastFlags{};
	alignas(16) unsigned char captureStorage[64];
}
namespace Catch
{
	IResultCapture::~IResultCapture() = default;
	ReusableStringStream::ReusableStringStream() : m_index{0}, m_oss{new std::ostringstream} {}
	ReusableStringStream::~ReusableStringStream() { delete static_cast<std::ostringstream*>(m_oss); }
	std::string ReusableStringStream::str() const { return static_cast<std::ostringstream*>(m_oss)->str(); }
	// StringRef is declared in the header; these members are part of the library
	std::ostream& operator<<(std::ostream& os, StringRef r) { return os << std::string_view{r.data(), r.size()}; }
	AssertionHandler::AssertionHandler(StringRef, SourceLineInfo const& line, StringRef, ResultDisposition::Flags f)
		: m_assertionInfo{StringRef{}, line, StringRef{}, f}, m_reaction{}, m_resultCapture{reinterpret_cast<IResultCapture&>(captureStorage)}
	{
		lastFlags = f;
	}
	void AssertionHandler::handleMessage(ResultWas::OfType t, StringRef msg)
	{
		lastType = t;
		const bool failure = (static_cast<int>(t) & ResultWas::FailureBit) != 0;
		const bool suppressed = (lastFlags & ResultDisposition::SuppressFail) != 0;
		fw::add(failure && !suppressed ? fw::fail : t == ResultWas::Ok ? fw::success : fw::message, std::string{msg.data(), msg.size()});
	}
	void AssertionHandler::complete()
	{
		m_completed = true;
		if ((static_cast<int>(lastType) & ResultWas::FailureBit) && (lastFlags & ResultDisposition::Normal))
			throw TestFailureException{};
	}
	namespace Matchers
	{
		MatcherUntypedBase::~MatcherUntypedBase() = default;
		MatcherGenericBase::~MatcherGenericBase() = default;
		std::string MatcherUntypedBase::toString() const { return describe(); }
		namespace Detail
		{
			std::string describe_multi_matcher(StringRef, std::string const*, std::string const*) { return "multi"; }
		}
	}
}

HARNESS(catch2_history)
{
	adapter_history<Catch2ReporterT>({}, THOROUGH ? 3 : 2);
}

HARNESS(catch2_text)
{
	adapter_text<Catch2ReporterT>({});
}

HARNESS(catch2_calls)
{
	adapter_calls<Catch2ReporterT>({});
}

// ---- Catch2 matchers as argument matchers
struct Less final : Catch::Matchers::MatcherBase<Sym> // "old" style
{
	explicit Less(U o) : operand{o} {}
	bool match(Sym const& s) const override { return s.v < operand; }
	std::string describe() const override { return "less"; }
	U operand;
};
struct Mask final : Catch::Matchers::MatcherGenericBase // "new" style
{
	explicit Mask(U o) : operand{o} {}
	template <typename T>
	bool match(const T& s) const
	{
		return (s.v & operand) != 0;
	}
	std::string describe() const override { return "mask"; }
	U operand;
};

HARNESS(catch2_matchers)
{
	const U a = sym::make<U>("a"), b = sym::make<U>("b");
	Mock<void(Sym)> mock{};
	std::optional<ScopedExpectation> e{};
	const Less less{a};
	const Mask mask{b};
	const Less less2{b};
	const int form = sym::choice("form", 7);
	switch (form)
	{
	case 0: e.emplace(mock.expect_call(Less{a}) && expect::times(0, 2)); break;
	case 1: e.emplace(mock.expect_call(Mask{b}) && expect::times(0, 2)); break;
	case 2: e.emplace(mock.expect_call(!less) && expect::times(0, 2)); break;
	case 3: e.emplace(mock.expect_call(!mask) && expect::times(0, 2)); break;
	case 4: e.emplace(mock.expect_call(less && less2) && expect::times(0, 2)); break;
	case 5: e.emplace(mock.expect_call(less || less2) && expect::times(0, 2)); break;
	default: e.emplace(mock.expect_call(m::_) && expect::arg<0>(Less{a}) && expect::arg<0>(Mask{b}) && expect::times(0, 2)); break;
	}
	for (int c = 0; c < 2; ++c)
	{
		const U v = sym::make<U>("v");
		const bool la = v < a, lb = v < b, mb = (v & b) != 0;
		const bool want = form == 0 ? la : form == 1 ? mb : form == 2 ? !la : form == 3 ? !mb : form == 4 ? la && lb : form == 5 ? la || lb : la && mb;
		bool ok = true;
		fw::count = 0;
		try
		{
			mock(Sym{v});
		}
		catch (...)
		{
			ok = false;
		}
		CHECK_THAT(ok == want, "a Catch2 matcher decides as a matcher of the library");
		CHECK_THAT(fw::count == 1 && fw::events[0].kind == (want ? fw::success : fw::fail), "reported");
		sym::reach(ok ? "matcher accepts" : "matcher rejects");
	}
}

// BOUNDS: boost: as catch2, without matchers
// FLAGS: -fno-sanitize=vptr
#include "mimic++/mimic++.hpp"
#include "mimic++/adapters/BoostTest.hpp"
#include <boost/test/execution_monitor.hpp>
#include <sstream>
#include "adapters.hpp"

// ---- model of the library part of Boost.Test
namespace
{
	boost::unit_test::log_level currentLevel{};
	std::string currentText{};
	alignas(16) unsigned char logStorage[256];
}
namespace boost
{
	namespace unit_test
	{
		lazy_ostream lazy_ostream::inst{};
		unit_test_log_t& unit_test_log_t::instance() { return reinterpret_cast<unit_test_log_t&>(logStorage); }
		void unit_test_log_t::set_checkpoint(const_string, std::size_t, const_string) {}
		unit_test_log_t& unit_test_log_t::operator<<(log::begin const&)
		{
			currentText.clear();
			return *this;
		}
		ut_detail::entry_value_collector unit_test_log_t::operator()(log_level l)
		{
			currentLevel = l;
			return {};
		}
		namespace ut_detail
		{
			entry_value_collector const& entry_value_collector::operator<<(lazy_ostream const& v) const
			{
				std::ostringstream out{};
				v(out);
				currentText += out.str();
				return *this;
			}
			entry_value_collector::~entry_value_collector()
			{
				if (m_last)
					fw::add(currentLevel == log_successful_tests ? fw::success : fw::message, currentText);
			}
		}
	}
	namespace test_tools::tt_detail
	{
		bool report_assertion(assertion_result const& pr, unit_test::lazy_ostream const& descr, const_string, std::size_t, tool_level tl, check_type, std::size_t, ...)
		{
			std::ostringstream out{};
			descr(out);
			const bool passed = !!pr;
			fw::add(passed ? fw::success : tl == WARN ? fw::message : fw::fail, out.str());
			if (!passed && tl == REQUIRE)
				throw ::boost::execution_aborted{};
			return passed;
		}
	}
}

HARNESS(boost_history)
{
	adapter_history<BoostTestReporterT>({.success = fw::message, .warningPrefix = "warning: "}, THOROUGH ? 3 : 2);
}

HARNESS(boost_text)
{
	adapter_text<BoostTestReporterT>({.success = fw::message, .warningPrefix = "warning: "});
}

HARNESS(boost_calls)
{
	adapter_calls<BoostTestReporterT>({.success = fw::message});
}

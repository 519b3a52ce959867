// BOUNDS: gtest: as catch2, without matchers
#include "mimic++/mimic++.hpp"
#include "mimic++/adapters/gtest.hpp"
#include <sstream>
#include "adapters.hpp"

// ---- model of the library part of GoogleTest
namespace testing
{
	static bool fatal = false, nonfatal = false;
	bool Test::HasFatalFailure() { return fatal; }
	bool Test::HasNonfatalFailure() { return nonfatal; }
	bool Test::IsSkipped() { return false; }
	Message::Message() : ss_{new std::stringstream} {}
	namespace internal
	{
		AssertHelper::AssertHelper(TestPartResult::Type t, const char* file, int line, const char* message)
			: data_{new AssertHelperData{t, file, line, message}}
		{
		}
		AssertHelper::~AssertHelper() { delete data_; }
		void AssertHelper::operator=(const Message& msg) const
		{
			fatal = fatal || data_->type == TestPartResult::kFatalFailure;
			nonfatal = nonfatal || data_->type == TestPartResult::kNonFatalFailure;
			const std::string text = (*reinterpret_cast<const std::unique_ptr<std::stringstream>*>(&msg))->str(); // its only member
			fw::add(data_->type == TestPartResult::kFatalFailure || data_->type == TestPartResult::kNonFatalFailure ? fw::fail
					: data_->type == TestPartResult::kSuccess											   ? fw::success
																										   : fw::message,
				text);
		}
	}
}

HARNESS(gtest_history)
{
	adapter_history<GTestReporterT>({.warns = false}, THOROUGH ? 3 : 2);
}

HARNESS(gtest_text)
{
	adapter_text<GTestReporterT>({.warns = false});
}

HARNESS(gtest_calls)
{
	adapter_calls<GTestReporterT>({});
}

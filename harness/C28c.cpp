// BOUNDS: doctest: as catch2, without matchers
#include "mimic++/mimic++.hpp"
#include "mimic++/adapters/Doctest.hpp"
#include <sstream>
#include <cstring>
#include "adapters.hpp"

// ---- model of the library part of doctest
namespace
{
	std::ostringstream* streams[8]{};
	int streamCount = 0;
	doctest::detail::ContextScopeBase* scopes[8]{};
	int scopeCount = 0;
}
namespace doctest
{
	// the first 8 bytes of the buffer hold a pointer to a heap copy
	static char*& rep(const String& s) { return *reinterpret_cast<char**>(const_cast<String*>(&s)); }
	static char* dup(const char* s)
	{
		const std::size_t n = std::strlen(s);
		char* p = new char[n + 1];
		for (std::size_t i = 0; i <= n; ++i)
			p[i] = s[i];
		return p;
	}
	String::String() noexcept
	{
		rep(*this) = nullptr;
	}
	String::String(const char* s) { rep(*this) = dup(s); }
	String::String(const String& o) { rep(*this) = rep(o) ? dup(rep(o)) : nullptr; }
	String::String(String&& o) noexcept
	{
		rep(*this) = rep(o);
		rep(o) = nullptr;
	}
	String& String::operator=(const String& o)
	{
		if (this != &o)
		{
			delete[] rep(*this);
			rep(*this) = rep(o) ? dup(rep(o)) : nullptr;
		}
		return *this;
	}
	String& String::operator=(String&& o) noexcept
	{
		char* p = rep(*this);
		rep(*this) = rep(o);
		rep(o) = p;
		return *this;
	}
	String::~String() { delete[] rep(*this); }
	std::ostream& operator<<(std::ostream& s, const String& in) { return s << (rep(in) ? rep(in) : ""); }
	String toString(bool in) { return String{in ? "true" : "false"}; }
	IContextScope::~IContextScope() = default;
	Contains::Contains(const String& s) : string{s} {}
	const ContextOptions* getContextOptions()
	{
		static ContextOptions* none = static_cast<ContextOptions*>(::operator new(sizeof(ContextOptions)));
		none->success = false;
		return none;
	}
	AssertData::AssertData(assertType::Enum at, const char* file, int line, const char* expr, const char* ex, const StringContains& s)
		: m_test_case{}, m_at{at}, m_file{file}, m_line{line}, m_expr{expr}, m_failed{true}, m_threw{}, m_threw_as{}, m_exception_type{ex}, m_exception_string{s}
	{
	}
	namespace detail
	{
		std::ostream* tlssPush()
		{
			streams[streamCount] = new std::ostringstream;
			return streams[streamCount++];
		}
		String tlssPop()
		{
			std::ostringstream* o = streams[--streamCount];
			String s{o->str().c_str()};
			delete o;
			return s;
		}
		[[noreturn]] void throwException() { throw TestFailureException{}; }
		TestSuite& TestSuite::operator*(const char* in)
		{
			m_test_suite = in;
			return *this;
		}
		int setTestSuite(const TestSuite&) { return 0; }
		MessageBuilder::MessageBuilder(const char* file, int line, assertType::Enum severity)
		{
			m_stream = tlssPush();
			m_file = file;
			m_line = line;
			m_severity = severity;
		}
		MessageBuilder::~MessageBuilder()
		{
			if (!logged)
				tlssPop();
		}
		bool MessageBuilder::log()
		{
			if (!logged)
			{
				m_string = tlssPop();
				logged = true;
			}
			fw::add(m_severity & assertType::is_warn ? fw::message : fw::fail, rep(m_string) ? rep(m_string) : "");
			return false;
		}
		void MessageBuilder::react()
		{
			if (m_severity & assertType::is_require)
				throwException();
		}
		ContextScopeBase::ContextScopeBase() { scopes[scopeCount++] = this; }
		void ContextScopeBase::destroy() { --scopeCount; }
		ExpressionDecomposer::ExpressionDecomposer(assertType::Enum at) : m_at{at} {}
		Result::Result(bool passed, const String& d) : m_passed{passed}, m_decomp{d} {}
		ResultBuilder::ResultBuilder(assertType::Enum at, const char* file, int line, const char* expr, const char* ex, const String& s)
			: AssertData{at, file, line, expr, ex, s}
		{
		}
		void ResultBuilder::setResult(const Result& r)
		{
			m_decomp = r.m_decomp;
			m_failed = !r.m_passed;
		}
		void ResultBuilder::translateException() { m_threw = true; }
		bool ResultBuilder::log()
		{
			std::ostringstream out{};
			for (int i = 0; i < scopeCount; ++i)
				scopes[i]->stringify(&out);
			if (m_threw)
				m_failed = true;
			fw::add(!m_failed ? fw::success : m_at & assertType::is_warn ? fw::message : fw::fail, out.str());
			return false;
		}
		void ResultBuilder::react() const
		{
			if (m_failed && (m_at & assertType::is_require))
				throwException();
		}
	}
}

HARNESS(doctest_history)
{
	adapter_history<DoctestReporterT>({}, THOROUGH ? 3 : 2);
}

HARNESS(doctest_text)
{
	adapter_text<DoctestReporterT>({.zeros = false});
}

HARNESS(doctest_calls)
{
	adapter_calls<DoctestReporterT>({});
}

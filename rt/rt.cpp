// Bitcode runtime for the symbolic executor: the pieces of libstdc++ / libsupc++ / libc that live
// only in shared libraries.  Stack unwinding itself is done by the engine; the header in front of
// a thrown object is {type_info*, dtor, refs, adjusted pointer}, see engine/symex.cpp.
#include "pre.hpp"
#define __NO_CTYPE
#include "sym.hpp"
#include <exception>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <string>
#include <locale>
#include <ostream>
#include <sstream>
#include <functional>
#include <variant>
#include <optional>
#include <memory>
#include <system_error>
#include <any>
#include <charconv>
#include <chrono>
#include <condition_variable>
#include <iostream>
#include <iomanip>
#include <istream>
#include <memory_resource>
#include <mutex>
#include <thread>
#include <cstdio>
#include <cstring>
#include <cstdlib>

extern "C"
{
	void* malloc(std::size_t);
	void free(void*);
	[[noreturn]] void __sym_throw(void* obj);
	[[noreturn]] void __sym_terminate(const char* why);
	int __sym_self();
	void* __dso_handle = nullptr;
	char __libc_single_threaded = 1;
	int __gxx_personality_v0(...) { return 0; }
}

// ---------------------------------------------------------------- exceptions
namespace
{
	struct Header
	{
		std::type_info* type;
		void (*dtor)(void*);
		std::int64_t refs;
		void* adjusted;
	};
	static_assert(sizeof(Header) == 32);
	Header* hdr(void* p) { return static_cast<Header*>(p) - 1; }

	struct PerThread
	{
		void* caught[64];
		int depth;
		int uncaught;
	};
	PerThread per[8];
	PerThread& me() { return per[__sym_self()]; }

	void exc_ref(void* p) { ++hdr(p)->refs; }
	void exc_unref(void* p)
	{
		if (--hdr(p)->refs == 0)
		{
			if (hdr(p)->dtor)
				hdr(p)->dtor(p);
			free(hdr(p));
		}
	}
}

extern "C"
{
	void* __cxa_allocate_exception(std::size_t n) noexcept
	{
		auto* h = static_cast<Header*>(malloc(n + sizeof(Header)));
		h->type = nullptr;
		h->dtor = nullptr;
		h->refs = 0;
		h->adjusted = nullptr;
		return h + 1;
	}
	void __cxa_free_exception(void* p) noexcept { free(hdr(p)); }
	__cxxabiv1::__cxa_refcounted_exception* __cxxabiv1::__cxa_init_primary_exception(void* p, std::type_info* t, void (*d)(void*)) noexcept
	{
		hdr(p)->type = t;
		hdr(p)->dtor = d;
		hdr(p)->refs = 0;
		return static_cast<__cxxabiv1::__cxa_refcounted_exception*>(p);
	}
	[[noreturn]] void __cxa_throw(void* p, std::type_info* t, void (*d)(void*))
	{
		hdr(p)->type = t;
		hdr(p)->dtor = d;
		hdr(p)->refs = 1;
		++me().uncaught;
		__sym_throw(p);
	}
	void* __cxa_begin_catch(void* p) noexcept
	{
		auto& t = me();
		if (t.depth >= 64)
			__sym_terminate("more than 64 nested handlers");
		t.caught[t.depth++] = p;
		--t.uncaught;
		return hdr(p)->adjusted;
	}
	void* __cxa_get_exception_ptr(void* p) noexcept { return hdr(p)->adjusted; }
	void __cxa_end_catch()
	{
		auto& t = me();
		exc_unref(t.caught[--t.depth]);
	}
	[[noreturn]] void __cxa_rethrow()
	{
		auto& t = me();
		if (t.depth == 0)
			__sym_terminate("rethrow without an active exception");
		void* p = t.caught[t.depth - 1];
		exc_ref(p);
		++t.uncaught;
		__sym_throw(p);
	}
	[[noreturn]] void __cxa_bad_cast() { throw std::bad_cast{}; }
	[[noreturn]] void __cxa_bad_typeid() { throw std::bad_typeid{}; }
	[[noreturn]] void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length{}; }
	void __cxa_call_unexpected(void*) { __sym_terminate("unexpected exception"); }
	int __cxa_guard_acquire(char* g)
	{
		if (*g)
			return 0;
		return 1;
	}
	void __cxa_guard_release(char* g) { *g = 1; }
	void __cxa_guard_abort(char*) {}
}

namespace std
{
	void terminate() noexcept { __sym_terminate("std::terminate called"); }
	
	int uncaught_exceptions() noexcept { return me().uncaught; }
	bool uncaught_exception() noexcept { return me().uncaught != 0; }

	namespace __exception_ptr
	{
		exception_ptr::exception_ptr(void* e) noexcept : _M_exception_object{e} { _M_addref(); }
		void exception_ptr::_M_addref() noexcept { if (_M_exception_object) exc_ref(_M_exception_object); }
		void exception_ptr::_M_release() noexcept
		{
			if (_M_exception_object)
			{
				exc_unref(_M_exception_object);
				_M_exception_object = nullptr;
			}
		}
		void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
		const std::type_info* exception_ptr::__cxa_exception_type() const noexcept { return hdr(_M_exception_object)->type; }
	}
	exception_ptr current_exception() noexcept
	{
		auto& t = me();
		if (t.depth == 0)
			return exception_ptr{};
		return exception_ptr{t.caught[t.depth - 1]};
	}
	void rethrow_exception(exception_ptr e)
	{
		void* p = e._M_get();
		exc_ref(p);
		++me().uncaught;
		e = nullptr;
		__sym_throw(p);
	}

	// type_info and the classes whose vtables identify the kind of a type_info object
	type_info::~type_info() {}
	bool type_info::__is_pointer_p() const { return false; }
	bool type_info::__is_function_p() const { return false; }
	bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
	bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

	exception::~exception() noexcept {}
	const char* exception::what() const noexcept { return "std::exception"; }
	bad_exception::~bad_exception() noexcept {}
	const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
	bad_alloc::~bad_alloc() noexcept {}
	const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
	bad_array_new_length::~bad_array_new_length() noexcept {}
	const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
	bad_cast::~bad_cast() noexcept {}
	const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
	bad_typeid::~bad_typeid() noexcept {}
	const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
	bad_function_call::~bad_function_call() noexcept {}
	const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

	// __cow_string: a reference counted copy
	static char* cow_make(const char* s, std::size_t n)
	{
		char* p = static_cast<char*>(malloc(n + 9));
		*reinterpret_cast<std::int64_t*>(p) = 1;
		for (std::size_t i = 0; i < n; ++i)
			p[8 + i] = s[i];
		p[8 + n] = 0;
		return p + 8;
	}
	static std::int64_t& cow_refs(const char* p) { return *reinterpret_cast<std::int64_t*>(const_cast<char*>(p) - 8); }
	__cow_string::__cow_string() : _M_p{cow_make("", 0)} {}
	__cow_string::__cow_string(const std::string& s) : _M_p{cow_make(s.data(), s.size())} {}
	__cow_string::__cow_string(const char* s, size_t n) : _M_p{cow_make(s, n)} {}
	__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p{o._M_p} { ++cow_refs(_M_p); }
	__cow_string& __cow_string::operator=(const __cow_string& o) noexcept
	{
		++cow_refs(o._M_p);
		if (--cow_refs(_M_p) == 0)
			free(const_cast<char*>(_M_p) - 8);
		_M_p = o._M_p;
		return *this;
	}
	__cow_string::~__cow_string()
	{
		if (--cow_refs(_M_p) == 0)
			free(const_cast<char*>(_M_p) - 8);
	}
	static std::size_t len(const char* s)
	{
		std::size_t n = 0;
		while (s[n])
			++n;
		return n;
	}

	logic_error::logic_error(const string& s) : exception{}, _M_msg{s} {}
	logic_error::logic_error(const char* s) : exception{}, _M_msg{s, len(s)} {}
	logic_error::logic_error(const logic_error& o) noexcept : exception{}, _M_msg{o._M_msg} {}
	logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
	logic_error::logic_error(logic_error&& o) noexcept : exception{}, _M_msg{o._M_msg} {}
	logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
	logic_error::~logic_error() noexcept {}
	const char* logic_error::what() const noexcept { return _M_msg._M_p; }
	runtime_error::runtime_error(const string& s) : exception{}, _M_msg{s} {}
	runtime_error::runtime_error(const char* s) : exception{}, _M_msg{s, len(s)} {}
	runtime_error::runtime_error(const runtime_error& o) noexcept : exception{}, _M_msg{o._M_msg} {}
	runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
	runtime_error::runtime_error(runtime_error&& o) noexcept : exception{}, _M_msg{o._M_msg} {}
	runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
	runtime_error::~runtime_error() noexcept {}
	const char* runtime_error::what() const noexcept { return _M_msg._M_p; }

#define LEAF(name, base)                                   \
	name::name(const string& s) : base{s} {}               \
	name::name(const char* s) : base{s} {}                 \
	name::~name() noexcept {}
	LEAF(domain_error, logic_error)
	LEAF(invalid_argument, logic_error)
	LEAF(length_error, logic_error)
	LEAF(out_of_range, logic_error)
	LEAF(range_error, runtime_error)
	LEAF(overflow_error, runtime_error)
	LEAF(underflow_error, runtime_error)

	void __throw_bad_exception() { throw bad_exception{}; }
	void __throw_bad_alloc() { throw bad_alloc{}; }
	void __throw_bad_array_new_length() { throw bad_array_new_length{}; }
	void __throw_bad_cast() { throw bad_cast{}; }
	void __throw_bad_typeid() { throw bad_typeid{}; }
	void __throw_logic_error(const char* s) { throw logic_error{s}; }
	void __throw_domain_error(const char* s) { throw domain_error{s}; }
	void __throw_invalid_argument(const char* s) { throw invalid_argument{s}; }
	void __throw_length_error(const char* s) { throw length_error{s}; }
	void __throw_out_of_range(const char* s) { throw out_of_range{s}; }
	void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range{s}; }
	void __throw_runtime_error(const char* s) { throw runtime_error{s}; }
	void __throw_range_error(const char* s) { throw range_error{s}; }
	void __throw_overflow_error(const char* s) { throw overflow_error{s}; }
	void __throw_underflow_error(const char* s) { throw underflow_error{s}; }
	void __throw_bad_function_call() { throw bad_function_call{}; }
	void __throw_system_error(int e) { throw system_error{e, generic_category()}; }
	nested_exception::~nested_exception() noexcept {}
	const nothrow_t nothrow{};

	error_category::~error_category() noexcept {}
	error_condition error_category::default_error_condition(int i) const noexcept { return {i, *this}; }
	bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
	bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
	error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
	namespace
	{
		struct RtCategory final : error_category
		{
			const char* const id;
			explicit RtCategory(const char* n) : id{n} {}
			const char* name() const noexcept override { return id; }
			string message(int) const override { return "error"; }
		};
	}
	inline namespace _V2
	{
		__cow_string error_category::_M_message(int) const { return {}; }
		const error_category& generic_category() noexcept { static RtCategory c{"generic"}; return c; }
		const error_category& system_category() noexcept { static RtCategory c{"system"}; return c; }
	}
	system_error::~system_error() noexcept {}
	namespace chrono
	{
		inline namespace _V2
		{
			static long ticks = 0;
			steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{ticks += 1000}}; }
			system_clock::time_point system_clock::now() noexcept { return time_point{duration{ticks += 1000}}; }
		}
	}
	// classes whose key functions are not inline
	bad_weak_ptr::~bad_weak_ptr() noexcept {}
	const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
}

namespace __cxxabiv1
{
	// Only the identity of the vtables and the emission of the fundamental type_infos matter.
	class __fundamental_type_info : public std::type_info { public: virtual ~__fundamental_type_info(); };
	__fundamental_type_info::~__fundamental_type_info() {}
	class __class_type_info : public std::type_info { public: virtual ~__class_type_info(); };
	__class_type_info::~__class_type_info() {}
	class __si_class_type_info : public __class_type_info { public: virtual ~__si_class_type_info(); };
	__si_class_type_info::~__si_class_type_info() {}
	class __vmi_class_type_info : public __class_type_info { public: virtual ~__vmi_class_type_info(); };
	__vmi_class_type_info::~__vmi_class_type_info() {}
	class __pbase_type_info : public std::type_info { public: virtual ~__pbase_type_info(); };
	__pbase_type_info::~__pbase_type_info() {}
	class __pointer_type_info : public __pbase_type_info { public: virtual ~__pointer_type_info(); };
	__pointer_type_info::~__pointer_type_info() {}
	class __function_type_info : public std::type_info { public: virtual ~__function_type_info(); };
	__function_type_info::~__function_type_info() {}
	class __enum_type_info : public std::type_info { public: virtual ~__enum_type_info(); };
	__enum_type_info::~__enum_type_info() {}
	class __array_type_info : public std::type_info { public: virtual ~__array_type_info(); };
	__array_type_info::~__array_type_info() {}
	class __pointer_to_member_type_info : public __pbase_type_info { public: virtual ~__pointer_to_member_type_info(); };
	__pointer_to_member_type_info::~__pointer_to_member_type_info() {}
}

// ---------------------------------------------------------------- dynamic_cast (Itanium ABI layout)
extern "C"
{
	extern void* vt_si[] asm("_ZTVN10__cxxabiv120__si_class_type_infoE");
	extern void* vt_vmi[] asm("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
}
namespace
{
	struct TI
	{
		void** vptr;
		const char* name;
	};
	struct SiTI : TI
	{
		const TI* base;
	};
	struct VmiTI : TI
	{
		unsigned flags, count;
		struct
		{
			const TI* base;
			long offsetFlags;
		} bases[1];
	};
	struct Found
	{
		const char* at = nullptr;
		bool ambiguous = false;
	};
	void find_base(const char* obj, const TI* t, const TI* dst, Found& f)
	{
		if (t == dst)
		{
			if (f.at && f.at != obj)
				f.ambiguous = true;
			f.at = obj;
			return;
		}
		if (t->vptr == vt_si + 2)
			find_base(obj, static_cast<const SiTI*>(t)->base, dst, f);
		else if (t->vptr == vt_vmi + 2)
		{
			auto* v = static_cast<const VmiTI*>(t);
			for (unsigned i = 0; i < v->count; ++i)
			{
				long o = v->bases[i].offsetFlags;
				if (!(o & 2))
					continue;
				long off = o >> 8;
				if (o & 1)
					off = *reinterpret_cast<const long*>(*reinterpret_cast<const char* const*>(obj) + off);
				find_base(obj + off, v->bases[i].base, dst, f);
			}
		}
	}
}
extern "C" void* __dynamic_cast(const void* sub, const void*, const void* dst, std::ptrdiff_t)
{
	auto* vt = *static_cast<const long* const*>(sub);
	const char* whole = static_cast<const char*>(sub) + vt[-2];
	Found f;
	find_base(whole, reinterpret_cast<const TI*>(vt[-1]), static_cast<const TI*>(dst), f);
	return f.ambiguous ? nullptr : const_cast<char*>(f.at);
}

// ---------------------------------------------------------------- locale and streams ("C" locale only)
extern "C" std::uint64_t __sym_dtoa(char* to, double v, std::uint32_t bits, std::uint32_t flags);
namespace std
{
	template <typename T>
	static to_chars_result rt_float(char* f, char* l, T v, unsigned, unsigned fl)
	{
		char b[400];
		const auto n = __sym_dtoa(b, v, sizeof(T) * 8, fl);
		if (static_cast<ptrdiff_t>(n) > l - f)
			return {l, errc::value_too_large};
		for (std::size_t i = 0; i < n; ++i)
			f[i] = b[i];
		return {f + n, errc{}};
	}

	locale::locale() noexcept : _M_impl{nullptr} {}
	locale::locale(const locale& o) noexcept : _M_impl{o._M_impl} {}
	locale::~locale() noexcept {}
	const locale& locale::operator=(const locale& o) noexcept { _M_impl = o._M_impl; return *this; }
	bool locale::operator==(const locale&) const noexcept { return true; }
	string locale::name() const { return "C"; }
	const locale& locale::classic() { static locale l; return l; }
	size_t locale::id::_M_id() const noexcept { return 0; }

	ios_base::failure::~failure() noexcept {}
	const char* ios_base::failure::what() const noexcept { return "ios_base::failure"; }
	void __throw_ios_failure(const char*) { __sym_terminate("std::ios_base::failure"); }

	ios_base::ios_base() noexcept
		: _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit),
		  _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale()
	{
	}
	ios_base::~ios_base() {}
	void ios_base::_M_init() noexcept
	{
		_M_precision = 6;
		_M_width = 0;
		_M_flags = skipws | dec;
		_M_ios_locale = locale();
	}
	void ios_base::_M_call_callbacks(event) noexcept {}
	void ios_base::_M_dispose_callbacks() noexcept {}
	locale ios_base::imbue(const locale& l) noexcept { locale r{_M_ios_locale}; _M_ios_locale = l; return r; }
	void ios_base_library_init() {}

	// ctype<char> of the "C" locale; its virtual functions are never called
	namespace
	{
		struct CType : ctype<char>
		{
			static void init(void* raw, const mask* table)
			{
				auto* p = static_cast<CType*>(raw);
				p->_M_table = table;
				p->_M_widen_ok = 1;
				p->_M_narrow_ok = 1;
				for (int i = 0; i < 256; ++i)
					p->_M_widen[i] = p->_M_narrow[i] = static_cast<char>(i);
			}
		};
		struct CTypeStore
		{
			alignas(16) char raw[sizeof(ctype<char>)]{};
			ctype_base::mask table[256];
			CTypeStore()
			{
				for (int i = 0; i < 256; ++i)
				{
					const bool up = i >= 'A' && i <= 'Z', lo = i >= 'a' && i <= 'z', di = i >= '0' && i <= '9', gr = i > 32 && i < 127;
					unsigned m = 0;
					if (up) m |= ctype_base::upper;
					if (lo) m |= ctype_base::lower;
					if (up || lo) m |= ctype_base::alpha;
					if (di) m |= ctype_base::digit;
					if (di || (i >= 'a' && i <= 'f') || (i >= 'A' && i <= 'F')) m |= ctype_base::xdigit;
					if (i == ' ' || (i >= 9 && i <= 13)) m |= ctype_base::space;
					if (gr || i == ' ') m |= ctype_base::print;
					if (gr && !up && !lo && !di) m |= ctype_base::punct;
					if (i < 32 || i == 127) m |= ctype_base::cntrl;
					if (i == ' ' || i == 9) m |= ctype_base::blank;
					table[i] = static_cast<ctype_base::mask>(m);
				}
				CType::init(raw, table);
			}
		};
		const ctype<char>& the_ctype()
		{
			static CTypeStore s;
			return *reinterpret_cast<const ctype<char>*>(s.raw);
		}
	}
	template <>
	const ctype<char>& use_facet<ctype<char>>(const locale&) { return the_ctype(); }
	template <>
	bool has_facet<ctype<char>>(const locale&) noexcept { return true; }

	// numbers in streams: what num_put / num_get do in the "C" locale
	namespace
	{
		ostream& put_text(ostream& os, const char* p, size_t n, size_t prefix, bool number)
		{
			const auto w = static_cast<size_t>(os.width());
			os.width(0);
			ostream::sentry ok{os};
			if (!ok)
				return os;
			string t;
			const auto adj = os.flags() & ios_base::adjustfield;
			if (w > n && adj != ios_base::left && !(number && adj == ios_base::internal))
				t.append(w - n, os.fill());
			if (w > n && number && adj == ios_base::internal)
			{
				t.append(p, prefix);
				t.append(w - n, os.fill());
				t.append(p + prefix, n - prefix);
			}
			else
				t.append(p, n);
			if (w > n && adj == ios_base::left)
				t.append(w - n, os.fill());
			if (os.rdbuf()->sputn(t.data(), t.size()) != static_cast<streamsize>(t.size()))
				os.setstate(ios_base::badbit);
			return os;
		}
		template <typename T>
		ostream& put_int(ostream& os, T v)
		{
			const auto fl = os.flags();
			const auto base = (fl & ios_base::basefield) == ios_base::oct ? 8u : (fl & ios_base::basefield) == ios_base::hex ? 16u : 10u;
			using U = make_unsigned_t<T>;
			const bool neg = base == 10 && v < 0;
			U u = neg ? U(0) - static_cast<U>(v) : static_cast<U>(v);
			const bool zero = u == 0;
			char b[80];
			char* e = b + 80;
			char* p = e;
			const char* digits = fl & ios_base::uppercase ? "0123456789ABCDEF" : "0123456789abcdef";
			do
			{
				*--p = digits[u % base];
				u /= base;
			} while (u);
			size_t prefix = 0;
			if (base == 10)
			{
				if (neg)
					*--p = '-', prefix = 1;
				else if constexpr (is_signed_v<T>)
					if (fl & ios_base::showpos)
						*--p = '+', prefix = 1;
			}
			else if ((fl & ios_base::showbase) && !zero)
			{
				if (base == 16)
					*--p = fl & ios_base::uppercase ? 'X' : 'x', prefix = 2;
				*--p = '0';
			}
			return put_text(os, p, e - p, prefix, true);
		}
		ostream& put_float(ostream& os, double v)
		{
			const auto fl = os.flags() & ios_base::floatfield;
			const int prec = static_cast<int>(os.precision());
			const int f = fl == ios_base::fixed ? int(chars_format::fixed) : fl == ios_base::scientific ? int(chars_format::scientific) : int(chars_format::general);
			char b[400];
			const auto n = __sym_dtoa(b, v, 64, static_cast<unsigned>(f) + 256u * static_cast<unsigned>(prec + 1));
			return put_text(os, b, n, b[0] == '-', true);
		}
	}
	template <> template <> ostream& ostream::_M_insert(long v) { return put_int(*this, v); }
	template <> template <> ostream& ostream::_M_insert(unsigned long v) { return put_int(*this, v); }
	template <> template <> ostream& ostream::_M_insert(long long v) { return put_int(*this, v); }
	template <> template <> ostream& ostream::_M_insert(unsigned long long v) { return put_int(*this, v); }
	template <> template <> ostream& ostream::_M_insert(bool v)
	{
		if (flags() & ios_base::boolalpha)
			return v ? put_text(*this, "true", 4, 0, false) : put_text(*this, "false", 5, 0, false);
		return put_int(*this, static_cast<long>(v));
	}
	template <> template <> ostream& ostream::_M_insert(double v) { return put_float(*this, v); }
	template <> template <> ostream& ostream::_M_insert(const void* v)
	{
		const auto fl = flags();
		flags((fl & ~(ios_base::basefield | ios_base::uppercase)) | ios_base::hex | ios_base::showbase);
		if (v)
			put_int(*this, reinterpret_cast<unsigned long>(v));
		else
			put_text(*this, "0", 1, 0, true);
		flags(fl);
		return *this;
	}
	template ostream& ostream::operator<<(short);
	template ostream& ostream::operator<<(int);
	template ostream& ostream::operator<<(long);
	template ostream& ostream::operator<<(long long);
	template ostream& ostream::operator<<(unsigned short);
	template ostream& ostream::operator<<(unsigned int);
	template ostream& ostream::operator<<(unsigned long);
	template ostream& ostream::operator<<(unsigned long long);
	template ostream& ostream::operator<<(bool);
	template ostream& ostream::operator<<(float);
	template ostream& ostream::operator<<(double);
	template ostream& ostream::operator<<(const void*);
	template ostream& ostream::operator<<(basic_streambuf<char>*);
	template ostream& endl(ostream&);
	template ostream& flush(ostream&);

	to_chars_result to_chars(char* f, char* l, double v) noexcept { return rt_float(f, l, v, 64, 0); }
	to_chars_result to_chars(char* f, char* l, float v) noexcept { return rt_float(f, l, v, 32, 0); }
	to_chars_result to_chars(char* f, char* l, double v, chars_format x) noexcept { return rt_float(f, l, v, 64, unsigned(x)); }
	to_chars_result to_chars(char* f, char* l, float v, chars_format x) noexcept { return rt_float(f, l, v, 32, unsigned(x)); }
	to_chars_result to_chars(char* f, char* l, double v, chars_format x, int p) noexcept { return rt_float(f, l, v, 64, unsigned(x) + 256u * unsigned((p < 0 ? 6 : p) + 1)); }
	to_chars_result to_chars(char* f, char* l, float v, chars_format x, int p) noexcept { return rt_float(f, l, v, 32, unsigned(x) + 256u * unsigned((p < 0 ? 6 : p) + 1)); }

	template <>
	void basic_ios<char>::_M_cache_locale(const locale&)
	{
		_M_ctype = &the_ctype();
		_M_num_put = nullptr;
		_M_num_get = nullptr;
	}

	template class basic_ios<char>;
	template class basic_streambuf<char>;
	template class basic_stringbuf<char>;
	template basic_ostream<char>::basic_ostream(basic_streambuf<char>*);
	template basic_ostream<char>::~basic_ostream();
	template basic_ostream<char>& basic_ostream<char>::put(char);
	template basic_ostream<char>& basic_ostream<char>::write(const char*, streamsize);
	template basic_ostream<char>& basic_ostream<char>::flush();
	template basic_ostream<char>::sentry::sentry(basic_ostream<char>&);
	template ostream& operator<<(ostream&, char);
	template ostream& operator<<(ostream&, const char*);
	template ostream& operator<<(ostream&, const string&);
	template ostream& __ostream_insert(ostream&, const char*, streamsize);
	template class basic_ostringstream<char>;
	template basic_istream<char>::~basic_istream();
	template basic_istream<char>::basic_istream(basic_streambuf<char>*);
	template <> template <> istream& istream::_M_extract(long& v)
	{
		v = 0;
		sentry ok{*this, false};
		if (!ok)
			return *this;
		bool neg = false, any = false;
		int c = rdbuf()->sgetc();
		if (c == '-' || c == '+')
			neg = c == '-', c = rdbuf()->snextc();
		for (; c >= '0' && c <= '9'; c = rdbuf()->snextc())
			v = v * 10 + (c - '0'), any = true;
		if (neg)
			v = -v;
		if (c == -1)
			setstate(ios_base::eofbit);
		if (!any)
			setstate(ios_base::failbit);
		return *this;
	}
	template <> template <> istream& istream::_M_extract(unsigned long& v) { long x{}; _M_extract(x); v = static_cast<unsigned long>(x); return *this; }
	template <> template <> istream& istream::_M_extract(long long& v) { long x{}; _M_extract(x); v = x; return *this; }
	template <> istream& istream::operator>>(int& v) { long x{}; _M_extract(x); v = static_cast<int>(x); return *this; }
	template istream& istream::operator>>(long&);
	template istream& istream::operator>>(unsigned long&);
	template <> istream& operator>>(istream& in, string& t)
	{
		t.clear();
		istream::sentry ok{in, false};
		if (!ok)
			return in;
		int c = in.rdbuf()->sgetc();
		for (; c != -1 && !(c == ' ' || (c >= 9 && c <= 13)); c = in.rdbuf()->snextc())
			t += static_cast<char>(c);
		if (c == -1)
			in.setstate(ios_base::eofbit);
		if (t.empty())
			in.setstate(ios_base::failbit);
		return in;
	}
	template <> istream& getline(istream& in, string& t, char d)
	{
		t.clear();
		istream::sentry ok{in, true};
		if (!ok)
			return in;
		bool any = false;
		int c = in.rdbuf()->sbumpc();
		for (; c != -1 && c != static_cast<unsigned char>(d); c = in.rdbuf()->sbumpc())
			t += static_cast<char>(c), any = true;
		if (c == -1)
			in.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit);
		return in;
	}
	template int istream::get();
	template int istream::peek();
	template istream& istream::get(char&);
	template istream& istream::ignore(streamsize, int_type);
	template istream::sentry::sentry(istream&, bool);
	template class basic_istringstream<char>;
	template class basic_iostream<char>;
	template class basic_stringstream<char>;
}

// the standard error stream: no buffer, so that everything written to it is dropped
alignas(16) char rt_cerr[sizeof(std::ostream)] asm("_ZSt4cerr");
alignas(16) char rt_cout[sizeof(std::ostream)] asm("_ZSt4cout");
alignas(16) char rt_clog[sizeof(std::ostream)] asm("_ZSt4clog");
namespace
{
	struct InitStreams
	{
		InitStreams()
		{
			new (static_cast<void*>(rt_cerr)) std::ostream(nullptr);
			new (static_cast<void*>(rt_cout)) std::ostream(nullptr);
			new (static_cast<void*>(rt_clog)) std::ostream(nullptr);
		}
	};
	__attribute__((init_priority(101))) InitStreams initStreams;
}

// ---------------------------------------------------------------- libc
extern "C"
{
	int strcmp(const char* a, const char* b)
	{
		while (*a && *a == *b)
			++a, ++b;
		return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
	}
	int strncmp(const char* a, const char* b, std::size_t n)
	{
		for (; n; ++a, ++b, --n)
		{
			if (*a != *b)
				return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
			if (!*a)
				break;
		}
		return 0;
	}
	void* rt_memchr(const void* s, int c, std::size_t n) asm("memchr");
	void* rt_memchr(const void* s, int c, std::size_t n)
	{
		auto* p = static_cast<const unsigned char*>(s);
		for (std::size_t i = 0; i < n; ++i)
			if (p[i] == static_cast<unsigned char>(c))
				return const_cast<unsigned char*>(p + i);
		return nullptr;
	}
	std::size_t wcslen(const wchar_t* s)
	{
		std::size_t n = 0;
		while (s[n])
			++n;
		return n;
	}
	int wmemcmp(const wchar_t* a, const wchar_t* b, std::size_t n)
	{
		for (std::size_t i = 0; i < n; ++i)
			if (a[i] != b[i])
				return a[i] < b[i] ? -1 : 1;
		return 0;
	}
	wchar_t* rt_wmemchr(const wchar_t* s, wchar_t c, std::size_t n) asm("wmemchr");
	wchar_t* rt_wmemchr(const wchar_t* s, wchar_t c, std::size_t n)
	{
		for (; n; ++s, --n)
			if (*s == c)
				return const_cast<wchar_t*>(s);
		return nullptr;
	}
	int wcscmp(const wchar_t* a, const wchar_t* b)
	{
		while (*a && *a == *b)
			++a, ++b;
		return *a == *b ? 0 : *a < *b ? -1 : 1;
	}
	wchar_t* wmemset(wchar_t* a, wchar_t c, std::size_t n)
	{
		for (std::size_t i = 0; i < n; ++i)
			a[i] = c;
		return a;
	}
	wchar_t* wmemmove(wchar_t* a, const wchar_t* b, std::size_t n)
	{
		if (a < b)
			for (std::size_t i = 0; i < n; ++i)
				a[i] = b[i];
		else
			for (std::size_t i = n; i-- > 0;)
				a[i] = b[i];
		return a;
	}
	wchar_t* wmemcpy(wchar_t* a, const wchar_t* b, std::size_t n)
	{
		for (std::size_t i = 0; i < n; ++i)
			a[i] = b[i];
		return a;
	}
	// <cctype>: the argument must be representable as unsigned char (or be EOF), C17 7.4p1
	static int ctype_arg(int c)
	{
		__sym_check(-1 <= c && c <= 255, "argument of a <cctype> function is not representable as unsigned char");
		return c;
	}
	int toupper(int c) { ctype_arg(c); return static_cast<unsigned>(c - 'a') < 26u ? c - 32 : c; }
	int tolower(int c) { ctype_arg(c); return static_cast<unsigned>(c - 'A') < 26u ? c + 32 : c; }
	int isspace(int c) { ctype_arg(c); return c == ' ' || (c >= 9 && c <= 13); }
	int isdigit(int c) { ctype_arg(c); return c >= '0' && c <= '9'; }
	int isalpha(int c) { ctype_arg(c); return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
	int isupper(int c) { ctype_arg(c); return c >= 'A' && c <= 'Z'; }
	int islower(int c) { ctype_arg(c); return c >= 'a' && c <= 'z'; }
	int isalnum(int c) { return isalpha(c) || isdigit(c); }
	int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
	int isgraph(int c) { ctype_arg(c); return c > 32 && c < 127; }
	int isprint(int c) { ctype_arg(c); return c >= 32 && c < 127; }
	int ispunct(int c) { return isgraph(c) && !isalnum(c); }
	int iscntrl(int c) { ctype_arg(c); return (c >= 0 && c < 32) || c == 127; }
	int isblank(int c) { ctype_arg(c); return c == ' ' || c == 9; }
	char* rt_strchr(const char* s, int c) asm("strchr");
	char* rt_strchr(const char* s, int c)
	{
		for (;; ++s)
		{
			if (*s == static_cast<char>(c))
				return const_cast<char*>(s);
			if (!*s)
				return nullptr;
		}
	}
	char* rt_strrchr(const char* s, int c) asm("strrchr");
	char* rt_strrchr(const char* s, int c)
	{
		const char* r = nullptr;
		for (;; ++s)
		{
			if (*s == static_cast<char>(c))
				r = s;
			if (!*s)
				return const_cast<char*>(r);
		}
	}
	char* rt_strstr(const char* s, const char* t) asm("strstr");
	char* rt_strstr(const char* s, const char* t)
	{
		for (;; ++s)
		{
			std::size_t i = 0;
			while (t[i] && s[i] == t[i])
				++i;
			if (!t[i])
				return const_cast<char*>(s);
			if (!*s)
				return nullptr;
		}
	}
	static bool in_set(char c, const char* set)
	{
		for (; *set; ++set)
			if (*set == c)
				return true;
		return false;
	}
	std::size_t strspn(const char* s, const char* set)
	{
		std::size_t n = 0;
		while (s[n] && in_set(s[n], set))
			++n;
		return n;
	}
	std::size_t strcspn(const char* s, const char* set)
	{
		std::size_t n = 0;
		while (s[n] && !in_set(s[n], set))
			++n;
		return n;
	}
	char* strcpy(char* d, const char* s)
	{
		char* r = d;
		while ((*d++ = *s++))
			;
		return r;
	}
	char* strncpy(char* d, const char* s, std::size_t n)
	{
		std::size_t i = 0;
		for (; i < n && s[i]; ++i)
			d[i] = s[i];
		for (; i < n; ++i)
			d[i] = 0;
		return d;
	}
	std::size_t strnlen(const char* s, std::size_t n)
	{
		std::size_t i = 0;
		while (i < n && s[i])
			++i;
		return i;
	}
	char* getenv(const char*) { return nullptr; }
	static int rt_errno;
	int* __errno_location() { return &rt_errno; }
	static unsigned long rt_strtol(const char* s, char** e, int base, bool sign)
	{
		const char* p = s;
		while (*p == ' ' || (*p >= 9 && *p <= 13))
			++p;
		const bool neg = *p == '-';
		if (*p == '-' || *p == '+')
			++p;
		unsigned long v = 0;
		bool any = false, big = false;
		for (;; ++p, any = true)
		{
			const int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
			if (d >= base)
				break;
			if (v > (~0ul - d) / base)
				big = true;
			v = v * base + d;
		}
		if (e)
			*e = const_cast<char*>(any ? p : s);
		if (sign && v > (neg ? 1ul << 63 : ~0ul >> 1))
			big = true;
		if (big)
		{
			rt_errno = 34;
			return sign ? (neg ? 1ul << 63 : ~0ul >> 1) : ~0ul;
		}
		return neg ? 0 - v : v;
	}
	long rt_l(const char* s, char** e, int b) asm("__isoc23_strtol");
	long rt_l(const char* s, char** e, int b) { return static_cast<long>(rt_strtol(s, e, b, true)); }
	long rt_ll(const char* s, char** e, int b) asm("__isoc23_strtoll");
	long rt_ll(const char* s, char** e, int b) { return static_cast<long>(rt_strtol(s, e, b, true)); }
	unsigned long rt_ul(const char* s, char** e, int b) asm("__isoc23_strtoul");
	unsigned long rt_ul(const char* s, char** e, int b) { return rt_strtol(s, e, b, false); }
	unsigned long rt_ull(const char* s, char** e, int b) asm("__isoc23_strtoull");
	unsigned long rt_ull(const char* s, char** e, int b) { return rt_strtol(s, e, b, false); }
}
FILE* rt_stdout asm("stdout");
FILE* rt_stderr asm("stderr");

// ---------------------------------------------------------------- call_once, condition variables, memory resources
namespace std
{
	__thread void* __once_callable;
	__thread void (*__once_call)();
	condition_variable::condition_variable() noexcept = default;
	condition_variable::~condition_variable() noexcept {}
	void condition_variable::notify_one() noexcept {}
	void condition_variable::notify_all() noexcept {}
	void condition_variable::wait(unique_lock<mutex>&) { __sym_terminate("condition_variable::wait is not modelled"); }
	namespace pmr
	{
		namespace
		{
			struct NewDelete final : memory_resource
			{
				void* do_allocate(size_t n, size_t) override { return ::operator new(n); }
				void do_deallocate(void* p, size_t, size_t) override { ::operator delete(p); }
				bool do_is_equal(const memory_resource& o) const noexcept override { return &o == this; }
			};
			memory_resource* the_default;
		}
		memory_resource::~memory_resource() = default;
		memory_resource* new_delete_resource() noexcept { static NewDelete r; return &r; }
		memory_resource* get_default_resource() noexcept { return the_default ? the_default : new_delete_resource(); }
		memory_resource* set_default_resource(memory_resource* r) noexcept
		{
			auto* old = get_default_resource();
			the_default = r;
			return old;
		}
	}
	void thread::join() { __sym_terminate("std::thread is not modelled"); }
}
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int pthread_mutex_lock(pthread_mutex_t*) noexcept;
extern "C" int pthread_mutex_unlock(pthread_mutex_t*) noexcept;
extern "C" int pthread_once(int* o, void (*f)())
{
	static pthread_mutex_t m = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
	struct Guard
	{
		Guard() { pthread_mutex_lock(&m); }
		~Guard() { pthread_mutex_unlock(&m); }
	} g;
	if (!*o)
	{
		f();
		*o = 2;
	}
	return 0;
}

// ---------------------------------------------------------------- node based containers
#include <list>
#include <map>
#include <unordered_map>
namespace std::__detail
{
	void _List_node_base::_M_hook(_List_node_base* const pos) noexcept
	{
		_M_next = pos;
		_M_prev = pos->_M_prev;
		pos->_M_prev->_M_next = this;
		pos->_M_prev = this;
	}
	void _List_node_base::_M_unhook() noexcept
	{
		_M_prev->_M_next = _M_next;
		_M_next->_M_prev = _M_prev;
	}
	void _List_node_base::_M_reverse() noexcept
	{
		_List_node_base* t = this;
		do
		{
			std::swap(t->_M_next, t->_M_prev);
			t = t->_M_prev;
		} while (t != this);
	}
	void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
	{
		if (this == last)
			return;
		last->_M_prev->_M_next = this;
		first->_M_prev->_M_next = last;
		this->_M_prev->_M_next = first;
		_List_node_base* const t = this->_M_prev;
		this->_M_prev = last->_M_prev;
		last->_M_prev = first->_M_prev;
		first->_M_prev = t;
	}
	void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
	{
		if (x._M_next != &x)
		{
			if (y._M_next != &y)
			{
				std::swap(x._M_next, y._M_next);
				std::swap(x._M_prev, y._M_prev);
				x._M_next->_M_prev = x._M_prev->_M_next = &x;
				y._M_next->_M_prev = y._M_prev->_M_next = &y;
			}
			else
			{
				y._M_next = x._M_next;
				y._M_prev = x._M_prev;
				y._M_next->_M_prev = y._M_prev->_M_next = &y;
				x._M_next = x._M_prev = &x;
			}
		}
		else if (y._M_next != &y)
		{
			x._M_next = y._M_next;
			x._M_prev = y._M_prev;
			x._M_next->_M_prev = x._M_prev->_M_next = &x;
			y._M_next = y._M_prev = &y;
		}
	}
	std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const
	{
		std::size_t p = 13;
		while (p < n)
			p = p * 2 + 1;
		_M_next_resize = p;
		return p;
	}
	std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const
	{
		if (elt + ins > _M_next_resize || bkt < 2)
			return {true, _M_next_bkt(elt + ins > bkt * 2 ? elt + ins : bkt * 2)};
		return {false, 0};
	}
}
namespace std
{
	// FNV, any hash is a valid one
	size_t _Hash_bytes(const void* p, size_t n, size_t seed)
	{
		for (size_t i = 0; i < n; ++i)
			seed = (seed ^ static_cast<const unsigned char*>(p)[i]) * 1099511628211ull;
		return seed;
	}
	using TB = _Rb_tree_node_base;
	// search trees without rebalancing: balance is not observable
	static TB* next(TB* x)
	{
		if (x->_M_right)
		{
			x = x->_M_right;
			while (x->_M_left)
				x = x->_M_left;
			return x;
		}
		TB* y = x->_M_parent;
		while (x == y->_M_right)
		{
			x = y;
			y = y->_M_parent;
		}
		return x->_M_right != y ? y : x;
	}
	static TB* prev(TB* x)
	{
		if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x)
			return x->_M_right;
		if (x->_M_left)
		{
			x = x->_M_left;
			while (x->_M_right)
				x = x->_M_right;
			return x;
		}
		TB* y = x->_M_parent;
		while (x == y->_M_left)
		{
			x = y;
			y = y->_M_parent;
		}
		return y;
	}
	TB* _Rb_tree_increment(TB* x) noexcept { return next(x); }
	const TB* _Rb_tree_increment(const TB* x) noexcept { return next(const_cast<TB*>(x)); }
	TB* _Rb_tree_decrement(TB* x) noexcept { return prev(x); }
	const TB* _Rb_tree_decrement(const TB* x) noexcept { return prev(const_cast<TB*>(x)); }
	void _Rb_tree_insert_and_rebalance(const bool left, TB* x, TB* p, TB& header) noexcept
	{
		x->_M_parent = p;
		x->_M_left = x->_M_right = nullptr;
		x->_M_color = _S_black;
		if (left)
		{
			p->_M_left = x;
			if (p == &header)
				header._M_parent = header._M_right = x;
			else if (p == header._M_left)
				header._M_left = x;
		}
		else
		{
			p->_M_right = x;
			if (p == header._M_right)
				header._M_right = x;
		}
	}
	TB* _Rb_tree_rebalance_for_erase(TB* const z, TB& header) noexcept
	{
		if (header._M_left == z)
			header._M_left = z->_M_right || z->_M_parent != &header ? next(z) : &header;
		if (header._M_right == z)
			header._M_right = z->_M_left || z->_M_parent != &header ? prev(z) : &header;
		auto replace = [&](TB* a, TB* b) {
			if (header._M_parent == a)
				header._M_parent = b;
			else if (a->_M_parent->_M_left == a)
				a->_M_parent->_M_left = b;
			else
				a->_M_parent->_M_right = b;
			if (b)
				b->_M_parent = a->_M_parent;
		};
		if (!z->_M_left)
			replace(z, z->_M_right);
		else if (!z->_M_right)
			replace(z, z->_M_left);
		else
		{
			TB* y = z->_M_right;
			while (y->_M_left)
				y = y->_M_left;
			if (y->_M_parent != z)
			{
				replace(y, y->_M_right);
				y->_M_right = z->_M_right;
				y->_M_right->_M_parent = y;
			}
			replace(z, y);
			y->_M_left = z->_M_left;
			y->_M_left->_M_parent = y;
		}
		return z;
	}
}
extern "C" int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }

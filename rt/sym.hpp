// Harness interface to the symbolic executor (engine/symex.cpp) and to the native replay
// driver (rt/native.cpp).  A harness is an ordinary C++ function over the real headers of
// /repo/include; every value that comes from sym::make is universally quantified.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>

extern "C"
{
	std::uint64_t __sym_make(const char* name, std::uint32_t bits);
	void __sym_assume(bool c);
	void __sym_check(bool c, const char* what);
	void __sym_observe(const char* name, std::uint64_t v);
	std::uint64_t __sym_concretize(std::uint64_t v);
	void __sym_reach(const char* label);
	std::uint64_t __sym_heap_live();
	void __sym_heap_dir(int down);
	[[noreturn]] void __sym_stop(); // drop this path (assumption not met)
	[[noreturn]] void __sym_done(); // end this path successfully
	[[noreturn]] void __sym_fail(const char* what);
	int __sym_thread(void (*fn)(void*), void* arg);
	void __sym_join(int id);
	void __sym_yield();
	void __sym_set_mt(int on);
}

namespace sym
{
	// an unconstrained value of an integral / bool / enum type
	template <typename T>
	[[gnu::noinline]] T make(const char* name)
	{
		if constexpr (std::is_same_v<T, bool>)
			return (__sym_make(name, 1) & 1) != 0;
		else
			return static_cast<T>(__sym_make(name, sizeof(T) * 8));
	}

	// a value in [lo, hi], left symbolic
	template <typename T>
	T range(const char* name, T lo, T hi)
	{
		T v = make<T>(name);
		__sym_assume(lo <= v && v <= hi);
		return v;
	}

	// a structural decision 0..n-1: the executor explores every value as its own path
	[[gnu::noinline]] inline int choice(const char* name, int n)
	{
		std::uint8_t v = make<std::uint8_t>(name);
		__sym_assume(v < n);
		return static_cast<int>(__sym_concretize(v));
	}
	inline bool flag(const char* name) { return choice(name, 2) != 0; }

	inline void assume(bool c) { __sym_assume(c); }
	inline void observe(const char* name, std::uint64_t v) { __sym_observe(name, v); }
	inline void reach(const char* label) { __sym_reach(label); }
}

#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
// an obligation: must hold for every value of every symbolic input
#define CHECK_THAT(cond, what) __sym_check(static_cast<bool>(cond), what)

#ifdef SYM_NATIVE
struct SymEntry
{
	SymEntry(const char* n, void (*f)());
};
#define HARNESS(name)                                           \
	static void harness_##name();                               \
	static SymEntry harness_reg_##name{#name, &harness_##name}; \
	static void harness_##name()
#else
#define HARNESS(name) extern "C" [[gnu::used]] void harness_##name(); \
	void harness_##name()
#endif

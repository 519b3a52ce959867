// Native driver: runs one harness entry on concrete inputs against the really compiled library.
// usage: prog <entry> <inputs-file>; inputs are consumed in creation order ("name width value").
// exit: 0 ok, 1 violated obligation ("NATIVE-VIOLATION ..."), 77 assumption not met / inputs exhausted,
// anything else (signal, sanitizer exit code 99) is a crash.
#include "sym.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
#include <unistd.h>

static std::map<std::string, void (*)()>& entries() { static std::map<std::string, void (*)()> m; return m; }
SymEntry::SymEntry(const char* n, void (*f)()) { entries()[n] = f; }

struct In { std::string name; unsigned width; std::uint64_t value; };
static std::vector<In>* inputs = nullptr;
static std::size_t next_in = 0;
static std::atomic<long> live{0};

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*));
static void hookM(const volatile void* p, std::size_t) { if (p) ++live; }
static void hookF(const volatile void* p) { if (p) --live; }
#endif

static void flush_exit(int c) { std::fflush(stdout); std::fflush(stderr); _exit(c); }

extern "C"
{
	std::uint64_t __sym_make(const char* name, std::uint32_t bits)
	{
		if (!inputs || next_in >= inputs->size())
		{
			std::printf("NATIVE-EXHAUSTED %s\n", name);
			flush_exit(77);
		}
		const In& i = (*inputs)[next_in++];
		if (i.name != name || i.width != bits)
		{
			std::printf("NATIVE-MISMATCH wanted %s/%u got %s/%u\n", name, bits, i.name.c_str(), i.width);
			flush_exit(78);
		}
		return i.value;
	}
	void __sym_assume(bool c)
	{
		if (!c)
		{
			std::printf("NATIVE-ASSUME\n");
			flush_exit(77);
		}
	}
	void __sym_check(bool c, const char* what)
	{
		if (!c)
		{
			std::printf("NATIVE-VIOLATION %s\n", what);
			flush_exit(1);
		}
	}
	void __sym_observe(const char* name, std::uint64_t v) { std::printf("OBS %s %llu\n", name, (unsigned long long)v); }
	std::uint64_t __sym_concretize(std::uint64_t v) { return v; }
	void __sym_reach(const char*) {}
	std::uint64_t __sym_heap_live() { return (std::uint64_t)live.load(); }
#ifndef SYM_HEAPDIR
	void __sym_heap_dir(int) {}
#else
	static int heap_down = 0;
	void __sym_heap_dir(int d) { heap_down = d; }
#endif
	void __sym_done() { std::printf("NATIVE-OK\n"); flush_exit(0); std::abort(); }
	void __sym_stop() { std::printf("NATIVE-STOP\n"); flush_exit(77); std::abort(); }
	void __sym_fail(const char* what)
	{
		std::printf("NATIVE-VIOLATION %s\n", what);
		flush_exit(1);
		std::abort();
	}
	static std::deque<std::thread>* threads;
	int __sym_thread(void (*fn)(void*), void* arg)
	{
		if (!threads) threads = new std::deque<std::thread>;
		threads->emplace_back(fn, arg);
		return (int)threads->size() - 1;
	}
	void __sym_join(int id) { (*threads)[(std::size_t)id].join(); }
	void __sym_yield() { std::this_thread::yield(); }
	void __sym_set_mt(int) {}
}

// <cctype> with its precondition checked ("C" locale)
static void ctype_arg(int c)
{
	if (c < -1 || c > 255)
		__sym_fail("character classification called with an argument outside unsigned char");
}
extern "C"
{
	int toupper(int c) noexcept { ctype_arg(c); return c >= 'a' && c <= 'z' ? c - 32 : c; }
	int tolower(int c) noexcept { ctype_arg(c); return c >= 'A' && c <= 'Z' ? c + 32 : c; }
}

#ifdef SYM_HEAPDIR
// allocations at descending addresses, to reproduce address-order dependent behaviour
#include <new>
alignas(64) static char arena[8 << 20];
static char* arena_top = arena + sizeof arena;
void* operator new(std::size_t n)
{
	if (!heap_down)
		return std::malloc(n ? n : 1);
	arena_top -= (n + 31) / 32 * 32 + 32;
	++live;
	return arena_top;
}
void operator delete(void* p) noexcept
{
	if (p >= arena && p < arena + sizeof arena)
		--live;
	else
		std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
#endif

int main(int argc, char** argv)
{
	if (argc < 3) { for (auto& e : entries()) std::printf("%s\n", e.first.c_str()); return 2; }
	auto it = entries().find(argv[1]);
	if (it == entries().end()) { std::printf("NATIVE-NOENTRY\n"); return 79; }
	static std::vector<In> in;
	{
		std::ifstream f(argv[2]);
		std::string n; unsigned w; std::uint64_t v;
		while (f >> n >> w >> v) in.push_back({n, w, v});
	}
	inputs = &in;
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_install_malloc_and_free_hooks(hookM, hookF);
#endif
	it->second();
	std::printf("NATIVE-OK\n");
	flush_exit(0);
}

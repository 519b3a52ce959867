// BOUNDS: self test: library facilities a change may start to use
#include "common.hpp"
#include <map>
#include <set>
#include <list>
#include <deque>
#include <queue>
#include <stack>
#include <any>
#include <bitset>
#include <charconv>
#include <condition_variable>
#include <cstring>
#include <format>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <memory_resource>
#include <mutex>
#include <numeric>
#include <shared_mutex>
#include <sstream>
#include <atomic>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <algorithm>
#include <forward_list>
#include <typeindex>
#include <complex>
#include <chrono>
#include <filesystem>
#include <cstdio>
#include <cstdlib>
HARNESS(hashes)
{
	std::unordered_map<std::string, int> um{{"a", 1}, {"b", 2}};
	std::unordered_multimap<int, int> mm{{1, 2}, {1, 3}};
	std::unordered_set<const void*> us{&um, &mm};
	for (int i = 0; i < 40; ++i)
		um[std::to_string(i)] = i;
	CHECK_THAT(um.at("a") == 1 && um.size() == 42 && mm.count(1) == 2 && us.contains(&um), "hash");
	std::map<std::type_index, int> ti{{typeid(int), 1}, {typeid(long), 2}};
	CHECK_THAT(ti.at(typeid(long)) == 2, "type_index");
	sym::reach("end");
}
HARNESS(functions)
{
	const int x = sym::make<int>("x");
	std::function<int(int)> f = [x](int y) { return x ^ y; };
	auto g = f;
	CHECK_THAT(g(1) == (x ^ 1), "function");
	std::any a = std::string("abc");
	CHECK_THAT(std::any_cast<std::string>(a) == "abc", "any");
	bool bad = false;
	try { (void)std::any_cast<int>(a); } catch (const std::bad_any_cast&) { bad = true; }
	CHECK_THAT(bad, "bad any");
	try { std::function<void()>{}(); bad = false; } catch (const std::bad_function_call&) {}
	CHECK_THAT(bad, "bad function");
	std::variant<int, std::string> v{"x"};
	try { (void)std::get<int>(v); bad = false; } catch (const std::bad_variant_access&) {}
	try { std::optional<int>{}.value(); bad = false; } catch (const std::bad_optional_access&) {}
	try { std::vector<int>{}.at(1); bad = false; } catch (const std::out_of_range&) {}
	try { (void)std::string("a").substr(3); bad = false; } catch (const std::out_of_range&) {}
	std::shared_ptr<int> sp = std::make_shared<int>(1);
	std::weak_ptr<int> wp = sp;
	sp.reset();
	try { std::shared_ptr<int> q{wp}; bad = false; } catch (const std::bad_weak_ptr&) {}
	CHECK_THAT(bad && wp.expired(), "weak");
	sym::reach("end");
}
HARNESS(locks)
{
	std::recursive_mutex rm; std::shared_mutex sm; std::mutex m1, m2; std::timed_mutex tm;
	{ std::lock_guard a{rm}; std::lock_guard b{rm}; }
	{ std::shared_lock a{sm}; }
	{ std::unique_lock a{sm}; }
	{ std::scoped_lock a{m1, m2}; }
	{ std::unique_lock a{m1, std::defer_lock}; CHECK_THAT(a.try_lock(), "try"); a.unlock(); a.lock(); }
	{ std::unique_lock a{tm}; }
	std::once_flag of; int n = 0;
	std::call_once(of, [&] { ++n; }); std::call_once(of, [&] { ++n; });
	CHECK_THAT(n == 1, "once");
	std::condition_variable cv; cv.notify_all();
	std::atomic<int> at{3}; at.fetch_add(2); int ex = 5; CHECK_THAT(at.compare_exchange_strong(ex, 6) && at == 6, "atomic");
	std::atomic_flag fl{}; CHECK_THAT(!fl.test_and_set(), "flag");
	std::atomic<std::shared_ptr<int>> asp{std::make_shared<int>(4)}; CHECK_THAT(*asp.load() == 4, "atomic sp");
	thread_local int tl = 3; ++tl;
	CHECK_THAT(tl == 4, "tls");
	sym::reach("end");
}
HARNESS(texts)
{
	const int x = sym::range<int>("x", 0, 120);
	CHECK_THAT(std::to_string(x) == std::format("{}", x), "to_string");
	std::ostringstream os; os << x << ' ' << "abc" << std::string("d") << 'e' << true << -5L << 7u;
	CHECK_THAT(os.str() == std::to_string(x) + " abcde1-57", "stream");
	std::ostringstream o2; o2 << std::hex << 255 << std::setw(4) << std::setfill('0') << 10 << std::boolalpha << false << std::dec << 10;
	CHECK_THAT(o2.str() == "ff000afalse10", "manip");
	char b[16]; auto r = std::to_chars(b, b + 16, x); CHECK_THAT(std::string(b, r.ptr) == std::to_string(x), "to_chars");
	int y{}; const std::string sx = std::to_string(x); std::from_chars(sx.data(), sx.data() + sx.size(), y); CHECK_THAT(y == x, "from_chars");
	CHECK_THAT(std::stoi("42") == 42, "stoi");
	char buf[32]; std::snprintf(buf, 32, "%d-%s", 12, "ab"); CHECK_THAT(!std::strcmp(buf, "12-ab"), "snprintf");
	std::string s{"hello"}; s.insert(2, "XX"); s.erase(0, 1); s.replace(0, 1, "yy"); s += s; s.push_back('c'); s.resize(20, 'z'); std::ranges::reverse(s); std::ranges::sort(s);
	CHECK_THAT(s.find("z") != s.npos && s.rfind('y') != s.npos && s.find_first_of("XY") != s.npos && s.starts_with("X"), "string");
	std::istringstream is{"1 2 abc"}; int p, q; std::string w; is >> p >> q >> w; CHECK_THAT(p == 1 && q == 2 && w == "abc", "istream");
	std::stringstream ss; ss << "l1\nl2"; std::string l; std::getline(ss, l); CHECK_THAT(l == "l1", "getline");
	sym::reach("end");
}
HARNESS(formats)
{
	CHECK_THAT(std::format("{:>5}|{:<4}|{:^5}|{:#x}|{:05}|{:b}|{:c}|{}", 1, 2, "m", 255, 42, 5, 'c', true).size() > 10, "format");
	CHECK_THAT(std::format("{1} {0} {0:>{2}}", "a", "b", 3) == "b a   a", "positions");
	CHECK_THAT(std::format("{}", static_cast<const void*>(nullptr)) == "0x0", "pointer");
	std::string o; std::format_to(std::back_inserter(o), "{}{}", 1.5, 2.25f); CHECK_THAT(o == "1.52.25", "double");
	CHECK_THAT(std::vformat("{}", std::make_format_args(o)) == o, "vformat");
	CHECK_THAT(std::formatted_size("{}", 123) == 3, "size");
	sym::reach("end");
}
HARNESS(algorithms)
{
	std::vector<int> v{5, 3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3, 2, 3, 8};
	std::ranges::stable_sort(v); std::ranges::stable_partition(v, [](int i) { return i & 1; }); std::ranges::inplace_merge(v, v.begin() + 10);
	std::ranges::nth_element(v, v.begin() + 3); std::ranges::partial_sort(v, v.begin() + 4); std::ranges::make_heap(v); std::ranges::sort_heap(v);
	CHECK_THAT(std::ranges::is_sorted(v), "sorted");
	std::vector<int> w; std::ranges::copy(v | std::views::filter([](int i) { return i > 4; }) | std::views::transform([](int i) { return i * 2; }) | std::views::take(3), std::back_inserter(w));
	CHECK_THAT(w.size() == 3 && std::accumulate(w.begin(), w.end(), 0) == 30, "views");
	CHECK_THAT(std::ranges::max_element(v) != v.end() && std::ranges::adjacent_find(v) != v.end() && std::ranges::is_permutation(v, v), "more");
	std::deque<int> d(100, 1); d.push_front(2); d.pop_back(); std::list<int> l{3, 1, 2}; l.sort(); l.splice(l.begin(), std::list<int>{9}); std::forward_list<int> fl{1, 2}; fl.reverse();
	std::priority_queue<int> pq; pq.push(3); pq.push(7); CHECK_THAT(pq.top() == 7, "pq");
	std::multiset<int> ms{1, 1, 2}; CHECK_THAT(ms.count(1) == 2, "multiset");
	std::vector<bool> vb(70, true); vb[3] = false; CHECK_THAT(std::ranges::count(vb, true) == 69, "vb");
	std::bitset<70> bs; bs.set(5); CHECK_THAT(bs.count() == 1, "bitset");
	std::pmr::vector<int> pv{std::pmr::get_default_resource()}; pv.push_back(1);
	sym::reach("end");
}
struct E1 : std::runtime_error { using std::runtime_error::runtime_error; };
HARNESS(exceptions)
{
	int n = 0;
	try { try { throw E1{"a"}; } catch (...) { std::throw_with_nested(std::logic_error{"b"}); } }
	catch (const std::exception& e) { try { std::rethrow_if_nested(e); } catch (const E1& i) { n = i.what()[0]; } }
	CHECK_THAT(n == 'a', "nested");
	try { throw std::system_error{std::make_error_code(std::errc::invalid_argument)}; } catch (const std::system_error& e) { n = e.code().value(); }
	CHECK_THAT(n == EINVAL, "system_error");
	std::exception_ptr p = std::make_exception_ptr(5); try { std::rethrow_exception(p); } catch (int i) { n = i; }
	CHECK_THAT(n == 5, "ptr");
	try { (void)dynamic_cast<E1&>(static_cast<std::exception&>(*std::make_unique<std::runtime_error>("x"))); } catch (const std::bad_cast&) { n = 6; }
	CHECK_THAT(n == 6, "cast");
	std::cout << "x" << std::endl; std::cerr << 1 << std::flush; std::clog << "y\n"; std::fputs("a", stderr); std::puts("b"); std::printf("%d", 3); std::fflush(stdout);
	sym::reach("end");
}
HARNESS(misc)
{
	auto now = std::chrono::steady_clock::now(); (void)now; (void)std::chrono::system_clock::now();
	(void)std::getenv("HOME");
	
	CHECK_THAT(std::toupper('a') == 'A' && std::isdigit('3') && std::isspace(' ') && std::isalnum('x') && std::ispunct('!') && std::isprint('a'), "ctype");
	CHECK_THAT(std::strlen("abc") == 3 && std::strncmp("abc", "abd", 2) == 0 && std::strchr("abc", 'b') && std::strstr("abc", "bc") && std::memchr("abc", 'c', 3) && std::strrchr("aba",'a'), "cstr");
	std::complex<double> c{1, 2}; CHECK_THAT(c.real() == 1, "complex");
	sym::reach("end");
}

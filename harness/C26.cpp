// BOUNDS: two threads (three in `three`) with 3 and 2 (thorough 3) operations on one mock that already has two expectations; thread 0: create, end or call (the shared expectation, its own, one of the other thread, none); thread 1: create, end satisfied or unsatisfied ones; every interleaving at lock acquisitions, races between all pairs of accesses by happens-before
// BOUNDS: memory model: sequentially consistent interleavings; unsynchronised conflicting accesses are reported as races irrespective of the order they happen in
// OUTSIDE: two threads calling the same mock at the same time (counters are advanced outside the lock; nothing is promised), ending an expectation that a call of another thread is using, sequences (documented as not thread-safe), is_satisfied() while another thread calls
// TRUST-SCHEDULE
#include "common.hpp"
using namespace mimicpp;
namespace e = mimicpp::expect;
namespace f = mimicpp::finally;
extern "C" char __libc_single_threaded;

using MockT = Mock<int(Sym)>;

static const char* const op0n[]{"a0", "a1", "a2", "a3"};
static const char* const op1n[]{"b0", "b1", "b2", "b3"};
static const char* const op2n[]{"c0", "c1", "c2"};
constexpr int opsOf[]{3, THOROUGH ? 3 : 2};

struct Worker
{
	MockT* mock{};
	int id{};
	int ops[4]{};
	int count{};
	ScopedExpectation* own[4]{};
	int bits[4]{};
	bool live[4]{};
	int called[4]{};
	int created{};
	ScopedExpectation* shared{}; // handed over by the main thread
	int sharedCalls{}, full{}, none{}, unfulfilled{}, peerCalls{};
	bool ok{true};

	void create()
	{
		const int k = created++;
		bits[k] = 4 + 4 * id + k;
		own[k] = new ScopedExpectation(mock->expect_call(bit(bits[k])) && e::times(id == 0 ? 0 : 1, 2) && f::returns(bits[k]));
		live[k] = true;
	}
	void destroy()
	{
		for (int k = 0; k < 4; ++k)
			if (live[k])
			{
				live[k] = false;
				if (id != 0)
					++unfulfilled;
				delete std::exchange(own[k], nullptr);
				return;
			}
		if (shared)
			delete std::exchange(shared, nullptr);
	}
	void call(unsigned pattern, int want)
	{
		int got = -1;
		const Outcome o = attempt([&] { got = (*mock)(Sym{pattern}); });
		if (want >= 0)
		{
			++full;
			ok = ok && o == Outcome::ok && got == want;
		}
		else
		{
			++none;
			ok = ok && o == Outcome::noMatch;
		}
	}
	void run()
	{
		for (int s = 0; s < count; ++s)
			switch (ops[s])
			{
			case 0: create(); break;
			case 1: destroy(); break;
			case 2:
				call(1u, 0); // the shared expectation
				++sharedCalls;
				break;
			case 3:
				for (int k = 0; k < 4; ++k)
					if (live[k] && called[k] < 2)
					{
						call(1u << bits[k], bits[k]);
						++called[k];
						break;
					}
				break;
			default: call(1u << 30, -1); break;
			}
	}
	static void entry(void* self) { static_cast<Worker*>(self)->run(); }
};

static void after(MockT& mock, Worker* w, int n)
{
	int full = 0, none = 0, unfulfilled = 0;
	for (int i = 0; i < n; ++i)
	{
		CHECK_THAT(w[i].ok, "every overlapping call ends as without the other thread");
		full += w[i].full;
		none += w[i].none;
		unfulfilled += w[i].unfulfilled;
	}
	CHECK_THAT(rec.full == full && rec.noMatch == none && rec.inapplicable == 0, "every call is reported once");
	CHECK_THAT(rec.unfulfilled == unfulfilled, "every unmet expectation is reported once");
	// the store holds exactly the live expectations
	for (int i = 0; i < n; ++i)
		for (int k = 0; k < w[i].created; ++k)
		{
			int got = -1;
			const Outcome o = attempt([&] { got = mock(Sym{1u << w[i].bits[k]}); });
			if (!w[i].live[k])
				CHECK_THAT(o == Outcome::noMatch && rec.reports.size() >= 1, "an ended expectation is gone");
			else
				CHECK_THAT(o == (w[i].called[k] < 2 ? Outcome::ok : Outcome::inapplicable), "no expectation is lost");
			if (o == Outcome::ok)
				CHECK_THAT(got == w[i].bits[k], "the right one");
		}
	int live = 1;
	for (int i = 0; i < n; ++i)
	{
		for (bool l : w[i].live)
			live += l;
		live += w[i].shared != nullptr;
	}
	CHECK_THAT(attempt([&] { mock(Sym{0}); }) == Outcome::noMatch, "a call nobody accepts");
	CHECK_THAT(static_cast<int>(rec.reports.size()) == live, "no expectation is lost or duplicated");
	for (int i = 0; i < n; ++i)
	{
		for (auto*& p : w[i].own)
			delete std::exchange(p, nullptr);
		delete std::exchange(w[i].shared, nullptr);
	}
	CHECK_THAT(attempt([&] { mock(Sym{0}); }) == Outcome::noMatch && rec.reports.size() == 1, "only the shared expectation is left");
}

HARNESS(two)
{
	setup();
	clear_rec();
	MockT mock{};
	ScopedExpectation base = mock.expect_call(bit(0)) && e::times(0, 50) && f::returns(0);
	Worker w[2]{};
	w[1].shared = new ScopedExpectation(mock.expect_call(bit(1)) && e::times(0, 1) && f::returns(1));
	for (int i = 0; i < 2; ++i)
	{
		w[i].mock = &mock;
		w[i].id = i;
		w[i].count = opsOf[i];
		for (int s = 0; s < opsOf[i]; ++s)
			w[i].ops[s] = i == 0 ? sym::choice(op0n[s], 5) : sym::choice(op1n[s], 2);
	}
	__libc_single_threaded = 0;
	const int a = __sym_thread(&Worker::entry, &w[0]);
	const int b = __sym_thread(&Worker::entry, &w[1]);
	__sym_join(a);
	__sym_join(b);
	after(mock, w, 2);
	if (w[0].full && w[1].created && w[1].unfulfilled)
		sym::reach("call, creation and end");
	if (w[0].created && w[1].created)
		sym::reach("both create");
}

// the main thread calls while two others create and end expectations
HARNESS(three)
{
	setup();
	clear_rec();
	MockT mock{};
	ScopedExpectation base = mock.expect_call(bit(0)) && e::times(0, 50) && f::returns(0);
	Worker w[3]{};
	w[1].shared = new ScopedExpectation(mock.expect_call(bit(1)) && e::times(0, 1) && f::returns(1));
	w[2].shared = new ScopedExpectation(mock.expect_call(bit(2)) && e::times(0, 1) && f::returns(2));
	for (int i = 0; i < 3; ++i)
	{
		w[i].mock = &mock;
		w[i].id = i;
		w[i].count = i == 0 ? 2 : 1;
		w[i].ops[0] = i == 0 ? 2 + sym::choice(op0n[0], 3) : i == 1 ? sym::choice(op1n[0], 2) : sym::choice(op2n[0], 2);
		w[i].ops[1] = i == 0 ? 2 : 0;
	}
	__libc_single_threaded = 0;
	const int a = __sym_thread(&Worker::entry, &w[1]);
	const int b = __sym_thread(&Worker::entry, &w[2]);
	w[0].run();
	__sym_join(a);
	__sym_join(b);
	after(mock, w, 3);
	sym::reach("three");
}

// a call that the expectation of the other thread may serve, too: any argument, any limits
HARNESS(either)
{
	setup();
	clear_rec();
	MockT mock{};
	const Sym arg{1u + static_cast<unsigned>(sym::choice("arg", 3))};
	const int n = sym::range<int>("n", 0, 2);
	ScopedExpectation base = mock.expect_call(bit(0)) && e::times(0, 2) && f::returns(0);
	struct Creator
	{
		MockT& mock;
		int n;
		ScopedExpectation* exp{};
		static void entry(void* p)
		{
			Creator& c = *static_cast<Creator*>(p);
			c.exp = new ScopedExpectation(c.mock.expect_call(bit(1)) && e::times(0, c.n) && f::returns(1));
		}
	} c{mock, n};
	__libc_single_threaded = 0;
	const int t = __sym_thread(&Creator::entry, &c);
	int results[3]{0, 0, 0}, refused = 0;
	for (int s = 0; s < 2; ++s)
	{
		int got = 2;
		(void)attempt([&] { got = mock(arg); });
		++results[got];
	}
	refused = results[2];
	__sym_join(t);
	CHECK_THAT(results[0] <= 2 && results[1] <= n, "no expectation is used more often than it allows");
	if (arg.v == 1u)
		CHECK_THAT(results[0] == 2 && refused == 0, "calls of the first are served by the first");
	if (arg.v == 2u)
		CHECK_THAT(results[0] == 0 && results[1] + refused == 2, "calls of the second are served by the second");
	if (arg.v == 3u)
		CHECK_THAT(refused == 0, "a call that some live expectation accepts is not refused");
	CHECK_THAT(c.exp->is_satisfied() && base.is_satisfied(), "counts");
	if (results[0] == 1 && results[1] == 1)
		sym::reach("served by both");
	delete c.exp;
}

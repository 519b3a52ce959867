// BOUNDS: history*: every history of 6 (thorough 7; with payload 5, thorough 6) steps over two object slots: create, destroy, copy-construct, move-construct, copy-assign, move-assign (onto itself included), create a destruct expectation, end one; all invalid steps excluded
// BOUNDS: both for a bare LifetimeWatcher and for Watched objects with an arbitrary 32-bit payload, with and without a virtual destructor, and combined with a RelocationWatcher
// ASSUME: a moved-from object gets no new destruct expectation
// OUTSIDE: bases whose operations are noexcept while the reporter throws (documented: the watched object takes over the exception specification of its base)
#include "common.hpp"
using namespace mimicpp;
namespace e = mimicpp::expect;
using U = std::uint32_t;

struct Payload
{
	U v{};
	Payload() = default;
	explicit Payload(U x) : v{x} {}
	~Payload() noexcept(false) {}
	Payload(const Payload& o) noexcept(false) : v{o.v} {}
	Payload(Payload&& o) noexcept(false) : v{o.v} {}
	Payload& operator=(const Payload& o) noexcept(false)
	{
		v = o.v;
		return *this;
	}
	Payload& operator=(Payload&& o) noexcept(false)
	{
		v = o.v;
		return *this;
	}
};
struct VPayload
{
	U v{};
	VPayload() = default;
	explicit VPayload(U x) : v{x} {}
	virtual ~VPayload() noexcept(false) {}
	VPayload(const VPayload& o) noexcept(false) : v{o.v} {}
	VPayload(VPayload&& o) noexcept(false) : v{o.v} {}
	VPayload& operator=(const VPayload& o) noexcept(false)
	{
		v = o.v;
		return *this;
	}
	VPayload& operator=(VPayload&& o) noexcept(false)
	{
		v = o.v;
		return *this;
	}
};

// what a destruct expectation is tied to
struct Watch
{
	bool hasExp{}, met{}, ended{};
};
struct SlotModel
{
	bool alive{};
	int watch{-1}; // -1: moved from
	bool expCreated{};
	U payload{};
};

template <typename T>
static T* make_obj(U v)
{
	if constexpr (std::is_constructible_v<T, U>)
		return new T(v);
	else
		return new T{};
}
template <typename T>
static U payload_of(const T& t)
{
	if constexpr (requires { t.v; })
		return t.v;
	else
		return 0;
}

static const char* const opn[]{"op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7"};
static const char* const pn[]{"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"};

enum Op
{
	opCreate,
	opDestroy,
	opCopyCtor,
	opMoveCtor,
	opCopyAssign,
	opMoveAssign,
	opSelfCopy,
	opSelfMove,
	opExpect,
	opEndExp,
	opCount
};

template <typename T>
static void history(const int steps, const bool inFlight = false)
{
	setup();
	rec = Rec{};
	T* slot[2]{};
	SlotModel ms[2]{};
	std::vector<Watch> watches{};
	std::vector<std::optional<ScopedExpectation>> exps{};
	int full = 0, none = 0, unfulfilled = 0;
	// reports the end of the watch of a slot; true if that is a failure
	auto end_watch = [&](SlotModel& m) {
		bool fails = false;
		if (m.watch >= 0)
		{
			Watch& w = watches[static_cast<std::size_t>(m.watch)];
			if (w.hasExp && !w.ended && !w.met)
			{
				w.met = true;
				++full;
			}
			else
			{
				++none;
				fails = true;
			}
		}
		m.watch = -1;
		return fails;
	};
	auto fresh = [&](SlotModel& m) {
		watches.emplace_back();
		exps.emplace_back();
		m.watch = static_cast<int>(watches.size()) - 1;
		m.expCreated = false;
	};
	auto verify = [&] {
		CHECK_THAT(rec.full == full, "the end of an expected object is a match, exactly once");
		CHECK_THAT(rec.noMatch == none, "the end of an object without expectation is a mismatch, exactly once");
		CHECK_THAT(rec.unfulfilled == unfulfilled, "an expectation that ends unmet is reported exactly once");
		CHECK_THAT(rec.inapplicable == 0 && rec.error == 0 && rec.unhandled == 0, "nothing else is reported");
		for (std::size_t i = 0; i < exps.size(); ++i)
			if (exps[i])
				CHECK_THAT(exps[i]->is_satisfied() == watches[i].met, "a destruct expectation is fulfilled exactly when its object ended");
		for (int i = 0; i < 2; ++i)
			if (ms[i].alive && std::is_constructible_v<T, U>)
				CHECK_THAT(payload_of(*slot[i]) == ms[i].payload, "the watched object itself behaves like its base");
	};
	auto guarded = [&](bool fails, auto&& f) {
		bool thrown = false;
		try
		{
			f();
		}
		catch (const NoMatchEx&)
		{
			thrown = true;
		}
		CHECK_THAT(thrown == fails, "a failure reaches the caller");
	};
	// the first object exists from the beginning
	ms[0] = SlotModel{true, -1, false, sym::make<U>("p")};
	slot[0] = make_obj<T>(ms[0].payload);
	fresh(ms[0]);
	auto step = [&](const int s) -> bool
	{
		const int code = sym::choice(opn[s], opCount * 2);
		const int op = code >> 1, i = code & 1, j = 1 - i;
		switch (op)
		{
		case opCreate:
			if (ms[i].alive)
				return false;
			ms[i] = SlotModel{true, -1, false, sym::make<U>(pn[s])};
			slot[i] = make_obj<T>(ms[i].payload);
			fresh(ms[i]);
			break;
		case opDestroy:
		{
			if (!ms[i].alive)
				return false;
			ms[i].alive = false;
			const bool fails = end_watch(ms[i]);
			guarded(fails, [&] { delete slot[i]; });
			slot[i] = nullptr;
			break;
		}
		case opCopyCtor:
			if (ms[i].alive || !ms[j].alive)
				return false;
			slot[i] = new T(std::as_const(*slot[j]));
			ms[i] = SlotModel{true, -1, false, ms[j].payload};
			fresh(ms[i]);
			break;
		case opMoveCtor:
			if (ms[i].alive || !ms[j].alive)
				return false;
			slot[i] = new T(std::move(*slot[j]));
			ms[i] = ms[j];
			ms[j].watch = -1;
			break;
		case opCopyAssign:
		case opSelfCopy:
		{
			const int from = op == opSelfCopy ? i : j;
			if (!ms[i].alive || !ms[from].alive)
				return false;
			const bool fails = end_watch(ms[i]);
			guarded(fails, [&] { *slot[i] = std::as_const(*slot[from]); });
			if (!fails)
			{
				ms[i].payload = ms[from].payload;
				fresh(ms[i]);
			}
			break;
		}
		case opMoveAssign:
			if (!ms[i].alive || !ms[j].alive)
				return false;
			// the former watch of the target is gone without having been destroyed or copy-assigned over
			*slot[i] = std::move(*slot[j]);
			ms[i] = ms[j];
			ms[j].watch = -1;
			break;
		case opSelfMove:
		{
			if (!ms[i].alive)
				return false;
			T& self = *slot[i];
			*slot[i] = std::move(self);
			break;
		}
		case opExpect:
		{
			if (!ms[i].alive || ms[i].watch < 0)
				return false;
			bool thrown = false;
			try
			{
				exps[static_cast<std::size_t>(ms[i].watch)].emplace(slot[i]->expect_destruct());
			}
			catch (const std::logic_error&)
			{
				thrown = true;
			}
			CHECK_THAT(thrown == ms[i].expCreated, "a second destruct expectation is refused");
			if (!thrown)
				watches[static_cast<std::size_t>(ms[i].watch)].hasExp = true;
			else
				sym::reach("second refused");
			ms[i].expCreated = true;
			break;
		}
		default:
		{
			// end the i-th live expectation
			std::size_t k = 0;
			int seen = 0;
			for (; k < exps.size(); ++k)
				if (exps[k] && seen++ == i)
					break;
			if (k == exps.size())
				return false;
			exps[k].reset();
			watches[k].ended = true;
			if (!watches[k].met)
			{
				++unfulfilled;
				sym::reach("unfulfilled");
			}
			break;
		}
		}
		verify();
		return true;
	};
	for (int s = 0; s < steps; ++s)
	{
		bool possible = false;
		perhaps_in_flight(inFlight, [&] { possible = step(s); });
		if (!possible)
			return;
	}
	for (std::size_t k = 0; k < exps.size(); ++k)
		if (exps[k])
		{
			exps[k].reset();
			watches[k].ended = true;
			if (!watches[k].met)
				++unfulfilled;
		}
	verify();
	for (int i = 0; i < 2; ++i)
		if (ms[i].alive)
		{
			ms[i].alive = false;
			const bool fails = end_watch(ms[i]);
			guarded(fails, [&] { delete slot[i]; });
		}
	verify();
	if (full)
		sym::reach("fulfilled");
	if (none)
		sym::reach("unexpected end");
}

HARNESS(history_bare) { history<LifetimeWatcher>(THOROUGH ? 7 : 6); }
HARNESS(history_watched) { history<Watched<Payload, LifetimeWatcher>>(THOROUGH ? 6 : 5); }
HARNESS(history_virtual) { history<Watched<VPayload, LifetimeWatcher>>(THOROUGH ? 6 : 5); }
// the same while a foreign exception propagates
HARNESS(history_in_flight) { history<LifetimeWatcher>(THOROUGH ? 5 : 4, true); }
HARNESS(history_in_flight_watched) { history<Watched<Payload, LifetimeWatcher>>(THOROUGH ? 5 : 4, true); }

// together with a relocation watcher which accepts every move
HARNESS(combined)
{
	setup();
	rec = Rec{};
	using T = Watched<Payload, LifetimeWatcher, RelocationWatcher>;
	const U v = sym::make<U>("v");
	auto a = std::make_unique<T>(v);
	ScopedExpectation move = a->expect_relocate() && e::times(0, 5);
	std::optional<ScopedExpectation> end{a->expect_destruct()};
	std::unique_ptr<T> cur = std::move(a);
	int moves = 0;
	for (int s = 0; s < 3; ++s)
		if (sym::flag(opn[s]))
		{
			T* next = new T(std::move(*cur));
			T* old = cur.release();
			delete old; // moved from: reports nothing
			cur.reset(next);
			++moves;
			CHECK_THAT(rec.full == moves && rec.total() == moves, "moved-from objects report nothing at their end");
			CHECK_THAT(!end->is_satisfied(), "the destruct expectation moved along");
		}
	CHECK_THAT(cur->v == v, "payload");
	if (sym::flag("end"))
	{
		delete cur.release();
		CHECK_THAT(rec.full == moves + 1 && rec.total() == moves + 1, "the destruct expectation is met by the last object");
		CHECK_THAT(end->is_satisfied(), "satisfied");
		end.reset();
		CHECK_THAT(rec.unfulfilled == 0, "met");
		sym::reach("combined met");
	}
	else
	{
		end.reset();
		CHECK_THAT(rec.unfulfilled == 1, "unmet expectation reported once");
		bool thrown = false;
		try
		{
			delete cur.release();
		}
		catch (const NoMatchEx&)
		{
			thrown = true;
		}
		CHECK_THAT(thrown && rec.noMatch == 1, "unexpected end");
	}
}

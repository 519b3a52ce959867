// BOUNDS: one_mock: 3 elements (thorough: 4) with limits 0<=min<=max<=2, 5 calls, each aimed at an arbitrary element
// BOUNDS: two_mocks: 3 elements on two mocks, lazy or greedy, 5 calls
// BOUNDS: late_attach: histories of 6 steps over {attach element, call element, destroy an attached expectation}, up to 4 elements, limits 0..2
// BOUNDS: limits: a first element with every valid (min,max) over all of int, used 0..5 times, optionally a required element between it and the tried one
// BOUNDS: crowd: 300 optional elements in one sequence, two calls at selected positions
// BOUNDS: long: 40 elements, symbolic position of the calls (which element is tried after k elements are done), limits 1..1 / 0..1
// OUTSIDE: longer histories, larger limits; which of several eligible expectations is taken (C07); several sequences per expectation (C08)
// OPTIONS *: --max-inst 200000000
#include "common.hpp"
#include "seqmodel.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;

struct Item
{
	ScopedExpectation exp;
	int id;
};

static bool satisfied(const SeqModel& s, int i)
{
	const auto& e = s.els[static_cast<std::size_t>(i)];
	return e.min <= e.count && e.count <= e.max;
}

HARNESS(one_mock)
{
	setup();
	constexpr int n = THOROUGH ? 4 : 3;
	Mock<int(Sym)> mock{};
	SequenceT seq{};
	SeqModel model{};
	std::vector<Item> items{};
	for (int i = 0; i < n; ++i)
	{
		const int min = sym::range<int>("min", 0, 2), max = sym::range<int>("max", 0, 2);
		sym::assume(min <= max);
		model.add(min, max);
		items.push_back({finalize_at(mock.expect_call(bit(i)) && expect::times(min, max) && expect::in_sequence(seq) && finally::returns(i), i), i});
	}
	for (int c = 0; c < 5; ++c)
	{
		const int t = sym::choice("target", n);
		int got = -1;
		const Outcome o = attempt([&] { got = mock(Sym{1u << t}); });
		const bool ok = model.eligible(t);
		CHECK_THAT(o == (ok ? Outcome::ok : Outcome::inapplicable), "accepts exactly when it is the element's turn");
		if (ok)
		{
			CHECK_THAT(got == t, "the targeted element accepted");
			model.accept(t);
			if (t > 0)
				sym::reach("advanced");
		}
		else
			sym::reach("out of order");
		for (int i = 0; i < n; ++i)
			CHECK_THAT(items[static_cast<std::size_t>(i)].exp.is_satisfied() == satisfied(model, i), "a rejected call changes nothing");
		sym::observe("outcome", static_cast<unsigned>(o));
	}
}

template <typename Sequence>
static void two_mocks_impl()
{
	Mock<int(Sym)> a{};
	Mock<void()> b{};
	Sequence seq{};
	SeqModel model{};
	int min[3], max[3];
	for (int i = 0; i < 3; ++i)
	{
		min[i] = sym::range<int>("min", 0, 1);
		max[i] = sym::range<int>("max", 1, 2);
		model.add(min[i], max[i]);
	}
	ScopedExpectation e0 = a.expect_call(bit(0)) && expect::in_sequence(seq) && expect::times(min[0], max[0]) && finally::returns(0);
	ScopedExpectation e1 = b.expect_call() && expect::times(min[1], max[1]) && expect::in_sequence(seq);
	ScopedExpectation e2 = a.expect_call(bit(2)) && expect::in_sequence(seq) && finally::returns(2) && expect::times(min[2], max[2]);
	for (int c = 0; c < 5; ++c)
	{
		const int t = sym::choice("target", 3);
		const Outcome o = attempt([&] {
			if (t == 1)
				b();
			else
				a(Sym{1u << t});
		});
		const bool ok = model.eligible(t);
		CHECK_THAT(o == (ok ? Outcome::ok : Outcome::inapplicable), "order is enforced across mocks");
		if (ok)
		{
			model.accept(t);
			if (t == 2)
				sym::reach("across mocks");
		}
	}
	CHECK_THAT(e0.is_satisfied() == satisfied(model, 0) && e1.is_satisfied() == satisfied(model, 1) && e2.is_satisfied() == satisfied(model, 2), "counts");
}

HARNESS(two_mocks)
{
	setup();
	if (sym::flag("greedy"))
		two_mocks_impl<GreedySequence>();
	else
		two_mocks_impl<LazySequence>();
}

HARNESS(late_attach)
{
	setup();
	Mock<int(Sym)> mock{};
	std::optional<SequenceT> seq{};
	seq.emplace();
	SeqModel model{};
	std::vector<Item> items{};
	for (int step = 0; step < (THOROUGH ? 7 : 6); ++step)
	{
		const int op = step == 0 ? 0 : sym::choice("op", 3);
		if (op == 0)
		{
			if (model.els.size() >= 4)
				__sym_stop();
			const int min = sym::range<int>("min", 0, 2), max = sym::range<int>("max", 1, 2);
			sym::assume(min <= max);
			const int i = model.add(min, max);
			items.push_back({finalize_at(mock.expect_call(bit(i)) && expect::times(min, max) && expect::in_sequence(*seq) && finally::returns(i), i), i});
			if (step > 2 && model.cursor > 0)
				sym::reach("attached after progress");
		}
		else if (op == 1)
		{
			const int t = sym::choice("target", static_cast<int>(model.els.size()));
			bool alive = false;
			for (auto& it : items)
				alive |= it.id == t;
			const Outcome o = attempt([&] { (void)mock(Sym{1u << t}); });
			const bool ok = alive && model.eligible(t);
			CHECK_THAT(o == (!alive ? Outcome::noMatch : ok ? Outcome::ok : Outcome::inapplicable), "accepts exactly when it is the element's turn");
			if (ok)
				model.accept(t);
			for (auto& it : items)
				CHECK_THAT(it.exp.is_satisfied() == satisfied(model, it.id), "counts");
		}
		else
		{
			if (items.empty())
				__sym_stop();
			const int k = sym::choice("victim", static_cast<int>(items.size()));
			items.erase(items.begin() + k);
			sym::reach("destroyed element");
		}
	}
}

HARNESS(long_sequence)
{
	setup();
	constexpr int n = 40;
	Mock<void(Sym)> mock{};
	SequenceT seq{};
	std::vector<ScopedExpectation> exps{};
	const bool optional = sym::flag("optional");
	for (int i = 0; i < n; ++i)
		exps.push_back(mock.expect_call(m::eq(Sym{static_cast<std::uint32_t>(i)})) && expect::times(optional ? 0 : 1, 1) && expect::in_sequence(seq));
	// k elements done in order, then one arbitrary element is tried
	const int k = sym::choice("done", n);
	for (int i = 0; i < k; ++i)
		CHECK_THAT(attempt([&] { mock(Sym{static_cast<std::uint32_t>(i)}); }) == Outcome::ok, "in order");
	const Sym t{sym::make<std::uint32_t>("target")};
	const Outcome o = attempt([&] { mock(t); });
	const bool ok = optional ? t.v >= static_cast<unsigned>(k) && t.v < n : t.v == static_cast<unsigned>(k);
	CHECK_THAT(o == (ok ? Outcome::ok : t.v < n ? Outcome::inapplicable : Outcome::noMatch), "only the elements whose turn it is accept");
	if (ok)
		sym::reach("long ok");
	__sym_done();
}

// positions beyond what small integers hold
HARNESS(crowd)
{
	setup();
	constexpr int n = 300;
	static constexpr int at[]{0, 1, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, n - 1};
	Mock<void(Sym)> mock{};
	SequenceT seq{};
	std::vector<ScopedExpectation> exps{};
	for (int i = 0; i < n; ++i)
		exps.push_back(mock.expect_call(Sym{static_cast<std::uint32_t>(i)}) && expect::at_most(1) && expect::in_sequence(seq));
	const int a = at[sym::choice("a", 13)], b = at[sym::choice("b", 13)];
	CHECK_THAT(attempt([&] { mock(Sym{static_cast<std::uint32_t>(a)}); }) == Outcome::ok, "any optional element may start");
	CHECK_THAT(attempt([&] { mock(Sym{static_cast<std::uint32_t>(b)}); }) == (b > a ? Outcome::ok : Outcome::inapplicable), "later ones may follow, earlier ones may not");
	if (b > a)
		sym::reach("crowd");
	__sym_done();
}

// an element lets its successors pass when its own minimum is reached, whatever that is
HARNESS(limits)
{
	setup();
	Mock<void(Sym)> mock{};
	SequenceT seq{};
	const int min = sym::make<int>("min"), max = sym::make<int>("max");
	sym::assume(0 <= min && min <= max);
	const bool between = sym::flag("between");
	ScopedExpectation first = mock.expect_call(Sym{0}) && expect::times(min, max) && expect::in_sequence(seq);
	std::optional<ScopedExpectation> second{};
	if (between)
		second.emplace(mock.expect_call(Sym{1}) && expect::times(0, 3) && expect::in_sequence(seq));
	ScopedExpectation third = mock.expect_call(Sym{2}) && expect::times(0, 3) && expect::in_sequence(seq);
	const int calls = sym::choice("calls", 6);
	int count = 0;
	for (int i = 0; i < calls; ++i)
	{
		const Outcome o = attempt([&] { mock(Sym{0}); });
		CHECK_THAT(o == (count < max ? Outcome::ok : Outcome::inapplicable), "the first element takes what its limit allows");
		if (o == Outcome::ok)
			++count;
	}
	CHECK_THAT(first.is_satisfied() == (min <= count), "satisfied");
	const Outcome o = attempt([&] { mock(Sym{2}); });
	CHECK_THAT(o == (min <= count ? Outcome::ok : Outcome::inapplicable), "the last element accepts exactly when the first one is satisfied");
	const Outcome again = attempt([&] { mock(Sym{0}); });
	CHECK_THAT(again == (o != Outcome::ok && count < max ? Outcome::ok : Outcome::inapplicable), "and the first one is closed then");
	if (o == Outcome::ok && count >= 3)
		sym::reach("after three");
	if (o != Outcome::ok && count >= 3)
		sym::reach("not yet after three");
	__sym_done();
}

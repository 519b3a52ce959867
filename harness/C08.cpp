// BOUNDS: conjunction: 2 sequences (lazy/greedy/mixed), 4 expectations: one in both, one per sequence, one more in both (reverse order), limits 0..2, 4 calls (thorough: 5) at arbitrary targets
// BOUNDS: three_sequences: one expectation in three sequences, blocked in any subset of them by predecessors
// BOUNDS: limits: an element of two sequences with every valid (min,max) over all of int, used 0..5 times, then its successor in one of them is tried
// BOUNDS: duplicates: every pair/triple over three sequence objects given in one statement, every pair and pair+one in separate statements, heap addresses ascending and descending
// OUTSIDE: more than three sequences per expectation; preference between expectations whose memberships differ
#include "common.hpp"
#include "seqmodel.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;

static bool contains(const std::vector<sequence::Tag>& v, sequence::Tag t)
{
	for (auto& x : v)
		if (x == t)
			return true;
	return false;
}

template <typename S0, typename S1>
static void conjunction_impl()
{
	Mock<int(Sym)> mock{};
	S0 s{};
	S1 t{};
	SeqModel ms{}, mt{};
	// member of s / t: element numbers, -1 if not a member
	int in_s[4]{-1, -1, -1, -1}, in_t[4]{-1, -1, -1, -1};
	int min[4], max[4], count[4]{};
	for (int i = 0; i < 4; ++i)
	{
		min[i] = i == 3 ? 0 : sym::range<int>("min", 0, 1);
		max[i] = i == 0 || i == 1 ? sym::range<int>("max", 1, 2) : 1;
	}
	auto make = [&](int i, auto&& seq) -> ScopedExpectation {
		return mock.expect_call(bit(i)) && expect::times(min[i], max[i]) && std::move(seq) && finally::returns(i);
	};
	in_s[0] = ms.add(min[0], max[0]);
	ScopedExpectation e0 = make(0, expect::in_sequence(s));
	in_t[1] = mt.add(min[1], max[1]);
	ScopedExpectation e1 = make(1, expect::in_sequence(t));
	in_s[2] = ms.add(min[2], max[2]);
	in_t[2] = mt.add(min[2], max[2]);
	ScopedExpectation e2 = make(2, expect::in_sequences(s, t));
	in_t[3] = mt.add(min[3], max[3]);
	in_s[3] = ms.add(min[3], max[3]);
	ScopedExpectation e3 = mock.expect_call(bit(3)) && expect::in_sequence(t) && expect::times(min[3], max[3]) && expect::in_sequence(s) && finally::returns(3);
	const ScopedExpectation* es[4]{&e0, &e1, &e2, &e3};
	for (int c = 0; c < (THOROUGH ? 5 : 4); ++c)
	{
		const int target = sym::choice("target", 4);
		const bool full = count[target] == max[target];
		const bool ok_s = in_s[target] < 0 || ms.eligible(in_s[target]);
		const bool ok_t = in_t[target] < 0 || mt.eligible(in_t[target]);
		int got = -1;
		const Outcome o = attempt([&] { got = mock(Sym{1u << target}); });
		const bool ok = !full && ok_s && ok_t;
		CHECK_THAT(o == (ok ? Outcome::ok : Outcome::inapplicable), "accepts exactly if eligible in every sequence");
		if (ok)
		{
			CHECK_THAT(got == target, "target");
			++count[target];
			if (in_s[target] >= 0)
				ms.accept(in_s[target]);
			if (in_t[target] >= 0)
				mt.accept(in_t[target]);
			if (target >= 2)
				sym::reach("accepted in both");
		}
		else
		{
			CHECK_THAT(rec.reports.size() == 1, "one inapplicable expectation");
			const control_state_t& st = rec.reports[0].controlReport;
			if (full)
			{
				const auto* p = std::get_if<state_saturated>(&st);
				CHECK_THAT(p != nullptr, "saturated");
				CHECK_THAT(p->sequences.size() == static_cast<std::size_t>((in_s[target] >= 0) + (in_t[target] >= 0)), "sequences listed");
				CHECK_THAT((in_s[target] < 0 || contains(p->sequences, s.tag())) && (in_t[target] < 0 || contains(p->sequences, t.tag())), "its own sequences");
			}
			else
			{
				const auto* p = std::get_if<state_inapplicable>(&st);
				CHECK_THAT(p != nullptr, "inapplicable");
				CHECK_THAT(contains(p->inapplicableSequences, s.tag()) == !ok_s && contains(p->inapplicableSequences, t.tag()) == !ok_t
						&& p->inapplicableSequences.size() == static_cast<std::size_t>(!ok_s + !ok_t),
					"exactly the sequences in which it is not eligible are listed");
				if (ok_s != ok_t && target >= 2)
					sym::reach("blocked in one of two");
			}
		}
		for (int i = 0; i < 4; ++i)
			CHECK_THAT(es[i]->is_satisfied() == (min[i] <= count[i]), "nothing else changes");
		sym::observe("outcome", static_cast<unsigned>(o));
	}
}

HARNESS(conjunction)
{
	setup();
	switch (sym::choice("kinds", 3))
	{
	case 0: conjunction_impl<LazySequence, LazySequence>(); break;
	case 1: conjunction_impl<LazySequence, GreedySequence>(); break;
	default: conjunction_impl<GreedySequence, GreedySequence>(); break;
	}
}

HARNESS(three_sequences)
{
	setup();
	Mock<int(Sym)> mock{};
	LazySequence s[3]{};
	std::vector<ScopedExpectation> pre{};
	unsigned blocked = 0;
	for (int i = 0; i < 3; ++i)
	{
		const int min = sym::range<int>("min", 0, 1);
		if (sym::flag("predecessor"))
		{
			pre.push_back(mock.expect_call(bit(i)) && expect::times(min, 1) && expect::in_sequence(s[i]) && finally::returns(i));
			if (min == 1)
				blocked |= 1u << i;
		}
	}
	std::optional<ScopedExpectation> e{};
	if (sym::flag("onestmt"))
		e.emplace(mock.expect_call(bit(3)) && expect::in_sequences(s[0], s[1], s[2]) && finally::returns(3));
	else
		e.emplace(mock.expect_call(bit(3)) && expect::in_sequences(s[2], s[0]) && finally::returns(3) && expect::in_sequence(s[1]));
	// successors: usable only after (or, if optional, past) e
	ScopedExpectation post = mock.expect_call(bit(4)) && expect::in_sequence(s[1]) && finally::returns(4);
	for (int c = 0; c < 3; ++c)
	{
		const Outcome o = attempt([&] { (void)mock(Sym{8}); });
		CHECK_THAT(o == (blocked ? Outcome::inapplicable : Outcome::ok), "eligible in all three");
		if (!blocked)
		{
			sym::reach("all three");
			CHECK_THAT(attempt([&] { (void)mock(Sym{16}); }) == Outcome::ok, "accepting advances each sequence");
			for (std::size_t i = 0; i < 3; ++i)
				CHECK_THAT(attempt([&] { (void)mock(Sym{1u << i}); }) != Outcome::ok, "predecessors are passed in each sequence");
			return;
		}
		const auto* p = std::get_if<state_inapplicable>(&rec.reports.at(0).controlReport);
		CHECK_THAT(p != nullptr, "inapplicable");
		for (int i = 0; i < 3; ++i)
			CHECK_THAT(contains(p->inapplicableSequences, s[i].tag()) == (((blocked >> i) & 1u) != 0), "listed sequences");
		CHECK_THAT(p->inapplicableSequences.size() == static_cast<std::size_t>(__builtin_popcount(blocked)), "each once");
		CHECK_THAT(p->sequenceRatings.size() == 3u - static_cast<std::size_t>(__builtin_popcount(blocked)), "the rest is rated");
		CHECK_THAT(attempt([&] { (void)mock(Sym{16}); }) == Outcome::inapplicable, "no sequence advanced");
		const int k = __builtin_ctz(blocked);
		CHECK_THAT(attempt([&] { (void)mock(Sym{1u << k}); }) == Outcome::ok, "unblock one");
		blocked &= ~(1u << k);
	}
}

// the sequences must be unchanged after a rejected attachment: a later single element is first in each
template <typename S>
static void intact(Mock<int(Sym)>& mock, S* s, int n)
{
	for (int i = 0; i < n; ++i)
	{
		ScopedExpectation e = mock.expect_call(bit(7)) && expect::in_sequence(s[i]) && finally::returns(7);
		CHECK_THAT(attempt([&] { (void)mock(Sym{128}); }) == Outcome::ok, "no additional element stays in any sequence");
	}
}

template <typename F>
static int thrown(F&& f)
{
	try
	{
		f();
		return 0;
	}
	catch (const std::invalid_argument&)
	{
		return 1;
	}
}

HARNESS(duplicates_one_statement)
{
	setup();
	__sym_heap_dir(sym::choice("dir", 2));
	{
		Mock<int(Sym)> mock{};
		LazySequence s[3]{};
		const int a = sym::choice("a", 3), b = sym::choice("b", 3), c = sym::choice("c", 3);
		const bool triple = sym::flag("triple");
		const bool dup = triple ? a == b || b == c || a == c : a == b;
		int r;
		if (triple)
			r = thrown([&] { ScopedExpectation e = mock.expect_call(bit(0)) && expect::in_sequences(s[a], s[b], s[c]) && expect::at_most(1) && finally::returns(0); });
		else
			r = thrown([&] { ScopedExpectation e = mock.expect_call(bit(0)) && expect::in_sequences(s[a], s[b]) && expect::at_most(1) && finally::returns(0); });
		CHECK_THAT(r == (dup ? 1 : 0), "duplicates in one statement throw, others do not");
		if (triple && a == c && a != b)
			sym::reach("non adjacent duplicate");
		if (!dup)
			sym::reach("no duplicate");
		intact(mock, s, 3);
	}
	CHECK_THAT(rec.error == 0 && rec.unfulfilled == 0, "no obligations are left behind");
}

HARNESS(duplicates_mixed_kinds)
{
	setup();
	__sym_heap_dir(sym::choice("dir", 2));
	{
		Mock<int(Sym)> mock{};
		LazySequence s[2]{};
		GreedySequence g[2]{};
		const int a = sym::choice("a", 2), b = sym::choice("b", 2);
		const int k = sym::choice("form", 4);
		int r = 0;
		bool dup = false;
		switch (k)
		{
		case 0:
			dup = a == b;
			r = thrown([&] { ScopedExpectation e = mock.expect_call(bit(0)) && expect::in_sequences(s[a], g[0], s[b]) && expect::at_most(1) && finally::returns(0); });
			break;
		case 1:
			dup = a == b;
			r = thrown([&] { ScopedExpectation e = mock.expect_call(bit(0)) && expect::in_sequences(g[a], s[0], g[b]) && expect::at_most(1) && finally::returns(0); });
			break;
		case 2:
			dup = a == b;
			r = thrown([&] { ScopedExpectation e = mock.expect_call(bit(0)) && expect::in_sequence(g[a]) && expect::in_sequences(s[0], g[b]) && expect::at_most(1) && finally::returns(0); });
			break;
		default:
			r = thrown([&] { ScopedExpectation e = mock.expect_call(bit(0)) && expect::in_sequences(s[a], g[b]) && expect::at_most(1) && finally::returns(0); });
			break;
		}
		CHECK_THAT(r == (dup ? 1 : 0), "duplicates throw, others do not");
		if (dup)
			sym::reach("mixed duplicate");
		intact(mock, s, 2);
		intact(mock, g, 2);
	}
	CHECK_THAT(rec.error == 0 && rec.unfulfilled == 0, "no obligations are left behind");
}

HARNESS(duplicates_separate_statements)
{
	setup();
	__sym_heap_dir(sym::choice("dir", 2));
	{
		Mock<int(Sym)> mock{};
		LazySequence s[3]{};
		const int a = sym::choice("a", 3), b = sym::choice("b", 3), c = sym::choice("c", 3);
		const int form = sym::choice("form", 3);
		bool dup = false;
		int r = 0;
		switch (form)
		{
		case 0:
			dup = a == b;
			r = thrown([&] { ScopedExpectation e = mock.expect_call(bit(0)) && expect::in_sequence(s[a]) && expect::in_sequence(s[b]) && expect::at_most(1) && finally::returns(0); });
			break;
		case 1:
			dup = a == b || b == c || a == c;
			r = thrown([&] { ScopedExpectation e = mock.expect_call(bit(0)) && expect::in_sequences(s[a], s[b]) && expect::at_most(1) && expect::in_sequence(s[c]) && finally::returns(0); });
			break;
		default:
			dup = a == b || b == c || a == c;
			r = thrown([&] { ScopedExpectation e = mock.expect_call(bit(0)) && expect::in_sequence(s[a]) && finally::returns(0) && expect::in_sequence(s[b]) && expect::at_most(1) && expect::in_sequence(s[c]); });
			break;
		}
		CHECK_THAT(r == (dup ? 1 : 0), "duplicates in separate statements throw, others do not");
		if (dup)
			sym::reach("separate duplicate");
		intact(mock, s, 3);
	}
	CHECK_THAT(rec.error == 0 && rec.unfulfilled == 0, "no obligations are left behind");
}

HARNESS(limits)
{
	setup();
	Mock<void(Sym)> mock{};
	LazySequence a{};
	GreedySequence b{};
	const int min = sym::make<int>("min"), max = sym::make<int>("max");
	sym::assume(0 <= min && min <= max);
	const bool swapped = sym::flag("swapped");
	std::optional<ScopedExpectation> both{};
	if (swapped)
		both.emplace(mock.expect_call(Sym{0}) && expect::times(min, max) && expect::in_sequences(b, a));
	else
		both.emplace(mock.expect_call(Sym{0}) && expect::in_sequence(a) && expect::times(min, max) && expect::in_sequence(b));
	ScopedExpectation inA = mock.expect_call(Sym{1}) && expect::times(0, 3) && expect::in_sequence(a);
	ScopedExpectation inB = mock.expect_call(Sym{2}) && expect::times(0, 3) && expect::in_sequence(b);
	const int calls = sym::choice("calls", 6);
	int count = 0;
	for (int i = 0; i < calls; ++i)
		if (attempt([&] { mock(Sym{0}); }) == Outcome::ok)
			++count;
	CHECK_THAT(count == (calls < max ? calls : max), "limit");
	const std::uint32_t next = 1u + static_cast<std::uint32_t>(sym::choice("next", 2));
	const Outcome o = attempt([&] { mock(Sym{next}); });
	CHECK_THAT(o == (min <= count ? Outcome::ok : Outcome::inapplicable), "successors wait in both sequences for the minimum");
	const Outcome again = attempt([&] { mock(Sym{0}); });
	CHECK_THAT(again == (o != Outcome::ok && count < max ? Outcome::ok : Outcome::inapplicable), "one closed sequence is enough to close the element");
	const Outcome other = attempt([&] { mock(Sym{3u - next}); });
	if (o == Outcome::ok)
		CHECK_THAT(other == Outcome::ok, "the other sequence is not affected by its closing");
	if (o == Outcome::ok && count >= 3)
		sym::reach("limits");
	__sym_done();
}

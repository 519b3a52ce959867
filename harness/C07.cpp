// BOUNDS: lazy/greedy/default: 4 elements with limits min 0..1, max 1..2 (thorough: max 1..3), 3 calls (thorough: 4), every accept pattern per call
// BOUNDS: mixed: 3 elements plus one unsequenced expectation at an arbitrary creation position, every accept pattern, 2 calls
// BOUNDS: far: 12 elements, all optional, one call with every accept pattern after one arbitrary element was used
// BOUNDS: very_far: 300 (thorough 600) optional elements, any two of 14 (thorough 20) selected positions accept the call, after an arbitrary one of them was used
// BOUNDS: shared: two expectations that are both attached to the same 2 or 3 sequences of any kinds, limits 0..2, arbitrary accept pattern, 3 calls
// OUTSIDE: longer sequences; the choice between different sequences (not documented)
#include "common.hpp"
#include "seqmodel.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;

template <typename Sequence>
static void prefer(bool greedy, int calls)
{
	constexpr int n = 4;
	Mock<int(Sym)> mock{};
	Sequence seq{};
	SeqModel model{};
	std::vector<ScopedExpectation> exps{};
	for (int i = 0; i < n; ++i)
	{
		const int min = sym::range<int>("min", 0, 1), max = i == 0 || i == 2 ? sym::range<int>("max", 1, THOROUGH ? 3 : 2) : 1;
		model.add(min, max);
		exps.push_back(mock.expect_call(bit(i)) && expect::times(min, max) && expect::in_sequence(seq) && finally::returns(i));
	}
	for (int c = 0; c < calls; ++c)
	{
		const unsigned pattern = 1u + static_cast<unsigned>(sym::choice("pattern", 15));
		int got = -1;
		const Outcome o = attempt([&] { got = mock(Sym{pattern}); });
		int want = -1, eligible = 0;
		for (int i = 0; i < n; ++i)
			if (((pattern >> i) & 1u) && model.eligible(i))
			{
				++eligible;
				if (want < 0 || greedy)
					want = i;
			}
		CHECK_THAT(o == (want >= 0 ? Outcome::ok : Outcome::inapplicable), "verdict");
		CHECK_THAT(got == want, "lazy: earliest eligible element, greedy: latest eligible element");
		if (want >= 0)
			model.accept(want);
		if (eligible > 1)
			sym::reach("real choice");
		sym::observe("got", static_cast<unsigned>(got));
	}
}

HARNESS(lazy)
{
	setup();
	prefer<LazySequence>(false, THOROUGH ? 4 : 3);
}
HARNESS(greedy)
{
	setup();
	prefer<GreedySequence>(true, THOROUGH ? 4 : 3);
}
HARNESS(default_is_lazy)
{
	setup();
	static_assert(std::same_as<SequenceT, LazySequence>);
	prefer<SequenceT>(false, 2);
}

template <typename Sequence>
static void mixed_impl(bool greedy)
{
	Mock<int(Sym)> mock{};
	Sequence seq{};
	SeqModel model{};
	std::vector<ScopedExpectation> exps{};
	const int pos = sym::choice("position", 4);
	int max[3];
	for (int i = 0; i <= 3; ++i)
	{
		if (i == pos)
			exps.push_back(mock.expect_call(bit(3)) && expect::at_most(5) && finally::returns(3));
		if (i < 3)
		{
			max[i] = sym::range<int>("max", 1, 2);
			const int min = sym::range<int>("min", 0, 1);
			model.add(min, max[i]);
			exps.push_back(mock.expect_call(bit(i)) && expect::in_sequence(seq) && expect::times(min, max[i]) && finally::returns(i));
		}
	}
	for (int c = 0; c < 2; ++c)
	{
		const unsigned pattern = 1u + static_cast<unsigned>(sym::choice("pattern", 15));
		int got = -1;
		(void)attempt([&] { got = mock(Sym{pattern}); });
		int want = -1;
		for (int i = 0; i < 3; ++i)
			if (((pattern >> i) & 1u) && model.eligible(i) && (want < 0 || greedy))
				want = i;
		const bool free = (pattern & 8u) != 0;
		if (got == 3)
			CHECK_THAT(free, "the unsequenced expectation accepts only its own calls");
		else
			CHECK_THAT(got == want, "if the sequence is used, the documented element is");
		CHECK_THAT((got >= 0) == (free || want >= 0), "some applicable expectation is used");
		if (got >= 0 && got < 3)
		{
			model.accept(got);
			if (free)
				sym::reach("sequence preferred");
		}
		if (got == 3 && want >= 0)
			sym::reach("unsequenced preferred");
		sym::observe("got", static_cast<unsigned>(got));
	}
}

HARNESS(mixed)
{
	setup();
	if (sym::flag("greedy"))
		mixed_impl<GreedySequence>(true);
	else
		mixed_impl<LazySequence>(false);
}

template <typename Sequence>
static void far_impl(bool greedy)
{
	constexpr int n = THOROUGH ? 12 : 10;
	Mock<int(Sym)> mock{};
	Sequence seq{};
	std::vector<ScopedExpectation> exps{};
	for (int i = 0; i < n; ++i)
		exps.push_back(mock.expect_call(bit(i)) && expect::at_most(2) && expect::in_sequence(seq) && finally::returns(i));
	const int first = sym::choice("first", n);
	int got = -1;
	(void)attempt([&] { got = mock(Sym{1u << first}); });
	CHECK_THAT(got == first, "any element may start");
	const Sym pattern{sym::make<std::uint32_t>("pattern")};
	got = -1;
	(void)attempt([&] { got = mock(pattern); });
	int want = -1;
	for (int i = first; i < n; ++i)
		if (((pattern.v >> i) & 1u) && (want < 0 || greedy))
			want = i;
	CHECK_THAT(got == want, "documented element among many");
	sym::reach("far");
}
HARNESS(far)
{
	setup();
	if (sym::flag("greedy"))
		far_impl<GreedySequence>(true);
	else
		far_impl<LazySequence>(false);
}

// distances beyond what small integers hold
template <typename Sequence>
static void very_far_impl(bool greedy)
{
	static constexpr int n = THOROUGH ? 600 : 300;
	static constexpr int at[]{0, 1, 10, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, n - 1, 300, 400, 511, 512, 513, 550};
	constexpr int count = THOROUGH ? 20 : 14;
	Mock<int(Sym)> mock{};
	Sequence seq{};
	std::vector<ScopedExpectation> exps{};
	for (int i = 0; i < n; ++i)
		exps.push_back(mock.expect_call(m::predicate([i](const Sym& s) { return (s.v >> 16) == static_cast<unsigned>(i) || (s.v & 0xffffu) == static_cast<unsigned>(i); }))
					   && expect::at_most(2) && expect::in_sequence(seq) && finally::returns(static_cast<int>(i)));
	const int first = at[sym::choice("first", 2) ? 7 : 0];
	const int a = at[sym::choice("a", count)], b = at[sym::choice("b", count)];
	int got = -1;
	(void)attempt([&] { got = mock(Sym{static_cast<unsigned>(first) << 16 | static_cast<unsigned>(first)}); });
	CHECK_THAT(got == first, "any element may start");
	got = -1;
	(void)attempt([&] { got = mock(Sym{static_cast<unsigned>(a) << 16 | static_cast<unsigned>(b)}); });
	int want = -1;
	for (const int x : {a, b})
		if (x >= first && (want < 0 || (greedy ? x > want : x < want)))
			want = x;
	CHECK_THAT(got == want, "documented element, however far it is");
	sym::reach("very far");
}
HARNESS(very_far_lazy)
{
	setup();
	very_far_impl<LazySequence>(false);
}
HARNESS(very_far_greedy)
{
	setup();
	very_far_impl<GreedySequence>(true);
}

// two expectations that share several sequences: what most of the sequences prefer
template <typename... Seqs>
static void shared_impl()
{
	constexpr int n = sizeof...(Seqs);
	constexpr int greedy = (0 + ... + static_cast<int>(std::same_as<Seqs, GreedySequence>));
	Mock<int(Sym)> mock{};
	std::tuple<Seqs...> seqs{};
	SeqModel model{};
	std::vector<ScopedExpectation> exps{};
	static const char* const maxn[]{"max0", "max1"};
	int max[2];
	for (int i = 0; i < 2; ++i)
	{
		max[i] = sym::range<int>(maxn[i], 1, 2);
		model.add(0, max[i]);
		exps.push_back(std::apply([&](auto&... s) -> ScopedExpectation {
			return mock.expect_call(bit(i)) && expect::times(0, max[i]) && expect::in_sequences(s...) && finally::returns(static_cast<int>(i));
		},
			seqs));
	}
	static const char* const pat[]{"p0", "p1", "p2"};
	for (int c = 0; c < 3; ++c)
	{
		const unsigned pattern = 1u + static_cast<unsigned>(sym::choice(pat[c], 3));
		int got = -1;
		(void)attempt([&] { got = mock(Sym{pattern}); });
		const bool first = (pattern & 1u) && model.eligible(0), second = (pattern & 2u) && model.eligible(1);
		const int want = first && second ? (2 * greedy >= n ? 1 : 0) // the later one on a tie
					   : first			 ? 0
					   : second			 ? 1
										 : -1;
		CHECK_THAT(got == want, "the majority of the common sequences decides");
		if (first && second)
			sym::reach("majority");
		if (want >= 0)
			model.accept(want);
	}
}
HARNESS(shared)
{
	setup();
	using L = LazySequence;
	using G = GreedySequence;
	switch (sym::choice("kinds", 12))
	{
	case 0: shared_impl<L, L>(); break;
	case 1: shared_impl<L, G>(); break;
	case 2: shared_impl<G, L>(); break;
	case 3: shared_impl<G, G>(); break;
	case 4: shared_impl<L, L, L>(); break;
	case 5: shared_impl<L, L, G>(); break;
	case 6: shared_impl<L, G, L>(); break;
	case 7: shared_impl<L, G, G>(); break;
	case 8: shared_impl<G, L, L>(); break;
	case 9: shared_impl<G, L, G>(); break;
	case 10: shared_impl<G, G, L>(); break;
	default: shared_impl<G, G, G>(); break;
	}
}

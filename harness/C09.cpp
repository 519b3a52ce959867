// BOUNDS: counts: 3 elements (thorough: 4) with limits 0<=min<=max<=2, 3 calls at arbitrary targets, then everything goes out of scope in an arbitrary order of {sequence object, expectations}
// BOUNDS: unattached/late: sequences without elements, elements attached after progress, two sequences at once
// BOUNDS: long: 12 elements, an arbitrary number done in order
// BOUNDS: limits: two elements, the first one with every valid (min,max) over all of int and 0..5 calls
// BOUNDS: crowd: 300 elements, 0, 1, 127, 128, 255, 256, 299 or all of them done
// BOUNDS: in_flight: 3 elements, calls, releases in either order, within a destructor while a foreign exception propagates
// OUTSIDE: longer sequences; reporters that throw from report_error while the sequence is released (the release happens inside a shared_ptr, see DESIGN.md)
#include "common.hpp"
#include "seqmodel.hpp"
using namespace mimicpp;
namespace m = mimicpp::matches;

static bool message_is(const std::string& msg, int ok, int all)
{
	// "Unfulfilled sequence. {ok} out of {all} expectation(s) are satisfied."
	std::vector<int> nums{};
	for (std::size_t i = 0; i < msg.size();)
	{
		if ('0' <= msg[i] && msg[i] <= '9')
		{
			int v = 0;
			while (i < msg.size() && '0' <= msg[i] && msg[i] <= '9')
				v = v * 10 + (msg[i++] - '0');
			nums.push_back(v);
		}
		else
			++i;
	}
	return nums.size() == 2 && nums[0] == ok && nums[1] == all && msg.find("equence") != std::string::npos;
}

template <typename Sequence>
static void counts_impl(int n)
{
	SeqModel model{};
	{
		Mock<void(Sym)> mock{};
		auto seq = std::make_unique<Sequence>();
		std::vector<std::unique_ptr<ScopedExpectation>> exps{};
		for (int i = 0; i < n; ++i)
		{
			const int min = sym::range<int>("min", 0, 2), max = i == 1 ? 2 : sym::range<int>("max", 0, 2);
			sym::assume(min <= max);
			model.add(min, max);
			exps.push_back(std::make_unique<ScopedExpectation>(mock.expect_call(bit(i)) && expect::times(min, max) && expect::in_sequence(*seq)));
		}
		for (int c = 0; c < 3; ++c)
		{
			const int t = sym::choice("target", n);
			if (attempt([&] { mock(Sym{1u << t}); }) == Outcome::ok)
				model.accept(t);
		}
		int order = sym::choice("order", 4);
		if (order & 1)
			seq.reset();
		if (order & 2)
			for (auto& e : exps)
			{
				CHECK_THAT(rec.error == 0, "nothing is reported before the last part is gone");
				e.reset();
			}
		else
			for (std::size_t i = exps.size(); i-- > 0;)
			{
				CHECK_THAT(rec.error == 0, "nothing is reported before the last part is gone");
				exps[i].reset();
			}
		if (!(order & 1))
		{
			CHECK_THAT(rec.error == 0, "the sequence object is still alive");
			seq.reset();
		}
	}
	const int bad = model.first_unsatisfied();
	CHECK_THAT(rec.error == (bad >= 0 ? 1 : 0), "exactly one error if an element that was not skipped is unsatisfied, none otherwise");
	if (bad >= 0)
	{
		CHECK_THAT(message_is(rec.message, bad, n), "states how many of how many were satisfied before the first unsatisfied one");
		if (bad > 0)
			sym::reach("unsatisfied later element");
	}
	else
		sym::reach("finished");
	sym::observe("errors", static_cast<unsigned>(rec.error));
}

HARNESS(counts)
{
	setup();
	if (sym::flag("greedy"))
		counts_impl<GreedySequence>(THOROUGH ? 4 : 3);
	else
		counts_impl<LazySequence>(THOROUGH ? 4 : 3);
}

HARNESS(unattached)
{
	setup();
	{
		LazySequence a{};
		GreedySequence b{};
		auto cfg = expect::in_sequences(a, b);
		(void)cfg;
	}
	CHECK_THAT(rec.total() == 0, "a sequence without elements reports nothing");
	sym::reach("empty");
}

HARNESS(late_and_two)
{
	setup();
	SeqModel ms{}, mt{};
	{
		LazySequence s{};
		GreedySequence t{};
		Mock<void(Sym)> mock{};
		const int m0 = sym::range<int>("m0", 0, 1), m1 = sym::range<int>("m1", 0, 1), m2 = sym::range<int>("m2", 0, 1);
		ms.add(m0, 1);
		ScopedExpectation e0 = mock.expect_call(bit(0)) && expect::times(m0, 1) && expect::in_sequence(s);
		if (sym::flag("first") && attempt([&] { mock(Sym{1}); }) == Outcome::ok)
			ms.accept(0);
		// attached after progress
		ms.add(m1, 1);
		mt.add(m1, 1);
		ScopedExpectation e1 = mock.expect_call(bit(1)) && expect::times(m1, 1) && expect::in_sequences(s, t);
		mt.add(m2, 1);
		ScopedExpectation e2 = mock.expect_call(bit(2)) && expect::times(m2, 1) && expect::in_sequence(t);
		if (sym::flag("second") && attempt([&] { mock(Sym{2}); }) == Outcome::ok)
		{
			ms.accept(1);
			mt.accept(0);
		}
		if (sym::flag("third") && attempt([&] { mock(Sym{4}); }) == Outcome::ok)
			mt.accept(1);
	}
	const int want = (ms.first_unsatisfied() >= 0) + (mt.first_unsatisfied() >= 0);
	CHECK_THAT(rec.error == want, "each unfinished sequence is reported exactly once");
	if (want == 2)
		sym::reach("both unfinished");
}

HARNESS(long_sequence)
{
	setup();
	constexpr int n = 12;
	const int done = sym::choice("done", n + 1);
	{
		Mock<void(Sym)> mock{};
		LazySequence s{};
		std::vector<ScopedExpectation> exps{};
		for (int i = 0; i < n; ++i)
			exps.push_back(mock.expect_call(m::eq(Sym{static_cast<std::uint32_t>(i)})) && expect::in_sequence(s));
		for (int i = 0; i < done; ++i)
			CHECK_THAT(attempt([&] { mock(Sym{static_cast<std::uint32_t>(i)}); }) == Outcome::ok, "in order");
	}
	CHECK_THAT(rec.error == (done < n ? 1 : 0), "one error unless all are done");
	if (done < n)
		CHECK_THAT(message_is(rec.message, done, n), "numbers");
	CHECK_THAT(rec.unfulfilled == n - done, "unfulfilled expectations are reported separately");
	sym::reach("long");
}

HARNESS(throwing_reporter)
{
	setup();
	rec.throwUnfulfilled = true;
	// the expectation's own report throws; the sequence's report must still come exactly once (the
	// reporter does not throw from report_error while an exception propagates)
	int caught = 0;
	try
	{
		Mock<void(Sym)> mock{};
		LazySequence s{};
		ScopedExpectation e = mock.expect_call(bit(0)) && expect::in_sequence(s);
	}
	catch (const UnfulfilledEx&)
	{
		++caught;
	}
	CHECK_THAT(caught == 1 && rec.unfulfilled == 1 && rec.error == 1, "both are reported once");
	sym::reach("throwing");
}

// a sequence released while a foreign exception propagates is reported like all others
HARNESS(in_flight)
{
	setup();
	rec.throwUnfulfilled = rec.throwError = sym::flag("throwing");
	SeqModel model{};
	auto mock = std::make_unique<Mock<void(Sym)>>();
	auto seq = std::make_unique<LazySequence>();
	std::vector<std::unique_ptr<ScopedExpectation>> exps{};
	static const char* const minn[]{"min0", "min1", "min2"};
	for (int i = 0; i < 3; ++i)
	{
		const int min = sym::range<int>(minn[i], 0, 1);
		model.add(min, 1);
		exps.push_back(std::make_unique<ScopedExpectation>(mock->expect_call(bit(i)) && expect::times(min, 1) && expect::in_sequence(*seq)));
	}
	const int t = sym::choice("target", 4);
	if (t < 3 && attempt([&] { (*mock)(Sym{1u << t}); }) == Outcome::ok)
		model.accept(t);
	const bool seqFirst = sym::flag("seqFirst");
	const int bad = model.first_unsatisfied();
	perhaps_in_flight(true, [&] {
		if (seqFirst)
			seq.reset();
		for (auto& e : exps)
		{
			CHECK_THAT(rec.error == 0, "nothing is reported before the last part is gone");
			e.reset();
		}
		mock.reset();
		if (!seqFirst)
		{
			CHECK_THAT(rec.error == 0, "the sequence object is still alive");
			seq.reset();
		}
		CHECK_THAT(rec.error == (bad >= 0 ? 1 : 0), "reported exactly once if unfinished, never otherwise");
	});
	if (bad >= 0)
	{
		CHECK_THAT(message_is(rec.message, bad, 3), "numbers");
		sym::reach("unfinished in flight");
	}
}

HARNESS(crowd)
{
	setup();
	constexpr int n = 300;
	static constexpr int at[]{0, 1, 127, 128, 255, 256, n - 1, n};
	const int done = at[sym::choice("done", 8)];
	{
		LazySequence s{};
		using Policy = decltype(ControlPolicy{expect::once(), expect::in_sequence(s)});
		std::vector<std::unique_ptr<Policy>> policies{};
		for (int i = 0; i < n; ++i)
			policies.push_back(std::make_unique<Policy>(expect::once(), expect::in_sequence(s)));
		for (int i = 0; i < done; ++i)
		{
			CHECK_THAT(policies[static_cast<std::size_t>(i)]->is_applicable(), "in order");
			policies[static_cast<std::size_t>(i)]->consume();
		}
	}
	CHECK_THAT(rec.error == (done < n ? 1 : 0), "one error unless all are done");
	if (done < n)
		CHECK_THAT(message_is(rec.message, done, n), "numbers");
	sym::reach("crowd");
}

HARNESS(limits)
{
	setup();
	const int min = sym::make<int>("min"), max = sym::make<int>("max");
	sym::assume(0 <= min && min <= max);
	const int calls = sym::choice("calls", 6);
	int count = 0;
	const bool second = sym::flag("second");
	{
		LazySequence s{};
		ControlPolicy first{expect::times(min, max), expect::in_sequence(s)};
		ControlPolicy other{expect::times(second ? 1 : 0, 2), expect::in_sequence(s)};
		for (int i = 0; i < calls; ++i)
			if (first.is_applicable())
			{
				first.consume();
				++count;
			}
	}
	CHECK_THAT(count == (calls < max ? calls : max), "calls within the limit");
	const bool open = count < min;
	CHECK_THAT(rec.error == (open || second ? 1 : 0), "one error exactly if an element is unsatisfied");
	if (open || second)
		CHECK_THAT(message_is(rec.message, open ? 0 : 1, 2), "numbers");
	if (!open && count >= 3)
		sym::reach("satisfied after three");
	if (open && count >= 3)
		sym::reach("open after three");
}

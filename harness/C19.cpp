// VARIANT fmt without situation: -DMIMICPP_CONFIG_USE_FMT -DFMT_HEADER_ONLY
// BOUNDS: every entry except situation a second time with the {fmt} backend (MIMICPP_CONFIG_USE_FMT)
// BOUNDS: situation: every 0 <= min <= max < 100000 (thorough INT_MAX) and 0 <= count <= max
// BOUNDS: state_text: 0 <= min, count <= max <= 120 (thorough 1100), every character of the text; large_numbers: 17 values from 0 to INT_MAX around the changes of width, every combination
// BOUNDS: sequence_text: all three control states, 0..3 ratings, 0..3 inapplicable (or saturated) sequences, limits up to 3
// BOUNDS: reported: real expectations with 0 <= min <= max <= 4, up to 4 calls, in none, one or two sequences each with another element in front or behind
// OUTSIDE: more than 3 sequences; the spelling of numbers above the limit other than the 17 values (std::format)
#include "common.hpp"
using namespace mimicpp;
namespace e = mimicpp::expect;

// independent spelling
static void put(StringT& s, unsigned v)
{
	char buf[12];
	int n = 0;
	do
	{
		buf[n++] = static_cast<char>('0' + v % 10u);
		v /= 10u;
	} while (v != 0);
	while (n > 0)
		s.push_back(buf[--n]);
}
static void verbal(StringT& s, unsigned v)
{
	if (v == 0)
		s += "never";
	else if (v == 1)
		s += "once";
	else if (v == 2)
		s += "twice";
	else
	{
		put(s, v);
		s += " times";
	}
}
static StringT times_text(int min, int max, int count)
{
	StringT s{};
	if (count == max)
	{
		s += "already saturated (matched ";
		verbal(s, static_cast<unsigned>(count));
		s += ")";
	}
	else if (min <= count)
	{
		s += "accepts further matches (matched ";
		put(s, static_cast<unsigned>(count));
		s += " out of ";
		put(s, static_cast<unsigned>(max));
		s += " times)";
	}
	else
	{
		s += "matched ";
		verbal(s, static_cast<unsigned>(count));
		s += " - ";
		if (min == max)
		{
			s += "exactly ";
			verbal(s, static_cast<unsigned>(max));
		}
		else
		{
			s += "between ";
			put(s, static_cast<unsigned>(min));
			s += " and ";
			put(s, static_cast<unsigned>(max));
			s += " times";
		}
		s += " is expected";
	}
	return s;
}

static void same_text(const StringT& got, const StringT& want, const char* what)
{
	CHECK_THAT(got.size() == want.size(), what);
	bool same = true;
	for (std::size_t i = 0; i < got.size(); ++i)
		same = same & (got[i] == want[i]);
	CHECK_THAT(same, what);
}

static StringT text_of(const control_state_t& s)
{
	StringStreamT ss{};
	std::visit(std::bind_front(detail::control_state_printer{}, std::ostreambuf_iterator{ss}), s);
	return std::move(ss).str();
}

static StringT seq_text(int kind, int ratings, int other)
{
	StringT s{};
	if (kind == 0 && ratings > 0)
	{
		s += ",\n\tand is the current element of ";
		put(s, static_cast<unsigned>(ratings));
		s += " sequence(s).";
	}
	if (kind == 1)
	{
		s += ",\n\tbut is not the current element of ";
		put(s, static_cast<unsigned>(other));
		s += " sequence(s) (";
		put(s, static_cast<unsigned>(ratings + other));
		s += " total).";
	}
	if (kind == 2 && other > 0)
	{
		s += ",\n\tand is part of ";
		put(s, static_cast<unsigned>(other));
		s += " sequence(s).";
	}
	return s;
}

static bool starts(StringViewT s, StringViewT p)
{
	if (s.size() < p.size())
		return false;
	bool same = true;
	for (std::size_t i = 0; i < p.size(); ++i)
		same = same & (s[i] == p[i]);
	return same;
}

// which situation is described, for every value
HARNESS(situation)
{
	const int min = sym::make<int>("min");
	const int max = sym::make<int>("max");
	const int count = sym::make<int>("count");
	sym::assume(0 <= min && min <= max && 0 <= count && count <= max && (THOROUGH || max < 100000));
	const StringT s = text_of(state_applicable{min, max, count, {}});
	CHECK_THAT(starts(s, "already saturated (matched ") == (count == max), "saturated exactly if no further call is accepted");
	CHECK_THAT(starts(s, "accepts further matches (matched ") == (min <= count && count < max), "accepts further matches exactly between the limits");
	CHECK_THAT(starts(s, "matched ") == (count < min), "otherwise the expected number is given");
	if (count < min)
	{
		std::size_t skip = 8;
		if (count <= 2)
			skip += count == 1 ? 4 : 5;
		else
		{
			skip += 7;
			for (std::uint32_t p = 10; p <= 1000000000u && static_cast<std::uint32_t>(count) >= p; p *= 10)
				++skip;
		}
		const StringViewT rest = StringViewT{s}.substr(skip);
		CHECK_THAT(starts(rest, " - exactly ") == (min == max), "exact number");
		CHECK_THAT(starts(rest, " - between ") == (min != max), "interval");
	}
	sym::reach("situation");
}

// the whole text, for every value up to a limit
HARNESS(state_text)
{
	const int limit = THOROUGH ? 1100 : 120;
	const int min = sym::make<int>("min");
	const int max = sym::make<int>("max");
	const int count = sym::make<int>("count");
	sym::assume(0 <= min && min <= max && max <= limit && 0 <= count && count <= max);
	const auto what = text_of(state_applicable{min, max, count, {}});
	same_text(what, times_text(min, max, count), "the limits and the count are described correctly");
	sym::reach("described");
	if (count == max)
		sym::reach("saturated");
	else if (min <= count)
		sym::reach("further");
	else
		sym::reach("expected");
}

// the whole text, for values around each change of width
HARNESS(large_numbers)
{
	static constexpr int values[]{0, 2, 9, 255, 256, 999, 1000, 32768, 65535, 65536, 99999, 100000, 16777216, 999999999, 1000000000, 2147483646, 2147483647};
	const int n = 17;
	const int max = values[sym::choice("max", n)];
	const int min = values[sym::choice("min", n)];
	const int count = values[sym::choice("count", n)];
	if (min > max || count > max)
		return;
	same_text(text_of(state_applicable{min, max, count, {}}), times_text(min, max, count), "the limits and the count are described correctly");
	sym::reach("large numbers");
}

HARNESS(sequence_text)
{
	const int min = sym::range<int>("min", 0, 3);
	const int max = sym::range<int>("max", 0, 3);
	const int count = sym::range<int>("count", 0, 3);
	sym::assume(min <= max && count <= max);
	const int kind = sym::choice("kind", 3);
	const int ratings = sym::choice("ratings", 4);
	const int other = sym::choice("other", 4);
	if (kind == 0 && other > 0)
		return;
	if (kind == 1 && other == 0)
		return;
	if (kind == 2 && ratings > 0)
		return;
	std::vector<sequence::rating> r{};
	std::vector<sequence::Tag> t{};
	for (int i = 0; i < ratings; ++i)
		r.emplace_back(7 - i, sequence::Tag{100 + i});
	for (int i = 0; i < other; ++i)
		t.push_back(sequence::Tag{200 + i});
	control_state_t s{};
	if (kind == 0)
		s = state_applicable{min, max, count, r};
	else if (kind == 1)
		s = state_inapplicable{min, max, count, r, t};
	else
		s = state_saturated{min, max, count, t};
	same_text(text_of(s), times_text(min, max, count) + seq_text(kind, ratings, other), "the sequence situation is described correctly");
	sym::reach("sequences described");
}

// the texts of real expectations at the moment they end
HARNESS(reported)
{
	setup();
	const int min = sym::range<int>("min", 0, 4);
	const int max = sym::range<int>("max", 0, 4);
	sym::assume(min <= max);
	const int calls = sym::choice("calls", 5);
	const int place = sym::choice("place", 6); // no sequence; alone; behind a satisfied/unsatisfied element; in two, one/both of them blocked
	Mock<void(int)> mock{};
	LazySequence s1{};
	GreedySequence s2{};
	int count = 0;
	rec = Rec{};
	{
		std::optional<ScopedExpectation> first{}, second{};
		if (place == 2)
			first.emplace(finalize_at(mock.expect_call(9) && e::at_most(1) && e::in_sequence(s1), 1));
		if (place == 3 || place == 4)
			first.emplace(finalize_at(mock.expect_call(9) && e::in_sequence(s1), 1));
		if (place == 5)
		{
			first.emplace(finalize_at(mock.expect_call(9) && e::in_sequence(s1), 1));
			second.emplace(finalize_at(mock.expect_call(9) && e::in_sequence(s2), 2));
		}
		const bool blocked = place >= 3;
		{
			std::optional<ScopedExpectation> exp{};
			switch (place)
			{
			case 0:
				exp.emplace(finalize_at(mock.expect_call(1) && e::times(min, max), 0));
				break;
			case 1:
			case 2:
			case 3:
				exp.emplace(finalize_at(mock.expect_call(1) && e::times(min, max) && e::in_sequence(s1), 0));
				break;
			default:
				exp.emplace(finalize_at(mock.expect_call(1) && e::times(min, max) && e::in_sequences(s1, s2), 0));
				break;
			}
			for (int i = 0; i < calls; ++i)
				if (attempt([&] { mock(1); }) == Outcome::ok)
					++count;
			CHECK_THAT(count == (blocked ? 0 : (calls < max ? calls : max)), "accepted calls");
			rec = Rec{};
		}
		StringT want = times_text(min, max, count);
		if (place != 0)
		{
			if (count == max)
				want += seq_text(2, 0, place >= 4 ? 2 : 1);
			else if (place == 1 || place == 2)
				want += seq_text(0, 1, 0);
			else
				want += seq_text(1, place == 4 ? 1 : 0, place == 5 ? 2 : 1);
		}
		CHECK_THAT(rec.unfulfilled == (count < min ? 1 : 0), "reported iff unfulfilled");
		if (rec.unfulfilled == 1)
		{
			CHECK_THAT(rec.expectation->timesDescription.has_value(), "the state text is part of the report");
			same_text(*rec.expectation->timesDescription, want, "the reported text tells the state of the expectation");
			sym::reach("unfulfilled text");
		}
		rec = Rec{};
	}
}

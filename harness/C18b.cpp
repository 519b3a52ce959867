// VARIANT fmt: -DMIMICPP_CONFIG_USE_FMT -DFMT_HEADER_ONLY
// BOUNDS: every entry a second time with the {fmt} backend (MIMICPP_CONFIG_USE_FMT)
// BOUNDS: *_text: reports with 0..3 arguments or requirements, each verdict arbitrary, each description absent, empty or one arbitrary character, source location and limits text present or absent, all control states
// BOUNDS: long_text: reports with 12, 64, 100 or 300 arguments, requirements or descriptions, one text of them 1, 300 or 1000 characters long
#include "common.hpp"
using namespace mimicpp;

static void same_text(const StringT& got, const StringT& want, const char* what)
{
	CHECK_THAT(got.size() == want.size(), what);
	bool same = true;
	for (std::size_t i = 0; i < got.size(); ++i)
		same = same & (got[i] == want[i]);
	CHECK_THAT(same, what);
}

static StringT loc_text(const std::source_location& l)
{
	StringT s{l.file_name()};
	s += '[';
	s += print(l.line());
	s += ':';
	s += print(l.column());
	s += "], ";
	s += l.function_name();
	return s;
}

static const char* const dname[]{"d0", "d1", "d2"};
static const char* const vname[]{"v0", "v1", "v2"};
static const char* const hname[]{"h0", "h1", "h2"};

HARNESS(call_text)
{
	const int n = sym::choice("args", 4);
	const ValueCategory cats[]{ValueCategory::lvalue, ValueCategory::rvalue, ValueCategory::any};
	const Constness cons[]{Constness::non_const, Constness::as_const, Constness::any};
	const int cat = sym::choice("category", 3);
	const int con = sym::choice("constness", 3);
	CallReport r{.returnTypeIndex = typeid(int), .fromLoc = locs[2], .fromCategory = cats[cat], .fromConstness = cons[con]};
	const std::type_index types[]{typeid(int), typeid(const char*), typeid(StringT)};
	StringT want = "call from " + loc_text(locs[2]) + "\nconstness: ";
	want += r.fromConstness == Constness::any ? "any" : r.fromConstness == Constness::as_const ? "const" : "mutable";
	want += "\nvalue category: ";
	want += r.fromCategory == ValueCategory::any ? "any" : r.fromCategory == ValueCategory::lvalue ? "lvalue" : "rvalue";
	want += "\nreturn type: ";
	want += typeid(int).name();
	want += "\n";
	if (n)
		want += "args:\n";
	for (int i = 0; i < n; ++i)
	{
		const StringT d(1, sym::make<char>(dname[i]));
		r.argDetails.push_back({types[i], d});
		want += "\targ[";
		want += static_cast<char>('0' + i);
		want += "]: {\n\t\ttype: ";
		want += types[i].name();
		want += ",\n\t\tvalue: " + d + "\n\t},\n";
	}
	same_text(print(r), want, "the text of a call lists everything once and in order");
	sym::reach("call text");
}

HARNESS(match_text)
{
	const int n = sym::choice("reqs", 4);
	const int st = sym::choice("state", 3);
	MatchReport r{};
	if (st == 0)
		r.controlReport = state_applicable{0, 3, 1, {}};
	else if (st == 1)
		r.controlReport = state_inapplicable{0, 3, 1, {}, {sequence::Tag{1}}};
	else
		r.controlReport = state_saturated{0, 3, 3, {}};
	if (sym::flag("location"))
		r.sourceLocation = locs[1];
	StringT failed{}, passed{};
	bool all = true;
	for (int i = 0; i < n; ++i)
	{
		const bool v = sym::flag(vname[i]);
		all = all && v;
		std::optional<StringT> d{};
		if (const int h = sym::choice(hname[i], 3))
		{
			d.emplace();
			if (h == 1)
				d->assign(1, sym::make<char>(dname[i]));
			(v ? passed : failed) += "\t" + *d + ",\n";
		}
		r.expectationReports.push_back({v, d});
	}
	StringT want{};
	if (!all)
		want = "Unmatched expectation: {\n";
	else if (st == 0)
		want = "Matched expectation: {\n";
	else if (st == 1)
		want = "Inapplicable, but otherwise matched expectation: {\nreason: accepts further matches (matched 1 out of 3 times),\n\tbut is not the current element of 1 sequence(s) (1 total).\n";
	else
		want = "Inapplicable, but otherwise matched expectation: {\nreason: already saturated (matched 3 times)\n";
	if (r.sourceLocation)
		want += "from: " + loc_text(locs[1]) + "\n";
	if (!failed.empty())
		want += "failed:\n" + failed;
	if (!passed.empty())
		want += "passed:\n" + passed;
	want += "}\n";
	same_text(print(r), want, "the text of a match lists everything once and in order");
	sym::reach("match text");
}

HARNESS(expectation_text)
{
	const int n = sym::choice("reqs", 4);
	ExpectationReport r{};
	StringT want = "Expectation report:\n";
	if (sym::flag("location"))
	{
		r.sourceLocation = locs[3];
		want += "from: " + loc_text(locs[3]) + "\n";
	}
	if (sym::flag("times"))
	{
		r.timesDescription.emplace(1, sym::make<char>("t"));
		want += "times: " + *r.timesDescription + "\n";
	}
	StringT all{};
	for (int i = 0; i < n; ++i)
	{
		std::optional<StringT> d{};
		if (const int h = sym::choice(hname[i], 3))
		{
			d.emplace();
			if (h == 1)
				d->assign(1, sym::make<char>(dname[i]));
			all += "\t" + *d + ",\n";
		}
		r.expectationDescriptions.push_back(d);
	}
	if (!all.empty())
		want += "expects:\n" + all;
	if (sym::flag("finalizer"))
	{
		r.finalizerDescription.emplace(1, sym::make<char>("f"));
		want += "finally: " + *r.finalizerDescription + "\n";
	}
	same_text(print(r), want, "the text of an expectation lists everything once and in order");
	sym::reach("expectation text");
}

// nothing is cut off
HARNESS(long_text)
{
	static constexpr int sizes[]{12, 64, 100, 300}, lens[]{1, 300, 1000};
	const int n = sizes[sym::choice("n", 4)];
	StringT text(static_cast<std::size_t>(lens[sym::choice("len", 3)]), 'x');
	text.back() = sym::make<char>("last");
	const int at = sym::flag("end") ? n - 1 : 0;
	switch (sym::choice("kind", 3))
	{
	case 0:
	{
		CallReport r{.returnTypeIndex = typeid(int), .fromLoc = locs[2], .fromCategory = ValueCategory::any, .fromConstness = Constness::any};
		StringT want{};
		for (int i = 0; i < n; ++i)
		{
			r.argDetails.push_back({typeid(int), i == at ? text : StringT{"y"}});
			want += "\targ[" + print(i) + "]: {\n\t\ttype: i,\n\t\tvalue: " + (i == at ? text : StringT{"y"}) + "\n\t},\n";
		}
		const StringT got = print(r);
		const auto pos = got.find("args:\n");
		CHECK_THAT(pos != StringT::npos, "arguments are listed");
		same_text(got.substr(pos + 6), want, "every argument in full length");
		break;
	}
	case 1:
	{
		MatchReport r{.controlReport = state_applicable{0, 3, 1, {}}};
		StringT passed{};
		for (int i = 0; i < n; ++i)
		{
			r.expectationReports.push_back({true, i == at ? text : StringT{"y"}});
			passed += "\t" + *r.expectationReports.back().description + ",\n";
		}
		same_text(print(r), "Matched expectation: {\npassed:\n" + passed + "}\n", "every requirement in full length");
		break;
	}
	default:
	{
		ExpectationReport r{.timesDescription = text};
		StringT all{};
		for (int i = 0; i < n; ++i)
		{
			r.expectationDescriptions.push_back(i == at ? text : StringT{"y"});
			all += "\t" + *r.expectationDescriptions.back() + ",\n";
		}
		same_text(print(r), "Expectation report:\ntimes: " + text + "\nexpects:\n" + all, "every description in full length");
		break;
	}
	}
	sym::reach("long text");
}

// the second translation unit of C21b
#include "routing.hpp"

struct Two
{
	U v;
	friend bool operator==(const Two&, const Two&) = default;
};
template <>
struct mimicpp::custom::Printer<Two>
{
	template <typename OutIter>
	static OutIter print(OutIter out, const Two&)
	{
		*out++ = '2';
		return out;
	}
};

void second_install(int type, int id)
{
	if (type == 0)
		install_reporter<Routed<0>>(id);
	else
		install_reporter<Routed<2>>(id);
}

void second_run(Kind k)
{
	ScenarioOf<Two> s{};
	s.run(k);
}

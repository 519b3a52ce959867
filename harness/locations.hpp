// Source locations which differ from each other in exactly one component (the #line directives are intended).
#pragma once
#include <source_location>
template <int n>
std::source_location loc_in_function()
{
	return std::source_location::current();
}
inline std::source_location loc_variant(int k)
{
	switch (k)
	{
	default:
#line 100 "first.cpp"
		return std::source_location::current();
	case 1:
#line 100 "second.cpp"
		return std::source_location::current();
	case 2:
#line 101 "first.cpp"
		return std::source_location::current();
	case 3:
#line 100 "first.cpp"
		  return std::source_location::current();
	case 4:
#line 100 "first.cpp"
		return std::source_location::current();
	}
}

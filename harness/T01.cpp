// BOUNDS: self test of the runtime containers
#include "common.hpp"
#include <map>
#include <set>
#include <list>
#include <unordered_map>
HARNESS(trees)
{
	std::map<int, int> mp;
	std::unordered_map<int, int> um;
	std::list<int> li;
	bool in[5]{};
	for (int i = 0; i < 6; ++i)
	{
		const int k = sym::choice("k", 5);
		if (in[k])
		{
			mp.erase(k);
			um.erase(k);
			li.remove(k);
		}
		else
		{
			mp[k] = k * 2;
			um[k] = k * 3;
			li.push_front(k);
		}
		in[k] = !in[k];
		int n = 0, last = -1;
		for (auto& [a, b] : mp)
		{
			CHECK_THAT(a > last && in[a] && b == 2 * a, "map");
			last = a;
			++n;
		}
		int c = 0;
		for (auto it = mp.rbegin(); it != mp.rend(); ++it)
			++c;
		int e = 0;
		for (bool b : in)
			e += b;
		CHECK_THAT(n == e && c == e && (int)mp.size() == e && (int)um.size() == e && (int)li.size() == e, "sizes");
		for (int j = 0; j < 5; ++j)
			CHECK_THAT(um.contains(j) == in[j] && mp.contains(j) == in[j], "unordered");
	}
	sym::reach("end");
}

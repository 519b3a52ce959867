// Reference model of one sequence, written from the documentation: an element may accept a call iff
// no later element has accepted one, every element between the last accepting one and it is satisfied,
// and its own limit is not exhausted.
#pragma once
#include <vector>
struct SeqModel
{
	struct El
	{
		int min, max, count;
	};
	std::vector<El> els{};
	int cursor = 0; // the last element that accepted a call
	int add(int min, int max)
	{
		els.push_back({min, max, 0});
		return static_cast<int>(els.size()) - 1;
	}
	bool order_ok(int i) const
	{
		if (i < cursor)
			return false;
		for (int j = cursor; j < i; ++j)
			if (els[static_cast<std::size_t>(j)].count < els[static_cast<std::size_t>(j)].min)
				return false;
		return true;
	}
	bool eligible(int i) const
	{
		const El& e = els[static_cast<std::size_t>(i)];
		return order_ok(i) && e.count < e.max;
	}
	void accept(int i)
	{
		++els[static_cast<std::size_t>(i)].count;
		cursor = i;
	}
	// index of the first unsatisfied element that was not passed, or -1
	int first_unsatisfied() const
	{
		for (int j = cursor; j < static_cast<int>(els.size()); ++j)
			if (els[static_cast<std::size_t>(j)].count < els[static_cast<std::size_t>(j)].min)
				return j;
		return -1;
	}
};

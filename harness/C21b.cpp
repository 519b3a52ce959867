// BOUNDS: units: two translation units, each installs reporters and produces outcomes: every history of 3 (thorough 4) steps, each installing a reporter or producing one of the six outcomes in either unit
// OUTSIDE: more than one shared library
// SECOND: C21b_second.inc
#include "routing.hpp"

void second_install(int type, int id);
void second_run(Kind k);

HARNESS(units)
{
	static const char* const names[]{"s0", "s1", "s2", "s3"};
	for (auto& c : counters)
		c = Counter{};
	made = 0;
	int want[8][6]{};
	if (sym::flag("first"))
		install_reporter<Routed<0>>(made++);
	else
		second_install(0, made++);
	const int steps = THOROUGH ? 4 : 3;
	for (int s = 0; s < steps; ++s)
	{
		const int op = sym::choice(names[s], 8);
		const bool second = sym::flag("second");
		if (op == 6 || op == 7)
		{
			if (second)
				second_install(op - 6, made++);
			else if (op == 6)
				install_reporter<Routed<0>>(made++);
			else
				install_reporter<Routed<1>>(made++);
		}
		else
		{
			try
			{
				if (second)
					second_run(static_cast<Kind>(op));
				else
				{
					ScenarioOf<Sym> sc{};
					sc.run(static_cast<Kind>(op));
				}
			}
			catch (const NoMatchEx&)
			{
			}
			catch (const InapplicableEx&)
			{
			}
			++want[made - 1][op];
			if (op == kUnhandled)
				++want[made - 1][kFull]; // the other expectation takes the call
		}
		for (int i = 0; i < made; ++i)
		{
			CHECK_THAT(counters[i].made == 1 && counters[i].alive == (i == made - 1 ? 1 : 0) && counters[i].destroyed == (i == made - 1 ? 0 : 1),
				"only the most recently installed reporter is alive, the former ones were destroyed once");
			for (int k = 0; k < 6; ++k)
				CHECK_THAT(counters[i].got[k] == want[i][k], "the active reporter gets every outcome exactly once, the others none");
		}
	}
	install_reporter<RecReporter>();
	sym::reach("units");
}

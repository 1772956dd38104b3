// C23: results depend on inputs only.  The plans are those of every other property (see any_plan, run_pair in runner.cc).
#include "core.h"
static RegProp p({ "C23", "exploration",
    "a run counts when its plan reached the behaviour its own property counts; distinct = hash of that run's (operation, outcome) sequence and of whether unrelated work preceded it in the second world",
    { "the whole engine, the provider and both tools, as in the scenario the plan comes from, in two builds" },
    { "as in the scenario the plan comes from" },
    { "gcc's automatic initialisation of locals stands for the previous contents of the stack; two contents are compared per run" },
    9000, 60000 });

// Weak fallbacks: a scenario file that cannot be compiled against the current
// headers of /repo takes only its own properties with it.
#include "plan.hh"
static std::vector<Scenario> const none;
#define STUB(n)                                                                \
  __attribute__((weak)) std::vector<Scenario> const &n() { return none; }
STUB(scenarios_io)
STUB(scenarios_read)
STUB(scenarios_tools)
STUB(scenarios_edit)
STUB(scenarios_state)
STUB(scenarios_pipe)
STUB(scenarios_tree)

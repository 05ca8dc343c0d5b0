#include "core/sim.h"
#include "sched/tsrt.h"
namespace sim {
void variant_init() {}
void variant_child_begin() { g_exempt = 0; }
}

// Interface of the scheduler / race-detector runtime (tsrt.cpp).
#pragma once
#include <cstdint>

namespace sim {
struct SchedStats { uint64_t points, sync_points, switches, preemptions, blocks; int threads; };
extern SchedStats g_sched;
void par_begin();                    // draws the scheduling policy; from here on the calling thread is simulated thread 0
void par_end();                      // all other threads have been joined
bool par_active();
void yield_point();                  // explicit scheduling point (used by the simulated environment)
void par_delay(uint32_t points);     // the calling thread is not scheduled for the given number of scheduling points (if another one can run)
int par_thread();                    // number of the calling simulated thread (0 if not active)
uint64_t par_now();                  // scheduling points so far: the simulated clock
[[noreturn]] void par_report(const char* cls, const char* msg);   // ends the run with a violation
[[noreturn]] void par_discard();
// no scheduling points and no race detection inside (oracles, harness); synchronisation is still tracked
extern thread_local int tl_quiet;
struct Quiet { Quiet() { ++tl_quiet; } ~Quiet() { --tl_quiet; } };
}

// Core of the simulator: one integer (or one recorded choice list) decides everything.
//
//  * Choices : every random decision of a run (workload, schedule, fault) is drawn here, labelled by its
//              alternatives count and recorded.  0 is always the "simplest" alternative (no fault, no
//              preemption, smallest size), which is what minimisation relies on.  A replay feeds the
//              recorded list back; when it is exhausted every draw returns 0.
//  * event log: every observable step is formatted and folded into a 64 bit hash (address-free, clock-free).
//  * Shared  : result area in MAP_SHARED memory.  Every run is executed in a forked child, so that a crash,
//              a sanitizer abort or a hang of the code under test is an observation like any other.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>

namespace sim {

struct Violation { std::string cls; std::string msg; };   // thrown by oracles
struct RunTooLong { };                                    // choice budget exhausted: run is discarded

constexpr uint32_t kMaxChoices = 1u << 18;
constexpr uint32_t kMaxCounters = 320;
constexpr uint32_t kTraceBytes = 1u << 20;

enum Status : int { kRunning = 0, kOk = 1, kViolation = 2, kHarnessError = 3, kDiscarded = 4 };

struct Counter { char name[56]; uint64_t n; };

struct Shared {
    volatile int status;
    volatile int verbose;
    uint64_t hash;
    uint64_t events;
    uint64_t simtime;         // abstract simulated time: steps / simulated I/O operations
    uint64_t sched_hash;      // hash of the interleaving / fault sequence only
    int nontrivial;           // by the rule of the scenario
    uint32_t nch;
    struct { uint32_t v, n; } ch[kMaxChoices];
    char cls[256];
    char msg[4096];
    uint32_t ncounters;
    Counter counters[kMaxCounters];
    char sample[1024];        // human readable one-line description of the case
    uint32_t trace_len;
    char trace[kTraceBytes];
};
extern Shared* S;

class Choices {
public:
    void start_random(uint64_t seed);
    void start_replay(std::vector<uint32_t> values);
    // uniform in [0,n)
    uint32_t draw(uint32_t n);
    // true with probability num/den; recorded as 0/1
    bool flip(uint32_t num, uint32_t den);
    // weighted alternative; recorded as the index
    uint32_t pick(std::initializer_list<uint32_t> weights);
    uint32_t pickv(const std::vector<uint32_t>& weights);
    // in [lo,hi], lo is simplest
    int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo) + 1); }
    // geometric-ish length in [0,max], recorded as one value
    uint32_t len(uint32_t max);
    // value from a free running generator seeded by one recorded choice
    uint64_t aux();
private:
    uint64_t next();
    uint32_t rec(uint32_t v, uint32_t n);
    bool replay_ = false;
    uint64_t s_[2] = {1, 2};
    std::vector<uint32_t> in_;
    size_t pos_ = 0;
};
extern Choices C;

void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));    // event: hashed (+ trace)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // trace only, never hashed
void count(const char* name, uint64_t n = 1);
void sched(uint64_t v);                    // fold into the schedule/fault hash
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void nontrivial() { S->nontrivial = 1; }
inline void tick(uint64_t n = 1) { S->simtime += n; }
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

struct Scenario {
    const char* prop;           // property id
    const char* name;           // variant of the workload inside the property
    uint32_t weight;            // share of runs
    void (*fn)();
};
std::vector<Scenario>& scenarios();
struct Register { Register(const char* prop, const char* name, uint32_t weight, void (*fn)()) { scenarios().push_back({prop, name, weight, fn}); } };
#define SCENARIO(prop, name, weight) \
    static void scn_##prop##_##name(); \
    static sim::Register reg_##prop##_##name(#prop, #name, weight, scn_##prop##_##name); \
    static void scn_##prop##_##name()

// > 0 while harness code runs (inside a callback of the code under test): its allocations never fail and are not tracked
extern int g_exempt;
#ifdef SIM_SCHED
struct Exempt { Exempt() {} ~Exempt() {} };
#else
struct Exempt { Exempt() { ++g_exempt; } ~Exempt() { --g_exempt; } };
#endif

// hooks implemented per variant
void variant_init();            // once per process, before any fork
void variant_child_begin();     // in each forked child, before the scenario

} // namespace sim

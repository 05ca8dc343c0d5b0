// Seams of the fault variant besides the simulated storage: allocation.
#pragma once
#include "core/sim.h"
#include "core/disk.h"
#include "core/doc.h"
#include <cstddef>

namespace sim {
// ---- allocation seam (wraps.txt: malloc/calloc/realloc/free/aligned_alloc; operator new/delete are replaced)
struct AllocCtl {
    int armed = 0;              // allocations of the code under test are counted / may fail
    uint64_t seq = 0;           // allocations seen while armed
    uint64_t fail_at = 0;       // 1-based; 0 = never
    uint64_t fail_len = 1;      // number of consecutive allocations that fail
    uint64_t min_size = 0;      // only allocations at least this big are counted / fail
    uint64_t size_cap = ~0ull;  // requests above this size always fail (simulated memory limit), even when not armed
    bool new_only = false;      // only operator new fails (the call runs third-party code that cannot cope with malloc returning null)
    uint64_t failed = 0;
    uint64_t cap_failed = 0;
    bool track = false;         // blocks allocated now enter the live set
    bool watch = false;         // blocks freed leave the live set
};
extern AllocCtl A;
void track_reset();
int64_t track_live();
void track_dump();

// One call into the library while memory may run out: the k-th allocation of the call and possibly the following ones fail.
struct AllocMode { bool on = false; uint32_t num = 1, den = 2; }; extern AllocMode g_alloc;
struct AllocWindow {
    bool on = g_alloc.on; uint64_t before = A.failed;
    AllocWindow()
    {
        if (!on) return;
        A.seq = 0; A.fail_at = 0; A.fail_len = 1;
        if (C.flip(g_alloc.num, g_alloc.den)) { switch (C.pick({3, 2, 1})) { case 0: A.fail_at = 1 + C.draw(12); break; case 1: A.fail_at = 1 + C.draw(60); break; default: A.fail_at = 1 + C.draw(400); break; } switch (C.pick({4, 1, 1})) { case 1: A.fail_len = 2 + C.draw(3); break; case 2: A.fail_len = 1u << 30; break; default: break; } }
        A.armed = 1; A.track = true;
    }
    ~AllocWindow() { if (!on) return; A.armed = 0; A.track = false; if (A.failed != before) { count("fault.allocation", A.failed - before); sched(90000 + A.fail_at * 7 + A.fail_len); } }
};
} // namespace sim

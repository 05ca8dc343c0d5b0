#include <pthread.h>
#include "fault/fault.h"
#include <new>
#include <cstdlib>
#include <cerrno>
#include <execinfo.h>

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:handle_abort=1:print_summary=0:malloc_context_size=4:max_malloc_fill_size=4096:malloc_fill_byte=190:quarantine_size_mb=8:detect_odr_violation=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:external_symbolizer_path=/usr/bin/llvm-symbolizer:print_legend=0:max_allocation_size_mb=2048";
}

extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
}

extern "C" char __executable_start;
namespace sim {
AllocCtl A;
AllocMode g_alloc;

// live set: open addressing over static memory (never allocates)
static constexpr uint32_t kSlots = 1u << 18;
static void* g_slot[kSlots]; static size_t g_sz[kSlots]; static int64_t g_live; static void* g_bt[kSlots][12]; static const bool g_want_bt = getenv("SIM_TRACK_BT") != nullptr;
static uint32_t h(void* p) { return (uint32_t)(((uintptr_t)p >> 4) * 0x9e3779b1u) & (kSlots - 1); }
static void* const kTomb = (void*)1;
static void live_add(void* p, size_t n) { uint32_t i = h(p); for (uint32_t k = 0; k < kSlots; ++k, i = (i + 1) & (kSlots - 1)) if (!g_slot[i] || g_slot[i] == kTomb) { g_slot[i] = p; g_sz[i] = n; ++g_live; if (g_want_bt && true) { ++g_exempt; bool t = A.track; A.track = false; backtrace(g_bt[i], 12); A.track = t; --g_exempt; } return; } }
static void live_del(void* p) { uint32_t i = h(p); for (uint32_t k = 0; k < kSlots; ++k, i = (i + 1) & (kSlots - 1)) { if (!g_slot[i]) return; if (g_slot[i] == p) { g_slot[i] = kTomb; --g_live; return; } } }
void track_reset() { if (g_live || true) memset(g_slot, 0, sizeof(g_slot)); g_live = 0; A.watch = true; }
int64_t track_live() { return g_live; }
void track_dump() { int n = 0; for (uint32_t i = 0; i < kSlots && n < 10; ++i) if (g_slot[i] && g_slot[i] != kTomb) { note("live block of %zu bytes", g_sz[i]); ++n; if (g_want_bt && true) { std::string t = "BT"; char b[32]; for (int k = 1; k < 12; ++k) { snprintf(b, sizeof(b), " %p", (void*)((uintptr_t)g_bt[i][k] - (uintptr_t)&__executable_start)); t += b; } note("%s", t.c_str()); } } }

static inline bool should_fail(size_t n, bool is_new = false)
{
    if (g_exempt) return false;
    if (n > A.size_cap) { ++A.cap_failed; return true; }
    if (!A.armed || n < A.min_size || (A.new_only && !is_new)) return false;
    ++A.seq;
    if (A.fail_at && A.seq >= A.fail_at && A.seq < A.fail_at + A.fail_len) { ++A.failed; return true; }
    return false;
}
// Memory which the one-time initialisation of an object with static storage duration allocates belongs to the process: it is not expected
// to be released with the objects of a client (allocating it may fail like any other allocation).
static int g_once;
static inline void* done(void* p, size_t n) { if (p && A.track && !g_exempt && !g_once) live_add(p, n); return p; }
} // namespace sim

extern "C" {
void* __wrap_malloc(size_t n) { if (sim::should_fail(n)) { errno = ENOMEM; return nullptr; } return sim::done(__real_malloc(n), n); }
void* __wrap_calloc(size_t a, size_t b) { if (sim::should_fail(a * b)) { errno = ENOMEM; return nullptr; } return sim::done(__real_calloc(a, b), a * b); }
void* __wrap_realloc(void* p, size_t n) { if (sim::should_fail(n)) { errno = ENOMEM; return nullptr; } if (sim::A.watch && p) sim::live_del(p); return sim::done(__real_realloc(p, n), n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (sim::should_fail(n)) { errno = ENOMEM; return nullptr; } return sim::done(__real_aligned_alloc(a, n), n); }
int __wrap_posix_memalign(void** pp, size_t a, size_t n) { if (sim::should_fail(n)) return ENOMEM; int r = __real_posix_memalign(pp, a, n); if (!r) sim::done(*pp, n); return r; }
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*); int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap___cxa_guard_acquire(uint64_t* g) { int r = __real___cxa_guard_acquire(g); if (r) ++sim::g_once; return r; }
void __wrap___cxa_guard_release(uint64_t* g) { --sim::g_once; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(uint64_t* g) { --sim::g_once; __real___cxa_guard_abort(g); }
int __wrap_pthread_once(pthread_once_t* o, void (*fn)()) { struct In { In() { ++sim::g_once; } ~In() { --sim::g_once; } } in; return __real_pthread_once(o, fn); }
void __wrap_free(void* p) { if (p && sim::A.watch) sim::live_del(p); __real_free(p); }
}
static void* new_impl(size_t n) { if (sim::should_fail(n, true)) return nullptr; return sim::done(__real_malloc(n ? n : 1), n); }
void* operator new(size_t n) { void* p = new_impl(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = new_impl(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n); }
void* operator new(size_t n, std::align_val_t a) { if (sim::should_fail(n, true)) throw std::bad_alloc(); void* p = nullptr; if (__real_posix_memalign(&p, (size_t)a, n)) throw std::bad_alloc(); return sim::done(p, n); }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
static void del_impl(void* p) { if (p && sim::A.watch) sim::live_del(p); __real_free(p); }
void operator delete(void* p) noexcept { del_impl(p); }
void operator delete[](void* p) noexcept { del_impl(p); }
void operator delete(void* p, size_t) noexcept { del_impl(p); }
void operator delete[](void* p, size_t) noexcept { del_impl(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del_impl(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del_impl(p); }
void operator delete(void* p, std::align_val_t) noexcept { del_impl(p); }
void operator delete[](void* p, std::align_val_t) noexcept { del_impl(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del_impl(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del_impl(p); }

namespace sim {
void warmup();
void variant_init() { warmup(); }
void site_draw();
void variant_child_begin() { site_draw(); A = AllocCtl(); g_alloc = AllocMode(); g_exempt = 0; g_once = 0; }
}

// Deterministic scheduler and happens-before race detector behind clang's -fsanitize=thread instrumentation.
//
// The library (and the workload) is compiled with the instrumentation, but linked against this file instead of the TSan
// runtime. Threads are real threads of which exactly one runs at any time; every instrumented memory access, atomic operation and
// pthread call is a point at which the seeded scheduler may hand over to another thread. This file uses no templates and is the
// only one compiled without instrumentation.
#include <iostream>
#include "core/sim.h"
#include "sched/tsrt.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dlfcn.h>
#include <elf.h>

#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <exception>

extern "C" char* __cxa_demangle(const char*, char*, size_t*, int*);
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); extern char __executable_start; }

namespace sim {
SchedStats g_sched;
thread_local int tl_quiet = 0;

static constexpr int kMaxT = 8;
static constexpr uint64_t kMaxPoints = 20000000;
struct VC { uint32_t c[kMaxT]; };
static void vjoin(VC& a, const VC& b) { for (int i = 0; i < kMaxT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum TState { tFree, tRunnable, tBlocked, tFinished };
struct Thread {
    int id; TState st; const void* wait; VC vc, pend, relf; int go; uintptr_t slo, shi; uint64_t delay_until; pthread_t h; void* (*fn)(void*); void* arg; int weight; const void* spin_at; uint32_t spins;
};
static Thread T[kMaxT]; static int g_n; static bool g_on;
static thread_local Thread* self = nullptr;
static int64_t g_gap; static uint32_t g_mean; static bool g_sync_only; static uint64_t g_points;

static void fwait(int* p) { while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(p, 0, __ATOMIC_RELAXED); }
static void fwake(int* p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void par_report(const char* cls, const char* msg)
{
    tl_quiet += 1000; if (!S->cls[0]) { snprintf(S->cls, sizeof(S->cls), "%s", cls); snprintf(S->msg, sizeof(S->msg), "%s", msg); }
    S->status = kViolation; _exit(0);
}
void par_discard() { S->status = kDiscarded; _exit(0); }
bool par_active() { return self != nullptr; }
int par_thread() { return self ? self->id : 0; }
uint64_t par_now() { return g_points; }

// ------------------------------------------------------------------------------------------------ scheduling
static void draw_gap()
{
    // 0 (what a minimised trace runs into) means: no further preemption
    if (S->nch + 64 > kMaxChoices) { S->status = kDiscarded; _exit(0); }
    uint32_t v = C.draw(40 * 2 * g_mean); g_gap = v == 0 ? INT64_MAX : 1 + (int64_t)((v - 1) % (2 * g_mean));
}
static int pick_next(bool include_self)
{
    int c[kMaxT], n = 0; uint32_t w = 0;
    for (int pass = 0; pass < 2 && !n; ++pass) for (int i = 0; i < g_n; ++i) if (T[i].st == tRunnable && (include_self || &T[i] != self) && (pass || T[i].delay_until <= g_points)) { c[n++] = i; w += T[i].weight; }
    if (!n) return -1; if (n == 1) return c[0];
    uint32_t r = C.draw(w); for (int i = 0; i < n; ++i) { if (r < (uint32_t)T[c[i]].weight) return c[i]; r -= T[c[i]].weight; } return c[n - 1];
}
static void hand_over(int t)
{
    if (t == self->id) return; ++g_sched.switches; sched((uint64_t)t + 1 + g_points * 8); Thread* me = self; fwake(&T[t].go); fwait(&me->go);
}
static void dead()
{
    char b[600]; int k = 0; for (int i = 0; i < g_n; ++i) k += snprintf(b + k, sizeof(b) - k, "thread %d: %s; ", i, T[i].st == tFinished ? "finished" : T[i].st == tBlocked ? "blocked" : "runnable"); par_report("deadlock", b);
}
static void point(bool sync)
{
    if (!self || tl_quiet) return;
    ++g_points; if (sync) ++g_sched.sync_points; if (g_points > kMaxPoints) par_report("livelock", "no progress: the scheduling point budget is exhausted");
    if (g_sync_only && !sync) return;
    if (--g_gap > 0) return;
    ++tl_quiet; draw_gap(); int t = pick_next(false); if (t >= 0) { ++g_sched.preemptions; hand_over(t); } --tl_quiet;
}
// a thread that keeps operating on one and the same synchronisation object waits for another thread to change it: let the others run
static void spin(const void* a)
{
    if (!self || tl_quiet) return;
    if (self->spin_at != a) { self->spin_at = a; self->spins = 0; return; }
    if (++self->spins < 64) return; self->spins = 0;
    ++tl_quiet; int t = pick_next(false); if (t >= 0) { ++g_sched.preemptions; hand_over(t); } --tl_quiet;
}
void yield_point() { point(true); }
void par_delay(uint32_t n) { if (!self) return; ++tl_quiet; self->delay_until = g_points + n; int t = pick_next(true); if (t >= 0 && t != self->id) hand_over(t); --tl_quiet; }
static void block(const void* what)
{
    ++tl_quiet; ++g_sched.blocks; self->st = tBlocked; self->wait = what; int t = pick_next(false); if (t < 0) dead(); hand_over(t); --tl_quiet;
}
static void wake(const void* what) { for (int i = 0; i < g_n; ++i) if (T[i].st == tBlocked && T[i].wait == what) { T[i].st = tRunnable; T[i].wait = nullptr; } }

// ------------------------------------------------------------------------------------------------ synchronisation objects
struct Sync { const void* addr; VC vc; int owner, depth, readers; int once; };
static constexpr uint32_t kSync = 1u << 16; static Sync* g_sync;
static Sync* sync_of(const void* a)
{
    uint32_t i = (uint32_t)(((uintptr_t)a >> 2) * 0x9e3779b1u) >> 16;
    for (uint32_t k = 0; k < kSync; ++k, i = (i + 1) & (kSync - 1)) { if (g_sync[i].addr == a) return &g_sync[i]; if (!g_sync[i].addr) { g_sync[i].addr = a; g_sync[i].owner = -1; return &g_sync[i]; } }
    par_report("harness", "too many synchronisation objects");
}
static void acquire(const VC& v) { vjoin(self->vc, v); }
static void release_to(VC& v) { vjoin(v, self->vc); ++self->vc.c[self->id]; }
static void release_store(VC& v) { v = self->vc; ++self->vc.c[self->id]; }

// ------------------------------------------------------------------------------------------------ shadow memory
struct Cell { uint64_t clk : 20, tid : 3, wr : 1, at : 1, used : 1, mask : 8, pc : 30; };
static_assert(sizeof(Cell) == 8, "");
static constexpr int kCells = 5;
struct Gran { Cell c[kCells]; uint32_t freed, pad; };
struct Page { uintptr_t key; Gran* g; };
static constexpr uint32_t kPages = 1u << 16; static Page* g_pages; static uintptr_t g_lastkey; static Gran* g_lastg;
static void* zmap(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(3); return p; }
static Gran* gran(uintptr_t a, bool create)
{
    uintptr_t key = (a >> 12) + 1; if (key == g_lastkey) return g_lastg + ((a >> 3) & 511);
    uint32_t i = (uint32_t)((key * 0x9e3779b97f4a7c15ull) >> 48);
    for (uint32_t k = 0; k < kPages; ++k, i = (i + 1) & (kPages - 1)) {
        if (g_pages[i].key == key) { g_lastkey = key; g_lastg = g_pages[i].g; return g_lastg + ((a >> 3) & 511); }
        if (!g_pages[i].key) { if (!create) return nullptr; g_pages[i].key = key; g_pages[i].g = (Gran*)zmap(512 * sizeof(Gran)); g_lastkey = key; g_lastg = g_pages[i].g; return g_lastg + ((a >> 3) & 511); }
    }
    par_report("harness", "shadow memory exhausted");
}
static void shadow_clear(uintptr_t a, size_t n) { uintptr_t e = a + n; a &= ~7ull; for (; a < e; a += 8) { Gran* g = gran(a, false); if (g) memset(g, 0, sizeof(*g)); else { a = (a | 4095) & ~7ull; } } }

// names of functions for the reports (from the symbol table of the executable)
static const char* sym(uint64_t off)
{
    static char bufs[4][400]; static int bi; char* out = bufs[bi++ & 3]; snprintf(out, 400, "?");
    static const char* base; static size_t fsz;
    if (!base) { int fd = open("/proc/self/exe", O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) return out; base = (const char*)mmap(nullptr, fsz = st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); if (base == MAP_FAILED) { base = nullptr; return out; } }
    auto* eh = (const Elf64_Ehdr*)base; auto* sh = (const Elf64_Shdr*)(base + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; ++i) if (sh[i].sh_type == SHT_SYMTAB) {
        auto* st = (const Elf64_Sym*)(base + sh[i].sh_offset); size_t n = sh[i].sh_size / sizeof(Elf64_Sym); const char* str = base + sh[sh[i].sh_link].sh_offset;
        for (size_t k = 0; k < n; ++k) if (ELF64_ST_TYPE(st[k].st_info) == STT_FUNC && off >= st[k].st_value && off < st[k].st_value + st[k].st_size) {
            int s = 0; char* d = __cxa_demangle(str + st[k].st_name, nullptr, nullptr, &s); snprintf(out, 400, "%s", d ? d : str + st[k].st_name);
            { int dep = 0; for (char* p = out; *p; ++p) { if (*p == '<') ++dep; else if (*p == '>' && p[-1] != '-') --dep; else if (*p == '(' && dep <= 0 && strncmp(p, "(anonymous", 10)) { *p = 0; break; } } } return out; }
    }
    return out;
}
static uint32_t pc_off(const void* pc) { return (uint32_t)((uintptr_t)pc - (uintptr_t)&__executable_start) & 0x3fffffff; }
[[noreturn]] static void race(const Cell& o, bool wr, bool at, uint32_t pc)
{
    ++tl_quiet; const char* a = sym(o.pc - 1); const char* b = sym(pc - 1); char cls[256], msg[1200]; const char *x = a, *y = b; if (strcmp(x, y) > 0) { x = b; y = a; }
    snprintf(cls, sizeof(cls), "data-race:%.110s/%.110s", x, y);
    snprintf(msg, sizeof(msg), "unsynchronised accesses: %s%s by thread %d in %s and %s%s by thread %d in %s", o.at ? "atomic " : "", o.wr ? "write" : "read", (int)o.tid, a, at ? "atomic " : "", wr ? "write" : "read", self->id, b);
    par_report(cls, msg);
}
static void access1(uintptr_t a, unsigned off, unsigned n, bool wr, bool at, uint32_t pc)
{
    Gran* g = gran(a, true); uint32_t m = ((1u << n) - 1) << off; uint32_t clk = self->vc.c[self->id]; int id = self->id;
    if (g->freed) { ++tl_quiet; char b[700]; snprintf(b, sizeof(b), "%s by thread %d in %s accesses memory which has been freed", wr ? "write" : "read", id, sym(pc - 1)); char cls[200]; snprintf(cls, sizeof(cls), "use-after-free:%.150s", sym(pc - 1)); par_report(cls, b); }
    int freei = -1;
    for (int i = 0; i < kCells; ++i) {
        Cell& c = g->c[i]; if (!c.used) { freei = i; continue; }
        if ((int)c.tid == id) {
            if (c.clk == (clk & 0xfffff) && c.wr == wr && c.at == at && (c.mask & m) == m) return;
            if ((wr || !c.wr) && (!at || c.at)) { c.mask &= ~m; if (!c.mask) { c.used = 0; freei = i; } }
        } else if (c.mask & m) {
            bool ordered = c.clk <= self->vc.c[c.tid];
            if (!ordered && (c.wr || wr) && !(c.at && at)) race(c, wr, at, pc);
            if (ordered && wr && !at) { c.mask &= ~m; if (!c.mask) { c.used = 0; freei = i; } }
        }
    }
    if (freei < 0) { memmove(&g->c[0], &g->c[1], sizeof(Cell) * (kCells - 1)); freei = kCells - 1; }
    Cell& c = g->c[freei]; c.clk = clk; c.tid = id; c.wr = wr; c.at = at; c.used = 1; c.mask = m; c.pc = pc;
}
static inline void access(const void* p, size_t n, bool wr, bool at, const void* pc)
{
    if (!self || tl_quiet) return; uintptr_t a = (uintptr_t)p; if (a >= self->slo && a < self->shi) return;
    if (!at) point(false);
    if (!n) return;
    uint32_t po = pc_off(pc); uintptr_t e = a + n;
    while (a < e) { unsigned off = a & 7, k = 8 - off; if (k > e - a) k = (unsigned)(e - a); access1(a & ~7ull, off, k, wr, at, po); a += k; }
}

// ------------------------------------------------------------------------------------------------ real functions
#define REAL(ret, name, args) static ret (*real_##name) args; static inline void init_##name() { if (!real_##name) *(void**)&real_##name = dlsym(RTLD_NEXT, #name); }
REAL(int, pthread_mutex_lock, (pthread_mutex_t*)) REAL(int, pthread_mutex_trylock, (pthread_mutex_t*)) REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*)) REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*)) REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*)) REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*)) REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*))
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*)) REAL(int, pthread_cond_signal, (pthread_cond_t*)) REAL(int, pthread_cond_broadcast, (pthread_cond_t*)) REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*))
REAL(int, pthread_once, (pthread_once_t*, void (*)())) REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)) REAL(int, pthread_join, (pthread_t, void**))
REAL(int, __cxa_guard_acquire, (uint64_t*)) REAL(void, __cxa_guard_release, (uint64_t*)) REAL(void, __cxa_guard_abort, (uint64_t*))
REAL(int, nanosleep, (const struct timespec*, struct timespec*)) REAL(int, sched_yield, ()) REAL(int, usleep, (useconds_t))

// ------------------------------------------------------------------------------------------------ start / end
static bool g_dirty;
void par_begin()
{
    if (g_dirty) { g_dirty = false; munmap(g_sync, sizeof(Sync) * kSync); g_sync = nullptr; for (uint32_t i = 0; i < kPages; ++i) if (g_pages[i].key) munmap(g_pages[i].g, 512 * sizeof(Gran)); munmap(g_pages, sizeof(Page) * kPages); g_lastkey = 0; }   // the memory of the last phase is history
    if (!g_sync) { g_sync = (Sync*)zmap(sizeof(Sync) * kSync); g_pages = (Page*)zmap(sizeof(Page) * kPages); }
    cpu_set_t cs; CPU_ZERO(&cs); int cpu = sched_getcpu(); if (cpu >= 0) { CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof(cs), &cs); }
    static const uint32_t means[] = {2000, 400, 100, 25, 8, 3}; g_mean = means[C.draw(6)]; g_sync_only = C.flip(1, 4); if (g_sync_only && g_mean > 25) g_mean = 25;
    bool uneven = C.flip(1, 4); memset(T, 0, sizeof(T)); g_n = 1; for (int i = 0; i < kMaxT; ++i) T[i].weight = uneven ? (C.flip(1, 3) ? 1 : 12) : 1;
    char b[60]; snprintf(b, sizeof(b), "policy.%s_gap%u%s", g_sync_only ? "sync" : "access", g_mean, uneven ? "_uneven" : ""); count(b);
    Thread& t = T[0]; t.st = tRunnable; t.vc.c[0] = 1; uintptr_t sp = (uintptr_t)__builtin_frame_address(0); t.slo = sp - (1u << 22); t.shi = sp + (1u << 20); g_points = 0; draw_gap(); g_sched = SchedStats(); g_on = true; self = &t;
}
void par_end()
{
    if (!self) return; for (int i = 1; i < g_n; ++i) if (T[i].st != tFinished) par_report("harness", "par_end with running threads");
    g_sched.points = g_points; g_sched.threads = g_n; self = nullptr; g_on = false; tick(g_points); count("sched.points", g_points); count("sched.switches", g_sched.switches); count("sched.preemptions", g_sched.preemptions); count("sched.blocks", g_sched.blocks);
    g_dirty = true;
}
static void* trampoline(void* a)
{
    Thread* t = (Thread*)a; fwait(&t->go);
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0); t->shi = (sp | 4095) + 1 + 65536; t->slo = sp - (7u << 20); shadow_clear(sp - 262144, 262144 + 4096);
    self = t; void* r = t->fn(t->arg);
    ++tl_quiet; t->st = tFinished; wake(t); int n = pick_next(false); if (n < 0) dead(); ++g_sched.switches; sched((uint64_t)n + 1 + g_points * 8); self = nullptr; fwake(&T[n].go); --tl_quiet; return r;
}

// ------------------------------------------------------------------------------------------------ mutexes and friends
static int mtx_lock(const void* m, bool recursive, bool try_only)
{
    if (!tl_quiet) { spin(m); point(true); } Sync* s = sync_of(m);
    while (s->owner >= 0 && !(recursive && s->owner == self->id)) { if (try_only) return EBUSY; if (s->owner == self->id) par_report("deadlock", "a thread locks a mutex it already holds"); block(m); }
    s->owner = self->id; ++s->depth; acquire(s->vc); return 0;
}
static int mtx_unlock(const void* m)
{
    Sync* s = sync_of(m); if (s->owner != self->id) par_report("bad-unlock", "a mutex is unlocked by a thread which does not hold it");
    if (--s->depth == 0) { s->owner = -1; release_to(s->vc); wake(m); } if (!tl_quiet) point(true); return 0;
}
static bool is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
} // namespace sim
using namespace sim;

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (!self) { init_pthread_mutex_lock(); return real_pthread_mutex_lock(m); } return mtx_lock(m, is_rec(m), false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!self) { init_pthread_mutex_trylock(); return real_pthread_mutex_trylock(m); } return mtx_lock(m, is_rec(m), true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!self) { init_pthread_mutex_unlock(); return real_pthread_mutex_unlock(m); } return mtx_unlock(m); }

static int rw(pthread_rwlock_t* m, bool wr, bool try_only)
{
    point(true); Sync* s = sync_of(m); while (s->owner >= 0 || (wr && s->readers)) { if (try_only) { spin(m); return EBUSY; } if (s->owner == self->id) par_report("deadlock", "a thread locks a rwlock it already holds"); block(m); }
    if (wr) s->owner = self->id; else ++s->readers; acquire(s->vc); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!self) { init_pthread_rwlock_rdlock(); return real_pthread_rwlock_rdlock(m); } return rw(m, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!self) { init_pthread_rwlock_wrlock(); return real_pthread_rwlock_wrlock(m); } return rw(m, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!self) { init_pthread_rwlock_tryrdlock(); return real_pthread_rwlock_tryrdlock(m); } return rw(m, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!self) { init_pthread_rwlock_trywrlock(); return real_pthread_rwlock_trywrlock(m); } return rw(m, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!self) { init_pthread_rwlock_unlock(); return real_pthread_rwlock_unlock(m); }
    // what a reader releases is joined as well: only a later writer needs it, joining for readers adds order but never a false alarm
    Sync* s = sync_of(m); if (s->owner == self->id) s->owner = -1; else if (s->readers > 0) --s->readers; else par_report("bad-unlock", "a rwlock is unlocked which is not held"); release_to(s->vc); wake(m); point(true); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!self) { init_pthread_cond_wait(); return real_pthread_cond_wait(c, m); }
    point(true); Sync* s = sync_of(m); s->owner = -1; int d = s->depth; s->depth = 0; release_to(s->vc); wake(m); block(c); acquire(sync_of(c)->vc); mtx_lock(m, false, false); sync_of(m)->depth = d; return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!self) { init_pthread_cond_timedwait(); return real_pthread_cond_timedwait(c, m, ts); }
    // the time-out may fire at any moment
    pthread_mutex_unlock(m); par_delay(1); point(true); pthread_mutex_lock(m); acquire(sync_of(c)->vc); return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return pthread_cond_timedwait(c, m, ts); }
int pthread_cond_signal(pthread_cond_t* c) { if (!self) { init_pthread_cond_signal(); return real_pthread_cond_signal(c); } release_to(sync_of(c)->vc); wake(c); point(true); return 0; }   // waking all is a legal (spurious) wake-up
int pthread_cond_broadcast(pthread_cond_t* c) { if (!self) { init_pthread_cond_broadcast(); return real_pthread_cond_broadcast(c); } release_to(sync_of(c)->vc); wake(c); point(true); return 0; }

int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (!self) { init_pthread_once(); return real_pthread_once(o, fn); }
    point(true); Sync* s = sync_of(o);
    for (;;) {
        if (*(int*)o == 2) { acquire(s->vc); return 0; }
        if (s->once == 0) break; block(o);
    }
    s->once = 1; try { fn(); } catch (...) { s->once = 0; release_to(s->vc); wake(o); throw; }
    s->once = 0; *(int*)o = 2; release_to(s->vc); wake(o); point(true); return 0;
}
int __cxa_guard_acquire(uint64_t* g)
{
    if (!self) { init___cxa_guard_acquire(); return real___cxa_guard_acquire(g); }
    point(true); Sync* s = sync_of(g); for (;;) { if (*(char*)g) { acquire(s->vc); return 0; } if (s->once == 0) break; block(g); } s->once = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) { if (!self) { init___cxa_guard_release(); return real___cxa_guard_release(g); } Sync* s = sync_of(g); s->once = 0; *(char*)g = 1; release_to(s->vc); wake(g); point(true); }
void __cxa_guard_abort(uint64_t* g) { if (!self) { init___cxa_guard_abort(); return real___cxa_guard_abort(g); } Sync* s = sync_of(g); s->once = 0; release_to(s->vc); wake(g); }

int pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    init_pthread_create(); if (!self) return real_pthread_create(h, at, fn, arg);
    if (g_n == kMaxT) return EAGAIN; Thread& t = T[g_n]; int w = t.weight; memset(&t, 0, sizeof(t)); t.weight = w; t.id = g_n; t.fn = fn; t.arg = arg; t.vc = self->vc; t.vc.c[t.id] = 1; ++self->vc.c[self->id]; t.st = tRunnable;
    ++tl_quiet; int r = real_pthread_create(&t.h, at, trampoline, &t); --tl_quiet; if (r) return r; *h = t.h; ++g_n; point(true); return 0;
}
int pthread_join(pthread_t h, void** ret)
{
    init_pthread_join(); if (!self) return real_pthread_join(h, ret);
    for (int i = 1; i < g_n; ++i) if (pthread_equal(T[i].h, h)) { while (T[i].st != tFinished) block(&T[i]); acquire(T[i].vc); return real_pthread_join(h, ret); }
    return real_pthread_join(h, ret);
}
int nanosleep(const struct timespec* a, struct timespec* b) { if (!self) { init_nanosleep(); return real_nanosleep(a, b); } par_delay(50); return 0; }
int usleep(useconds_t u) { if (!self) { init_usleep(); return real_usleep(u); } par_delay(50); return 0; }
int sched_yield() { if (!self) { init_sched_yield(); return real_sched_yield(); } par_delay(1); return 0; }

// ---- allocation: fresh memory has no history; freed memory is never handed out again during a run and must not be touched
static bool tracked() { return self != nullptr; }
struct Hdr { uint64_t size, magic; }; static constexpr uint64_t kMagic = 0x51ed270b0badc0deull;
static void* al(size_t n, size_t align)
{
    // a header of 16 bytes (or 'align') keeps the size of the block
    if (align < 16) align = 16; char* p = (char*)(align == 16 ? __libc_malloc(n + 16) : __libc_memalign(align, n + align)); if (!p) return nullptr; p += align; Hdr* h = (Hdr*)(p - 16); h->size = n | ((uint64_t)align << 40); h->magic = kMagic;
    if (tracked()) shadow_clear((uintptr_t)p - 16, n + 16); return p;
}
void* malloc(size_t n) { return al(n, 16); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void* p = al(n, 16); if (p) memset(p, 0, n); return p; }
void free(void* p)
{
    if (!p) return; Hdr* h = (Hdr*)((char*)p - 16); if (h->magic != kMagic) { if (h->magic == ~kMagic) { if (self) par_report("double-free", "a block is freed twice"); } abort(); }
    size_t n = h->size & ((1ull << 40) - 1), align = h->size >> 40;
    if (tracked() && n < (64u << 20)) {
        if (!tl_quiet) { access(p, n, true, false, __builtin_return_address(0)); }
        for (uintptr_t a = (uintptr_t)p & ~7ull; a < (uintptr_t)p + n; a += 8) { Gran* g = gran(a, true); memset(g, 0, sizeof(*g)); g->freed = 1; }
        h->magic = ~kMagic; return;   // quarantined for the rest of the run
    }
    h->magic = ~kMagic; __libc_free((char*)p - align);
}
void* realloc(void* p, size_t n) { if (!p) return malloc(n); if (!n) { free(p); return nullptr; } void* q = malloc(n); if (!q) return nullptr; size_t o = ((Hdr*)((char*)p - 16))->size & ((1ull << 40) - 1); memcpy(q, p, o < n ? o : n); free(p); return q; }
void* memalign(size_t a, size_t n) { return al(n, a); }
void* aligned_alloc(size_t a, size_t n) { return al(n, a); }
int posix_memalign(void** pp, size_t a, size_t n) { void* p = al(n, a); if (!p) return ENOMEM; *pp = p; return 0; }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((char*)p - 16))->size & ((1ull << 40) - 1) : 0; }

// ---- instrumentation entry points
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, false, PC); } \
  void __tsan_read_write##n(void* p) { access(p, n, true, false, PC); } void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, false, PC); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, false, PC); return memset(d, c, n); }

// libstdc++ keeps the code that links nodes of maps and lists in the shared library: tell the detector what it does
struct RbNode { int color; RbNode *parent, *left, *right; }; struct ListNode { ListNode *next, *prev; };
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, RbNode*, RbNode*, RbNode*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, RbNode* x, RbNode* p, RbNode* h) { access(p, sizeof(RbNode), true, false, PC); access(h, sizeof(RbNode), true, false, PC); __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h); }
RbNode* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RbNode*, RbNode*);
RbNode* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RbNode* z, RbNode* h) { access(z, sizeof(RbNode), true, false, PC); access(h, sizeof(RbNode), true, false, PC); return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h); }
RbNode* __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(RbNode*);
RbNode* __wrap__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(RbNode* x) { access(x, sizeof(RbNode), false, false, PC); return __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x); }
const RbNode* __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const RbNode*);
const RbNode* __wrap__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const RbNode* x) { access(x, sizeof(RbNode), false, false, PC); return __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(x); }
void __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(ListNode*, ListNode*);
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(ListNode* t, ListNode* p) { access(t, 16, true, false, PC); access(p, 16, true, false, PC); access(p->prev, 16, true, false, PC); __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(t, p); }
void __real__ZNSt8__detail15_List_node_base9_M_unhookEv(ListNode*);
void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(ListNode* t) { access(t, 16, true, false, PC); access(t->prev, 16, true, false, PC); access(t->next, 16, true, false, PC); __real__ZNSt8__detail15_List_node_base9_M_unhookEv(t); }
void __real__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(ListNode*, ListNode*, ListNode*);
void __wrap__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(ListNode* t, ListNode* a, ListNode* b) { access(t, 16, true, false, PC); access(a, 16, true, false, PC); if (b) access(b, 16, true, false, PC); __real__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(t, a, b); }

// ---- atomics
static void at_pre(const volatile void* p, size_t n, bool wr, int mo, const void* pc) { if (!self) return; spin((const void*)p); point(true); access((const void*)p, n, wr, true, pc); }
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_load(const volatile void* p, int mo) { if (!self) return; Sync* s = sync_of((const void*)p); if (acq(mo)) acquire(s->vc); else vjoin(self->pend, s->vc); }
static void at_store(const volatile void* p, int mo) { if (!self) return; Sync* s = sync_of((const void*)p); if (rel(mo)) release_store(s->vc); else s->vc = self->relf; }
static void at_rmw(const volatile void* p, int mo) { if (!self) return; Sync* s = sync_of((const void*)p); if (acq(mo)) acquire(s->vc); else vjoin(self->pend, s->vc); if (rel(mo)) release_to(s->vc); else vjoin(s->vc, self->relf); }
#define AT(n, ty) \
  ty __tsan_atomic##n##_load(const volatile ty* a, int mo) { at_pre(a, n / 8, false, mo, PC); ty v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_load(a, mo); return v; } \
  void __tsan_atomic##n##_store(volatile ty* a, ty v, int mo) { at_pre(a, n / 8, true, mo, PC); at_store(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_exchange(volatile ty* a, ty v, int mo) { at_pre(a, n / 8, true, mo, PC); at_rmw(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_fetch_add(volatile ty* a, ty v, int mo) { at_pre(a, n / 8, true, mo, PC); at_rmw(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_fetch_sub(volatile ty* a, ty v, int mo) { at_pre(a, n / 8, true, mo, PC); at_rmw(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_fetch_and(volatile ty* a, ty v, int mo) { at_pre(a, n / 8, true, mo, PC); at_rmw(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_fetch_or(volatile ty* a, ty v, int mo) { at_pre(a, n / 8, true, mo, PC); at_rmw(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_fetch_xor(volatile ty* a, ty v, int mo) { at_pre(a, n / 8, true, mo, PC); at_rmw(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int mo, int fmo) { at_pre(a, n / 8, true, mo, PC); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) at_rmw(a, mo); else at_load(a, fmo); return ok; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int mo, int fmo) { if (self && !tl_quiet && C.flip(1, 8)) { count("fault.spurious_cas_failure"); *c = __tsan_atomic##n##_load(a, fmo); return 0; } return __tsan_atomic##n##_compare_exchange_strong(a, c, v, mo, fmo); } \
  ty __tsan_atomic##n##_compare_exchange_val(volatile ty* a, ty c, ty v, int mo, int fmo) { __tsan_atomic##n##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (!self) return; if (acq(mo)) vjoin(self->vc, self->pend); if (rel(mo)) { self->relf = self->vc; ++self->vc.c[self->id]; } }
void __tsan_atomic_signal_fence(int) {}
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// ------------------------------------------------------------------------------------------------ streams and strings of the C++ library
// Their functions are not instrumented: a call is an access to the object it is made on. Each wrapper only reports and then continues with the
// original function, whatever its signature.
namespace sim {
extern "C" __attribute__((used, visibility("hidden"))) void sim_obj_stream(void* o, const void* pc) { if (!self || tl_quiet || o == &std::cout || o == &std::cerr || o == &std::clog || o == &std::wcout || o == &std::wcerr || o == &std::wclog || o == &std::cin || o == &std::wcin) return; access(o, 8, true, false, pc); }
extern "C" __attribute__((used, visibility("hidden"))) void sim_obj_string(void* o, const void* pc) { if (!self || tl_quiet) return; access((char*)o + 8, 8, true, false, pc); }
}
#define OBJ_WRAP(name, hook) asm(".text\n.globl __wrap_" name "\n.type __wrap_" name ",@function\n__wrap_" name ":\n" \
    "push %rdi\npush %rsi\npush %rdx\npush %rcx\npush %r8\npush %r9\npush %rax\nsub $32, %rsp\nmovups %xmm0, (%rsp)\nmov 88(%rsp), %rsi\ncall " hook "\nmovups (%rsp), %xmm0\nadd $32, %rsp\n" \
    "pop %rax\npop %r9\npop %r8\npop %rcx\npop %rdx\npop %rsi\npop %rdi\njmp __real_" name "\n.size __wrap_" name ", .-__wrap_" name "\n");
OBJ_WRAP("_ZNSi10_M_extractIjEERSiRT_", "sim_obj_stream")
OBJ_WRAP("_ZNSi10_M_extractIlEERSiRT_", "sim_obj_stream")
OBJ_WRAP("_ZNSi4readEPcl", "sim_obj_stream")
OBJ_WRAP("_ZNSi5seekgESt4fposI11__mbstate_tE", "sim_obj_stream")
OBJ_WRAP("_ZNSi5seekgElSt12_Ios_Seekdir", "sim_obj_stream")
OBJ_WRAP("_ZNSi5tellgEv", "sim_obj_stream")
OBJ_WRAP("_ZNSo3putEc", "sim_obj_stream")
OBJ_WRAP("_ZNSo5flushEv", "sim_obj_stream")
OBJ_WRAP("_ZNSo5writeEPKcl", "sim_obj_stream")
OBJ_WRAP("_ZNSo9_M_insertIPKvEERSoT_", "sim_obj_stream")
OBJ_WRAP("_ZNSo9_M_insertIbEERSoT_", "sim_obj_stream")
OBJ_WRAP("_ZNSo9_M_insertIdEERSoT_", "sim_obj_stream")
OBJ_WRAP("_ZNSo9_M_insertIlEERSoT_", "sim_obj_stream")
OBJ_WRAP("_ZNSo9_M_insertImEERSoT_", "sim_obj_stream")
OBJ_WRAP("_ZNSo9_M_insertIxEERSoT_", "sim_obj_stream")
OBJ_WRAP("_ZNSo9_M_insertIyEERSoT_", "sim_obj_stream")
OBJ_WRAP("_ZNSolsEPSt15basic_streambufIcSt11char_traitsIcEE", "sim_obj_stream")
OBJ_WRAP("_ZNSolsEi", "sim_obj_stream")
OBJ_WRAP("_ZNSolsEs", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_istreamIwSt11char_traitsIwEE10_M_extractIlEERS2_RT_", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_istreamIwSt11char_traitsIwEE4readEPwl", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_istreamIwSt11char_traitsIwEE5seekgESt4fposI11__mbstate_tE", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_istreamIwSt11char_traitsIwEE5seekgElSt12_Ios_Seekdir", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_istreamIwSt11char_traitsIwEE5tellgEv", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_ostreamIwSt11char_traitsIwEE3putEw", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_ostreamIwSt11char_traitsIwEE5writeEPKwl", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_ostreamIwSt11char_traitsIwEE9_M_insertIbEERS2_T_", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_ostreamIwSt11char_traitsIwEE9_M_insertIdEERS2_T_", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_ostreamIwSt11char_traitsIwEE9_M_insertIlEERS2_T_", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_ostreamIwSt11char_traitsIwEE9_M_insertImEERS2_T_", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_ostreamIwSt11char_traitsIwEE9_M_insertIxEERS2_T_", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_ostreamIwSt11char_traitsIwEE9_M_insertIyEERS2_T_", "sim_obj_stream")
OBJ_WRAP("_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEi", "sim_obj_stream")
OBJ_WRAP("_ZNSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE7_M_syncEPcmm", "sim_obj_stream")
OBJ_WRAP("_ZNSt7__cxx1115basic_stringbufIwSt11char_traitsIwESaIwEE7_M_syncEPwmm", "sim_obj_stream")
OBJ_WRAP("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", "sim_obj_stream")
OBJ_WRAP("_ZSt16__ostream_insertIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_PKS3_l", "sim_obj_stream")
OBJ_WRAP("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_", "sim_obj_stream")
OBJ_WRAP("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", "sim_obj_stream")
OBJ_WRAP("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", "sim_obj_stream")
OBJ_WRAP("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h", "sim_obj_stream")
OBJ_WRAP("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE", "sim_obj_stream")
OBJ_WRAP("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm", "sim_obj_string")
OBJ_WRAP("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE14_M_replace_auxEmmmc", "sim_obj_string")
OBJ_WRAP("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm", "sim_obj_string")
OBJ_WRAP("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_", "sim_obj_string")
OBJ_WRAP("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_mutateEmmPKcm", "sim_obj_string")
OBJ_WRAP("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEaSEOS4_", "sim_obj_string")
OBJ_WRAP("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEaSEPKc", "sim_obj_string")
OBJ_WRAP("_ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE10_M_replaceEmmPKwm", "sim_obj_string")
OBJ_WRAP("_ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE14_M_replace_auxEmmmw", "sim_obj_string")
OBJ_WRAP("_ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE9_M_appendEPKwm", "sim_obj_string")
OBJ_WRAP("_ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE9_M_assignERKS4_", "sim_obj_string")
OBJ_WRAP("_ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE9_M_mutateEmmPKwm", "sim_obj_string")

#include "core/sim.h"
#include <algorithm>
#ifdef SIM_SCHED
#include "sched/tsrt.h"
#define QUIET sim::Quiet quiet_
#else
#define QUIET
#endif

namespace sim {
Shared* S = nullptr;
Choices C;
int g_exempt;

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

void Choices::start_random(uint64_t seed) { replay_ = false; pos_ = 0; uint64_t x = seed; s_[0] = splitmix(x); s_[1] = splitmix(x); S->nch = 0; }
void Choices::start_replay(std::vector<uint32_t> v) { replay_ = true; in_ = std::move(v); pos_ = 0; S->nch = 0; }
uint64_t Choices::next() { uint64_t a = s_[0], b = s_[1], r = rotl(a * 5, 7) * 9; b ^= a; s_[0] = rotl(a, 24) ^ b ^ (b << 16); s_[1] = rotl(b, 37); return r; }
uint32_t Choices::rec(uint32_t v, uint32_t n)
{
    if (S->nch >= kMaxChoices) throw RunTooLong{};
    S->ch[S->nch].v = v; S->ch[S->nch].n = n; S->nch++;
    return v;
}
uint32_t Choices::draw(uint32_t n)
{
    QUIET;
    if (n <= 1) { return 0; }
    uint32_t v;
    if (replay_) { v = pos_ < in_.size() ? in_[pos_++] : 0; if (v >= n) v = n - 1; }
    else v = (uint32_t)(next() % n);
    return rec(v, n);
}
bool Choices::flip(uint32_t num, uint32_t den)
{
    QUIET;
    if (num == 0) return false;
    uint32_t v;
    if (replay_) { v = pos_ < in_.size() ? in_[pos_++] : 0; if (v > 1) v = 1; }
    else v = (next() % den) < num ? 1 : 0;
    return rec(v, 2) != 0;
}
uint32_t Choices::pickv(const std::vector<uint32_t>& w)
{
    QUIET;
    uint32_t n = (uint32_t)w.size();
    if (n <= 1) return 0;
    uint32_t v;
    if (replay_) { v = pos_ < in_.size() ? in_[pos_++] : 0; if (v >= n) v = n - 1; }
    else {
        uint64_t tot = 0; for (auto x : w) tot += x;
        uint64_t r = next() % (tot ? tot : 1); v = 0;
        for (; v + 1 < n; ++v) { if (r < w[v]) break; r -= w[v]; }
    }
    return rec(v, n);
}
uint32_t Choices::pick(std::initializer_list<uint32_t> w) { return pickv(std::vector<uint32_t>(w)); }
uint32_t Choices::len(uint32_t max)
{
    QUIET;
    if (max == 0) return 0;
    uint32_t v;
    if (replay_) { v = pos_ < in_.size() ? in_[pos_++] : 0; if (v > max) v = max; }
    else {
        // mixture: small values are likely, but the whole range is reachable
        uint64_t r = next();
        uint32_t m = max;
        switch (r & 3) { case 0: m = std::min<uint32_t>(max, 2); break; case 1: m = std::min<uint32_t>(max, 8); break; case 2: m = std::min<uint32_t>(max, 40); break; default: break; }
        v = (uint32_t)((r >> 8) % (m + 1));
    }
    return rec(v, max + 1);
}
uint64_t Choices::aux() { uint64_t x = draw(1u << 30); return splitmix(x); }

uint64_t fnv(const void* p, size_t n, uint64_t h) { auto c = (const uint8_t*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }

static void trace_append(const char* s, size_t n)
{
    if (!S->verbose) return;
    if (S->trace_len + n + 2 >= kTraceBytes) return;
    memcpy(S->trace + S->trace_len, s, n); S->trace_len += n; S->trace[S->trace_len++] = '\n';
}
void ev(const char* fmt, ...)
{
    QUIET;
    char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    if (n < 0) n = 0; if (n >= (int)sizeof(b)) n = sizeof(b) - 1;
    S->hash = fnv(b, n, S->hash ? S->hash : 1469598103934665603ull); S->events++;
    trace_append(b, n);
}
void note(const char* fmt, ...)
{
    QUIET;
    if (!S->verbose) return;
    char b[2048]; b[0] = '#'; b[1] = ' '; va_list ap; va_start(ap, fmt); int n = vsnprintf(b + 2, sizeof(b) - 2, fmt, ap); va_end(ap);
    if (n < 0) n = 0; if (n >= (int)sizeof(b) - 2) n = sizeof(b) - 3;
    trace_append(b, n + 2);
}
void count(const char* name, uint64_t n)
{
    QUIET;
    for (uint32_t i = 0; i < S->ncounters; ++i) if (!strcmp(S->counters[i].name, name)) { S->counters[i].n += n; return; }
    if (S->ncounters < kMaxCounters) { auto& c = S->counters[S->ncounters++]; snprintf(c.name, sizeof(c.name), "%s", name); c.n = n; }
}
void sched(uint64_t v) { QUIET; S->sched_hash = fnv(&v, sizeof(v), S->sched_hash ? S->sched_hash : 1469598103934665603ull); }
void sample(const char* fmt, ...) { QUIET; va_list ap; va_start(ap, fmt); vsnprintf(S->sample, sizeof(S->sample), fmt, ap); va_end(ap); }
void fail(const char* cls, const char* fmt, ...)
{
    QUIET; Exempt x; char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    throw Violation{cls, b};
}
} // namespace sim

// std::random_device: a stream of numbers that is the same in every execution of a run
extern "C" __attribute__((no_sanitize("thread"))) unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { static uint64_t n; uint64_t x = ++n * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return (unsigned)(x >> 32); }

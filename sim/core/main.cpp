#include <locale>
// Driver: batch / replay / minimise.  Every run is one forked child.
#include "core/sim.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <exception>

using namespace sim;

static std::string g_errfile;
static std::string g_prop;
static std::string g_only;     // only this scenario
static int g_cpu_limit = 20;

static double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9e3779b97f4a7c15ull + b; z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 32; z *= 0x94d049bb133111ebull; z ^= z >> 29; return z; }

static std::string jesc(const std::string& s)
{
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) { snprintf(b, sizeof(b), "\\u%04x", c); o += b; } else o += c; }
    return o;
}

struct Outcome { int status; std::string cls, msg; uint64_t hash; };

static void run_scenario()
{
    std::vector<Scenario*> v; std::vector<uint32_t> w;
    for (auto& s : scenarios()) if (g_prop == s.prop && (g_only.empty() || g_only == s.name)) { v.push_back(&s); w.push_back(s.weight); }
    if (v.empty()) { fprintf(stderr, "no scenario for %s\n", g_prop.c_str()); _exit(3); }
    auto* s = v[C.pickv(w)];
    char nm[80]; snprintf(nm, sizeof(nm), "scenario.%s", s->name); count(nm);
    ev("scenario %s/%s", s->prop, s->name);
    s->fn();
}

static std::string classify_crash(int wst)
{
    // sanitizer report?  class = kind + first frame inside the repository's sources
    std::ifstream f(g_errfile); std::string line, kind, fn; bool had = false;
    while (std::getline(f, line)) {
        size_t p;
        if (kind.empty() && (p = line.find("ERROR: AddressSanitizer: ")) != std::string::npos) { std::istringstream is(line.substr(p + 25)); is >> kind; had = true; }
        else if (kind.empty() && (p = line.find("runtime error: ")) != std::string::npos) { kind = "ub:" + line.substr(p + 15, 60); had = true; }
        if (had && fn.empty() && (p = line.find(" in ")) != std::string::npos && line.find("#") != std::string::npos && line.find("/src/") != std::string::npos) {
            auto e = line.find(" /", p); auto q = line.find('(', p); std::string t = line.substr(p + 4, std::min(e, q) - p - 4); fn = t;
        }
    }
    if (!kind.empty()) {
        // strip numbers (addresses, sizes) to keep the class stable
        std::string k; for (char c : kind) if (!isdigit((unsigned char)c)) k += c;
        return "crash:" + k + ":" + fn;
    }
    if (WIFSIGNALED(wst)) { int sg = WTERMSIG(wst); if (sg == SIGXCPU || sg == SIGKILL) return "hang:cpu-limit"; if (sg == SIGALRM) return "hang:blocked"; return std::string("crash:signal:") + strsignal(sg); }
    return "crash:exit";
}

static Outcome run_once(uint64_t seed, const std::vector<uint32_t>* replay, bool verbose)
{
    S->status = kRunning; S->verbose = verbose; S->hash = 0; S->events = 0; S->simtime = 0; S->sched_hash = 0; S->nontrivial = 0; S->nch = 0;
    S->cls[0] = S->msg[0] = S->sample[0] = 0; S->ncounters = 0; S->trace_len = 0;
    pid_t p = fork();
    if (p == 0) {
        int fd = open(g_errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
        rlimit rl{(rlim_t)g_cpu_limit, (rlim_t)g_cpu_limit + 5}; setrlimit(RLIMIT_CPU, &rl);
        alarm(90);   // a blocked (not spinning) run is a hang as well
        rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
        if (replay) C.start_replay(*replay); else C.start_random(seed);
        variant_child_begin();
        try { run_scenario(); S->status = kOk; }
        catch (const Violation& v) { snprintf(S->cls, sizeof(S->cls), "%s", v.cls.c_str()); snprintf(S->msg, sizeof(S->msg), "%s", v.msg.c_str()); S->status = kViolation; }
        catch (const RunTooLong&) { S->status = kDiscarded; }
        catch (const std::exception& e) { snprintf(S->cls, sizeof(S->cls), "unexpected-exception"); snprintf(S->msg, sizeof(S->msg), "an operation that has to succeed (or is not allowed to throw) threw: %s", e.what()); S->status = kViolation; }
        _exit(0);
    }
    if (p < 0) { perror("fork"); exit(3); }
    int wst = 0; waitpid(p, &wst, 0);
    Outcome o;
    if (S->status == kRunning) {
        o.status = kViolation; o.cls = classify_crash(wst);
        std::ifstream f(g_errfile); std::stringstream ss; ss << f.rdbuf(); o.msg = ss.str().substr(0, 3000);
    } else { o.status = S->status; o.cls = S->cls; o.msg = S->msg; }
    o.hash = S->hash;
    return o;
}

static std::vector<uint32_t> current_choices() { std::vector<uint32_t> v(S->nch); for (uint32_t i = 0; i < S->nch; ++i) v[i] = S->ch[i].v; return v; }
static std::vector<uint32_t> read_choices(const char* fn) { std::ifstream f(fn); std::vector<uint32_t> v; uint32_t x; while (f >> x) v.push_back(x); return v; }
static void write_choices(const std::string& fn, const std::vector<uint32_t>& v) { std::ofstream f(fn); for (size_t i = 0; i < v.size(); ++i) f << v[i] << (i % 32 == 31 ? '\n' : ' '); f << "\n"; }

static std::vector<uint32_t> minimise(std::vector<uint32_t> cur, const std::string& cls, double secs, int& tries)
{
    double t0 = now(); tries = 0;
    auto ok = [&](const std::vector<uint32_t>& c) { ++tries; auto o = run_once(0, &c, false); return o.status == kViolation && o.cls == cls; };
    auto strip = [&](std::vector<uint32_t>& c) { while (!c.empty() && c.back() == 0) c.pop_back(); };
    strip(cur);
    // shortest prefix
    { size_t lo = 0, hi = cur.size(); while (lo < hi && now() - t0 < secs) { size_t m = (lo + hi) / 2; std::vector<uint32_t> c(cur.begin(), cur.begin() + m); if (ok(c)) { hi = m; } else lo = m + 1; } std::vector<uint32_t> c(cur.begin(), cur.begin() + hi); if (ok(c)) cur = c; }
    bool progress = true;
    while (progress && now() - t0 < secs) {
        progress = false;
        for (size_t sz = std::min<size_t>(256, cur.size()); sz >= 1 && now() - t0 < secs; sz /= 2) {
            for (size_t i = 0; i < cur.size() && now() - t0 < secs;) {
                size_t e = std::min(cur.size(), i + sz);
                std::vector<uint32_t> c(cur.begin(), cur.begin() + i); c.insert(c.end(), cur.begin() + e, cur.end());
                if (ok(c)) { cur = c; progress = true; continue; }
                bool nz = false; for (size_t k = i; k < e; ++k) nz |= cur[k] != 0;
                if (nz) { c = cur; for (size_t k = i; k < e; ++k) c[k] = 0; if (ok(c)) { cur = c; progress = true; } }
                i += sz;
            }
        }
        for (size_t i = 0; i < cur.size() && now() - t0 < secs; ++i) {
            uint32_t lo = 0, hi = cur[i];
            while (lo < hi && now() - t0 < secs) { uint32_t m = (lo + hi) / 2; auto c = cur; c[i] = m; if (ok(c)) { hi = m; if (cur[i] != m) progress = true; cur = c; } else lo = m + 1; }
        }
        strip(cur);
    }
    return cur;
}

int main(int argc, char** argv)
{
    std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto get = [&](const char* k, const char* d) { return a.count(k) ? a[k] : std::string(d); };
    g_prop = get("--prop", ""); g_only = get("--scenario", "");
    std::string out = get("--out", "."); std::string tag = get("--tag", "w0");
    g_errfile = out + "/stderr." + tag;
    g_cpu_limit = atoi(get("--cpu", "20").c_str());
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (mode == "list") { for (auto& s : scenarios()) printf("%s %s %u\n", s.prop, s.name, s.weight); return 0; }
    // the lazily filled tables of the standard library's facets are filled beforehand: they are not part of the system under test
    { auto& ct = std::use_facet<std::ctype<char>>(std::locale::classic()); for (int i = 0; i < 256; ++i) { ct.narrow((char)i, '\0'); ct.widen((char)i); } char r[3]; ct.narrow("abc", "abc" + 3, '\0', r); ct.widen("abc", "abc" + 3, r); }
    variant_init();
    memset((void*)S, 0, offsetof(Shared, trace));

    if (mode == "replay") {
        auto v = read_choices(get("--choices", "").c_str());
        auto o = run_once(0, &v, true);
        printf("{\"status\":%d,\"cls\":\"%s\",\"hash\":\"%016llx\",\"events\":%llu,\"msg\":\"%s\",\"trace\":\"%s\"}\n", o.status, jesc(o.cls).c_str(), (unsigned long long)o.hash, (unsigned long long)S->events, jesc(o.msg).c_str(), jesc(std::string(S->trace, std::min<uint32_t>(S->trace_len, 200000))).c_str());
        return 0;
    }
    if (mode == "seed") {   // one seed, print outcome
        uint64_t seed = strtoull(get("--seed", "1").c_str(), 0, 10), idx = strtoull(get("--index", "0").c_str(), 0, 10);
        auto o = run_once(mix(seed, idx), nullptr, get("--verbose", "0") == "1");
        if (a.count("--save")) write_choices(get("--save", ""), current_choices());
        printf("{\"status\":%d,\"cls\":\"%s\",\"hash\":\"%016llx\",\"events\":%llu,\"choices\":%u,\"msg\":\"%s\",\"trace\":\"%s\"}\n", o.status, jesc(o.cls).c_str(), (unsigned long long)o.hash, (unsigned long long)S->events, S->nch, jesc(o.msg).c_str(), jesc(std::string(S->trace, std::min<uint32_t>(S->trace_len, 200000))).c_str());
        return 0;
    }
    if (mode == "minimise") {
        auto v = read_choices(get("--choices", "").c_str()); int tries;
        auto m = minimise(v, get("--cls", ""), atof(get("--secs", "20").c_str()), tries);
        write_choices(get("--save", "min.txt"), m);
        printf("{\"from\":%zu,\"to\":%zu,\"tries\":%d}\n", v.size(), m.size(), tries);
        return 0;
    }
    if (mode == "batch") {
        uint64_t seed = strtoull(get("--seed", "1").c_str(), 0, 10);
        uint64_t first = strtoull(get("--first", "0").c_str(), 0, 10), stride = strtoull(get("--stride", "1").c_str(), 0, 10), maxruns = strtoull(get("--runs", "1000000").c_str(), 0, 10);
        double secs = atof(get("--secs", "10").c_str()); int maxviol = atoi(get("--maxviol", "3").c_str());
        std::string hashfile = get("--hashes", "");
        std::ofstream hf; if (!hashfile.empty()) hf.open(hashfile);
        std::map<std::string, uint64_t> counters; std::set<uint64_t> hashes, scheds; std::map<std::string, int> seen; std::vector<std::string> viol, samples;
        uint64_t runs = 0, discarded = 0, harness = 0, simtime = 0, events = 0, nontriv = 0; std::string hmsg;
        double t0 = now(); int nviolruns = 0;
        for (uint64_t k = 0; k < maxruns && now() - t0 < secs; ++k) {
            uint64_t idx = first + k * stride;
            auto o = run_once(mix(seed, idx), nullptr, false);
            ++runs; simtime += S->simtime; events += S->events;
            if (hf.is_open()) { char b[64]; snprintf(b, sizeof(b), "%llu %016llx %d\n", (unsigned long long)idx, (unsigned long long)o.hash, o.status); hf << b; }
            if (o.status == kDiscarded) { ++discarded; continue; }
            if (o.status == kHarnessError) { ++harness; hmsg = o.msg; continue; }
            for (uint32_t i = 0; i < S->ncounters; ++i) counters[S->counters[i].name] += S->counters[i].n;
            if (S->nontrivial) { if (hashes.insert(o.hash).second) ++nontriv; }
            scheds.insert(S->sched_hash);
            if (samples.size() < 3 && S->sample[0] && S->nontrivial) samples.push_back(S->sample);
            if (o.status == kViolation) {
                int n = ++seen[o.cls];
                if (n <= 1) {
                    std::string cf = out + "/viol." + tag + "." + std::to_string(viol.size()) + ".choices"; write_choices(cf, current_choices());
                    char b[128]; snprintf(b, sizeof(b), "{\"index\":%llu,\"hash\":\"%016llx\",", (unsigned long long)idx, (unsigned long long)o.hash);
                    viol.push_back(std::string(b) + "\"cls\":\"" + jesc(o.cls) + "\",\"msg\":\"" + jesc(o.msg.substr(0, 1500)) + "\",\"choices\":\"" + jesc(cf) + "\"}");
                    if ((int)viol.size() >= maxviol) break;
                }
                if (++nviolruns >= 60) break;
            }
        }
        printf("{\"runs\":%llu,\"discarded\":%llu,\"harness_errors\":%llu,\"harness_msg\":\"%s\",\"simtime\":%llu,\"events\":%llu,\"secs\":%.3f,\"distinct_nontrivial\":%llu,", (unsigned long long)runs, (unsigned long long)discarded, (unsigned long long)harness, jesc(hmsg).c_str(), (unsigned long long)simtime, (unsigned long long)events, now() - t0, (unsigned long long)nontriv);
        printf("\"counters\":{"); bool f = true; for (auto& c : counters) { printf("%s\"%s\":%llu", f ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); f = false; }
        printf("},\"class_counts\":{"); f = true; for (auto& c : seen) { printf("%s\"%s\":%d", f ? "" : ",", jesc(c.first).c_str(), c.second); f = false; }
        printf("},\"samples\":["); f = true; for (auto& s : samples) { printf("%s\"%s\"", f ? "" : ",", jesc(s).c_str()); f = false; }
        printf("],\"violations\":["); f = true; for (auto& s : viol) { printf("%s%s", f ? "" : ",", s.c_str()); f = false; }
        printf("],\"hashes\":["); f = true; for (auto& h : hashes) { printf("%s\"%llx\"", f ? "" : ",", (unsigned long long)h); f = false; }
        printf("],\"scheds\":["); f = true; for (auto& h : scheds) { printf("%s\"%llx\"", f ? "" : ",", (unsigned long long)h); f = false; }
        printf("]}\n");
        return 0;
    }
    fprintf(stderr, "modes: list | seed | batch | replay | minimise\n");
    return 3;
}

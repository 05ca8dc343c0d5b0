// C14 (concurrent part): one HTTP stream used by several threads at once.
#include "sched/par.h"
#include "core/http.h"
#include "libCZI_StreamsLib.h"
using namespace sim;
SCENARIO(C14, concurrent, 1)
{
    N.resource = payload(100 + C.draw(3000), 3); N.chunk_mode = C.draw(3); bool pr = C.flip(1, 2), late = C.flip(1, 3); std::shared_ptr<libCZI::IStream> s; if (!late) s = http_stream("http://sim/x", C.flip(1, 2), pr); if (C.flip(2, 3)) { arm_net(); N.rate = std::min(N.rate, 300u); }
    int nt = 2 + C.draw(3); std::vector<std::vector<std::pair<uint64_t, uint64_t>>> prog(nt); for (auto& p : prog) { int m = 1 + C.draw(4); for (int i = 0; i < m; ++i) p.emplace_back(C.draw((uint32_t)N.resource.size() + 10), 1 + C.draw(500)); }
    uint64_t overlap = 0; int running = 0; std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] {
        std::shared_ptr<libCZI::IStream> own; if (late) { libCZI::StreamsFactory::Initialize(); { Quiet q; if (!N.global_inits) fail("not-initialized", "StreamsFactory::Initialize returns before libcurl is initialized"); } uint64_t h0 = fs_hard(); try { own = http_stream("http://sim/x", t & 1, pr); } catch (const std::exception& e) { if (fs_hard() == h0) fail("spurious-error", "creating the stream failed although no fault was injected: %s", e.what()); return; } }
        for (auto& r : prog[t]) { { Quiet q; if (++running > 1) ++overlap; } http_read(late ? own.get() : s.get(), r.first, r.second, true, "concurrent reader"); Quiet q; --running; } });
    par_run(bodies); s.reset(); if (!N.bad.empty()) fail("curl-misuse", "%s", N.bad.c_str()); if (N.live_handles || N.live_urls) fail("handle-leak", "%d curl handles and %d URL handles are left", N.live_handles, N.live_urls);
    if (overlap) nontrivial(); count("overlapping_operations", overlap);
    sample("%d threads, %llu requests, %llu faults, %llu overlapping operations", nt, (unsigned long long)N.requests, (unsigned long long)N.faults, (unsigned long long)overlap);
}

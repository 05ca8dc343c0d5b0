// C14: reading over HTTP while the network and the server misbehave.
#include "fault/net.h"
#include "fault/readclient.h"
#include "libCZI_StreamsLib.h"
using namespace sim;
#include "core/http.h"
namespace {
void run_scenario(const char* prop, const char* name) { for (auto& s : scenarios()) if (!strcmp(s.prop, prop) && !strcmp(s.name, name)) { s.fn(); return; } fail("harness", "no scenario %s/%s", prop, name); }
}
SCENARIO(C14, ranges, 5)
{
    bool large = C.flip(1, 25); N.resource = payload(large ? 16384 + C.draw(250000) : C.draw(4) ? C.draw(5000) : C.draw(60), 3); bool faulty = !C.flip(1, 4); if (faulty) arm_net(); N.chunk_mode = C.draw(4); if (C.flip(1, 8)) N.ignore_range = true;
    if (!N.ignore_range && C.flip(1, 8)) { uint32_t z = (uint32_t)N.resource.size(); N.base = (C.flip(1, 3) ? 1ull << 31 : 1ull << 32) * (1 + C.draw(2) * C.draw(200)) - C.draw(z + 1); N.kinds &= ~(uint32_t)kIgnoreRange; count("files_beyond_4gib"); }
    std::shared_ptr<IStream> s; uint64_t h0 = fs_hard(), a0 = A.failed; bool am = C.flip(1, 6); g_alloc.on = am;
    try { AllocWindow aw; s = http_stream("http://sim/x", C.flip(1, 2), C.flip(1, 2)); } catch (const std::exception& e) { if (fs_hard() == h0 && A.failed == a0) fail("spurious-error", "creating the stream failed although no fault was injected: %s", e.what()); }
    g_alloc.on = false; int m = 1 + C.len(20), okc = 0;
    if (s) for (int i = 0; i < m; ++i) { uint64_t z = N.resource.size(), off, size; switch (C.pick({6, 2, 2, 1})) { case 0: off = C.draw((uint32_t)z + 1); break; case 1: off = z - std::min<uint64_t>(z, C.draw(40)); break; case 2: off = z + C.draw(3); break; default: off = 0; break; } switch (C.pick({5, 2, 1, 1, 1})) { case 0: size = 1 + C.draw(100); break; case 1: size = 1 + C.draw(large ? 200000 : 6000); break; case 2: size = 0; break; case 3: size = z - std::min(z, off); break; default: size = 23; break; } okc += http_read(s.get(), off, size, !C.flip(1, 8), "HTTP stream"); }
    N.armed = false; bool ir = N.ignore_range;
    if (s && !ir) for (int i = 0; i < 3; ++i) { uint64_t off = C.draw((uint32_t)N.resource.size() + 2); if (!http_read(s.get(), off, 1 + C.draw(200), true, "after the faults stopped")) fail("no-recovery", "the faults have stopped but reading still fails"); }
    s.reset(); if (!N.bad.empty()) fail("curl-misuse", "%s", N.bad.c_str()); if (N.live_handles || N.live_urls) fail("handle-leak", "%d curl handles and %d URL handles are left", N.live_handles, N.live_urls);
    if (N.faults) nontrivial(); count("ok_reads", okc);
    sample("resource of %zu bytes, %llu requests, %llu faults, chunk mode %u%s", N.resource.size(), (unsigned long long)N.requests, (unsigned long long)N.faults, N.chunk_mode, ir ? ", server without range support" : "");
}
// whole documents: the reading workload of C07 over HTTP
SCENARIO(C14, documents, 5)
{
    bool quirk = C.flip(1, 6); N.chunk_mode = C.draw(4); stream_seam().in = [quirk](std::shared_ptr<Disk> d) { if (!N.rate) arm_net(); N.kinds &= ~(uint32_t)(kInit); (void)quirk; return http_stream(N.url_of(d), C.flip(1, 2), C.flip(1, 2)); };
    run_scenario("C07", "faults"); stream_seam() = StreamSeam(); if (!N.bad.empty()) fail("curl-misuse", "%s", N.bad.c_str()); if (N.live_handles || N.live_urls) fail("handle-leak", "%d curl handles and %d URL handles are left", N.live_handles, N.live_urls);
    if (N.faults) nontrivial();
}

// C13 (concurrent part): one stream object, reads (and writes of disjoint ranges) from several threads at once.
#include "sched/par.h"
#include "core/files.h"
using namespace sim;

SCENARIO(C13, concurrent, 1)
{
    int kind = C.pick({2, 1, 5, 0, 3, 3, 4, 1});    // 0..4 input streams, 5 output stream, 6 input-output stream, 7 memory stream
    auto n = std::make_shared<FsNode>(); F.files["/simfs/f"] = n; Bytes init = payload(200 + C.draw(3000), 5); n->put(0, init.data(), init.size());
    std::shared_ptr<IStream> in; std::shared_ptr<IOutputStream> out;
    if (kind <= 4) in = file_in_stream("/simfs/f", kind); else if (kind == 5) { out = CreateOutputStreamForFile(L"/simfs/f", true); } else if (kind == 6) { auto io = CreateInputOutputStreamForFile(L"/simfs/f"); in = io; out = io; }
    else { auto b = std::make_shared<Bytes>(init); in = CreateStreamFromMemory(std::shared_ptr<const void>(b, b->data()), b->size()); }
    F.armed = true; F.shrt = C.flip(1, 2) ? 300 : 0; F.eintr = kind == 2 || kind == 4 || C.flip(1, 2) ? 0 : 200; F.r_eio = C.flip(1, 4) ? 80 : 0; F.w_eio = C.flip(1, 4) ? 80 : 0;
    int nt = 2 + C.draw(3); const uint64_t region = 1000; Bytes model = init; std::vector<Bytes> own(nt); std::vector<bool> indet(nt, false); struct Op { bool w; uint64_t off, size; }; std::vector<std::vector<Op>> prog(nt); uint64_t rbase = 4000;
    for (int t = 0; t < nt; ++t) { int m = 1 + C.draw(5); for (int i = 0; i < m; ++i) { bool w = out && (!in || C.flip(1, 2)); prog[t].push_back({w, w ? C.draw(500) : C.draw((uint32_t)init.size() + 20), 1 + C.draw(400)}); } own[t].assign(region, 0); }
    uint64_t overlap = 0; int running = 0; std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] {
        for (size_t i = 0; i < prog[t].size(); ++i) {
            auto& o = prog[t][i]; { Quiet q; if (++running > 1) ++overlap; }
            if (!o.w) {
                uint64_t lim = kind == 7 || !out ? init.size() : 0; (void)lim; Bytes want; { Quiet q; want = o.off >= init.size() ? Bytes() : Bytes(init.begin() + o.off, init.begin() + std::min<uint64_t>(init.size(), o.off + o.size)); if (kind == 6) { o.off = o.off % init.size(); o.size = std::min<uint64_t>(o.size, init.size() - o.off); want = Bytes(init.begin() + o.off, init.begin() + o.off + o.size); } }
                checked_read(in.get(), want, o.off, o.size, true, "concurrent reader");
            } else {
                Bytes d = payload(o.size, 50 * t + i); uint64_t got = 0, h0 = fs_hard(); bool threw = false; uint64_t off = rbase + region * t + o.off; { Quiet q; ev("t%d Write %llu+%llu", t, (unsigned long long)off, (unsigned long long)o.size); }
                try { out->Write(off, d.data(), o.size, &got); } catch (const std::exception&) { threw = true; }
                Quiet q; bool hit = fs_hard() != h0; if ((threw || got != o.size) && !hit) fail("spurious-error", "concurrent writer: a write failed although the file system reported no error");
                if (threw || got != o.size) indet[t] = true; else memcpy(own[t].data() + o.off, d.data(), o.size);
            }
            Quiet q; --running;
        } });
    par_run(bodies);
    for (int t = 0; t < nt; ++t) if (out && !indet[t]) { Bytes b = node_bytes(*n, rbase + region * t, region); b.resize(region); if (b != own[t]) fail("lost-write", "the range written by thread %d does not hold what it wrote", t); }
    if (kind == 6 && node_bytes(*n, 0, init.size()) != init) fail("stray-write", "bytes nobody wrote to have changed");
    in.reset(); out.reset(); F.check_bad("concurrent use"); if (F.open_count()) fail("descriptor-leak", "a descriptor is still open"); if (overlap) nontrivial(); count("overlapping_operations", overlap);
    sample("stream kind %d used by %d threads, %llu system calls, %llu transient and %llu hard errors, %llu overlapping operations", kind, nt, (unsigned long long)F.calls, (unsigned long long)F.transient, (unsigned long long)F.hard, (unsigned long long)overlap);
}

// Concurrent phases of a run: real threads of the workload under the seeded scheduler, simulated storage with latency and faults.
#pragma once
#include "core/sim.h"
#include "core/disk.h"
#include "core/image.h"
#include "sched/tsrt.h"
#include <thread>
#include <functional>
#include <exception>

namespace sim {
// The bodies run as simulated threads 1..n; thread 0 starts and joins them. An exception that leaves a body is a violation.
inline void par_run(const std::vector<std::function<void()>>& bodies)
{
    par_begin();
    std::vector<std::thread> th;
    for (size_t i = 0; i < bodies.size(); ++i)
        th.emplace_back([&bodies, i] {
            try { bodies[i](); }
            catch (const Violation& v) { Quiet q; par_report(v.cls.c_str(), v.msg.c_str()); }
            catch (const RunTooLong&) { Quiet q; par_discard(); }
            catch (const std::exception& e) { Quiet q; std::string m = std::string("an operation that has to succeed threw: ") + e.what(); par_report("unexpected-exception", m.c_str()); }
            catch (...) { par_report("unexpected-exception", "an operation that has to succeed threw something"); }
        });
    for (auto& t : th) t.join();
    par_end();
}

// Storage with latency: while one thread waits for its data, others run. The bytes are copied under the eyes of the race detector.
uint64_t& thread_faults();   // faults the calling thread met
struct SlowCfg { uint32_t slow = 0; uint32_t max_delay = 0; };
class SchedStream : public libCZI::IStream {
public:
    std::shared_ptr<Disk> d; SlowCfg cfg; uint64_t inflight = 0, max_inflight = 0; bool* gone = nullptr; uint64_t* faults = nullptr;
    SchedStream(std::shared_ptr<Disk> d, SlowCfg c) : d(std::move(d)), cfg(c) {}
    ~SchedStream() override { Quiet q; if (gone) *gone = true; if (inflight) par_report("stream-destroyed-in-use", "the stream is destroyed while a read is executing"); }
    void Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* got) override
    {
        yield_point(); uint32_t delay = 0; Bytes tmp; uint64_t n = 0;
        { Quiet q; if (++inflight > max_inflight) max_inflight = inflight; if (cfg.slow && C.flip(cfg.slow, 1000)) { delay = 1 + C.draw(cfg.max_delay); count("fault.slow_read"); } }
        if (delay) par_delay(delay);
        try { Quiet q; tmp.resize(size); uint64_t f0 = d->faults; struct Cnt { Disk& d; uint64_t f0; ~Cnt() { if (d.faults != f0) ++thread_faults(); } } cnt{*d, f0}; d->read(offset, tmp.data(), size, &n); } catch (...) { Quiet q; --inflight; throw; }
        if (n) memcpy(pv, tmp.data(), n);
        { Quiet q; Bytes().swap(tmp); --inflight; }
        if (got) *got = n;
        yield_point();
    }
};
} // namespace sim

// Simulated storage: the only "disk" the code under test sees in the fault variant.
#pragma once
#include "core/sim.h"
#include "libCZI.h"
#include <memory>
#include <functional>
#include <vector>
#include <string>
#include <algorithm>
#include <stdexcept>

namespace sim {
#ifdef SIM_SCHED
extern thread_local int tl_quiet;
struct IoQuiet { IoQuiet() { ++tl_quiet; } ~IoQuiet() { --tl_quiet; } };   // the simulated disk itself is not under the eyes of the race detector
#else
typedef Exempt IoQuiet;
#endif

struct WriteRec { uint64_t off; std::vector<uint8_t> bytes; uint64_t size_before; };

struct FaultCfg {
    // rates are per mille, evaluated per I/O operation while 'armed'
    bool armed = false;
    uint32_t w_eio = 0;        // write fails before anything reaches the disk (exception)
    uint32_t w_torn = 0;       // a prefix of the write reaches the disk, then it fails (exception)
    uint32_t w_short = 0;      // a prefix of the write reaches the disk and the short count is reported
    uint32_t r_eio = 0;        // read fails (exception)
    uint32_t r_short = 0;      // fewer bytes than available are returned
    uint32_t r_garbage_tail = 0; // on a short read the rest of the buffer is scribbled over
    uint32_t foreign_exc = 0;  // of the exceptions: share (per mille) that are not of a libCZI type
    uint64_t capacity = ~0ull; // ENOSPC beyond
    uint32_t cb_fail = 0;      // a data callback of the client throws or hands out nothing
    uint64_t max_faults = ~0ull;
};

struct InjectedFault : std::runtime_error { explicit InjectedFault(const char* s) : std::runtime_error(s) {} };

class Disk {
public:
    std::vector<uint8_t> data;
    std::vector<WriteRec> log;
    bool keep_log = false;
    FaultCfg f;
    uint64_t reads = 0, writes = 0, faults = 0;
    uint64_t op_budget = 200000;     // liveness: more simulated I/O than this in one run is a hang
    bool trace = true;
    uint64_t hole_at = 0, hole_len = 0;   // documents beyond 2 or 4 GiB: a stretch of the address space that nobody stores anything in

    static constexpr uint64_t kInHole = ~0ull;
    uint64_t phys(uint64_t off) const { return !hole_len || off < hole_at ? off : off >= hole_at + hole_len ? off - hole_len : kInHole; }
    void check_budget() { if (reads + writes > op_budget) fail("livelock:io", "more than %llu simulated I/O operations in one run", (unsigned long long)op_budget); }

    [[noreturn]] void raise(const char* what, uint64_t off, uint64_t size)
    {
        ++faults;
        if (f.foreign_exc && C.flip(f.foreign_exc, 1000)) { count("fault.foreign_exception"); throw InjectedFault(what); }
        throw libCZI::LibCZIIOException(what, off, size);
    }
    static constexpr uint64_t kMaxFile = 64ull << 20;
    bool roll(uint32_t rate) { return f.armed && rate && faults < f.max_faults && C.flip(rate, 1000); }

    void put(uint64_t off, const void* pv, uint64_t n)
    {
        if (n == 0) return;
        if (keep_log) log.push_back({off, std::vector<uint8_t>((const uint8_t*)pv, (const uint8_t*)pv + n), data.size()});
        if (off + n > data.size()) data.resize(off + n, 0);
        memcpy(data.data() + off, pv, n);
    }
    void write(uint64_t at, const void* pv, uint64_t size, uint64_t* done)
    {
        ++writes; tick(); check_budget(); uint64_t off = phys(at); if (hole_len && size && at < hole_at && at + size > hole_at) off = kInHole;
        if (off > kMaxFile || size > kMaxFile || off + size > kMaxFile) { if (trace) ev("W %llu+%llu EFBIG", (unsigned long long)at, (unsigned long long)size); throw libCZI::LibCZIIOException("simulated EFBIG", at, size); }   // the file-size limit of the simulated disk
        if (roll(f.w_eio)) { count("fault.write_eio"); sched(1000 + writes); if (trace) ev("W %llu+%llu EIO", (unsigned long long)at, (unsigned long long)size); raise("simulated EIO on write", at, size); }
        if (size && roll(f.w_torn)) { uint64_t n = C.draw((uint32_t)std::min<uint64_t>(size, 1u << 20)); count("fault.write_torn"); sched(2000 + writes); put(off, pv, n); if (trace) ev("W %llu+%llu torn@%llu", (unsigned long long)at, (unsigned long long)size, (unsigned long long)n); raise("simulated torn write", at, size); }
        if (size && roll(f.w_short)) { uint64_t n = C.draw((uint32_t)std::min<uint64_t>(size, 1u << 20)); ++faults; count("fault.write_short"); sched(3000 + writes); put(off, pv, n); if (trace) ev("W %llu+%llu short=%llu", (unsigned long long)at, (unsigned long long)size, (unsigned long long)n); if (done) *done = n; return; }
        if (f.armed && off + size > f.capacity) { uint64_t n = off < f.capacity ? f.capacity - off : 0; if (n > size) n = size; count("fault.write_enospc"); sched(4000 + writes); put(off, pv, n); if (trace) ev("W %llu+%llu ENOSPC@%llu", (unsigned long long)at, (unsigned long long)size, (unsigned long long)n); raise("simulated ENOSPC", at, size); }
        put(off, pv, size);
        if (trace) ev("W %llu+%llu", (unsigned long long)at, (unsigned long long)size);
        if (done) *done = size;
    }
    void read(uint64_t at, void* pv, uint64_t size, uint64_t* done)
    {
        ++reads; tick(); check_budget(); uint64_t off = phys(at);
        if (hole_len && size && (off == kInHole || (at < hole_at && at + size > hole_at))) {
            if (trace) ev("R %llu+%llu in the hole", (unsigned long long)at, (unsigned long long)size); uint64_t i = 0; if (size > kMaxFile) throw libCZI::LibCZIIOException("simulated EIO", at, size);
            for (; i < size; ++i) { uint64_t p = phys(at + i); if (p != kInHole && p >= data.size()) break; ((uint8_t*)pv)[i] = p == kInHole ? 0 : data[p]; }
            if (done) *done = i; return;
        }
        if (roll(f.r_eio)) { count("fault.read_eio"); sched(5000 + reads); if (trace) ev("R %llu+%llu EIO", (unsigned long long)at, (unsigned long long)size); raise("simulated EIO on read", at, size); }
        uint64_t avail = off < data.size() ? std::min<uint64_t>(size, data.size() - off) : 0;
        if (avail && roll(f.r_short)) {
            uint64_t n = C.draw((uint32_t)std::min<uint64_t>(avail, 1u << 20)); ++faults; count("fault.read_short"); sched(6000 + reads);
            memcpy(pv, data.data() + off, n);
            if (f.r_garbage_tail && C.flip(f.r_garbage_tail, 1000)) memset((uint8_t*)pv + n, 0xA5, size - n);
            if (trace) ev("R %llu+%llu short=%llu", (unsigned long long)at, (unsigned long long)size, (unsigned long long)n);
            if (done) *done = n; return;
        }
        if (avail) memcpy(pv, data.data() + off, avail);
        if (trace) ev("R %llu+%llu=%llu", (unsigned long long)at, (unsigned long long)size, (unsigned long long)avail);
        if (done) *done = avail;
    }
};

// the disk whose fault configuration governs faults of the client's data callbacks (nullptr: none)
inline Disk*& callback_faults() { static Disk* p = nullptr; return p; }

class SimStream : public libCZI::IInputOutputStream {
public:
    std::shared_ptr<Disk> d;
    explicit SimStream(std::shared_ptr<Disk> d) : d(std::move(d)) {}
    void Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead) override { IoQuiet x; d->read(offset, pv, size, ptrBytesRead); }
    void Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* ptrBytesWritten) override { IoQuiet x; d->write(offset, pv, size, ptrBytesWritten); }
};

// Where the library's streams on a document come from: the simulated disk directly, or the library's own file streams on top of the simulated file system.
struct StreamSeam {
    std::function<std::shared_ptr<libCZI::IStream>(std::shared_ptr<Disk>)> in;
    std::function<std::shared_ptr<libCZI::IOutputStream>(std::shared_ptr<Disk>)> out;
    std::function<std::shared_ptr<libCZI::IInputOutputStream>(std::shared_ptr<Disk>)> io;
};
inline StreamSeam& stream_seam() { static StreamSeam s; return s; }
inline std::shared_ptr<libCZI::IStream> in_stream(std::shared_ptr<Disk> d) { return stream_seam().in ? stream_seam().in(d) : std::make_shared<SimStream>(d); }
inline std::shared_ptr<libCZI::IOutputStream> out_stream(std::shared_ptr<Disk> d) { return stream_seam().out ? stream_seam().out(d) : std::make_shared<SimStream>(d); }
inline std::shared_ptr<libCZI::IInputOutputStream> io_stream(std::shared_ptr<Disk> d) { return stream_seam().io ? stream_seam().io(d) : std::make_shared<SimStream>(d); }

} // namespace sim

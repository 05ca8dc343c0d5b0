// Expectations on the library's streams over the simulated file system, shared by the fault and the scheduler variant.
#pragma once
#include "core/simfs.h"
#include "core/doc.h"

namespace sim {
inline Bytes node_bytes(FsNode& n, uint64_t off, uint64_t size) { uint64_t sz = n.size(); uint64_t k = off >= sz ? 0 : std::min(size, sz - off); Bytes b(k); if (k) n.get(off, b.data(), k); return b; }
// one Read: exact, or an exception which reports a real error of the file system
inline bool checked_read(libCZI::IStream* s, const Bytes& want, uint64_t off, uint64_t size, bool with_count, const char* who)
{
    std::unique_ptr<uint8_t[]> buf(new uint8_t[size]); memset(buf.get(), 0xEE, size); uint64_t got = 0x1234567890ull, h0 = fs_hard(); bool threw = false; std::string what;
    try { s->Read(off, buf.get(), size, with_count ? &got : nullptr); } catch (const std::exception& e) { threw = true; what = e.what(); }
    bool hit = fs_hard() != h0; ev("%s Read %llu+%llu -> %s", who, (unsigned long long)off, (unsigned long long)size, threw ? "exception" : "ok");
    if (threw) { if (!hit) fail("spurious-error", "%s: reading %llu bytes at %llu failed although the file system reported no error: %s", who, (unsigned long long)size, (unsigned long long)off, what.c_str()); return false; }
    if (with_count && got != want.size()) fail("wrong-count", "%s: reading %llu bytes at %llu reports %llu bytes, %zu exist%s", who, (unsigned long long)size, (unsigned long long)off, (unsigned long long)got, want.size(), hit ? " (an error of the file system was not reported)" : "");
    if (want.size() && memcmp(buf.get(), want.data(), want.size())) fail("wrong-data", "%s: reading %llu bytes at %llu gives wrong bytes%s", who, (unsigned long long)size, (unsigned long long)off, hit ? " (an error of the file system was not reported)" : "");
    return true;
}
} // namespace sim

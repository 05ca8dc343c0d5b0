// Expectations on the HTTP stream, shared by the fault and the scheduler variant.
#pragma once
#include "fault/net.h"
namespace sim {
inline void arm_net() { static const uint32_t rates[] = {40, 120, 300, 600}; N.armed = true; N.rate = rates[C.draw(4)]; N.kinds = 1 + C.draw(1023); if (C.flip(1, 2)) N.max_faults = N.faults + 1 + C.draw(6); }
// exact bytes, or an exception because of a fault; fewer bytes than exist only when the server sent a truncated response - and then the count says so
inline bool http_read(libCZI::IStream* s, uint64_t off, uint64_t size, bool with_count, const char* who)
{
    const Bytes& res = N.resource; Bytes want; { IoQuiet q; want = off >= res.size() ? Bytes() : Bytes(res.begin() + off, res.begin() + std::min<uint64_t>(res.size(), off + size)); }
    std::unique_ptr<uint8_t[]> buf(new uint8_t[size]); memset(buf.get(), 0xEE, size); uint64_t got = 0x1234567890ull, h0 = fs_hard(), s0 = net_shorts(); bool threw = false; std::string what;
    try { s->Read(off + N.base, buf.get(), size, with_count ? &got : nullptr); } catch (const std::exception& e) { threw = true; what = e.what(); }
    IoQuiet q; bool hit = fs_hard() != h0, cut = net_shorts() != s0; ev("%s Read %llu+%llu -> %s", who, (unsigned long long)off, (unsigned long long)size, threw ? "exception" : "ok");
    if (threw) { if (!hit && !cut) fail("spurious-error", "%s: reading %llu bytes at %llu of %zu failed although no fault was injected: %s", who, (unsigned long long)size, (unsigned long long)off, res.size(), what.c_str()); return false; }
    if (with_count && (got > want.size() || (got != want.size() && !cut))) fail("wrong-count", "%s: reading %llu bytes at %llu of %zu reports %llu bytes, %zu exist%s", who, (unsigned long long)size, (unsigned long long)off, res.size(), (unsigned long long)got, want.size(), hit ? " (a failure of the transfer was not reported)" : "");
    uint64_t k = with_count ? got : cut ? 0 : want.size();
    if (k && memcmp(buf.get(), want.data(), k)) fail("wrong-data", "%s: reading %llu bytes at %llu of %zu gives wrong bytes%s", who, (unsigned long long)size, (unsigned long long)off, res.size(), hit ? " (a failure of the transfer was not reported)" : "");
    return true;
}
}

// C15: lock counting of bitmaps under concurrent Lock / Unlock / GetLockCount, also when one client calls Unlock once too often.
#include "sched/par.h"
using namespace sim;

namespace {
// bitmaps of the library, obtained through its public interface
std::shared_ptr<IBitmapData> lib_bitmap(PixelType pt, uint32_t w, uint32_t h) { return GetDefaultSiteObject(SiteObjectType::Default)->CreateBitmap(pt, w, h, 0, 0, 0); }
std::shared_ptr<IBitonalBitmapData> lib_bitonal(uint32_t w, uint32_t h)
{
    Bytes mem((size_t)((2 * w + 7) / 8) * 2 * h, 0xff); BitonalBitmapLockInfo l; l.ptrData = mem.data(); l.stride = (2 * w + 7) / 8; l.size = mem.size(); return BitonalBitmapOperations::Decimate(0, l, IntSize{2 * w, 2 * h});
}
struct LOp { int kind; int thread; bool threw = false; int val = 0; uint64_t call = 0, ret = 0; };   // 0 Lock, 1 Unlock, 2 GetLockCount
struct Lin {
    const std::vector<LOp>& h; std::set<std::pair<uint64_t, int>> seen; explicit Lin(const std::vector<LOp>& h) : h(h) {}
    bool dfs(uint64_t done, int cnt)
    {
        if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true; if (!seen.insert({done, cnt}).second) return false;
        uint64_t mr = ~0ull; for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) mr = std::min(mr, h[i].ret);
        for (size_t i = 0; i < h.size(); ++i) {
            if ((done >> i & 1) || h[i].call > mr) continue; auto& o = h[i]; int c = cnt;
            if (o.kind == 0) ++c; else if (o.kind == 1) { if (o.threw != (cnt == 0)) continue; if (!o.threw) --c; } else if (o.val != cnt) continue;
            if (dfs(done | 1ull << i, c)) return true;
        }
        return false;
    }
};
}
SCENARIO(C15, lockcount, 3)
{
    int nt = 2 + C.draw(3); bool bitonal = C.flip(1, 3), rogue = C.flip(1, 2); uint32_t w = 1 + C.draw(9), hgt = 1 + C.draw(4);
    auto& bm = *new std::shared_ptr<IBitmapData>(); auto& bb = *new std::shared_ptr<IBitonalBitmapData>();   // never destroyed when a violation is reported
    if (bitonal) bb = lib_bitonal(w, hgt); else bm = lib_bitmap(C.flip(1, 2) ? PixelType::Gray8 : PixelType::Bgr48, w, hgt);
    std::vector<std::vector<LOp>> prog(nt); size_t total = 0;
    for (int t = 0; t < nt; ++t) { int held = 0, n = 1 + C.draw(4); for (int i = 0; i < n; ++i) { LOp o; o.thread = t; o.kind = C.pick({3, held || rogue ? 3u : 0u, 1}); if (o.kind == 1 && !held && !rogue) o.kind = 0; if (o.kind == 0) ++held; if (o.kind == 1 && held) --held; prog[t].push_back(o); } while (held--) { LOp o; o.thread = t; o.kind = 1; prog[t].push_back(o); } total += prog[t].size(); }
    if (rogue && C.flip(1, 2)) { int t = C.draw(nt); LOp o; o.thread = t; o.kind = 1; prog[t].insert(prog[t].begin() + C.draw((uint32_t)prog[t].size() + 1), o); ++total; }
    if (total > 40) return;
    const void* ptr = nullptr; uint64_t size = 0; { if (bitonal) { auto l = bb->Lock(); ptr = l.ptrData; size = l.size; bb->Unlock(); } else { auto l = bm->Lock(); ptr = l.ptrDataRoi; size = l.size; bm->Unlock(); } }
    uint64_t seq = 1, overlap = 0; int running = 0; std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] {
        for (auto& o : prog[t]) {
            { Quiet q; o.call = seq++; if (++running > 1) ++overlap; } const void* p = ptr; uint64_t sz = size;
            try { if (o.kind == 0) { if (bitonal) { auto l = bb->Lock(); p = l.ptrData; sz = l.size; } else { auto l = bm->Lock(); p = l.ptrDataRoi; sz = l.size; } } else if (o.kind == 1) { if (bitonal) bb->Unlock(); else bm->Unlock(); } else o.val = bitonal ? bb->GetLockCount() : bm->GetLockCount(); }
            catch (const std::logic_error&) { o.threw = true; }
            Quiet q; o.ret = seq++; --running; if (p != ptr || sz != size) fail("wrong-lockinfo", "Lock returned another memory area"); if (o.threw && o.kind != 1) fail("spurious-error", "Lock or GetLockCount threw");
        }
    });
    par_run(bodies); if (overlap) nontrivial(); count("overlapping_operations", overlap);
    std::vector<LOp> h; int unl = 0, lck = 0; for (auto& p : prog) for (auto& o : p) { h.push_back(o); if (o.kind == 0) ++lck; if (o.kind == 1 && !o.threw) ++unl; }
    LOp fin; fin.kind = 2; fin.thread = -1; fin.val = bitonal ? bb->GetLockCount() : bm->GetLockCount(); fin.call = seq++; fin.ret = seq++; h.push_back(fin);
    for (auto& o : h) ev("t%d %llu-%llu %s%s %d", o.thread, (unsigned long long)o.call, (unsigned long long)o.ret, o.kind == 0 ? "Lock" : o.kind == 1 ? "Unlock" : "GetLockCount", o.threw ? " threw" : "", o.val);
    if (fin.val < 0) fail("lock-count", "the lock count is %d", fin.val);
    if (!Lin(h).dfs(0, 0)) { std::string m; for (auto& o : h) { char b[100]; snprintf(b, sizeof(b), "t%d [%llu,%llu] %s%s %d; ", o.thread, (unsigned long long)o.call, (unsigned long long)o.ret, o.kind == 0 ? "Lock" : o.kind == 1 ? "Unlock" : "GetLockCount", o.threw ? " threw logic_error" : "", o.val); m += b; } fail("not-linearisable", "no sequential order explains the outcome: %.2500s", m.c_str()); }
    for (int k = fin.val; k > 0; --k) { if (bitonal) bb->Unlock(); else bm->Unlock(); }
    bm.reset(); bb.reset();
    sample("%d threads, %zu operations on a %s bitmap%s", nt, h.size(), bitonal ? "bitonal" : "pixel", rogue ? ", unbalanced" : "");
}
// several threads work on one bitmap through the library (locks inside), each in its own region
SCENARIO(C15, shared_use, 1)
{
    int nt = 2 + C.draw(3); uint32_t w = 8 * nt, hgt = 2 + C.draw(4); PixelType pt = C.flip(1, 2) ? PixelType::Gray8 : PixelType::Bgr24;
    auto& bm = *new std::shared_ptr<IBitmapData>(lib_bitmap(pt, w, hgt)); auto& bb = *new std::shared_ptr<IBitonalBitmapData>(lib_bitonal(w, hgt));
    { ScopedBitmapLockerSP l(bm); memset(l.ptrDataRoi, 0x11, (size_t)l.stride * hgt); } BitonalBitmapOperations::SetAllPixels(bb, true);
    uint64_t overlap = 0; int running = 0; std::vector<int> reads(nt); for (auto& r : reads) r = C.draw(4); std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] {
        { Quiet q; if (++running > 1) ++overlap; }
        { ScopedBitmapLockerSP l(bm); ScopedBitmapLockerSP l2(l); for (uint32_t y = 0; y < hgt; ++y) memset((uint8_t*)l.ptrDataRoi + (size_t)y * l.stride + (size_t)t * 8 * bpp(pt), 0x40 + t, 8 * bpp(pt)); }
        for (int i = 0; i < reads[t]; ++i) { bool v = BitonalBitmapOperations::GetPixelValue(bb, (t * 8 + i) % w, i % hgt); if (!v) fail("wrong-result", "GetPixelValue on a bitmap nobody changes"); if (bm->GetLockCount() < 0 || bb->GetLockCount() < 0) fail("lock-count", "negative lock count"); }
        Quiet q; --running;
    });
    par_run(bodies); if (overlap) nontrivial();
    if (bm->GetLockCount() || bb->GetLockCount()) fail("lock-count", "lock count %d/%d after balanced use", bm->GetLockCount(), bb->GetLockCount());
    { ScopedBitmapLockerSP l(bm); for (uint32_t y = 0; y < hgt; ++y) for (int t = 0; t < nt; ++t) for (uint32_t k = 0; k < 8 * bpp(pt); ++k) if (((uint8_t*)l.ptrDataRoi)[(size_t)y * l.stride + (size_t)t * 8 * bpp(pt) + k] != 0x40 + t) fail("wrong-result", "a pixel written by thread %d was lost", t); }
    bm.reset(); bb.reset(); sample("%d threads on one bitmap", nt);
}

// C15: whatever happens inside a call (the client's callback throws, a Lock fails, memory runs out, storage fails, arguments are
// rejected): every bitmap the library locked is unlocked again, exactly as often as it was locked, and its memory is only touched in between.
#include "fault/fault.h"
#include "core/image.h"
#include <sanitizer/asan_interface.h>
using namespace sim;

namespace {
struct LockCtl { uint64_t seq = 0, fail_at = 0, failed = 0; } L;
struct LockFault : std::runtime_error { LockFault() : std::runtime_error("simulated failure of Lock") {} };
void maybe_fail() { ++L.seq; if (L.fail_at == L.seq) { ++L.failed; count("fault.lock_failure"); throw LockFault(); } }
// memory that can only be touched while locked
struct Guarded {
    Bytes mem; int locks = 0; bool underflow = false; uint64_t total = 0;
    explicit Guarded(size_t n) : mem(n ? n : 1, 0x35) { poison(); }
    ~Guarded() { unpoison(); }
    void poison() { __asan_poison_memory_region(mem.data(), mem.size()); }
    void unpoison() { __asan_unpoison_memory_region(mem.data(), mem.size()); }
    void lock() { Exempt x; maybe_fail(); if (locks++ == 0) unpoison(); ++total; }
    void unlock() { Exempt x; if (--locks < 0) underflow = true; if (locks == 0) poison(); }
    std::string state() const { char b[60]; snprintf(b, sizeof(b), "lock count %d after the call%s", locks, underflow ? ", Unlock was called more often than Lock" : ""); return b; }
    bool bad() const { return locks != 0 || underflow; }
};
class GBitmap : public IBitmapData {
public:
    PixelType pt; uint32_t w, h, stride; Guarded g;
    GBitmap(PixelType p, uint32_t w, uint32_t h, uint32_t pad) : pt(p), w(w), h(h), stride(w * bpp(p) + pad), g((size_t)(w * bpp(p) + pad) * h) {}
    PixelType GetPixelType() const override { return pt; }
    IntSize GetSize() const override { return {w, h}; }
    BitmapLockInfo Lock() override { g.lock(); BitmapLockInfo i; i.ptrData = i.ptrDataRoi = g.mem.data(); i.stride = stride; i.size = g.mem.size(); return i; }
    void Unlock() override { g.unlock(); }
    int GetLockCount() const override { return g.locks; }
};
class GBitonal : public IBitonalBitmapData {
public:
    uint32_t w, h, stride; Guarded g;
    GBitonal(uint32_t w, uint32_t h) : w(w), h(h), stride((w + 7) / 8 + 1), g((size_t)((w + 7) / 8 + 1) * h) {}
    IntSize GetSize() const override { return {w, h}; }
    BitonalBitmapLockInfo Lock() override { g.lock(); BitonalBitmapLockInfo i; i.ptrData = g.mem.data(); i.stride = stride; i.size = g.mem.size(); return i; }
    void Unlock() override { g.unlock(); }
    int GetLockCount() const override { return g.locks; }
};
// the client's own cache: it sees every bitmap the accessors put into it
class HarnessCache : public ISubBlockCacheOperation {
public:
    std::map<int, CacheItem> m;
    CacheItem Get(int i) override { Exempt x; auto f = m.find(i); return f == m.end() ? CacheItem() : f->second; }
    void Add(int i, const CacheItem& c) override { Exempt x; m[i] = c; }
};
struct CallbackFault : std::runtime_error { CallbackFault() : std::runtime_error("simulated failure of the client's callback") {} };
const PixelType kPts[] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgra32};
}
SCENARIO(C15, after_failures, 3)
{
    int nops = 1 + C.draw(5), failedOps = 0; bool allocMode = C.flip(1, 3); std::vector<std::shared_ptr<GBitmap>> bms; std::vector<std::shared_ptr<GBitonal>> bits; uint64_t locked = 0;
    auto bitmap = [&](PixelType pt, uint32_t w, uint32_t h) { bms.push_back(std::make_shared<GBitmap>(pt, w, h, C.draw(5))); return bms.back(); };
    auto bitonal = [&](uint32_t w, uint32_t h) { bits.push_back(std::make_shared<GBitonal>(w, h)); return bits.back(); };
    for (int op = 0; op < nops; ++op) {
        int kind = C.draw(11); const char* what = ""; bool ok = true; std::string err; L = LockCtl(); bms.clear(); bits.clear(); int throw_at = C.flip(1, 4) ? (int)C.draw(4) : -1; uint64_t lf = C.flip(1, 3) ? 1 + C.draw(8) : 0;
        PixelType pt = kPts[C.draw(4)]; uint32_t w = 1 + C.draw(20), h = 1 + C.draw(12); bool mism = C.flip(1, 4); PixelType pt2 = mism ? kPts[C.draw(6)] : pt; std::vector<std::shared_ptr<IBitmapData>> results; std::vector<std::shared_ptr<IBitonalBitmapData>> bresults; auto cache = std::make_shared<HarnessCache>(); uint64_t a0 = A.failed;
        std::shared_ptr<ImgDoc> doc; std::shared_ptr<ICZIReader> rd; Query q;
        auto body = [&](const std::function<void()>& fn) { L.fail_at = lf; g_alloc.on = allocMode; try { AllocWindow aw; fn(); } catch (const Violation&) { throw; } catch (const RunTooLong&) { throw; } catch (const std::exception& e) { ok = false; err = e.what(); } g_alloc.on = false; L.fail_at = 0; };
        switch (kind) {
        case 0: case 1: {
            what = kind ? "ComposeSingleChannelTilesMaskAware" : "ComposeSingleChannelTiles"; auto dest = bitmap(pt, w, h); int n = 1 + C.draw(4); std::vector<std::shared_ptr<GBitmap>> src; std::vector<std::shared_ptr<GBitonal>> msk; std::vector<IntPoint> pos;
            for (int i = 0; i < n; ++i) { src.push_back(bitmap(i == 1 ? pt2 : pt, 1 + C.draw(10), 1 + C.draw(10))); msk.push_back(C.flip(1, 2) ? bitonal(src.back()->w, src.back()->h) : nullptr); pos.push_back({(int)C.draw(w + 8) - 4, (int)C.draw(h + 8) - 4}); }
            Compositors::ComposeSingleTileOptions o; o.drawTileBorder = C.flip(1, 4);
            body([&] { if (kind == 0) Compositors::ComposeSingleChannelTiles([&](int i, std::shared_ptr<IBitmapData>& s, int& x, int& y) { Exempt z; if (i == throw_at) { count("fault.callback_throws"); throw CallbackFault(); } if (i >= n) return false; s = src[i]; x = pos[i].x; y = pos[i].y; return true; }, dest.get(), 0, 0, &o);
                else Compositors::ComposeSingleChannelTilesMaskAware([&](int i, std::shared_ptr<IBitmapData>& s, std::shared_ptr<IBitonalBitmapData>& m, int& x, int& y) { Exempt z; if (i == throw_at) { count("fault.callback_throws"); throw CallbackFault(); } if (i >= n) return false; s = src[i]; m = msk[i]; x = pos[i].x; y = pos[i].y; return true; }, dest.get(), 0, 0, &o); });
            break; }
        case 2: case 3: {
            what = kind == 2 ? "ComposeMultiChannel (into a bitmap)" : "ComposeMultiChannel"; int n = 1 + C.draw(4); std::vector<IBitmapData*> src; std::vector<Compositors::ChannelInfo> ci(n); Bytes lut8(256, 9), lut16(65536, 9); bool alpha = C.flip(1, 2);
            for (int i = 0; i < n; ++i) { PixelType p = kPts[C.draw(mism ? 6 : 4)]; src.push_back(bitmap(p, mism && C.flip(1, 4) ? w + 1 : w, h).get()); ci[i].Clear(); ci[i].weight = 1; ci[i].enableTinting = C.flip(1, 2); ci[i].tinting.color = Rgb8Color{200, 100, 50}; ci[i].blackPoint = 0.1f; ci[i].whitePoint = 0.9f; if (C.flip(1, 3)) { bool s16 = p == PixelType::Gray16 || p == PixelType::Bgr48; ci[i].ptrLookUpTable = s16 ? lut16.data() : lut8.data(); ci[i].lookUpTableElementCount = C.flip(1, 6) ? 17 : s16 ? 65536 : 256; } }
            auto dest = bitmap(alpha ? PixelType::Bgra32 : PixelType::Bgr24, w, h);
            body([&] { if (kind == 2) { if (alpha) Compositors::ComposeMultiChannel_Bgra32(dest.get(), 255, n, src.data(), ci.data()); else Compositors::ComposeMultiChannel_Bgr24(dest.get(), n, src.data(), ci.data()); } else { auto b = alpha ? Compositors::ComposeMultiChannel_Bgra32(255, n, src.data(), ci.data()) : Compositors::ComposeMultiChannel_Bgr24(n, src.data(), ci.data()); Exempt z; results.push_back(b); } });
            break; }
        case 4: { what = "CopyAt"; auto s = bitmap(pt, w, h), d = bitmap(pt2, 1 + C.draw(20), 1 + C.draw(12)); auto m = bitonal(C.flip(1, 2) ? w : 1 + C.draw(20), C.flip(1, 2) ? h : 1 + C.draw(12)); IntPoint o{(int)C.draw(16) - 8, (int)C.draw(16) - 8}; body([&] { BitonalBitmapOperations::CopyAt(s.get(), m.get(), o, d.get()); }); break; }
        case 5: { what = "NearestNeighborResize"; auto s = bitmap(kPts[C.draw(mism ? 6 : 5)], w, h); int dw = 1 + C.draw(20), dh = 1 + C.draw(12); bool roi = C.flip(1, 2); body([&] { auto b = roi ? Utils::NearestNeighborResize(s.get(), dw, dh, DblRect{0, 0, (double)w, (double)h}, DblRect{0, 0, (double)dw, (double)dh}) : Utils::NearestNeighborResize(s.get(), dw, dh); Exempt z; results.push_back(b); }); break; }
        case 6: { what = "FillBitmap"; auto s = bitmap(kPts[C.draw(6)], w, h); body([&] { Utils::FillBitmap(s.get(), RgbFloatColor{0.5f, 0.2f, 1}); }); break; }
        case 7: { what = "CalcMd5SumHash"; auto s = bitmap(kPts[C.draw(6)], w, h); uint8_t hash[16]; int sz = mism ? 3 : 16; body([&] { Utils::CalcMd5SumHash(s.get(), hash, sz); }); break; }
        case 8: { what = "Decimate"; auto s = bitonal(w + 1, h + 1); int nb = mism ? (C.flip(1, 2) ? -1 : 9) : (int)C.draw(8); body([&] { auto b = BitonalBitmapOperations::Decimate(nb, s.get()); Exempt z; bresults.push_back(b); }); break; }
        case 9: { what = "bitonal pixel operations"; auto s = bitonal(w, h); uint32_t x = C.draw(w + (mism ? 6 : 0)), y = C.draw(h + (mism ? 6 : 0)); int k = C.draw(4); IntRect r{(int)C.draw(10) - 3, (int)C.draw(10) - 3, (int)C.draw(9) - (mism ? 2 : 0), (int)C.draw(9)}; body([&] { if (k == 0) BitonalBitmapOperations::GetPixelValue(s, x, y); else if (k == 1) BitonalBitmapOperations::SetPixelValue(s, x, y, true); else if (k == 2) BitonalBitmapOperations::Fill(s.get(), r, false); else BitonalBitmapOperations::SetAllPixels(s, true); }); break; }
        default: {
            what = "accessor Get"; ImgCfg cfg; cfg.max_tiles = 6; cfg.max_side = 8; cfg.attachments = false; doc = std::make_shared<ImgDoc>(gen_image(cfg, 9)); doc->disk->trace = false; rd = CreateCZIReader(); rd->Open(std::make_shared<SimStream>(doc->disk)); learn(*doc, rd.get(), "locks"); q = gen_query(*doc); q.cache = C.flip(2, 3); q.dest = q.defaults = false; int rounds = 1 + C.draw(3); auto plane = plane_of(*doc, q);
            doc->disk->f = FaultCfg(); doc->disk->f.r_eio = C.flip(1, 2) ? 150 : 0; doc->disk->f.r_short = C.flip(1, 4) ? 100 : 0; doc->disk->f.armed = true;
            PixelType dpt = mism ? kPts[C.draw(4)] : doc->cpt[q.c]; std::vector<std::shared_ptr<GBitmap>> dst; int p = 1; if (q.kind == 2) for (int i = 0; i < q.layer; ++i) p *= doc->minif; for (int i = 0; i < rounds; ++i) dst.push_back(q.kind == 1 ? bitmap(dpt, (int)(q.roi.w * q.zoom), (int)(q.roi.h * q.zoom)) : bitmap(dpt, q.roi.w / p, q.roi.h / p));
            for (int i = 0; i < rounds; ++i) body([&] {
                if (q.kind == 0) { auto a = rd->CreateSingleChannelTileAccessor(); ISingleChannelTileAccessor::Options o; common_opts(o, q, cache); o.useVisibilityCheckOptimization = q.vis; a->Get(dst[i].get(), q.roi.x, q.roi.y, &plane, &o); }
                else if (q.kind == 1) { auto a = rd->CreateSingleChannelScalingTileAccessor(); ISingleChannelScalingTileAccessor::Options o; common_opts(o, q, cache); a->Get(dst[i].get(), q.roi, &plane, q.zoom, &o); }
                else { auto a = rd->CreateSingleChannelPyramidLayerTileAccessor(); ISingleChannelPyramidLayerTileAccessor::Options o; common_opts(o, q, cache); ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo li{(uint8_t)doc->minif, (uint8_t)q.layer}; a->Get(dst[i].get(), q.roi.x, q.roi.y, &plane, li, &o); } });
            doc->disk->f.armed = false; break; }
        }
        ev("%s %s locks %llu failedlocks %llu", what, ok ? "ok" : "exception", (unsigned long long)L.seq, (unsigned long long)L.failed); tick(); sched(kind * 16 + (ok ? 0 : 1) + L.fail_at * 100); count(ok ? "calls_ok" : "calls_failed"); locked += L.seq;
        if (!ok) { ++failedOps; note("%s", err.c_str()); }
        for (auto& b : bms) if (b->g.bad()) fail("lock-count", "%s %s%s%s: %s of a bitmap", what, ok ? "succeeded" : "failed (", ok ? "" : err.c_str(), ok ? "" : ")", b->g.state().c_str());
        for (auto& b : bits) if (b->g.bad()) fail("lock-count", "%s %s%s%s: %s of a mask", what, ok ? "succeeded" : "failed (", ok ? "" : err.c_str(), ok ? "" : ")", b->g.state().c_str());
        for (auto& b : results) if (b && b->GetLockCount()) fail("lock-count", "%s returned a bitmap that is still locked", what);
        for (auto& b : bresults) if (b && b->GetLockCount()) fail("lock-count", "%s returned a bitmap that is still locked", what);
        for (auto& e : cache->m) { if (e.second.bitmap && e.second.bitmap->GetLockCount()) fail("lock-count", "%s left a cached bitmap locked", what); if (e.second.mask && e.second.mask->GetLockCount()) fail("lock-count", "%s left a cached mask locked", what); }
        if ((L.failed || A.failed != a0 || throw_at >= 0) && !ok) nontrivial();
    }
    sample("%d calls, %d failed, %llu locks taken", nops, failedOps, (unsigned long long)locked);
}

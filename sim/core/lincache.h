// Reference model of the sub-block cache and the decision whether a recorded history is linearisable with respect to it.
#pragma once
#include "core/image.h"
#include <unordered_set>

namespace sim {
struct CacheItemRec { std::shared_ptr<IBitmapData> bm; std::shared_ptr<IBitonalBitmapData> mask; uint64_t size = 0; };
struct CacheOp {
    enum Kind { kAdd, kGet, kPrune, kStat, kStat1 } kind = kAdd;
    int thread = -1, key = 0, item = -1, got = -1; uint64_t maxMem = ~0ull; uint32_t maxCount = ~0u; int mask = 3; uint64_t mem = 0, cnt = 0; uint64_t call = 0, ret = 0; bool quiescent = false;
    std::string str() const { char b[160]; switch (kind) { case kAdd: snprintf(b, sizeof(b), "Add(%d, item%d)", key, item); break; case kGet: snprintf(b, sizeof(b), "Get(%d)=%d", key, got); break; case kPrune: snprintf(b, sizeof(b), "Prune(%lld, %d)", (long long)maxMem, (int)maxCount); break; default: snprintf(b, sizeof(b), "Stat(%d)=%llu bytes/%llu", mask, (unsigned long long)mem, (unsigned long long)cnt); } return b; }
};
// a mask bitmap of the harness (the cache only asks for its size)
class OwnMask : public IBitonalBitmapData {
public:
    uint32_t w, h; explicit OwnMask(uint32_t w, uint32_t h) : w(w), h(h) {}
    IntSize GetSize() const override { return {w, h}; }
    BitonalBitmapLockInfo Lock() override { return {}; }
    void Unlock() override {}
    int GetLockCount() const override { return 0; }
};
// a bitmap so large that nobody wants to allocate it (the cache only asks for its size)
class HugeBitmap : public IBitmapData {
public:
    PixelType pt; uint32_t w, h; HugeBitmap(PixelType pt, uint32_t w, uint32_t h) : pt(pt), w(w), h(h) {}
    PixelType GetPixelType() const override { return pt; }
    IntSize GetSize() const override { return {w, h}; }
    BitmapLockInfo Lock() override { return {}; }
    void Unlock() override {}
    int GetLockCount() const override { return 0; }
};
inline void gen_cache_op(CacheOp& o, int keys, std::vector<CacheItemRec>& items)
{
    o.key = C.draw(keys);
    if (o.kind == CacheOp::kAdd) {
        CacheItemRec r; static const PixelType pts[] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float}; PixelType pt = pts[C.draw(5)]; uint32_t w = 1 + C.draw(9), h = 1 + C.draw(5); r.bm = std::make_shared<OwnBitmap>(pt, w, h, C.draw(3)); r.size = (uint64_t)w * h * bpp(pt);
        if (C.flip(1, 3)) { uint32_t mw = 1 + C.draw(20), mh = 1 + C.draw(4); r.mask = std::make_shared<OwnMask>(mw, mh); r.size += (uint64_t)((mw + 7) / 8) * mh; }
        if (C.flip(1, 12)) { w = 30000 + C.draw(100000); h = 20000 + C.draw(100000); r.bm = std::make_shared<HugeBitmap>(pt, w, h); r.size = (uint64_t)w * h * bpp(pt); r.mask = nullptr; if (C.flip(1, 3)) { r.mask = std::make_shared<OwnMask>(w * 8, h); r.size += (uint64_t)w * h; } }
        o.item = (int)items.size(); items.push_back(r);
    }
    if (o.kind == CacheOp::kPrune) { int s = C.draw(3); if (s != 1) o.maxCount = C.draw(4); if (s != 0) { o.maxMem = C.draw(120); if (C.flip(1, 5)) o.maxMem <<= 28; } }
    if (o.kind == CacheOp::kStat) o.mask = 3;
    if (o.kind == CacheOp::kStat1) o.mask = 1 + C.draw(2);
}
inline void run_cache_op(ISubBlockCache& c, CacheOp& o, const std::vector<CacheItemRec>& items)
{
    switch (o.kind) {
    case CacheOp::kAdd: { auto& r = items[o.item]; c.Add(o.key, ISubBlockCacheOperation::CacheItem(r.bm, r.mask)); break; }
    case CacheOp::kGet: {
        auto r = c.Get(o.key);
#ifdef SIM_SCHED
        Quiet q;
#endif
        o.got = -1; if (r.IsValid()) { for (size_t i = 0; i < items.size(); ++i) if (items[i].bm == r.bitmap) o.got = (int)i; if (o.got < 0) fail("wrong-item", "Get(%d) returned a bitmap nobody added", o.key); if (items[o.got].mask != r.mask) fail("mixed-item", "Get(%d) returned the bitmap of one Add with the mask of another", o.key); } else if (r.mask) fail("mixed-item", "Get(%d) returned a mask without a bitmap", o.key);
        break; }
    case CacheOp::kPrune: { ISubBlockCacheControl::PruneOptions p; p.maxMemoryUsage = o.maxMem; p.maxSubBlockCount = o.maxCount; c.Prune(p); break; }
    default: { auto s = c.GetStatistics((uint8_t)o.mask); o.mem = s.memoryUsage; o.cnt = s.elementsCount; if (s.validityMask != o.mask) fail("wrong-statistics", "GetStatistics(%d) reports validity %d", o.mask, (int)s.validityMask); break; }
    }
}

// Wing & Gong search. Add and Get are two events: the moment the access is ranked for LRU and the moment it takes effect; both lie
// between call and return (an implementation that does both at once is a special case). Prune and GetStatistics are one event.
class CacheLin {
    const std::vector<CacheOp>& h; const std::vector<CacheItemRec>& items; struct Ent { int item; int rank; }; typedef std::map<int, Ent> St;
    std::unordered_set<uint64_t> seen; uint64_t nodes = 0; std::vector<int> order;
public:
    bool exhausted = false; size_t best = 0; std::vector<int> bestOrder;
    CacheLin(const std::vector<CacheOp>& h, const std::vector<CacheItemRec>& items) : h(h), items(items) {}
    bool run() { std::vector<uint8_t> st(h.size(), 0); std::vector<int> rk(h.size(), 0); St s; return dfs(st, rk, s, 0); }
private:
    bool two(const CacheOp& o) const { return o.kind == CacheOp::kAdd || o.kind == CacheOp::kGet; }
    bool apply(const CacheOp& o, int rank, St& s)
    {
        switch (o.kind) {
        case CacheOp::kAdd: s[o.key] = {o.item, rank}; return true;
        case CacheOp::kGet: { auto it = s.find(o.key); if (it == s.end()) return o.got == -1; if (it->second.item != o.got) return false; it->second.rank = rank; return true; }
        case CacheOp::kPrune: { uint64_t m = 0; for (auto& e : s) m += items[e.second.item].size; while (!s.empty() && (m > o.maxMem || s.size() > o.maxCount)) { auto b = s.begin(); for (auto i = s.begin(); i != s.end(); ++i) if (i->second.rank < b->second.rank) b = i; m -= items[b->second.item].size; s.erase(b); } return true; }
        case CacheOp::kStat: { uint64_t m = 0; for (auto& e : s) m += items[e.second.item].size; return m == o.mem && s.size() == o.cnt; }
        default: { if (!o.quiescent) return true; uint64_t m = 0; for (auto& e : s) m += items[e.second.item].size; return (o.mask & 1 ? m == o.mem : true) && (o.mask & 2 ? s.size() == o.cnt : true); }
        }
    }
    uint64_t key(const std::vector<uint8_t>& st, const std::vector<int>& rk, const St& s)
    {
        uint64_t x = fnv(st.data(), st.size()); // ranks matter only by their order
        std::vector<std::pair<int, int>> v; for (auto& e : s) v.push_back({e.second.rank, e.first * 2}); for (size_t i = 0; i < st.size(); ++i) if (st[i] == 1) v.push_back({rk[i], (int)i * 2 + 1}); std::sort(v.begin(), v.end());
        for (auto& p : v) x = fnv(&p.second, sizeof(int), x); for (auto& e : s) { int a[2] = {e.first, e.second.item}; x = fnv(a, sizeof(a), x); } return x;
    }
    bool dfs(std::vector<uint8_t>& st, std::vector<int>& rk, const St& s, int clock)
    {
        size_t done = 0; uint64_t minret = ~0ull; for (size_t i = 0; i < h.size(); ++i) { if (st[i] == 2) ++done; else minret = std::min(minret, h[i].ret); }
        if (done > best) { best = done; bestOrder = order; }
        if (done == h.size()) return true;
        if (++nodes > 400000) { exhausted = true; return false; }
        if (!seen.insert(key(st, rk, s)).second) return false;
        for (size_t i = 0; i < h.size(); ++i) {
            if (st[i] == 2 || h[i].call > minret) continue;   // nothing that returned earlier may come later
            if (two(h[i]) && st[i] == 0) { int o = rk[i]; st[i] = 1; rk[i] = clock; if (dfs(st, rk, s, clock + 1)) return true; st[i] = 0; rk[i] = o; if (exhausted) return false; continue; }
            St n = s; uint8_t old = st[i]; if (!apply(h[i], two(h[i]) ? rk[i] : clock, n)) continue; st[i] = 2; order.push_back((int)i); if (dfs(st, rk, n, clock + 1)) return true; order.pop_back(); st[i] = old; if (exhausted) return false;
        }
        return false;
    }
};
inline void check_cache_history(const std::vector<CacheOp>& h, const std::vector<CacheItemRec>& items)
{
    // cheap necessary conditions for the answers that are not required to be snapshots
    uint64_t tot = 0; std::set<int> ks; for (auto& o : h) if (o.kind == CacheOp::kAdd) { tot += items[o.item].size; ks.insert(o.key); }
    for (auto& o : h) if (o.kind >= CacheOp::kStat) { if ((o.mask & 1) && o.mem > tot) fail("wrong-statistics", "memory usage %llu reported, but all items together have only %llu bytes", (unsigned long long)o.mem, (unsigned long long)tot); if ((o.mask & 2) && o.cnt > ks.size()) fail("wrong-statistics", "%llu elements reported, but there are only %zu keys", (unsigned long long)o.cnt, ks.size()); }
    CacheLin l(h, items); if (l.run()) { count("histories_linearised"); return; }
    if (l.exhausted) { count("histories_undecided"); return; }
    std::string m = "no sequential order of these operations explains the answers:\n"; for (auto& o : h) { char b[200]; snprintf(b, sizeof(b), "  t%d [%llu,%llu] %s\n", o.thread, (unsigned long long)o.call, (unsigned long long)o.ret, o.str().c_str()); m += b; }
    fail("not-linearisable", "%.2500s", m.c_str());
}
// an item is referenced by the cache if and only if it is the current entry of its key
inline void check_cache_refs(ISubBlockCache& c, const std::vector<CacheItemRec>& items, const std::vector<CacheOp>& h)
{
    std::map<int, int> last; for (auto& o : h) if (o.kind == CacheOp::kGet && o.thread == -1) last[o.key] = o.got;
    std::set<int> in; for (auto& e : last) if (e.second >= 0) in.insert(e.second);
    for (size_t i = 0; i < items.size(); ++i) { long want = 1 + (in.count((int)i) ? 1 : 0); if (items[i].bm.use_count() != want) fail("leaked-item", "item %zu has %ld references, expected %ld", i, items[i].bm.use_count(), want); }
}
} // namespace sim

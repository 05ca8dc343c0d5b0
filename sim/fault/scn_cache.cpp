// C11: the sub-block cache when memory runs out inside its operations (single-threaded, exact LRU model).
#include "fault/fault.h"
#include "core/lincache.h"
using namespace sim;

SCENARIO(C11, allocation_failure, 1)
{
    int keys = 1 + C.draw(6), n = 4 + C.draw(24); bool crowd = C.flip(1, 20); if (crowd) { keys = 50 + C.draw(1000); n = 100 + C.draw(500); } std::vector<CacheItemRec> items; auto cache = CreateSubBlockCache(); struct Ent { int item; uint64_t rank; }; std::map<int, Ent> m; uint64_t clock = 0; int failed = 0;
    auto mem = [&] { uint64_t t = 0; for (auto& e : m) t += items[e.second.item].size; return t; };
    g_alloc.on = !C.flip(1, 4); g_alloc.num = 1; g_alloc.den = 3; items.reserve(n + 8);
    for (int i = 0; i < n; ++i) {
        CacheOp o; o.kind = crowd ? (CacheOp::Kind)C.pick({60, 30, 1, 2, 1}) : (CacheOp::Kind)C.pick({6, 5, 2, 2, 1}); gen_cache_op(o, keys, items); if (crowd) { if (o.maxCount < 10) o.maxCount = 5 + C.draw(100); if (o.maxMem < 1000) o.maxMem = 40 + C.draw(6000); } bool ok = true; uint64_t a0 = A.failed; ++clock; tick();
        try { if (o.kind == CacheOp::kGet) run_cache_op(*cache, o, items); else { AllocWindow w; if (g_alloc.on) { A.fail_at = C.draw(4); if (A.fail_at > 2) A.fail_at = 0; } run_cache_op(*cache, o, items); } } catch (const std::bad_alloc&) { ok = false; ++failed; if (A.failed == a0) fail("spurious-error", "%s reported a lack of memory that did not occur", o.str().c_str()); }
        ev("%s%s", o.str().c_str(), ok ? "" : " bad_alloc");
        if (!ok) { if (o.kind != CacheOp::kAdd) fail("spurious-error", "%s needs no memory", o.str().c_str()); continue; }   // a failed Add changes nothing
        switch (o.kind) {
        case CacheOp::kAdd: m[o.key] = {o.item, clock}; break;
        case CacheOp::kGet: { auto it = m.find(o.key); int want = it == m.end() ? -1 : it->second.item; if (o.got != want) fail("wrong-item", "%s, expected %d", o.str().c_str(), want); if (it != m.end()) it->second.rank = clock; break; }
        case CacheOp::kPrune: while (!m.empty() && (mem() > o.maxMem || m.size() > o.maxCount)) { auto b = m.begin(); for (auto k = m.begin(); k != m.end(); ++k) if (k->second.rank < b->second.rank) b = k; m.erase(b); } break;
        default: if (((o.mask & 1) && o.mem != mem()) || ((o.mask & 2) && o.cnt != m.size())) fail("wrong-statistics", "%s, expected %llu/%zu", o.str().c_str(), (unsigned long long)mem(), m.size()); break;
        }
        auto s = cache->GetStatistics(3); if (s.memoryUsage != mem() || s.elementsCount != m.size()) fail("wrong-statistics", "after %s: %llu bytes/%u elements, expected %llu/%zu", o.str().c_str(), (unsigned long long)s.memoryUsage, s.elementsCount, (unsigned long long)mem(), m.size());
    }
    g_alloc.on = false; std::set<int> in; for (auto& e : m) in.insert(e.second.item);
    for (size_t i = 0; i < items.size(); ++i) if (items[i].bm.use_count() != 1 + (in.count((int)i) ? 1 : 0)) fail("leaked-item", "item %zu has %ld references", i, items[i].bm.use_count());
    for (auto& e : m) { auto g = cache->Get(e.first); if (!g.IsValid() || g.bitmap != items[e.second.item].bm) fail("wrong-item", "key %d lost its item", e.first); }
    if (failed) nontrivial(); sample("%d operations, %d keys, %d failed for lack of memory", n, keys, failed);
}

// C11: the sub-block cache used by several threads; the recorded history has to be linearisable with respect to a sequential LRU cache.
#include "sched/par.h"
#include "core/lincache.h"
using namespace sim;

SCENARIO(C11, history, 3)
{
    int keys = 1 + C.draw(5), nt = 2 + C.draw(3); std::vector<std::vector<CacheOp>> prog(nt); std::vector<CacheItemRec> items; uint32_t stat_w = C.draw(3);
    bool prune_heavy = C.flip(1, 3), overwrite = C.flip(1, 3);
    for (int t = 0; t < nt; ++t) { int n = 1 + C.draw(nt > 3 ? 4 : 6); for (int i = 0; i < n; ++i) { CacheOp o; o.thread = t; o.kind = (CacheOp::Kind)C.pick({5, 5, prune_heavy ? 5u : 2u, stat_w, stat_w / 2}); gen_cache_op(o, overwrite ? std::min(keys, 2) : keys, items); prog[t].push_back(o); } }
    auto cache = CreateSubBlockCache(); std::vector<CacheOp> hist;
    // a few entries that are there already
    int pre = C.draw(4); for (int i = 0; i < pre; ++i) { CacheOp o; o.kind = CacheOp::kAdd; gen_cache_op(o, keys, items); run_cache_op(*cache, o, items); o.call = hist.size() * 2; o.ret = o.call + 1; hist.push_back(o); }
    uint64_t base = 100, seq = base; int running = 0; uint64_t overlap = 0; std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { for (auto& o : prog[t]) { { Quiet q; o.call = seq++; if (++running > 1) ++overlap; } run_cache_op(*cache, o, items); { Quiet q; o.ret = seq++; --running; } } });
    par_run(bodies); if (overlap) nontrivial(); count("overlapping_operations", overlap);
    for (auto& p : prog) for (auto& o : p) hist.push_back(o);
    // the content at the end is part of the history
    auto seqop = [&](CacheOp o) { o.thread = -1; o.call = seq++; run_cache_op(*cache, o, items); o.ret = seq++; hist.push_back(o); };
    for (int m : {3, 1, 2}) { CacheOp o; o.kind = m == 3 ? CacheOp::kStat : CacheOp::kStat1; o.mask = m; o.quiescent = true; seqop(o); }
    bool final_prune = C.flip(1, 2); if (final_prune) { CacheOp o; o.kind = CacheOp::kPrune; gen_cache_op(o, keys, items); seqop(o); CacheOp s; s.kind = CacheOp::kStat; s.mask = 3; seqop(s); }
    for (int k = 0; k < keys; ++k) { CacheOp o; o.kind = CacheOp::kGet; o.key = k; seqop(o); }
    for (auto& o : hist) ev("t%d %llu-%llu %s", o.thread, (unsigned long long)o.call, (unsigned long long)o.ret, o.str().c_str());
    check_cache_history(hist, items);
    check_cache_refs(*cache, items, hist);
    cache.reset(); for (auto& it : items) if (it.bm.use_count() != 1 || (it.mask && it.mask.use_count() != 1)) fail("leaked-item", "an item is still referenced after the cache was destroyed");
    sample("%d threads, %d keys, %zu operations, %zu overlapping", nt, keys, hist.size(), (size_t)overlap);
}

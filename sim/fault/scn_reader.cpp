// C07 reading from failing storage, C12 (fault variant part): composites are exact
#include "fault/readclient.h"
using namespace sim;

static void arm_read_faults(ReadClient& c)
{
    static const uint32_t rates[] = {20, 60, 150, 400}; uint32_t r = rates[C.draw(4)], kinds = 1 + C.draw(3), fe = C.flip(1, 3) ? 500 : 0; uint64_t mf = 1 + C.draw(8); bool tail = C.flip(1, 2);
    for (auto& d : c.docs) { auto& f = d.disk->f; f.armed = true; if (kinds & 1) f.r_eio = r; if (kinds & 2) f.r_short = r; f.r_garbage_tail = tail ? 700 : 0; f.foreign_exc = fe; f.max_faults = mf; }
}
SCENARIO(C07, faults, 10)
{
    ReadClient c; int nd = 1 + C.draw(3); ImgCfg cfg; cfg.max_tiles = 8; cfg.max_side = 10;
    for (int i = 0; i < nd; ++i) { c.docs.push_back(gen_image(cfg, i + 1)); c.truncated.push_back(false); }
    c.att_index.resize(nd);
    bool trunc = C.flip(1, 4);
    if (trunc) { int k = C.draw(nd); auto& v = c.docs[k].disk->data; v.resize(C.draw((uint32_t)v.size())); c.truncated[k] = true; count("fault.truncated_document"); sched(77); }
    if (!trunc || C.flip(1, 2)) arm_read_faults(c);
    int n = 2 + C.len(30); for (int i = 0; i < n; ++i) c.step();
    uint64_t f = c.faults(); c.arm(false);
    // the faults have stopped: everything works again and is exact, with the same reader object
    c.close();
    for (size_t k = 0; k < c.docs.size(); ++k) {
        if (c.truncated[k]) continue; auto& d = c.docs[k];
        if (!c.r || C.flip(1, 3)) c.r = CreateCZIReader();
        try { c.r->Open(in_stream(d.disk)); } catch (const std::exception& e) { fail("unreadable", "the faults have stopped but the document cannot be opened: %s", e.what()); }
        verify_subs(c.r.get(), d.doc.subs, {}, "after the faults"); verify_atts(c.r.get(), d.doc.atts, {}, "after the faults"); verify_meta(c.r.get(), d.doc.meta, "after the faults");
        verify_statistics(c.r->GetStatistics(), d.doc.subs, "after the faults"); c.r->Close();
    }
    c.r.reset(); c.check_held();
    if (f || trunc) nontrivial();
    count("failed_calls", c.failed); count("ok_calls", c.ok);
    sample("%d documents, %d opens, %d successful and %d failed calls, %llu faults%s", nd, c.opens, c.ok, c.failed, (unsigned long long)f, trunc ? ", one document truncated" : "");
}

SCENARIO(C12, composites, 3)
{
    ImgCfg cfg; ImgDoc d = gen_image(cfg); d.defpix = C.flip(1, 3); auto r = CreateCZIReader(); { ICZIReader::OpenOptions o; o.SetDefault(); if (d.defpix) o.default_frame_of_reference = CZIFrameOfReference::PixelCoordinateSystem; else if (C.flip(1, 3)) o.default_frame_of_reference = CZIFrameOfReference::RawSubBlockCoordinateSystem; r->Open(in_stream(d.disk), &o); } learn(d, r.get(), "reader");
    auto cache = CreateSubBlockCache(); int n = 1 + C.len(12); int drawn = 0;
    for (int i = 0; i < n; ++i) {
        Query q = gen_query(d); ev("query %s", q.str().c_str());
        Image im; try { im = run_query(nullptr, r.get(), d, q, cache); } catch (const std::out_of_range&) { if (layer_absent(d, q)) continue; throw; }
        check_image(d, q, im, "composite"); ++drawn; ev("ok %016llx", (unsigned long long)fnv(im.px.data(), im.px.size()));
        if (C.flip(1, 5)) { ISubBlockCacheControl::PruneOptions po; if (C.flip(1, 2)) po.maxSubBlockCount = C.draw(4); else po.maxMemoryUsage = C.draw(600); cache->Prune(po); count("prunes"); }
    }
    if (d.tiles.size() >= 2 && drawn) nontrivial();
    sample("%zu tiles, %d channels, %d scenes, %d queries", d.tiles.size(), d.nc, d.nscene, n);
}

// Composites inside an edit session show the state of the session; afterwards a reader shows the same.
SCENARIO(C12, edited, 1)
{
    ImgCfg cfg; cfg.max_tiles = 6; ImgDoc d = gen_image(cfg); auto rw = CreateCZIReaderWriter(); rw->Create(io_stream(d.disk)); int n = 2 + C.len(14), drawn = 0, edits = 0;
    std::map<int, int> key; { auto m = verify_subs(rw.get(), d.doc.subs, {}, "edit session"); for (auto& e : m) { key[e.first] = d.by_id.at(e.second); } }
    d.index = key;
    auto query = [&](const std::shared_ptr<ISubBlockRepository>& repo, ICZIReader* r, const char* who) {
        if (d.index.empty()) return; Query q = gen_query(d, true); { std::vector<int> live; for (auto& e : d.index) live.push_back(e.second); auto& t = d.tiles[live[C.draw((uint32_t)live.size())]]; q.c = t.c; q.z = t.z; } q.cache = false; ev("query %s", q.str().c_str());
        Image im; try { im = run_query(repo, r, d, q, nullptr); } catch (const std::out_of_range&) { if (layer_absent(d, q)) return; throw; }
        check_image(d, q, im, who); ++drawn; };
    for (int i = 0; i < n; ++i) switch (C.pick({4, 2, 2, 1})) {
    case 0: query(rw, nullptr, "composite in an edit session"); break;
    case 1: { ImgTile t = gen_tile(d, cfg); bool dup = false; for (auto& o : d.tiles) dup |= writer_dup(o.s, t.s); if (dup) break; deliver(t.s, kMemPtr, [&](auto& x) { rw->SyncAddSubBlock(x); }); int id = d.doc.next++; d.doc.subs[id] = t.s; d.tiles.push_back(t); d.by_id[id] = (int)d.tiles.size() - 1; ++edits; ev("add"); goto learn; }
    case 2: { if (key.empty()) break; auto it = key.begin(); std::advance(it, C.draw((uint32_t)key.size())); ImgTile& o = d.tiles[it->second]; ImgTile t = gen_tile(d, cfg); if (t.c != o.c) break; bool dup = false; for (auto& x : d.tiles) dup |= &x != &o && writer_dup(x.s, t.s); if (dup) break; deliver(t.s, kMemPtr, [&](auto& x) { rw->ReplaceSubBlock(it->first, x); }); for (auto& b : d.by_id) if (b.second == it->second) d.doc.subs[b.first] = t.s; o = t; ++edits; ev("replace"); goto learn; }
    default: { if (key.size() < 2) break; auto it = key.begin(); std::advance(it, C.draw((uint32_t)key.size())); rw->RemoveSubBlock(it->first); int tile = it->second; for (auto b = d.by_id.begin(); b != d.by_id.end();) { if (b->second == tile) { d.doc.subs.erase(b->first); b = d.by_id.erase(b); } else ++b; } d.tiles[tile].c = -100; d.tiles[tile].layer = 99; ++edits; ev("remove"); goto learn; }
    learn: { auto m = verify_subs(rw.get(), d.doc.subs, {}, "edit session", false); key.clear(); for (auto& e : m) key[e.first] = d.by_id.at(e.second); d.index = key; }
    }
    rw->Close(); rw.reset(); auto r = open_reader(d.disk); learn(d, r.get(), "after the edit session"); int k = 1 + C.draw(4); for (int i = 0; i < k; ++i) query(nullptr, r.get(), "composite after an edit session");
    if (edits && drawn) nontrivial(); sample("%zu tiles, %d edits, %d composites", d.doc.subs.size(), edits, drawn);
}

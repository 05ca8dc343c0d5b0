// C10: one reader used by several threads at once, with slow and failing storage and a concurrent Close.
#include "sched/par.h"
using namespace sim;

namespace {
struct Op { int kind = 0; int idx = 0; Query q; bool bitmap = false, hold = false; int start = 0; };
struct Held { std::shared_ptr<ISubBlock> sb; int tile; std::shared_ptr<IBitmapData> bm; };
struct World {
    ImgDoc d; std::shared_ptr<ICZIReader> r; std::map<int, int> atts; bool gone = false; std::shared_ptr<ISubBlockCache> cache;
    bool closing = false, closed = false; bool meta_valid = false; SubBlockStatistics st; uint64_t overlap = 0; int running = 0;
};
const char* kNames[] = {"ReadSubBlock", "TryGetSubBlockInfo", "EnumerateSubBlocks", "EnumSubset", "GetStatistics", "GetPyramidStatistics", "ReadMetadataSegment", "EnumerateAttachments", "ReadAttachment", "GetFileHeaderInfo", "composite", "ArbitraryInChannel", "Close", "AttachmentSubset", "Ex"};

void check_infos(World& w, const std::vector<std::pair<int, SubBlockInfo>>& got, bool all, const char* what)
{
    Quiet qq; std::set<int> seen;
    for (auto& g : got) { auto it = w.d.index.find(g.first); if (it == w.d.index.end() || !seen.insert(g.first).second) fail("wrong-result", "%s reports an index (%d) that does not belong there", what, g.first); auto e = info_diff(g.second, w.d.tiles[it->second].s); if (!e.empty()) fail("wrong-result", "%s: %s", what, e.c_str()); }
    if (all && seen.size() != w.d.index.size()) fail("wrong-result", "%s reports %zu of %zu sub-blocks", what, seen.size(), w.d.index.size());
}
void check_att(World& w, IAttachment* a, int id)
{
    Quiet qq; auto& o = w.d.doc.atts.at(id); if (!a) fail("read-null", "ReadAttachment returned nothing for an attachment of the document"); const void* p; size_t n; a->DangerousGetRawData(p, n);
    if (n != o.data.size() || (n && memcmp(p, o.data.data(), n))) fail("wrong-read", "ReadAttachment returned other content");
}
// one operation, throws what the library throws
void exec(World& w, const Op& op, std::vector<Held>& held)
{
    auto r = w.r.get();
    switch (op.kind) {
    case 0: {
        auto sb = r->ReadSubBlock(op.idx); Quiet* qq = nullptr; { Quiet z; if (!sb) fail("read-null", "ReadSubBlock returned nothing for a sub-block of the document"); auto& t = w.d.tiles[w.d.index.at(op.idx)]; auto e = info_diff(sb->GetSubBlockInfo(), t.s); if (e.empty()) e = data_diff(sb.get(), t.s); if (!e.empty()) fail("wrong-read", "ReadSubBlock: %s", e.c_str()); } (void)qq;
        std::shared_ptr<IBitmapData> bm; if (op.bitmap) { bm = sb->CreateBitmap(); Quiet z; check_tile_bitmap(w.d.tiles[w.d.index.at(op.idx)], bm.get(), "CreateBitmap"); }
        if (op.hold) { Quiet z; held.push_back({sb, w.d.index.at(op.idx), bm}); } break; }
    case 1: { SubBlockInfo i; bool ok = r->TryGetSubBlockInfo(op.idx, &i); Quiet z; if (!ok) fail("wrong-result", "TryGetSubBlockInfo reports false for a sub-block of the document"); auto e = info_diff(i, w.d.tiles[w.d.index.at(op.idx)].s); if (!e.empty()) fail("wrong-result", "TryGetSubBlockInfo: %s", e.c_str()); break; }
    case 2: { std::vector<std::pair<int, SubBlockInfo>> v; r->EnumerateSubBlocks([&](int i, const SubBlockInfo& s) { v.emplace_back(i, s); if (op.hold && (i == op.idx || v.size() == 1)) { auto sb = r->ReadSubBlock(i); Quiet z; auto it = w.d.index.find(i); if (!sb || it == w.d.index.end()) fail("read-null", "ReadSubBlock in a callback returned nothing"); auto e = data_diff(sb.get(), w.d.tiles[it->second].s); if (!e.empty()) fail("wrong-read", "ReadSubBlock in a callback: %s", e.c_str()); } return true; }); check_infos(w, v, true, "EnumerateSubBlocks"); break; }
    case 14: { std::vector<int> v; r->EnumerateSubBlocksEx([&](int i, const DirectorySubBlockInfo& s) { v.push_back(i); return true; }); Quiet z; if (v.size() != w.d.index.size()) fail("wrong-result", "EnumerateSubBlocksEx reports %zu of %zu sub-blocks", v.size(), w.d.index.size()); break; }
    case 3: {
        auto p = plane_of(w.d, op.q); std::vector<std::pair<int, SubBlockInfo>> v; r->EnumSubset(&p, &op.q.roi, op.bitmap, [&](int i, const SubBlockInfo& s) { v.emplace_back(i, s); return true; }); check_infos(w, v, false, "EnumSubset");
        Quiet z; size_t n = 0; for (auto& t : w.d.tiles) if (t.c == op.q.c && t.z == op.q.z && (!op.bitmap || t.layer == 0) && isect(op.q.roi, t.s.x, t.s.y, t.s.lw, t.s.lh)) ++n; if (n != v.size()) fail("wrong-result", "EnumSubset reports %zu instead of %zu sub-blocks", v.size(), n); break; }
    case 4: { auto s = r->GetStatistics(); Quiet z; verify_statistics(s, w.d.doc.subs, "GetStatistics"); break; }
    case 5: { auto s = r->GetPyramidStatistics(); Quiet z; verify_pyramid_statistics(s, w.d.doc.subs, "GetPyramidStatistics"); break; }
    case 6: {
        std::shared_ptr<IMetadataSegment> ms; try { ms = r->ReadMetadataSegment(); } catch (const LibCZISegmentNotPresent&) { if (w.d.doc.meta.present) fail("wrong-result", "metadata reported as absent"); break; }
        { Quiet z; if (!w.d.doc.meta.present || !ms) fail("wrong-result", "metadata reported although none was written"); verify_meta_seg(ms.get(), w.d.doc.meta, "ReadMetadataSegment"); }
        auto md = ms->CreateMetaFromMetadataSegment(); bool v = md && md->IsXmlValid(); if (v != w.meta_valid) fail("wrong-result", "the metadata is parsed differently"); break; }
    case 7: { std::vector<std::pair<int, AttachmentInfo>> v; r->EnumerateAttachments([&](int i, const AttachmentInfo& a) { v.emplace_back(i, a); if (op.hold) { auto x = r->ReadAttachment(i); check_att(w, x.get(), w.atts.at(i)); } return true; }); Quiet z; if (v.size() != w.atts.size()) fail("wrong-result", "EnumerateAttachments reports %zu of %zu", v.size(), w.atts.size()); for (auto& a : v) { auto& o = w.d.doc.atts.at(w.atts.at(a.first)); if (memcmp(&o.guid, &a.second.contentGuid, sizeof(GUID)) || a.second.name != fixed(o.name, 80)) fail("wrong-result", "EnumerateAttachments reports something else"); } break; }
    case 8: { auto a = r->ReadAttachment(op.idx); check_att(w, a.get(), w.atts.at(op.idx)); break; }
    case 13: { auto& o = w.d.doc.atts.at(w.atts.at(op.idx)); std::string nm = fixed(o.name, 80); size_t n = 0; bool self = false; r->EnumerateSubset(nullptr, nm.c_str(), [&](int i, const AttachmentInfo& a) { ++n; self |= i == op.idx; return a.name == nm || (fail("wrong-result", "EnumerateSubset reports another name"), false); }); if (!self && !nm.empty()) fail("wrong-result", "EnumerateSubset does not report the attachment"); break; }
    case 9: { auto h = r->GetFileHeaderInfo(); if (memcmp(&h.fileGuid, &w.d.doc.guid, sizeof(GUID))) fail("wrong-result", "GetFileHeaderInfo reports another GUID"); break; }
    case 10: {
        Image im; try { im = run_query(nullptr, r, w.d, op.q, w.cache); } catch (const std::out_of_range&) { if (!layer_absent(w.d, op.q)) throw; break; }
        Quiet z; check_image(w.d, op.q, im, "concurrent composite"); count("composites"); break; }
    case 11: { SubBlockInfo i; bool ok = r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(op.q.c, i); Quiet z; if (!ok || i.pixelType != w.d.cpt[op.q.c]) fail("wrong-result", "TryGetSubBlockInfoOfArbitrarySubBlockInChannel: wrong answer"); break; }
    case 12: r->Close(); break;
    }
}
thread_local uint64_t tl_faults;
}
namespace sim { uint64_t& thread_faults() { return tl_faults; } }

static void reader_run(bool with_close, bool heavy)
{
    World w; ImgCfg cfg; cfg.big = false; cfg.max_tiles = heavy ? 5 : 8; cfg.max_side = heavy ? 8 : 6; w.d = gen_image(cfg, 3); auto& d = w.d;
    SlowCfg sc; if (C.flip(1, 2)) { sc.slow = 300; sc.max_delay = C.flip(1, 2) ? 2000 : 100; }
    bool faulty = C.flip(1, 3); d.disk->trace = false; d.disk->f = FaultCfg(); if (faulty) { if (C.flip(1, 2)) d.disk->f.r_eio = 60; else d.disk->f.r_short = 60; d.disk->f.foreign_exc = 300; }
    auto stream = std::make_shared<SchedStream>(d.disk, sc); stream->gone = &w.gone;
    w.r = CreateCZIReader(); { ICZIReader::OpenOptions o; o.SetDefault(); if (C.flip(1, 4)) o.subBlockDirectoryInfoPolicy = ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy::SubBlockHeaderPrecedence; w.r->Open(stream, &o); }
    stream.reset(); learn(d, w.r.get(), "before the threads start"); w.cache = CreateSubBlockCache();
    { std::set<int> left; for (auto& a : d.doc.atts) left.insert(a.first); w.r->EnumerateAttachments([&](int i, const AttachmentInfo& a) { for (int id : left) { auto& o = d.doc.atts.at(id); if (!memcmp(&a.contentGuid, &o.guid, sizeof(GUID)) && a.name == fixed(o.name, 80) && std::string(a.contentFileType) == fixed(o.type, 8)) { left.erase(id); w.atts[i] = id; break; } } return true; }); }
    if (d.doc.meta.present) { auto ms = w.r->ReadMetadataSegment(); auto m = ms->CreateMetaFromMetadataSegment(); w.meta_valid = m && m->IsXmlValid(); }
    // the programs of the threads
    int nt = 2 + C.draw(3); std::vector<std::vector<Op>> prog(nt); std::vector<int> idx, aidx; for (auto& e : d.index) idx.push_back(e.first); for (auto& e : w.atts) aidx.push_back(e.first);
    bool one_kind = C.flip(1, 4); int the_kind = C.draw(12);
    for (int t = 0; t < nt; ++t) { int n = 1 + C.draw(heavy ? 3 : 6); for (int i = 0; i < n; ++i) {
        Op o; o.kind = one_kind ? the_kind : (int)C.pick({6, 2, 2, 2, 2, 2, 2, 2, 2, 1, (uint32_t)(heavy ? 6 : 1), 2}); if (!one_kind && C.flip(1, 16)) o.kind = 13 + C.draw(2); if ((o.kind == 8 || o.kind == 13) && aidx.empty()) o.kind = 0;
        o.idx = o.kind == 8 || o.kind == 13 ? aidx[C.draw((uint32_t)aidx.size())] : idx[C.draw((uint32_t)idx.size())]; if (o.kind == 3 || o.kind >= 10) o.q = gen_query(d); o.bitmap = C.flip(1, 2); o.hold = C.flip(1, 3); prog[t].push_back(o); } }
    if (with_close) { int t = C.draw(nt), p = C.draw((uint32_t)prog[t].size() + 1); Op o; o.kind = 12; prog[t].insert(prog[t].begin() + p, o); }
    std::vector<std::vector<Held>> held(nt); std::vector<std::function<void()>> bodies; d.disk->f.armed = faulty;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] {
        for (auto& op : prog[t]) {
            bool after, during; uint64_t f0 = tl_faults; { Quiet q; after = w.closed; if (op.kind == 12) w.closing = true; if (++w.running > 1) ++w.overlap; ev("t%d %s", t, kNames[op.kind]); }
            bool ok = false; std::string what;
            try { exec(w, op, held[t]); ok = true; } catch (const Violation&) { throw; } catch (const RunTooLong&) { throw; } catch (const std::exception& e) { Quiet q; what = e.what(); }
            Quiet q; during = w.closing; --w.running; if (op.kind == 12) w.closed = true; ev("t%d %s %s", t, kNames[op.kind], ok ? "ok" : "exception");
            if (!ok && !during && tl_faults == f0) fail("spurious-error", "%s failed although the reader is open and the thread met no fault: %s", kNames[op.kind], what.c_str());
            if (!ok && op.kind == 12) fail("spurious-error", "Close failed: %s", what.c_str());
            if (ok && after && (op.kind == 0 || op.kind == 6 || op.kind == 8)) fail("read-after-close", "%s succeeded although Close had returned before it started", kNames[op.kind]);
        }
    });
    par_run(bodies);
    if (w.overlap) nontrivial(); d.disk->f.armed = false; count("overlapping_operations", w.overlap);
    for (auto& h : held) for (auto& x : h) { auto& t = d.tiles[x.tile]; auto e = data_diff(x.sb.get(), t.s); if (!e.empty()) fail("held-object", "a sub-block obtained during the concurrent phase changed: %s", e.c_str()); if (x.bm) check_tile_bitmap(t, x.bm.get(), "bitmap obtained earlier"); }
    if (with_close) { held.clear(); if (!w.gone) fail("stream-not-released", "Close has returned and no operation executes any more, but the stream is still referenced"); }
    else { auto keep = d.index; learn(d, w.r.get(), "after the concurrent phase"); if (keep != d.index) fail("wrong-result", "the index of a sub-block changed"); std::vector<Held> hh; for (int k = 0; k < 12; ++k) { if (k == 0 || k == 8 || k == 10) continue; Op o; o.kind = k; o.idx = idx[0]; o.q = gen_query(d); exec(w, o, hh); } w.r->Close(); if (!w.gone) fail("stream-not-released", "the stream is still referenced after Close"); }
    sample("%d threads, %zu sub-blocks, %s%s%s", nt, d.tiles.size(), with_close ? "Close concurrently, " : "", faulty ? "failing storage, " : "", sc.slow ? "slow storage" : "");
}
SCENARIO(C10, readers, 4) { reader_run(false, false); }
SCENARIO(C10, close, 4) { reader_run(true, false); }
SCENARIO(C10, composites, 2) { reader_run(C.flip(1, 4), true); }
SCENARIO(C12, concurrent, 1) { reader_run(false, true); }

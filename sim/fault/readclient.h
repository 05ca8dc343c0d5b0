// A client that reads documents (any of several, through one or several reader objects) while the storage may fail.
#pragma once
#include "fault/session.h"
#include "core/image.h"

namespace sim {
struct ReadClient {
    std::vector<ImgDoc> docs; std::shared_ptr<ICZIReader> r; int cur = -1; std::shared_ptr<ISubBlockCache> cache;
    std::vector<bool> truncated; std::vector<std::map<int, int>> att_index;
    int ok = 0, failed = 0, opens = 0; bool closed_once = false;
    struct Held { std::shared_ptr<ISubBlock> sb; int doc, tile; std::shared_ptr<IBitmapData> bm; }; std::vector<Held> held;
    struct HeldAtt { std::shared_ptr<IAttachment> a; int doc, id; }; std::vector<HeldAtt> heldAtt;

    uint64_t faults() const { uint64_t n = 0; for (auto& d : docs) n += d.disk->faults; return n; }
    void arm(bool on) { for (auto& d : docs) d.disk->f.armed = on; }
    // true: the call succeeded; false: it reported an error, which has to have a reason
    template <class F> bool attempt(const char* what, F f, bool may_fail = false)
    {
        uint64_t f0 = faults(), a0 = A.failed;
        try { AllocWindow aw; f(); }
        catch (const Violation&) { throw; } catch (const RunTooLong&) { throw; }
        catch (const std::exception& e) {
            bool fired = faults() != f0 || A.failed != a0; ev("%s -> exception%s", what, fired ? " (fault)" : "");
            if (!fired && !may_fail && !(cur >= 0 && truncated[cur])) fail("spurious-error", "%s failed although the call is valid and no fault was injected: %s", what, e.what());
            ++failed; return false;
        }
        ev("%s ok", what); ++ok; return true;
    }
    void close()
    {
        if (!r || cur < 0) return;
        int i = docs[cur].index.empty() ? 0 : docs[cur].index.begin()->first;
        attempt("Close", [&] { r->Close(); }); closed_once = true; cur = -1;
        if (C.flip(1, 3)) { bool threw = false; try { auto s = r->ReadSubBlock(i); } catch (const std::exception&) { threw = true; } if (!threw) fail("read-after-close", "ReadSubBlock on a closed reader reported success"); }
    }
    bool open()
    {
        close(); if (!r || C.flip(1, 3)) r = CreateCZIReader();
        int k = (int)C.draw((uint32_t)docs.size()); auto& d = docs[k]; cur = k; ++opens;
        ICZIReader::OpenOptions o; o.SetDefault(); o.lax_subblock_coordinate_checks = !C.flip(1, 2); if (C.flip(1, 4)) o.subBlockDirectoryInfoPolicy = ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy::SubBlockHeaderPrecedence;
        char w[40]; snprintf(w, sizeof(w), "Open(document %d)", k);
        bool was = d.disk->f.armed; if (C.flip(1, 2)) d.disk->f.armed = false;
        bool opened = attempt(w, [&] { r->Open(in_stream(d.disk), &o); }); d.disk->f.armed = was;
        if (!opened) { cur = -1; count("open_failed"); return false; }
        // the directories are in memory now: they have to be exact
        auto m = verify_subs(r.get(), d.doc.subs, {}, "after Open", false); d.index.clear(); for (auto& e : m) d.index[e.first] = d.by_id.at(e.second);
        auto& ai = att_index[k]; ai.clear(); std::set<int> left; for (auto& a : d.doc.atts) left.insert(a.first);
        r->EnumerateAttachments([&](int i, const AttachmentInfo& a) { int hit = 0; for (int id : left) { auto& w = d.doc.atts.at(id); if (!memcmp(&a.contentGuid, &w.guid, sizeof(GUID)) && a.name == fixed(w.name, 80) && std::string(a.contentFileType) == fixed(w.type, 8)) { hit = id; break; } } if (!hit) fail("wrong-attachment", "after Open: attachment '%s' does not belong to the document", a.name.c_str()); left.erase(hit); ai[i] = hit; return true; });
        if (!left.empty()) fail("lost-attachment", "after Open: an attachment is missing");
        verify_queries(r.get(), d.doc.subs, m, "after Open"); auto h = r->GetFileHeaderInfo(); if (!d.doc.guid_is(&h.fileGuid, "after Open")) fail("wrong-guid", "after Open: the file GUID differs");
        cache = CreateSubBlockCache(); return true;
    }
    void step()
    {
        if (cur < 0) { open(); return; }
        auto& d = docs[cur];
        switch (C.pick({6, 2, 2, 6, 1, 2})) {
        case 0: {
            if (d.index.empty()) return; auto it = d.index.begin(); std::advance(it, C.draw((uint32_t)d.index.size())); auto& t = d.tiles[it->second]; std::shared_ptr<ISubBlock> sb;
            if (!attempt("ReadSubBlock", [&] { sb = r->ReadSubBlock(it->first); })) return;
            if (!sb) fail("read-null", "an enumerated sub-block cannot be read");
            std::string e = info_diff(sb->GetSubBlockInfo(), t.s); if (e.empty()) e = data_diff(sb.get(), t.s); if (!e.empty()) fail("wrong-read", "ReadSubBlock reported success, but: %s", e.c_str());
            Held h{sb, cur, it->second, nullptr}; 
            if (C.flip(1, 2)) {
                CreateBitmapOptions bo; int how = C.draw(3); bool strict = how == 2, refused = false; if (strict) bo.handle_uncompressed_data_size_mismatch = bo.handle_jpgxr_bitmap_mismatch = bo.handle_zstd_data_size_mismatch = false;
                if (attempt("CreateBitmap", [&] { try { h.bm = how ? sb->CreateBitmap(&bo) : sb->CreateBitmap(); } catch (const std::exception&) { if (!strict || !t.misfit) throw; refused = true; } }) && !refused) { if (strict && t.misfit == 1) fail("misfit-accepted", "CreateBitmap was asked to refuse data which does not fit the bitmap, but did not: %s", sstr(t.s).c_str()); check_tile_bitmap(t, h.bm.get(), "CreateBitmap"); }
            }
            if (C.flip(1, 3)) check_meta(sb, t);
            if (C.flip(1, 4)) held.push_back(h); break; }
        case 1: {
            std::shared_ptr<IMetadataSegment> ms; bool absent = false;
            if (!attempt("ReadMetadataSegment", [&] { try { ms = r->ReadMetadataSegment(); } catch (const LibCZISegmentNotPresent&) { absent = true; } })) return;
            if (absent) { if (d.doc.meta.present) fail("lost-metadata", "metadata reported as not present"); return; }
            if (!d.doc.meta.present || !ms) fail("wrong-metadata", "metadata reported although none was written"); verify_meta_seg(ms.get(), d.doc.meta, "ReadMetadataSegment");
            bool valid0 = false; auto md0 = ms->CreateMetaFromMetadataSegment(); valid0 = md0->IsXmlValid(); std::shared_ptr<ICziMetadata> md; if (attempt("CreateMetaFromMetadataSegment", [&] { md = ms->CreateMetaFromMetadataSegment(); }) && md->IsXmlValid() != valid0) fail("wrong-metadata", "the same metadata segment is once valid and once not");
            break; }
        case 2: {
            auto& ai = att_index[cur]; if (ai.empty()) return; auto it = ai.begin(); std::advance(it, C.draw((uint32_t)ai.size())); auto& w = d.doc.atts.at(it->second); std::shared_ptr<IAttachment> a;
            if (!attempt("ReadAttachment", [&] { a = r->ReadAttachment(it->first); })) return;
            check_att(a.get(), w); if (C.flip(1, 3)) heldAtt.push_back({a, cur, it->second}); break; }
        case 3: {
            if (d.tiles.empty()) return; Query q = gen_query(d); Image im; bool absent = false;
            if (!attempt("composite", [&] { try { im = run_query(nullptr, r.get(), d, q, cache); } catch (const std::out_of_range&) { if (!layer_absent(d, q)) throw; absent = true; } }) || absent) return;
            check_image(d, q, im, "composite from failing storage"); count("composites"); break; }
        case 4: verify_statistics(r->GetStatistics(), d.doc.subs, "reader"); verify_pyramid_statistics(r->GetPyramidStatistics(), d.doc.subs, "reader"); break;
        default: if (C.flip(1, 2)) open(); else close(); break;
        }
    }
    void check_meta(const std::shared_ptr<ISubBlock>& sb, const ImgTile& t)
    {
        std::shared_ptr<ISubBlockMetadata> sm; std::shared_ptr<ISubBlockAttachmentAccessor> aa; bool xml = !t.s.meta.empty();
        if (!attempt("CreateSubBlockMetadataFromSubBlock", [&] { sm = CreateSubBlockMetadataFromSubBlock(sb.get()); })) return;
        if (!sm || sm->IsXmlValid() != xml) fail("wrong-submeta", "the sub-block's metadata is %s although it is %s", xml ? "invalid" : "valid", xml ? "valid" : "absent");
        if (xml) {
            static const char* tn[] = {"A", "StageXPosition", "StageYPosition", "FocusPosition", "AcquisitionTime", "Other"}; const char* n = tn[C.draw(6)]; auto i = t.tags.find(n); std::wstring v, wn(n, n + strlen(n)); bool got = false; double dv = -1e300;
            if (attempt("TryGetTagAsString", [&] { got = sm->TryGetTagAsString(wn, &v); })) { if (got != (i != t.tags.end())) fail("wrong-submeta", "tag %s is reported as %s", n, got ? "present" : "absent"); if (got && Utils_narrow(v) != i->second) fail("wrong-submeta", "tag %s is '%s', expected '%s'", n, Utils_narrow(v).c_str(), i->second.c_str()); }
            auto number = [&](const char* name, double& o) { auto k = t.tags.find(name); if (k == t.tags.end() || k->second[0] == 'a') return false; o = strtod(k->second.c_str(), nullptr); return true; };
            double w = 0; bool has = number(n, w); if (attempt("TryGetTagAsDouble", [&] { got = sm->TryGetTagAsDouble(wn, &dv); })) if (got != has || (got && dv != w)) fail("wrong-submeta", "tag %s as a number: %d %g, expected %d %g", n, got, dv, has, w);
            double px, py; std::tuple<double, double> sp; has = number("StageXPosition", px); has = number("StageYPosition", py) && has; if (attempt("TryGetStagePositionFromTags", [&] { got = sm->TryGetStagePositionFromTags(&sp); })) if (got != has || (got && (std::get<0>(sp) != px || std::get<1>(sp) != py))) fail("wrong-submeta", "wrong stage position");
        }
        if (!attempt("CreateSubBlockAttachmentAccessor", [&] { aa = CreateSubBlockAttachmentAccessor(sb, C.flip(1, 2) ? sm : nullptr); })) return;
        if (!aa || aa->HasChunkContainer() != t.mask) fail("wrong-submeta", "HasChunkContainer is wrong"); if (!t.mask) return;
        std::vector<ISubBlockAttachmentAccessor::ChunkInfo> ci; size_t stop = C.flip(1, 3) ? 1 + C.draw(3) : 1000; if (attempt("EnumerateChunksInChunkContainer", [&] { ci.clear(); aa->EnumerateChunksInChunkContainer([&](int k, const ISubBlockAttachmentAccessor::ChunkInfo& c) { if (k != (int)ci.size()) fail("wrong-chunks", "chunk number %d, expected %zu", k, ci.size()); ci.push_back(c); return ci.size() < stop; }); })) { size_t n = std::min(stop, t.chunks.size()); if (ci.size() != n) fail("wrong-chunks", "%zu chunks enumerated, expected %zu", ci.size(), n); for (size_t k = 0; k < n; ++k) if (memcmp(&ci[k].guid, t.chunks[k].guid.data(), 16) || ci[k].offset != t.chunks[k].offset || ci[k].size != t.chunks[k].size) fail("wrong-chunks", "chunk %zu: offset %u size %u, expected %u %u", k, ci[k].offset, ci[k].size, t.chunks[k].offset, t.chunks[k].size); }
        std::shared_ptr<IBitonalBitmapData> bb; if (attempt("CreateBitonalBitmapFromMaskInfo", [&] { bb = aa->CreateBitonalBitmapFromMaskInfo(); })) { if (!bb || (int)bb->GetWidth() != t.mw || (int)bb->GetHeight() != t.mh) fail("wrong-chunks", "the size of the mask is wrong"); for (int y = 0; y < t.mh; ++y) for (int x = 0; x < t.mw; ++x) if (BitonalBitmapOperations::GetPixelValue(bb, x, y) != (t.mbits[(size_t)y * t.mw + x] != 0)) fail("wrong-chunks", "pixel %d,%d of the mask is wrong", x, y); }
        count("submeta");
    }
    static std::string Utils_narrow(const std::wstring& w) { return std::string(w.begin(), w.end()); }
    void check_att(IAttachment* a, const Att& w) { if (!a) fail("read-null", "an enumerated attachment cannot be read"); const void* p; size_t n; a->DangerousGetRawData(p, n); if (n != w.data.size() || (n && (!p || memcmp(p, w.data.data(), n)))) fail("wrong-read", "an attachment was read with success but its content differs"); }
    void check_held()
    {
        for (auto& h : held) { auto& t = docs[h.doc].tiles[h.tile]; std::string e = data_diff(h.sb.get(), t.s); if (!e.empty()) fail("held-object", "a sub-block object obtained earlier changed: %s", e.c_str()); if (h.bm) check_tile_bitmap(t, h.bm.get(), "bitmap obtained earlier"); }
        for (auto& h : heldAtt) check_att(h.a.get(), docs[h.doc].doc.atts.at(h.id));
    }
};
} // namespace sim

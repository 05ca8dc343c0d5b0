// Writing a whole new document through the library while keeping the reference model in step.
#pragma once
#include "fault/fault.h"

namespace sim {

struct WriterSession {
    Doc doc;                         // what has been acknowledged
    std::shared_ptr<Disk> disk = std::make_shared<Disk>();
    GenCfg g;
    bool allow_dup = false;
    bool meta_indet = false;         // a metadata write failed: content indeterminate until the next success
    bool bounds = false; CDimBounds db; int mMin = 1, mMax = -1;
    int added = 0, rejected = 0, failed_ops = 0, retried = 0;
    std::shared_ptr<ICziWriter> w;
    bool far_ok = false, far = false;   // a document of more than 2 or 4 GiB, most of it room reserved for metadata that never comes

    void cfg() { g = gen_cfg(); allow_dup = C.flip(1, 10); }
    std::shared_ptr<CCziWriterInfo> info()
    {
        doc.guid = GUID{0xabcdef01u + C.draw(100), 2, 3, {4, 5, 6, 7, 8, 9, 10, 11}}; if (C.flip(1, 10)) { doc.guid = GUID{}; doc.guid_open = true; count("library_chooses_guid"); }
        auto i = std::make_shared<CCziWriterInfo>(doc.guid);
        if ((g.fixed_dims || C.flip(1, 3)) && !g.negative && !g.wide && C.flip(1, 3)) {   // without fixed dimensions: sub-blocks that lack one are refused
            for (auto d : g.dims) db.Set(d, 0, C.flip(1, 4) ? std::max(1, g.coord_range - 1) : g.coord_range);
            bounds = true; if (g.use_m && !g.m_optional && C.flip(1, 2)) { mMin = 0; mMax = g.m_range - 1 - (C.flip(1, 4) && g.m_range > 1 ? 1 : 0); }
            i->SetDimBounds(&db); i->SetMIndexBounds(mMin, mMax);
        } else if (g.use_m && !g.wide && C.flip(1, 8)) { mMin = C.draw(2); mMax = g.m_range - 1; i->SetMIndexBounds(mMin, mMax); }
        if (far_ok && !stream_seam().out && C.flip(1, 10)) {
            far = true; count("documents_beyond_4gib"); uint64_t n = (C.flip(1, 4) ? 1ull << 31 : 1ull << 32) * (1 + (C.flip(1, 8) ? C.draw(300) : 0)); n = C.flip(1, 2) ? n - C.draw(6000) : n + C.draw(100000);
            i->SetReservedSizeForMetadataSegment(true, (size_t)n); disk->hole_at = 2048; disk->hole_len = (n - 8192) & ~31ull;
        }
        auto sz = [&]() -> size_t { switch (C.pick({2, 2, 2, 1})) { case 0: return 1; case 1: return 1 + C.draw(300); case 2: return 400 + C.draw(3000); default: return 0; } };
        if (!far && C.flip(1, 3)) i->SetReservedSizeForMetadataSegment(true, C.flip(1, 6) ? 4096 * (1 + C.draw(4)) + C.draw(3) * 32 : sz());
        if (C.flip(1, 3)) { size_t n = sz(); n = n > 40 ? n % (g.scale == 2 ? 500 : 40) : n; if (C.flip(1, 12)) n = 32 * (1 + C.draw(8)); if (n == 0 && (g.dims.size() > 3 || g.coord_range > 20 || g.m_range > 20)) n = 1;   /* 0: room for every coordinate within the bounds */ i->SetReservedSizeForSubBlockDirectory(true, n); }
        if (C.flip(1, 3)) { size_t n = sz(); i->SetReservedSizeForAttachmentsDirectory(true, C.flip(1, 12) ? 32 * (1 + C.draw(8)) : n > 12 ? n % 12 : n); }
        return i;
    }
    // 0: valid, 1: rejected as duplicate, 2: rejected by the bounds
    int expect(const Sub& s) const
    {
        if (bounds) {
            for (int i = (int)DimensionIndex::MinDim; i <= (int)DimensionIndex::MaxDim; ++i) { int a, n, v; bool h = db.TryGetInterval((DimensionIndex)i, &a, &n), c = s.coord.TryGetPosition((DimensionIndex)i, &v); if (h != c) return 2; if (h && (v < a || v >= a + n)) return 2; }
        }
        if (mMin <= mMax && (!s.mValid || s.m < mMin || s.m > mMax)) return 2;
        if (!allow_dup) for (auto& o : doc.subs) if (writer_dup(o.second, s)) return 1;
        return 0;
    }
    // runs one library call; returns true on success.  A call must fail iff (it is invalid or a fault fired in it).
    template <class F> bool call(const char* what, int invalid, F f)
    {
        uint64_t f0 = disk->faults, a0 = A.failed;
        try { AllocWindow aw; f(); }
        catch (const Violation&) { throw; } catch (const RunTooLong&) { throw; }
        catch (const std::exception& e) {
            bool fired = disk->faults != f0 || A.failed != a0; auto we = dynamic_cast<const LibCZIWriteException*>(&e);
            if (we) ev("%s -> write exception %d", what, (int)we->GetErrorType()); else ev("%s -> exception", what);
            if (invalid == 1 && we && we->GetErrorType() != LibCZIWriteException::ErrorType::AddCoordinateAlreadyExisting && we->GetErrorType() != LibCZIWriteException::ErrorType::AddAttachmentAlreadyExisting && !fired) fail("wrong-error", "%s: duplicate reported with error type %d", what, (int)we->GetErrorType());
            if (!invalid && !fired) fail("spurious-error", "%s failed although the call is valid and no fault was injected: %s", what, e.what());
            if (fired) ++failed_ops; else ++rejected;
            return false;
        }
        ev("%s ok", what);
        if (invalid) fail(invalid == 1 ? "duplicate-accepted" : "out-of-bounds-accepted", "%s: an item that has to be rejected was accepted", what);
        if (disk->faults != f0) fail("error-swallowed", "%s reported success although an I/O fault hit it", what);
        return true;
    }
    bool add_sub(const Sub& s, Deliver d)
    {
        int inv = expect(s);
        if (call("AddSubBlock", inv, [&] { deliver(s, d, [&](auto& i) { w->SyncAddSubBlock(i); }); })) { doc.subs[doc.next++] = s; ++added; return true; }
        return false;
    }
    bool add_att(const Att& a)
    {
        int inv = 0; for (auto& o : doc.atts) if (att_dup(o.second, a)) inv = 1;
        AddAttachmentInfo i = att_info(a);
        if (call("AddAttachment", inv, [&] { w->SyncAddAttachment(i); })) { doc.atts[doc.next++] = a; ++added; return true; }
        return false;
    }
    bool write_meta(const Meta& m)
    {
        if (far) return true;        // the reserved room is not to be filled
        WriteMetadataInfo i = meta_info(m);
        if (call("WriteMetadata", 0, [&] { w->SyncWriteMetadata(i); })) { doc.meta = m; meta_indet = false; return true; }
        meta_indet = true; return false;
    }
    // arguments that contradict each other are refused before anything is written
    void bad_arguments()
    {
        uint64_t w0 = disk->writes; char b[100]; count("contradictory_arguments");
        switch (C.pick({6, 1, 2})) {
        case 0: { AddSubBlockInfo i; Sub s = gen_sub(g, kMemPtr); snprintf(b, sizeof(b), "AddSubBlock (%s)", spoil(i, s)); call(b, 3, [&] { w->SyncAddSubBlock(i); }); break; }
        case 1: { Att a = gen_att(g); AddAttachmentInfo i = att_info(a); i.ptrData = nullptr; i.dataSize = 1 + C.draw(100); snprintf(b, sizeof(b), "AddAttachment (no data)"); call(b, 3, [&] { w->SyncAddAttachment(i); }); break; }
        default: { WriteMetadataInfo i; i.Clear(); static const char x[] = "<a/>"; i.szMetadata = x; i.szMetadataSize = 4; if (C.flip(1, 2)) i.szMetadata = nullptr; else { i.ptrAttachment = nullptr; i.attachmentSize = 5; } snprintf(b, sizeof(b), "WriteMetadata (no data)"); call(b, 3, [&] { w->SyncWriteMetadata(i); }); break; }
        }
        if (disk->writes != w0) fail("refused-but-written", "%s was refused but wrote to the output", b);
    }
    Deliver gen_deliver() { return (Deliver)C.pick({3, 3, 2, 2}); }
    bool create()
    {
        CZIWriterOptions o; o.allow_duplicate_subblocks = allow_dup;
        w = CreateCZIWriter(C.flip(1, 2) || allow_dup ? &o : nullptr);
        auto i = info();
        return call("Create", 0, [&] { w->Create(out_stream(disk), i); });
    }
    void crowd(bool faulty)          // hundreds of items
    {
        if (g.scale != 2) return;
        int n = 40 + C.draw(300), many_att = C.flip(1, 2) ? 6 : 40; count("crowded_documents");
        for (int i = 0; i < n; ++i) { if (C.draw(many_att) == 0) { Att a = gen_att(g, 200); add_att(a); } else step(faulty); }
    }
    void step(bool faulty)
    {
        if (C.flip(1, 25)) { bad_arguments(); return; }
        switch (C.pick({10, 3, 2})) {
        case 0: { Deliver d = gen_deliver(); Sub s = gen_sub(g, d); bool ok = add_sub(s, d); if (!ok && faulty && C.flip(1, 2)) { ++retried; add_sub(s, d); } break; }
        case 1: { Att a = gen_att(g); bool ok = add_att(a); if (!ok && faulty && C.flip(1, 2)) { ++retried; add_att(a); } break; }
        default: { Meta m = gen_meta(g); bool ok = write_meta(m); if (!ok && faulty && C.flip(1, 2)) { ++retried; write_meta(m); } break; }
        }
    }
};

struct ReadBack { std::shared_ptr<ICZIReader> r; std::map<int, int> sub_idx, att_idx; };
inline std::shared_ptr<ICZIReader> open_reader(std::shared_ptr<Disk> d, bool vary = true)
{
    auto r = CreateCZIReader(); ICZIReader::OpenOptions o; o.SetDefault();
    if (vary) {
        o.lax_subblock_coordinate_checks = !C.flip(1, 2);
        switch (C.pick({3, 1, 1})) { case 1: o.subBlockDirectoryInfoPolicy = ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy::SubBlockHeaderPrecedence; break; case 2: o.subBlockDirectoryInfoPolicy = (ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy)0x80; break; default: break; }
    }
    r->Open(in_stream(d), &o);
    return r;
}
// full check of a stored document against the model
inline void verify_document(std::shared_ptr<Disk> d, const Doc& doc, const char* who, const std::set<int>& isub = {}, const std::set<int>& iatt = {}, bool imeta = false, bool stats = true)
{
    std::shared_ptr<ICZIReader> r;
    try { r = open_reader(d); } catch (const std::exception& e) { fail("unreadable", "%s: the document cannot be opened: %s", who, e.what()); }
    auto h = r->GetFileHeaderInfo();
    if (!doc.guid_is(&h.fileGuid, who)) fail("wrong-guid", "%s: the file GUID differs", who);
    auto si = verify_subs(r.get(), doc.subs, isub, who);
    verify_atts(r.get(), doc.atts, iatt, who);
    if (!imeta) verify_meta(r.get(), doc.meta, who);
    if (isub.empty()) {
        if (stats) { verify_statistics(r->GetStatistics(), doc.subs, who); verify_pyramid_statistics(r->GetPyramidStatistics(), doc.subs, who); }
        verify_queries(r.get(), doc.subs, si, who);
    }
    r->Close();
}
inline void arm_write_faults(Disk& d)
{
    auto& f = d.f; f.armed = true;
    static const uint32_t rates[] = {15, 40, 120, 300};
    uint32_t r = rates[C.draw(4)];
    uint32_t kinds = 1 + C.draw(31);
    if (kinds & 1) f.w_eio = r; if (kinds & 2) f.w_torn = r; if (kinds & 4) f.w_short = r;
    if (kinds & 8) f.capacity = 544 + C.draw(12000);
    if (kinds & 16) { f.cb_fail = r; callback_faults() = &d; }
    f.foreign_exc = C.flip(1, 3) ? 500 : 0;
    f.max_faults = 1 + C.draw(6);
}
} // namespace sim

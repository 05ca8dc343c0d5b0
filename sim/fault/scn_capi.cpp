// C16: the C interface: writing documents, reading documents.
#include "fault/capi.h"
#include "rapidjson/document.h"
using namespace sim;
using namespace sim::capi;

namespace sim {
void warm_site();
namespace capi {
void begin()
{
    for (auto t : {ImageDecoderType::JPXR_JxrLib, ImageDecoderType::ZStd0, ImageDecoderType::ZStd1}) GetDefaultSiteObject(SiteObjectType::WithJxrDecoder)->GetDecoder(t, nullptr);
    warm_site(); exts().clear(); ext_bad().clear();
    g_alloc.on = true; g_alloc.num = C.flip(1, 2) ? 1 + C.draw(2) : 0; g_alloc.den = 4 + C.draw(8); track_reset();
}
} }

// ------------------------------------------------------------------------------------------------ writing
namespace {
std::string guid_text(const GUID& g)
{
    char b[80]; snprintf(b, sizeof(b), C.flip(1, 2) ? "%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x" : "%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X", g.Data1, g.Data2, g.Data3, g.Data4[0], g.Data4[1], g.Data4[2], g.Data4[3], g.Data4[4], g.Data4[5], g.Data4[6], g.Data4[7]);
    std::string s = b; if (C.flip(1, 4)) s = "{" + s + "}"; if (C.flip(1, 8)) s = " " + s + " "; return s;
}
struct CWriter {
    Client c; WriterSession s; ObjectHandle w = kInvalidObjectHandle, out = kInvalidObjectHandle; int ext = -1; int mMin = 1, mMax = -1, retried = 0; bool closed = false;
    bool swallowed_check(const char* what, LibCZIApiErrorCode rc, uint64_t f0) { if (rc == 0 && c.io_faults() != f0) fail("error-swallowed", "%s reported success although an I/O fault hit it", what); return rc == 0; }
    template <class F> bool op(const char* what, F f, bool invalid = false, bool json = false) { uint64_t f0 = c.io_faults(); return swallowed_check(what, c.call(what, f, invalid, false, json), f0); }
    bool open_out()
    {
        ObjectHandle h = Client::kPoison; LibCZIApiErrorCode rc; int kind = C.pick({4, 1, 1});
        if (kind == 0) {
            ext = c.new_ext(s.disk); ExternalOutputStreamStructInterop x; x.opaque_handle1 = ext + 1; x.opaque_handle2 = kOpaque2 + ext + 1; x.write_function = ext_write; x.close_function = ext_close;
            rc = c.call("CreateOutputStreamFromExternal", [&] { return libCZI_CreateOutputStreamFromExternal(&x, &h); }); exts()[ext]->created = rc == 0;
        } else {
            std::string p = F.path_of(s.disk); std::wstring wp = widen(p); bool pre = C.flip(1, 2); s.disk->data = pre ? payload(50 + C.draw(200), 9) : Bytes();
            auto f = [&](bool ow) { return kind == 1 ? libCZI_CreateOutputStreamForFileUTF8(p.c_str(), ow, &h) : libCZI_CreateOutputStreamForFileWide(wp.c_str(), ow, &h); };
            if (C.flip(1, 4)) { Bytes b = s.disk->data; c.call("CreateOutputStreamForFile(existing, no overwrite)", [&] { return f(false); }, true); c.check_out("CreateOutputStreamForFile", 1, h); h = Client::kPoison; if (s.disk->data != b) fail("overwritten", "an existing file was changed although overwriting was not requested"); }
            rc = c.call("CreateOutputStreamForFile", [&] { return f(true); });
        }
        c.check_out("creating an output stream", rc, h); if (rc != 0) return false;
        Obj o{tOut, h}; o.stream = ext; c.add(o); out = h; return true;
    }
    AddSubBlockInfoInterop interop(const Sub& u, Bytes& mem, int bad)
    {
        AddSubBlockInfoInterop i; memset(&i, 0, sizeof(i)); i.coordinate = coord_of(u.coord); i.m_index_valid = u.mValid ? 1 + C.draw(255) : 0; i.m_index = u.m; i.x = u.x; i.y = u.y; i.logical_width = u.lw; i.logical_height = u.lh; i.physical_width = u.pw; i.physical_height = u.ph; i.pixel_type = (int32_t)u.pt; i.compression_mode_raw = u.comp;
        if (u.comp == 0) {
            size_t line = (size_t)u.pw * bpp(u.pt), st = line + C.len(20); mem.assign(st * (u.ph - 1) + line + (C.flip(1, 2) ? st - line : 0), 0xEE);
            for (int l = 0; l < u.ph; ++l) memcpy(mem.data() + l * st, u.data.data() + l * line, line);
            if (bad == 1) mem.resize(C.draw((uint32_t)(st * (u.ph - 1) + line))); if (bad == 2) { st = C.draw((uint32_t)line); }
            mem.shrink_to_fit(); i.stride = (uint32_t)st; i.data = bad == 3 ? nullptr : mem.data(); i.size_data = (uint32_t)mem.size();
        } else { i.data = u.data.data(); i.size_data = (uint32_t)u.data.size(); i.stride = C.draw(100); }
        i.metadata = u.meta.data(); i.size_metadata = (uint32_t)u.meta.size(); i.attachment = u.att.data(); i.size_attachment = (uint32_t)u.att.size(); return i;
    }
    bool add_sub(const Sub& u, int bad = 0)
    {
        bool inv = bad || s.expect(u) != 0 || (mMin <= mMax && (!u.mValid || u.m < mMin || u.m > mMax)) || closed; Bytes mem; auto i = interop(u, mem, bad);
        if (!op(closed ? "WriterAddSubBlock after Close" : bad ? "WriterAddSubBlock with too little data" : "WriterAddSubBlock", [&] { return libCZI_WriterAddSubBlock(w, &i); }, inv)) return inv;
        s.doc.subs[s.doc.next++] = u; return true;
    }
    bool add_att(const Att& a)
    {
        bool inv = closed; for (auto& o : s.doc.atts) inv |= att_dup(o.second, a);
        AddAttachmentInfoInterop i; memset(&i, 0, sizeof(i)); memcpy(i.guid, &a.guid, 16); memcpy(i.contentFileType, a.type, 8); memcpy(i.name, a.name, 80); i.attachment_data = a.data.data(); i.size_attachment_data = (uint32_t)a.data.size();
        if (!op("WriterAddAttachment", [&] { return libCZI_WriterAddAttachment(w, &i); }, inv)) return inv;
        s.doc.atts[s.doc.next++] = a; return true;
    }
    bool write_meta(Meta m)
    {
        m.att.clear(); WriteMetadataInfoInterop i; i.metadata = m.xml.data(); i.size_metadata = (uint32_t)m.xml.size();
        if (!op("WriterWriteMetadata", [&] { return libCZI_WriterWriteMetadata(w, &i); }, closed)) { if (!closed) s.meta_indet = true; return closed; }
        s.doc.meta = m; s.meta_indet = false; return true;
    }
    Sub gen() { Deliver d = C.flip(1, 2) ? kMemPtr : kStrided; Sub u = gen_sub(s.g, d); if (d == kMemPtr && u.comp == 0) { u.data = payload((size_t)u.pw * u.ph * bpp(u.pt), s.g.tag * 4); } u.pyr = SubBlockPyramidType::None; return u; }
    std::string params()
    {
        s.doc.guid = GUID{0xabcdef01u + C.draw(100), 2, 0x8003, {4, 5, 0xf6, 7, 8, 9, 10, 11}}; std::string j = "{ \"file_guid\" : \"" + guid_text(s.doc.guid) + "\"";
        auto sz = [&]() -> int { switch (C.pick({2, 2, 2, 1})) { case 0: return 1; case 1: return 1 + C.draw(300); case 2: return 400 + C.draw(3000); default: return 0; } };
        if (C.flip(1, 3)) j += ", \"reserved_size_metadata_segment\" : " + std::to_string(sz());
        if (C.flip(1, 3)) { int n = sz(); n = n > 40 ? n % 40 : n; if (n == 0 && s.g.dims.size() > 3) n = 1; j += ", \"reserved_size_subblock_directory\":" + std::to_string(n); }
        if (C.flip(1, 3)) { int n = sz(); j += ",\"reserved_size_attachments_directory\":" + std::to_string(n > 12 ? n % 12 : n); }
        if (C.flip(1, 4)) { mMin = C.draw(2); mMax = s.g.m_range - 1 - (int)C.draw(2); j += ",\"minimum_m_index\":" + std::to_string(mMin) + ",\"maximum_m_index\":" + std::to_string(mMax); }
        if (C.flip(1, 6)) j += ", \"something_else\": [1, {\"a\":null}]";
        return j + " }";
    }
    void arm()
    {
        if (ext >= 0) arm_write_faults(*s.disk); else { static const uint32_t r[] = {15, 40, 120}; F.armed = true; if (C.flip(1, 2)) F.w_eio = r[C.draw(3)]; if (C.flip(1, 2)) F.shrt = 200; if (C.flip(1, 2)) F.eintr = 100; if (C.flip(1, 3)) F.capacity = 544 + C.draw(9000); F.max_faults = F.hard + 1 + C.draw(5); }
    }
    void disarm() { s.disk->f.armed = false; F.armed = false; g_alloc.num = 0; }
};
}
SCENARIO(C16, writing, 4)
{
    begin(); auto k = std::make_unique<CWriter>(); auto& s = k->s; auto& c = k->c; s.cfg(); s.bounds = false; c.disks.push_back(s.disk); auto disk = s.disk; bool faulty = C.flip(1, 2), complete = false;
    do {
        if (!k->open_out()) break;
        std::string opt = s.allow_dup ? "{\"allow_duplicate_subblocks\" : true}" : "{ \"allow_duplicate_subblocks\":false }"; const char* po = opt.c_str(); if (!s.allow_dup) switch (C.draw(4)) { case 1: po = nullptr; break; case 2: po = ""; break; case 3: po = "{\"other\": 5}"; break; default: break; }
        ObjectHandle h = Client::kPoison; LibCZIApiErrorCode rc = c.call("CreateWriter", [&] { return libCZI_CreateWriter(&h, po); }, false, false, true); c.check_out("CreateWriter", rc, h); if (rc) break;
        Obj o{tWriter, h}; c.add(o); k->w = h;
        if (C.flip(1, 6)) { Sub u = k->gen(); Bytes mem; auto i = k->interop(u, mem, 0); c.call("WriterAddSubBlock before Create", [&] { return libCZI_WriterAddSubBlock(h, &i); }, true); }
        if (C.flip(1, 8)) c.call("WriterClose before Create", [&] { return libCZI_WriterClose(h); }, true);
        if (faulty && C.flip(1, 3)) k->arm();
        std::string p = k->params(); if (!k->op("WriterCreate", [&] { return libCZI_WriterCreate(h, k->out, p.c_str()); }, false, true)) { count("create_failed"); break; }
        for (auto& x : c.objs) if (x.t == tWriter) x.stream = k->ext;
        if (C.flip(1, 8)) c.call("WriterCreate again", [&] { return libCZI_WriterCreate(h, k->out, p.c_str()); }, true, false, true);
        auto drop_out = [&] { for (size_t i = 0; i < c.objs.size(); ++i) if (c.objs[i].t == tOut) { c.drop(i); break; } }; if (C.flip(1, 2)) drop_out();
        if (faulty) k->arm();
        int n = 1 + C.len(14);
        for (int i = 0; i < n; ++i) {
            switch (C.pick({10, 3, 2, 1})) {
            case 0: { Sub u = k->gen(); int bad = u.comp == 0 && C.flip(1, 10) ? 1 + C.draw(3) : 0; if (!k->add_sub(u, bad) && C.flip(1, 2)) { ++k->retried; k->add_sub(u); } break; }
            case 1: { Att a = gen_att(s.g); if (!k->add_att(a) && C.flip(1, 2)) { ++k->retried; k->add_att(a); } break; }
            case 2: { Meta m = gen_meta(s.g); if (!k->write_meta(m) && C.flip(1, 2)) { ++k->retried; k->write_meta(m); } break; }
            default: if (C.flip(1, 2)) c.misuse(); else switch (C.draw(3)) { case 0: c.call("WriterAddSubBlock without information", [&] { return libCZI_WriterAddSubBlock(h, nullptr); }, true); break; case 1: c.call("WriterAddAttachment without information", [&] { return libCZI_WriterAddAttachment(h, nullptr); }, true); break; default: c.call("WriterWriteMetadata without information", [&] { return libCZI_WriterWriteMetadata(h, nullptr); }, true); break; } break;
            }
        }
        if (C.flip(1, 12)) { count("abandoned"); break; }
        for (auto& x : c.objs) if (x.t == tWriter) x.stream = -1; // Close lets go of the stream
        for (int tries = 0;; ++tries) { if (tries >= 3 || C.flip(1, 4)) k->disarm(); bool ok = k->op("WriterClose", [&] { return libCZI_WriterClose(h); }); if (ok) break; if (tries > 8) fail("close-never", "WriterClose keeps failing after the faults have stopped"); }
        k->closed = complete = true;
        if (C.flip(1, 4)) k->add_sub(k->gen()); if (C.flip(1, 6)) k->add_att(gen_att(s.g)); if (C.flip(1, 6)) k->write_meta(gen_meta(s.g));
    } while (false);
    k->disarm(); sample("C writer: %zu sub-blocks, %zu attachments, %d calls succeeded, %d rejected, %d failed by a fault, %d retries", s.doc.subs.size(), s.doc.atts.size(), c.ok, c.rejected, c.failed_calls, k->retried);
    if (c.ok > 3) nontrivial();
    c.finish("C writer"); if (complete) verify_document(disk, s.doc, "document written through the C interface", {}, {}, s.meta_indet);
}

// ------------------------------------------------------------------------------------------------ reading
namespace {
struct CReader {
    Client c; std::vector<ImgDoc> docs; std::vector<std::map<int, int>> atts; std::map<uint64_t, Image> images; int composites = 0;

    Obj* opened() { std::vector<Obj*> v; for (auto& o : c.objs) if (o.t == tReader && o.doc >= 0) v.push_back(&o); return v.empty() ? nullptr : v[C.draw((uint32_t)v.size())]; }
    void prepare()
    {
        for (auto& d : docs) {
            auto r = CreateCZIReader(); r->Open(std::make_shared<SimStream>(d.disk)); learn(d, r.get(), "C++ reader"); std::map<int, int> m; std::set<int> left; for (auto& a : d.doc.atts) left.insert(a.first);
            r->EnumerateAttachments([&](int i, const AttachmentInfo& a) { for (int id : left) { auto& w = d.doc.atts.at(id); if (!memcmp(&a.contentGuid, &w.guid, sizeof(GUID)) && a.name == fixed(w.name, 80) && std::string(a.contentFileType) == fixed(w.type, 8)) { m[i] = id; left.erase(id); break; } } return true; });
            atts.push_back(m); c.disks.push_back(d.disk);
        }
    }
    void make_reader() { ObjectHandle h = Client::kPoison; auto rc = c.call("CreateReader", [&] { return libCZI_CreateReader(&h); }); c.check_out("CreateReader", rc, h); if (!rc) c.add(Obj{tReader, h}); }
    void open()
    {
        Obj* in = c.pick(tIn); Obj* r = c.pick(tReader); if (!in) { int k = C.draw((uint32_t)docs.size()); c.open_in(docs[k].disk, k); return; } if (!r || c.n(tReader) < 2 && C.flip(1, 4)) { make_reader(); return; }
        ReaderOpenInfoInterop i; i.streamObject = in->h; bool again = r->doc >= 0; uint64_t id = r->id; int doc = in->doc, st = in->stream;
        auto rc = c.call(again ? "ReaderOpen of an open reader" : "ReaderOpen", [&] { return libCZI_ReaderOpen(r->h, &i); }, again);
        for (auto& o : c.objs) if (o.id == id && rc == 0) { o.doc = doc; o.stream = st; }
    }
    static bool same(const Image& a, const Image& b) { return a.w == b.w && a.h == b.h && a.pt == b.pt && a.px == b.px; }
    // pixels of a bitmap through the C interface; false if a fault prevented it
    bool fetch(Obj b, Image& im)
    {
        BitmapInfoInterop bi; memset(&bi, 0x5a, sizeof(bi)); if (c.call("BitmapGetInfo", [&] { return libCZI_BitmapGetInfo(b.h, &bi); })) return false;
        im.w = bi.width; im.h = bi.height; im.pt = (PixelType)bi.pixelType; if (im.w < 0 || im.w > 4096 || im.h < 0 || im.h > 4096 || bi.pixelType < 0 || bi.pixelType > 14) fail("wrong-bitmap", "BitmapGetInfo reports a bitmap of %ux%u, pixel type %d", bi.width, bi.height, bi.pixelType);
        im.bp = bpp(im.pt); size_t line = (size_t)im.w * im.bp; im.px.resize(line * im.h);
        if (C.flip(1, 2)) {
            BitmapLockInfoInterop li; memset(&li, 0, sizeof(li)); if (c.call("BitmapLock", [&] { return libCZI_BitmapLock(b.h, &li); })) return false;
            if (!li.ptrDataRoi || li.stride < line || li.size < li.stride * (uint64_t)(im.h ? im.h - 1 : 0) + line) fail("wrong-bitmap", "BitmapLock reports memory that is too small");
            for (int y = 0; y < im.h; ++y) memcpy(im.px.data() + y * line, (const uint8_t*)li.ptrDataRoi + (size_t)y * li.stride, line);
            if (c.call("BitmapUnlock", [&] { return libCZI_BitmapUnlock(b.h); })) fail("unlock-failed", "a locked bitmap cannot be unlocked"); return true;
        }
        size_t st = line + C.len(9); Bytes m(st * im.h, 0xC7); if (c.call("BitmapCopyTo", [&] { return libCZI_BitmapCopyTo(b.h, im.w, im.h, bi.pixelType, (uint32_t)st, m.data()); })) return false;
        for (int y = 0; y < im.h; ++y) { memcpy(im.px.data() + y * line, m.data() + y * st, line); for (size_t k = line; k < st; ++k) if (m[y * st + k] != 0xC7) fail("dest-overrun", "BitmapCopyTo wrote into the padding of the destination"); }
        return true;
    }
    void add_bitmap(ObjectHandle h, const Image* want, const ImgDoc* d, const Query* q, const char* who)
    {
        Obj* o = c.add(Obj{tBmp, h}); uint64_t id = o->id; Image im; if (!fetch(*o, im)) { for (size_t i = 0; i < c.objs.size(); ++i) if (c.objs[i].id == id) c.drop(i); return; }
        if (want && !same(im, *want)) fail("wrong-bitmap", "%s: the bitmap differs from the expected one (%dx%d type %d, expected %dx%d type %d)", who, im.w, im.h, (int)im.pt, want->w, want->h, (int)want->pt);
        if (q) { check_image(*d, *q, im, who); ++composites; count("composites"); } images[id] = im;
    }
    void raw_data(const char* what, const Bytes& want, std::function<LibCZIApiErrorCode(uint64_t*, void*)> f)
    {
        uint64_t n = C.draw(1000); uint64_t* pn = &n; if (C.flip(1, 3)) { if (c.call(what, [&] { return f(pn, nullptr); })) return; if (n != want.size()) fail("wrong-size", "%s: size %llu instead of %zu", what, (unsigned long long)n, want.size()); }
        size_t cap = C.flip(1, 2) ? want.size() : C.flip(1, 2) ? C.draw((uint32_t)want.size() + 1) : want.size() + C.draw(20); Bytes b(cap + 1, 0xC7); n = cap; b.shrink_to_fit(); std::unique_ptr<uint8_t[]> p(new uint8_t[cap ? cap : 1]); memset(p.get(), 0xC7, cap ? cap : 1);
        if (c.call(what, [&] { return f(&n, p.get()); })) return;
        if (n != want.size()) fail("wrong-size", "%s: size %llu instead of %zu", what, (unsigned long long)n, want.size()); size_t k = std::min(cap, want.size());
        if (k && memcmp(p.get(), want.data(), k)) fail("wrong-read", "%s reported success but the data differ", what); for (size_t i = k; i < cap; ++i) if (p[i] != 0xC7) fail("dest-overrun", "%s wrote behind the data", what);
    }
    void reader_step()
    {
        Obj* r0 = C.flip(1, 10) ? c.pick(tReader) : opened(); if (!r0) { open(); return; } Obj r = *r0; bool dead = r.doc < 0; static ImgDoc none; ImgDoc& d = dead ? none : docs[r.doc]; int n = (int)d.doc.subs.size(), na = (int)d.doc.atts.size(); ObjectHandle h = Client::kPoison;
        auto bad_index = [&](int m) { static const int far[] = {-1, INT32_MIN, INT32_MAX, 1000}; int v = C.draw(5); return v == 4 ? m : far[v]; };
        switch (C.pick({6, 3, 2, 3, 2, 3, 3, 3, 4, 1})) {
        case 0: {
            bool bad = dead || n == 0 || C.flip(1, 8); int i = bad ? bad_index(n) : C.draw(n); auto rc = c.call(bad ? "ReaderReadSubBlock with a wrong index" : "ReaderReadSubBlock", [&] { return libCZI_ReaderReadSubBlock(r.h, i, &h); }, dead, bad); c.check_out("ReaderReadSubBlock", rc, h, bad); if (rc) return;
            if (bad) { if (h != kInvalidObjectHandle) fail("wrong-read", "ReaderReadSubBlock returns a sub-block for index %d of %d", i, n); return; }
            Obj o{tSub, h}; o.doc = r.doc; o.ref = d.index.at(i); c.add(o); break; }
        case 1: {
            bool bad = dead || n == 0 || C.flip(1, 6); int i = bad ? bad_index(n) : C.draw(n); SubBlockInfoInterop si; memset(&si, 0x5a, sizeof(si)); auto rc = c.call(bad ? "TryGetSubBlockInfoForIndex with a wrong index" : "TryGetSubBlockInfoForIndex", [&] { return libCZI_TryGetSubBlockInfoForIndex(r.h, i, &si); }, bad);
            if (rc) { return; } std::string e = sub_diff(si, d.tiles[d.index.at(i)].s); if (!e.empty()) fail("wrong-info", "TryGetSubBlockInfoForIndex: %s", e.c_str()); break; }
        case 2: {
            FileHeaderInfoInterop fi; memset(&fi, 0x5a, sizeof(fi)); if (c.call("ReaderGetFileHeaderInfo", [&] { return libCZI_ReaderGetFileHeaderInfo(r.h, &fi); }, dead)) return; if (!d.doc.guid_is(fi.guid, "ReaderGetFileHeaderInfo") || fi.majorVersion != 1 || fi.minorVersion != 0) fail("wrong-header", "ReaderGetFileHeaderInfo reports a wrong GUID or version %d.%d", fi.majorVersion, fi.minorVersion); break; }
        case 3: statistics(r, d, dead); break;
        case 4: {
            int32_t k = 0x5a5a5a; if (c.call("ReaderGetAttachmentCount", [&] { return libCZI_ReaderGetAttachmentCount(r.h, &k); }, dead)) return; if (k != na) fail("wrong-count", "ReaderGetAttachmentCount reports %d instead of %d", k, na); break; }
        case 5: {
            bool bad = dead || na == 0 || C.flip(1, 6); int i = bad ? bad_index(na) : C.draw(na); AttachmentInfoInterop ai; memset(&ai, 0x5a, sizeof(ai)); if (c.call(bad ? "ReaderGetAttachmentInfoFromDirectory with a wrong index" : "ReaderGetAttachmentInfoFromDirectory", [&] { return libCZI_ReaderGetAttachmentInfoFromDirectory(r.h, i, &ai); }, bad)) return;
            if (!att_same(ai, d.doc.atts.at(atts[r.doc].at(i)))) fail("wrong-info", "ReaderGetAttachmentInfoFromDirectory reports wrong information for attachment %d", i); break; }
        case 6: {
            bool bad = dead || na == 0 || C.flip(1, 6); int i = bad ? bad_index(na) : C.draw(na); auto rc = c.call(bad ? "ReaderReadAttachment with a wrong index" : "ReaderReadAttachment", [&] { return libCZI_ReaderReadAttachment(r.h, i, &h); }, dead, bad); c.check_out("ReaderReadAttachment", rc, h, bad); if (rc) return;
            if (bad) { if (h != kInvalidObjectHandle) fail("wrong-read", "ReaderReadAttachment returns an attachment for index %d of %d", i, na); return; }
            Obj o{tAtt, h}; o.doc = r.doc; o.ref = atts[r.doc].at(i); c.add(o); break; }
        case 7: {
            bool absent = !d.doc.meta.present; auto rc = c.call(absent ? "ReaderGetMetadataSegment (no metadata)" : "ReaderGetMetadataSegment", [&] { return libCZI_ReaderGetMetadataSegment(r.h, &h); }, absent || dead); c.check_out("ReaderGetMetadataSegment", rc, h); if (rc) return; Obj o{tSeg, h}; o.doc = r.doc; c.add(o); break; }
        case 8: {
            auto rc = c.call("CreateSingleChannelTileAccessor", [&] { return libCZI_CreateSingleChannelTileAccessor(r.h, &h); }, dead); c.check_out("CreateSingleChannelTileAccessor", rc, h); if (rc) return; Obj o{tAcc, h}; o.doc = r.doc; o.stream = r.stream; c.add(o); break; }
        default: {   // every sub-block exactly once
            if (dead) return; std::set<int> seen; for (int i = 0; i < n; ++i) { SubBlockInfoInterop si; if (c.call("TryGetSubBlockInfoForIndex", [&] { return libCZI_TryGetSubBlockInfoForIndex(r.h, i, &si); })) return; int hit = -1; for (auto& s : d.doc.subs) if (!seen.count(s.first) && sub_diff(si, s.second).empty()) { hit = s.first; break; } if (hit < 0) fail("wrong-info", "index %d does not describe a (not yet reported) sub-block of the document", i); seen.insert(hit); } break; }
        }
    }
    void statistics(const Obj& r, ImgDoc& d, bool dead)
    {
        std::map<int, SubBlockStatistics> ignore; int kind = C.draw(3);
        auto scenes = [&](SubBlockStatistics& st) { std::map<int, std::pair<IntRect, bool>> a, b; for (auto& w : d.doc.subs) { int v; if (w.second.coord.TryGetPosition(DimensionIndex::S, &v)) { rect_add(a[v].first, a[v].second, w.second); auto& e = b[v]; if (w.second.layer0()) rect_add(e.first, e.second, w.second); } } for (auto& e : a) { BoundingBoxes bb; bb.boundingBox = e.second.first; bb.boundingBoxLayer0 = b[e.first].second ? b[e.first].first : IntRect{0, 0, -1, -1}; st.sceneBoundingBoxes[e.first] = bb; } return (int)a.size(); };
        if (kind == 0) { SubBlockStatisticsInterop s; memset(&s, 0x5a, sizeof(s)); if (c.call("ReaderGetStatisticsSimple", [&] { return libCZI_ReaderGetStatisticsSimple(r.h, &s); }, dead)) return; auto st = stat_from(s); scenes(st); verify_statistics(st, d.doc.subs, "ReaderGetStatisticsSimple"); }
        else if (kind == 1) {
            int cap = C.draw(5); size_t sz = sizeof(SubBlockStatisticsInteropEx) + cap * sizeof(BoundingBoxesInterop); std::unique_ptr<uint8_t[]> m(new uint8_t[sz]); memset(m.get(), 0x5a, sz); auto* s = (SubBlockStatisticsInteropEx*)m.get(); int32_t num = cap; bool null = cap == 0 && C.flip(1, 3);
            if (c.call("ReaderGetStatisticsEx", [&] { return libCZI_ReaderGetStatisticsEx(r.h, s, null ? nullptr : &num); }, dead)) return;
            auto st = stat_from(*s); SubBlockStatistics mod; int total = scenes(mod); int filled = s->number_of_per_scenes_bounding_boxes; if (filled != std::min(cap, total)) fail("stat-scenes", "ReaderGetStatisticsEx filled %d bounding boxes (capacity %d, %d scenes)", filled, cap, total); if (!null && num != total) fail("stat-scenes", "ReaderGetStatisticsEx reports %d scenes instead of %d", num, total);
            for (int i = 0; i < filled; ++i) { BoundingBoxes bb; bb.boundingBox = rect_from(s->per_scenes_bounding_boxes[i].bounding_box); bb.boundingBoxLayer0 = rect_from(s->per_scenes_bounding_boxes[i].bounding_box_layer0_only); st.sceneBoundingBoxes[s->per_scenes_bounding_boxes[i].sceneIndex] = bb; }
            if ((int)st.sceneBoundingBoxes.size() != filled) fail("stat-scenes", "ReaderGetStatisticsEx reports a scene twice"); if (filled < total) for (auto& e : mod.sceneBoundingBoxes) st.sceneBoundingBoxes.insert(e);
            verify_statistics(st, d.doc.subs, "ReaderGetStatisticsEx");
        } else {
            char* j = nullptr; if (c.call("ReaderGetPyramidStatistics", [&] { return libCZI_ReaderGetPyramidStatistics(r.h, &j); }, dead, false, true)) return; if (!j) fail("no-handle", "ReaderGetPyramidStatistics reported success but no text");
            PyramidStatistics ps; { rapidjson::Document x; x.Parse(j); if (x.HasParseError() || !x.IsObject() || !x.HasMember("scenePyramidStatistics")) fail("bad-json", "ReaderGetPyramidStatistics returns text which is not as documented: %s", j); for (auto& m : x["scenePyramidStatistics"].GetObject()) { auto& v = ps.scenePyramidStatistics[atoi(m.name.GetString())]; for (auto& e : m.value.GetArray()) { PyramidStatistics::PyramidLayerStatistics l; l.layerInfo.minificationFactor = (uint8_t)e["layerInfo"]["minificationFactor"].GetInt(); l.layerInfo.pyramidLayerNo = (uint8_t)e["layerInfo"]["pyramidLayerNo"].GetInt(); l.count = e["count"].GetInt(); v.push_back(l); } } }
            libCZI_Free(j); verify_pyramid_statistics(ps, d.doc.subs, "ReaderGetPyramidStatistics");
        }
    }
    void sub_step()
    {
        Obj* p = c.pick(tSub); if (!p) { reader_step(); return; } Obj o = *p; auto& t = docs[o.doc].tiles[o.ref];
        switch (C.pick({2, 3, 4, 1})) {
        case 0: { SubBlockInfoInterop si; memset(&si, 0x5a, sizeof(si)); if (c.call("SubBlockGetInfo", [&] { return libCZI_SubBlockGetInfo(o.h, &si); })) return; std::string e = sub_diff(si, t.s); if (!e.empty()) fail("wrong-info", "SubBlockGetInfo: %s", e.c_str()); break; }
        case 1: { int ty = C.draw(2); raw_data("SubBlockGetRawData", ty ? t.s.meta : t.s.data, [&](uint64_t* n, void* q) { return libCZI_SubBlockGetRawData(o.h, ty, n, q); }); break; }
        case 2: { ObjectHandle h = Client::kPoison; auto rc = c.call("SubBlockCreateBitmap", [&] { return libCZI_SubBlockCreateBitmap(o.h, &h); }); c.check_out("SubBlockCreateBitmap", rc, h); if (rc) return; Image w; w.w = t.s.pw; w.h = t.s.ph; w.pt = t.s.pt; w.px = t.pix; add_bitmap(h, &w, nullptr, nullptr, "SubBlockCreateBitmap"); break; }
        default: { uint64_t n = 0; static const int ty[] = {2, -1, 3, 1000}; int y = ty[C.draw(4)]; c.call("SubBlockGetRawData with an unknown type", [&] { return libCZI_SubBlockGetRawData(o.h, y, &n, nullptr); }, true); c.call("SubBlockGetRawData without a size", [&] { return libCZI_SubBlockGetRawData(o.h, 0, nullptr, nullptr); }, true); break; }
        }
    }
    void att_step()
    {
        Obj* p = c.pick(tAtt); if (!p) { reader_step(); return; } Obj o = *p; auto& a = docs[o.doc].doc.atts.at(o.ref);
        if (C.flip(1, 3)) { AttachmentInfoInterop ai; memset(&ai, 0x5a, sizeof(ai)); if (c.call("AttachmentGetInfo", [&] { return libCZI_AttachmentGetInfo(o.h, &ai); })) return; if (!att_same(ai, a)) fail("wrong-info", "AttachmentGetInfo reports wrong information"); }
        else raw_data("AttachmentGetRawData", a.data, [&](uint64_t* n, void* q) { return libCZI_AttachmentGetRawData(o.h, n, q); });
    }
    void seg_step()
    {
        Obj* p = c.pick(tSeg); if (!p) { reader_step(); return; } Obj o = *p; auto& m = docs[o.doc].doc.meta; MetadataAsXmlInterop x; x.data = nullptr; x.size = 77;
        if (c.call("MetadataSegmentGetMetadataAsXml", [&] { return libCZI_MetadataSegmentGetMetadataAsXml(o.h, &x); })) return;
        if (!x.data || x.size != m.xml.size() || memcmp(x.data, m.xml.data(), m.xml.size())) fail("wrong-metadata", "MetadataSegmentGetMetadataAsXml: the XML differs (%llu bytes, expected %zu)", (unsigned long long)x.size, m.xml.size()); libCZI_Free(x.data);
    }
    void acc_step()
    {
        Obj* p = c.pick(tAcc); if (!p) { reader_step(); return; } Obj o = *p; auto& d = docs[o.doc]; if (d.tiles.empty()) return;
        Query q = gen_query(d); for (int i = 0; q.kind != 1 && i < 20; ++i) q = gen_query(d); if (q.kind != 1) return; q.scenes.reset(); q.cache = q.dest = q.explicitPt = false; q.want = PixelType::Invalid; q.defaults = false;
        IntRectInterop roi{q.roi.x, q.roi.y, q.roi.w, q.roi.h};
        if (C.flip(1, 5)) { IntSizeInterop z{-5, -5}; if (c.call("SingleChannelTileAccessorCalcSize", [&] { return libCZI_SingleChannelTileAccessorCalcSize(o.h, &roi, q.zoom, &z); })) return; if (z.w != (int)(q.roi.w * q.zoom) || z.h != (int)(q.roi.h * q.zoom)) fail("wrong-size", "SingleChannelTileAccessorCalcSize reports %dx%d for %s", z.w, z.h, q.str().c_str()); return; }
        auto co = coord_of(plane_of(d, q)); AccessorOptionsInterop ao; ao.back_ground_color_r = q.bgcolor().r; ao.back_ground_color_g = q.bgcolor().g; ao.back_ground_color_b = q.bgcolor().b; ao.sort_by_m = q.sortByM; ao.use_visibility_check_optimization = q.vis; static const char* off[] = {nullptr, "", "{\"mask_aware\": false}", "{", "{\"other\":true}"}; ao.additional_parameters = q.mask ? (C.flip(1, 2) ? "{\"mask_aware\":true}" : "{ \"x\" : 1, \"mask_aware\" : true }") : off[C.draw(5)];
        ObjectHandle h = Client::kPoison; auto rc = c.call("SingleChannelTileAccessorGet", [&] { return libCZI_SingleChannelTileAccessorGet(o.h, &co, &roi, q.zoom, &ao, &h); }, false, false, ao.additional_parameters != nullptr); c.check_out("SingleChannelTileAccessorGet", rc, h); if (rc) return;
        add_bitmap(h, nullptr, &d, &q, "SingleChannelTileAccessorGet");
    }
    void bmp_step()
    {
        Obj* p = c.pick(tBmp); if (!p) { C.flip(1, 2) ? sub_step() : acc_step(); return; } uint64_t id = p->id; Obj o = *p; auto& im = images.at(id);
        auto live = [&]() -> Obj* { for (auto& x : c.objs) if (x.id == id) return &x; return nullptr; };
        switch (C.pick({3, 2, 2, 2, 2, 3})) {
        case 0: { Image g; if (fetch(o, g) && !same(g, im)) fail("held-object", "a bitmap obtained earlier has changed"); break; }
        case 1: { BitmapLockInfoInterop li; if (!c.call("BitmapLock", [&] { return libCZI_BitmapLock(o.h, &li); })) { ++live()->locks; size_t line = (size_t)im.w * im.bp; for (int y = 0; y < im.h; ++y) if (memcmp(im.px.data() + y * line, (const uint8_t*)li.ptrDataRoi + (size_t)y * li.stride, line)) fail("held-object", "a bitmap obtained earlier has changed"); } break; }
        case 2: { if (o.locks) { if (!c.call("BitmapUnlock", [&] { return libCZI_BitmapUnlock(o.h); })) --live()->locks; } else { uint64_t a0 = A.failed; auto rc = c.call("BitmapUnlock of a bitmap that is not locked", [&] { return libCZI_BitmapUnlock(o.h); }, true); if (A.failed == a0 && rc != LibCZIApi_ErrorCode_LockUnlockSemanticViolated) fail("wrong-code", "a superfluous BitmapUnlock is reported with code %d", (int)rc); } break; }
        case 3: { if (!o.locks) return; uint64_t a0 = A.failed; auto rc = c.call("ReleaseBitmap of a locked bitmap", [&] { return libCZI_ReleaseBitmap(o.h); }, true); if (A.failed == a0 && rc != LibCZIApi_ErrorCode_LockUnlockSemanticViolated) fail("wrong-code", "releasing a locked bitmap is reported with code %d", (int)rc); break; }
        case 4: {
            size_t line = (size_t)im.w * im.bp; Bytes m(64, 0xC7); uint32_t w = im.w, h = im.h, st = (uint32_t)line; int32_t pt = (int32_t)im.pt; void* q = m.data(); switch (C.draw(5)) { case 0: w += 1; break; case 1: h -= 1; break; case 2: pt = im.pt == PixelType::Gray8 ? (int)PixelType::Gray16 : (int)PixelType::Gray8; break; case 3: st -= 1; break; default: q = nullptr; break; }
            c.call("BitmapCopyTo with arguments that do not fit the bitmap", [&] { return libCZI_BitmapCopyTo(o.h, w, h, pt, st, q); }, true); for (auto b : m) if (b != 0xC7) fail("dest-overrun", "a rejected BitmapCopyTo wrote to the destination"); break; }
        default: compose(); break;
        }
    }
    void compose()
    {
        std::vector<Obj> v; for (auto& o : c.objs) if (o.t == tBmp) v.push_back(o); int n = 1 + C.draw(3); std::vector<ObjectHandle> hs; std::vector<std::shared_ptr<OwnBitmap>> own; std::vector<IBitmapData*> src; std::vector<CompositionChannelInfoInterop> ci(n); std::vector<Compositors::ChannelInfo> cc(n); std::vector<std::unique_ptr<uint8_t[]>> luts; bool null = C.flip(1, 15); int first = C.draw((uint32_t)v.size());
        for (int i = 0; i < n; ++i) {
            std::vector<Obj> same_size; for (auto& o : v) if (images.at(o.id).w == images.at(v[first].id).w && images.at(o.id).h == images.at(v[first].id).h) same_size.push_back(o);
            Obj o = i == 0 ? v[first] : C.flip(1, 6) ? v[C.draw((uint32_t)v.size())] : same_size[C.draw((uint32_t)same_size.size())]; auto& im = images.at(o.id); hs.push_back(o.h); auto b = std::make_shared<OwnBitmap>(im.pt, im.w, im.h, 0); b->mem = im.px; own.push_back(b); src.push_back(b.get());
            static const float f[] = {1.f, 0.5f, 0.f, 0.25f, 2.f}, pts[] = {0.f, 0.1f, 0.5f, 1.f, 0.9f}; auto& x = ci[i]; memset(&x, 0, sizeof(x)); x.weight = f[C.draw(5)]; x.enable_tinting = C.flip(1, 2) ? 1 + C.draw(255) : 0; x.tinting_color_r = (uint8_t)C.draw(256); x.tinting_color_g = (uint8_t)C.draw(256); x.tinting_color_b = (uint8_t)C.draw(256); x.black_point = pts[C.draw(3)]; x.white_point = pts[2 + C.draw(3)];
            if (C.flip(1, 4)) { bool wide = im.pt == PixelType::Gray16 || im.pt == PixelType::Bgr48; if (C.flip(1, 8)) wide = !wide; int k = wide ? 65536 : 256; luts.emplace_back(new uint8_t[k]); Bytes r = payload(k, 31 + C.draw(9)); memcpy(luts.back().get(), r.data(), k); x.look_up_table_element_count = k; x.ptr_look_up_table = luts.back().get(); }
            auto& y = cc[i]; y.Clear(); y.weight = x.weight; y.enableTinting = x.enable_tinting != 0; y.tinting.color.r = x.tinting_color_r; y.tinting.color.g = x.tinting_color_g; y.tinting.color.b = x.tinting_color_b; y.blackPoint = x.black_point; y.whitePoint = x.white_point; y.lookUpTableElementCount = x.look_up_table_element_count; y.ptrLookUpTable = x.ptr_look_up_table;
        }
        if (null) hs[C.draw(n)] = kInvalidObjectHandle; bool threw = false; Image want; if (!null) try { auto r = Compositors::ComposeMultiChannel_Bgr24(n, src.data(), cc.data()); want = grab(r.get()); } catch (const std::exception&) { threw = true; }
        ObjectHandle h = Client::kPoison; auto rc = c.call(null ? "CompositorDoMultiChannelComposition with a missing bitmap" : threw ? "CompositorDoMultiChannelComposition with unsuitable arguments" : "CompositorDoMultiChannelComposition", [&] { return libCZI_CompositorDoMultiChannelComposition(n, hs.data(), ci.data(), &h); }, null || threw); c.check_out("CompositorDoMultiChannelComposition", rc, h); if (rc) return;
        count("multi_channel"); add_bitmap(h, &want, nullptr, nullptr, "CompositorDoMultiChannelComposition");
    }
    void misc_step()
    {
        switch (C.draw(5)) {
        case 0: { LibCZIVersionInfoInterop v{-1, -1, -1, -1}; int a, b, p, t; GetLibCZIVersion(&a, &b, &p, &t); if (c.call("GetLibCZIVersionInfo", [&] { return libCZI_GetLibCZIVersionInfo(&v); })) return; if (v.major != a || v.minor != b || v.patch != p || v.tweak != t) fail("wrong-info", "GetLibCZIVersionInfo reports a wrong version"); break; }
        case 1: { LibCZIBuildInformationInterop i; memset(&i, 0, sizeof(i)); if (c.call("GetLibCZIBuildInformation", [&] { return libCZI_GetLibCZIBuildInformation(&i); })) { if (i.compilerIdentification || i.repositoryUrl || i.repositoryBranch || i.repositoryTag) fail("stale-handle", "GetLibCZIBuildInformation failed but left memory behind"); return; } for (char* p : {i.compilerIdentification, i.repositoryUrl, i.repositoryBranch, i.repositoryTag}) libCZI_Free(p); break; }
        case 2: { int32_t n = -1; if (c.call("GetStreamClassesCount", [&] { return libCZI_GetStreamClassesCount(&n); })) return; if (n != StreamsFactory::GetStreamClassesCount()) fail("wrong-count", "GetStreamClassesCount reports %d", n); bool bad = C.flip(1, 3); int i = bad ? (C.flip(1, 2) ? n : -1) : C.draw(n); InputStreamClassInfoInterop x; x.name = x.description = nullptr; if (c.call(bad ? "GetStreamClassInfo with a wrong index" : "GetStreamClassInfo", [&] { return libCZI_GetStreamClassInfo(i, &x); }, bad)) { if (x.name || x.description) fail("stale-handle", "GetStreamClassInfo failed but left memory behind"); return; } StreamsFactory::StreamClassInfo w; StreamsFactory::GetStreamInfoForClass(i, w); bool ok = x.name && x.description && w.class_name == x.name && w.short_description == x.description; libCZI_Free(x.name); libCZI_Free(x.description); if (!ok) fail("wrong-info", "GetStreamClassInfo reports wrong names for class %d", i); break; }
        case 3: { void* p = nullptr; uint64_t n = 1 + C.draw(500); if (c.call("AllocateMemory", [&] { return libCZI_AllocateMemory(n, &p); })) { if (p) fail("stale-handle", "AllocateMemory failed but returned memory"); return; } if (!p) fail("no-handle", "AllocateMemory reported success but no memory"); memset(p, 1, n); libCZI_Free(p); break; }
        default: { ObjectHandle h = Client::kPoison; static const char* cl[] = {"no such class", ""}; const char* k = cl[C.draw(2)]; auto rc = c.call("CreateInputStream with an unknown class", [&] { return libCZI_CreateInputStream(k, nullptr, "x", &h); }, true); c.check_out("CreateInputStream", rc, h); break; }
        }
    }
    void step()
    {
        switch (C.pick({3, 8, 5, 3, 2, 5, 4, 2, 2, 1})) {
        case 0: if (C.flip(1, 3)) { int k = C.draw((uint32_t)docs.size()); c.open_in(docs[k].disk, k); } else open(); break;
        case 1: reader_step(); break; case 2: sub_step(); break; case 3: att_step(); break; case 4: seg_step(); break; case 5: acc_step(); break; case 6: bmp_step(); break;
        case 7: c.drop_some(); break; case 8: c.misuse(); break; default: misc_step(); break;
        }
    }
};
}
SCENARIO(C16, reading, 6)
{
    begin(); auto k = std::make_unique<CReader>(); auto& c = k->c; int nd = 1 + C.draw(2); ImgCfg cfg; cfg.max_tiles = 8; cfg.max_side = 10; for (int i = 0; i < nd; ++i) k->docs.push_back(gen_image(cfg, i + 1)); k->prepare();
    if (C.flip(1, 3)) { static const uint32_t r[] = {20, 60, 200}; uint32_t q = r[C.draw(3)]; for (auto& d : k->docs) { auto& f = d.disk->f; f.armed = true; if (C.flip(1, 2)) f.r_eio = q; if (C.flip(1, 2)) f.r_short = q; f.r_garbage_tail = 500; f.foreign_exc = 300; f.max_faults = 1 + C.draw(6); } F.armed = true; if (C.flip(1, 2)) F.r_eio = q; if (C.flip(1, 2)) F.open_fail = q; if (C.flip(1, 2)) F.shrt = q; if (C.flip(1, 2)) F.eintr = q; }
    for (int i = 0; i < 3; ++i) k->open();
    int n = 5 + C.len(60); for (int i = 0; i < n; ++i) k->step();
    g_alloc.num = 0; F.armed = false; for (auto& d : k->docs) d.disk->f.armed = false;
    for (auto o : std::vector<Obj>(c.objs)) if (o.t == tBmp) { Image g; if (k->fetch(o, g) && !CReader::same(g, k->images.at(o.id))) fail("held-object", "a bitmap obtained earlier has changed"); }
    sample("C reader: %d documents, %zu objects held at the end, %d calls succeeded, %d rejected, %d failed by a fault, %d composites", nd, c.objs.size(), c.ok, c.rejected, c.failed_calls, k->composites); if (c.ok > 6) nontrivial();
    c.finish("C reader");
}
// every function with a missing or unsuitable argument, in between calls that are all right
SCENARIO(C16, arguments, 1)
{
    begin(); auto k = std::make_unique<CReader>(); auto& c = k->c; ImgCfg cfg; cfg.max_tiles = 4; cfg.max_side = 6; k->docs.push_back(gen_image(cfg, 1)); k->prepare();
    for (int i = 0; i < 3; ++i) k->open(); int n = 20 + C.draw(100);
    { ObjectHandle h = Client::kPoison; if (!c.call("CreateWriter", [&] { return libCZI_CreateWriter(&h, nullptr); })) { Obj o{tWriter, h}; c.add(o); } }
    for (int i = 0; i < n; ++i) { if (C.flip(1, 4)) k->step(); else c.bad_args(); }
    g_alloc.num = 0; sample("C interface: %zu objects held, %d calls succeeded, %d rejected", c.objs.size(), c.ok, c.rejected); if (c.rejected > 10) nontrivial(); c.finish("C interface, unsuitable arguments");
}

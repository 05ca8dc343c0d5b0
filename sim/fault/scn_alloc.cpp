// C09 memory runs out inside a call: the call reports an error (or succeeds), nothing else is affected, nothing leaks.
#include "fault/rwsession.h"
#include "fault/readclient.h"
#include "libCZI_compress.h"
using namespace sim;

namespace sim { void warm_site(); }
namespace {
bool g_warm;
// The library keeps a few objects for the rest of the process once they have been used (the decoders). Usually they exist before
// memory runs out; sometimes their creation is part of the run, and then what is left over says nothing about leaks.
void warm()
{
    g_warm = !C.flip(1, 8); if (!g_warm) { count("cold_start"); return; }
    for (auto t : {ImageDecoderType::JPXR_JxrLib, ImageDecoderType::ZStd0, ImageDecoderType::ZStd1}) GetDefaultSiteObject(SiteObjectType::WithJxrDecoder)->GetDecoder(t, nullptr);
    warm_site();
}
void arm() { g_alloc.on = true; g_alloc.num = 1 + C.draw(3); g_alloc.den = 3 + C.draw(3); track_reset(); }
void disarm() { g_alloc.on = false; }
void check_leak(const char* what)
{
    int64_t n = track_live(); A.watch = false;
    if (n && g_warm) { track_dump(); fail("leak", "%s: %lld block(s) allocated by the library were never freed although every object was released", what, (long long)n); }
}
void write_document()
{
    auto disk = std::make_shared<Disk>(); Doc doc; bool mi = false, created = false;
    {
        WriterSession s; s.cfg(); s.disk = disk; bool early = C.flip(1, 3);
        if (early) arm();
        created = s.create();
        if (!created) { count("create_failed"); sample("Create of a new document: %llu allocations failed", (unsigned long long)A.failed); }
        else {
            if (!early) arm();
            int n = 1 + C.len(12); for (int i = 0; i < n; ++i) s.step(true);
            if (C.flip(1, 4)) s.call("GetStatistics", 0, [&] { s.w->GetStatistics(); });
            int tries = 0; bool closed = false; while (!closed) { if (tries >= 3 || C.flip(1, 4)) disarm(); closed = s.call("Close", 0, [&] { s.w->Close(); }); if (++tries > 8) fail("close-never", "Close keeps failing after memory is available again"); }
            doc = s.doc; mi = s.meta_indet; sample("new document: %zu sub-blocks, %zu attachments, %d failed calls, %d retries, %llu allocations failed", doc.subs.size(), doc.atts.size(), s.failed_ops, s.retried, (unsigned long long)A.failed);
        }
        disarm();
    }
    check_leak("writing a new document");
    if (created) verify_document(disk, doc, "after allocation failures", {}, {}, mi);
}
void edit_document()
{
    Doc doc; auto disk = std::make_shared<Disk>(); GenCfg g; initial_document(doc, disk, g); bool opened;
    {
        EditSession e(doc, disk, g); e.faulty = true; bool early = C.flip(1, 2); if (early) arm();
        opened = e.open(false); if (!early) arm();
        if (opened) {
            int n = 1 + C.len(14); for (int i = 0; i < n; ++i) { e.step(); if (C.flip(1, 5)) e.check_all("inside the session"); }
            if (e.imeta && C.flip(1, 2)) e.write_meta(gen_meta(g));
            e.close(true); disarm(); e.check_all("after Close"); e.rw.reset(); verify_edited(disk, e, "after allocation failures", true);
            sample("edited document: %d calls (%d failed), %zu sub-blocks, %llu allocations failed", e.ops, e.failed, doc.subs.size(), (unsigned long long)A.failed);
        } else { disarm(); e.rw.reset(); if (!disk->data.empty()) verify_document(disk, doc, "after a failed attempt to edit"); sample("opening for editing failed"); }
    }
    check_leak("editing a document");
}
void read_documents()
{
    {
        ReadClient c; int nd = 1 + C.draw(2); ImgCfg cfg; cfg.max_tiles = 8; cfg.max_side = 10;
        for (int i = 0; i < nd; ++i) { c.docs.push_back(gen_image(cfg, i + 1)); c.truncated.push_back(false); }
        c.att_index.resize(nd); arm();
        int n = 2 + C.len(24); for (int i = 0; i < n; ++i) c.step();
        disarm(); c.close();
        for (auto& d : c.docs) { if (!c.r || C.flip(1, 3)) c.r = CreateCZIReader(); try { c.r->Open(std::make_shared<SimStream>(d.disk)); } catch (const std::exception& e) { fail("unreadable", "memory is available again but the document cannot be opened: %s", e.what()); } verify_subs(c.r.get(), d.doc.subs, {}, "afterwards"); verify_atts(c.r.get(), d.doc.atts, {}, "afterwards"); verify_meta(c.r.get(), d.doc.meta, "afterwards"); c.r->Close(); }
        c.check_held(); sample("reading %d documents: %d calls succeeded, %d failed, %llu allocations failed", nd, c.ok, c.failed, (unsigned long long)A.failed);
    }
    check_leak("reading documents");
}
// bitmaps are compressed and decompressed
void code_bitmaps()
{
    {
        uint64_t tag = 40; arm(); int n = 1 + C.len(6), ok = 0, bad = 0; static const PixelType pts[] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float};
        for (int i = 0; i < n; ++i) {
            PixelType pt = pts[C.draw(5)]; uint32_t w = 1 + C.draw(40), h = 1 + C.draw(30), bp = bpp(pt), stride = w * bp + (C.flip(1, 2) ? 1 + C.draw(9) : 0); int mode = C.draw(5);   // 0/1 zstd0 alloc/buffer, 2/3 zstd1, 4 jxr
            if (mode == 4 && pt == PixelType::Gray32Float) mode = 0;
            Bytes tight = payload((size_t)w * h * bp, tag++), src((size_t)stride * h, 0x77); if (C.flip(1, 2)) for (auto& b : tight) b &= 3; for (uint32_t y = 0; y < h; ++y) memcpy(&src[(size_t)y * stride], &tight[(size_t)y * w * bp], w * bp);
            CompressParametersOnMap par; if (C.flip(1, 2)) par.map[(int)CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = CompressParameter(true); if (C.flip(1, 2)) par.map[(int)CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL] = CompressParameter((int32_t)C.draw(6) - 1); par.map[(int)CompressionParameterKey::JXRLIB_QUALITY] = CompressParameter((uint32_t)1000);
            const ICompressParameters* pp = mode == 4 || C.flip(3, 4) ? &par : nullptr; bool own = C.flip(1, 2), refuse = own && C.flip(1, 3); int outst = 0, refused = 0;
            auto al = [&](size_t sz) -> void* { if (refuse) { ++refused; return nullptr; } ++outst; return ::malloc(sz); }; auto fr = [&](void* p) { if (!p) fail("free-functor", "the function for releasing temporary buffers was called with a null pointer"); --outst; ::free(p); };
            std::function<void*(size_t)> fal = al; std::function<void(void*)> ffr = fr; if (own && !refuse) fal = [&](size_t sz) -> void* { void* p = ::malloc(sz); if (p) ++outst; else ++refused; return p; };
            size_t cap = mode < 2 ? ZstdCompress::CalculateMaxCompressedSizeZStd0(w, h, pt) : ZstdCompress::CalculateMaxCompressedSizeZStd1(w, h, pt); Bytes dst(cap + 8, 0xee); size_t used = cap; Bytes out; bool threw = false, done = false; uint64_t f0 = A.failed;
            const char* names[] = {"CompressZStd0Alloc", "CompressZStd0", "CompressZStd1Alloc", "CompressZStd1", "JxrLibCompress::Compress"};
            {
                std::shared_ptr<IMemoryBlock> m;
                try {
                    AllocWindow win; bool b = false; A.new_only = mode == 4;   // the vendored JPEG-XR encoder does not cope with malloc returning null
                    switch (mode) {
                    case 0: m = own ? ZstdCompress::CompressZStd0Alloc(w, h, stride, pt, src.data(), fal, ffr, pp) : ZstdCompress::CompressZStd0Alloc(w, h, stride, pt, src.data(), pp); break;
                    case 1: b = own ? ZstdCompress::CompressZStd0(w, h, stride, pt, src.data(), fal, ffr, dst.data(), used, pp) : ZstdCompress::CompressZStd0(w, h, stride, pt, src.data(), dst.data(), used, pp); break;
                    case 2: m = own ? ZstdCompress::CompressZStd1Alloc(w, h, stride, pt, src.data(), fal, ffr, pp) : ZstdCompress::CompressZStd1Alloc(w, h, stride, pt, src.data(), pp); break;
                    case 3: b = own ? ZstdCompress::CompressZStd1(w, h, stride, pt, src.data(), fal, ffr, dst.data(), used, pp) : ZstdCompress::CompressZStd1(w, h, stride, pt, src.data(), dst.data(), used, pp); break;
                    default: m = JxrLibCompress::Compress(pt, w, h, stride, src.data(), pp); break;
                    }
                    done = b || m;
                } catch (const std::exception& e) { threw = true; ev("%s: %s", names[mode], e.what()); }
                A.new_only = false; bool fired = A.failed != f0 || refused; ev("%s %ux%u -> %s%s", names[mode], w, h, done ? "ok" : threw ? "exception" : "no result", fired ? " (fault)" : "");
                if (!done && !threw) fail("silent", "%s reported 'output buffer too small' although the buffer has the size the library asked for%s", names[mode], fired ? " (memory ran out)" : "");
                if (threw && !fired) fail("unexpected-error", "%s failed although memory was available", names[mode]);
                if (refused && refuse && done) fail("silent", "%s succeeded although no temporary buffer could be had", names[mode]);
                if (outst) fail("leak", "%s: %d temporary buffer(s) were not released with the caller's function", names[mode], outst);
                if (dst[cap] != 0xee) fail("overrun", "%s wrote beyond the end of the output buffer", names[mode]);
                if (done) { if (m) out.assign((const uint8_t*)m->GetPtr(), (const uint8_t*)m->GetPtr() + m->GetSizeOfData()); else { if (used > cap) fail("overrun", "%s reports %zu bytes in a buffer of %zu", names[mode], used, cap); out.assign(dst.begin(), dst.begin() + used); } }
            }
            if (!done) { ++bad; continue; } ++ok;
            auto dec = GetDefaultSiteObject(SiteObjectType::WithJxrDecoder)->GetDecoder(mode == 4 ? ImageDecoderType::JPXR_JxrLib : mode < 2 ? ImageDecoderType::ZStd0 : ImageDecoderType::ZStd1, nullptr); std::shared_ptr<IBitmapData> bm; threw = false; f0 = A.failed;
            for (int round = 0; round < 2 && !bm; ++round) {
                try { AllocWindow win; if (round) A.fail_at = 0; A.new_only = mode == 4; bm = dec->Decode(out.data(), out.size(), &pt, &w, &h, nullptr); } catch (const std::exception& e) { if (A.failed == f0) fail("unexpected-error", "the output of %s cannot be decoded: %s", names[mode], e.what()); }
                f0 = A.failed; A.new_only = false;
            }
            if (!bm) fail("unexpected-error", "no bitmap decoded"); if (bm->GetPixelType() != pt || bm->GetWidth() != w || bm->GetHeight() != h) fail("wrong-pixels", "decoded bitmap has another size or type");
            { ScopedBitmapLockerSP l(bm); for (uint32_t y = 0; y < h; ++y) if (memcmp((uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, &tight[(size_t)y * w * bp], w * bp)) fail("wrong-pixels", "the output of %s decodes to other pixels (line %u)", names[mode], y); }
        }
        disarm(); sample("%d bitmaps compressed and decompressed, %d failed, %llu allocations failed", ok, bad, (unsigned long long)A.failed);
    }
    check_leak("compressing and decompressing bitmaps");
}
}
SCENARIO(C09, codecs, 2) { warm(); code_bitmaps(); if (A.failed) nontrivial(); }
SCENARIO(C09, writing, 4) { warm(); write_document(); if (A.failed) nontrivial(); }
SCENARIO(C09, editing, 4) { warm(); edit_document(); if (A.failed) nontrivial(); }
SCENARIO(C09, reading, 5) { warm(); read_documents(); if (A.failed) nontrivial(); }

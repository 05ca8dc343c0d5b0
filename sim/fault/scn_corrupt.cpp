// C08: documents damaged in any way never make the library misbehave: every call succeeds or throws a std::exception,
// nothing is read or written out of bounds, work and memory stay bounded.
#include "channelwalk.h"
#include "xmlfuzz.h"
#include "fault/rwsession.h"
#include "fault/readclient.h"
#include <atomic>
#include <unistd.h>
using namespace sim;

namespace {
struct Field { uint64_t off; int size; const char* what; };
struct Map { std::vector<uint64_t> masks; std::vector<std::pair<uint64_t, uint64_t>> rects; std::vector<Field> f; std::vector<std::pair<uint64_t, uint64_t>> blobs; std::vector<std::string> blobname; };
void dv_fields(const Bytes& d, uint64_t o, Map& m, const char* w)
{
    m.f.push_back({o, 2, w}); m.f.push_back({o + 2, 4, "PixelType"}); m.f.push_back({o + 6, 8, "FilePosition"}); m.f.push_back({o + 18, 4, "Compression"}); m.f.push_back({o + 22, 1, "spare"}); m.f.push_back({o + 28, 4, "DimensionCount"});
    uint32_t n = std::min<uint32_t>(le32(d, o + 28), 40); for (uint32_t i = 0; i < n; ++i) { uint64_t e = o + 32 + 20 * i; m.f.push_back({e, 1, "Dimension"}); m.f.push_back({e + 4, 4, "Start"}); m.f.push_back({e + 8, 4, "Size"}); m.f.push_back({e + 16, 4, "StoredSize"}); }
}
Map map_of(const Bytes& d)
{
    Map m; auto seg = [&](uint64_t p) { m.f.push_back({p, 1, "segment id"}); m.f.push_back({p + 16, 8, "AllocatedSize"}); m.f.push_back({p + 24, 8, "UsedSize"}); };
    seg(0); m.f.push_back({32, 4, "Major"}); m.f.push_back({84, 8, "SubBlockDirectoryPosition"}); m.f.push_back({92, 8, "MetadataPosition"}); m.f.push_back({104, 8, "AttachmentDirectoryPosition"}); m.f.push_back({80, 4, "FilePart"});
    uint64_t dirp = le64(d, 84), metap = le64(d, 92), attp = le64(d, 104);
    if (dirp && dirp + 160 <= d.size()) {
        seg(dirp); m.f.push_back({dirp + 32, 4, "EntryCount"}); uint32_t n = le32(d, dirp + 32); uint64_t o = dirp + 160;
        for (uint32_t i = 0; i < n && o + 32 < d.size(); ++i) {
            dv_fields(d, o, m, "directory schema"); uint64_t fp = le64(d, o + 6);
            if (fp + 300 < d.size()) { seg(fp); m.f.push_back({fp + 32, 4, "MetadataSize"}); m.f.push_back({fp + 36, 4, "AttachmentSize"}); m.f.push_back({fp + 40, 8, "DataSize"}); dv_fields(d, fp + 48, m, "sub-block schema");
                uint32_t ms = le32(d, fp + 32), as = le32(d, fp + 36); uint64_t ds = le64(d, fp + 40), b = fp + 32 + std::max<uint64_t>(256, 48 + 20ull * le32(d, o + 28)); if (ms) m.blobs.push_back({b, ms}); if (ds) m.blobs.push_back({b + ms, ds}); if (as) { m.blobs.push_back({b + ms + ds, as}); m.blobs.push_back({b + ms + ds, std::min<uint64_t>(as, 40)}); if (as >= 36 && b + ms + ds + as <= d.size()) for (uint64_t a = b + ms + ds, end = a + as; a + 36 <= end; a += 20ull + le32(d, a + 16)) { m.f.push_back({a + 16, 4, "chunk size"}); if (d[a] != 0x67 || d[a + 1] != 0xEA) continue; m.masks.push_back(a); m.f.push_back({a + 20, 4, "mask width"}); m.f.push_back({a + 24, 4, "mask height"}); m.f.push_back({a + 28, 4, "mask type"}); m.f.push_back({a + 32, 4, "mask stride"}); } } m.rects.push_back({o, fp + 48}); }
            o += 32 + 20ull * le32(d, o + 28);
        }
    }
    if (metap && metap + 300 <= d.size()) { seg(metap); m.f.push_back({metap + 32, 4, "XmlSize"}); m.f.push_back({metap + 36, 4, "XmlAttachmentSize"}); m.blobs.push_back({metap + 288, le32(d, metap + 32)}); m.blobs.push_back({metap + 288, le32(d, metap + 32)}); }
    if (attp && attp + 288 <= d.size()) {
        seg(attp); m.f.push_back({attp + 32, 4, "attachment EntryCount"}); uint32_t n = le32(d, attp + 32);
        for (uint32_t i = 0; i < n && attp + 288 + 128 * (i + 1) <= d.size(); ++i) { uint64_t o = attp + 288 + 128 * i; m.f.push_back({o, 2, "attachment schema"}); m.f.push_back({o + 12, 8, "attachment FilePosition"}); m.f.push_back({o + 48, 8, "attachment name"}); uint64_t fp = le64(d, o + 12); if (fp + 300 < d.size()) { seg(fp); m.f.push_back({fp + 32, 4, "attachment DataSize"}); m.f.push_back({fp + 36, 4, "attachment DataSize hi"}); } }
    }
    return m;
}
uint64_t interesting(const Bytes& d, const Map& m)
{
    switch (C.pick({8, 4, 2, 2})) {
    case 0: { static const uint64_t v[] = {0, 1, ~0ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, 2, 41, 40, 39, 255, 256, 0x10000, 0x7ffffff0, 0x40000000, 100, 5000, 0xfffffff0ull, 0x100000001ull, 0xfffffffffffffff0ull, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}; return v[C.draw(32)]; }
    case 1: { auto& f = m.f[C.draw((uint32_t)m.f.size())]; return f.size == 8 ? le64(d, f.off) : le32(d, f.off); }
    case 2: return d.size() - C.draw(400);
    default: return C.draw(1u << 30);
    }
}
void mutate(Bytes& d, Map& m, std::string& desc)
{
    char b[120]; b[0] = 0;
    switch (C.pick({10, 3, 6, 2, 1, 1, m.masks.empty() ? 0u : 1u, m.rects.empty() ? 0u : 1u})) {
    case 0: { auto& f = m.f[C.draw((uint32_t)m.f.size())]; uint64_t v = interesting(d, m); if (f.off + f.size > d.size()) return; if (C.flip(1, 4)) { uint64_t o = 0; memcpy(&o, d.data() + f.off, f.size); v = o + (int)C.draw(9) - 4; }
        if (f.size == 1 && *f.what == 'D') { static const char ds[] = "XYMCZTSHRIVBxyQ\0\xff"; v = (uint8_t)ds[C.draw(17)]; }
        if (f.size == 2 && C.flip(1, 2)) { d[f.off] = 'D'; d[f.off + 1] = 'E'; v = 'D' | 'E' << 8; }
        memcpy(d.data() + f.off, &v, f.size); snprintf(b, sizeof(b), "%s@%llu=%llx ", f.what, (unsigned long long)f.off, (unsigned long long)v); count("mut.field"); break; }
    case 1: { uint64_t p = C.draw((uint32_t)d.size()); if (d.empty()) return; d[p] ^= 1 << C.draw(8); snprintf(b, sizeof(b), "bit@%llu ", (unsigned long long)p); count("mut.bit"); break; }
    case 2: { if (m.blobs.empty()) return; auto& r = m.blobs[C.draw((uint32_t)m.blobs.size())]; if (!r.second || r.first + r.second > d.size()) return; int n = 1 + C.len(6);
        for (int i = 0; i < n; ++i) { uint64_t p = r.first + C.draw((uint32_t)std::min<uint64_t>(r.second, 1u << 20)); if (C.flip(1, 3) && p + 4 <= r.first + r.second) { p = r.first + (p - r.first) / 4 * 4; uint32_t v = (uint32_t)interesting(d, m); if (p + 4 <= d.size()) memcpy(d.data() + p, &v, 4); } else d[p] = C.flip(1, 2) ? (uint8_t)C.draw(256) : (uint8_t)"<>/&;\"' 0"[C.draw(9)]; }
        snprintf(b, sizeof(b), "payload@%llu ", (unsigned long long)r.first); count("mut.payload"); break; }
    case 3: { d.resize(C.draw((uint32_t)d.size() + 1)); snprintf(b, sizeof(b), "truncated to %zu ", d.size()); count("mut.truncate"); break; }
    case 4: { if (d.size() < 64) return; uint64_t p = C.draw((uint32_t)d.size() - 32), n = 1 + C.draw(32); memset(d.data() + p, C.flip(1, 2) ? 0 : 0xff, n); snprintf(b, sizeof(b), "fill@%llu+%llu ", (unsigned long long)p, (unsigned long long)n); count("mut.fill"); break; }
    case 6: {   // extents whose product leaves 32 bits
        uint64_t a = m.masks[C.draw((uint32_t)m.masks.size())]; if (a + 36 > d.size()) return; uint32_t k = 2 + C.draw(28), w = C.flip(1, 2) ? le32(d, a + 20) : 1 + C.draw(64), stride = 1u << k, h = (uint32_t)((1ull << (32 - k)) + C.draw(3)); if (h < 1u << 20 || C.flip(1, 4)) { memcpy(d.data() + a + 20, &w, 4); memcpy(d.data() + a + 24, &h, 4); memcpy(d.data() + a + 32, &stride, 4); } snprintf(b, sizeof(b), "mask@%llu %ux%u stride %x ", (unsigned long long)a, w, h, stride); count("mut.mask"); break; }
    case 7: {
        auto r = m.rects[C.draw((uint32_t)m.rects.size())]; uint32_t k = C.draw(31), w = 1u << k, h = (uint32_t)((1ull << 32) / w + (C.flip(1, 2) ? 0 : C.draw(4))), which = 1 + C.draw(3); if (C.flip(1, 2)) std::swap(w, h); if (C.flip(1, 3)) { w /= 2; if (!w) w = 1; }
        for (int t = 0; t < 2; ++t) { if (!(which >> t & 1)) continue; uint64_t o = t ? r.second : r.first; if (o + 32 > d.size()) continue; uint32_t n = std::min<uint32_t>(le32(d, o + 28), 40); for (uint32_t i = 0; i < n; ++i) { uint64_t e = o + 32 + 20 * i; if (e + 20 > d.size()) break; if (d[e] == 'X') { memcpy(d.data() + e + 16, &w, 4); } if (d[e] == 'Y') { memcpy(d.data() + e + 16, &h, 4); } } }
        snprintf(b, sizeof(b), "stored %ux%u@%llu ", w, h, (unsigned long long)r.first); count("mut.extent"); break; }
    default: { if (d.size() < 128) return; uint64_t p = C.draw((uint32_t)d.size() - 64), q = C.draw((uint32_t)d.size() - 64), n = 1 + C.draw(64); memmove(d.data() + p, d.data() + q, n); snprintf(b, sizeof(b), "copy %llu->%llu+%llu ", (unsigned long long)q, (unsigned long long)p, (unsigned long long)n); count("mut.copy"); break; }
    }
    sched(fnv(b, strlen(b))); desc += b;
}
int g_ok, g_err;
// The decoder for JPEG-XR is a vendored third-party codec whose bit-stream parser is not part of what C08 states: JPEG-XR data
// which is not what the encoder produced is refused here (a decoder error, as a codec would report it). Everything around it -
// the site, the conversion of a bitmap which does not match its description - runs with the real code.
const std::vector<Bytes>* g_jxr_pristine = nullptr;
struct GateDecoder : IDecoder {
    std::shared_ptr<IDecoder> real; explicit GateDecoder(std::shared_ptr<IDecoder> r) : real(std::move(r)) {}
    std::shared_ptr<IBitmapData> Decode(const void* p, size_t n, const PixelType* pt, const std::uint32_t* w, const std::uint32_t* h, const char* a) override
    {
        if (g_jxr_pristine) { bool ok = false; for (auto& b : *g_jxr_pristine) if (b.size() == n && !memcmp(b.data(), p, n)) ok = true; if (!ok) { count("jxr_data_refused"); throw std::runtime_error("simulated decoder error"); } }
        if (A.armed) { Exempt x; return real->Decode(p, n, pt, w, h, a); }   // the vendored codec does not clean up when memory runs out inside of it: out of scope of C09
        return real->Decode(p, n, pt, w, h, a);
    }
};
// In some runs the site logs everything and hands out bitmaps of its own: lines are padded (the codec may write the padding), locks are counted.
bool g_logging = false; uint32_t g_pad = 0;
[[noreturn]] void bitmap_violation(const char* cls, const char* msg) { snprintf(S->cls, sizeof(S->cls), "%s", cls); snprintf(S->msg, sizeof(S->msg), "%s", msg); S->status = kViolation; _exit(0); }
struct PadBitmap : IBitmapData {
    PixelType pt; uint32_t w, h, stride; uint8_t* mem; std::atomic<int> locks{0};
    PadBitmap(PixelType p, uint32_t w, uint32_t h, uint32_t bp, uint32_t pad) : pt(p), w(w), h(h), stride(w * bp + pad), mem((uint8_t*)malloc((size_t)stride * h)) { if (!mem) throw std::bad_alloc(); memset(mem, 0xA9, (size_t)stride * h); }
    ~PadBitmap() override
    {
        if (locks) bitmap_violation("bitmap-lock", "a bitmap made by the site is destroyed while it is locked");
        free(mem);
    }
    PixelType GetPixelType() const override { return pt; }
    IntSize GetSize() const override { return {w, h}; }
    BitmapLockInfo Lock() override { ++locks; BitmapLockInfo i; i.ptrData = i.ptrDataRoi = mem; i.stride = stride; i.size = (uint64_t)stride * h; return i; }
    void Unlock() override { int c = locks; do { if (c <= 0) throw std::logic_error("Lock/Unlock-semantic was violated."); } while (!locks.compare_exchange_weak(c, c - 1)); }
    int GetLockCount() const override { return locks; }
};
struct GateSite : ISite {
    ISite* real = GetDefaultSiteObject(SiteObjectType::WithJxrDecoder); std::shared_ptr<IDecoder> jxr;
    bool IsEnabled(int) override { return g_logging; }
    void Log(int l, const char* s) override { size_t n = s ? strlen(s) : 0; Exempt x; if (!s) fail("log", "a null pointer is logged"); count("log_messages"); (void)l; (void)n; }
    std::shared_ptr<IDecoder> GetDecoder(ImageDecoderType t, const char* a) override { auto d = real->GetDecoder(t, a); if (t != ImageDecoderType::JPXR_JxrLib) return d; if (!jxr) jxr = std::make_shared<GateDecoder>(d); return jxr; }
    std::shared_ptr<IBitmapData> CreateBitmap(PixelType p, std::uint32_t w, std::uint32_t h, std::uint32_t s, std::uint32_t er, std::uint32_t ec) override 
    {
        uint32_t bp = 0; switch (p) { case PixelType::Gray8: bp = 1; break; case PixelType::Gray16: bp = 2; break; case PixelType::Bgr24: bp = 3; break; case PixelType::Bgr48: bp = 6; break; case PixelType::Gray32Float: case PixelType::Bgra32: bp = 4; break; default: break; }
        if (!g_pad || !bp || s || er || ec || !w || !h || (uint64_t)w * h > (1u << 20)) return real->CreateBitmap(p, w, h, s, er, ec);
        uint32_t e = p == PixelType::Gray32Float ? 4 : p == PixelType::Gray16 || p == PixelType::Bgr48 ? 2 : 1;   // lines consist of whole elements
        return std::make_shared<PadBitmap>(p, w, h, bp, (g_pad + e - 1) / e * e);
    }
    void TerminateProgram(TerminationReason r, const char* m) override { real->TerminateProgram(r, m); }
};
}
namespace sim { void site_draw() { g_logging = C.flip(1, 5); g_pad = C.flip(1, 4) ? 1 + C.draw(40) : 0; } }
namespace {
struct InstallSite { GateSite site; InstallSite() { SetSiteObject(&site); } } g_site;
template <class F> bool safe(const char* what, F f)
{
    try { f(); ++g_ok; ev("%s ok", what); return true; }
    catch (const Violation&) { throw; } catch (const RunTooLong&) { throw; }
    catch (const std::exception& e) { ++g_err; ev("%s exception", what); note("%s", e.what()); return false; }
    catch (...) { fail("foreign-exception", "%s threw something that is not a std::exception", what); }
}
void touch(const void* p, size_t n) { const volatile uint8_t* q = (const volatile uint8_t*)p; uint64_t s = 0; if (n && !q) fail("null-data", "%zu bytes of data reported but no memory", n); for (size_t i = 0; i < n; ++i) s += q[i]; if (n) { ev("%zu bytes %llu", n, (unsigned long long)s); } }

void walk_nodes(IXmlNodeRead* n, int depth)
{
    std::wstring v; use(n->Name()); if (n->TryGetValue(&v)) use(v); n->TryGetAttribute(L"Id", &v); n->TryGetAttribute(L"Id", nullptr); n->EnumAttributes([&](const std::wstring& a, const std::wstring& b) { use(a); use(b); return true; });
    { double d; float f; uint32_t u; int32_t i; uint64_t w; int64_t l; bool b; n->TryGetValueAsDouble(&d); n->TryGetValueAsFloat(&f); n->TryGetValueAsUInt32(&u); n->TryGetValueAsInt32(&i); n->TryGetValueAsUInt64(&w); n->TryGetValueAsInt64(&l); n->TryGetValueAsBool(&b); n->TryGetValueAsDouble(nullptr); }
    int k = 0; if (depth < 12) n->EnumChildren([&](std::shared_ptr<IXmlNodeRead> c) { if (!c) fail("null-node", "EnumChildren handed out no node"); walk_nodes(c.get(), depth + 1); return ++k < 6; });
}
void abuse_metadata(IMetadataSegment* ms)
{
    for (auto t : {IMetadataSegment::XmlMetadata, IMetadataSegment::Attachment}) { const void* p = nullptr; size_t n = 0; ms->DangerousGetRawData(t, p, n); touch(p, n); size_t n2; auto sp = ms->GetRawData(t, &n2); touch(sp.get(), n2); }
    safe("metadata", [&] {
        auto md = ms->CreateMetaFromMetadataSegment(); if (!md->IsXmlValid()) return; md->GetXml(); auto di = md->GetDocumentInfo();
        safe("GeneralDocumentInfo", [&] { di->GetGeneralDocumentInfo(); }); safe("ScalingInfo", [&] { di->GetScalingInfo(); di->GetScalingInfoEx(); });
        safe("dims", [&] { di->EnumDimensions([&](DimensionIndex x) { auto i = di->GetDimensionInfo(x); if (i) { int a, b; bool e, g; i->GetInterval(&a, &b); i->GetIntervalIsExplicitlyStated(&e, &g); i->GetDimension(); } return true; }); });
        safe("Z", [&] { auto z = di->GetDimensionZInfo(); if (z) { double a, b; std::vector<double> v; z->TryGetIntervalDefinition(&a, &b); z->TryGetIntervalDefinition(nullptr, nullptr); z->TryGetPositionList(&v); z->TryGetPositionList(nullptr); z->TryGetReferencePosition(&a); IDimensionZInfo::XyzHandedness h; z->TryGetXyzHandedness(&h); IDimensionZInfo::ZaxisDirection ad; z->TryGetZAxisDirection(&ad); IDimensionZInfo::ZDriveMode dm; z->TryGetZDriveMode(&dm); z->TryZDriveSpeed(&a); } });
        safe("T", [&] { auto t = di->GetDimensionTInfo(); if (t) { XmlDateTime dt; double a, b; t->TryGetIntervalDefinition(&a, &b); if (t->TryGetStartTime(&dt)) { use(dt.ToXmlString()); if (!dt.IsValid()) note("not a valid date"); } std::vector<double> v; t->TryGetOffsetsList(&v); } });
        safe("channels", [&] { auto c = di->GetDimensionChannelsInfo(); if (c) for (int i = 0; i < c->GetChannelCount() && i < 20; ++i) safe("channel", [&] { auto ch = c->GetChannel(i); int n = 0; if (ch) { walk(ch.get(), n); count("channel_values", n); } }); });
        safe("nodes", [&] { walk_nodes(md.get(), 0); static const char* paths[] = {"ImageDocument/Metadata/Information", "ImageDocument/Metadata/Scaling/Items/Distance[Id=X]/Value", "ImageDocument/Metadata/Information/Image/Dimensions/Channels/Channel[Id=Channel:0,Name=x]", "ImageDocument//x", "", "/", "a[", "a[b", "a[b=", "a[b=]", "a[]", "ImageDocument/Metadata/DisplaySetting/Channels/Channel[Id*]", "[x=1]"}; safe("path", [&] { auto c = md->GetChildNodeReadonly(paths[C.draw(13)]); if (c) walk_nodes(c.get(), 0); }); });
        safe("display", [&] { auto ds = di->GetDisplaySettings(); if (ds) ds->EnumChannels([&](int i) { auto c = ds->GetChannelDisplaySettings(i); if (c) { float g, w; c->GetBlackWhitePoint(&g, &w); c->TryGetGamma(&g); std::vector<IDisplaySettings::SplineControlPoint> v; c->TryGetSplineControlPoints(&v); std::vector<IDisplaySettings::SplineData> sd; c->TryGetSplineData(&sd); Rgb8Color col; c->TryGetTintingColorRgb8(&col); c->GetIsEnabled(); c->GetWeight(); c->GetGradationCurveMode(); } return true; }); });
        safe("display settings in use", [&] {
            auto ds = di->GetDisplaySettings(); if (!ds) return; PixelType pt = C.flip(2, 3) ? PixelType::Gray8 : C.flip(1, 2) ? PixelType::Gray16 : PixelType::Bgr24; CDisplaySettingsHelper h; h.Initialize(ds.get(), [&](int) { return pt; });
            std::vector<std::shared_ptr<IBitmapData>> bm; std::vector<IBitmapData*> p; for (int i = 0; i < h.GetActiveChannelsCount(); ++i) { auto b = std::make_shared<OwnBitmap>(pt, 3, 2, 5); b->mem = payload(b->mem.size(), i + 1); bm.push_back(b); p.push_back(b.get()); }
            if (!p.empty()) { auto r = Compositors::ComposeMultiChannel_Bgr24((int)p.size(), p.data(), h.GetChannelInfosArray()); Image out = grab(r.get()); touch(out.px.data(), out.px.size()); count("composed"); } });
    });
}
void abuse_subblock(const std::shared_ptr<ISubBlock>& sb)
{
    for (auto t : {ISubBlock::Metadata, ISubBlock::Data, ISubBlock::Attachment}) { const void* p = nullptr; size_t n = 0; safe("raw", [&] { sb->DangerousGetRawData(t, p, n); touch(p, n); }); safe("raw2", [&] { size_t n2 = 0; auto q = sb->GetRawData(t, &n2); touch(q.get(), n2); }); }
    safe("CreateBitmap", [&] { auto bm = sb->CreateBitmap(); if (!bm) fail("null-bitmap", "CreateBitmap returned nothing"); ScopedBitmapLockerSP l(bm); for (uint32_t y = 0; y < bm->GetHeight() && y < 3000; ++y) touch((const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, (size_t)bm->GetWidth() * bpp(bm->GetPixelType())); });
    safe("sub-block metadata", [&] {
        auto sm = CreateSubBlockMetadataFromSubBlock(sb.get()); if (sm) { safe("xml", [&] { sm->IsXmlValid(); sm->GetXml(); }); safe("format", [&] { std::string s; std::wstring ws; sm->TryGetAttachmentDataFormat(&ws); std::tuple<double, double> sp; sm->TryGetStagePositionFromTags(&sp); sm->TryGetTagAsDouble(L"FocusPosition", nullptr); }); }
        auto aa = CreateSubBlockAttachmentAccessor(sb, sm);
        if (aa) { safe("HasChunkContainer", [&] { aa->HasChunkContainer(); }); safe("chunks", [&] { int n = 0; aa->EnumerateChunksInChunkContainer([&](int, const ISubBlockAttachmentAccessor::ChunkInfo& ci) { if (++n > 5000) fail("livelock:chunks", "more than 5000 chunks enumerated in a tiny container"); const void* p; size_t sz; sb->DangerousGetRawData(ISubBlock::Attachment, p, sz); if ((uint64_t)ci.offset + ci.size > sz) fail("chunk-out-of-bounds", "a chunk at %u (+%u) is reported in an attachment of %zu bytes", ci.offset, ci.size, sz); return true; }); });
            safe("mask", [&] { auto mi = aa->GetValidPixelMaskFromChunkContainer(); touch(mi.data.get(), mi.size_data); }); safe("bitonal", [&] { auto bb = aa->CreateBitonalBitmapFromMaskInfo(); if (bb) { ScopedBitonalBitmapLockerSP l(bb); auto sz = bb->GetSize(); if ((uint64_t)sz.h * l.stride < 1u << 22) touch(l.ptrData, l.size); } }); }
    });
}
void abuse_reader(const ImgDoc& d, std::shared_ptr<Disk> disk)
{
    auto r = CreateCZIReader(); ICZIReader::OpenOptions o; o.SetDefault(); o.lax_subblock_coordinate_checks = C.flip(2, 3); o.ignore_sizem_for_pyramid_subblocks = C.flip(1, 2);
    switch (C.pick({2, 1, 2, 1})) { case 1: o.subBlockDirectoryInfoPolicy = ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy::SubBlockHeaderPrecedence; break; case 2: o.subBlockDirectoryInfoPolicy = (ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy)0x80; break; case 3: o.subBlockDirectoryInfoPolicy = (ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy)0x81; break; default: break; }
    if (!safe("Open", [&] { r->Open(std::make_shared<SimStream>(disk), &o); })) { safe("Open again", [&] { r->Open(std::make_shared<SimStream>(disk)); r->Close(); }); count("refused"); return; }
    count("opened"); std::vector<int> idx; safe("EnumerateSubBlocks", [&] { r->EnumerateSubBlocks([&](int i, const SubBlockInfo& s) { idx.push_back(i); s.GetZoom(); s.IsMindexValid(); return true; }); });
    safe("EnumerateSubBlocksEx", [&] { r->EnumerateSubBlocksEx([&](int, const DirectorySubBlockInfo&) { return true; }); });
    safe("GetStatistics", [&] { r->GetStatistics(); }); safe("GetPyramidStatistics", [&] { r->GetPyramidStatistics(); });
    safe("EnumSubset", [&] { IntRect roi{0, 0, 30, 30}; CDimCoordinate c; c.Set(DimensionIndex::C, 0); r->EnumSubset(&c, &roi, C.flip(1, 2), [&](int, const SubBlockInfo&) { return true; }); });
    for (int i : idx) { std::shared_ptr<ISubBlock> sb; safe("ReadSubBlock", [&] { sb = r->ReadSubBlock(i); }); if (sb) abuse_subblock(sb); SubBlockInfo si; r->TryGetSubBlockInfo(i, &si); }
    safe("ReadSubBlock(bad)", [&] { r->ReadSubBlock((int)idx.size() + 5); }); safe("ReadSubBlock(-1)", [&] { r->ReadSubBlock(-1); });
    safe("ReadMetadataSegment", [&] { auto ms = r->ReadMetadataSegment(); if (ms) abuse_metadata(ms.get()); });
    std::vector<int> ai; safe("EnumerateAttachments", [&] { r->EnumerateAttachments([&](int i, const AttachmentInfo&) { ai.push_back(i); return true; }); }); safe("GetAttachmentCount", [&] { r->GetAttachmentCount(); });
    for (int i : ai) safe("ReadAttachment", [&] { auto a = r->ReadAttachment(i); if (a) { const void* p; size_t n; a->DangerousGetRawData(p, n); touch(p, n); size_t n2; auto q = a->GetRawData(&n2); touch(q.get(), n2); } });
    auto cache = CreateSubBlockCache(); int nq = 1 + C.len(5);
    for (int k = 0; k < nq && !d.tiles.empty(); ++k) { Query q = gen_query(d); safe(q.kind == 0 ? "tile accessor" : q.kind == 1 ? "scaling accessor" : "pyramid accessor", [&] { run_query(nullptr, r.get(), d, q, cache); }); }
    safe("Close", [&] { r->Close(); });
}
void abuse_rw(std::shared_ptr<Disk> disk, GenCfg& g)
{
    auto rw = CreateCZIReaderWriter(); auto i = std::make_shared<CCziReaderWriterInfo>(GUID{9, 9, 9, {9, 9, 9, 9, 9, 9, 9, 9}}); i->SetForceFileGuid(C.flip(1, 2));
    if (!safe("RW Create", [&] { rw->Create(std::make_shared<SimStream>(disk), i); })) { count("rw_refused"); return; }
    count("rw_opened"); std::vector<int> idx; safe("Enumerate", [&] { rw->EnumerateSubBlocks([&](int k, const SubBlockInfo&) { idx.push_back(k); return true; }); });
    std::vector<int> ai; safe("EnumerateAttachments", [&] { rw->EnumerateAttachments([&](int k, const AttachmentInfo&) { ai.push_back(k); return true; }); });
    int n = 1 + C.len(6);
    for (int k = 0; k < n; ++k) {
        Deliver dl = (Deliver)C.pick({3, 3, 2, 2});
        switch (C.draw(9)) {
        case 0: { Sub s = gen_sub(g, dl); safe("add", [&] { deliver(s, dl, [&](auto& x) { rw->SyncAddSubBlock(x); }); }); break; }
        case 1: { Att a = gen_att(g); auto x = att_info(a); safe("add attachment", [&] { rw->SyncAddAttachment(x); }); break; }
        case 2: { Meta m = gen_meta(g); auto x = meta_info(m); safe("write metadata", [&] { rw->SyncWriteMetadata(x); }); break; }
        case 3: if (!idx.empty()) { Sub s = gen_sub(g, dl); int key = idx[C.draw((uint32_t)idx.size())]; safe("replace", [&] { deliver(s, dl, [&](auto& x) { rw->ReplaceSubBlock(key, x); }); }); } break;
        case 4: if (!ai.empty()) { Att a = gen_att(g); auto x = att_info(a); safe("replace attachment", [&] { rw->ReplaceAttachment(ai[C.draw((uint32_t)ai.size())], x); }); } break;
        case 5: if (!idx.empty()) safe("remove", [&] { rw->RemoveSubBlock(idx[C.draw((uint32_t)idx.size())]); }); break;
        case 6: if (!ai.empty()) safe("remove attachment", [&] { rw->RemoveAttachment(ai[C.draw((uint32_t)ai.size())]); }); break;
        case 7: if (!idx.empty()) safe("read", [&] { auto sb = rw->ReadSubBlock(idx[C.draw((uint32_t)idx.size())]); if (sb) abuse_subblock(sb); }); break;
        default: safe("stats", [&] { rw->GetStatistics(); rw->GetPyramidStatistics(); }); safe("metadata", [&] { auto ms = rw->ReadMetadataSegment(); if (ms) abuse_metadata(ms.get()); }); break;
        }
    }
    safe("Close", [&] { rw->Close(); });
}
}
namespace sim { void warm_site() { g_site.site.GetDecoder(ImageDecoderType::JPXR_JxrLib, nullptr); } }
SCENARIO(C08, corrupt, 10)
{
    g_ok = g_err = 0;
    ImgCfg cfg; cfg.max_tiles = 6; cfg.max_side = 10; ImgDoc d = gen_image(cfg); d.damaged = true; Map m = map_of(d.disk->data); std::string desc;
    std::vector<Bytes> pristine; for (auto& t : d.tiles) if (t.s.comp == 4) pristine.push_back(t.s.data);
    struct Gate { Gate(const std::vector<Bytes>* p) { g_jxr_pristine = p; } ~Gate() { g_jxr_pristine = nullptr; } } gate(&pristine);
    int n = 1 + C.len(5); for (int i = 0; i < n && !d.disk->data.empty(); ++i) mutate(d.disk->data, m, desc);
    ev("mutations %s", desc.c_str());
    d.disk->op_budget = 60000; d.disk->f.armed = true; d.disk->f.capacity = d.disk->data.size() + (2u << 20); callback_faults() = nullptr; A.size_cap = 48u << 20;
    if (C.flip(2, 3)) abuse_reader(d, d.disk); else { GenCfg g; g.dims = {DimensionIndex::C}; g.tag = 9000; abuse_rw(d.disk, g); if (C.flip(1, 2)) abuse_reader(d, d.disk); }
    count("fault.corruption", n); count("calls_ok", g_ok); count("calls_error", g_err); if (A.cap_failed) count("fault.allocation_over_limit", A.cap_failed); nontrivial();
    sample("%s-> %d calls ok, %d exceptions", desc.c_str(), g_ok, g_err);
}
// A document which is fine as a file, but whose XML is not what the schema promises.
SCENARIO(C08, xml, 3)
{
    g_ok = g_err = 0; XmlGen x; std::string xml = x.gen(XmlGen::grammar()), sub = x.gen(XmlGen::sub_grammar()); int n = C.flip(1, 2) ? 0 : 1 + C.len(4);
    for (int i = 0; i < n && !xml.empty(); ++i) { size_t p = C.draw((uint32_t)xml.size()); switch (C.draw(4)) { case 0: xml[p] = (char)C.draw(256); break; case 1: xml.erase(p, 1 + C.draw(20)); break; case 2: xml.insert(p, 1, "<>/\"&;'= \0"[C.draw(10)]); break; default: xml.resize(p); break; } count("mut.xml"); }
    if (C.flip(1, 20)) xml.insert(0, "\xEF\xBB\xBF");
    auto disk = std::make_shared<Disk>(); disk->trace = false;
    { auto w = CreateCZIWriter(); w->Create(out_stream(disk), std::make_shared<CCziWriterInfo>(GUID{8, 1, 1, {1, 1, 1, 1, 1, 1, 1, 1}})); Meta m; m.present = true; m.xml.assign(xml.begin(), xml.end()); w->SyncWriteMetadata(meta_info(m));
      GenCfg g; g.dims = {DimensionIndex::C}; Sub s = gen_sub(g, kMemPtr); s.meta.assign(sub.begin(), sub.end()); deliver(s, kMemPtr, [&](auto& y) { w->SyncAddSubBlock(y); }); w->Close(); }
    disk->trace = true; ev("xml %zu bytes, sub-block xml %zu bytes", xml.size(), sub.size()); sched(fnv(xml.data(), xml.size())); A.size_cap = 48u << 20;
    auto r = CreateCZIReader(); r->Open(std::make_shared<SimStream>(disk)); auto ms = r->ReadMetadataSegment(); abuse_metadata(ms.get()); auto sb = r->ReadSubBlock(0); abuse_subblock(sb); sb.reset(); ms.reset(); r->Close();
    safe("builder", [&] { auto b = CreateMetadataBuilderFromXml(xml); b->GetXml(C.flip(1, 2)); walk_nodes(b->GetRootNode().get(), 0); });
    count("fault.damaged_xml"); count("calls_ok", g_ok); count("calls_error", g_err); nontrivial(); sample("%zu bytes of XML, %d edits -> %d calls ok, %d exceptions", xml.size(), n, g_ok, g_err);
}

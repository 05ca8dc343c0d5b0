// C17: operations whose result is compared with that of the same operation executed alone. Everything an operation depends on is in its Job.
#pragma once
#include "sched/par.h"
#include "core/files.h"
#include "core/http.h"
#include "core/capiconv.h"
#include "fault/xmlfuzz.h"
#include "fault/channelwalk.h"
namespace sim {
struct Job { int op = 0; int salt = 0; uint64_t seed = 0; std::string xml; int file = 0; };
struct Rnd { uint64_t s; uint32_t operator()(uint32_t n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)((s >> 33) % n); } };
// what the operation has observed
struct Seen {
    uint64_t h = 1469598103934665603ull; int n = 0; Seen() { use_digest() = &h; } ~Seen() { use_digest() = nullptr; }
    void bytes(const void* p, size_t k) { h = fnv(p, k, h); ++n; } void str(const std::string& s) { bytes(s.data(), s.size()); } void str(const std::wstring& s) { bytes(s.data(), s.size() * sizeof(wchar_t)); } void dbl(double d) { bytes(&d, sizeof(d)); } void num(int64_t v) { bytes(&v, sizeof(v)); }
    template <class F> void attempt(F f) { try { f(); num(1); } catch (const Violation&) { throw; } catch (const RunTooLong&) { throw; } catch (const std::exception&) { num(-1); } }
};
inline void seen_bitmap(Seen& o, IBitmapData* b) { if (!b) { o.num(-7); return; } Image im = grab(b); o.num(im.w); o.num(im.h); o.num((int)im.pt); o.bytes(im.px.data(), im.px.size()); }
inline std::shared_ptr<IBitmapData> rnd_bitmap(Rnd& r, PixelType pt, uint32_t w, uint32_t h)
{
    auto b = GetDefaultSiteObject(SiteObjectType::Default)->CreateBitmap(pt, w, h, 0, 0, 0); Bytes px = payload((size_t)w * h * bpp(pt), r(100000)); ScopedBitmapLockerSP l(b); for (uint32_t y = 0; y < h; ++y) memcpy((uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, &px[(size_t)y * w * bpp(pt)], (size_t)w * bpp(pt)); return b;
}
class JobMask : public IBitonalBitmapData { public: Bytes b; uint32_t w, h; int locks = 0; JobMask(uint32_t w, uint32_t h) : b((size_t)((w + 7) / 8) * h), w(w), h(h) {} IntSize GetSize() const override { return {w, h}; } BitonalBitmapLockInfo Lock() override { ++locks; BitonalBitmapLockInfo l; l.ptrData = b.data(); l.stride = (w + 7) / 8; l.size = b.size(); return l; } void Unlock() override { --locks; } int GetLockCount() const override { return locks; } };
// the metadata of a document, read through every query
inline void walk_tree(Seen& o, IXmlNodeRead* n, int depth)
{
    std::wstring v; o.str(n->Name()); if (n->TryGetValue(&v)) o.str(v); n->EnumAttributes([&](const std::wstring& a, const std::wstring& b) { o.str(a); o.str(b); return true; });
    { double d = 0; float f = 0; uint32_t u = 0; int32_t i = 0; uint64_t w = 0; int64_t l = 0; bool b = false; if (n->TryGetValueAsDouble(&d)) o.dbl(d); if (n->TryGetValueAsFloat(&f)) o.dbl(f); if (n->TryGetValueAsUInt32(&u)) o.num(u); if (n->TryGetValueAsInt32(&i)) o.num(i); if (n->TryGetValueAsUInt64(&w)) o.num((int64_t)w); if (n->TryGetValueAsInt64(&l)) o.num(l); if (n->TryGetValueAsBool(&b)) o.num(b); }
    int k = 0; if (depth < 5) n->EnumChildren([&](std::shared_ptr<IXmlNodeRead> c) { walk_tree(o, c.get(), depth + 1); return ++k < 3; });
}
inline void job_xml(const Job& j, Seen& o)
{
    auto d = std::make_shared<Disk>(); d->trace = false; Rnd r{j.seed};
    { auto w = CreateCZIReaderWriter(); w->Create(std::make_shared<SimStream>(d), std::make_shared<CCziReaderWriterInfo>(GUID{1u + j.salt, 1, 1, {1, 1, 1, 1, 1, 1, 1, 1}})); WriteMetadataInfo mi; mi.Clear(); mi.szMetadata = j.xml.c_str(); mi.szMetadataSize = j.xml.size(); w->SyncWriteMetadata(mi); w->Close(); }
    auto rd = CreateCZIReader(); rd->Open(std::make_shared<SimStream>(d)); auto ms = rd->ReadMetadataSegment(); auto md = ms->CreateMetaFromMetadataSegment(); if (!md->IsXmlValid()) { o.num(-2); return; }
    if (r(3) == 0) o.str(md->GetXml()); if (r(3) == 0) walk_tree(o, md.get(), 0);
    o.attempt([&] { auto c = md->GetChildNodeReadonly("ImageDocument/Metadata/Scaling/Items/Distance[Id=X]/Value"); std::wstring v; if (c && c->TryGetValue(&v)) o.str(v); });
    auto di = md->GetDocumentInfo();
    o.attempt([&] { auto g = di->GetGeneralDocumentInfo(); o.str(g.name); o.str(g.title); o.str(g.userName); o.str(g.description); o.str(g.comment); o.str(g.keywords); o.str(g.creationDateTime); if (g.rating_valid) o.num(g.rating); });
    o.attempt([&] { auto s = di->GetScalingInfo(); o.dbl(s.scaleX); o.dbl(s.scaleY); o.dbl(s.scaleZ); auto e = di->GetScalingInfoEx(); o.dbl(e.scaleX); o.str(e.defaultUnitFormatX); });
    o.attempt([&] { di->EnumDimensions([&](DimensionIndex x) { o.num((int)x); auto i = di->GetDimensionInfo(x); if (i) { int a = 0, b = 0; bool e = false, g = false; i->GetInterval(&a, &b); i->GetIntervalIsExplicitlyStated(&e, &g); o.num(a); o.num(b); o.num(e); o.num(g); } return true; }); });
    o.attempt([&] { auto z = di->GetDimensionZInfo(); if (z) { double a = 0, b = 0; std::vector<double> v; if (z->TryGetIntervalDefinition(&a, &b)) { o.dbl(a); o.dbl(b); } if (z->TryGetPositionList(&v)) use(v); if (z->TryGetReferencePosition(&a)) o.dbl(a); IDimensionZInfo::XyzHandedness h{}; if (z->TryGetXyzHandedness(&h)) use(h); IDimensionZInfo::ZaxisDirection ad{}; if (z->TryGetZAxisDirection(&ad)) use(ad); } });
    o.attempt([&] { auto t = di->GetDimensionTInfo(); if (t) { XmlDateTime dt; double a = 0, b = 0; if (t->TryGetIntervalDefinition(&a, &b)) { o.dbl(a); o.dbl(b); } if (t->TryGetStartTime(&dt)) { o.str(dt.ToXmlString()); o.str(dt.ToXmlWstring()); } std::vector<double> v; if (t->TryGetOffsetsList(&v)) use(v); } });
    o.attempt([&] { auto c = di->GetDimensionChannelsInfo(); if (c) for (int i = 0; i < c->GetChannelCount() && i < 3; ++i) o.attempt([&] { auto ch = c->GetChannel(i); int n = 0; if (ch) walk(ch.get(), n); o.num(n); }); });
    o.attempt([&] { auto ds = di->GetDisplaySettings(); if (!ds) return; ds->EnumChannels([&](int i) { auto c = ds->GetChannelDisplaySettings(i); o.num(i); if (c) { float g = 0, w = 0; c->GetBlackWhitePoint(&g, &w); o.dbl(g); o.dbl(w); if (c->TryGetGamma(&g)) o.dbl(g); o.dbl(c->GetWeight()); std::vector<IDisplaySettings::SplineControlPoint> v; if (c->TryGetSplineControlPoints(&v)) for (auto& p : v) { o.dbl(p.x); o.dbl(p.y); } std::vector<IDisplaySettings::SplineData> sd; if (c->TryGetSplineData(&sd)) for (auto& p : sd) { o.dbl(p.xPos); o.dbl(p.coefficients.a); o.dbl(p.coefficients.d); } Rgb8Color col{}; if (c->TryGetTintingColorRgb8(&col)) { o.num(col.r); o.num(col.g); o.num(col.b); } } return true; });
        CDisplaySettingsHelper h; h.Initialize(ds.get(), [&](int) { return PixelType::Gray8; }); std::vector<std::shared_ptr<IBitmapData>> bm; for (int i = 0; i < h.GetActiveChannelsCount(); ++i) bm.push_back(rnd_bitmap(r, PixelType::Gray8, 4, 3)); if (!bm.empty()) { auto out = Compositors::ComposeMultiChannel_Bgr24((int)bm.size(), bm.begin(), h.GetChannelInfosArray()); seen_bitmap(o, out.get()); } });
}
// metadata written through the nodes and through the utilities
inline void job_nodes(const Job& j, Seen& o)
{
    Rnd r{j.seed}; auto b = CreateMetadataBuilder(); auto root = b->GetRootNode(); static const char* paths[] = {"Metadata/Information/A", "Metadata/Information/Image/B[Id=1]", "Metadata/C[Id=x,Name=y]/D", "Metadata/E", "Metadata/Scaling"};
    int n = 3 + r(8);
    for (int i = 0; i < n; ++i) {
        auto nd = root->GetOrCreateChildNode(paths[r(5)]); char t[40]; snprintf(t, sizeof(t), "v%d-%u", j.salt, r(1000)); std::string ts = t; std::wstring w(ts.begin(), ts.end());
        o.attempt([&] { switch (r(15)) { case 0: nd->SetValue(t); break; case 1: nd->SetValue(w); break; case 2: nd->SetValueI32(-(int)r(100000)); break; case 3: nd->SetValueUI32(r(100000)); break; case 4: nd->SetValueDbl(r(100000) / 7.0); break; case 5: nd->SetValueFlt(r(1000) / 8.0f); break; case 6: nd->SetValueBool(r(2)); break;
        case 7: nd->SetValueI64(-(long long)r(100000) * 1000003); break; case 8: nd->SetValueUI64(r(100000) * 1000003ull); break; case 9: nd->SetAttribute("Name", t); break; case 10: nd->SetAttribute(L"Id", w.c_str()); break; case 11: nd->RemoveChildren(); break; case 12: nd->RemoveAttributes(); break; case 13: o.num(nd->RemoveAttribute("Id")); break; default: { auto c = nd->AppendChildNode("F"); c->SetValue(t); o.num(nd->RemoveChild("G")); } } });
        if (r(3) == 0) walk_tree(o, nd.get(), 4);
    }
    int m = 1 + r(5); XmlDateTime dt; dt.Clear(); dt.year = 2000 + r(30); dt.mon = 1 + r(12); dt.mday = 1 + r(28); dt.hour = r(24); dt.min = r(60); dt.sec = r(60); if (r(2)) dt.isUTC = true; else { dt.isUTC = false; dt.offsetHours = 1; dt.offsetMinutes = 30; }
    for (int i = 0; i < m; ++i) switch (r(10)) {
    case 0: MetadataUtils::WriteImageSizeInformation(b.get(), 1 + r(100), 1 + r(100)); break; case 1: MetadataUtils::WriteMIndexSizeInformation(b.get(), r(100)); break; case 2: MetadataUtils::WriteDimensionSize(b.get(), (DimensionIndex)(1 + r(9)), r(50)); break;
    case 3: MetadataUtils::WriteDimInfoT_Interval(b.get(), r(2) ? &dt : nullptr, r(9) / 4.0, r(9)); break; case 4: { int k = 1 + r(5); MetadataUtils::WriteDimInfoT_List(b.get(), &dt, [&](int i) { return i < k ? i * 1.5 : std::numeric_limits<double>::quiet_NaN(); }); break; }
    case 5: MetadataUtils::WriteDimInfoZ_Interval(b.get(), r(9), r(9) / 4.0, 2); break; case 6: { int k = 1 + r(5); MetadataUtils::WriteDimInfoZ_List(b.get(), 3, [&](int i) { return i < k ? i * 1.5 : std::numeric_limits<double>::quiet_NaN(); }); break; }
    case 7: { ScalingInfoEx s; s.scaleX = 1 + r(9); s.scaleY = s.scaleZ = 0.5; s.defaultUnitFormatX = L"mm"; MetadataUtils::WriteScalingInfoEx(b.get(), s); break; }
    case 8: MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), "k" + std::to_string(r(3)), r(2) ? CustomValueVariant((int)r(100)) : r(2) ? CustomValueVariant(r(10) / 4.0) : CustomValueVariant(std::string("text"))); break;
    default: { DisplaySettingsPOD pod; int k = 1 + r(3); for (int c = 0; c < k; ++c) { ChannelDisplaySettingsPOD p; p.Clear(); p.isEnabled = r(2); p.weight = 1; p.blackPoint = r(5) / 10.f; p.whitePoint = 1 - r(4) / 10.f; if (r(2)) { p.tintingMode = IDisplaySettings::TintingMode::Color; p.tintingColor = {(uint8_t)r(256), 1, 2}; } int g = r(3); if (g == 1) { p.gradationCurveMode = IDisplaySettings::GradationCurveMode::Gamma; p.gamma = 1.5f; } if (g == 2) { p.gradationCurveMode = IDisplaySettings::GradationCurveMode::Spline; p.splineCtrlPoints = {{0.2, 0.3}, {0.5, 0.5 + r(3) / 10.0}}; } pod.channelDisplaySettings[c] = p; }
        auto ds = DisplaySettingsPOD::CreateIDisplaySettingSp(pod); DisplaySettingsPOD copy; IDisplaySettings::Clone(ds.get(), copy); o.num((int)copy.channelDisplaySettings.size());  std::map<int, PixelType> pts; for (int c = 0; c < k; ++c) pts[c] = r(2) ? PixelType::Gray8 : PixelType::Gray16; MetadataUtils::WriteDisplaySettings(b.get(), ds.get(), k, r(2) ? &pts : nullptr); int cnt = 0; ds->EnumChannels([&](int) { ++cnt; return true; }); o.num(cnt); break; } }
    o.str(b->GetXml(r(2))); auto sm = Utils::CreateSubBlockMetadata([&](int i, std::tuple<std::string, std::string>& t) { if (i > 2) return false; t = std::make_tuple("Tag" + std::to_string(i), "v" + std::to_string(j.salt)); return true; }); o.str(sm->GetXml(true));
}
// bitmaps: fill, resize, hash, masks, composition, compression into a buffer of the caller
inline void job_bitmaps(const Job& j, Seen& o)
{
    Rnd r{j.seed}; static const PixelType pts[] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48}; PixelType pt = pts[r(4)]; uint32_t w = 1 + r(9), h = 1 + r(9); auto bm = rnd_bitmap(r, pt, w, h); uint8_t md5[16]; Utils::CalcMd5SumHash(bm.get(), md5, 16); o.bytes(md5, 16);
    int n = 2 + r(4);
    for (int i = 0; i < n; ++i) switch (r(8)) {
    case 0: { auto x = Utils::NearestNeighborResize(bm.get(), 1 + r(9), 1 + r(9)); seen_bitmap(o, x.get()); break; }
    case 1: { auto x = Utils::NearestNeighborResize(bm.get(), 5, 4, DblRect{0.25, 0.5, (double)w / 2, (double)h / 2}, DblRect{0, 0, 5, 4}); seen_bitmap(o, x.get()); break; }
    case 2: { auto x = rnd_bitmap(r, pt, 3, 3); Utils::FillBitmap(x.get(), RgbFloatColor{r(11) / 10.f, r(11) / 10.f, 0.5f}); seen_bitmap(o, x.get()); break; }
    case 3: { std::shared_ptr<IBitonalBitmapData> m = std::make_shared<JobMask>(w, h); BitonalBitmapOperations::SetAllPixels(m, r(2)); for (int k = 0; k < 6; ++k) BitonalBitmapOperations::SetPixelValue(m, r(w), r(h), r(2)); BitonalBitmapOperations::Fill(m, IntRect{(int)r(w), (int)r(h), 3, 2}, r(2)); for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x) o.num(BitonalBitmapOperations::GetPixelValue(m, x, y));
        auto dst = rnd_bitmap(r, pts[r(4)], 12, 12); BitonalBitmapOperations::CopyAt(bm.get(), m.get(), IntPoint{(int)r(8) - 2, (int)r(8) - 2}, dst.get()); seen_bitmap(o, dst.get()); { ScopedBitonalBitmapLockerSP l(m); auto dm = BitonalBitmapOperations::Decimate(r(3), l, m->GetSize()); if (dm) { o.num(dm->GetWidth()); for (uint32_t y = 0; y < dm->GetHeight(); ++y) for (uint32_t x = 0; x < dm->GetWidth(); ++x) o.num(BitonalBitmapOperations::GetPixelValue(dm, x, y)); } } break; }
    case 4: { int k = 1 + r(3); std::vector<std::shared_ptr<IBitmapData>> v; std::vector<Compositors::ChannelInfo> ci(k); std::vector<Bytes> lut(k); for (int c = 0; c < k; ++c) { PixelType cp = pts[r(4)]; v.push_back(rnd_bitmap(r, cp, 6, 4)); ci[c].Clear(); ci[c].weight = r(3) ? 1.f : 0.5f; ci[c].blackPoint = r(3) / 10.f; ci[c].whitePoint = 1 - r(3) / 10.f; ci[c].enableTinting = r(2); ci[c].tinting.color = {(uint8_t)r(256), (uint8_t)r(256), 7};
            if (r(2) && (cp == PixelType::Gray8 || cp == PixelType::Bgr24)) { lut[c] = Utils::Create8BitLookUpTableFromGamma(256, ci[c].blackPoint, ci[c].whitePoint, 1.2f); ci[c].ptrLookUpTable = lut[c].data(); ci[c].lookUpTableElementCount = (int)lut[c].size(); } }
        auto x = r(2) ? Compositors::ComposeMultiChannel_Bgr24(k, v.begin(), ci.data()) : Compositors::ComposeMultiChannel_Bgra32((uint8_t)r(256), k, v.begin(), ci.data()); seen_bitmap(o, x.get()); break; }
    case 5: { Bytes src = payload((size_t)w * h * bpp(pt), r(1000)); size_t k = ZstdCompress::CalculateMaxCompressedSizeZStd1(w, h, pt); Bytes out(k + 16); bool one = r(2); o.num(one ? ZstdCompress::CompressZStd1(w, h, w * bpp(pt), pt, src.data(), out.data(), k, nullptr) : ZstdCompress::CompressZStd0(w, h, w * bpp(pt), pt, src.data(), out.data(), k, nullptr)); o.num((int64_t)k); o.bytes(out.data(), std::min(k, out.size())); break; }
    case 6: { std::vector<std::tuple<double, double>> p = {{0.1, 0.2}, {0.4, 0.3 + r(3) / 10.0}, {0.8, 0.9}}; auto sd = Utils::CalcSplineDataFromPoints((int)p.size(), [&](int i) { return p[i]; }); for (auto& s : sd) { o.dbl(s.xPos); o.dbl(s.coefficients.a); o.dbl(s.coefficients.b); o.dbl(s.coefficients.c); o.dbl(s.coefficients.d); } auto l = Utils::Create8BitLookUpTableFromSplines(32, 0.1f, 0.9f, sd); o.bytes(l.data(), l.size()); auto l2 = Utils::Create16BitLookUpTableFromGamma(32, 0.1f, 0.9f, 1.1f + r(3)); o.bytes(l2.data(), l2.size() * 2); break; }
    default: seen_bitmap(o, bm.get()); break; }
}
// texts: coordinates, bounds, options, dates
inline void job_text(const Job& j, Seen& o)
{
    Rnd r{j.seed}; static const PixelType pts[] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48}; int n = 4 + r(6), kind = r(7);
    for (int i = 0; i < n; ++i) switch (r(2) ? kind : r(7)) {
    case 0: { std::string t = "C" + std::to_string(r(5)) + ":" + std::to_string(1 + r(5)) + "T0:3"; auto b = CDimBounds::Parse(t.c_str()); o.str(Utils::DimBoundsToString(&b)); break; }
    case 1: { std::string t = "C" + std::to_string(r(50)) + "Z" + std::to_string(r(50)) + "T7"; auto c = CDimCoordinate::Parse(t.c_str()); o.str(Utils::DimCoordinateToString(&c)); break; }
    case 2: { CDimBounds b{{DimensionIndex::C, 0, 2}, {DimensionIndex::T, 1, 1 + (int)r(3)}}; uint64_t cnt = 0; Utils::EnumAllCoordinates(b, [&](uint64_t i, const CDimCoordinate& c) { o.str(Utils::DimCoordinateToString(&c)); ++cnt; return i < 20; }); o.num((int64_t)cnt); break; }
    case 3: { o.str(std::string(Utils::PixelTypeToInformalString(pts[r(4)]))); o.str(std::string(Utils::CompressionModeToInformalString((CompressionMode)r(7)))); o.num(Utils::DimensionToChar((DimensionIndex)(1 + r(9)))); o.num((int)Utils::CharToDimension("CZTRSIHVB"[r(9)])); break; }
    case 4: { auto po = Utils::ParseCompressionOptions(r(2) ? "zstd1:ExplicitLevel=3;PreProcess=HiLoByteUnpack" : "zstd0:ExplicitLevel=2"); o.num((int)po.first); CompressParameter cp; if (po.second && po.second->TryGetProperty(CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL, &cp)) o.num(cp.GetInt32()); break; }
    case 5: { o.str(Utils::ConvertToUtf8(L"\u00e4\u20ac" + std::to_wstring(j.salt))); auto s = Utils::IndexSetFromString(L"1,3-5," + std::to_wstring(7 + r(4))); for (int k = 0; k < 12; ++k) o.num(s->IsContained(k)); break; }
    default: { XmlDateTime dt; dt.Clear(); char t[60]; snprintf(t, sizeof(t), "2021-02-%02uT04:05:%02u%s", 1 + r(28), r(60), r(2) ? "Z" : "+01:00"); bool ok = XmlDateTime::TryParse(t, &dt); o.num(ok); if (ok) { o.str(dt.ToXmlString()); o.str(dt.ToXmlWstring()); } break; } }
}
// the streams of the library itself: a file, memory, an HTTP resource
inline void job_streams(const Job& j, Seen& o)
{
    Rnd r{j.seed}; char path[40]; snprintf(path, sizeof(path), "/simfs/own%d", j.file); std::wstring wp(path, path + strlen(path)); Bytes data = payload(50 + r(200), j.file); { Quiet q; auto n = std::make_shared<FsNode>(); F.files[path] = n; n->put(0, data.data(), data.size()); }
    auto rd = [&](IStream* s, uint64_t lim) { for (int i = 0; i < 2; ++i) { uint64_t off = r((uint32_t)lim), got = 0; uint8_t b[80]; memset(b, 0, sizeof(b)); s->Read(off, b, 1 + r(60), &got); o.num((int64_t)got); o.bytes(b, got); } };
    switch (r(4)) {
    case 0: { int kind = r(4) == 3 ? 4 : r(3); auto s = file_in_stream(path, kind); rd(s.get(), data.size()); break; }
    case 1: { std::shared_ptr<IOutputStream> s = CreateOutputStreamForFile(wp.c_str(), true); uint64_t got = 0; Bytes d2 = payload(30, j.salt); s->Write(r(40), d2.data(), d2.size(), &got); o.num((int64_t)got); s.reset(); auto i = CreateStreamFromFile(wp.c_str()); rd(i.get(), 30); break; }
    case 2: { auto s = CreateInputOutputStreamForFile(wp.c_str()); uint64_t got = 0; Bytes d2 = payload(30, j.salt); s->Write(r(40), d2.data(), d2.size(), &got); o.num((int64_t)got); rd(s.get(), 40); break; }
    default: { auto b = std::make_shared<Bytes>(data); auto s = CreateStreamFromMemory(std::shared_ptr<const void>(b, b->data()), b->size()); rd(s.get(), data.size()); break; } }
    if (r(3) == 0) { auto s = http_stream("http://sim/x", j.seed & 1, j.seed & 2); rd(s.get(), N.resource.size()); }
}
// a document that is created, closed, opened again and edited
inline void job_edit(const Job& j, Seen& o)
{
    Rnd r{j.seed}; auto d = std::make_shared<Disk>(); d->trace = false; std::map<int, Sub> subs; std::map<int, Att> atts; Meta meta; int id = 0;
    auto sub = [&](int m) { Sub s; s.coord.Set(DimensionIndex::C, (int)r(2)); s.pw = s.lw = 1 + r(4); s.ph = s.lh = 1 + r(4); s.x = r(30); s.y = r(30); s.mValid = true; s.m = m; s.data = payload((size_t)s.pw * s.ph, r(1000)); s.meta = payload(r(20), r(1000)); s.att = payload(r(20), r(1000)); return s; };
    auto att = [&](int k) { Att a; a.guid = GUID{0x100u + k, 1, 1, {1, 2, 3, 4, 5, 6, 7, 8}}; memcpy(a.type, "CZTXT", 5); snprintf(a.name, sizeof(a.name), "a%d-%d", j.salt, k); a.data = payload(r(60), r(1000)); return a; };
    bool rwFirst = r(2);
    auto fill = [&](auto& w, int n) { for (int i = 0; i < n; ++i) { Sub s = sub(++id); deliver(s, (Deliver)r(4), [&](auto& x) { w->SyncAddSubBlock(x); }); subs[id] = s; } if (r(2)) { Att a = att(++id); w->SyncAddAttachment(att_info(a)); atts[id] = a; } if (r(2)) { meta.present = true; std::string x = "<ImageDocument><Metadata><A>" + std::to_string(r(1000)) + "</A></Metadata></ImageDocument>"; meta.xml.assign(x.begin(), x.end()); w->SyncWriteMetadata(meta_info(meta)); } };
    if (rwFirst) { auto w = CreateCZIReaderWriter(); w->Create(std::make_shared<SimStream>(d), std::make_shared<CCziReaderWriterInfo>(GUID{5u + j.salt, 1, 1, {1, 1, 1, 1, 1, 1, 1, 1}})); fill(w, 1 + r(3)); w->Close(); }
    else { auto w = CreateCZIWriter(); auto info = r(2) ? std::make_shared<CCziWriterInfo>(GUID{5u + j.salt, 1, 1, {1, 1, 1, 1, 1, 1, 1, 1}}) : std::make_shared<CCziWriterInfo>(GUID{5u + j.salt, 1, 1, {1, 1, 1, 1, 1, 1, 1, 1}}, CDimBounds{{DimensionIndex::C, 0, 2}}, 0, 20); if (r(2)) { info->SetReservedSizeForMetadataSegment(true, 200); info->SetReservedSizeForSubBlockDirectory(true, 1000); info->SetReservedSizeForAttachmentsDirectory(true, 300); } w->Create(std::make_shared<SimStream>(d), info); fill(w, 1 + r(3)); if (r(2)) { PrepareMetadataInfo pi; if (r(2)) pi.funcGenerateIdAndNameForChannel = [](int c) { return std::make_tuple("Channel:" + std::to_string(c), std::make_tuple(true, std::string("n"))); }; auto b = w->GetPreparedMetadata(pi); o.str(b->GetXml(true)); } verify_statistics(w->GetStatistics(), subs, "own document (writer)"); w->Close(); }
    { auto w = CreateCZIReaderWriter(); w->Create(std::make_shared<SimStream>(d), nullptr); std::vector<std::pair<int, int>> idx, aidx; w->EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { idx.emplace_back(k, i.mIndex); return true; }); w->EnumerateAttachments([&](int k, const AttachmentInfo& i) { for (auto& a : atts) if (i.name == a.second.name) aidx.emplace_back(k, a.first); return true; });
      for (auto& p : idx) switch (r(3)) { case 0: { Sub s = sub(p.second); deliver(s, (Deliver)r(4), [&](auto& x) { w->ReplaceSubBlock(p.first, x); }); subs[p.second] = s; break; } case 1: w->RemoveSubBlock(p.first); subs.erase(p.second); break; default: { auto sb = w->ReadSubBlock(p.first); auto e = data_diff(sb.get(), subs.at(p.second)); if (!e.empty()) fail("interference", "own document: %s", e.c_str()); } }
      for (auto& p : aidx) switch (r(3)) { case 0: { Att a = att(p.second); w->ReplaceAttachment(p.first, att_info(a)); atts[p.second] = a; break; } case 1: w->RemoveAttachment(p.first); atts.erase(p.second); break; default: { auto a = w->ReadAttachment(p.first); size_t n = 0; auto q = a->GetRawData(&n); if (n != atts.at(p.second).data.size() || (n && memcmp(q.get(), atts.at(p.second).data.data(), n))) fail("interference", "own document: an attachment differs"); } }
      fill(w, r(2)); verify_statistics(w->GetStatistics(), subs, "own document (editing)"); w->GetPyramidStatistics(); auto fh = w->GetFileHeaderInfo(); o.bytes(&fh.fileGuid, 16); w->Close(); }
    auto rd = CreateCZIReader(); rd->Open(std::make_shared<SimStream>(d)); verify_subs(rd.get(), subs, {}, "own edited document"); verify_atts(rd.get(), atts, {}, "own edited document"); verify_meta(rd.get(), meta, "own edited document"); verify_statistics(rd->GetStatistics(), subs, "own edited document");
    auto cache = CreateSubBlockCache(); ISubBlockCacheOperation::CacheItem it; it.bitmap = rnd_bitmap(r, PixelType::Gray8, 3, 3); for (int i = 0; i < 3; ++i) cache->Add(i, it); ISubBlockCacheControl::PruneOptions po; po.maxSubBlockCount = r(4); cache->Prune(po); auto st = cache->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount); if (st.elementsCount != std::min(3u, po.maxSubBlockCount) || st.memoryUsage != st.elementsCount * 9ull) fail("interference", "own cache: %u elements, %llu bytes after pruning to %u", st.elementsCount, (unsigned long long)st.memoryUsage, po.maxSubBlockCount);
}
struct MemExt { Bytes* b; };
inline int32_t mem_read(std::uintptr_t a, std::uintptr_t, std::uint64_t off, void* pv, std::uint64_t size, std::uint64_t* n, ExternalStreamErrorInfoInterop*) { Bytes& b = *((MemExt*)a)->b; uint64_t k = off >= b.size() ? 0 : std::min<uint64_t>(size, b.size() - off); if (k) memcpy(pv, b.data() + off, k); if (n) *n = k; yield_point(); return 0; }
inline void mem_close(std::uintptr_t, std::uintptr_t) {}
// the parts of the C interface concerned with the document information
inline void job_capidoc(const Job& j, Seen& o)
{
    Rnd r{j.seed}; Bytes file;
    { auto d = std::make_shared<Disk>(); d->trace = false; auto w = CreateCZIReaderWriter(); w->Create(std::make_shared<SimStream>(d), std::make_shared<CCziReaderWriterInfo>(GUID{1u + j.salt, 1, 1, {1, 1, 1, 1, 1, 1, 1, 1}})); WriteMetadataInfo mi; mi.Clear(); mi.szMetadata = j.xml.c_str(); mi.szMetadataSize = j.xml.size(); w->SyncWriteMetadata(mi);
      Sub s; s.coord.Set(DimensionIndex::C, 0); s.pw = s.lw = 4; s.ph = s.lh = 3; s.data = payload(12, j.salt); deliver(s, kMemPtr, [&](auto& x) { w->SyncAddSubBlock(x); }); Att a; a.guid = GUID{7, 1, 1, {1, 2, 3, 4, 5, 6, 7, 8}}; memcpy(a.type, "CZTXT", 5); snprintf(a.name, sizeof(a.name), "a%d", j.salt); a.data = payload(20, j.salt); w->SyncAddAttachment(att_info(a)); w->Close(); file = d->data; }
    auto ok = [&](LibCZIApiErrorCode rc) { o.num((int)rc); return rc == LibCZIApi_ErrorCode_OK; }; auto need = [&](LibCZIApiErrorCode rc, const char* what) { if (rc != LibCZIApi_ErrorCode_OK) fail("interference", "%s of the C interface failed with code %d", what, (int)rc); };
    LibCZIVersionInfoInterop vi; need(libCZI_GetLibCZIVersionInfo(&vi), "GetLibCZIVersionInfo"); o.num(vi.major); LibCZIBuildInformationInterop bi; need(libCZI_GetLibCZIBuildInformation(&bi), "GetLibCZIBuildInformation"); libCZI_Free(bi.compilerIdentification); libCZI_Free(bi.repositoryUrl); libCZI_Free(bi.repositoryBranch); libCZI_Free(bi.repositoryTag);
    int32_t nc = 0; need(libCZI_GetStreamClassesCount(&nc), "GetStreamClassesCount"); for (int i = 0; i < nc; ++i) { InputStreamClassInfoInterop ci; if (ok(libCZI_GetStreamClassInfo(i, &ci))) { o.str(std::string(ci.name)); libCZI_Free(ci.name); libCZI_Free(ci.description); } }
    MemExt me{&file}; InputStreamObjectHandle in; CziReaderObjectHandle rd; bool asFile = r(3) == 0;
    if (asFile) { char path[40]; snprintf(path, sizeof(path), "/simfs/own%d", j.file); { Quiet q; auto n = std::make_shared<FsNode>(); F.files[path] = n; n->put(0, file.data(), file.size()); } if (r(2)) need(libCZI_CreateInputStreamFromFileUTF8(path, &in), "CreateInputStreamFromFileUTF8"); else need(libCZI_CreateInputStream(r(2) ? "pread_file_inputstream" : "c_runtime_file_inputstream", nullptr, path, &in), "CreateInputStream"); }
    else { ExternalInputStreamStructInterop x; memset(&x, 0, sizeof(x)); x.opaque_handle1 = (std::uintptr_t)&me; x.read_function = mem_read; x.close_function = mem_close; need(libCZI_CreateInputStreamFromExternal(&x, &in), "CreateInputStreamFromExternal"); }
    need(libCZI_CreateReader(&rd), "CreateReader"); ReaderOpenInfoInterop oi; memset(&oi, 0, sizeof(oi)); oi.streamObject = in; need(libCZI_ReaderOpen(rd, &oi), "ReaderOpen"); need(libCZI_ReleaseInputStream(in), "ReleaseInputStream");
    int32_t ac = 0; need(libCZI_ReaderGetAttachmentCount(rd, &ac), "ReaderGetAttachmentCount"); if (ac != 1) fail("interference", "%d attachments", ac); AttachmentInfoInterop ai; memset(&ai, 0, sizeof(ai)); need(libCZI_ReaderGetAttachmentInfoFromDirectory(rd, 0, &ai), "ReaderGetAttachmentInfoFromDirectory"); o.bytes(ai.guid, 16); AttachmentObjectHandle ah; need(libCZI_ReaderReadAttachment(rd, 0, &ah), "ReaderReadAttachment"); { uint64_t n = 0; need(libCZI_AttachmentGetRawData(ah, &n, nullptr), "AttachmentGetRawData"); Bytes b(n + 1); need(libCZI_AttachmentGetRawData(ah, &n, b.data()), "AttachmentGetRawData"); b.resize(n); if (b != payload(20, j.salt)) fail("interference", "the attachment differs"); } need(libCZI_AttachmentGetInfo(ah, &ai), "AttachmentGetInfo"); need(libCZI_ReleaseAttachment(ah), "ReleaseAttachment");
    { SubBlockStatisticsInteropEx st[4]; memset(st, 0, sizeof(st)); int32_t n = 0; need(libCZI_ReaderGetStatisticsEx(rd, st, &n), "ReaderGetStatisticsEx"); o.num(st[0].sub_block_count); }
    MetadataSegmentObjectHandle ms; need(libCZI_ReaderGetMetadataSegment(rd, &ms), "ReaderGetMetadataSegment"); CziDocumentInfoHandle di;
    if (ok(libCZI_MetadataSegmentGetCziDocumentInfo(ms, &di))) {
        void* js = nullptr; if (ok(libCZI_CziDocumentInfoGetGeneralDocumentInfo(di, &js))) { o.str(std::string((char*)js)); libCZI_Free(js); } ScalingInfoInterop sc; memset(&sc, 0, sizeof(sc)); if (ok(libCZI_CziDocumentInfoGetScalingInfo(di, &sc))) { o.dbl(sc.scale_x); o.dbl(sc.scale_y); }
        uint32_t dims[16] = {}; if (ok(libCZI_CziDocumentInfoGetAvailableDimension(di, 16, dims))) for (int i = 0; i < 16 && dims[i]; ++i) { o.num(dims[i]); void* dj = nullptr; if (ok(libCZI_CziDocumentInfoGetDimensionInfo(di, dims[i], &dj))) { o.str(std::string((char*)dj)); libCZI_Free(dj); } }
        DisplaySettingsHandle ds; if (ok(libCZI_CziDocumentInfoGetDisplaySettings(di, &ds))) {
            ChannelDisplaySettingsHandle ch; if (ok(libCZI_DisplaySettingsGetChannelDisplaySettings(ds, 0, &ch))) ok(libCZI_ReleaseChannelDisplaySettings(ch)); CompositionChannelInfoInterop ci; memset(&ci, 0, sizeof(ci));
            if (ok(libCZI_CompositorFillOutCompositionChannelInfoInterop(ds, 0, false, &ci))) { SubBlockObjectHandle sb; need(libCZI_ReaderReadSubBlock(rd, 0, &sb), "ReaderReadSubBlock"); BitmapObjectHandle b, out; need(libCZI_SubBlockCreateBitmap(sb, &b), "SubBlockCreateBitmap"); if (ok(libCZI_CompositorDoMultiChannelComposition(1, &b, &ci, &out))) { BitmapInfoInterop bi2; need(libCZI_BitmapGetInfo(out, &bi2), "BitmapGetInfo"); Bytes px((size_t)bi2.width * bi2.height * bpp((PixelType)bi2.pixelType)); need(libCZI_BitmapCopyTo(out, bi2.width, bi2.height, bi2.pixelType, bi2.width * bpp((PixelType)bi2.pixelType), px.data()), "BitmapCopyTo"); o.bytes(px.data(), px.size()); need(libCZI_ReleaseBitmap(out), "ReleaseBitmap"); } need(libCZI_ReleaseBitmap(b), "ReleaseBitmap"); need(libCZI_ReleaseSubBlock(sb), "ReleaseSubBlock"); if (ci.ptr_look_up_table) libCZI_Free((void*)ci.ptr_look_up_table); }
            need(libCZI_ReleaseDisplaySettings(ds), "ReleaseDisplaySettings"); }
        need(libCZI_ReleaseCziDocumentInfo(di), "ReleaseCziDocumentInfo"); }
    need(libCZI_ReleaseMetadataSegment(ms), "ReleaseMetadataSegment"); need(libCZI_ReleaseReader(rd), "ReleaseReader");
}
typedef void (*JobFn)(const Job&, Seen&);
static const JobFn kJobs[] = {job_xml, job_nodes, job_bitmaps, job_streams, job_edit, job_capidoc, job_text};
static const char* kJobNames[] = {"metadata queries", "metadata nodes", "bitmaps and utilities", "streams", "editing", "C interface (document information)", "texts"};
}

// C17: process-wide state of the library. The run starts with a library that was never used; the threads use it for the first time
// concurrently, and every thread only has objects of its own. The result of each thread is what it would be alone.
#include "sched/par.h"
#include "libCZI_StreamsLib.h"
#include "core/capiconv.h"
#include "sched/init_ops.h"
using namespace sim;

namespace {
struct Own { ImgDoc d; int doc_rounds = 0; };
void check_doc(ImgDoc& d, int salt, bool queries)
{
    SlowCfg sc; auto r = CreateCZIReader(); d.disk->trace = false; r->Open(std::make_shared<SchedStream>(d.disk, sc)); learn(d, r.get(), "own document");
    auto h = r->GetFileHeaderInfo(); if (memcmp(&h.fileGuid, &d.doc.guid, sizeof(GUID))) fail("interference", "the document carries another GUID");
    for (auto& e : d.index) { auto sb = r->ReadSubBlock(e.first); if (!sb) fail("interference", "a sub-block cannot be read"); auto er = data_diff(sb.get(), d.tiles[e.second].s); if (!er.empty()) fail("interference", "%s", er.c_str()); auto bm = sb->CreateBitmap(); check_tile_bitmap(d.tiles[e.second], bm.get(), "own document"); }
    verify_meta(r.get(), d.doc.meta, "own document"); verify_statistics(r->GetStatistics(), d.doc.subs, "own document");
    if (queries) { auto cache = CreateSubBlockCache(); Query q = gen_query(d); try { Image im = run_query(nullptr, r.get(), d, q, cache); check_image(d, q, im, "own document"); } catch (const std::out_of_range&) { if (!layer_absent(d, q)) throw; } }
    (void)salt;
}
void op_doc(int salt) { ImgCfg c; c.max_tiles = 3; c.max_side = 6; c.big = false; ImgDoc d = gen_image(c, salt); check_doc(d, salt, true); }
void op_compress(int salt)
{
    ImgTile t; static const PixelType pts[] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48}; t.s.pt = pts[C.draw(4)]; t.s.pw = t.s.lw = 1 + C.draw(12); t.s.ph = t.s.lh = 1 + C.draw(12); t.pix = payload((size_t)t.s.pw * t.s.ph * t.bp(), 900 + salt);
    int mode = 1 + C.draw(4); compress_tile(t, mode); auto type = t.s.comp == 5 ? ImageDecoderType::ZStd0 : t.s.comp == 6 ? ImageDecoderType::ZStd1 : ImageDecoderType::JPXR_JxrLib;
    if (t.s.comp == 0) fail("interference", "the compressor returned nothing");
    auto dec = GetDefaultSiteObject(SiteObjectType::Default)->GetDecoder(type, nullptr); if (!dec) fail("interference", "no decoder"); auto pt = t.s.pt; uint32_t w = t.s.pw, h = t.s.ph;
    auto bm = dec->Decode(t.s.data.data(), t.s.data.size(), &pt, &w, &h, nullptr); check_tile_bitmap(t, bm.get(), "own bitmap");
}
void op_builder(int salt)
{
    auto b = CreateMetadataBuilder(); char v[40]; snprintf(v, sizeof(v), "value-%d", salt); auto n = b->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Document/Name"); n->SetValue(v);
    GeneralDocumentInfo gi; gi.SetComment(L"c"); gi.SetRating(salt); MetadataUtils::WriteGeneralDocumentInfo(b.get(), gi);
    auto xml = b->GetXml(true); if (xml.find(v) == std::string::npos) fail("interference", "the metadata builder lost a value");
    auto b2 = CreateMetadataBuilderFromXml(xml); if (b2->GetXml(true) != xml) fail("interference", "metadata XML changes when it is parsed and written");
    char buf[20]; snprintf(buf, sizeof(buf), "%d", salt); auto rn = b2->GetRootNode()->GetChildNode("Metadata/Information/Document/Rating"); std::wstring w; if (!rn || !rn->TryGetValue(&w) || w != std::wstring(buf, buf + strlen(buf))) fail("interference", "the rating is wrong");
}
void op_info(int)
{
    StreamsFactory::Initialize(); int n = StreamsFactory::GetStreamClassesCount(); if (n < 1) fail("interference", "no stream classes");
    for (int i = 0; i < n; ++i) { StreamsFactory::StreamClassInfo ci; if (!StreamsFactory::GetStreamInfoForClass(i, ci) || ci.class_name.empty()) fail("interference", "stream class without name"); if (ci.get_build_info) ci.get_build_info(); if (ci.get_property) ci.get_property(StreamsFactory::kStreamClassInfoProperty_CurlHttp_CaInfo); }
    int cnt = 0; auto p = StreamsFactory::GetStreamPropertyBagPropertyInfo(&cnt); if (!p || cnt < 1 || p[cnt].property_name) fail("interference", "property list is not terminated");
    int ma = -1, mi = -1; GetLibCZIVersion(&ma, &mi); BuildInformation bi; GetLibCZIBuildInformation(bi); if (ma < 0 || mi < 0) fail("interference", "version");
}
void op_misc(int salt)
{
    Bytes b = payload(100 + salt, salt); uint8_t h1[16], h2[16]; Utils::CalcMd5SumHash(b.data(), b.size(), h1, 16); auto bm = GetDefaultSiteObject(SiteObjectType::Default)->CreateBitmap(PixelType::Gray8, 10, 10 + salt / 10, 0, 0, 0);
    Utils::CalcMd5SumHash(b.data(), b.size(), h2, 16); if (memcmp(h1, h2, 16)) fail("interference", "MD5 differs");
    auto c = CDimCoordinate::Parse("C1Z2T3"); if (Utils::DimCoordinateToString(&c) != "Z2C1T3") fail("interference", "coordinate text: %s", Utils::DimCoordinateToString(&c).c_str());
    auto s = Utils::IndexSetFromString(L"1,3-5"); if (!s->IsContained(4) || s->IsContained(2)) fail("interference", "index set");
    auto acc = Utils::Create8BitLookUpTableFromGamma(16, 0.1f, 0.9f, 1.5f), acc2 = Utils::Create8BitLookUpTableFromGamma(16, 0.1f, 0.9f, 1.5f); if (acc != acc2) fail("interference", "look-up table");
}
void op_readerwriter(int salt)
{
    auto d = std::make_shared<Disk>(); d->trace = false; auto rw = CreateCZIReaderWriter(); GUID g{0x77u + salt, 2, 2, {1, 2, 3, 4, 5, 6, 7, 8}}; rw->Create(std::make_shared<SimStream>(d), std::make_shared<CCziReaderWriterInfo>(g));
    Sub s; s.coord.Set(DimensionIndex::C, 0); s.pw = s.lw = 3; s.ph = s.lh = 2; s.mValid = true; s.m = salt; s.data = payload(6, salt); deliver(s, kMemPtr, [&](auto& x) { rw->SyncAddSubBlock(x); }); rw->Close();
    auto r = CreateCZIReader(); r->Open(std::make_shared<SimStream>(d)); std::map<int, Sub> want; want[1] = s; verify_subs(r.get(), want, {}, "own reader-writer document");
}
// a document whose GUID the library chooses: valid, and different for each
std::set<std::string>* g_guids;
void op_newguid(int salt)
{
    auto d = std::make_shared<Disk>(); d->trace = false; Sub s; s.coord.Set(DimensionIndex::C, 0); s.pw = s.lw = 2; s.ph = s.lh = 2; s.data = payload(4, salt);
    if (C.flip(1, 2)) { auto w = CreateCZIWriter(); w->Create(std::make_shared<SimStream>(d), std::make_shared<CCziWriterInfo>(GUID{})); deliver(s, kMemPtr, [&](auto& x) { w->SyncAddSubBlock(x); }); w->Close(); }
    else { auto w = CreateCZIReaderWriter(); w->Create(std::make_shared<SimStream>(d), std::make_shared<CCziReaderWriterInfo>(GUID{})); deliver(s, kMemPtr, [&](auto& x) { w->SyncAddSubBlock(x); }); w->Close(); }
    auto r = CreateCZIReader(); r->Open(std::make_shared<SimStream>(d)); auto g = r->GetFileHeaderInfo().fileGuid; GUID zero{}; Quiet q;
    if (!memcmp(&g, &zero, 16) || !g_guids->insert(std::string((const char*)&g, 16)).second) fail("interference", "a new document got a GUID that is null or was given to another one");
}
// document information and display settings of a document of its own, and a composition with them
void op_display(int salt)
{
    auto d = std::make_shared<Disk>(); d->trace = false; char xml[1600]; int lo = salt % 3;
    snprintf(xml, sizeof(xml), "<ImageDocument><Metadata><Information><Image><SizeX>%d</SizeX><SizeY>7</SizeY><SizeC>2</SizeC><PixelType>Gray8</PixelType><Dimensions><Channels><Channel Id=\"Channel:0\" Name=\"A%d\"><PixelType>Gray8</PixelType></Channel><Channel Id=\"Channel:1\" Name=\"B%d\"><PixelType>Gray8</PixelType></Channel></Channels></Dimensions></Image><Document><Name>N%d</Name><Rating>%d</Rating></Document></Information>"
        "<Scaling><Items><Distance Id=\"X\"><Value>%d.5</Value></Distance></Items></Scaling><DisplaySetting><Channels><Channel Id=\"Channel:0\"><Low>0</Low><High>1</High><ColorMode>Color</ColorMode><Color>#FFFF0000</Color><Weight>1</Weight></Channel><Channel Id=\"Channel:1\"><Low>0</Low><High>1</High><ColorMode>Color</ColorMode><Color>#FF00FF00</Color><Weight>1</Weight>%s</Channel></Channels></DisplaySetting></Metadata></ImageDocument>",
        100 + salt, salt, salt, salt, salt, salt, lo ? "" : "<Mode>Gamma</Mode><Gamma>1.5</Gamma>");
    { auto w = CreateCZIReaderWriter(); w->Create(std::make_shared<SimStream>(d), std::make_shared<CCziReaderWriterInfo>(GUID{1u + salt, 1, 1, {1, 1, 1, 1, 1, 1, 1, 1}})); WriteMetadataInfo mi; mi.Clear(); mi.szMetadata = xml; mi.szMetadataSize = strlen(xml); w->SyncWriteMetadata(mi); w->Close(); }
    auto r = CreateCZIReader(); r->Open(std::make_shared<SimStream>(d)); auto md = r->ReadMetadataSegment()->CreateMetaFromMetadataSegment(); if (!md->IsXmlValid()) fail("interference", "the metadata is not valid"); auto di = md->GetDocumentInfo();
    auto gi = di->GetGeneralDocumentInfo(); auto sc = di->GetScalingInfo(); wchar_t nm[20]; swprintf(nm, 20, L"N%d", salt); if (!gi.name_valid || gi.name != nm || !gi.rating_valid || gi.rating != salt || std::fabs(sc.scaleX - (salt + 0.5)) > 1e-9) fail("interference", "the document information differs from the metadata");
    auto ci = di->GetDimensionChannelsInfo(); std::wstring cn, want = L"B" + std::to_wstring(salt); { if (!ci || ci->GetChannelCount() != 2 || !ci->GetChannel(1)->TryGetAttributeName(&cn) || cn != want) fail("interference", "the channel information differs from the metadata"); }
    auto ds = di->GetDisplaySettings(); CDisplaySettingsHelper h; h.Initialize(ds.get(), [&](int) { return PixelType::Gray8; }); int n = h.GetActiveChannelsCount(); if (n != 2) fail("interference", "%d active channels", n);
    std::shared_ptr<IBitmapData> bm[2]; Bytes px[2]; for (int k = 0; k < 2; ++k) { px[k] = payload(30, salt * 2 + k); bm[k] = GetDefaultSiteObject(SiteObjectType::Default)->CreateBitmap(PixelType::Gray8, 6, 5, 0, 0, 0); ScopedBitmapLockerSP l(bm[k]); for (int y = 0; y < 5; ++y) memcpy((uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, &px[k][y * 6], 6); }
    IBitmapData* src[2] = {bm[0].get(), bm[1].get()}; auto out = Compositors::ComposeMultiChannel_Bgr24(2, src, h.GetChannelInfosArray()), out2 = Compositors::ComposeMultiChannel_Bgr24(2, src, h.GetChannelInfosArray()); Image a = grab(out.get()), b = grab(out2.get()); if (a.px != b.px) fail("interference", "two equal compositions differ");
    for (int i = 0; i < 30; ++i) if (std::abs((int)a.px[3 * i + 2] - px[0][i]) > 1 || (lo && std::abs((int)a.px[3 * i + 1] - px[1][i]) > 1) || a.px[3 * i] > 1) fail("interference", "pixel %d of a composition is (%d,%d,%d) for channel values %d and %d", i, a.px[3 * i], a.px[3 * i + 1], a.px[3 * i + 2], px[0][i], px[1][i]);
}
// the C interface: every handle belongs to the thread, the stream is implemented by the thread
struct CExt { std::shared_ptr<Disk> d; int closes = 0; };
int32_t cread(std::uintptr_t a, std::uintptr_t b, std::uint64_t off, void* pv, std::uint64_t size, std::uint64_t* n, ExternalStreamErrorInfoInterop*)
{
    yield_point(); auto e = (CExt*)a; if (b != (a ^ 0x55)) fail("interference", "a stream callback was invoked with other user parameters than given"); if (e->closes) fail("interference", "a stream callback was invoked after the stream was closed");
    uint64_t got = 0; Bytes tmp; { Quiet q; tmp.resize(size); e->d->read(off, tmp.data(), size, &got); } if (got) memcpy(pv, tmp.data(), got); { Quiet q; Bytes().swap(tmp); } if (n) *n = got; yield_point(); return 0;
}
int32_t cwrite(std::uintptr_t a, std::uintptr_t b, std::uint64_t off, const void* pv, std::uint64_t size, std::uint64_t* n, ExternalStreamErrorInfoInterop*)
{
    yield_point(); auto e = (CExt*)a; if (b != (a ^ 0x55)) fail("interference", "a stream callback was invoked with other user parameters than given"); if (e->closes) fail("interference", "a stream callback was invoked after the stream was closed");
    Bytes tmp; { Quiet q; tmp.resize(size); } if (size) memcpy(tmp.data(), pv, size); uint64_t got = 0; { Quiet q; e->d->write(off, tmp.data(), size, &got); Bytes().swap(tmp); } if (n) *n = got; return 0;
}
void cclose(std::uintptr_t a, std::uintptr_t) { ++((CExt*)a)->closes; }
void cok(LibCZIApiErrorCode rc, const char* what) { if (rc != LibCZIApi_ErrorCode_OK) fail("interference", "%s of the C interface failed with code %d", what, (int)rc); }
Image cimage(BitmapObjectHandle b)
{
    BitmapInfoInterop bi; cok(libCZI_BitmapGetInfo(b, &bi), "BitmapGetInfo"); Image im; im.w = bi.width; im.h = bi.height; im.pt = (PixelType)bi.pixelType; im.bp = bpp(im.pt); im.px.resize((size_t)im.w * im.h * im.bp);
    cok(libCZI_BitmapCopyTo(b, bi.width, bi.height, bi.pixelType, bi.width * im.bp, im.px.data()), "BitmapCopyTo"); return im;
}
void op_capi(int salt)
{
    ImgCfg c; c.max_tiles = 3; c.max_side = 6; c.big = false; ImgDoc d = gen_image(c, salt); d.disk->trace = false; bool write = C.flip(1, 2); for (auto& t : d.tiles) if (t.misfit || (t.s.comp == 0 && t.s.data != t.pix)) write = false;
    if (write) {   // the same document, written through the C interface
        auto nd = std::make_shared<Disk>(); nd->trace = false; CExt e; e.d = nd; ExternalOutputStreamStructInterop x; memset(&x, 0, sizeof(x)); x.opaque_handle1 = (std::uintptr_t)&e; x.opaque_handle2 = (std::uintptr_t)&e ^ 0x55; x.write_function = cwrite; x.close_function = cclose;
        OutputStreamObjectHandle out; CziWriterObjectHandle w; cok(libCZI_CreateOutputStreamFromExternal(&x, &out), "CreateOutputStreamFromExternal"); cok(libCZI_CreateWriter(&w, "{\"allow_duplicate_subblocks\":true}"), "CreateWriter");
        char par[120]; snprintf(par, sizeof(par), "{\"file_guid\" : \"{%08X-0102-0304-0506-0708090A0B0C}\"}", 0x1000u + salt); cok(libCZI_WriterCreate(w, out, par), "WriterCreate"); cok(libCZI_ReleaseOutputStream(out), "ReleaseOutputStream");
        for (auto& p : d.doc.subs) {
            auto& u = p.second; AddSubBlockInfoInterop i; memset(&i, 0, sizeof(i)); i.coordinate = capi::coord_of(u.coord); i.m_index_valid = u.mValid; i.m_index = u.m; i.x = u.x; i.y = u.y; i.logical_width = u.lw; i.logical_height = u.lh; i.physical_width = u.pw; i.physical_height = u.ph; i.pixel_type = (int32_t)u.pt; i.compression_mode_raw = u.comp; i.stride = u.pw * bpp(u.pt);
            i.data = u.data.data(); i.size_data = (uint32_t)u.data.size(); i.metadata = u.meta.data(); i.size_metadata = (uint32_t)u.meta.size(); i.attachment = u.att.data(); i.size_attachment = (uint32_t)u.att.size(); cok(libCZI_WriterAddSubBlock(w, &i), "WriterAddSubBlock");
        }
        if (d.doc.meta.present) { WriteMetadataInfoInterop m; memset(&m, 0, sizeof(m)); m.metadata = d.doc.meta.xml.data(); m.size_metadata = (uint32_t)d.doc.meta.xml.size(); cok(libCZI_WriterWriteMetadata(w, &m), "WriterWriteMetadata"); }
        cok(libCZI_WriterClose(w), "WriterClose"); cok(libCZI_ReleaseWriter(w), "ReleaseWriter"); if (e.closes != 1) fail("interference", "the close function of the output stream was called %d times", e.closes);
        d.disk = nd; GUID g{0x1000u + salt, 0x0102, 0x0304, {5, 6, 7, 8, 9, 10, 11, 12}}; d.doc.guid = g; d.doc.atts.clear();
    }
    CExt e; e.d = d.disk; ExternalInputStreamStructInterop x; memset(&x, 0, sizeof(x)); x.opaque_handle1 = (std::uintptr_t)&e; x.opaque_handle2 = (std::uintptr_t)&e ^ 0x55; x.read_function = cread; x.close_function = cclose;
    InputStreamObjectHandle in; CziReaderObjectHandle r; cok(libCZI_CreateInputStreamFromExternal(&x, &in), "CreateInputStreamFromExternal"); cok(libCZI_CreateReader(&r), "CreateReader"); ReaderOpenInfoInterop oi; memset(&oi, 0, sizeof(oi)); oi.streamObject = in; cok(libCZI_ReaderOpen(r, &oi), "ReaderOpen"); cok(libCZI_ReleaseInputStream(in), "ReleaseInputStream");
    FileHeaderInfoInterop fh; cok(libCZI_ReaderGetFileHeaderInfo(r, &fh), "ReaderGetFileHeaderInfo"); if (memcmp(fh.guid, &d.doc.guid, 16)) fail("interference", "the document carries another GUID");
    SubBlockStatisticsInterop st; cok(libCZI_ReaderGetStatisticsSimple(r, &st), "ReaderGetStatisticsSimple"); if (st.sub_block_count != (int)d.doc.subs.size()) fail("interference", "the statistics report %d sub-blocks, expected %zu", (int)st.sub_block_count, d.doc.subs.size());
    std::set<int> seen; d.index.clear();
    for (int k = 0; k < (int)d.doc.subs.size(); ++k) {
        SubBlockInfoInterop info; cok(libCZI_TryGetSubBlockInfoForIndex(r, k, &info), "TryGetSubBlockInfoForIndex"); int id = 0; for (auto& p : d.doc.subs) if (!seen.count(p.first) && capi::sub_diff(info, p.second).empty()) { id = p.first; break; } if (!id) fail("interference", "sub-block %d is none of those stored", k);
        SubBlockObjectHandle sb; cok(libCZI_ReaderReadSubBlock(r, k, &sb), "ReaderReadSubBlock"); if (sb == kInvalidObjectHandle) fail("interference", "sub-block %d cannot be read", k);
        Bytes raw; { uint64_t n = 0; cok(libCZI_SubBlockGetRawData(sb, 0, &n, nullptr), "SubBlockGetRawData"); raw.resize(n + 1); uint64_t m = n; cok(libCZI_SubBlockGetRawData(sb, 0, &m, raw.data()), "SubBlockGetRawData"); raw.resize(n); }
        int best = 0; for (auto& p : d.doc.subs) if (!seen.count(p.first) && capi::sub_diff(info, p.second).empty() && p.second.data == raw) { best = p.first; break; } if (!best) fail("interference", "the pixel data of sub-block %d (%zu bytes) is not what was stored (%s, %zu bytes)", k, raw.size(), sstr(d.doc.subs.at(id)).c_str(), d.doc.subs.at(id).data.size()); seen.insert(best); d.index[k] = d.by_id.at(best);
        BitmapObjectHandle b; cok(libCZI_SubBlockCreateBitmap(sb, &b), "SubBlockCreateBitmap"); Image im = cimage(b); auto& t = d.tiles[d.by_id.at(best)]; if (im.pt != t.s.pt || im.w != t.s.pw || im.h != t.s.ph || im.px != t.pix) fail("interference", "the bitmap of sub-block %d differs from the pixels stored", k);
        cok(libCZI_ReleaseBitmap(b), "ReleaseBitmap"); cok(libCZI_ReleaseSubBlock(sb), "ReleaseSubBlock");
    }
    if (d.doc.meta.present) {
        MetadataSegmentObjectHandle seg; cok(libCZI_ReaderGetMetadataSegment(r, &seg), "ReaderGetMetadataSegment"); MetadataAsXmlInterop xm; cok(libCZI_MetadataSegmentGetMetadataAsXml(seg, &xm), "MetadataSegmentGetMetadataAsXml");
        if (xm.size != d.doc.meta.xml.size() || memcmp(xm.data, d.doc.meta.xml.data(), xm.size)) fail("interference", "the metadata differs from what was stored"); libCZI_Free(xm.data); cok(libCZI_ReleaseMetadataSegment(seg), "ReleaseMetadataSegment");
    }
    char* js = nullptr; cok(libCZI_ReaderGetPyramidStatistics(r, &js), "ReaderGetPyramidStatistics"); if (!js || strlen(js) < 2) fail("interference", "no pyramid statistics"); libCZI_Free(js);
    if (!d.tiles.empty()) {
        Query q = gen_query(d); for (int i = 0; q.kind != 1 && i < 20; ++i) q = gen_query(d);
        if (q.kind == 1) {
            q.scenes.reset(); q.cache = q.dest = q.explicitPt = false; q.want = PixelType::Invalid; q.defaults = false; IntRectInterop roi{q.roi.x, q.roi.y, q.roi.w, q.roi.h}; auto co = capi::coord_of(plane_of(d, q)); AccessorOptionsInterop ao; ao.back_ground_color_r = q.bgcolor().r; ao.back_ground_color_g = q.bgcolor().g; ao.back_ground_color_b = q.bgcolor().b; ao.sort_by_m = q.sortByM; ao.use_visibility_check_optimization = q.vis; ao.additional_parameters = q.mask ? "{\"mask_aware\":true}" : nullptr;
            ObjectHandle acc, b; cok(libCZI_CreateSingleChannelTileAccessor(r, &acc), "CreateSingleChannelTileAccessor"); cok(libCZI_SingleChannelTileAccessorGet(acc, &co, &roi, q.zoom, &ao, &b), "SingleChannelTileAccessorGet"); Image im = cimage(b); check_image(d, q, im, "own document (C interface)"); cok(libCZI_ReleaseBitmap(b), "ReleaseBitmap"); cok(libCZI_ReleaseCreateSingleChannelTileAccessor(acc), "ReleaseCreateSingleChannelTileAccessor");
        }
    }
    cok(libCZI_ReleaseReader(r), "ReleaseReader"); if (e.closes != 1) fail("interference", "the close function of the input stream was called %d times", e.closes);
}
typedef void (*OpFn)(int);
const OpFn kOps[] = {op_compress, op_doc, op_builder, op_info, op_misc, op_readerwriter, op_capi, op_newguid, op_display};
const char* kOpNames[] = {"compress+decode", "document", "metadata builder", "information", "utilities", "reader-writer", "C interface", "new GUID", "display settings"};
}
SCENARIO(C17, first_use, 1)
{
    int nt = 2 + C.draw(3); bool same = C.flip(1, 2); int op0 = C.pick({4, 2, 1, 1, 1, 1, 2, 1, 2}); std::vector<std::vector<int>> prog(nt); bool warm = C.flip(1, 5);
    for (auto& p : prog) { int n = 1 + C.draw(3); for (int i = 0; i < n; ++i) p.push_back(same ? op0 : (int)C.pick({4, 2, 1, 1, 1, 1, 2, 1, 2})); }
    std::set<std::string> guids; g_guids = &guids;
    if (warm) kOps[op0](7);
    uint64_t overlap = 0; int running = 0; std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { for (size_t i = 0; i < prog[t].size(); ++i) { { Quiet q; if (++running > 1) ++overlap; ev("t%d %s", t, kOpNames[prog[t][i]]); } kOps[prog[t][i]](10 * t + (int)i); Quiet q; --running; ev("t%d done", t); } });
    par_run(bodies); if (overlap) nontrivial(); count("overlapping_operations", overlap);
    sample("%d threads use the library for the first time%s: %s...", nt, warm ? " (one kind used before)" : "", kOpNames[prog[0][0]]);
}

// The same for the rest of the library: here the result of every operation is compared with that of the operation executed alone afterwards.
SCENARIO(C17, alone, 1)
{
    int nt = 2 + C.draw(3); bool same = C.flip(2, 3); int op0 = C.pick({3, 2, 3, 2, 2, 2, 2}); std::vector<std::vector<Job>> prog(nt); int file = 0; N.resource = payload(100 + C.draw(300), 3);
    for (auto& p : prog) { int n = 1 + C.draw(2); for (int i = 0; i < n; ++i) { Job j; j.op = same ? op0 : (int)C.pick({3, 2, 3, 2, 2, 2, 2}); j.salt = 10 * (int)(&p - &prog[0]) + i; j.seed = ((uint64_t)C.draw(1u << 30) << 20) ^ C.draw(1u << 20); j.file = file++; if (j.op == 0 || j.op == 5) { XmlGen x; x.limit = 4000; x.leaf_num = 1 + C.draw(2); x.leaf_den = 6; x.tame = true; j.xml = x.gen(XmlGen::grammar()); } p.push_back(j); } }
    if (C.flip(1, 5)) { Seen o; Job j = prog[0][0]; kJobs[j.op](j, o); }
    std::vector<std::vector<std::pair<uint64_t, int>>> res(nt); uint64_t overlap = 0; int running = 0; std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) { res[t].resize(prog[t].size()); bodies.push_back([&, t] { for (size_t i = 0; i < prog[t].size(); ++i) { { Quiet q; if (++running > 1) ++overlap; ev("t%d %s", t, kJobNames[prog[t][i].op]); } { Seen o; kJobs[prog[t][i].op](prog[t][i], o); res[t][i] = {o.h, o.n}; } Quiet q; --running; ev("t%d done", t); } }); }
    par_run(bodies);
    for (int t = 0; t < nt; ++t) for (size_t i = 0; i < prog[t].size(); ++i) { Seen o; kJobs[prog[t][i].op](prog[t][i], o); if (o.h != res[t][i].first || o.n != res[t][i].second) fail("interference", "%s: the results differ from those of the same operations executed alone (%d and %d values)", kJobNames[prog[t][i].op], res[t][i].second, o.n); }
    if (!N.bad.empty()) fail("curl-misuse", "%s", N.bad.c_str()); if (N.live_handles || N.live_urls) fail("handle-leak", "%d curl handles and %d URL handles are left", N.live_handles, N.live_urls); if (F.open_count()) fail("descriptor-leak", "a descriptor is still open");
    if (overlap) nontrivial(); count("overlapping_operations", overlap); sample("%d threads, %s..., compared with the same operations alone", nt, kJobNames[prog[0][0].op]);
}

// Image documents (tiles that decode to pixels), accessor queries and an independent reference compositor.
// Only public API of the library is used; usable by all variants.
#pragma once
#include "core/doc.h"
#include "libCZI_compress.h"

namespace sim {

struct ImgTile {
    Sub s; Bytes pix;                       // pix: tightly packed pixels
    int layer = 0, factor = 1; int c = 0, scene = -1, z = 0;
    bool mask = false; int mw = 0, mh = 0; std::vector<uint8_t> mbits;   // one byte per mask pixel
    struct Chunk { Bytes guid; uint32_t offset, size; }; std::vector<Chunk> chunks; uint32_t mstride = 0;   // chunks of the attachment
    std::map<std::string, std::string> tags;   // of the sub-block metadata
    int misfit = 0;   // the payload does not fit the extents: 1 it must be refused if so asked, 2 it may be
    uint32_t bp() const { return bpp(s.pt); }
    const uint8_t* at(int x, int y) const { return pix.data() + ((size_t)y * s.pw + x) * bp(); }
    bool draws(int x, int y, bool maskAware) const { if (!maskAware || !mask) return true; return x < mw && y < mh && mbits[(size_t)y * mw + x]; }
};
struct ImgDoc {
    Doc doc; std::shared_ptr<Disk> disk; std::vector<ImgTile> tiles; std::map<int, int> by_id;   // model id -> tile
    int nc = 1, nz = 1, nscene = 0; bool haveZ = false; DimensionIndex zdim = DimensionIndex::Z; int z0 = 0; std::vector<std::pair<DimensionIndex, int>> other;   /* second dimension of the planes; dimensions in which all are the same */ std::vector<PixelType> cpt; int minif = 2; int extent = 32;
    std::map<int, int> index;   // sub-block index of a reader -> tile (filled by learn())
    bool damaged = false;       // the file on disk is not what the model says
    bool defpix = false;        // the reader was opened with the pixel coordinate system as default
    uint64_t tag = 1000; int ext = 8; bool compress = false, pyr = false, masks = false, neg = false, withM = true, pyrNoM = false; int mnext = 0; bool big = false; int ox = 0, oy = 0;   // large tiles; the whole document shifted
    bool origin(int& x, int& y) const { bool any = false; for (auto& t : tiles) if (t.layer == 0) { x = any ? std::min(x, t.s.x) : t.s.x; y = any ? std::min(y, t.s.y) : t.s.y; any = true; } return any; }
};
struct ImgCfg { int max_tiles = 10; int max_side = 14; bool masks = true, compress = true, pyramid = true, scenes = true; bool attachments = true; bool many = true, big = true; };

inline void put32(Bytes& b, uint32_t v) { for (int i = 0; i < 4; ++i) b.push_back((uint8_t)(v >> (8 * i))); }
inline void add_chunk(ImgTile& t, const Bytes& guid, const Bytes& b)
{
    auto& o = t.s.att; o.insert(o.end(), guid.begin(), guid.end()); put32(o, (uint32_t)b.size()); t.chunks.push_back({guid, (uint32_t)o.size(), (uint32_t)b.size()}); o.insert(o.end(), b.begin(), b.end());
}
inline void add_masks(ImgTile& t, uint64_t tag)
{
    // chunk container with a valid-pixel-mask chunk, chunks of other kinds before and after it
    static const uint8_t guid[16] = {0x67, 0xEA, 0xE3, 0xCB, 0xFC, 0x5B, 0x2B, 0x49, 0xA1, 0x6A, 0xEC, 0xE3, 0x78, 0x03, 0x14, 0x48};
    auto other = [&] { while (C.flip(1, 6)) { Bytes g = payload(16, tag++); g[0] |= 0x80; add_chunk(t, g, payload(1 + C.draw(C.flip(1, 3) ? 2 : 40), tag++)); } };
    other(); uint32_t least = (t.mw + 7) / 8; t.mstride = C.flip(1, 3) ? least + C.draw(6) : least; Bytes b;
    put32(b, t.mw); put32(b, t.mh); put32(b, 0); put32(b, t.mstride); bool pad = !C.flip(1, 4);
    for (int y = 0; y < t.mh; ++y) for (uint32_t k = 0; k < t.mstride; ++k) { if (k >= least) { if (y + 1 < t.mh || pad) b.push_back(0xA5); continue; } uint8_t v = 0; for (int i = 0; i < 8; ++i) { int x = (int)k * 8 + i; if (x < t.mw ? t.mbits[(size_t)y * t.mw + x] : (y & 1)) v |= 0x80 >> i; } b.push_back(v); }
    add_chunk(t, Bytes(guid, guid + 16), b); other(); if (C.flip(1, 6)) { Bytes x = payload(C.draw(20), tag); t.s.att.insert(t.s.att.end(), x.begin(), x.end()); }
}
inline void add_submeta(ImgTile& t, bool chunks)
{
    std::string x, f; int n = C.draw(3); static const char* tn[] = {"A", "StageXPosition", "StageYPosition", "FocusPosition", "AcquisitionTime"};
    for (int i = 0; i < 5; ++i) if (n && C.flip(2, 5)) { char b[40]; int k = C.draw(3); if (k == 0) snprintf(b, sizeof(b), "%d.%02u", (int)C.draw(9000) - 4500, C.draw(100)); else if (k == 1) snprintf(b, sizeof(b), "%u", C.draw(70000)); else snprintf(b, sizeof(b), "abc%u", C.draw(10)); t.tags[tn[i]] = b; x += std::string("<") + tn[i] + ">" + b + "</" + tn[i] + ">"; }
    if (n) x = "<Tags>" + x + "</Tags>"; if (chunks) f = "<AttachmentSchema><DataFormat>CHUNKCONTAINER</DataFormat></AttachmentSchema>"; x = "<METADATA>" + (C.flip(1, 2) ? x + f : f + x) + "</METADATA>"; t.s.meta.assign(x.begin(), x.end());
}

inline void compress_tile(ImgTile& t, int mode)
{
    std::shared_ptr<IMemoryBlock> m; uint32_t st = t.s.pw * t.bp();
    if (mode == 1) { m = ZstdCompress::CompressZStd0Alloc(t.s.pw, t.s.ph, st, t.s.pt, t.pix.data(), nullptr); t.s.comp = 5; }
    else if (mode == 2) { m = ZstdCompress::CompressZStd1Alloc(t.s.pw, t.s.ph, st, t.s.pt, t.pix.data(), nullptr); t.s.comp = 6; }
    else if (mode == 3) { CompressParametersOnMap p; p.map[(int)CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = CompressParameter(true); m = ZstdCompress::CompressZStd1Alloc(t.s.pw, t.s.ph, st, t.s.pt, t.pix.data(), &p); t.s.comp = 6; }
    else if (mode == 4 && (t.s.pt == PixelType::Gray8 || t.s.pt == PixelType::Gray16 || t.s.pt == PixelType::Bgr24 || t.s.pt == PixelType::Bgr48)) {
        CompressParametersOnMap p; p.map[(int)CompressionParameterKey::JXRLIB_QUALITY] = CompressParameter((uint32_t)1000);   // loss-less
        m = JxrLibCompress::Compress(t.s.pt, t.s.pw, t.s.ph, st, t.pix.data(), &p); t.s.comp = 4;
    }
    if (m) t.s.data.assign((const uint8_t*)m->GetPtr(), (const uint8_t*)m->GetPtr() + m->GetSizeOfData()); else { t.s.comp = 0; t.s.data = t.pix; }
}
// payload that does not fit the extents of the tile: what is missing is zero, what is too much is left out (the default of CreateBitmap)
inline void misfit_tile(ImgTile& t, uint64_t tag)
{
    const size_t want = t.pix.size(); int mode = C.pick({3, 2, 2, 3, 2}); bool jxr = t.s.pt == PixelType::Gray8 || t.s.pt == PixelType::Gray16 || t.s.pt == PixelType::Bgr24 || t.s.pt == PixelType::Bgr48; if (mode == 4 && !jxr) mode = 3;
    if (mode == 4) {   // another width and height: cropped or padded in both directions
        int w = std::max(1, t.s.pw + (int)C.draw(9) - 4), h = std::max(1, t.s.ph + (int)C.draw(9) - 4); Bytes src = payload((size_t)w * h * t.bp(), tag);
        CompressParametersOnMap p; p.map[(int)CompressionParameterKey::JXRLIB_QUALITY] = CompressParameter((uint32_t)1000);
        auto m = JxrLibCompress::Compress(t.s.pt, w, h, w * t.bp(), src.data(), &p); t.s.comp = 4; t.misfit = w != t.s.pw || h != t.s.ph; t.s.data.assign((const uint8_t*)m->GetPtr(), (const uint8_t*)m->GetPtr() + m->GetSizeOfData());
        for (int y = 0; y < t.s.ph; ++y) for (int x = 0; x < t.s.pw; ++x) for (uint32_t k = 0; k < t.bp(); ++k) t.pix[((size_t)y * t.s.pw + x) * t.bp() + k] = x < w && y < h ? src[((size_t)y * w + x) * t.bp() + k] : 0;
        return;
    }
    size_t have = C.flip(1, 2) ? 1 + C.draw((uint32_t)want) : want + C.draw(60); if (t.s.pt == PixelType::Gray32Float) have = (have + 3) / 4 * 4;   // no arbitrary bit patterns as floats
    Bytes src = payload(have, tag), lin = src; bool pack = mode == 3 && (t.s.pt == PixelType::Gray16 || t.s.pt == PixelType::Bgr48);
    if (t.s.pt == PixelType::Gray32Float) { for (size_t k = 0; k + 4 <= have; k += 4) { float f = (float)src[k] + 0.5f; memcpy(src.data() + k, &f, 4); } lin = src; }
    if (pack) { lin.assign(have / 2 * 2, 0); for (size_t k = 0; k < have / 2; ++k) { lin[2 * k] = src[k]; lin[2 * k + 1] = src[k + have / 2]; } }
    lin.resize(want, 0); t.pix = lin; t.misfit = have == want ? 0 : mode == 0 && have > want ? 2 : 1;
    if (mode == 0) { t.s.comp = 0; t.s.data = src; return; }
    auto m = ZstdCompress::CompressZStd0Alloc((uint32_t)have, 1, (uint32_t)have, PixelType::Gray8, src.data(), nullptr); t.s.comp = mode == 1 ? 5 : 6; t.s.data.clear();
    if (mode == 2 || (mode == 3 && !pack)) { if (C.flip(1, 2)) t.s.data = {1}; else t.s.data = {3, 1, 0}; } if (pack) t.s.data = {3, 1, 1};
    t.s.data.insert(t.s.data.end(), (const uint8_t*)m->GetPtr(), (const uint8_t*)m->GetPtr() + m->GetSizeOfData());
}
// one more tile for the document (not yet part of it)
inline ImgTile gen_tile(ImgDoc& d, const ImgCfg& cfg)
{
    ImgTile t; t.c = C.draw(d.nc); t.z = d.z0 + (int)C.draw(d.nz); t.scene = d.nscene ? (int)C.draw(d.nscene) : -1;
    t.s.coord.Set(DimensionIndex::C, t.c); if (d.haveZ) t.s.coord.Set(d.zdim, t.z); for (auto& o : d.other) t.s.coord.Set(o.first, o.second); if (t.scene >= 0) t.s.coord.Set(DimensionIndex::S, t.scene);
    t.layer = d.pyr && C.flip(1, 3) ? 1 + C.draw(2) : 0; t.factor = 1; for (int k = 0; k < t.layer; ++k) t.factor *= d.minif;
    t.s.pt = d.cpt[t.c]; t.s.pw = 1 + C.draw(cfg.max_side); t.s.ph = 1 + C.draw(cfg.max_side); if (d.big && C.flip(1, 3)) (C.flip(1, 2) ? t.s.pw : t.s.ph) += 50 + C.draw(300); t.s.lw = t.s.pw * t.factor; t.s.lh = t.s.ph * t.factor;
    int grid = d.minif * d.minif; t.s.x = (int)C.draw(d.ext); t.s.y = (int)C.draw(d.ext); if (d.neg) { t.s.x -= d.ext / 2; t.s.y -= d.ext / 2; }
    if (t.layer) { t.s.x = t.s.x / grid * grid; t.s.y = t.s.y / grid * grid; t.s.pyr = d.minif == 2 ? SubBlockPyramidType::SingleSubBlock : SubBlockPyramidType::MultiSubBlock; }
    t.s.x += d.ox; t.s.y += d.oy;
    // distinct m-index per document: the z-order is defined
    if (d.withM && !(t.layer && d.pyrNoM)) { t.s.mValid = true; t.s.m = d.mnext; d.mnext += 1 + C.draw(3); }
    t.pix = payload((size_t)t.s.pw * t.s.ph * t.bp(), d.tag++);
    if (t.s.pt == PixelType::Gray32Float) for (size_t k = 0; k + 4 <= t.pix.size(); k += 4) { float f = (float)(t.pix[k] | t.pix[k + 1] << 8) + 0.25f; memcpy(t.pix.data() + k, &f, 4); }
    if (C.flip(1, 10)) std::fill(t.pix.begin(), t.pix.end(), (uint8_t)0);
    if (d.compress && C.flip(1, 10)) misfit_tile(t, d.tag++); else
    compress_tile(t, d.compress ? C.pick({4, 2, 2, 2, 2}) : 0);
    if (d.masks && C.flip(1, 2)) {
        t.mask = true; t.mw = t.s.pw; t.mh = t.s.ph; if (C.flip(1, 6)) { t.mw = std::max(1, t.mw - (int)C.draw(3)); t.mh = std::max(1, t.mh - (int)C.draw(3)); }
        Bytes r = payload((size_t)t.mw * t.mh, d.tag++); t.mbits.resize(r.size()); uint32_t style = C.draw(3); for (size_t k = 0; k < r.size(); ++k) t.mbits[k] = style == 0 ? (r[k] & 1) : style == 1 ? (r[k] > 230) : ((int)(k % t.mw) < t.mw / 2);
        add_submeta(t, true); t.s.att.clear(); t.chunks.clear(); add_masks(t, d.tag * 16);
    }
    else if (C.flip(1, 4)) { add_submeta(t, false); if (C.flip(1, 2)) t.s.att = payload(C.draw(50), d.tag++); }
    return t;
}
inline ImgDoc gen_image(const ImgCfg& cfg, uint32_t salt = 0)
{
    ImgDoc d; d.disk = std::make_shared<Disk>(); d.disk->trace = false; d.tag = 1000 + salt * 77;
    d.nc = 1 + C.draw(2); d.haveZ = C.flip(1, 4); d.nz = d.haveZ ? 1 + C.draw(2) : 1; d.nscene = cfg.scenes && C.flip(1, 3) ? 1 + C.draw(3) : 0;
    static const DimensionIndex ds[] = {DimensionIndex::Z, DimensionIndex::T, DimensionIndex::R, DimensionIndex::I, DimensionIndex::H, DimensionIndex::V, DimensionIndex::B};
    if (d.haveZ) { d.zdim = ds[C.pick({6, 2, 1, 1, 2, 1, 2})]; if (C.flip(1, 4)) d.z0 = (int)C.draw(7) - 3; }
    if (C.flip(1, 5)) for (auto x : ds) if (!(d.haveZ && x == d.zdim) && C.flip(1, 3)) d.other.push_back({x, (int)C.draw(4) - (C.flip(1, 4) ? 2 : 0)});
    static const PixelType pts[] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float};
    for (int i = 0; i < d.nc; ++i) d.cpt.push_back(pts[C.pick({3, 3, 2, 1, 1})]);
    d.minif = C.flip(1, 3) ? 3 : 2;
    d.compress = cfg.compress && C.flip(2, 3); d.pyr = cfg.pyramid && C.flip(1, 2); d.masks = cfg.masks && C.flip(1, 3); d.neg = C.flip(1, 5); d.withM = !C.flip(1, 12); d.pyrNoM = C.flip(1, 3); if (C.flip(1, 6)) d.mnext = -(int)C.draw(12); // m-indices may be negative
    bool withM = d.withM, via_rw = C.flip(1, 4); int n = 1 + (int)C.draw(cfg.max_tiles); if (cfg.many && C.flip(1, 10)) n = 17 + (int)C.draw(30); d.ext = 8 + C.draw(d.extent - 8);
    d.big = cfg.big && C.flip(1, 30); if (d.big) d.ext += C.draw(300);
    if (C.flip(1, 10)) { static const int os[] = {0, 36 * 30, 36 * 2000, 36 * 30000, 36 * 1000003, 36 * 19000001, -36 * 30, -36 * 2000, -36 * 30000, -36 * 1000001, -36 * 19000003}; d.ox = os[C.draw(11)]; d.oy = os[C.draw(11)]; }
    for (int i = 0; i < n; ++i) {
        ImgTile t = gen_tile(d, cfg);
        // order in which they are added is independent of m
        bool dup = false; for (auto& o : d.tiles) if (writer_dup(o.s, t.s)) dup = true; if (dup) continue;
        d.tiles.insert(d.tiles.begin() + (d.tiles.empty() ? 0 : C.draw((uint32_t)d.tiles.size() + 1)), t);
    }
    // m-indices are permuted so that file order and z-order differ
    if (withM) for (size_t i = d.tiles.size(); i > 1; --i) { size_t k = C.draw((uint32_t)i); if (d.tiles[i - 1].s.mValid && d.tiles[k].s.mValid) std::swap(d.tiles[i - 1].s.m, d.tiles[k].s.m); }
    d.doc.guid = GUID{0x1234u + salt, 1, 1, {1, 1, 1, 1, 1, 1, 1, 1}};
    std::shared_ptr<ICziWriter> w; std::shared_ptr<ICziReaderWriter> rw;   // an edit session keeps the order in which the sub-blocks are added
    if (via_rw) { rw = CreateCZIReaderWriter(); rw->Create(io_stream(d.disk), std::make_shared<CCziReaderWriterInfo>(d.doc.guid)); }
    else { w = CreateCZIWriter(); w->Create(out_stream(d.disk), std::make_shared<CCziWriterInfo>(d.doc.guid)); }
    for (size_t i = 0; i < d.tiles.size(); ++i) { auto& s = d.tiles[i].s; deliver(s, kMemPtr, [&](auto& x) { if (rw) rw->SyncAddSubBlock(x); else w->SyncAddSubBlock(x); }); int id = d.doc.next++; d.doc.subs[id] = s; d.by_id[id] = (int)i; }
    if (cfg.attachments) {
        GenCfg g; g.tag = 5000 + salt; g.max_payload = 200; int na = C.draw(3);
        for (int i = 0; i < na; ++i) { Att a = gen_att(g); bool dup = false; for (auto& o : d.doc.atts) dup |= att_dup(o.second, a); if (dup) continue; auto ai = att_info(a); if (rw) rw->SyncAddAttachment(ai); else w->SyncAddAttachment(ai); d.doc.atts[d.doc.next++] = a; }
        if (C.flip(3, 4)) { Meta m = gen_meta(g); auto mi = meta_info(m); if (rw) rw->SyncWriteMetadata(mi); else w->SyncWriteMetadata(mi); d.doc.meta = m; }
    }
    if (rw) rw->Close(); else
    w->Close(); d.disk->trace = true; d.disk->writes = d.disk->reads = 0;
    return d;
}

// ------------------------------------------------------------------------------------------------ queries
struct Query {
    int kind = 0;                 // 0 tile, 1 scaling, 2 pyramid layer
    int c = 0, z = 0; IntRect roi{}; float zoom = 1; int layer = 0; float bg = 0;
    bool sortByM = true, vis = false, mask = false, cache = false, onlyCompressed = false, dest = false, explicitPt = false, border = false; std::shared_ptr<std::set<int>> scenes;
    bool col = false, keep = false; float rgb[3] = {0, 0, 0};   // coloured background; what is in the destination stays (only with a destination)
    RgbFloatColor bgcolor() const { return col ? RgbFloatColor{rgb[0], rgb[1], rgb[2]} : RgbFloatColor{bg, bg, bg}; }
    bool defaults = false;        // no options given: those of Options::Clear
    PixelType want = PixelType::Invalid;   // pixel type of the result (Invalid: that of the channel)
    bool allDims = false;         // dimensions in which all sub-blocks agree are given as well
    int frame = 0;                // 0 the plain overload, 1 raw, 2 pixel, 3 default frame of reference
    std::string str() const { char b[280]; static const char* fr[] = {"", " raw-frame", " pixel-frame", " default-frame"}; snprintf(b, sizeof(b), "%s C%d Z%d roi(%d,%d,%d,%d) zoom %g layer %d bg %g%s%s%s%s%s%s%s%s%s", kind == 0 ? "tile" : kind == 1 ? "scaling" : "pyramid", c, z, roi.x, roi.y, roi.w, roi.h, zoom, layer, bg, sortByM ? "" : " unsorted", vis ? " vis" : "", mask ? " mask" : "", cache ? (onlyCompressed ? " cache(compressed)" : " cache") : "", dest ? " dest" : "", scenes ? " filter" : "", border ? " border" : "", defaults ? " default options" : "", fr[frame]); return b; }
};
// The pixel type of the answer; where it is not that of the document the pixels are converted
inline PixelType result_pt(const ImgDoc& d, const Query& q) { PixelType s = d.cpt[q.c]; return q.want == PixelType::Invalid || s == PixelType::Gray32Float ? s : q.want; }
// what a pixel may become by the conversion: the bytes 'a', or 'b' (averages may be rounded either way)
inline void convert_px(PixelType from, PixelType to, const uint8_t* s, uint8_t* a, uint8_t* b)
{
    if (from == to) { memcpy(a, s, bpp(to)); memcpy(b, s, bpp(to)); return; }
    auto u16 = [](const uint8_t* p) { uint16_t v; memcpy(&v, p, 2); return (uint32_t)v; };
    bool wide = from == PixelType::Gray16 || from == PixelType::Bgr48, col = from == PixelType::Bgr24 || from == PixelType::Bgr48; uint32_t ch[3]; for (int k = 0; k < 3; ++k) { int i = col ? k : 0; ch[k] = wide ? u16(s + 2 * i) : s[i]; }
    uint32_t sum = ch[0] + ch[1] + ch[2], lo = sum / 3, hi = (sum + 2) / 3;
    switch (to) {
    case PixelType::Gray8: a[0] = (uint8_t)(wide ? lo >> 8 : lo); b[0] = (uint8_t)(wide ? hi >> 8 : hi); break;
    case PixelType::Gray16: { uint16_t x = (uint16_t)lo, y = (uint16_t)hi; memcpy(a, &x, 2); memcpy(b, &y, 2); break; }
    case PixelType::Gray32Float: { float f = (float)sum / 3; memcpy(a, &f, 4); memcpy(b, &f, 4); break; }
    case PixelType::Bgr24: for (int k = 0; k < 3; ++k) a[k] = b[k] = (uint8_t)(wide ? ch[k] >> 8 : ch[k]); break;
    default: for (int k = 0; k < 3; ++k) { uint16_t x = (uint16_t)ch[k]; memcpy(a + 2 * k, &x, 2); memcpy(b + 2 * k, &x, 2); } break;
    }
}
inline bool same_px(PixelType pt, const uint8_t* got, const uint8_t* a, const uint8_t* b)
{
    if (!memcmp(got, a, bpp(pt)) || !memcmp(got, b, bpp(pt))) return true;
    if (pt != PixelType::Gray32Float) return false; float g, w; memcpy(&g, got, 4); memcpy(&w, a, 4); return std::fabs(g - w) <= 1e-5f * std::fabs(w) + 1e-6f;
}
inline Query gen_query(const ImgDoc& d, bool allow_scaling = true)
{
    Query q; q.kind = allow_scaling ? C.pick({4, 4, 2}) : (C.pick({4, 2}) ? 2 : 0); q.c = C.draw(d.nc); q.z = C.draw(d.nz);
    // only planes that exist: the coordinate has to lie within the bounds of the document
    { auto& t = d.tiles[C.draw((uint32_t)d.tiles.size())]; q.c = t.c; q.z = t.z; }
    int mnx = 1 << 30, mny = 1 << 30, mxx = -(1 << 30), mxy = -(1 << 30); for (auto& t : d.tiles) { mnx = std::min(mnx, t.s.x); mny = std::min(mny, t.s.y); mxx = std::max(mxx, t.s.x + t.s.lw); mxy = std::max(mxy, t.s.y + t.s.lh); }
    int lim = d.big ? 420 : 60, w = std::max(1, std::min(lim, mxx - mnx)), h = std::max(1, std::min(lim, mxy - mny));
    q.roi = IntRect{mnx - 2 + (int)C.draw(w + 2), mny - 2 + (int)C.draw(h + 2), 1 + (int)C.draw(w + 4), 1 + (int)C.draw(h + 4)};
    if (C.flip(1, 3)) q.roi = IntRect{mnx, mny, w, h};
    q.bg = C.flip(1, 3) ? 1.f : 0.f;
    q.sortByM = !C.flip(1, 8); q.vis = q.kind != 2 && C.flip(1, 2); q.mask = C.flip(1, 3); q.cache = C.flip(1, 2); q.onlyCompressed = C.flip(1, 3); q.dest = C.flip(1, 3); q.explicitPt = C.flip(1, 2); q.border = q.kind != 1 && C.flip(1, 8);
    if (d.nscene && C.flip(1, 3)) { q.scenes = std::make_shared<std::set<int>>(); for (int i = 0; i < d.nscene; ++i) if (C.flip(1, 2)) q.scenes->insert(i); if (q.scenes->empty()) q.scenes->insert(0); }
    if (q.kind == 1) { static const float zs[] = {1.f, 0.7f, 0.45f, 0.3f, 0.2f, 0.9f, 1.5f, 2.f}; q.zoom = zs[C.pick({5, 2, 2, 2, 1, 1, 1, 1})]; if ((int)(q.roi.w * q.zoom) < 1 || (int)(q.roi.h * q.zoom) < 1) q.zoom = 1; }
    if (q.kind == 2) { q.layer = C.draw(3); int p = 1; for (int i = 0; i < q.layer; ++i) p *= d.minif; q.roi.x = q.roi.x / p * p; q.roi.y = q.roi.y / p * p; q.roi.w = std::max(1, q.roi.w / p) * p; q.roi.h = std::max(1, q.roi.h / p) * p; 
        // positions of the tiles relative to the ROI have to be multiples of the pixel size for the exact oracle; tiles of layers > 0 are on a grid of minif^2
        if (p > d.minif * d.minif) q.layer = 0; }
    if (C.flip(1, 6)) { static const PixelType pts[] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float}; q.want = pts[C.draw(5)]; }
    if (C.flip(1, 6)) { static const float v[] = {0.f, 0.25f, 0.5f, 0.7f, 1.f, 1.5f, -0.2f}; q.col = true; for (auto& x : q.rgb) x = v[C.draw(7)]; }
    q.keep = C.flip(1, 6); q.allDims = !d.other.empty() && C.flip(1, 2);
    if (C.flip(1, 12)) { q.defaults = q.dest = q.keep = q.sortByM = true; q.vis = q.mask = q.cache = q.border = q.col = false; q.scenes.reset(); }
    q.frame = C.pick({4, 1, 2, 2}); { int x, y; if (!d.origin(x, y)) q.frame = std::min(q.frame, 1); }
    return q;
}
class SetIdx : public IIndexSet { public: std::set<int> s; explicit SetIdx(std::set<int> s) : s(std::move(s)) {} bool IsContained(int i) const override { return s.count(i) != 0; } };

struct Image { int w = 0, h = 0; uint32_t bp = 1; PixelType pt = PixelType::Invalid; Bytes px; };
inline Image grab(IBitmapData* b)
{
    Image r; r.w = b->GetWidth(); r.h = b->GetHeight(); r.pt = b->GetPixelType(); r.bp = bpp(r.pt); r.px.resize((size_t)r.w * r.h * r.bp);
    ScopedBitmapLockerP l(b); for (int y = 0; y < r.h; ++y) memcpy(r.px.data() + (size_t)y * r.w * r.bp, (const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, (size_t)r.w * r.bp);
    return r;
}
inline CDimCoordinate plane_of(const ImgDoc& d, const Query& q) { CDimCoordinate p; p.Set(DimensionIndex::C, q.c); if (d.haveZ) p.Set(d.zdim, q.z); if (q.allDims) for (auto& o : d.other) p.Set(o.first, o.second); return p; }
// a bitmap owned by the harness: padded lines, canary behind every line
class OwnBitmap : public IBitmapData {
public:
    PixelType pt; uint32_t w, h, stride; Bytes mem; int locks = 0; bool underflow = false;
    OwnBitmap(PixelType p, uint32_t w, uint32_t h, uint32_t pad) : pt(p), w(w), h(h), stride(w * bpp(p) + pad), mem((size_t)stride * h, 0xC7) {}
    PixelType GetPixelType() const override { return pt; }
    IntSize GetSize() const override { return {w, h}; }
    BitmapLockInfo Lock() override { ++locks; BitmapLockInfo i; i.ptrData = i.ptrDataRoi = mem.data(); i.stride = stride; i.size = mem.size(); return i; }
    void Unlock() override { if (--locks < 0) underflow = true; }
    int GetLockCount() const override { return locks; }
    bool padding_ok() const { size_t u = w * bpp(pt); for (uint32_t y = 0; y < h; ++y) for (size_t k = u; k < stride; ++k) if (mem[(size_t)y * stride + k] != 0xC7) return false; return true; }
};
template <class O> void common_opts(O& o, const Query& q, const std::shared_ptr<ISubBlockCacheOperation>& cache)
{
    o.Clear(); if (!(q.keep && q.dest)) o.backGroundColor = q.bgcolor(); o.sortByM = q.sortByM; o.maskAware = q.mask; if (q.scenes) o.sceneFilter = std::make_shared<SetIdx>(*q.scenes);
    if (q.cache) o.subBlockCache = cache; o.onlyUseSubBlockCacheForCompressedData = q.onlyCompressed;
}
// runs one query through the library
inline Image run_query(const std::shared_ptr<ISubBlockRepository>& repo, ICZIReader* r, const ImgDoc& d, const Query& q, const std::shared_ptr<ISubBlockCacheOperation>& cache)
{
    auto plane = plane_of(d, q); PixelType pt = result_pt(d, q); bool explicitPt = q.explicitPt || pt != d.cpt[q.c]; std::shared_ptr<IBitmapData> bm; std::shared_ptr<OwnBitmap> own;
    auto fin = [&]() { if (own) { if (own->locks || own->underflow) fail("bitmap-lock", "destination bitmap: lock count %d after the call (%s)", own->locks, q.str().c_str()); if (!own->padding_ok()) fail("dest-overrun", "the padding of the destination bitmap was written (%s)", q.str().c_str()); return grab(own.get()); } if (bm->GetLockCount() != 0) fail("bitmap-lock", "a returned bitmap is still locked"); return grab(bm.get()); };
    static const CZIFrameOfReference kFrames[] = {CZIFrameOfReference::RawSubBlockCoordinateSystem, CZIFrameOfReference::RawSubBlockCoordinateSystem, CZIFrameOfReference::PixelCoordinateSystem, CZIFrameOfReference::Default};
    IntRectAndFrameOfReference fr{kFrames[q.frame], q.roi};
    if (q.frame == 2 || (q.frame == 3 && d.defpix)) { int ox = 0, oy = 0; d.origin(ox, oy); fr.rectangle.x -= ox; fr.rectangle.y -= oy; }
    IntPointAndFrameOfReference fp{fr.frame_of_reference, IntPoint{fr.rectangle.x, fr.rectangle.y}};
    if (q.frame && !d.damaged) {
        ISubBlockRepository* rp = repo ? repo.get() : static_cast<ISubBlockRepository*>(r); auto a = rp->TransformRectangle(fr, CZIFrameOfReference::RawSubBlockCoordinateSystem);
        if (a.frame_of_reference != CZIFrameOfReference::RawSubBlockCoordinateSystem || a.rectangle.x != q.roi.x || a.rectangle.y != q.roi.y || a.rectangle.w != q.roi.w || a.rectangle.h != q.roi.h) fail("wrong-transform", "TransformRectangle gives (%d,%d,%d,%d) for %s", a.rectangle.x, a.rectangle.y, a.rectangle.w, a.rectangle.h, q.str().c_str());
        auto b = rp->TransformPoint(IntPointAndFrameOfReference{CZIFrameOfReference::RawSubBlockCoordinateSystem, IntPoint{q.roi.x, q.roi.y}}, fr.frame_of_reference);
        if (b.point.x != fr.rectangle.x || b.point.y != fr.rectangle.y) fail("wrong-transform", "TransformPoint gives (%d,%d) instead of (%d,%d)", b.point.x, b.point.y, fr.rectangle.x, fr.rectangle.y);
    }
    if (!d.damaged && C.flip(1, 12)) {   // a coordinate that is not a plane of the document is refused
        auto bad = plane; int c0 = 1 << 30, c1 = -(1 << 30), how = (int)C.draw(4); for (auto& t : d.tiles) if (t.c >= 0) { c0 = std::min(c0, t.c); c1 = std::max(c1, t.c); } const char* what = "the scene"; DimensionIndex sd = DimensionIndex::invalid;
        for (int i = 1; i <= 9; ++i) { auto x = (DimensionIndex)i; bool used = x == DimensionIndex::C || x == DimensionIndex::S || (d.haveZ && x == d.zdim); for (auto& o : d.other) used |= o.first == x; if (!used && (sd == DimensionIndex::invalid || C.flip(1, 2))) sd = x; }
        if (how == 1 && c0 != c1) { bad.Clear(DimensionIndex::C); what = "no channel"; } else if (how == 2) { bad.Set(DimensionIndex::C, C.flip(1, 2) ? c1 + 1 + (int)C.draw(3) : c0 - 1 - (int)C.draw(3)); what = "a channel that does not exist"; } else if (how == 3 && sd != DimensionIndex::invalid) { bad.Set(sd, 0); what = "a dimension the document does not have"; } else bad.Set(DimensionIndex::S, 0);
        OwnBitmap b(pt, 4, 4, 5); bool threw = false; int kind = (int)C.draw(3);
        try {
            if (kind == 0) { auto a = repo ? std::dynamic_pointer_cast<ISingleChannelTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelTileAccessor)) : r->CreateSingleChannelTileAccessor(); a->Get(&b, q.roi.x, q.roi.y, &bad, nullptr); }
            else if (kind == 1) { auto a = repo ? std::dynamic_pointer_cast<ISingleChannelScalingTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelScalingTileAccessor)) : r->CreateSingleChannelScalingTileAccessor(); a->Get(&b, IntRect{q.roi.x, q.roi.y, 4, 4}, &bad, 1.f, nullptr); }
            else { auto a = repo ? std::dynamic_pointer_cast<ISingleChannelPyramidLayerTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelPyramidLayerTileAccessor)) : r->CreateSingleChannelPyramidLayerTileAccessor(); a->Get(&b, q.roi.x, q.roi.y, &bad, ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo{(uint8_t)d.minif, 0}, nullptr); }
        } catch (const std::exception&) { threw = true; }
        if (!threw || b.locks) fail("wrong-plane", "a composite was made for a coordinate with %s (accessor %d, %s)", what, kind, q.str().c_str());
    }
    if (q.kind == 0) {
        auto a = repo ? std::dynamic_pointer_cast<ISingleChannelTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelTileAccessor)) : r->CreateSingleChannelTileAccessor(); ISingleChannelTileAccessor::Options o; common_opts(o, q, cache); o.useVisibilityCheckOptimization = q.vis; o.drawTileBorder = q.border; auto po = q.defaults ? nullptr : &o;
        if (q.dest) { own = std::make_shared<OwnBitmap>(pt, q.roi.w, q.roi.h, 5); if (q.frame) a->Get(own.get(), fp, &plane, po); else a->Get(own.get(), q.roi.x, q.roi.y, &plane, po); }
        else if (q.frame) bm = explicitPt ? a->Get(pt, fr, &plane, po) : a->Get(fr, &plane, po);
        else bm = explicitPt ? a->Get(pt, q.roi, &plane, po) : a->Get(q.roi, &plane, po);
    } else if (q.kind == 1) {
        auto a = repo ? std::dynamic_pointer_cast<ISingleChannelScalingTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelScalingTileAccessor)) : r->CreateSingleChannelScalingTileAccessor(); ISingleChannelScalingTileAccessor::Options o; common_opts(o, q, cache); o.useVisibilityCheckOptimization = q.vis; auto po = q.defaults ? nullptr : &o;
        if (!d.damaged && C.flip(1, 12)) {   // a destination of another size is refused and left alone
            auto sz = a->CalcSize(q.roi, q.zoom); int dw = (int)C.draw(3) - 1, dh = (int)C.draw(3) - 1; if (!dw && !dh) dw = 1; if ((int)sz.w + dw > 0 && (int)sz.h + dh > 0) {
                OwnBitmap wrong(pt, sz.w + dw, sz.h + dh, 5); bool threw = false; try { if (q.frame) a->Get(&wrong, fr, &plane, q.zoom, po); else a->Get(&wrong, q.roi, &plane, q.zoom, po); } catch (const std::invalid_argument&) { threw = true; }
                bool touched = false; for (auto b : wrong.mem) touched |= b != 0xC7; if (!threw || touched || wrong.locks) fail("wrong-destination", "a destination of %ux%u was %s although the composite has %ux%u (%s)", sz.w + dw, sz.h + dh, threw ? "modified" : "accepted", sz.w, sz.h, q.str().c_str());
            }
        }
        if (q.dest) { auto sz = a->CalcSize(q.roi, q.zoom); own = std::make_shared<OwnBitmap>(pt, sz.w, sz.h, 5); if (q.frame) a->Get(own.get(), fr, &plane, q.zoom, po); else a->Get(own.get(), q.roi, &plane, q.zoom, po); }
        else if (q.frame) bm = explicitPt ? a->Get(pt, fr, &plane, q.zoom, po) : a->Get(fr, &plane, q.zoom, po);
        else bm = explicitPt ? a->Get(pt, q.roi, &plane, q.zoom, po) : a->Get(q.roi, &plane, q.zoom, po);
    } else {
        auto a = repo ? std::dynamic_pointer_cast<ISingleChannelPyramidLayerTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelPyramidLayerTileAccessor)) : r->CreateSingleChannelPyramidLayerTileAccessor(); ISingleChannelPyramidLayerTileAccessor::Options o; common_opts(o, q, cache); o.drawTileBorder = q.border; auto po = q.defaults ? nullptr : &o;
        ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo li{(uint8_t)d.minif, (uint8_t)q.layer}; int p = 1; for (int i = 0; i < q.layer; ++i) p *= d.minif;
        if (q.dest) { own = std::make_shared<OwnBitmap>(pt, q.roi.w / p, q.roi.h / p, 5); if (q.frame) a->Get(own.get(), fp, &plane, li, po); else a->Get(own.get(), q.roi.x, q.roi.y, &plane, li, po); }
        else if (q.frame) bm = explicitPt ? a->Get(pt, fr, &plane, li, po) : a->Get(fr, &plane, li, po);
        else bm = explicitPt ? a->Get(pt, q.roi, &plane, li, po) : a->Get(q.roi, &plane, li, po);
    }
    return fin();
}
inline void bg_pixel(PixelType pt, float bg, uint8_t* p)
{
    uint32_t n = bpp(pt);
    if (pt == PixelType::Gray32Float) { memcpy(p, &bg, 4); return; }
    memset(p, bg > 0.5f ? 0xff : 0, n);
}
// a background colour: within rounding of the given components
inline bool bg_colour_ok(PixelType pt, const float* rgb, const uint8_t* got)
{
    auto near = [](double want, double top, double g) { want = std::min(std::max(want * top, 0.0), top); return std::fabs(g - want) <= 1.01; };
    auto u16 = [&](int k) { uint16_t v; memcpy(&v, got + 2 * k, 2); return (double)v; }; double avg = ((double)rgb[0] + rgb[1] + rgb[2]) / 3;
    switch (pt) {
    case PixelType::Gray8: return near(avg, 255, got[0]);
    case PixelType::Gray16: return near(avg, 65535, u16(0));
    case PixelType::Bgr24: return near(rgb[2], 255, got[0]) && near(rgb[1], 255, got[1]) && near(rgb[0], 255, got[2]);
    case PixelType::Bgr48: return near(rgb[2], 65535, u16(0)) && near(rgb[1], 65535, u16(1)) && near(rgb[0], 65535, u16(2));
    default: { float f; memcpy(&f, got, 4); return std::fabs(f - avg) < 1e-5; }
    }
}
inline bool isect(const IntRect& a, int x, int y, int w, int h) { return a.x < x + w && x < a.x + a.w && a.y < y + h && y < a.y + a.h; }

// the tiles that make up the answer, bottom first
inline std::vector<const ImgTile*> paint_list(const ImgDoc& d, const Query& q, int layer)
{
    std::vector<const ImgTile*> v;
    for (auto& t : d.tiles) { if (t.c != q.c || t.z != q.z || (layer >= 0 && t.layer != layer)) continue; if (!isect(q.roi, t.s.x, t.s.y, t.s.lw, t.s.lh)) continue; if (q.scenes && t.scene >= 0 && !q.scenes->count(t.scene)) continue; v.push_back(&t); }
    std::map<const ImgTile*, int> pos; for (auto& e : d.index) pos[&d.tiles[e.second]] = e.first;
    std::stable_sort(v.begin(), v.end(), [&](const ImgTile* a, const ImgTile* b) { if (q.kind == 1 && a->scene != b->scene) return a->scene < b->scene; int ma = a->s.mValid ? a->s.m : std::numeric_limits<int>::min(), mb = b->s.mValid ? b->s.m : std::numeric_limits<int>::min(); if (q.sortByM && ma != mb) return ma < mb; return pos[a] < pos[b]; });
    return v;
}
// is the order in which the tiles (bottom first) are painted fixed?
inline bool order_defined(const ImgDoc& d, const Query& q, const std::vector<const ImgTile*>& v)
{
    if (!q.sortByM) return !d.index.empty();
    int n = 0; for (auto t : v) if (!t->s.mValid) ++n; if (n > 1) return false;
    // the scaling accessor sorts by the m-index only on layer 0
    bool up = false; for (auto t : v) up |= t->layer > 0; if (q.kind != 1 || !up) return true;
    if (d.tiles.size() > 16) return false;   // (and how it orders the others is up to std::sort)
    std::map<const ImgTile*, int> pos; for (auto& e : d.index) pos[&d.tiles[e.second]] = e.first;
    for (size_t i = 1; i < v.size(); ++i) if (v[i]->scene == v[i - 1]->scene && pos[v[i]] < pos[v[i - 1]]) return false;
    return true;
}

// The layer the scaling accessor has to take per scene: the coarsest one that is still at least as fine as the requested zoom.
inline int scaling_layer(const ImgDoc& d, const Query& q, int scene)
{
    int best = -1; for (auto& t : d.tiles) { if (t.c != q.c || t.z != q.z || (scene >= 0 && t.scene != scene)) continue; if (!isect(q.roi, t.s.x, t.s.y, t.s.lw, t.s.lh)) continue; if (1.f / t.factor >= q.zoom / 1.05f) best = std::max(best, t.layer); }
    return best;
}

inline std::string qcls(const Query& q) { std::string s = std::string("wrong-composite:") + (q.kind == 0 ? "tile" : q.kind == 1 ? (q.zoom == 1.f ? "scaling" : "scaled") : "pyramid"); if (q.mask) s += "+mask"; if (q.cache) s += "+cache"; if (q.vis) s += "+vis"; return s; }
// compares the answer with the reference; 'who' describes the circumstances
inline void check_image(const ImgDoc& d, const Query& q, const Image& im, const char* who)
{
    PixelType pt = result_pt(d, q), spt = d.cpt[q.c]; if (im.pt != pt) fail(qcls(q).c_str(), "%s: pixel type %d instead of %d (%s)", who, (int)im.pt, (int)pt, q.str().c_str());
    int p = 1; if (q.kind == 2) for (int i = 0; i < q.layer; ++i) p *= d.minif;
    int ew = q.kind == 1 ? (int)(q.roi.w * q.zoom) : q.roi.w / p, eh = q.kind == 1 ? (int)(q.roi.h * q.zoom) : q.roi.h / p;
    if (im.w != ew || im.h != eh) fail(qcls(q).c_str(), "%s: size %dx%d instead of %dx%d (%s)", who, im.w, im.h, ew, eh, q.str().c_str());
    const bool kept = q.keep && q.dest; uint8_t bgp[64]; if (kept) memset(bgp, 0xC7, sizeof(bgp)); else bg_pixel(pt, q.bg, bgp); static const uint8_t black[64] = {}; uint32_t n = im.bp;
    auto isbg = [&](const uint8_t* got) { return !q.col || kept ? !memcmp(got, bgp, n) : bg_colour_ok(pt, q.rgb, got); };
    auto px = [&](int x, int y) { return im.px.data() + ((size_t)y * im.w + x) * n; };
    if (q.kind != 1 || q.zoom == 1.f) {
        auto v = paint_list(d, q, q.kind == 2 ? q.layer : 0); bool strict = order_defined(d, q, v);
        for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) {
            const uint8_t* got = px(x, y); const uint8_t* want = bgp; const uint8_t* want2 = bgp; uint8_t ca[16], cb[16]; bool any = false, ok = false; int from = -1;
            for (auto t : v) { int tx = x - (t->s.x - q.roi.x) / p, ty = y - (t->s.y - q.roi.y) / p; if (tx < 0 || ty < 0 || tx >= t->s.pw || ty >= t->s.ph) continue;
                if (q.border) {   // a black line along the edge of the part that is visible in the result
                    bool mk = q.mask && t->mask; int sw = mk ? std::min(t->s.pw, t->mw) : t->s.pw, sh = mk ? std::min(t->s.ph, t->mh) : t->s.ph, ox = (t->s.x - q.roi.x) / p, oy = (t->s.y - q.roi.y) / p; if (tx >= sw || ty >= sh) continue;
                    if (x == std::max(0, ox) || y == std::max(0, oy) || x == std::min(im.w, ox + sw) - 1 || y == std::min(im.h, oy + sh) - 1) { any = true; want = want2 = black; from = t->s.m; if (!memcmp(got, want, n)) ok = true; continue; }
                }
                if (!t->draws(tx, ty, q.mask)) continue; any = true; from = t->s.m; if (pt == spt) want = want2 = t->at(tx, ty); else { convert_px(spt, pt, t->at(tx, ty), ca, cb); want = ca; want2 = cb; } if (same_px(pt, got, want, want2)) ok = true; }
            if (!any ? !isbg(got) : strict ? !same_px(pt, got, want, want2) : !ok)
                fail(qcls(q).c_str(), "%s: pixel (%d,%d) is not the expected one (%s) for %s", who, x, y, any ? ("tile M" + std::to_string(from)).c_str() : "background", q.str().c_str());
        }
        return;
    }
    // scaled: which tile a pixel comes from is only fixed away from the edges; it has to show one of the source pixels around the mapped position
    std::vector<const ImgTile*> v; for (auto t : paint_list(d, q, -1)) if (t->layer == scaling_layer(d, q, t->scene)) v.push_back(t);
    bool strict = order_defined(d, q, v);
    for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) {
        double lx = q.roi.x + (x + 0.5) * q.roi.w / im.w, ly = q.roi.y + (y + 0.5) * q.roi.h / im.h, tol = 1.01 * std::max((double)q.roi.w / im.w, (double)q.roi.h / im.h) + 0.01;
        const uint8_t* got = px(x, y); uint8_t ca[16], cb[16]; bool ok = isbg(got), must = false, hitAny = false;
        for (auto t : v) {
            if (lx < t->s.x - tol || ly < t->s.y - tol || lx > t->s.x + t->s.lw + tol || ly > t->s.y + t->s.lh + tol) continue;
            bool inside = lx > t->s.x + tol && ly > t->s.y + tol && lx < t->s.x + t->s.lw - tol && ly < t->s.y + t->s.lh - tol;
            int sx = (int)std::floor((lx - t->s.x) / t->factor), sy = (int)std::floor((ly - t->s.y) / t->factor); int e = 1 + (int)(tol / t->factor); bool hit = false, all = true;
            for (int b = sy - e; b <= sy + e; ++b) for (int a = sx - e; a <= sx + e; ++a) { if (a < 0 || b < 0 || a >= t->s.pw || b >= t->s.ph) continue; if (!t->draws(a, b, q.mask)) { all = false; continue; } if (pt == spt ? !memcmp(got, t->at(a, b), n) : (convert_px(spt, pt, t->at(a, b), ca, cb), same_px(pt, got, ca, cb))) hit = true; }
            hitAny |= hit; if (inside && all) { must = true; ok = hit; } else ok = ok || hit;
        }
        if (!strict) ok = hitAny || (!must && isbg(got));
        if (!ok) for (auto t : v) note("tile M%d at %d,%d %dx%d factor %d scene %d l=(%g,%g) tol %g got %02x%02x", t->s.m, t->s.x, t->s.y, t->s.lw, t->s.lh, t->factor, t->scene, lx, ly, tol, got[0], n > 1 ? got[1] : 0);
        if (!ok) fail(qcls(q).c_str(), "%s: scaled pixel (%d,%d) comes from no tile that covers it (%s)", who, x, y, q.str().c_str());
    }
}
inline void learn(ImgDoc& d, ICZIReader* r, const char* who)
{
    auto m = verify_subs(r, d.doc.subs, {}, who); d.index.clear(); for (auto& e : m) d.index[e.first] = d.by_id.at(e.second);
}
inline void check_tile_bitmap(const ImgTile& t, IBitmapData* b, const char* who)
{
    Image im = grab(b);
    if (im.pt != t.s.pt || im.w != t.s.pw || im.h != t.s.ph || im.px != t.pix) fail("wrong-bitmap", "%s: the decoded bitmap of %s differs from the pixels that were stored", who, sstr(t.s).c_str());
}
// true if the pyramid-layer query may legitimately report "no such layer"
inline bool layer_absent(const ImgDoc& d, const Query& q) { return q.kind == 2 && paint_list(d, q, q.layer).empty(); }
} // namespace sim

// Reference model of a CZI document, generators, delivery forms and the comparison of the model with what the
// library reports.  Only public API of the library is used.
#pragma once
#include "core/sim.h"
#include "core/disk.h"
#include "libCZI.h"
#include <map>
#include <set>
#include <limits>
#include <cmath>

namespace sim {
using namespace libCZI;
typedef std::vector<uint8_t> Bytes;

struct Sub {
    CDimCoordinate coord; bool mValid = false; int m = 0;
    int x = 0, y = 0, lw = 1, lh = 1, pw = 1, ph = 1;
    PixelType pt = PixelType::Gray8; int32_t comp = 0; SubBlockPyramidType pyr = SubBlockPyramidType::None;
    Bytes data, meta, att;
    bool layer0() const { return lw == pw && lh == ph; }
};
struct Att { GUID guid{}; char type[8] = {}; char name[80] = {}; Bytes data; };
struct Meta { bool present = false; Bytes xml, att; };
struct Doc {
    mutable GUID guid{};
    mutable bool guid_open = false;     // chosen by the library: learnt when the document is looked at for the first time
    bool guid_is(const void* g, const char* who) const
    {
        static const GUID null{}; if (!guid_open) return !memcmp(g, &guid, sizeof(GUID));
        if (!memcmp(g, &null, sizeof(GUID))) fail("wrong-guid", "%s: the library has to choose a GUID, but it is null", who);
        memcpy(&guid, g, sizeof(GUID)); guid_open = false; return true;
    }
    std::map<int, Sub> subs;    // key: model id
    std::map<int, Att> atts;
    Meta meta;
    int next = 1;
};

inline uint32_t bpp(PixelType pt) { return Utils::GetBytesPerPixel(pt); }

inline std::string cstr(const IDimCoordinate* c)
{
    std::string s; for (int i = (int)DimensionIndex::MinDim; i <= (int)DimensionIndex::MaxDim; ++i) { int v; if (c->TryGetPosition((DimensionIndex)i, &v)) { s += Utils::DimensionToChar((DimensionIndex)i); s += std::to_string(v); } }
    return s;
}
inline std::string sstr(const Sub& s)
{
    char b[300]; snprintf(b, sizeof(b), "[%s M%s x%d y%d l%dx%d p%dx%d pt%d c%d py%d d%zu m%zu a%zu]", cstr(&s.coord).c_str(), s.mValid ? std::to_string(s.m).c_str() : "-", s.x, s.y, s.lw, s.lh, s.pw, s.ph, (int)s.pt, s.comp, (int)s.pyr, s.data.size(), s.meta.size(), s.att.size());
    return b;
}

// unique, reproducible payload
inline Bytes payload(size_t n, uint64_t tag)
{
    Bytes b(n); uint64_t x = tag * 0x9e3779b97f4a7c15ull + 12345;
    for (size_t i = 0; i < n; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = (uint8_t)(x >> 24); }
    return b;
}

// ------------------------------------------------------------------------------------------------ generators
struct GenCfg {
    std::vector<DimensionIndex> dims; bool fixed_dims = true; int coord_range = 3; bool negative = false;
    bool use_m = true, m_optional = true; int m_range = 4;
    bool pyramid = true; uint32_t max_side = 6; uint32_t max_payload = 700; bool big_payload = false;
    uint64_t tag = 1;
    bool compressed_ids = true;
    bool wide = false; int ox = 0, oy = 0;   // far apart coordinates, m-indices and positions
    int scale = 0; int32_t budget = 0;       // 1: some payloads of 64 KB and more, 2: hundreds of items
};
// in a document of scale 1 an occasional payload is large
inline uint32_t huge_len(GenCfg& g, uint32_t n)
{
    if (g.scale != 1 || g.budget <= 0 || !C.flip(1, 4)) return n;
    uint32_t v; switch (C.pick({2, 2, 2, 1})) { case 0: v = 65535 + C.draw(3); break; case 1: v = 32768u * (1 + C.draw(3)) - 40 + C.draw(80); break; case 2: v = 66000 + C.draw(70000); break; default: v = 131072 + C.draw(140000); break; }
    g.budget -= (int32_t)v; count("large_payloads"); return v;
}
inline GenCfg gen_cfg()
{
    GenCfg g;
    static const DimensionIndex all[] = {DimensionIndex::C, DimensionIndex::Z, DimensionIndex::T, DimensionIndex::S, DimensionIndex::H, DimensionIndex::R, DimensionIndex::I, DimensionIndex::V, DimensionIndex::B};
    switch (C.pick({4, 2, 2, 1})) {
    case 0: g.dims = {DimensionIndex::C}; break;
    case 1: g.dims = {DimensionIndex::C, DimensionIndex::S}; break;
    case 2: { int n = C.range(0, 5); for (int i = 0; i < n; ++i) g.dims.push_back(all[i]); break; }
    default: g.dims.assign(std::begin(all), std::end(all)); break;
    }
    g.fixed_dims = !C.flip(1, 4);
    g.coord_range = C.range(1, 4); g.negative = C.flip(1, 8);
    g.use_m = !C.flip(1, 4); g.m_optional = C.flip(1, 3); g.m_range = C.range(1, 8);
    g.pyramid = C.flip(1, 2); g.max_side = C.range(1, 8); g.max_payload = C.pick({6, 2, 1}) == 0 ? 300 : 2000; g.big_payload = C.flip(1, 10);
    g.wide = C.flip(1, 6);
    if (g.wide) { static const int os[] = {0, 1000, 70000, 1000000, 1000000000, -1000, -70000, -1000000000}; g.ox = os[C.draw(8)]; g.oy = os[C.draw(8)]; }
    g.scale = (int)C.pick({40, 1, 1});
    if (g.scale == 1) g.budget = 900000;
    if (g.scale == 2) { g.wide = false; g.use_m = true; g.m_optional = C.flip(1, 8); g.m_range = 60 + C.draw(3000); g.coord_range = C.range(1, 12); g.max_side = std::min(g.max_side, 4u); g.max_payload = 60; g.big_payload = false; }
    return g;
}
inline PixelType gen_pt()
{
    static const PixelType pts[] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgr96Float, PixelType::Bgra32, PixelType::Gray32, PixelType::Gray64Float, PixelType::Gray64ComplexFloat, PixelType::Bgr192ComplexFloat};
    return pts[C.pick({8, 4, 4, 2, 1, 1, 1, 1, 1, 1, 1})];
}
inline int spread(int v) { static const int t[] = {0, 1, 255, 256, 32768, 65537, 16777216, 2000000000}; return v < 0 ? -spread(-v) : t[v & 7]; }
enum Deliver { kMemPtr = 0, kCallback, kLinewise, kStrided };

inline Sub gen_sub(GenCfg& g, Deliver d)
{
    Sub s;
    for (auto dim : g.dims) { if (!g.fixed_dims && C.flip(1, 4)) continue; s.coord.Set(dim, (g.negative && C.flip(1, 3) ? -1 : 1) * (int)C.draw(g.coord_range)); }
    if (g.use_m && !(g.m_optional && C.flip(1, 3))) { s.mValid = true; s.m = C.draw(g.m_range); if (g.negative && C.flip(1, 3)) s.m = -s.m; if (g.wide) s.m = spread(s.m); }
    if (g.wide) { static const DimensionIndex some[] = {DimensionIndex::C, DimensionIndex::T, DimensionIndex::Z, DimensionIndex::S}; for (auto d2 : some) { int v; if (s.coord.TryGetPosition(d2, &v)) s.coord.Set(d2, spread(v)); } }
    s.x = g.ox + (int)C.draw(40) - (g.negative ? 20 : 0); s.y = g.oy + (int)C.draw(40) - (g.negative ? 20 : 0);
    s.pw = 1 + C.draw(g.max_side); s.ph = 1 + C.draw(g.max_side);
    s.lw = s.pw; s.lh = s.ph;
    if (g.pyramid && C.flip(1, 3)) { static const int fs[] = {2, 4, 3, 8, 9, 16, 27, 32, 64, 5, 128, 256, 512, 1024, 81, 243, 729, 2187, 7, 3000}; int f = fs[C.draw(C.flip(1, 3) ? 20 : 10)]; int an = s.pw != s.ph ? C.pick({8, 1, 1}) : 0; if (an != 1) s.lw *= f; if (an != 2) s.lh *= f; }   // 'an': only one side is scaled (thin tiles)
    s.pt = gen_pt();
    s.pyr = (SubBlockPyramidType)C.pick({4, 1, 1});
    if (g.compressed_ids && (d == kMemPtr || d == kCallback)) { static const int32_t ids[] = {0, 4, 5, 6, 1, 1000, 12345}; s.comp = ids[C.pick({4, 1, 1, 1, 1, 1, 1})]; }
    auto plen = [&](bool big) { uint32_t n = C.len(g.max_payload); if (big && g.big_payload && C.flip(1, 3)) n += 4000 + C.draw(6000); return huge_len(g, n); };
    uint64_t t = g.tag++;
    if ((d == kLinewise || d == kStrided) && g.scale == 1 && g.budget > 0 && C.flip(1, 3)) {   // long lines, many lines
        static const int dim[][2] = {{4096, 3}, {1, 5000}, {300, 40}, {16385, 1}, {65537, 1}, {257, 256}};
        auto& q = dim[C.draw(bpp(s.pt) <= 4 ? 6 : 4)]; int fx = s.lw / s.pw, fy = s.lh / s.ph; s.pw = q[0]; s.ph = q[1]; s.lw = s.pw * fx; s.lh = s.ph * fy; g.budget -= s.pw * s.ph * (int)bpp(s.pt); count("large_payloads");
    }
    if (d == kLinewise || d == kStrided) s.data = payload((size_t)s.pw * s.ph * bpp(s.pt), t * 4);
    else s.data = payload(plen(true), t * 4);
    if (d == kCallback && C.flip(1, 4)) s.data.resize(s.data.size() + (C.flip(1, 3) ? 4000 + C.draw(20000) : 10 + C.draw(300)), 0);
    s.meta = payload(C.flip(1, 2) ? plen(false) : 0, t * 4 + 1);
    s.att = payload(C.flip(1, 2) ? plen(false) : 0, t * 4 + 2);
    return s;
}
inline Att gen_att(GenCfg& g, int nameSpace = 4)
{
    Att a; uint64_t t = g.tag++;
    uint32_t gi = C.draw(nameSpace);
    a.guid = GUID{0x11111111u * (gi + 1), (uint16_t)(gi * 7 + 1), (uint16_t)(gi + 3), {1, 2, 3, 4, 5, 6, 7, (uint8_t)gi}};
    static const char* types[] = {"CZTXT", "JPG", "CZI", "CZEXP123", ""};
    const char* ty = types[C.pick({3, 2, 2, 2, 1})]; memcpy(a.type, ty, std::min<size_t>(8, strlen(ty)));
    std::string nm = "att" + std::to_string(C.draw(nameSpace));
    switch (C.pick({6, 1, 1, 1})) { case 1: nm = std::string(79, 'a' + gi % 20); break; case 3: nm = std::string(80, 'n' + gi % 4); break; case 2: nm.clear(); break; default: break; }
    memcpy(a.name, nm.data(), std::min<size_t>(80, nm.size()));
    uint32_t n = C.len(g.max_payload); if (g.big_payload && C.flip(1, 3)) n += 5000;
    n = huge_len(g, n);
    a.data = payload(n, t * 4 + 3);
    return a;
}
inline Meta gen_meta(GenCfg& g)
{
    Meta m; m.present = true; uint64_t t = g.tag++;
    uint32_t n = huge_len(g, C.len(g.max_payload * 3));
    std::string s = "<ImageDocument><Metadata><Information><A>" + std::to_string(t) + "</A>";
    while (s.size() < n) s += "<x>pad</x>";
    s += "</Information></Metadata></ImageDocument>";
    m.xml.assign(s.begin(), s.end());
    if (C.flip(1, 4)) m.att = payload(huge_len(g, C.len(200)), t * 4 + 1);
    return m;
}

// ------------------------------------------------------------------------------------------------ delivery
template <class T> void fill_base(T& i, const Sub& s)
{
    i.Clear(); i.coordinate = s.coord; i.mIndexValid = s.mValid; i.mIndex = s.m; i.x = s.x; i.y = s.y; i.logicalWidth = s.lw; i.logicalHeight = s.lh; i.physicalWidth = s.pw; i.physicalHeight = s.ph;
    i.PixelType = s.pt; i.pyramid_type = s.pyr; i.compressionModeRaw = s.comp;
}
// Pull-callback that checks the documented protocol (call counter, offset, validity of the handed-out memory only
// until the next call) and chooses the chunking.
struct Puller {
    const Bytes* src; int calls = 0; size_t given = 0; uint32_t chunking; bool stop_early_ok; Bytes cur; bool stopped = false;
    size_t stop_at;
    Puller(const Bytes* b, bool zero_tail_ok) : src(b), chunking(C.pick({3, 3, 1})), stop_early_ok(zero_tail_ok)
    {
        // a functor may stop early; the documented consequence is that the rest is filled with zeroes
        stop_at = b->size(); size_t z = 0; while (z < b->size() && (*b)[b->size() - 1 - z] == 0) ++z;
        if (zero_tail_ok && z > 8 && !C.flip(1, 4)) { stop_at = b->size() - z + C.draw((uint32_t)std::min<size_t>(z, 64)); count("callback_stops_early"); }
    }
    bool operator()(int callCnt, size_t offset, const void*& ptr, size_t& size)
    {
        Exempt x;
        if (callCnt != calls) fail("pull-protocol", "data callback invoked with call counter %d, expected %d", callCnt, calls);
        if (offset != given) fail("pull-protocol", "data callback invoked with offset %zu, expected %zu", offset, given);
        ++calls; if (calls > 5000) fail("livelock:callback", "data callback invoked more than 5000 times");
        size_t left = stop_at - given;
        if (Disk* fd = callback_faults()) if (fd->roll(fd->f.cb_fail)) {
            ++fd->faults; count("fault.client_callback"); sched(7000 + calls);
            if (left && C.flip(1, 2)) { ptr = nullptr; size = left; return true; }
            throw InjectedFault("the client's data callback fails");
        }
        if (left == 0) return false;
        size_t n = left;
        if (chunking == 1) n = 1 + C.draw((uint32_t)left);
        else if (chunking == 2) n = C.flip(1, 8) ? 0 : std::min<size_t>(left, 1 + C.draw(40 + (uint32_t)src->size() / 100));
        cur.assign(src->begin() + given, src->begin() + given + n); size_t extra = 0;
        if (n == src->size() - given && n && C.flip(1, 6)) { extra = 1 + C.draw(40); cur.insert(cur.end(), extra, (uint8_t)0xEE); count("callback_overdelivers"); }   // more than announced: the surplus has to be ignored
        cur.shrink_to_fit();
        if (cur.empty()) { static uint8_t dummy; ptr = &dummy; } else ptr = cur.data();
        size = n + extra; given += n;
        return true;
    }
};
// AddF: generic callable taking any of the four structures
template <class AddF> void deliver(const Sub& s, Deliver d, AddF add)
{
    switch (d) {
    case kMemPtr: {
        AddSubBlockInfoMemPtr i; fill_base(i, s); i.ptrData = s.data.data(); i.dataSize = (uint32_t)s.data.size(); i.ptrSbBlkMetadata = s.meta.data(); i.sbBlkMetadataSize = (uint32_t)s.meta.size(); i.ptrSbBlkAttachment = s.att.data(); i.sbBlkAttachmentSize = (uint32_t)s.att.size();
        add(i); break; }
    case kCallback: {
        AddSubBlockInfo i; fill_base(i, s);
        // trailing zeroes may be left to the library ("filled with zeroes if the functor returns false")
        auto p0 = std::make_shared<Puller>(&s.data, true); auto p1 = std::make_shared<Puller>(&s.meta, true); auto p2 = std::make_shared<Puller>(&s.att, true);
        i.sizeData = s.data.size(); i.sizeMetadata = s.meta.size(); i.sizeAttachment = s.att.size();
        i.getData = [p0](int c, size_t o, const void*& p, size_t& n) { return (*p0)(c, o, p, n); };
        i.getMetaData = [p1](int c, size_t o, const void*& p, size_t& n) { return (*p1)(c, o, p, n); };
        i.getAttachment = [p2](int c, size_t o, const void*& p, size_t& n) { return (*p2)(c, o, p, n); };
        add(i); break; }
    case kLinewise: {
        AddSubBlockInfoLinewiseBitmap i; fill_base(i, s); size_t st = (size_t)s.pw * bpp(s.pt); auto line = std::make_shared<Bytes>();
        i.getBitmapLine = [&s, st, line](int l) -> const void* { Exempt x; if (l < 0 || l >= s.ph) fail("pull-protocol", "line callback invoked for line %d of %d", l, s.ph); line->assign(s.data.begin() + l * st, s.data.begin() + (l + 1) * st); return line->data(); };
        i.ptrSbBlkMetadata = s.meta.data(); i.sbBlkMetadataSize = (uint32_t)s.meta.size(); i.ptrSbBlkAttachment = s.att.data(); i.sbBlkAttachmentSize = (uint32_t)s.att.size();
        add(i); break; }
    case kStrided: {
        AddSubBlockInfoStridedBitmap i; fill_base(i, s); size_t st = (size_t)s.pw * bpp(s.pt), pad = C.len(20); Bytes b((st + pad) * s.ph, 0xEE);
        for (int l = 0; l < s.ph; ++l) memcpy(b.data() + l * (st + pad), s.data.data() + l * st, st);
        i.ptrBitmap = b.data(); i.strideBitmap = (uint32_t)(st + pad);
        i.ptrSbBlkMetadata = s.meta.data(); i.sbBlkMetadataSize = (uint32_t)s.meta.size(); i.ptrSbBlkAttachment = s.att.data(); i.sbBlkAttachmentSize = (uint32_t)s.att.size();
        add(i); break; }
    }
}
inline AddAttachmentInfo att_info(const Att& a) { AddAttachmentInfo i; i.Clear(); i.contentGuid = a.guid; memcpy(i.contentFileType, a.type, 8); memcpy(i.name, a.name, 80); i.ptrData = a.data.data(); i.dataSize = (uint32_t)a.data.size(); return i; }
inline WriteMetadataInfo meta_info(const Meta& m) { WriteMetadataInfo i; i.Clear(); i.szMetadata = (const char*)m.xml.data(); i.szMetadataSize = m.xml.size(); i.ptrAttachment = m.att.data(); i.attachmentSize = m.att.size(); return i; }

// a description of a sub-block that is contradictory in itself; returns what is wrong with it
inline const char* spoil(AddSubBlockInfo& i, const Sub& s)
{
    fill_base(i, s); auto none = [](int, size_t, const void*&, size_t&) { return false; };
    i.sizeData = 10; i.sizeMetadata = 5; i.sizeAttachment = 7; i.getData = none; i.getMetaData = none; i.getAttachment = none;
    switch (C.draw(7)) {
    case 0: i.getData = nullptr; return "no data callback";
    case 1: i.getMetaData = nullptr; return "no metadata callback";
    case 2: i.getAttachment = nullptr; return "no attachment callback";
    case 3: switch (C.draw(4)) { case 0: i.logicalWidth = -1; break; case 1: i.logicalHeight = -5; break; case 2: i.physicalWidth = -1; break; default: i.physicalHeight = -7; break; } return "negative size";
    case 4: i.compressionModeRaw = Utils::CompressionModeToCompressionIdentifier(CompressionMode::Invalid); return "invalid compression";
    case 5: i.sizeMetadata = 0x80000000ull + C.draw(100); return "metadata too large";
    default: i.sizeAttachment = 0x80000000ull + C.draw(100); return "attachment too large";
    }
}

// ------------------------------------------------------------------------------------------------ comparison
inline std::string info_diff(const SubBlockInfo& i, const Sub& s)
{
    char b[200]; b[0] = 0;
    if (Utils::Compare(&i.coordinate, &s.coord) != 0) snprintf(b, sizeof(b), "coordinate %s != %s", cstr(&i.coordinate).c_str(), cstr(&s.coord).c_str());
    else if (Utils::IsValidMindex(i.mIndex) != s.mValid) snprintf(b, sizeof(b), "m-index validity %d != %d (value %d)", Utils::IsValidMindex(i.mIndex), s.mValid, i.mIndex);
    else if (s.mValid && i.mIndex != s.m) snprintf(b, sizeof(b), "m-index %d != %d", i.mIndex, s.m);
    else if (i.logicalRect.x != s.x || i.logicalRect.y != s.y || i.logicalRect.w != s.lw || i.logicalRect.h != s.lh) snprintf(b, sizeof(b), "logical rect (%d,%d,%d,%d) != (%d,%d,%d,%d)", i.logicalRect.x, i.logicalRect.y, i.logicalRect.w, i.logicalRect.h, s.x, s.y, s.lw, s.lh);
    else if ((int)i.physicalSize.w != s.pw || (int)i.physicalSize.h != s.ph) snprintf(b, sizeof(b), "physical size %ux%u != %dx%d", i.physicalSize.w, i.physicalSize.h, s.pw, s.ph);
    else if (i.pixelType != s.pt) snprintf(b, sizeof(b), "pixel type %d != %d", (int)i.pixelType, (int)s.pt);
    else if (i.compressionModeRaw != s.comp) snprintf(b, sizeof(b), "compression %d != %d", i.compressionModeRaw, s.comp);
    else if (i.pyramidType != s.pyr) snprintf(b, sizeof(b), "pyramid type %d != %d", (int)i.pyramidType, (int)s.pyr);
    return b;
}
inline Bytes raw(ISubBlock* sb, ISubBlock::MemBlkType t)
{
    const void* p = nullptr; size_t n = 0; sb->DangerousGetRawData(t, p, n);
    if (n && !p) fail("null-data", "sub-block reports %zu bytes of data of kind %d but no memory", n, (int)t);
    Bytes b; if (n) b.assign((const uint8_t*)p, (const uint8_t*)p + n);
    size_t n2 = 0; auto sp = sb->GetRawData(t, &n2);
    if (n2 != n || (n && memcmp(sp.get(), b.data(), n) != 0)) fail("raw-data-inconsistent", "the two raw data accessors of a sub-block disagree (%zu / %zu bytes)", n, n2);
    return b;
}
inline std::string data_diff(ISubBlock* sb, const Sub& s)
{
    struct { ISubBlock::MemBlkType t; const Bytes* b; const char* n; } k[] = {{ISubBlock::Metadata, &s.meta, "metadata"}, {ISubBlock::Data, &s.data, "pixel data"}, {ISubBlock::Attachment, &s.att, "attachment"}};
    for (auto& e : k) {
        Bytes r = raw(sb, e.t);
        if (r.size() != e.b->size()) return std::string(e.n) + " size " + std::to_string(r.size()) + " != " + std::to_string(e.b->size());
        for (size_t i = 0; i < r.size(); ++i) if (r[i] != (*e.b)[i]) return std::string(e.n) + " differs at byte " + std::to_string(i);
    }
    return "";
}
inline std::string meta_str(const Bytes& b) { return std::string(b.begin(), b.end()); }

// Checks that a repository reports exactly the given set of sub-blocks. Returns index -> model id.
// 'indet' are model items whose content is indeterminate (target of a failed in-place operation).
inline std::map<int, int> verify_subs(ISubBlockRepository* r, const std::map<int, Sub>& want, const std::set<int>& indet, const char* who, bool read = true)
{
    std::vector<std::pair<int, SubBlockInfo>> got; std::set<int> idx;
    r->EnumerateSubBlocks([&](int i, const SubBlockInfo& info) { if (!idx.insert(i).second) fail("duplicate-index", "%s: index %d enumerated twice", who, i); got.emplace_back(i, info); return true; });
    std::set<int> left; for (auto& w : want) if (!indet.count(w.first)) left.insert(w.first);
    std::map<int, int> m; int unmatched = 0;
    size_t start = got.size() > 1 ? C.draw((uint32_t)got.size()) : 0;      // reading order is a choice
    for (size_t k = 0; k < got.size(); ++k) {
        auto& g = got[(k + start) % got.size()];
        SubBlockInfo ti; if (!r->TryGetSubBlockInfo(g.first, &ti)) fail("info-missing", "%s: no information for enumerated sub-block %d", who, g.first);
        std::string last = "no item of that coordinate"; int hit = 0;
        std::shared_ptr<ISubBlock> sb; bool readfailed = false; std::string rerr;
        if (read) { try { sb = r->ReadSubBlock(g.first); } catch (const std::exception& e) { readfailed = true; rerr = e.what(); } if (!sb && !readfailed) fail("read-null", "%s: enumerated sub-block %d cannot be read", who, g.first); }
        for (int id : left) {
            const Sub& s = want.at(id);
            std::string d = info_diff(g.second, s);
            if (!d.empty()) { if (Utils::Compare(&g.second.coordinate, &s.coord) == 0) last = d; continue; }
            if (read && !readfailed) { std::string e = info_diff(sb->GetSubBlockInfo(), s); if (!e.empty()) { last = "sub-block itself: " + e; continue; } e = data_diff(sb.get(), s); if (!e.empty()) { last = e; continue; } }
            if (read && readfailed) { last = "read failed: " + rerr; continue; }
            std::string e = info_diff(ti, s); if (!e.empty()) fail("info-inconsistent", "%s: TryGetSubBlockInfo(%d): %s", who, g.first, e.c_str());
            hit = id; break;
        }
        if (hit) { left.erase(hit); m[g.first] = hit; continue; }
        if (!indet.empty() && unmatched < (int)indet.size()) { ++unmatched; continue; }
        fail("wrong-subblock", "%s: enumerated sub-block %d (%s M%d at %d,%d) matches no item that should exist: %s", who, g.first, cstr(&g.second.coordinate).c_str(), g.second.mIndex, g.second.logicalRect.x, g.second.logicalRect.y, last.c_str());
    }
    if (!left.empty()) fail("lost-subblock", "%s: item %s is missing (%zu of %zu enumerated)", who, sstr(want.at(*left.begin())).c_str(), got.size(), want.size());
    return m;
}
inline std::string fixed(const char* p, size_t n) { return std::string(p, strnlen(p, n)); }
inline std::map<int, int> verify_atts(IAttachmentRepository* r, const std::map<int, Att>& want, const std::set<int>& indet, const char* who)
{
    std::vector<std::pair<int, AttachmentInfo>> got; std::set<int> idx;
    r->EnumerateAttachments([&](int i, const AttachmentInfo& a) { if (!idx.insert(i).second) fail("duplicate-index", "%s: attachment index %d enumerated twice", who, i); got.emplace_back(i, a); return true; });
    if (r->GetAttachmentCount() != (int)got.size()) fail("attachment-count", "%s: attachment count %d, but %zu enumerated", who, r->GetAttachmentCount(), got.size());
    std::set<int> left; for (auto& w : want) if (!indet.count(w.first)) left.insert(w.first);
    std::map<int, int> m; int unmatched = 0;
    for (auto& g : got) {
        int hit = 0; std::string last = "no such attachment";
        auto same = [&](const AttachmentInfo& a, const Att& w) { return memcmp(&a.contentGuid, &w.guid, sizeof(GUID)) == 0 && std::string(a.contentFileType) == fixed(w.type, 8) && a.name == fixed(w.name, 80); };
        std::shared_ptr<IAttachment> at; std::string rerr;
        try { at = r->ReadAttachment(g.first); if (!at) fail("read-null", "%s: enumerated attachment %d cannot be read", who, g.first); } catch (const std::exception& e) { rerr = e.what(); }
        for (int id : left) {
            const Att& w = want.at(id);
            if (!same(g.second, w)) continue;
            if (!at) { last = "read failed: " + rerr; continue; }
            const void* p = nullptr; size_t n = 0; at->DangerousGetRawData(p, n); size_t n2 = 0; auto sp = at->GetRawData(&n2);
            if (n != n2 || (n && memcmp(p, sp.get(), n))) fail("raw-data-inconsistent", "%s: raw data accessors of attachment %d disagree", who, g.first);
            if (n != w.data.size()) { last = "size " + std::to_string(n) + " != " + std::to_string(w.data.size()); continue; }
            if (n && memcmp(p, w.data.data(), n)) { last = "content differs"; continue; }
            if (!same(at->GetAttachmentInfo(), w)) { last = "info of the attachment object differs"; continue; }
            AttachmentInfo ti; if (!r->TryGetAttachmentInfo(g.first, &ti) || !same(ti, w)) { last = "TryGetAttachmentInfo differs"; continue; }
            hit = id; break;
        }
        if (hit) { left.erase(hit); m[g.first] = hit; continue; }
        if (!indet.empty() && unmatched < (int)indet.size()) { ++unmatched; continue; }
        fail("wrong-attachment", "%s: enumerated attachment %d '%s' '%s' matches no attachment that should exist: %s", who, g.first, g.second.name.c_str(), g.second.contentFileType, last.c_str());
    }
    if (!left.empty()) fail("lost-attachment", "%s: attachment '%s' is missing (%zu of %zu enumerated)", who, fixed(want.at(*left.begin()).name, 80).c_str(), got.size(), want.size());
    // query by type / name
    if (!want.empty() && indet.empty()) {
        auto it = want.begin(); std::advance(it, C.draw((uint32_t)want.size())); std::string ty = fixed(it->second.type, 8), nm = fixed(it->second.name, 80);
        bool bt = C.flip(1, 2), bn = C.flip(1, 2); int exp = 0, n = 0;
        for (auto& w : want) if ((!bt || fixed(w.second.type, 8) == ty) && (!bn || fixed(w.second.name, 80) == nm)) ++exp;
        r->EnumerateSubset(bt ? ty.c_str() : nullptr, bn ? nm.c_str() : nullptr, [&](int i, const AttachmentInfo& a) { ++n; auto f = m.find(i); if (f == m.end() || fixed(want.at(f->second).name, 80) != a.name || fixed(want.at(f->second).type, 8) != a.contentFileType) fail("attachment-subset", "%s: attachment query reported index %d with wrong information", who, i); return true; });
        if (n != exp) fail("attachment-subset", "%s: attachment query (type %s, name %s) found %d, expected %d", who, bt ? ty.c_str() : "any", bn ? nm.c_str() : "any", n, exp);
    }
    if (!got.empty() && C.flip(1, 3)) {
        size_t stop = 1 + C.draw((uint32_t)got.size()), n = 0; int how = 1 + C.draw(2), nest = C.draw(2); struct Stop {};
        try { r->EnumerateAttachments([&](int i, const AttachmentInfo&) { if (n >= stop) fail("enumeration", "%s: the enumeration of attachments went on after it was to end", who); if (i != got[n].first) fail("enumeration", "%s: attachments are enumerated in another order", who); AttachmentInfo t; if (nest && !r->TryGetAttachmentInfo(i, &t)) fail("enumeration", "%s: attachment %d is not known inside of the callback that reports it", who, i); if (++n == stop) { if (how == 2) throw Stop(); return false; } return true; }); if (how == 2) fail("enumeration", "%s: the exception of a callback was swallowed", who); } catch (const Stop&) {}
        if (n != stop) fail("enumeration", "%s: the enumeration of attachments ended after %zu instead of %zu", who, n, stop);
        AttachmentInfo t; int bad = got.back().first; for (auto& g : got) bad = std::max(bad, g.first); if (r->TryGetAttachmentInfo(C.flip(1, 2) ? bad + 1 + (int)C.draw(1u << 20) : -1 - (int)C.draw(5), &t)) fail("info-invented", "%s: information about an attachment that does not exist", who);
    }
    return m;
}
inline void verify_meta_seg(IMetadataSegment* ms, const Meta& want, const char* who)
{
    const void* p = nullptr; size_t n = 0; ms->DangerousGetRawData(IMetadataSegment::XmlMetadata, p, n);
    if (n != want.xml.size() || (n && memcmp(p, want.xml.data(), n))) fail("wrong-metadata", "%s: metadata XML differs (%zu bytes, expected %zu)", who, n, want.xml.size());
    p = nullptr; n = 0; ms->DangerousGetRawData(IMetadataSegment::Attachment, p, n);
    if (n != want.att.size() || (n && memcmp(p, want.att.data(), n))) fail("wrong-metadata", "%s: metadata attachment differs (%zu bytes, expected %zu)", who, n, want.att.size());
}
template <class R> void verify_meta(R* r, const Meta& want, const char* who)
{
    std::shared_ptr<IMetadataSegment> ms;
    try { ms = r->ReadMetadataSegment(); } catch (const LibCZISegmentNotPresent&) { ms.reset(); } catch (const std::exception& e) { fail("wrong-metadata", "%s: reading the metadata failed: %s", who, e.what()); }
    if (!want.present) { if (ms) fail("wrong-metadata", "%s: metadata present although none was written", who); return; }
    if (!ms) fail("lost-metadata", "%s: metadata is missing", who);
    verify_meta_seg(ms.get(), want, who);
}

// ---- statistics model
inline void rect_add(IntRect& r, bool& valid, const Sub& s)
{
    if (!valid) { r = IntRect{s.x, s.y, s.lw, s.lh}; valid = true; return; }
    int x2 = std::max(r.x + r.w, s.x + s.lw), y2 = std::max(r.y + r.h, s.y + s.lh); r.x = std::min(r.x, s.x); r.y = std::min(r.y, s.y); r.w = x2 - r.x; r.h = y2 - r.y;
}
inline bool rect_eq(const IntRect& a, const IntRect& b) { return a.x == b.x && a.y == b.y && a.w == b.w && a.h == b.h; }
inline void verify_statistics(const SubBlockStatistics& st, const std::map<int, Sub>& want, const char* who)
{
    if (st.subBlockCount != (int)want.size()) fail("stat-count", "%s: statistics count %d sub-blocks, %zu exist", who, st.subBlockCount, want.size());
    IntRect bb{}, b0{}; bool vb = false, v0 = false; std::map<int, std::pair<int, int>> dims; bool mv = false; int mn = 0, mx = 0; std::map<int, std::pair<IntRect, bool>> sc, sc0;
    for (auto& w : want) {
        const Sub& s = w.second; rect_add(bb, vb, s); if (s.layer0()) rect_add(b0, v0, s);
        for (int i = (int)DimensionIndex::MinDim; i <= (int)DimensionIndex::MaxDim; ++i) { int v; if (s.coord.TryGetPosition((DimensionIndex)i, &v)) { auto f = dims.find(i); if (f == dims.end()) dims[i] = {v, v}; else { f->second.first = std::min(f->second.first, v); f->second.second = std::max(f->second.second, v); } } }
        if (s.mValid) { if (!mv) { mn = mx = s.m; mv = true; } else { mn = std::min(mn, s.m); mx = std::max(mx, s.m); } }
        int v; if (s.coord.TryGetPosition(DimensionIndex::S, &v)) { auto& e = sc[v]; rect_add(e.first, e.second, s); auto& e0 = sc0[v]; if (s.layer0()) rect_add(e0.first, e0.second, s); }
    }
    if (st.IsMIndexValid() != mv || (mv && (st.minMindex != mn || st.maxMindex != mx))) fail("stat-mindex", "%s: m-index range [%d,%d] (valid %d), expected [%d,%d] (valid %d)", who, st.minMindex, st.maxMindex, st.IsMIndexValid(), mn, mx, mv);
    if (st.boundingBox.IsValid() != vb || (vb && !rect_eq(st.boundingBox, bb))) fail("stat-bbox", "%s: bounding box (%d,%d,%d,%d), expected (%d,%d,%d,%d)", who, st.boundingBox.x, st.boundingBox.y, st.boundingBox.w, st.boundingBox.h, bb.x, bb.y, bb.w, bb.h);
    if (st.boundingBoxLayer0Only.IsValid() != v0 || (v0 && !rect_eq(st.boundingBoxLayer0Only, b0))) fail("stat-bbox0", "%s: layer-0 bounding box (%d,%d,%d,%d), expected (%d,%d,%d,%d)", who, st.boundingBoxLayer0Only.x, st.boundingBoxLayer0Only.y, st.boundingBoxLayer0Only.w, st.boundingBoxLayer0Only.h, b0.x, b0.y, b0.w, b0.h);
    for (int i = (int)DimensionIndex::MinDim; i <= (int)DimensionIndex::MaxDim; ++i) {
        int a, n; bool h = st.dimBounds.TryGetInterval((DimensionIndex)i, &a, &n); auto f = dims.find(i);
        if (h != (f != dims.end()) || (h && (a != f->second.first || n != f->second.second - f->second.first + 1))) fail("stat-dims", "%s: bounds of dimension %c are wrong", who, Utils::DimensionToChar((DimensionIndex)i));
    }
    if (st.sceneBoundingBoxes.size() != sc.size()) fail("stat-scenes", "%s: %zu scenes in the statistics, %zu exist", who, st.sceneBoundingBoxes.size(), sc.size());
    for (auto& e : sc) {
        auto f = st.sceneBoundingBoxes.find(e.first); if (f == st.sceneBoundingBoxes.end()) fail("stat-scenes", "%s: scene %d is missing", who, e.first);
        if (!rect_eq(f->second.boundingBox, e.second.first)) fail("stat-scenes", "%s: bounding box of scene %d is wrong", who, e.first);
        auto& z = sc0[e.first]; if (f->second.boundingBoxLayer0.IsValid() != z.second || (z.second && !rect_eq(f->second.boundingBoxLayer0, z.first))) fail("stat-scenes", "%s: layer-0 bounding box of scene %d is wrong", who, e.first);
    }
}
// what the writer prepares as metadata is derived from the sub-blocks
inline std::string xml_value(const std::string& x, const std::string& tag) { size_t a = x.find("<" + tag + ">"); if (a == std::string::npos) return ""; a += tag.size() + 2; size_t b = x.find("</" + tag + ">", a); return b == std::string::npos ? "" : x.substr(a, b - a); }
inline void verify_prepared(ICziWriter* w, const std::map<int, Sub>& subs, const char* who)
{
    PrepareMetadataInfo pi; bool named = C.flip(1, 2); std::set<int> asked; if (named) pi.funcGenerateIdAndNameForChannel = [&](int c) { asked.insert(c); return std::make_tuple("Ch" + std::to_string(c), std::make_tuple(c % 2 != 0, std::string("N") + std::to_string(c))); };
    std::string x = w->GetPreparedMetadata(pi)->GetXml(); std::map<char, std::pair<int, int>> dims; IntRect bb{}; bool vb = false; bool mv = false; int mn = 0, mx = 0; std::map<int, std::set<int>> pts;
    for (auto& e : subs) {
        const Sub& s = e.second; rect_add(bb, vb, s); if (s.mValid) { mn = mv ? std::min(mn, s.m) : s.m; mx = mv ? std::max(mx, s.m) : s.m; mv = true; }
        for (int i = (int)DimensionIndex::MinDim; i <= (int)DimensionIndex::MaxDim; ++i) { int v; if (!s.coord.TryGetPosition((DimensionIndex)i, &v)) continue; if (i == (int)DimensionIndex::C) pts[v].insert((int)s.pt); auto f = dims.find(Utils::DimensionToChar((DimensionIndex)i)); if (f == dims.end()) dims[Utils::DimensionToChar((DimensionIndex)i)] = {v, v}; else { f->second.first = std::min(f->second.first, v); f->second.second = std::max(f->second.second, v); } }
    }
    auto want = [&](const std::string& t, bool there, long long v) { std::string g = xml_value(x, t), e = there ? std::to_string(v) : ""; if (g != e) fail("stat-prepared", "%s: the prepared metadata gives %s '%s', expected '%s'", who, t.c_str(), g.c_str(), e.c_str()); };
    if (vb) { want("SizeX", true, bb.w); want("SizeY", true, bb.h); }
    for (int i = (int)DimensionIndex::MinDim; i <= (int)DimensionIndex::MaxDim; ++i) { char c = Utils::DimensionToChar((DimensionIndex)i); auto f = dims.find(c); want(std::string("Size") + c, f != dims.end(), f == dims.end() ? 0 : (long long)f->second.second - f->second.first + 1); }
    if (!mv || (long long)mx - mn < 0x7fffffffll) want("SizeM", mv, (long long)mx - mn + 1);
    auto c = dims.find('C'); if (c == dims.end()) return;
    for (int k = c->second.first; k <= c->second.second; ++k) {
        std::string id = named ? "Id=\"Ch" + std::to_string(k) + "\"" : "Id=\"Channel:" + std::to_string(k) + "\""; size_t a = x.find(id); if (a == std::string::npos) fail("stat-prepared", "%s: channel %d is missing in the prepared metadata", who, k);
        if (named && (!asked.count(k) || (x.find("Name=\"N" + std::to_string(k) + "\"") != std::string::npos) != (k % 2 != 0))) fail("stat-prepared", "%s: the name of channel %d is wrong in the prepared metadata", who, k);
        size_t b = x.find("</Channel>", a), n2 = x.find("<Channel ", a); if (n2 < b) b = a; std::string pt = b == std::string::npos ? "" : xml_value(x.substr(a, b - a), "PixelType"); auto f = pts.find(k); if (f == pts.end()) { if (!pt.empty()) fail("stat-prepared", "%s: channel %d has a pixel type in the prepared metadata but no sub-block", who, k); continue; }
        std::string low = pt; for (auto& ch : low) ch = (char)tolower(ch);
        bool ok = false; for (int t : f->second) { PixelType p = (PixelType)t; std::string e = p == PixelType::Gray32 || p == PixelType::Gray64Float ? "" : Utils::PixelTypeToInformalString(p); ok |= low == e; }
        if (!ok) fail("stat-prepared", "%s: channel %d has pixel type '%s' in the prepared metadata, which no sub-block of it has", who, k, pt.c_str());
    }
}
inline void verify_pyramid_statistics(const PyramidStatistics& ps, const std::map<int, Sub>& want, const char* who)
{
    // model: per scene, number of sub-blocks per exact integer minification factor class
    std::map<int, std::map<std::pair<int, int>, int>> exp;
    for (auto& w : want) {
        const Sub& s = w.second; int sc; if (!s.coord.TryGetPosition(DimensionIndex::S, &sc)) sc = std::numeric_limits<int>::max();
        std::pair<int, int> k{0, 0};
        if (!s.layer0()) { int f = s.pw > s.ph ? s.lw / s.pw : s.lh / s.ph; k = {255, 255}; int p = 1; for (int q = 2; q <= 1024; q *= 2, ++p) if (q == f) k = {2, p}; p = 1; for (int q = 3; q <= 2187; q *= 3, ++p) if (q == f) k = {3, p}; }
        exp[sc][k]++;
    }
    if (ps.scenePyramidStatistics.size() != exp.size()) fail("stat-pyramid", "%s: pyramid statistics for %zu scenes, expected %zu", who, ps.scenePyramidStatistics.size(), exp.size());
    for (auto& e : exp) {
        auto f = ps.scenePyramidStatistics.find(e.first); if (f == ps.scenePyramidStatistics.end()) fail("stat-pyramid", "%s: scene %d missing in pyramid statistics", who, e.first);
        std::map<std::pair<int, int>, int> got; bool seen_un = false; double lastf = -1;
        for (auto& l : f->second) {
            got[{(int)l.layerInfo.minificationFactor, (int)l.layerInfo.pyramidLayerNo}] += l.count;
            double fac = l.layerInfo.IsLayer0() ? 0 : l.layerInfo.IsNotIdentifiedAsPyramidLayer() ? 1e9 : std::pow((double)l.layerInfo.minificationFactor, (double)l.layerInfo.pyramidLayerNo);
            if (fac < lastf || seen_un) fail("stat-pyramid-order", "%s: pyramid statistics of scene %d are not in ascending order", who, e.first);
            lastf = fac;
        }
        if (got != e.second) fail("stat-pyramid", "%s: pyramid layer counts of scene %d are wrong", who, e.first);
    }
}

// Queries of the repository which are functions of the document: subset enumeration and 'arbitrary sub-block in channel'
inline void verify_queries(ISubBlockRepository* r, const std::map<int, Sub>& want, const std::map<int, int>& idx, const char* who)
{
    bool usePlane = C.flip(1, 2) && !want.empty(), useRoi = C.flip(1, 2), l0 = C.flip(1, 2);
    CDimCoordinate plane; IntRect roi{0, 0, 0, 0};
    if (usePlane) { auto it = want.begin(); std::advance(it, C.draw((uint32_t)want.size())); it->second.coord.EnumValidDimensions([&](DimensionIndex d, int v) { if (d != DimensionIndex::S && C.flip(2, 3)) plane.Set(d, v); return true; }); }
    if (useRoi) roi = IntRect{(int)C.draw(50) - 5, (int)C.draw(50) - 5, 1 + (int)C.draw(30), 1 + (int)C.draw(30)};
    std::set<int> exp, got;
    for (auto& i : idx) {
        const Sub& s = want.at(i.second); if (l0 && !s.layer0()) continue;
        if (usePlane) { bool ok = true; plane.EnumValidDimensions([&](DimensionIndex d, int v) { int q; if (!s.coord.TryGetPosition(d, &q) || q != v) ok = false; return true; }); if (!ok) continue; }
        if (useRoi) { if (!(roi.x < s.x + s.lw && s.x < roi.x + roi.w && roi.y < s.y + s.lh && s.y < roi.y + roi.h)) continue; }
        exp.insert(i.first);
    }
    r->EnumSubset(usePlane ? &plane : nullptr, useRoi ? &roi : nullptr, l0, [&](int i, const SubBlockInfo& info) { got.insert(i); auto f = idx.find(i); if (f == idx.end() || !info_diff(info, want.at(f->second)).empty()) fail("subset-info", "%s: subset enumeration reports wrong information for index %d", who, i); return true; });
    if (got != exp) fail("subset", "%s: subset enumeration returned %zu sub-blocks, expected %zu", who, got.size(), exp.size());
    // some sub-block of a channel
    if (!want.empty() && C.flip(1, 2)) {
        std::set<int> cs; for (auto& w : want) { int v; if (w.second.coord.TryGetPosition(DimensionIndex::C, &v)) cs.insert(v); }
        int c = cs.empty() ? (int)C.draw(3) : *std::next(cs.begin(), C.draw((uint32_t)cs.size())); if (C.flip(1, 4)) c += C.flip(1, 2) ? 1 : -1;
        SubBlockInfo t; bool have = r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c, t), should = cs.empty() || cs.count(c), hit = false;
        if (have) for (auto& i : idx) { const Sub& s = want.at(i.second); int v; hit |= info_diff(t, s).empty() && (cs.empty() || (s.coord.TryGetPosition(DimensionIndex::C, &v) && v == c)); }
        if (have != should || (have && !hit)) fail("arbitrary-subblock", "%s: the sub-block reported for channel %d %s", who, c, !should ? "does not exist" : !have ? "is missing" : "is none of that channel");
    }
    if (auto rd = dynamic_cast<ICZIReader*>(r)) if (C.flip(1, 3)) {   // the directory's own information
        std::set<int> seen; std::set<uint64_t> pos;
        rd->EnumerateSubBlocksEx([&](int i, const DirectorySubBlockInfo& info) { auto f = idx.find(i); if (f == idx.end() || !seen.insert(i).second || !info_diff(info, want.at(f->second)).empty() || !pos.insert(info.filePosition).second || info.filePosition % 32) fail("directory-info", "%s: the extended enumeration reports wrong information for index %d", who, i); return true; });
        if (seen.size() != idx.size()) fail("directory-info", "%s: the extended enumeration visits %zu of %zu items", who, seen.size(), idx.size());
    }
    // An enumeration ends when its callback says so or throws, always visits the same items, and its callback may use the object
    if (idx.empty() || !C.flip(1, 2)) return;
    int how = C.draw(3), reent = C.draw(3); size_t stop = C.draw((uint32_t)idx.size()) + 1; std::vector<int> all, part; struct Stop {}; bool sub = C.flip(1, 3);
    auto each = [&](const std::function<bool(int, const SubBlockInfo&)>& f) { if (sub) r->EnumSubset(nullptr, nullptr, false, f); else r->EnumerateSubBlocks(f); };
    each([&](int i, const SubBlockInfo&) { all.push_back(i); return true; });
    if (all.size() != idx.size()) fail("enumeration", "%s: an enumeration visits %zu items of %zu", who, all.size(), idx.size());
    try {
        each([&](int i, const SubBlockInfo& info) {
            if (part.size() >= stop && how) fail("enumeration", "%s: the enumeration went on after its callback had %s", who, how == 1 ? "returned false" : "thrown");
            part.push_back(i); SubBlockInfo t; if (reent == 1 && (!r->TryGetSubBlockInfo(i, &t) || Utils::Compare(&t.coordinate, &info.coordinate))) fail("enumeration", "%s: item %d is not known inside of the callback that reports it", who, i);
            if (reent == 2) { int n = 0; r->EnumerateSubBlocks([&](int, const SubBlockInfo&) { ++n; return true; }); if (n != (int)idx.size()) fail("enumeration", "%s: a nested enumeration visits %d items of %zu", who, n, idx.size()); r->GetStatistics(); }
            if (part.size() == stop && how == 2) throw Stop(); return !(part.size() == stop && how == 1); });
        if (how == 2) fail("enumeration", "%s: the exception of a callback was swallowed", who);
    } catch (const Stop&) {}
    if (how) all.resize(stop); if (all != part) fail("enumeration", "%s: an enumeration visited %zu items, expected %zu, or in another order", who, part.size(), all.size());
    SubBlockInfo t; int bad = *std::max_element(all.begin(), all.end()) + 1000 + (int)C.draw(1u << 30); if (r->TryGetSubBlockInfo(C.flip(1, 2) ? bad : -1 - (int)C.draw(5), &t)) fail("info-invented", "%s: information about a sub-block that does not exist", who);
}

// ---- independent parser of the stored bytes (layout)
struct Seg { uint64_t pos, alloc, used; std::string id; };
inline uint64_t le64(const Bytes& d, uint64_t o) { uint64_t v = 0; if (o + 8 > d.size()) return ~0ull; memcpy(&v, d.data() + o, 8); return v; }
inline uint32_t le32(const Bytes& d, uint64_t o) { uint32_t v = 0; if (o + 4 > d.size()) return ~0u; memcpy(&v, d.data() + o, 4); return v; }
inline bool seg_at(const Bytes& d, uint64_t p, Seg& s)
{
    if (p + 32 > d.size()) return false; char id[17] = {}; memcpy(id, d.data() + p, 16); s = Seg{p, le64(d, p + 16), le64(d, p + 24), id}; return true;
}
inline void verify_layout(const Bytes& d, const char* who, bool chain, bool skip_meta = false)
{
    Seg h; if (!seg_at(d, 0, h) || h.id != "ZISRAWFILE") fail("layout-header", "%s: no file header segment at offset 0", who);
    uint64_t dirp = le64(d, 32 + 52), metap = le64(d, 32 + 60), attp = le64(d, 32 + 72);
    std::vector<Seg> refs; refs.push_back(h);
    auto need = [&](uint64_t p, const char* id, const char* what) { Seg s; if (!seg_at(d, p, s)) fail("layout-dangling", "%s: %s at %llu lies outside the file (%zu bytes)", who, what, (unsigned long long)p, d.size()); if (s.id != id) fail("layout-magic", "%s: %s at %llu is a '%s' segment", who, what, (unsigned long long)p, s.id.c_str()); refs.push_back(s); return s; };
    if (dirp) {
        Seg s = need(dirp, "ZISRAWDIRECTORY", "sub-block directory"); uint32_t n = le32(d, dirp + 32); uint64_t o = dirp + 32 + 128;
        for (uint32_t i = 0; i < n; ++i) {
            if (o + 32 > s.pos + 32 + s.used) fail("layout-directory", "%s: sub-block directory entry %u of %u exceeds the used size", who, i, n);
            if (d[o] != 'D' || d[o + 1] != 'V') fail("layout-directory", "%s: sub-block directory entry %u has no valid schema", who, i);
            uint64_t fp = le64(d, o + 6); uint32_t dc = le32(d, o + 28); Seg b = need(fp, "ZISRAWSUBBLOCK", "sub-block");
            uint32_t ms = le32(d, fp + 32), as = le32(d, fp + 36); uint64_t ds = le64(d, fp + 40);
            uint64_t hdr = std::max<uint64_t>(256, 16 + 32 + 20ull * dc);
            if (hdr + ms + as + ds > b.used) fail("layout-subblock", "%s: payload of the sub-block at %llu exceeds its used size", who, (unsigned long long)fp);
            if (memcmp(d.data() + o, d.data() + fp + 48, 6) || memcmp(d.data() + o + 18, d.data() + fp + 48 + 18, 14 + 20 * dc)) fail("layout-entry-mismatch", "%s: directory entry and sub-block header at %llu disagree", who, (unsigned long long)fp);
            o += 32 + 20ull * dc;
        }
        if (o > s.pos + 32 + s.used) fail("layout-directory", "%s: sub-block directory exceeds its used size", who);
    }
    if (attp) {
        Seg s = need(attp, "ZISRAWATTDIR", "attachment directory"); uint32_t n = le32(d, attp + 32);
        if (256 + 128ull * n > s.used) fail("layout-attdir", "%s: attachment directory exceeds its used size", who);
        for (uint32_t i = 0; i < n; ++i) { uint64_t o = attp + 32 + 256 + 128ull * i; if (d[o] != 'A' || d[o + 1] != '1') fail("layout-attdir", "%s: attachment directory entry %u has no valid schema", who, i); uint64_t fp = le64(d, o + 12); Seg b = need(fp, "ZISRAWATTACH", "attachment"); if (256 + (uint64_t)le32(d, fp + 32) > b.used) fail("layout-attachment", "%s: payload of the attachment at %llu exceeds its used size", who, (unsigned long long)fp);
            if (d[fp + 48] != 'A' || d[fp + 49] != '1' || memcmp(&d[fp + 48 + 24], &d[o + 24], 104)) fail("layout-attachment", "%s: the header of the attachment at %llu disagrees with its directory entry", who, (unsigned long long)fp); }
    }
    if (metap && !skip_meta) { Seg s = need(metap, "ZISRAWMETADATA", "metadata"); if (256 + (uint64_t)le32(d, metap + 32) + le32(d, metap + 36) > s.used) fail("layout-metadata", "%s: metadata payload exceeds the used size", who); }
    std::sort(refs.begin(), refs.end(), [](const Seg& a, const Seg& b) { return a.pos < b.pos; });
    for (size_t i = 0; i < refs.size(); ++i) {
        auto& s = refs[i];
        if (s.used > s.alloc) fail("layout-size", "%s: segment '%s' at %llu: used %llu > allocated %llu", who, s.id.c_str(), (unsigned long long)s.pos, (unsigned long long)s.used, (unsigned long long)s.alloc);
        if (s.pos % 32) fail("layout-align", "%s: segment '%s' at %llu is not aligned", who, s.id.c_str(), (unsigned long long)s.pos);
        if (s.pos + 32 + s.alloc > d.size()) fail("layout-truncated", "%s: segment '%s' at %llu (+%llu) exceeds the file (%zu)", who, s.id.c_str(), (unsigned long long)s.pos, (unsigned long long)s.alloc, d.size());
        if (i && refs[i - 1].pos + 32 + refs[i - 1].alloc > s.pos) fail("layout-overlap", "%s: segments '%s' at %llu and '%s' at %llu overlap", who, refs[i - 1].id.c_str(), (unsigned long long)refs[i - 1].pos, s.id.c_str(), (unsigned long long)s.pos);
    }
    if (chain) {   // walking the segments from the start reaches every referenced segment
        uint64_t p = 0; size_t k = 0;
        while (k < refs.size()) {
            Seg s; if (!seg_at(d, p, s)) fail("layout-chain", "%s: segment chain ends at %llu before the segment at %llu", who, (unsigned long long)p, (unsigned long long)refs[k].pos);
            static const char* ids[] = {"ZISRAWFILE", "ZISRAWDIRECTORY", "ZISRAWSUBBLOCK", "ZISRAWMETADATA", "ZISRAWATTACH", "ZISRAWATTDIR", "DELETED"}; bool ok = false; for (auto i : ids) ok |= s.id == i;
            if (!ok) fail("layout-chain", "%s: no valid segment at %llu when walking the file", who, (unsigned long long)p);
            if (p == refs[k].pos) ++k; else if (p > refs[k].pos) fail("layout-chain", "%s: walking the segments skips the referenced segment at %llu", who, (unsigned long long)refs[k].pos);
            if (s.alloc > d.size()) fail("layout-chain", "%s: segment at %llu has a bogus allocated size", who, (unsigned long long)p);
            p += 32 + s.alloc;
        }
    }
}

// duplicate rules as documented / implemented for the two writers
inline float zoom_of(const Sub& s) { return Utils::CalcZoom(IntSize{(uint32_t)s.lw, (uint32_t)s.lh}, IntSize{(uint32_t)s.pw, (uint32_t)s.ph}); }
inline bool writer_dup(const Sub& a, const Sub& b)
{
    if (std::fabs(zoom_of(a) - zoom_of(b)) > 0.0001) return false;
    if (Utils::Compare(&a.coord, &b.coord) != 0 || a.mValid != b.mValid) return false;
    if (a.mValid) return a.m == b.m;
    return a.x == b.x && a.y == b.y;
}
inline bool rw_dup(const Sub& a, const Sub& b) { return Utils::Compare(&a.coord, &b.coord) == 0 && a.mValid && b.mValid && a.m == b.m && a.layer0() && b.layer0(); }
inline bool att_dup(const Att& a, const Att& b) { return !memcmp(&a.guid, &b.guid, sizeof(GUID)) && fixed(a.name, 80) == fixed(b.name, 80) && fixed(a.type, 8) == fixed(b.type, 8); }

} // namespace sim

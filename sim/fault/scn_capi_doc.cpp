// C16: the C interface: document information, display settings.
#include "fault/capi.h"
#include "rapidjson/document.h"
#include <cmath>
using namespace sim;
using namespace sim::capi;
namespace sim { namespace capi { void begin(); } }

namespace {
typedef std::map<std::string, std::string> Flat;   // path -> value, prefixed with its kind
std::string num(double d) { char b[60]; snprintf(b, sizeof(b), "n:%.17g", d); return b; }
void flatten(const rapidjson::Value& v, const std::string& p, Flat& f)
{
    if (v.IsObject()) { for (auto& m : v.GetObject()) { std::string k = m.name.GetString(); std::string q = p.empty() ? k : p + "." + k; if (m.value.IsObject() && m.value.MemberCount() == 0) f[q] = "{}"; if (f.count(q) && f[q] != "{}") fail("bad-json", "the key %s occurs twice", q.c_str()); flatten(m.value, q, f); } }
    else if (v.IsArray()) { std::string s = "["; for (auto& e : v.GetArray()) { if (!e.IsNumber()) fail("bad-json", "%s contains something which is not a number", p.c_str()); s += num(e.GetDouble()) + " "; } f[p] = s + "]"; }
    else if (v.IsString()) f[p] = "s:" + std::string(v.GetString(), v.GetStringLength());
    else if (v.IsNumber()) f[p] = num(v.GetDouble());
    else fail("bad-json", "%s has an unexpected type", p.c_str());
}
std::string flat_diff(const Flat& got, const Flat& want)
{
    for (auto& w : want) { auto i = got.find(w.first); if (i == got.end()) return w.first + " is missing, expected " + w.second; if (i->second != w.second) return w.first + " is " + i->second + ", expected " + w.second; }
    for (auto& g : got) if (!want.count(g.first)) return g.first + " = " + g.second + " is not in the document"; return "";
}
std::string esc(const std::string& s) { std::string r; for (char c : s) switch (c) { case '&': r += "&amp;"; break; case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '"': r += "&quot;"; break; default: r += c; } return r; }
std::string word()
{
    static const char* w[] = {"a", "Zeiss", "two words", "quote\"d", "back\\slash", "<tag> & more", "\xc3\xbcml\xc3\xa4ut", "\xe2\x82\xac", "\xf0\x9f\x94\xac scope", "line\nbreak", "tab\tx", "12", "{\"a\":1}", "AF488", "#FF00FF00", "\xe4\xb8\xad\xe6\x96\x87"};
    std::string s = w[C.draw(16)]; if (C.flip(1, 4)) { s += " "; s += w[C.draw(16)]; } return s;
}
std::string real() { static const char* r[] = {"0", "1", "-1.5", "0.25", "3.5e-7", "488.1", "1e-06", "123456.789", "0.1", "-7", "65535"}; if (C.flip(1, 3)) { char b[40]; snprintf(b, sizeof(b), "%d.%03u", (int)C.draw(2000) - 1000, C.draw(1000)); return b; } return r[C.draw(11)]; }

struct Chan { bool enabled = true, tint = true; float weight = 1, lo = 0, hi = 1, gamma = 1; int mode = 0; uint8_t r = 255, g = 255, b = 255; std::vector<std::pair<double, double>> pts; };
// a document's metadata and what it says
struct Info {
    std::string xml; Flat general, z, t, ch; bool hasZ = false, hasT = false, hasC = false, hasDisp = false; double scale[3]; std::vector<uint32_t> dims; std::vector<Chan> disp;
    static std::string el(const char* n, const std::string& v) { if (v.empty() && C.flip(1, 2)) return std::string("<") + n + "/>"; return std::string("<") + n + ">" + esc(v) + "</" + n + ">"; }
    static bool has() { return C.flip(1, 2); }
    void text(std::string& x, Flat& f, const char* n, const std::string& key) { if (!has()) return; std::string v = C.flip(1, 8) ? "" : word(); x += el(n, v); f[key] = "s:" + v; }
    void dbl(std::string& x, Flat& f, const char* n, const std::string& key) { if (!has()) return; std::string v = real(); x += el(n, v); f[key] = num(strtod(v.c_str(), nullptr)); }
    void integer(std::string& x, Flat& f, const char* n, const std::string& key) { if (!has()) return; int v = (int)C.draw(200) - 50; x += el(n, std::to_string(v)); f[key] = num(v); }
    void en(std::string& x, Flat& f, const char* n, const std::string& key, std::initializer_list<std::pair<const char*, const char*>> v)
    {
        if (!has()) return; int i = C.draw((uint32_t)v.size() + 1); if (i == (int)v.size()) { x += el(n, "Nonsense"); return; } auto p = v.begin()[i]; x += el(n, p.first); f[key] = std::string("s:") + p.second;
    }
    void names(std::string& x, Flat& f, const char* n, const std::string& key, std::initializer_list<const char*> v) { if (!has()) return; int i = C.draw((uint32_t)v.size() + 1); if (i == (int)v.size()) { x += el(n, "Nonsense"); return; } x += el(n, v.begin()[i]); f[key] = std::string("s:") + v.begin()[i]; }
    void positions(std::string& x, Flat& f, const char* list)
    {
        if (!has()) return; std::string p;
        bool iv = C.flip(1, 2); if (iv) { std::string a = C.flip(1, 6) ? "" : real(), b = C.flip(1, 6) ? "" : real(); p += "<Interval>" + (a.empty() ? "" : el("Start", a)) + (b.empty() ? "" : el("Increment", b)) + "</Interval>"; f["interval_definition"] = "[" + num(a.empty() ? 0 : strtod(a.c_str(), nullptr)) + " " + num(b.empty() ? 0 : strtod(b.c_str(), nullptr)) + " ]"; }
        if (!iv || C.flip(1, 6)) { std::string s, e = "["; int n = 1 + C.draw(5); for (int i = 0; i < n; ++i) { std::string v = real(); s += (i ? " " : "") + v; e += num(strtod(v.c_str(), nullptr)) + " "; } if (C.flip(1, 8)) s += " 5\xf4\x80\x80\x80 7"; p += "<List>" + el("Offsets", s) + "</List>"; if (!iv) f[list] = e + "]"; }
        x += "<Positions>" + p + "</Positions>";
    }
    void spectrum(std::string& x, const char* n, const std::string& key)
    {
        if (!has()) return; std::string s; if (C.flip(1, 2)) { std::string v = real(); s = el("SinglePeak", v); ch[key + ".type"] = "s:SinglePeak"; ch[key + ".single_peak"] = num(strtod(v.c_str(), nullptr)); }
        else if (C.flip(1, 6)) s = C.flip(1, 2) ? "" : "<Ranges>abc</Ranges>";
        else { std::string a, b; int k = 1 + C.draw(3); for (int i = 0; i < k; ++i) { std::string v = std::to_string(400 + C.draw(300)); if (C.flip(1, 2)) v += "-" + std::to_string(700 + C.draw(99)); a += (i ? C.flip(1, 2) ? ", " : "," : "") + v; b += (i ? "," : "") + v; } s = el("Ranges", a); ch[key + ".type"] = "s:Ranges"; ch[key + ".ranges"] = "s:" + b; }
        x += std::string("<") + n + ">" + s + "</" + n + ">"; if (!ch.count(key + ".type")) return; ch.erase(key);
    }
    std::string channel(int i)
    {
        std::string k = std::to_string(i), a, x; ch[k] = "{}"; size_t n0 = ch.size(); k += ".";
        if (has()) { std::string v = "Channel:" + std::to_string(C.draw(5)); a += " Id=\"" + v + "\""; ch[k + "attribute_id"] = "s:" + v; } if (has()) { std::string v = word(); for (auto& c : v) if (c == '\n' || c == '\t') c = '_'; a += " Name=\"" + esc(v) + "\""; ch[k + "attribute_name"] = "s:" + v; }
        names(x, ch, "ChannelType", k + "channel_type", {"Heightmap", "PalHR", "PalWidefield", "SimHR", "SimWidefield", "SimDWF", "AiryScanSum", "AiryScanRawSr", "AiryScanRaw", "AiryScanSr", "AiryScanVp", "AiryScanMb", "AiryScanRingSheppardSum", "OnlineUnmixing", "Unspecified"});
        text(x, ch, "ChannelUnit", k + "channel_unit"); names(x, ch, "PixelType", k + "pixel_type", {"Gray8", "Gray16", "Gray32Float", "Bgr24", "Bgr48", "Bgr96Float", "Bgra32", "Gray64ComplexFloat", "Bgr192ComplexFloat", "Gray32", "Gray64Float"});
        integer(x, ch, "ComponentBitCount", k + "component_bit_count");
        if (C.flip(1, 8)) { x += el("AcquisitionMode", "FIB-SEM"); ch[k + "acquisition_mode"] = "s:FIB_SEM"; } else names(x, ch, "AcquisitionMode", k + "acquisition_mode", {"WideField", "LaserScanningConfocalMicroscopy", "SpinningDiskConfocal", "SlitScanConfocal", "MultiPhotonMicroscopy", "StructuredIllumination", "SingleMoleculeImaging", "TotalInternalReflection", "FluorescenceLifetime", "SpectralImaging", "FluorescenceCorrelationSpectroscopy", "NearFieldScanningOpticalMicroscopy", "SecondHarmonicGenerationImaging", "PALM", "STORM", "STED", "TIRF", "FSM", "LCM", "SPIM", "SEM", "FIB", "ApertureCorrelation", "Other"});
        names(x, ch, "IlluminationType", k + "illumination_type", {"Transmitted", "Epifluorescence", "Oblique", "NonLinear", "Other"}); names(x, ch, "ContrastMethod", k + "contrast_method", {"Brightfield", "Phase", "DIC", "HoffmanModulation", "ObliqueIllumination", "PolarizedLight", "Darkfield", "Fluorescence", "MultiPhotonFluorescence", "Other"});
        spectrum(x, "IlluminationWavelength", k + "illumination_wavelength"); spectrum(x, "DetectionWavelength", k + "detection_wavelength");
        dbl(x, ch, "ExcitationWavelength", k + "excitation_wavelength"); dbl(x, ch, "EmissionWavelength", k + "emission_wavelength"); dbl(x, ch, "EffectiveNA", k + "effective_na"); text(x, ch, "DyeId", k + "dye_id"); text(x, ch, "DyeDatabaseId", k + "dye_database_id"); dbl(x, ch, "PinholeSize", k + "pinhole_size"); dbl(x, ch, "PinholeSizeAiry", k + "pinhole_size_airy");
        names(x, ch, "PinholeGeometry", k + "pinhole_geometry", {"Circular", "Rectangular", "Other"}); text(x, ch, "Fluor", k + "fluor"); dbl(x, ch, "NDFilter", k + "nd_filter"); integer(x, ch, "PockelCellSetting", k + "pocket_cell_setting");
        if (has()) { char b[40]; int r = C.draw(256), g = C.draw(256), bl = C.draw(256); snprintf(b, sizeof(b), "#%02X%02X%02x%02X", C.draw(256), r, g, bl); static const char* bad[] = {"red", "#12", "", "#GG001122", "#\xf4\x80\x80\x80", "#FF\xf3\xa0\x81\x81"}; bool w = C.flip(1, 5); x += el("Color", w ? bad[C.draw(6)] : b); if (!w) { snprintf(b, sizeof(b), "s:#%02x%02x%02x", r, g, bl); ch[k + "color"] = b; } }
        if (has()) { std::string v = std::to_string(C.draw(1000000)), e = v; if (C.flip(1, 3)) { std::string u = std::to_string(1000000 + C.draw(5)); v += C.flip(1, 2) ? " - " + u : "-" + u; e += "-" + u; } if (C.flip(1, 8)) { v = "soon"; e = ""; } x += el("ExposureTime", v); if (!e.empty()) ch[k + "exposure_time"] = "s:" + e; }
        dbl(x, ch, "DepthOfFocus", k + "depth_of_focus"); dbl(x, ch, "SectionThickness", k + "section_thickness"); text(x, ch, "Reflector", k + "reflector"); text(x, ch, "CondenserContrast", k + "condensor_contrast"); dbl(x, ch, "NACondenser", k + "na_condensor");
        if (ch.size() != n0) ch.erase(std::to_string(i));
        return "<Channel" + a + ">" + x + "</Channel>";
    }
    std::string display(int i)
    {
        Chan c; std::string x; auto fl = [&](const char* n, float& v, std::initializer_list<const char*> s) { if (!has()) return; const char* t = s.begin()[C.draw((uint32_t)s.size())]; x += el(n, t); v = strtof(t, nullptr); };
        fl("Low", c.lo, {"0", "0.1", "0.25", "0.02"}); fl("High", c.hi, {"1", "0.9", "0.5", "0.30078125"}); fl("Weight", c.weight, {"1", "0.5", "0", "0.125"});
        if (has()) { bool none = C.flip(1, 2); x += el("ColorMode", none ? C.flip(1, 2) ? "None" : " none " : "Color"); c.tint = !none; }
        if (has()) { c.r = (uint8_t)C.draw(256); c.g = (uint8_t)C.draw(256); c.b = (uint8_t)C.draw(256); char b[20]; snprintf(b, sizeof(b), "#FF%02X%02X%02X", c.r, c.g, c.b); x += el("Color", b); }
        if (has()) { c.enabled = !C.flip(1, 3); x += el("IsSelected", c.enabled ? "true" : "false"); }
        if (C.flip(1, 3)) { c.mode = 1; fl("Gamma", c.gamma, {"1", "0.45", "2.2", "0.8"}); if (x.find("<Gamma>") == std::string::npos) c.mode = 0; }
        if (C.flip(1, 3)) { x += el("Mode", C.flip(1, 2) ? "Spline" : "spline"); if (C.flip(4, 5)) { std::string p; int n = 1 + C.draw(3); for (int k = 0; k < n; ++k) { char b[60]; snprintf(b, sizeof(b), "%s0.%u,0.%u", k ? " " : "", k * 3 + 1 + C.draw(2), 1 + C.draw(8)); p += b; double u, v; sscanf(b, " %lf,%lf", &u, &v); c.pts.push_back({u, v}); } bool bad = C.flip(1, 8); if (bad) p += C.flip(1, 2) ? " 0.99\xf4\x80\x80\x80,1" : " 1;2"; x += el("Points", p); if (!bad) c.mode = 2; } }
        disp.push_back(c); return "<Channel Id=\"Channel:" + std::to_string(i) + "\">" + x + "</Channel>";
    }
    void gen()
    {
        std::string doc, img, dm, sc; for (auto& s : scale) s = std::nan("");
        if (C.flip(5, 6)) { text(doc, general, "UserName", "user_name"); text(doc, general, "Title", "title"); text(doc, general, "Description", "description"); text(doc, general, "Comment", "comment"); integer(doc, general, "Rating", "rating"); text(doc, general, "CreationDate", "creation_date_time"); text(doc, general, "Keywords", "keywords"); text(doc, general, "Name", "name"); doc = "<Document>" + doc + "</Document>"; }
        static const struct { const char* n; uint32_t d; } dn[] = {{"Z", kDimensionZ}, {"C", kDimensionC}, {"T", kDimensionT}, {"R", kDimensionR}, {"S", kDimensionS}, {"I", kDimensionI}, {"H", kDimensionH}, {"V", kDimensionV}, {"B", kDimensionB}};
        for (auto& q : dn) { bool a = C.flip(1, 4), b = C.flip(1, 3); if (a) img += el((std::string("Start") + q.n).c_str(), std::to_string(C.draw(5))); if (b) img += el((std::string("Size") + q.n).c_str(), std::to_string(1 + C.draw(9))); if (a || b) dims.push_back(q.d); }
        if (C.flip(2, 3)) { hasZ = true; std::string x; dbl(x, z, "StartPosition", "reference_position"); en(x, z, "XYZHandedness", "xyz_handedness", {{"LeftHanded", "left_handed"}, {"RightHanded", "right_handed"}, {"Undefined", "undefined"}}); en(x, z, "ZAxisDirection", "z_axis_direction", {{"FromSpecimenToObjective", "from_specimen_to_objective"}, {"FromObjectiveToSpecimen", "from_objective_to_specimen"}, {"Undefined", "undefined"}}); en(x, z, "ZDriveMode", "z_drive_mode", {{"Continuous", "continuous"}, {"Step", "step"}}); if (C.flip(1, 8)) x += el("ZDriveSpeed", C.flip(1, 2) ? "fast" : "1\xf3\xa0\x81\x81"); else dbl(x, z, "ZDriveSpeed", "z_drive_speed"); positions(x, z, "position_list"); dm += "<Z>" + x + "</Z>"; }
        if (C.flip(2, 3)) { hasT = true; std::string x; if (has()) { char b[60], zone[20] = ""; int k = C.draw(4); if (k == 1) strcpy(zone, "Z"); if (k == 2) snprintf(zone, sizeof(zone), "+%02u:%02u", C.draw(15), C.draw(60)); if (k == 3) snprintf(zone, sizeof(zone), "-%02u:%02u", 1 + C.draw(12), C.draw(60)); snprintf(b, sizeof(b), "%04u-%02u-%02uT%02u:%02u:%02u", 1990 + C.draw(60), 1 + C.draw(12), 1 + C.draw(28), C.draw(24), C.draw(60), C.draw(60)); bool bad = C.flip(1, 8); x += el("StartTime", bad ? std::string("yesterday") : std::string(b) + (C.flip(1, 4) ? ".1234" : "") + zone); if (!bad) t["start_time"] = std::string("s:") + b + zone; } positions(x, t, "offset_list"); dm += "<T>" + x + "</T>"; }
        if (C.flip(2, 3)) { hasC = true; std::string x; int n = C.draw(4); for (int i = 0; i < n; ++i) x += channel(i); dm += "<Channels>" + x + "</Channels>"; }
        if (!dm.empty() || C.flip(1, 2)) img += "<Dimensions>" + dm + "</Dimensions>"; img = "<Image>" + img + "</Image>";
        if (C.flip(2, 3)) { std::string x; for (int i = 0; i < 3; ++i) if (C.flip(2, 3)) { std::string v = real(); if (strtod(v.c_str(), nullptr) <= 0) v = "1.25e-7"; scale[i] = strtod(v.c_str(), nullptr); x += std::string("<Distance Id=\"") + "XYZ"[i] + "\">" + el("Value", v) + "</Distance>"; } sc = "<Scaling><Items>" + x + "</Items></Scaling>"; }
        std::string ds; if (C.flip(3, 4)) { std::string x; int n = C.draw(4); for (int i = 0; i < n; ++i) x += display(i); hasDisp = true; ds = "<DisplaySetting><Channels>" + x + "</Channels></DisplaySetting>"; }
        xml = std::string(C.flip(1, 2) ? "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" : "") + "<ImageDocument><Metadata>" + (C.flip(1, 2) ? ds + sc : sc) + "<Information>" + (C.flip(1, 2) ? doc + img : img + doc) + "</Information>"; if (xml.find("<DisplaySetting>") == std::string::npos) xml += ds; xml += "</Metadata></ImageDocument>";
    }
};
struct CDoc {
    Client c; std::shared_ptr<Disk> disk = std::make_shared<Disk>(); Info in; std::shared_ptr<IDisplaySettings> ref;
    void prepare()
    {
        in.gen(); disk->trace = false; auto w = CreateCZIWriter(); w->Create(out_stream(disk), std::make_shared<CCziWriterInfo>(GUID{77, 1, 1, {1, 1, 1, 1, 1, 1, 1, 1}})); Meta m; m.present = true; m.xml.assign(in.xml.begin(), in.xml.end()); w->SyncWriteMetadata(meta_info(m)); w->Close(); disk->trace = true; c.disks.push_back(disk);
    }
    void json(const char* what, void* p, const Flat& want)
    {
        if (!p) fail("no-handle", "%s reported success but no text", what); std::string s = (const char*)p; libCZI_Free(p); Flat got; { rapidjson::Document d; d.Parse<rapidjson::kParseFullPrecisionFlag>(s.c_str()); if (d.HasParseError() || !d.IsObject()) fail("bad-json", "%s returned text which is not a JSON object: %s", what, s.c_str()); flatten(d, "", got); }
        std::string e = flat_diff(got, want); if (!e.empty()) fail("wrong-info", "%s: %s", what, e.c_str());
    }
    template <class F> Obj* derive(const char* what, int t, F f, bool invalid = false) { ObjectHandle h = Client::kPoison; auto rc = c.call(what, [&] { return f(&h); }, invalid); c.check_out(what, rc, h); if (rc) return nullptr; return c.add(Obj{t, h}); }
    void info_step(Obj o)
    {
        switch (C.pick({3, 2, 2, 2, 6})) {
        case 0: { void* p = nullptr; if (c.call("CziDocumentInfoGetGeneralDocumentInfo", [&] { return libCZI_CziDocumentInfoGetGeneralDocumentInfo(o.h, &p); }, false, false, true)) { if (p) fail("stale-handle", "CziDocumentInfoGetGeneralDocumentInfo failed but returned memory"); return; } json("CziDocumentInfoGetGeneralDocumentInfo", p, in.general); break; }
        case 1: { ScalingInfoInterop s{-1, -1, -1}; if (c.call("CziDocumentInfoGetScalingInfo", [&] { return libCZI_CziDocumentInfoGetScalingInfo(o.h, &s); })) return; double g[3] = {s.scale_x, s.scale_y, s.scale_z}; for (int i = 0; i < 3; ++i) if (std::isnan(in.scale[i]) ? !std::isnan(g[i]) : g[i] != in.scale[i]) fail("wrong-info", "CziDocumentInfoGetScalingInfo reports %.17g for %c, expected %.17g", g[i], "XYZ"[i], in.scale[i]); break; }
        case 2: { uint32_t n = (uint32_t)in.dims.size(), cap = C.flip(1, 4) ? C.draw(n + 1) : n + 1 + C.draw(4); std::vector<uint32_t> v(cap, 0xABCDu); v.shrink_to_fit(); bool small = cap < n + 1; if (c.call(small ? "CziDocumentInfoGetAvailableDimension with too little room" : "CziDocumentInfoGetAvailableDimension", [&] { return libCZI_CziDocumentInfoGetAvailableDimension(o.h, cap, cap ? v.data() : (uint32_t*)&small); }, small)) return; std::set<uint32_t> got, want(in.dims.begin(), in.dims.end()); uint32_t i = 0; for (; i < cap && v[i] != kDimensionInvalid; ++i) got.insert(v[i]); if (i != n || got != want) fail("wrong-info", "CziDocumentInfoGetAvailableDimension reports %u dimensions, expected %u", i, n); break; }
        case 3: { Obj* p = derive(in.hasDisp ? "CziDocumentInfoGetDisplaySettings" : "CziDocumentInfoGetDisplaySettings (none)", tDisp, [&](ObjectHandle* h) { return libCZI_CziDocumentInfoGetDisplaySettings(o.h, h); }, !in.hasDisp); (void)p; break; }
        default: { static const uint32_t d[] = {kDimensionZ, kDimensionT, kDimensionC, kDimensionR, 0, 77}; int k = C.pick({4, 4, 6, 1, 1, 1}); bool there[] = {in.hasZ, in.hasT, in.hasC, false, false, false}; Flat* w[] = {&in.z, &in.t, &in.ch}; void* p = nullptr; if (c.call(there[k] ? "CziDocumentInfoGetDimensionInfo" : "CziDocumentInfoGetDimensionInfo of a dimension without information", [&] { return libCZI_CziDocumentInfoGetDimensionInfo(o.h, d[k], &p); }, !there[k], false, true)) { if (p) fail("stale-handle", "CziDocumentInfoGetDimensionInfo failed but returned memory"); return; } json("CziDocumentInfoGetDimensionInfo", p, *w[k]); break; }
        }
    }
    void disp_step(Obj o)
    {
        int n = (int)in.disp.size(), i = (int)C.draw(n + 2) - 1; bool bad = i < 0 || i >= n;
        if (C.flip(1, 3)) { derive(bad ? "DisplaySettingsGetChannelDisplaySettings of an unknown channel" : "DisplaySettingsGetChannelDisplaySettings", tChan, [&](ObjectHandle* h) { return libCZI_DisplaySettingsGetChannelDisplaySettings(o.h, i, h); }, bad); return; }
        bool wide = C.flip(1, 6); CompositionChannelInfoInterop x; memset(&x, 0x5a, sizeof(x)); x.ptr_look_up_table = nullptr; if (c.call(bad ? "CompositorFillOutCompositionChannelInfoInterop of an unknown channel" : "CompositorFillOutCompositionChannelInfoInterop", [&] { return libCZI_CompositorFillOutCompositionChannelInfoInterop(o.h, i, wide, &x); }, bad)) { if (x.ptr_look_up_table) fail("stale-handle", "CompositorFillOutCompositionChannelInfoInterop failed but left a look-up table behind"); return; }
        Chan& w = in.disp[i]; const char* who = "CompositorFillOutCompositionChannelInfoInterop"; Bytes lut; if (x.ptr_look_up_table) { lut.assign(x.ptr_look_up_table, x.ptr_look_up_table + x.look_up_table_element_count); libCZI_Free((void*)x.ptr_look_up_table); }
        if (!w.enabled) { if (x.weight != 0) fail("wrong-info", "%s: the weight of a disabled channel is %g", who, x.weight); return; }
        if (x.weight != w.weight || x.black_point != w.lo || x.white_point != w.hi) fail("wrong-info", "%s: weight %g, black point %g, white point %g; expected %g, %g, %g", who, x.weight, x.black_point, x.white_point, w.weight, w.lo, w.hi);
        if ((x.enable_tinting != 0) != w.tint || (w.tint && (x.tinting_color_r != w.r || x.tinting_color_g != w.g || x.tinting_color_b != w.b))) fail("wrong-info", "%s: tinting differs", who);
        int sz = wide ? 65536 : 256; if (w.mode == 0) { if (x.look_up_table_element_count || !lut.empty()) fail("wrong-info", "%s: unexpected look-up table", who); return; }
        if (x.look_up_table_element_count != sz || lut.empty()) fail("wrong-info", "%s: a look-up table of %d elements, expected %d", who, x.look_up_table_element_count, sz);
        Bytes want = w.mode == 1 ? Utils::Create8BitLookUpTableFromGamma(sz, w.lo, w.hi, w.gamma) : Utils::Create8BitLookUpTableFromSplines(sz, w.lo, w.hi, Utils::CalcSplineDataFromPoints((int)w.pts.size(), [&](int k) { return std::make_tuple(w.pts[k].first, w.pts[k].second); })); want.resize(sz);
        for (int k = 0; k < sz; ++k) if (lut[k] != want[k]) fail("wrong-info", "%s: element %d of the look-up table is %u, expected %u", who, k, lut[k], want[k]); count("look_up_tables");
    }
    void step(int forced = -1)
    {
        switch (forced >= 0 ? forced : (int)C.pick({2, 2, 3, 9, 7, 1, 2})) {
        case 0: { Obj* i = c.pick(tIn); if (!i) { c.open_in(disk, 0); return; } if (c.n(tReader) > 1) return; int st = i->stream; ObjectHandle ih = i->h; Obj* r = derive("CreateReader", tReader, [&](ObjectHandle* h) { return libCZI_CreateReader(h); }); if (!r) return; uint64_t id = r->id; ObjectHandle rh = r->h; ReaderOpenInfoInterop oi; oi.streamObject = ih; if (!c.call("ReaderOpen", [&] { return libCZI_ReaderOpen(rh, &oi); })) for (auto& o : c.objs) if (o.id == id) { o.doc = 0; o.stream = st; } break; }
        case 1: { for (auto o : std::vector<Obj>(c.objs)) if (o.t == tReader && o.doc == 0) { derive("ReaderGetMetadataSegment", tSeg, [&](ObjectHandle* h) { return libCZI_ReaderGetMetadataSegment(o.h, h); }); return; } break; }
        case 2: { Obj* s = c.pick(tSeg); if (!s) return; ObjectHandle sh = s->h; derive("MetadataSegmentGetCziDocumentInfo", tInfo, [&](ObjectHandle* h) { return libCZI_MetadataSegmentGetCziDocumentInfo(sh, h); }); break; }
        case 3: { Obj* o = c.pick(tInfo); if (o) info_step(*o); break; }
        case 4: { Obj* o = c.pick(tDisp); if (o) disp_step(*o); break; }
        case 5: c.drop_some(); break;
        default: c.misuse(); break;
        }
    }
};
}
SCENARIO(C16, docinfo, 4)
{
    begin(); auto k = std::make_unique<CDoc>(); auto& c = k->c; k->prepare();
    if (C.flip(1, 4)) { auto& f = k->disk->f; f.armed = true; f.r_eio = 60; f.r_short = 40; f.foreign_exc = 300; f.max_faults = 1 + C.draw(3); }
    for (int i : {0, 0, 1, 2, 2}) k->step(i); int n = 5 + C.len(60); for (int i = 0; i < n; ++i) k->step();
    g_alloc.num = 0; k->disk->f.armed = false; sample("C document info: %zu bytes of XML, %d calls succeeded, %d rejected, %d failed by a fault", k->in.xml.size(), c.ok, c.rejected, c.failed_calls); if (c.ok > 8 && c.n(tInfo)) nontrivial();
    c.finish("C document info");
}

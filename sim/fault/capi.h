// Client of the C interface (libCZIAPI): handles, external streams, expectations on return codes.
#pragma once
#include "fault/session.h"
#include "core/image.h"
#include "core/simfs.h"
#include "core/capiconv.h"
#include <wchar.h>

namespace sim {
namespace capi {
enum T { tReader, tIn, tOut, tSub, tAtt, tBmp, tSeg, tInfo, tWriter, tAcc, tDisp, tChan, tN };
inline const char* tname(int t) { static const char* n[] = {"reader", "input stream", "output stream", "sub-block", "attachment", "bitmap", "metadata segment", "document info", "writer", "accessor", "display settings", "channel display settings"}; return n[t]; }
inline LibCZIApiErrorCode release(int t, ObjectHandle h)
{
    switch (t) {
    case tReader: return libCZI_ReleaseReader(h); case tIn: return libCZI_ReleaseInputStream(h); case tOut: return libCZI_ReleaseOutputStream(h); case tSub: return libCZI_ReleaseSubBlock(h); case tAtt: return libCZI_ReleaseAttachment(h); case tBmp: return libCZI_ReleaseBitmap(h);
    case tSeg: return libCZI_ReleaseMetadataSegment(h); case tInfo: return libCZI_ReleaseCziDocumentInfo(h); case tWriter: return libCZI_ReleaseWriter(h); case tAcc: return libCZI_ReleaseCreateSingleChannelTileAccessor(h); case tDisp: return libCZI_ReleaseDisplaySettings(h); default: return libCZI_ReleaseChannelDisplaySettings(h);
    }
}
// a stream implemented by the client
struct Ext { std::shared_ptr<Disk> d; int closes = 0, inside = 0; bool created = false; };
inline std::vector<std::unique_ptr<Ext>>& exts() { static std::vector<std::unique_ptr<Ext>> v; return v; }
inline std::string& ext_bad() { static std::string s; return s; }
constexpr std::uintptr_t kOpaque2 = 0x5EED0000;
inline Ext* ext_of(std::uintptr_t a, std::uintptr_t b) { if (a == 0 || a > exts().size() || b != kOpaque2 + a) { if (ext_bad().empty()) ext_bad() = "a callback was invoked with other user parameters than given"; return nullptr; } return exts()[a - 1].get(); }
inline int32_t failed(ExternalStreamErrorInfoInterop* ei)
{
    // the error information has to be filled; the message is optional and has to come from the library's allocator
    if (ei) {
        ei->error_code = kStreamErrorCode_UnspecifiedError;
        if (C.flip(1, 2)) { count("error_with_message"); void* p = nullptr; --g_exempt; auto rc = libCZI_AllocateMemory(16, &p); ++g_exempt; if (rc == LibCZIApi_ErrorCode_OK) { strcpy((char*)p, "simulated"); ei->error_message = (MemoryAllocationObjectHandle)p; } }
    }
    static const int32_t codes[] = {1, -1, 5, (int32_t)0x80000000}; return codes[C.draw(4)];
}
inline int32_t ext_read(std::uintptr_t a, std::uintptr_t b, std::uint64_t off, void* pv, std::uint64_t size, std::uint64_t* n, ExternalStreamErrorInfoInterop* ei)
{
    Exempt x; Ext* e = ext_of(a, b); if (!e) return 1; if (e->closes && ext_bad().empty()) ext_bad() = "the read function was called after the close function";
    uint64_t got = 0; try { e->d->read(off, pv, size, &got); } catch (const std::exception&) { return failed(ei); }
    if (n) *n = got; return 0;
}
inline int32_t ext_write(std::uintptr_t a, std::uintptr_t b, std::uint64_t off, const void* pv, std::uint64_t size, std::uint64_t* n, ExternalStreamErrorInfoInterop* ei)
{
    Exempt x; Ext* e = ext_of(a, b); if (!e) return 1; if (e->closes && ext_bad().empty()) ext_bad() = "the write function was called after the close function";
    uint64_t got = 0; try { e->d->write(off, pv, size, &got); } catch (const std::exception&) { return failed(ei); }
    if (n) *n = got; return 0;
}
inline void ext_close(std::uintptr_t a, std::uintptr_t b) { Exempt x; Ext* e = ext_of(a, b); if (!e) return; ++e->closes; ev("close callback"); if (e->closes > 1 && ext_bad().empty()) ext_bad() = "the close function of a stream was called more than once"; }

struct Obj { int t; ObjectHandle h; int stream = -1; int doc = -1, ref = -1; int locks = 0; uint64_t id = 0; };   // stream: index of the Ext that must stay open

struct Client {
    std::vector<Obj> objs; int ok = 0, failed_calls = 0, rejected = 0; uint64_t next = 1;
    std::vector<std::shared_ptr<Disk>> disks; bool json_new_only = false;

    uint64_t io_faults() const { uint64_t n = fs_hard(); for (auto& d : disks) n += d->faults; return n; }
    // One call. 'invalid': the arguments have to be rejected.
    template <class F> LibCZIApiErrorCode call(const char* what, F f, bool invalid = false, bool may_fail = false, bool json = false)
    {
        uint64_t f0 = io_faults(), a0 = A.failed; LibCZIApiErrorCode rc = -1; tick();
        A.new_only = json;
        try { AllocWindow aw; rc = f(); }
        catch (const Violation&) { throw; } catch (const RunTooLong&) { throw; }
        catch (const std::exception& e) { A.new_only = false; fail("exception-escaped", "%s let an exception escape through the C interface: %s", what, e.what()); }
        A.new_only = false; bool fired = io_faults() != f0 || A.failed != a0; ev("%s -> %d%s", what, (int)rc, fired ? " (fault)" : "");
        if (!ext_bad().empty()) fail("external-stream", "%s: %s", what, ext_bad().c_str());
        if (rc != LibCZIApi_ErrorCode_OK) { if (!invalid && !fired && !may_fail) fail("spurious-error", "%s failed with code %d although the call is valid and no fault was injected", what, (int)rc); if (invalid && !fired) ++rejected; else ++failed_calls; }
        else { if (invalid) fail("invalid-accepted", "%s reported success for a call that has to be rejected", what); ++ok; }
        check_streams(what); return rc;
    }
    void check_streams(const char* what)
    {
        for (auto& o : objs) if (o.stream >= 0 && exts()[o.stream]->closes) fail("closed-early", "%s: the close function of an external stream was called although the %s using it is alive", what, tname(o.t));
    }
    static constexpr ObjectHandle kPoison = (ObjectHandle)0x5a5a5a50;
    void check_out(const char* what, LibCZIApiErrorCode rc, ObjectHandle h, bool null_ok = false)
    {
        if (rc == LibCZIApi_ErrorCode_OK) { if (h == kPoison || (h == kInvalidObjectHandle && !null_ok)) fail("no-handle", "%s reported success but no handle", what); }
        else if (h != kPoison && h != kInvalidObjectHandle) fail("stale-handle", "%s reported an error but left a handle behind", what);
    }
    Obj* add(Obj o) { o.id = next++; objs.push_back(o); return &objs.back(); }
    Obj* pick(int t) { std::vector<size_t> v; for (size_t i = 0; i < objs.size(); ++i) if (objs[i].t == t) v.push_back(i); return v.empty() ? nullptr : &objs[v[C.draw((uint32_t)v.size())]]; }
    size_t n(int t) const { size_t k = 0; for (auto& o : objs) k += o.t == t; return k; }
    void drop(size_t i)
    {
        Obj o = objs[i]; objs.erase(objs.begin() + i); char w[64]; snprintf(w, sizeof(w), "Release(%s)", tname(o.t));
        if (o.t == tBmp) while (o.locks > 0) { call("BitmapUnlock", [&] { return libCZI_BitmapUnlock(o.h); }); --o.locks; }
        LibCZIApiErrorCode rc = call(w, [&] { return release(o.t, o.h); }); if (rc != LibCZIApi_ErrorCode_OK) { ev("released again"); A.armed = 0; call(w, [&] { return release(o.t, o.h); }); }
    }
    void drop_some() { if (!objs.empty()) drop(C.draw((uint32_t)objs.size())); }
    void drop_all() { while (!objs.empty()) drop_some(); }
    // a call in which one argument is missing (or is a handle of another type) and everything else is all right
    void bad_args()
    {
        alignas(16) static uint8_t scratch[4096]; typedef LibCZIApiErrorCode (*Fn)(ObjectHandle, void**, void*);
        struct E { int t; const char* name; Fn f; int ptrs; };
#define CALL(...) [](ObjectHandle h, void** p, void* x) -> LibCZIApiErrorCode { (void)h; (void)p; (void)x; return __VA_ARGS__; }
        static const E tab[] = {
            {tReader, "ReaderOpen", CALL(libCZI_ReaderOpen(h, (const ReaderOpenInfoInterop*)p[0])), 1}, {tReader, "ReaderGetFileHeaderInfo", CALL(libCZI_ReaderGetFileHeaderInfo(h, (FileHeaderInfoInterop*)p[0])), 1},
            {tReader, "ReaderReadSubBlock", CALL(libCZI_ReaderReadSubBlock(h, 0, (SubBlockObjectHandle*)p[0])), 1}, {tReader, "ReaderGetStatisticsSimple", CALL(libCZI_ReaderGetStatisticsSimple(h, (SubBlockStatisticsInterop*)p[0])), 1},
            {tReader, "ReaderGetStatisticsEx", CALL(libCZI_ReaderGetStatisticsEx(h, (SubBlockStatisticsInteropEx*)p[0], (int32_t*)x)), 1}, {tReader, "ReaderGetPyramidStatistics", CALL(libCZI_ReaderGetPyramidStatistics(h, (char**)p[0])), 1},
            {tReader, "ReaderGetMetadataSegment", CALL(libCZI_ReaderGetMetadataSegment(h, (MetadataSegmentObjectHandle*)p[0])), 1}, {tReader, "ReaderGetAttachmentCount", CALL(libCZI_ReaderGetAttachmentCount(h, (int32_t*)p[0])), 1},
            {tReader, "ReaderGetAttachmentInfoFromDirectory", CALL(libCZI_ReaderGetAttachmentInfoFromDirectory(h, 0, (AttachmentInfoInterop*)p[0])), 1}, {tReader, "ReaderReadAttachment", CALL(libCZI_ReaderReadAttachment(h, 0, (AttachmentObjectHandle*)p[0])), 1},
            {tReader, "TryGetSubBlockInfoForIndex", CALL(libCZI_TryGetSubBlockInfoForIndex(h, 0, (SubBlockInfoInterop*)p[0])), 1}, {tReader, "CreateSingleChannelTileAccessor", CALL(libCZI_CreateSingleChannelTileAccessor(h, (ObjectHandle*)p[0])), 1},
            {tSub, "SubBlockCreateBitmap", CALL(libCZI_SubBlockCreateBitmap(h, (BitmapObjectHandle*)p[0])), 1}, {tSub, "SubBlockGetInfo", CALL(libCZI_SubBlockGetInfo(h, (SubBlockInfoInterop*)p[0])), 1}, {tSub, "SubBlockGetRawData", CALL(libCZI_SubBlockGetRawData(h, 0, (uint64_t*)p[0], x)), 1},
            {tAtt, "AttachmentGetInfo", CALL(libCZI_AttachmentGetInfo(h, (AttachmentInfoInterop*)p[0])), 1}, {tAtt, "AttachmentGetRawData", CALL(libCZI_AttachmentGetRawData(h, (uint64_t*)p[0], x)), 1},
            {tBmp, "BitmapGetInfo", CALL(libCZI_BitmapGetInfo(h, (BitmapInfoInterop*)p[0])), 1}, {tBmp, "BitmapLock", CALL(libCZI_BitmapLock(h, (BitmapLockInfoInterop*)p[0])), 1}, {tBmp, "BitmapUnlock", CALL(libCZI_BitmapUnlock(h)), 0}, {tBmp, "BitmapCopyTo", CALL(libCZI_BitmapCopyTo(h, 1, 1, 0, 16, p[0])), 1},
            {tSeg, "MetadataSegmentGetMetadataAsXml", CALL(libCZI_MetadataSegmentGetMetadataAsXml(h, (MetadataAsXmlInterop*)p[0])), 1}, {tSeg, "MetadataSegmentGetCziDocumentInfo", CALL(libCZI_MetadataSegmentGetCziDocumentInfo(h, (CziDocumentInfoHandle*)p[0])), 1},
            {tInfo, "CziDocumentInfoGetGeneralDocumentInfo", CALL(libCZI_CziDocumentInfoGetGeneralDocumentInfo(h, (void**)p[0])), 1}, {tInfo, "CziDocumentInfoGetScalingInfo", CALL(libCZI_CziDocumentInfoGetScalingInfo(h, (ScalingInfoInterop*)p[0])), 1}, {tInfo, "CziDocumentInfoGetAvailableDimension", CALL(libCZI_CziDocumentInfoGetAvailableDimension(h, 20, (uint32_t*)p[0])), 1},
            {tInfo, "CziDocumentInfoGetDisplaySettings", CALL(libCZI_CziDocumentInfoGetDisplaySettings(h, (DisplaySettingsHandle*)p[0])), 1}, {tInfo, "CziDocumentInfoGetDimensionInfo", CALL(libCZI_CziDocumentInfoGetDimensionInfo(h, kDimensionZ, (void**)p[0])), 1},
            {tDisp, "DisplaySettingsGetChannelDisplaySettings", CALL(libCZI_DisplaySettingsGetChannelDisplaySettings(h, 0, (ChannelDisplaySettingsHandle*)p[0])), 1}, {tDisp, "CompositorFillOutCompositionChannelInfoInterop", CALL(libCZI_CompositorFillOutCompositionChannelInfoInterop(h, 0, false, (CompositionChannelInfoInterop*)p[0])), 1},
            {tAcc, "SingleChannelTileAccessorCalcSize", CALL(libCZI_SingleChannelTileAccessorCalcSize(h, (const IntRectInterop*)p[0], 1, (IntSizeInterop*)p[1])), 2}, {tAcc, "SingleChannelTileAccessorGet", CALL(libCZI_SingleChannelTileAccessorGet(h, (const CoordinateInterop*)p[0], (const IntRectInterop*)p[1], 1, nullptr, (BitmapObjectHandle*)p[2])), 3},
            {tWriter, "WriterCreate", CALL(libCZI_WriterCreate(h, kInvalidObjectHandle, "{}")), 0}, {tWriter, "WriterAddSubBlock", CALL(libCZI_WriterAddSubBlock(h, (const AddSubBlockInfoInterop*)p[0])), 1}, {tWriter, "WriterAddAttachment", CALL(libCZI_WriterAddAttachment(h, (const AddAttachmentInfoInterop*)p[0])), 1}, {tWriter, "WriterWriteMetadata", CALL(libCZI_WriterWriteMetadata(h, (const WriteMetadataInfoInterop*)p[0])), 1}, {tWriter, "WriterClose", CALL(libCZI_WriterClose(h)), 0},
            {-1, "AllocateMemory", CALL(libCZI_AllocateMemory(10, (void**)p[0])), 1}, {-1, "GetLibCZIVersionInfo", CALL(libCZI_GetLibCZIVersionInfo((LibCZIVersionInfoInterop*)p[0])), 1}, {-1, "GetLibCZIBuildInformation", CALL(libCZI_GetLibCZIBuildInformation((LibCZIBuildInformationInterop*)p[0])), 1}, {-1, "CreateReader", CALL(libCZI_CreateReader((CziReaderObjectHandle*)p[0])), 1},
            {-1, "GetStreamClassesCount", CALL(libCZI_GetStreamClassesCount((int32_t*)p[0])), 1}, {-1, "GetStreamClassInfo", CALL(libCZI_GetStreamClassInfo(0, (InputStreamClassInfoInterop*)p[0])), 1}, {-1, "CreateInputStream", CALL(libCZI_CreateInputStream((const char*)p[0], nullptr, (const char*)p[1], (InputStreamObjectHandle*)p[2])), 3},
            {-1, "CreateInputStreamFromFileWide", CALL(libCZI_CreateInputStreamFromFileWide((const wchar_t*)p[0], (InputStreamObjectHandle*)p[1])), 2}, {-1, "CreateInputStreamFromFileUTF8", CALL(libCZI_CreateInputStreamFromFileUTF8((const char*)p[0], (InputStreamObjectHandle*)p[1])), 2}, {-1, "CreateInputStreamFromExternal", CALL(libCZI_CreateInputStreamFromExternal((const ExternalInputStreamStructInterop*)p[0], (InputStreamObjectHandle*)p[1])), 2},
            {-1, "CreateOutputStreamForFileWide", CALL(libCZI_CreateOutputStreamForFileWide((const wchar_t*)p[0], false, (OutputStreamObjectHandle*)p[1])), 2}, {-1, "CreateOutputStreamForFileUTF8", CALL(libCZI_CreateOutputStreamForFileUTF8((const char*)p[0], false, (OutputStreamObjectHandle*)p[1])), 2}, {-1, "CreateOutputStreamFromExternal", CALL(libCZI_CreateOutputStreamFromExternal((const ExternalOutputStreamStructInterop*)p[0], (OutputStreamObjectHandle*)p[1])), 2},
            {-1, "CreateWriter", CALL(libCZI_CreateWriter((CziWriterObjectHandle*)p[0], nullptr)), 1},
        };
#undef CALL
        const E& e = tab[C.draw(sizeof(tab) / sizeof(tab[0]))]; memset(scratch, 0, sizeof(scratch)); void* p[3] = {scratch, scratch + 1024, scratch + 2048}; char w[160]; ObjectHandle h = kInvalidObjectHandle; int how = C.draw(3);
        if (e.t < 0) { int k = C.draw(e.ptrs); p[k] = nullptr; snprintf(w, sizeof(w), "%s without its pointer argument %d", e.name, k); }
        else if (how == 0) snprintf(w, sizeof(w), "%s without a handle", e.name);
        else if (how == 1) { if (objs.empty()) return; Obj o = objs[C.draw((uint32_t)objs.size())]; if (o.t == e.t) return; h = o.h; snprintf(w, sizeof(w), "%s with a handle of a %s", e.name, tname(o.t)); }
        else { Obj* o = pick(e.t); if (!o || !e.ptrs) return; h = o->h; int k = C.draw(e.ptrs); p[k] = nullptr; snprintf(w, sizeof(w), "%s without its pointer argument %d", e.name, k); }
        count("bad_arguments"); call(w, [&] { return e.f(h, p, scratch + 3072); }, true);
    }
    void misuse()
    {
        if (C.flip(2, 3)) { bad_args(); return; }
        switch (C.pick({4, 1})) {
        case 0: { if (objs.empty()) return; Obj o = objs[C.draw((uint32_t)objs.size())]; int t = C.draw(tN); if (t == o.t) return; char w[100]; snprintf(w, sizeof(w), "Release(%s) with a handle of a %s", tname(t), tname(o.t)); call(w, [&] { return release(t, o.h); }, true); break; }
        default: { int t = C.draw(tN); char w[64]; snprintf(w, sizeof(w), "Release(%s) without a handle", tname(t)); call(w, [&] { return release(t, kInvalidObjectHandle); }, true); break; }
        }
    }
    int new_ext(std::shared_ptr<Disk> d) { exts().push_back(std::unique_ptr<Ext>(new Ext)); exts().back()->d = d; return (int)exts().size() - 1; }
    // input stream on a document; external or one of the library's own
    void open_in(std::shared_ptr<Disk> d, int doc)
    {
        ObjectHandle h = kPoison; LibCZIApiErrorCode rc; int s = -1; int kind = C.pick({6, 1, 1, 1});
        if (kind == 0) {
            s = new_ext(d); ExternalInputStreamStructInterop x; x.opaque_handle1 = s + 1; x.opaque_handle2 = kOpaque2 + s + 1; x.read_function = ext_read; x.close_function = ext_close;
            rc = call("CreateInputStreamFromExternal", [&] { return libCZI_CreateInputStreamFromExternal(&x, &h); }); exts()[s]->created = rc == 0;
        } else {
            std::string p = F.path_of(d); std::wstring wp(p.begin(), p.end()); 
            if (kind == 1) rc = call("CreateInputStreamFromFileUTF8", [&] { return libCZI_CreateInputStreamFromFileUTF8(p.c_str(), &h); });
            else if (kind == 2) rc = call("CreateInputStreamFromFileWide", [&] { return libCZI_CreateInputStreamFromFileWide(wp.c_str(), &h); });
            else { const char* bag = C.flip(1, 2) ? nullptr : C.flip(1, 2) ? "" : "{\"CurlHttp_Timeout\":5}"; const char* cl = C.flip(1, 2) ? "c_runtime_file_inputstream" : "pread_file_inputstream"; rc = call("CreateInputStream", [&] { return libCZI_CreateInputStream(cl, bag, p.c_str(), &h); }, false, false, true); }
        }
        check_out("creating an input stream", rc, h); if (rc == 0) { Obj o{tIn, h}; o.stream = s; o.doc = doc; add(o); }
    }
    void finish(const char* who)
    {
        drop_all(); if (!ext_bad().empty()) fail("external-stream", "%s: %s", who, ext_bad().c_str());
        for (auto& e : exts()) if (e->created && e->closes != 1) fail("never-closed", "%s: every object was released but the close function of an external stream was called %d times", who, e->closes);
        if (F.open_count()) fail("descriptor-leak", "%s: %zu descriptors are still open after every object was released", who, F.open_count());
        g_alloc.on = false; int64_t l = track_live(); A.watch = false; if (l) { track_dump(); fail("leak", "%s: %lld block(s) allocated by the library were never freed although every object was released", who, (long long)l); }
    }
};
} // namespace capi
} // namespace sim

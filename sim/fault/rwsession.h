// An edit session (reader/writer object) driven in lock-step with the reference model.
#pragma once
#include "fault/session.h"

namespace sim {

struct EditSession {
    Doc& doc; std::shared_ptr<Disk> disk; GenCfg& g;
    std::shared_ptr<ICziReaderWriter> rw;
    std::map<int, int> skey, akey;            // model id -> key reported by the library
    std::set<int> isub, iatt; bool imeta;     // indeterminate targets of failed in-place operations
    std::set<int> smaybe, amaybe;             // unmatched keys belonging to the indeterminate items are not tracked
    std::set<int> dead_keys;                  // keys of removed items
    bool faulty = false;
    int ops = 0, failed = 0, rejected = 0;

    EditSession(Doc& d, std::shared_ptr<Disk> k, GenCfg& g, bool im = false) : doc(d), disk(k), g(g), imeta(im) {}

    enum R { kOkay, kFailed, kRejected };
    // inv: 0 valid, 1 must be rejected, 2 may go either way
    template <class F> R call(const char* what, int inv, F f)
    {
        uint64_t f0 = disk->faults, a0 = A.failed; ++ops;
        try { AllocWindow aw; f(); }
        catch (const Violation&) { throw; } catch (const RunTooLong&) { throw; }
        catch (const std::exception& e) {
            bool fired = disk->faults != f0 || A.failed != a0; ev("%s -> exception%s", what, fired ? " (fault)" : "");
            if (!fired && inv == 0) fail("spurious-error", "%s failed although the call is valid and no fault was injected: %s", what, e.what());
            if (fired) { ++failed; return kFailed; }
            ++rejected; return kRejected;
        }
        ev("%s ok", what);
        if (disk->faults != f0) fail("error-swallowed", "%s reported success although an I/O fault hit it", what);
        if (inv == 1) fail("invalid-accepted", "%s: a call that has to be rejected was accepted", what);
        return kOkay;
    }
    // force a specific GUID? (new documents always get doc.guid)
    bool open(bool force_guid)
    {
        rw = CreateCZIReaderWriter();
        auto i = doc.guid_open ? std::make_shared<CCziReaderWriterInfo>() : std::make_shared<CCziReaderWriterInfo>(doc.guid); i->SetForceFileGuid(force_guid);
        auto r = call("Create", 0, [&] { rw->Create(io_stream(disk), i); });
        if (r != kOkay && C.flip(1, 2)) { bool a = disk->f.armed, m = g_alloc.on; disk->f.armed = false; g_alloc.on = false; r = call("Create (retried on the same object)", 0, [&] { rw->Create(io_stream(disk), i); }); disk->f.armed = a; g_alloc.on = m; count("create_retried"); }
        if (r != kOkay) return false;
        bool a = disk->f.armed; disk->f.armed = false; learn("after opening"); disk->f.armed = a;
        return true;
    }
    void learn(const char* who)   // full comparison; (re)establishes the keys
    {
        auto m = verify_subs(rw.get(), doc.subs, isub, who); skey.clear(); for (auto& e : m) skey[e.second] = e.first;
        auto n = verify_atts(rw.get(), doc.atts, iatt, who); akey.clear(); for (auto& e : n) akey[e.second] = e.first;
        if (!imeta) verify_meta(rw.get(), doc.meta, who);
    }
    void check_all(const char* who)
    {
        bool a = disk->f.armed; disk->f.armed = false;
        auto m = verify_subs(rw.get(), doc.subs, isub, who);
        for (auto& e : m) { auto f = skey.find(e.second); if (f != skey.end() && f->second != e.first && same_count(e.second) == 1) fail("key-changed", "%s: the key of a sub-block changed from %d to %d", who, f->second, e.first); }
        auto n = verify_atts(rw.get(), doc.atts, iatt, who);
        if (!imeta) verify_meta(rw.get(), doc.meta, who);
        auto h = rw->GetFileHeaderInfo(); if (!doc.guid_is(&h.fileGuid, who)) fail("wrong-guid", "%s: the file GUID differs", who);
        if (isub.empty()) verify_queries(rw.get(), doc.subs, m, who);
        disk->f.armed = a;
    }
    int same_count(int id) const { int n = 0; const Sub& s = doc.subs.at(id); for (auto& o : doc.subs) if (o.second.data == s.data && o.second.meta == s.meta && o.second.att == s.att) ++n; return n; }
    void check_stats(const char* who)
    {
        if (!isub.empty()) return;
        if (C.flip(1, 2)) verify_pyramid_statistics(rw->GetPyramidStatistics(), doc.subs, who);
        verify_statistics(rw->GetStatistics(), doc.subs, who);
        verify_pyramid_statistics(rw->GetPyramidStatistics(), doc.subs, who);
    }
    // key of a newly added item = the one key which is not known yet
    int find_new_sub_key(const Sub& s) { int k = -1; std::set<int> known; for (auto& e : skey) known.insert(e.second); rw->EnumerateSubBlocks([&](int i, const SubBlockInfo& info) { if (!known.count(i) && info_diff(info, s).empty()) k = i; return true; }); if (k < 0) fail("lost-subblock", "a sub-block that was just added is not enumerated"); if (dead_keys.count(k)) fail("key-reused", "the key %d of a removed sub-block was handed out again within the session", k); return k; }
    int find_new_att_key(const Att& s) { int k = -1; std::set<int> known; for (auto& e : akey) known.insert(e.second); rw->EnumerateAttachments([&](int i, const AttachmentInfo& a) { if (!known.count(i) && !memcmp(&a.contentGuid, &s.guid, sizeof(GUID)) && a.name == fixed(s.name, 80)) k = i; return true; }); if (k < 0) fail("lost-attachment", "an attachment that was just added is not enumerated"); return k; }

    bool add_sub(const Sub& s, Deliver d)
    {
        int inv = 0; for (auto& o : doc.subs) if (rw_dup(o.second, s)) { if (isub.count(o.first)) { if (!inv) inv = 2; } else inv = 1; }
        if (!isub.empty() && inv == 0) inv = 2;   // what an indeterminate item collides with is not known
        if (call("AddSubBlock", inv, [&] { deliver(s, d, [&](auto& i) { rw->SyncAddSubBlock(i); }); }) != kOkay) return false;
        int id = doc.next++; doc.subs[id] = s; skey[id] = find_new_sub_key(s); return true;
    }
    bool add_att(const Att& a)
    {
        int inv = 0; for (auto& o : doc.atts) if (att_dup(o.second, a)) { if (iatt.count(o.first)) { if (!inv) inv = 2; } else inv = 1; }
        if (!iatt.empty() && inv == 0) inv = 2;
        AddAttachmentInfo i = att_info(a);
        if (call("AddAttachment", inv, [&] { rw->SyncAddAttachment(i); }) != kOkay) return false;
        int id = doc.next++; doc.atts[id] = a; akey[id] = find_new_att_key(a); return true;
    }
    template <class M> int pick_id(const M& keys) { if (keys.empty()) return 0; auto it = keys.begin(); std::advance(it, C.draw((uint32_t)keys.size())); return it->first; }
    void replace_sub(const Sub& s, Deliver d, int id)
    {
        uint64_t w0 = disk->writes; bool was = isub.count(id) != 0;
        auto r = call("ReplaceSubBlock", was ? 2 : 0, [&] { deliver(s, d, [&](auto& i) { rw->ReplaceSubBlock(skey.at(id), i); }); });
        if (r == kOkay) { doc.subs[id] = s; isub.erase(id); }
        else if (disk->writes != w0) { isub.insert(id); count("indeterminate"); }
    }
    void replace_att(const Att& a, int id)
    {
        uint64_t w0 = disk->writes; bool was = iatt.count(id) != 0; AddAttachmentInfo i = att_info(a);
        auto r = call("ReplaceAttachment", was ? 2 : 0, [&] { rw->ReplaceAttachment(akey.at(id), i); });
        if (r == kOkay) { doc.atts[id] = a; iatt.erase(id); }
        else if (disk->writes != w0) { iatt.insert(id); count("indeterminate"); }
    }
    void remove_sub(int id)
    {
        bool was = isub.count(id) != 0; int k = skey.at(id);
        auto r = call("RemoveSubBlock", was ? 2 : 0, [&] { rw->RemoveSubBlock(k); });
        if (r == kOkay) { doc.subs.erase(id); skey.erase(id); isub.erase(id); dead_keys.insert(k); SubBlockInfo ti; if (rw->TryGetSubBlockInfo(k, &ti)) fail("removed-visible", "a removed sub-block is still reported"); }
        else if (r == kFailed) { isub.insert(id); count("indeterminate"); }
    }
    void remove_att(int id)
    {
        bool was = iatt.count(id) != 0; int k = akey.at(id);
        auto r = call("RemoveAttachment", was ? 2 : 0, [&] { rw->RemoveAttachment(k); });
        if (r == kOkay) { doc.atts.erase(id); akey.erase(id); iatt.erase(id); }
        else if (r == kFailed) { iatt.insert(id); count("indeterminate"); }
    }
    void write_meta(const Meta& m)
    {
        uint64_t w0 = disk->writes; WriteMetadataInfo i = meta_info(m);
        auto r = call("WriteMetadata", 0, [&] { rw->SyncWriteMetadata(i); });
        if (r == kOkay) { doc.meta = m; imeta = false; } else if (disk->writes != w0) imeta = true;
    }
    void read_one()
    {
        if (!skey.empty() && C.flip(2, 3)) {
            int id = pick_id(skey); if (isub.count(id)) return; std::shared_ptr<ISubBlock> sb;
            if (call("ReadSubBlock", 0, [&] { sb = rw->ReadSubBlock(skey[id]); }) != kOkay) return;
            if (!sb) fail("read-null", "an existing sub-block cannot be read");
            std::string e = info_diff(sb->GetSubBlockInfo(), doc.subs.at(id)); if (e.empty()) e = data_diff(sb.get(), doc.subs.at(id));
            if (!e.empty()) fail("stale-read", "reading a sub-block by its key inside the session: %s", e.c_str());
        } else if (!akey.empty()) {
            int id = pick_id(akey); if (iatt.count(id)) return; std::shared_ptr<IAttachment> at;
            if (call("ReadAttachment", 0, [&] { at = rw->ReadAttachment(akey[id]); }) != kOkay) return;
            const void* p; size_t n; if (!at) fail("read-null", "an existing attachment cannot be read"); at->DangerousGetRawData(p, n);
            auto& w = doc.atts.at(id); if (n != w.data.size() || (n && memcmp(p, w.data.data(), n))) fail("stale-read", "reading an attachment by its key inside the session gives other bytes");
        }
    }
    void crowd(bool add_only = false)   // hundreds of calls on a crowded document
    {
        if (g.scale != 2 || !C.flip(1, 2)) return;
        int n = 20 + C.draw(200), many_att = C.flip(1, 2) ? 6 : 40; count("crowded_sessions");
        for (int i = 0; i < n; ++i) { if (C.draw(many_att) == 0) { Att a = gen_att(g, 200); add_att(a); } else step(add_only); }
    }
    // arguments that contradict each other are refused before anything is written
    void bad_arguments()
    {
        uint64_t w0 = disk->writes; char b[100]; count("contradictory_arguments");
        switch (C.pick({4, 6, 1, 2, 2})) {
        case 0: { AddSubBlockInfo i; Sub s = gen_sub(g, kMemPtr); snprintf(b, sizeof(b), "AddSubBlock (%s)", spoil(i, s)); call(b, 1, [&] { rw->SyncAddSubBlock(i); }); break; }
        case 1: { int id = pick_id(skey); if (!id) return; AddSubBlockInfo i; Sub s = gen_sub(g, kMemPtr); if (C.flip(1, 2)) { auto& o = doc.subs.at(id); s.coord = o.coord; s.mValid = o.mValid; s.m = o.m; } snprintf(b, sizeof(b), "ReplaceSubBlock (%s)", spoil(i, s)); call(b, 1, [&] { rw->ReplaceSubBlock(skey.at(id), i); }); break; }
        case 2: { Att a = gen_att(g); AddAttachmentInfo i = att_info(a); i.ptrData = nullptr; i.dataSize = 1 + C.draw(100); snprintf(b, sizeof(b), "AddAttachment (no data)"); call(b, 1, [&] { rw->SyncAddAttachment(i); }); break; }
        case 3: { int id = pick_id(akey); if (!id) return; Att a = gen_att(g); AddAttachmentInfo i = att_info(a); i.ptrData = nullptr; i.dataSize = 1 + C.draw(100); snprintf(b, sizeof(b), "ReplaceAttachment (no data)"); call(b, 1, [&] { rw->ReplaceAttachment(akey.at(id), i); }); break; }
        default: { WriteMetadataInfo i; i.Clear(); static const char x[] = "<a/>"; i.szMetadata = x; i.szMetadataSize = 4; if (C.flip(1, 2)) i.szMetadata = nullptr; else { i.ptrAttachment = nullptr; i.attachmentSize = 5; } snprintf(b, sizeof(b), "WriteMetadata (no data)"); call(b, 1, [&] { rw->SyncWriteMetadata(i); }); break; }
        }
        if (disk->writes != w0) fail("refused-but-written", "%s was refused but wrote to the document", b);
    }
    void step(bool add_only = false)
    {
        if (!add_only && C.flip(1, 25)) { bad_arguments(); return; }
        Deliver d = (Deliver)C.pick({3, 3, 2, 2});
        switch (add_only ? C.pick({6, 2}) : C.pick({6, 2, 2, 5, 2, 3, 1, 2, 1})) {
        case 0: { Sub s = gen_sub(g, d); if (!add_sub(s, d) && faulty && C.flip(1, 2)) add_sub(s, d); break; }
        case 1: { Att a = gen_att(g); if (!add_att(a) && faulty && C.flip(1, 2)) add_att(a); break; }
        case 2: write_meta(gen_meta(g)); break;
        case 3: if (int id = pick_id(skey)) { Sub s = gen_sub(g, d); if (C.flip(1, 2)) { auto& o = doc.subs.at(id); s.coord = o.coord; s.mValid = o.mValid; s.m = o.m; } replace_sub(s, d, id); } break;
        case 4: if (int id = pick_id(akey)) { Att a = gen_att(g); replace_att(a, id); } break;
        case 5: if (int id = pick_id(skey)) remove_sub(id); break;
        case 6: if (int id = pick_id(akey)) remove_att(id); break;
        case 7: read_one(); break;
        default: {   // a key which does not exist
            int k = dead_keys.empty() || C.flip(1, 2) ? 100000 + (int)C.draw(10) : *dead_keys.begin();
            switch (C.draw(3)) {
            case 0: call("RemoveSubBlock (invalid key)", 1, [&] { rw->RemoveSubBlock(k); }); break;
            case 1: { Sub s = gen_sub(g, kMemPtr); call("ReplaceSubBlock (invalid key)", 1, [&] { deliver(s, kMemPtr, [&](auto& i) { rw->ReplaceSubBlock(k, i); }); }); break; }
            default: if (rw->ReadSubBlock(k)) fail("phantom", "reading a non-existing key returned a sub-block"); break;
            } break; }
        }
    }
    void close(bool may_fail)
    {
        int tries = 0;
        while (call("Close", 0, [&] { rw->Close(); }) != kOkay) { if (++tries > 3 || C.flip(1, 2) || !may_fail) { disk->f.armed = false; g_alloc.on = false; } if (tries > 8) fail("close-never", "Close keeps failing after the faults stopped"); count("close_retried"); }
    }
    bool indet() const { return !isub.empty() || !iatt.empty() || imeta; }
};

// an existing document to start from: by a fresh writer, or empty storage
inline bool initial_document(Doc& doc, std::shared_ptr<Disk> disk, GenCfg& g, bool far_ok = false)
{
    if (C.flip(1, 4)) { g = gen_cfg(); doc.guid = GUID{0x55u + C.draw(50), 2, 3, {4, 5, 6, 7, 8, 9, 10, 11}}; if (C.flip(1, 8)) { doc.guid = GUID{}; doc.guid_open = true; count("library_chooses_guid"); } return false; }
    WriterSession s; s.cfg(); s.far_ok = far_ok; s.disk = disk; if (!s.create()) fail("spurious-error", "Create failed");
    int n = 1 + C.len(10); for (int i = 0; i < n; ++i) s.step(false); if (C.flip(2, 3)) s.crowd(false);
    s.call("Close", 0, [&] { s.w->Close(); });
    doc = s.doc; g = s.g; return true;
}
// what a fresh reader sees when in-place targets are indeterminate
inline void verify_edited(std::shared_ptr<Disk> disk, EditSession& e, const char* who, bool stats) { verify_document(disk, e.doc, who, e.isub, e.iatt, e.imeta, stats); }
} // namespace sim

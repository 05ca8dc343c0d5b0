// C01 round trip of new documents, C02 the same while the storage fails, C03 crash while writing a new document.
#include "fault/session.h"
using namespace sim;

SCENARIO(C01, roundtrip, 10)
{
    WriterSession s; s.cfg(); s.far_ok = true;
    if (!s.create()) fail("spurious-error", "Create failed");
    int n = C.range(0, 3) == 0 ? C.len(60) : C.len(14);
    for (int i = 0; i < n; ++i) s.step(false);
    s.crowd(false);
    if (C.flip(1, 2)) verify_statistics(s.w->GetStatistics(), s.doc.subs, "writer");
    if (C.flip(1, 6)) verify_prepared(s.w.get(), s.doc.subs, "writer");
    s.call("Close", 0, [&] { s.w->Close(); });
    verify_document(s.disk, s.doc, "reader");
    count("subblocks", s.doc.subs.size()); count("attachments", s.doc.atts.size()); count("rejected", s.rejected);
    if (s.doc.subs.size() + s.doc.atts.size() >= 2) nontrivial();
    sample("%zu sub-blocks, %zu attachments, metadata %d (%zu bytes), %d rejected calls, %zu bytes on disk", s.doc.subs.size(), s.doc.atts.size(), (int)s.doc.meta.present, s.doc.meta.xml.size(), s.rejected, s.disk->data.size());
}

SCENARIO(C02, faults, 10)
{
    WriterSession s; s.cfg(); s.far_ok = true;
    bool during_create = C.flip(1, 8);
    if (during_create) arm_write_faults(*s.disk);
    if (!s.create()) { count("create_failed"); nontrivial(); sample("Create failed after %llu writes", (unsigned long long)s.disk->writes); return; }
    if (!during_create) arm_write_faults(*s.disk);
    int n = 1 + C.len(14);
    for (int i = 0; i < n; ++i) s.step(true);
    s.crowd(true);
    if (s.meta_indet && C.flip(1, 2)) s.write_meta(gen_meta(s.g));
    // Close may fail any number of times; once the faults stop it has to succeed
    int tries = 0; bool closed = false;
    while (!closed) { if (tries >= 4 || C.flip(1, 3)) s.disk->f.armed = false; closed = s.call("Close", 0, [&] { s.w->Close(); }); if (++tries > 10) fail("close-never", "Close keeps failing after the faults stopped"); }
    s.disk->f.armed = false;
    verify_document(s.disk, s.doc, "after faults", {}, {}, s.meta_indet);
    if (s.disk->faults) nontrivial();
    count("failed_ops", s.failed_ops); count("retries", s.retried); count("close_tries", tries); if (tries > 1) count("close_retried");
    sample("%zu sub-blocks, %zu attachments, %llu faults in %llu writes, %d failed calls, %d retries, Close took %d attempts", s.doc.subs.size(), s.doc.atts.size(), (unsigned long long)s.disk->faults, (unsigned long long)s.disk->writes, s.failed_ops, s.retried, tries);
}

// A crash of the writing process: the disk holds a prefix of the issued writes, the last one possibly torn.
// What a reader then sees is either "not a valid document" or a document all of whose items are exact.
static void check_crash_image(const Bytes& img, const Doc& doc, bool complete, const char* who)
{
    auto d = std::make_shared<Disk>(); d->data = img;
    std::shared_ptr<ICZIReader> r;
    try { r = open_reader(d, false); } catch (const std::exception&) { if (complete) fail("unreadable", "%s: all writes of the session are on disk but the document cannot be opened", who); count("crash.refused"); return; }
    count("crash.opened");
    // every item that is enumerated must be one that was acknowledged, with exact content - or reading it must fail
    std::vector<std::pair<int, SubBlockInfo>> got; r->EnumerateSubBlocks([&](int i, const SubBlockInfo& s) { got.emplace_back(i, s); return true; });
    std::set<int> used;
    for (auto& g : got) {
        std::shared_ptr<ISubBlock> sb; try { sb = r->ReadSubBlock(g.first); } catch (const std::exception&) { count("crash.item_refused"); continue; }
        if (!sb) fail("read-null", "%s: enumerated sub-block cannot be read", who);
        bool hit = false; std::string last = "no such item";
        for (auto& w : doc.subs) { if (used.count(w.first)) continue; if (!info_diff(g.second, w.second).empty()) continue; std::string e = data_diff(sb.get(), w.second); if (!e.empty()) { last = e; continue; } used.insert(w.first); hit = true; break; }
        if (!hit) fail("crash-wrong-subblock", "%s: a sub-block is readable after the crash but differs from everything that was written: %s", who, last.c_str());
    }
    std::vector<std::pair<int, AttachmentInfo>> ga; r->EnumerateAttachments([&](int i, const AttachmentInfo& a) { ga.emplace_back(i, a); return true; });
    for (auto& g : ga) {
        std::shared_ptr<IAttachment> at; try { at = r->ReadAttachment(g.first); } catch (const std::exception&) { continue; }
        if (!at) fail("read-null", "%s: enumerated attachment cannot be read", who);
        const void* p; size_t n; at->DangerousGetRawData(p, n); bool hit = false;
        for (auto& w : doc.atts) if (g.second.name == fixed(w.second.name, 80) && std::string(g.second.contentFileType) == fixed(w.second.type, 8) && n == w.second.data.size() && (!n || !memcmp(p, w.second.data.data(), n))) hit = true;
        if (!hit) fail("crash-wrong-attachment", "%s: an attachment is readable after the crash but differs from everything that was written", who);
    }
    if (complete) { if (got.size() != doc.subs.size() || ga.size() != doc.atts.size()) fail("crash-lost", "%s: items missing although Close returned", who); }
    else if (!got.empty() && got.size() != doc.subs.size()) fail("crash-partial-directory", "%s: the document opens with %zu of %zu sub-blocks", who, got.size(), doc.subs.size());
}
SCENARIO(C03, crash, 10)
{
    WriterSession s; s.cfg(); s.disk->keep_log = true;
    if (!s.create()) fail("spurious-error", "Create failed");
    int n = 1 + C.len(12);
    for (int i = 0; i < n; ++i) s.step(false);
    s.crowd(false);
    size_t before_close = s.disk->log.size();
    s.call("Close", 0, [&] { s.w->Close(); });
    auto& log = s.disk->log; std::vector<Doc> dummy;
    // crash points: every write of Close, plus a few before it; for each the last write whole, or torn at a chosen byte
    std::vector<size_t> pts;
    for (size_t k = before_close; k <= log.size(); ++k) pts.push_back(k);
    for (int i = 0; i < 3; ++i) pts.push_back(C.draw((uint32_t)log.size() + 1));
    auto image = [&](size_t k, uint64_t torn) { Bytes b; for (size_t i = 0; i < k; ++i) { auto& w = log[i]; uint64_t m = (i + 1 == k) ? std::min<uint64_t>(torn, w.bytes.size()) : w.bytes.size(); if (!m) continue; if (b.size() < w.off + m) b.resize(w.off + m); memcpy(b.data() + w.off, w.bytes.data(), m); } return b; };
    for (size_t k : pts) {
        count("crash_points"); sched(k);
        check_crash_image(image(k, ~0ull), s.doc, k == log.size(), "crash after a write");
        if (k) { uint64_t t = C.draw((uint32_t)std::min<size_t>(log[k - 1].bytes.size(), 1u << 20) + 1); count("fault.crash_torn"); check_crash_image(image(k, t), s.doc, false, "crash inside a write"); }
    }
    count("fault.crash", pts.size());
    nontrivial();
    sample("%zu sub-blocks, %zu attachments, %zu writes, %zu crash points", s.doc.subs.size(), s.doc.atts.size(), log.size(), pts.size());
}

SCENARIO(C18, new_document, 5)
{
    WriterSession s; s.cfg();
    bool faulty = C.flip(1, 2);
    if (!s.create()) fail("spurious-error", "Create failed");
    if (faulty) arm_write_faults(*s.disk);
    int n = C.len(20); for (int i = 0; i < n; ++i) s.step(faulty); s.crowd(faulty);
    s.disk->f.armed = faulty && C.flip(1, 2);
    int tries = 0; while (!s.call("Close", 0, [&] { s.w->Close(); })) { s.disk->f.armed = false; if (++tries > 5) fail("close-never", "Close keeps failing"); }
    verify_layout(s.disk->data, "new document", !faulty, s.meta_indet);
    if (s.doc.subs.size() + s.doc.atts.size() >= 1) nontrivial();
    sample("new document: %zu sub-blocks, %zu attachments, %zu bytes, %llu faults", s.doc.subs.size(), s.doc.atts.size(), s.disk->data.size(), (unsigned long long)s.disk->faults);
}
SCENARIO(C19, writer, 3)
{
    WriterSession s; s.cfg();
    bool faulty = C.flip(1, 3);
    if (!s.create()) fail("spurious-error", "Create failed");
    if (faulty) arm_write_faults(*s.disk);
    int n = C.len(20); for (int i = 0; i < n; ++i) { s.step(faulty); verify_statistics(s.w->GetStatistics(), s.doc.subs, "writer"); if (C.flip(1, 4)) verify_prepared(s.w.get(), s.doc.subs, "writer"); }
    s.crowd(faulty); verify_statistics(s.w->GetStatistics(), s.doc.subs, "writer");
    s.disk->f.armed = false; s.call("Close", 0, [&] { s.w->Close(); });
    auto r = open_reader(s.disk); verify_statistics(r->GetStatistics(), s.doc.subs, "reader"); verify_pyramid_statistics(r->GetPyramidStatistics(), s.doc.subs, "reader");
    if (s.doc.subs.size() >= 2) nontrivial();
    sample("writer statistics after each of %d operations, %zu sub-blocks", n, s.doc.subs.size());
}

namespace sim {
void warmup()
{
    // touch lazily initialised state of the library once, before any child is forked
    auto d = std::make_shared<Disk>(); d->trace = false; auto w = CreateCZIWriter(); w->Create(std::make_shared<SimStream>(d), std::make_shared<CCziWriterInfo>(GUID{1, 2, 3, {4, 5, 6, 7, 8, 9, 1, 2}}));
    AddSubBlockInfoMemPtr i; i.Clear(); i.coordinate.Set(DimensionIndex::C, 0); i.mIndexValid = true; i.mIndex = 0; i.x = i.y = 0; i.logicalWidth = i.logicalHeight = i.physicalWidth = i.physicalHeight = 2; i.PixelType = PixelType::Gray8; uint8_t px[4] = {1, 2, 3, 4}; i.ptrData = px; i.dataSize = 4; w->SyncAddSubBlock(i);
    w->GetPreparedMetadata(PrepareMetadataInfo()); w->Close();
    auto r = CreateCZIReader(); r->Open(std::make_shared<SimStream>(d)); auto sb = r->ReadSubBlock(0); sb->CreateBitmap(); r->Close();
}
}

// C04 edit sessions against the model, C05 the same while the storage fails, C06 crash before Close of an adding
// session, C18/C19 layout and statistics of edited documents.
#include "fault/rwsession.h"
using namespace sim;

static void describe(EditSession& e, const char* what, int sessions) { sample("%s: %d session(s), %d calls in the last one (%d failed, %d rejected), %zu sub-blocks, %zu attachments, %zu bytes, %llu faults", what, sessions, e.ops, e.failed, e.rejected, e.doc.subs.size(), e.doc.atts.size(), e.disk->data.size(), (unsigned long long)e.disk->faults); }

SCENARIO(C04, edit, 10)
{
    Doc doc; auto disk = std::make_shared<Disk>(); GenCfg g; initial_document(doc, disk, g, true);
    int sessions = 1 + C.len(3), total = 0;
    for (int k = 0; k < sessions; ++k) {
        EditSession e(doc, disk, g);
        bool force = C.flip(1, 6); if (force && doc.guid_open) force = false; if (force) doc.guid.Data1 += 7;
        if (!e.open(force)) fail("spurious-error", "opening for editing failed");
        int n = C.len(16);
        for (int i = 0; i < n; ++i) { e.step(); if (C.flip(1, 4)) e.check_all("inside the session"); if (C.flip(1, 8)) e.check_stats("inside the session"); }
        e.crowd(); e.check_all("before Close");
        e.close(false); total += e.ops;
        verify_edited(disk, e, "after Close", true);
        describe(e, "edit", sessions);
    }
    if (total > 4) nontrivial(); count("edit_calls", total);
}
SCENARIO(C05, edit_faults, 10)
{
    Doc doc; auto disk = std::make_shared<Disk>(); GenCfg g; initial_document(doc, disk, g, true);
    EditSession e(doc, disk, g); e.faulty = true;
    bool early = C.flip(1, 5) && !disk->data.empty();
    auto arm = [&] { arm_write_faults(*disk); if (C.flip(1, 2)) disk->f.r_eio = 20 + C.draw(150); if (disk->f.capacity != ~0ull) disk->f.capacity += disk->data.size(); };
    if (early) { arm(); disk->f.w_eio = disk->f.w_torn = disk->f.w_short = 0; disk->f.capacity = ~0ull; disk->f.r_eio = 60 + C.draw(200); }
    if (!e.open(false)) { disk->f.armed = false; verify_document(disk, doc, "after a failed open"); nontrivial(); sample("opening failed after %llu reads", (unsigned long long)disk->reads); return; }
    disk->f.armed = false; arm();
    int n = 1 + C.len(16);
    for (int i = 0; i < n; ++i) { e.step(); if (C.flip(1, 4)) e.check_all("inside the session"); }
    e.crowd();
    if (e.imeta && C.flip(1, 2)) e.write_meta(gen_meta(g));
    e.close(true); disk->f.armed = false;
    e.check_all("after Close");
    // the document has to open and everything not hit by a failure has to be exact
    verify_edited(disk, e, "after faults", true);
    // and it can be edited again
    if (C.flip(1, 2) && !e.indet()) { EditSession e2(doc, disk, g); if (!e2.open(false)) fail("spurious-error", "re-opening for editing failed"); int m = C.len(6); for (int i = 0; i < m; ++i) e2.step(); e2.close(false); verify_edited(disk, e2, "after a second session", true); }
    if (disk->faults) nontrivial(); count("failed_ops", e.failed); count("rejected", e.rejected);
    describe(e, "edit under faults", 1);
}
// Crash before Close of a session which only added items: the document as it was before the session is intact,
// whatever subset of the issued writes (any order, torn) had reached the disk.
SCENARIO(C06, crash_before_close, 10)
{
    Doc doc; auto disk = std::make_shared<Disk>(); GenCfg g; if (!initial_document(doc, disk, g)) { disk->data.clear(); EditSession e0(doc, disk, g); e0.open(false); int n = 1 + C.len(5); for (int i = 0; i < n; ++i) e0.step(true); if (C.flip(1, 2)) e0.write_meta(gen_meta(g)); if (doc.subs.empty()) { Sub s = gen_sub(g, kMemPtr); e0.add_sub(s, kMemPtr); } e0.close(false); }
    Doc before = doc; Bytes base = disk->data; disk->keep_log = true;
    EditSession e(doc, disk, g); e.faulty = C.flip(1, 3);
    if (!e.open(false)) fail("spurious-error", "opening for editing failed");
    if (e.faulty) arm_write_faults(*disk), disk->f.capacity = ~0ull;
    int n = 1 + C.len(14); for (int i = 0; i < n; ++i) e.step(true); e.crowd(true);
    disk->f.armed = false;
    auto& log = disk->log; int tries = 1 + C.draw(4);
    for (int t = 0; t < tries; ++t) {
        Bytes img = base; size_t upto = C.draw((uint32_t)log.size() + 1); uint32_t lossmode = C.pick({2, 2, 1}); uint32_t lost = 0, torn = 0;
        for (size_t i = 0; i < upto; ++i) {
            auto& w = log[i]; uint64_t m = w.bytes.size();
            if (lossmode >= 1 && C.flip(1, 3)) { ++lost; continue; }                       // never reached the disk
            if (lossmode == 2 && C.flip(1, 3)) { m = C.draw((uint32_t)std::min<uint64_t>(m, 1u << 20)); ++torn; }
            else if (i + 1 == upto && C.flip(1, 2)) { m = C.draw((uint32_t)std::min<uint64_t>(m, 1u << 20) + 1); ++torn; }
            if (!m) continue; if (img.size() < w.off + m) img.resize(w.off + m); memcpy(img.data() + w.off, w.bytes.data(), m);
        }
        count("fault.crash"); count("fault.lost_write", lost); count("fault.crash_torn", torn); sched(upto * 7 + lossmode * 3 + lost * 131 + torn);
        auto d2 = std::make_shared<Disk>(); d2->data = img;
        verify_document(d2, before, "after a crash before Close");
        // recovery: the document can be edited and finished afterwards
        if (C.flip(1, 2)) { Doc again = before; EditSession r(again, d2, g); if (!r.open(false)) fail("spurious-error", "the document cannot be edited after the crash"); int m = C.len(6); for (int i = 0; i < m; ++i) r.step(); r.close(false); verify_edited(d2, r, "edited after the crash", true); count("recovered_sessions"); }
    }
    if (e.ops > 1) nontrivial();
    sample("crash before Close: %zu original sub-blocks, %d calls in the interrupted session, %zu writes, %d crash images", before.subs.size(), e.ops, log.size(), tries);
}
SCENARIO(C18, edited_document, 8)
{
    Doc doc; auto disk = std::make_shared<Disk>(); GenCfg g; initial_document(doc, disk, g);
    int sessions = 1 + C.len(3); bool faulty = C.flip(1, 3), any = false; int total = 0;
    bool im = false;
    for (int k = 0; k < sessions; ++k) {
        EditSession e(doc, disk, g, im); e.faulty = faulty;
        if (!e.open(false)) fail("spurious-error", "opening for editing failed");
        if (faulty) { arm_write_faults(*disk); disk->f.capacity = ~0ull; }
        int n = C.len(16); for (int i = 0; i < n; ++i) e.step(); e.crowd();
        e.close(true); disk->f.armed = false; total += e.ops; any |= e.failed > 0;
        if (e.indet()) { count("stopped_indeterminate"); break; }
        verify_layout(disk->data, "edited document", !any);
        describe(e, "layout of edited document", sessions);
    }
    if (total > 4) nontrivial();
}
SCENARIO(C19, edited_document, 7)
{
    Doc doc; auto disk = std::make_shared<Disk>(); GenCfg g; initial_document(doc, disk, g, true);
    EditSession e(doc, disk, g); e.faulty = C.flip(1, 3);
    if (!e.open(false)) fail("spurious-error", "opening for editing failed");
    if (e.faulty) arm_write_faults(*disk);
    int n = 1 + C.len(20);
    for (int i = 0; i < n; ++i) { e.step(); if (!C.flip(1, 3)) e.check_stats("inside the session"); }
    e.crowd(); if (C.flip(1, 2)) e.check_stats("inside the session");
    disk->f.armed = false; e.close(false);
    if (e.isub.empty()) { auto r = open_reader(disk); verify_statistics(r->GetStatistics(), doc.subs, "reader"); verify_pyramid_statistics(r->GetPyramidStatistics(), doc.subs, "reader"); }
    if (e.ops > 3) nontrivial(); describe(e, "statistics", 1);
}

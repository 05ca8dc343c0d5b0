// C13: the library's streams on local storage, on top of the simulated file system.
#include "core/files.h"
#include "fault/session.h"
#include <wchar.h>
using namespace sim;

namespace {
void run_scenario(const char* prop, const char* name) { for (auto& s : scenarios()) if (!strcmp(s.prop, prop) && !strcmp(s.name, name)) { s.fn(); return; } fail("harness", "no scenario %s/%s", prop, name); }
void arm_fs(bool hard_faults)
{
    static const uint32_t rates[] = {30, 100, 300, 500}; F.armed = true; uint32_t kinds = C.draw(4);
    if (kinds & 1) F.eintr = rates[C.draw(4)]; if (kinds & 2) F.shrt = rates[C.draw(4)];
    if (C.flip(1, 4)) F.max_transfer = 1 + C.draw(600);
    if (hard_faults) { uint32_t k = 1 + C.draw(15), r = rates[C.draw(3)]; if (k & 1) F.r_eio = r; if (k & 2) F.w_eio = r; if (k & 4) F.capacity = C.draw(6000); if (k & 8) F.open_fail = r; }
}
struct Expect { std::string path; };
// interesting positions of a file of the given size
uint64_t gen_off(uint64_t size)
{
    switch (C.pick({6, 2, 2, 2, 1})) { case 0: return size ? C.draw((uint32_t)std::min<uint64_t>(size, 1u << 20)) : 0; case 1: return size - std::min<uint64_t>(size, C.draw(64)); case 2: return size + C.draw(3); case 3: { static const uint64_t b[] = {0, 511, 4095, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffff00000000ull}; return b[C.draw(8)]; } default: return C.aux() >> (1 + C.draw(62)); }
}
uint64_t gen_size() { switch (C.pick({5, 3, 1, 1})) { case 0: return 1 + C.draw(64); case 1: return 1 + C.draw(9000); case 2: return 0; default: switch (C.pick({4, 1, 1, 1})) { case 0: return 65536; case 1: return 65537; case 2: return 32768 * (1 + C.draw(6)); default: return 100000 + C.draw(200000); } } }
void finish(const char* who) { F.check_bad(who); if (F.open_count()) fail("descriptor-leak", "%s: %zu descriptors are still open after all streams were released", who, F.open_count()); }
}

// read / write requests at arbitrary positions of one file, checked against the bytes the file holds
SCENARIO(C13, streams, 6)
{
    F.stdin_closed = C.flip(1, 4); bool hardf = C.flip(1, 2); int kind = C.pick({3, 2, 3, 1, 1, 3, 4});    // 0..4 input streams, 5 output stream, 6 input-output stream
    auto n = std::make_shared<FsNode>(); F.files["/simfs/f"] = n; uint64_t base = 0;
    if (C.flip(1, 3)) { static const uint64_t bs[] = {0x7ffffff0ull, 0xfffffff0ull, 0x123456789abull}; base = bs[C.draw(3)]; }
    Bytes init = payload(C.flip(1, 25) ? 65537 + C.draw(300000) : C.draw(4) ? C.draw(12000) : C.draw(40), 5); if (kind <= 4 || C.flip(1, 2)) n->put(base, init.data(), init.size()); else n->exists = C.flip(1, 2);
    auto before = n->pages; uint64_t bsize = n->size(); bool existed = n->exists, overwrite = true;
    arm_fs(hardf); std::shared_ptr<IStream> in; std::shared_ptr<IOutputStream> out; uint64_t h0 = fs_hard(); bool opened = false;
    try {
        if (kind <= 4) { static const int k0[] = {0, 5, 6}; in = file_in_stream("/simfs/f", kind ? kind : k0[C.draw(3)]); }
        else if (kind == 5) { overwrite = C.flip(3, 4); out = C.flip(1, 2) ? CreateOutputStreamForFile(L"/simfs/f", overwrite) : CreateOutputStreamForFileUtf8("/simfs/f", overwrite); }
        else { auto io = CreateInputOutputStreamForFile(L"/simfs/f"); in = io; out = io; }
        opened = true;
    } catch (const std::exception& e) {
        if (fs_hard() == h0 && !(kind == 5 && !overwrite && existed)) fail("spurious-error", "opening failed although the file system reported no error: %s", e.what());
        if (n->exists != existed || n->size() != bsize || n->pages != before) fail("content-changed", "a failed open changed the file");
    }
    if (opened) {
        if (kind == 5 && !overwrite && existed) fail("overwritten", "an existing file was opened for writing although overwriting was not requested");
        if (kind == 5 && n->size() != 0) fail("stale-content", "the file opened for output still has its old content");
        if (kind != 5 && (n->size() != bsize || n->pages != before)) fail("content-changed", "opening the file changed its content");
        int m = 1 + C.len(24);
        for (int i = 0; i < m; ++i) {
            if (in && (!out || C.flip(1, 2))) { uint64_t o = C.flip(1, 2) && base ? base + gen_off(n->size() - std::min(base, n->size())) : gen_off(n->size()), sz = gen_size(); checked_read(in.get(), node_bytes(*n, o, sz), o, sz, !C.flip(1, 8), "stream"); }
            else {
                uint64_t o = base + C.draw(9000), sz = gen_size(); Bytes d = payload(sz, 100 + i); uint64_t got = 0x99999999ull; bool cnt = !C.flip(1, 4), threw = false; auto pages = n->pages; uint64_t osz = n->size(); h0 = fs_hard(); std::string what; n->lo = ~0ull; n->hi = 0;
                try { out->Write(o, d.data(), sz, cnt ? &got : nullptr); } catch (const std::exception& e) { threw = true; what = e.what(); }
                bool hit = fs_hard() != h0; ev("Write %llu+%llu -> %s", (unsigned long long)o, (unsigned long long)sz, threw ? "exception" : "ok");
                if (n->hi && (n->lo < o || n->hi > o + sz)) fail("stray-write", "writing %llu bytes at %llu touched [%llu,%llu)", (unsigned long long)sz, (unsigned long long)o, (unsigned long long)n->lo, (unsigned long long)n->hi);
                if (threw) { if (!hit) fail("spurious-error", "writing %llu bytes at %llu failed although the file system reported no error: %s", (unsigned long long)sz, (unsigned long long)o, what.c_str()); }
                else {
                    uint64_t k = cnt ? got : sz; if (k > sz) fail("wrong-count", "writing %llu bytes reports %llu bytes", (unsigned long long)sz, (unsigned long long)k);
                    if (k != sz && !hit) fail("wrong-count", "writing %llu bytes at %llu reports %llu bytes although the file system reported no error", (unsigned long long)sz, (unsigned long long)o, (unsigned long long)k);
                    if (node_bytes(*n, o, k) != Bytes(d.begin(), d.begin() + k)) fail("lost-write", "writing %llu bytes at %llu was acknowledged but the bytes are not in the file", (unsigned long long)k, (unsigned long long)o);
                    uint64_t esz = std::max(osz, k ? o + k : 0); if (k == sz && n->size() != esz) fail("wrong-size", "the file has %llu bytes after the write, expected %llu", (unsigned long long)n->size(), (unsigned long long)esz);
                }
            }
            F.check_bad("while the stream is used");
        }
    }
    in.reset(); out.reset(); finish("one stream");
    if (F.transient + F.hard) nontrivial();
    sample("stream kind %d%s, %llu bytes at %llu, %llu calls, %llu transient and %llu hard errors", kind, F.stdin_closed ? " on descriptor 0" : "", (unsigned long long)bsize, (unsigned long long)base, (unsigned long long)F.calls, (unsigned long long)F.transient, (unsigned long long)F.hard);
}
// many streams opened, shared, released in any order, while opening fails and while other processes create files
SCENARIO(C13, lifecycle, 3)
{
    F.stdin_closed = C.flip(1, 2); arm_fs(true); F.capacity = ~0ull; F.w_eio = 0; F.r_eio = C.flip(1, 2) ? 100 : 0; F.open_fail = C.flip(1, 2) ? 200 : 0;
    std::vector<std::pair<std::string, std::shared_ptr<void>>> live; std::map<std::string, Bytes> content; std::vector<std::pair<std::string, std::shared_ptr<IStream>>> readers; uint64_t refused = 0; int m = 2 + C.len(30);
    for (int i = 0; i < m; ++i) {
        std::string p = "/simfs/l" + std::to_string(C.draw(4)); auto it = F.files.find(p); bool exists = it != F.files.end() && it->second->exists; uint64_t h0 = fs_hard();
        switch (C.pick({4, 4, 2, 4})) {
        case 0: case 2: {   // a new file with content, if nobody else has it
            bool ow = C.flip(1, 2); bool race = !exists && C.flip(1, 3); Bytes theirs = payload(200, 77);
            if (race) { auto& nd = F.files[p]; if (!nd) { nd = std::make_shared<FsNode>(); nd->exists = false; } nd->race_create = true; nd->put(0, theirs.data(), theirs.size()); }
            std::shared_ptr<IOutputStream> o; bool threw = false; try { o = CreateOutputStreamForFile(widen(p).c_str(), ow); } catch (const std::exception&) { threw = true; }
            auto nd = F.files[p]; bool raced = race && nd->exists && !nd->race_create; if (race && nd->race_create) { nd->race_create = false; if (!nd->exists) nd->truncate(); }
            bool must_refuse = !ow && (exists || raced);
            if (!threw && must_refuse) fail("overwritten", "an existing file was replaced although overwriting was not requested%s", raced ? " (it was created by another process meanwhile)" : "");
            if (threw && fs_hard() == h0 && !must_refuse) fail("spurious-error", "creating a file failed although the file system reported no error");
            if (threw) { ++refused; if (raced) content[p] = theirs; if (exists && node_bytes(*nd, 0, 1u << 20) != content[p]) fail("content-changed", "a refused creation changed the file"); break; }
            Bytes b = payload(1 + C.draw(3000), i); uint64_t w = 0; try { o->Write(0, b.data(), b.size(), &w); } catch (const std::exception&) { fail("spurious-error", "writing failed although the file system reported no error"); } if (w != b.size()) fail("wrong-count", "short write without an error"); content[p] = b; live.emplace_back(p, o); break; }
        case 1: {
            std::shared_ptr<IStream> s; try { s = file_in_stream(p, C.draw(7)); } catch (const std::exception&) { if (fs_hard() == h0 && exists) fail("spurious-error", "opening a file failed although the file system reported no error"); ++refused; break; }
            if (!exists) fail("phantom", "a stream was created for a file that does not exist"); if (node_bytes(*F.files[p], 0, 1u << 20) != content[p]) fail("content-changed", "opening for reading changed the file"); readers.emplace_back(p, s); live.emplace_back(p, s); break; }
        default: if (!live.empty()) { size_t k = C.draw((uint32_t)live.size()); auto s = live[k].second; live.erase(live.begin() + k); for (size_t r = 0; r < readers.size(); ++r) if (readers[r].second == s) { readers.erase(readers.begin() + r); break; } } break;
        }
        if (!readers.empty() && C.flip(1, 2)) { auto& r = readers[C.draw((uint32_t)readers.size())]; uint64_t o = C.draw(3200), sz = 1 + C.draw(600); checked_read(r.second.get(), node_bytes(*F.files[r.first], o, sz), o, sz, true, "one of several streams"); }
        F.check_bad("several streams"); size_t distinct = live.size(); if (F.open_count() != distinct) fail(F.open_count() > distinct ? "descriptor-leak" : "descriptor-lost", "%zu streams are alive but %zu descriptors are open", distinct, F.open_count());
    }
    readers.clear(); live.clear(); finish("several streams"); if (F.opened > 2) nontrivial();
    sample("%llu streams opened, %llu refused, %llu transient and %llu hard errors", (unsigned long long)F.opened, (unsigned long long)refused, (unsigned long long)F.transient, (unsigned long long)F.hard);
}
// memory streams
SCENARIO(C13, memory, 1)
{
    Bytes d = payload(C.flip(1, 20) ? 65537 + C.draw(300000) : C.draw(3) ? C.draw(3000) : C.draw(3), 9); auto copy = std::shared_ptr<uint8_t>(new uint8_t[d.size()], std::default_delete<uint8_t[]>()); memcpy(copy.get(), d.data(), d.size());
    auto s = CreateStreamFromMemory(std::shared_ptr<const void>(copy, copy.get()), d.size()); std::weak_ptr<uint8_t> wk = copy; copy.reset(); int m = 1 + C.len(20);
    for (int i = 0; i < m; ++i) { uint64_t o = gen_off(d.size()), sz = gen_size(); checked_read(s.get(), o >= d.size() ? Bytes() : Bytes(d.begin() + o, d.begin() + std::min<uint64_t>(d.size(), o + sz)), o, sz, !C.flip(1, 8), "memory stream"); tick(); }
    if (wk.expired()) fail("released-early", "the memory was released while the stream is alive"); s.reset(); if (!wk.expired()) fail("memory-leak", "the stream does not release the memory"); if (m > 2) nontrivial(); sched(m); sample("memory stream of %zu bytes, %d reads", d.size(), m);
}
// whole documents through files: the writing, editing and reading workloads of C01, C02, C05, C07 on the library's own file streams
namespace {
void through_files()
{
    auto& s = stream_seam(); F.armed = true; static const uint32_t rates[] = {0, 30, 150, 400}; F.eintr = rates[C.draw(4)]; F.shrt = rates[C.draw(4)]; if (C.flip(1, 4)) F.max_transfer = 64 + C.draw(1000); F.stdin_closed = C.flip(1, 4);
    s.in = [](std::shared_ptr<Disk> d) { std::string p = F.path_of(d); int k = C.draw(7); if (k == 2 || k == 4) F.eintr = 0; return file_in_stream(p, k); };   // an interrupted fread is an error for the C library
    s.out = [](std::shared_ptr<Disk> d) { std::string p = F.path_of(d); return CreateOutputStreamForFile(widen(p).c_str(), true); };
    s.io = [](std::shared_ptr<Disk> d) { std::string p = F.path_of(d); return CreateInputOutputStreamForFile(widen(p).c_str()); };
}
void files_workload(const char* prop, const char* name)
{
    through_files(); run_scenario(prop, name); stream_seam() = StreamSeam(); F.check_bad("documents in files"); if (F.open_count()) fail("descriptor-leak", "documents in files: %zu descriptors are still open after all objects were released", F.open_count());
    if (F.calls > 4) nontrivial();
}
}
SCENARIO(C13, doc_roundtrip, 2) { files_workload("C01", "roundtrip"); }
SCENARIO(C13, doc_write_faults, 2) { files_workload("C02", "faults"); }
SCENARIO(C13, doc_edit_faults, 3) { files_workload("C05", "edit_faults"); }
SCENARIO(C13, doc_read_faults, 2) { files_workload("C07", "faults"); }

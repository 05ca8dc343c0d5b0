// Simulated file system behind the C library calls (linker --wrap, see wraps.txt): everything below "/simfs/" lives here.
// System calls are interrupted, transfer fewer bytes than asked for, fail, or run out of space; other processes create files in between.
#pragma once
#include "core/disk.h"
#include <map>
#include <set>

namespace sim {
struct FsNode {
    std::shared_ptr<Disk> disk;                          // dense content, shared with the document model ...
    std::map<uint64_t, std::vector<uint8_t>> pages;      // ... or sparse content (files of many gigabytes)
    uint64_t sparse_size = 0;
    bool exists = true, race_create = false, pending_eio = false;             // race_create: another process creates the file as soon as somebody has looked for it in vain
    uint64_t lo = ~0ull, hi = 0;                         // range of all writes since the last reset
    uint64_t size() const { return disk ? disk->data.size() : sparse_size; }
    void get(uint64_t off, uint8_t* p, uint64_t n) const;
    void put(uint64_t off, const uint8_t* p, uint64_t n);
    void truncate();
};
struct FsFile { std::shared_ptr<FsNode> n; bool r = false, w = false, is_stdio = false, err = false, eof = false; uint64_t pos = 0; };
struct Fs {
    std::map<std::string, std::shared_ptr<FsNode>> files;
    std::map<int, FsFile*> fds; std::set<FsFile*> stdio;
    bool stdin_closed = false;          // descriptor 0 is free: the next open gets it
    // per mille
    bool armed = false; uint32_t eintr = 0, shrt = 0, r_eio = 0, w_eio = 0, open_fail = 0; uint64_t max_transfer = ~0ull, capacity = ~0ull, max_faults = ~0ull;
    uint64_t calls = 0, hard = 0, transient = 0, opened = 0, closed = 0, next_path = 0; int next_fd = 1000;
    uint64_t budget = 400000;
    std::string bad;                    // first misuse of the file system (double close, ...)
    std::map<Disk*, std::string> paths;
    std::string path_of(std::shared_ptr<Disk> d);
    size_t open_count() const { return fds.size() + stdio.size(); }
    void check_bad(const char* who) { if (!bad.empty()) fail("descriptor-misuse", "%s: %s", who, bad.c_str()); }
};
extern Fs F;
uint64_t& fs_hard();     // hard errors delivered to the calling thread
std::shared_ptr<libCZI::IStream> file_in_stream(const std::string& path, int kind);   // 0: CreateStreamFromFile, 1: factory pread (UTF-8), 2: factory C-runtime, 3: factory pread (wide), 4: factory C-runtime (wide), 5, 6: factory default (UTF-8, wide)
std::wstring widen(const std::string& s);
} // namespace sim

#include "core/simfs.h"
#include "libCZI_StreamsLib.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <cerrno>
#include <cstdarg>
#ifdef SIM_SCHED
#include "sched/tsrt.h"
#define FS_POINT() sim::yield_point()
typedef sim::Quiet FsQuiet;
#else
#define FS_POINT() ((void)0)
typedef sim::Exempt FsQuiet;
#endif

namespace sim {
Fs F;
uint64_t& fs_hard() { static thread_local uint64_t n = 0; return n; }
static constexpr uint64_t kPage = 4096;
void FsNode::get(uint64_t off, uint8_t* p, uint64_t n) const
{
    if (disk) { memcpy(p, disk->data.data() + off, n); return; }
    while (n) { uint64_t pg = off / kPage, o = off % kPage, k = std::min(n, kPage - o); auto f = pages.find(pg); if (f == pages.end()) memset(p, 0, k); else memcpy(p, f->second.data() + o, k); p += k; off += k; n -= k; }
}
void FsNode::put(uint64_t off, const uint8_t* p, uint64_t n)
{
    if (!n) return; lo = std::min(lo, off); hi = std::max(hi, off + n);
    if (disk) { disk->put(off, p, n); return; }
    sparse_size = std::max(sparse_size, off + n);
    while (n) { uint64_t pg = off / kPage, o = off % kPage, k = std::min(n, kPage - o); auto& v = pages[pg]; if (v.empty()) v.resize(kPage); memcpy(v.data() + o, p, k); p += k; off += k; n -= k; }
}
void FsNode::truncate() { if (disk) disk->data.clear(); pages.clear(); sparse_size = 0; }
std::string Fs::path_of(std::shared_ptr<Disk> d)
{
    auto f = paths.find(d.get()); if (f != paths.end()) return f->second;
    std::string p = "/simfs/doc" + std::to_string(next_path++) + ".czi"; auto n = std::make_shared<FsNode>(); n->disk = d; files[p] = n; paths[d.get()] = p; return p;
}
std::wstring widen(const std::string& s) { return std::wstring(s.begin(), s.end()); }
std::shared_ptr<libCZI::IStream> file_in_stream(const std::string& path, int kind)
{
    if (kind == 0) return libCZI::CreateStreamFromFile(widen(path).c_str());
    if (kind == 5) return libCZI::StreamsFactory::CreateDefaultStreamForFile(path.c_str());
    if (kind == 6) return libCZI::StreamsFactory::CreateDefaultStreamForFile(widen(path).c_str());
    libCZI::StreamsFactory::CreateStreamInfo ci; ci.class_name = kind == 1 || kind == 3 ? "pread_file_inputstream" : "c_runtime_file_inputstream";
    auto s = kind <= 2 ? libCZI::StreamsFactory::CreateStream(ci, path) : libCZI::StreamsFactory::CreateStream(ci, widen(path));
    if (!s) fail("no-stream", "the stream factory does not create '%s'", ci.class_name.c_str());
    return s;
}

static bool is_sim(const char* p) { return p && !strncmp(p, "/simfs/", 7); }
static void call_begin() { ++F.calls; tick(); if (F.calls > F.budget) fail("livelock:io", "more than %llu system calls in one run", (unsigned long long)F.budget); }
static bool roll(uint32_t rate) { return F.armed && rate && F.hard + F.transient < F.max_faults && C.flip(rate, 1000); }
static void hard(FsNode* n, const char* kind) { ++F.hard; ++fs_hard(); if (n && n->disk) ++n->disk->faults; count(kind); sched(11 * F.calls + 3); }
static void soft(const char* kind) { ++F.transient; count(kind); sched(11 * F.calls + 5); }
static void misuse(const char* m) { if (F.bad.empty()) F.bad = m; ev("FS misuse: %s", m); }
static bool disk_roll(FsNode* n, uint32_t rate) { return n->disk && n->disk->roll(rate); }

// returns the descriptor's file or sets errno
static FsFile* do_open(const char* path, int flags)
{
    call_begin(); auto& slot = F.files[path]; bool fresh = !slot; if (fresh) { slot = std::make_shared<FsNode>(); slot->exists = false; } auto n = slot;
    if (roll(F.open_fail)) { static const int es[] = {EACCES, EMFILE, ENOENT, EIO}; errno = es[C.draw(4)]; hard(n.get(), "fault.open"); ev("FS open %s -> errno %d", path, errno); return nullptr; }
    if (!n->exists && !(flags & O_CREAT)) { ev("FS open %s -> ENOENT", path); if (n->race_create) { n->exists = true; n->race_create = false; count("fault.concurrent_create"); } errno = ENOENT; return nullptr; }
    if (!n->exists && n->race_create) { n->exists = true; n->race_create = false; count("fault.concurrent_create"); ev("FS another process creates %s", path); }
    if (n->exists && (flags & O_CREAT) && (flags & O_EXCL)) { ev("FS open %s -> EEXIST", path); errno = EEXIST; return nullptr; }
    n->exists = true; int acc = flags & O_ACCMODE;
    if (flags & O_TRUNC) { if (n->size()) n->lo = 0; n->truncate(); }
    auto f = new FsFile; f->n = n; f->r = acc != O_WRONLY; f->w = acc != O_RDONLY; ++F.opened; ev("FS open %s flags %x", path, flags & (O_ACCMODE | O_CREAT | O_EXCL | O_TRUNC)); return f;
}
static ssize_t do_read(FsFile* f, uint8_t* p, uint64_t n, uint64_t off)
{
    call_begin(); FsNode* nd = f->n.get();
    if (!f->r) { errno = EBADF; misuse("read on a descriptor that is not open for reading"); return -1; }
    if ((int64_t)off < 0 || (int64_t)n < 0 || off + n > (1ull << 63)) { errno = EINVAL; hard(nd, "fs.einval"); return -1; }
    if (nd->disk) ++nd->disk->reads;
    if (roll(F.eintr)) { soft("fault.eintr"); ev("FS read %llu+%llu EINTR", (unsigned long long)off, (unsigned long long)n); errno = EINTR; return -1; }
    if (roll(F.r_eio) || disk_roll(nd, nd->disk ? nd->disk->f.r_eio : 0)) { hard(nd, "fault.read_eio"); ev("FS read %llu+%llu EIO", (unsigned long long)off, (unsigned long long)n); errno = EIO; return -1; }
    uint64_t sz = nd->size(), k = off >= sz ? 0 : std::min(n, sz - off); k = std::min(k, F.max_transfer);
    if (k > 1 && (roll(F.shrt) || disk_roll(nd, nd->disk ? nd->disk->f.r_short : 0))) { k = 1 + C.draw((uint32_t)std::min<uint64_t>(k - 1, 1u << 20)); soft("fault.read_short"); }
    if (k) nd->get(off, p, k);
    ev("FS read %llu+%llu=%llu", (unsigned long long)off, (unsigned long long)n, (unsigned long long)k); return (ssize_t)k;
}
static ssize_t do_write(FsFile* f, const uint8_t* p, uint64_t n, uint64_t off)
{
    call_begin(); FsNode* nd = f->n.get();
    if (!f->w) { errno = EBADF; misuse("write on a descriptor that is not open for writing"); return -1; }
    if ((int64_t)off < 0 || (int64_t)n < 0 || off + n > (1ull << 63)) { errno = EINVAL; hard(nd, "fs.einval"); return -1; }
    if (nd->disk) { ++nd->disk->writes; if (off + n > Disk::kMaxFile) { errno = EFBIG; hard(nd, "fs.efbig"); return -1; } }
    if (roll(F.eintr)) { soft("fault.eintr"); ev("FS write %llu+%llu EINTR", (unsigned long long)off, (unsigned long long)n); errno = EINTR; return -1; }
    if (nd->pending_eio || roll(F.w_eio) || disk_roll(nd, nd->disk ? nd->disk->f.w_eio : 0)) { nd->pending_eio = false; hard(nd, "fault.write_eio"); ev("FS write %llu+%llu EIO", (unsigned long long)off, (unsigned long long)n); errno = EIO; return -1; }
    uint64_t k = std::min(n, F.max_transfer), cap = F.armed ? F.capacity : ~0ull; if (nd->disk && nd->disk->f.armed) cap = std::min(cap, nd->disk->f.capacity);
    if (n && off + k > cap && off + k > nd->size()) { if (off >= cap) { hard(nd, "fault.enospc"); ev("FS write %llu+%llu ENOSPC", (unsigned long long)off, (unsigned long long)n); errno = ENOSPC; return -1; } k = std::min(k, cap - off); soft("fault.enospc_partial"); }
    if (k > 1 && disk_roll(nd, nd->disk ? nd->disk->f.w_torn : 0)) { k = 1 + C.draw((uint32_t)std::min<uint64_t>(k - 1, 1u << 20)); soft("fault.write_torn"); nd->pending_eio = true; }
    else if (k > 1 && (roll(F.shrt) || disk_roll(nd, nd->disk ? nd->disk->f.w_short : 0))) { k = 1 + C.draw((uint32_t)std::min<uint64_t>(k - 1, 1u << 20)); soft("fault.write_short"); }
    nd->put(off, p, k);
    ev("FS write %llu+%llu=%llu", (unsigned long long)off, (unsigned long long)n, (unsigned long long)k); return (ssize_t)k;
}
static FsFile* by_fd(int fd) { auto f = F.fds.find(fd); return f == F.fds.end() ? nullptr : f->second; }
static bool sim_fd(int fd) { FsQuiet q; return fd >= 1000 && fd < F.next_fd ? true : F.fds.count(fd) != 0; }
static FsFile* by_fp(FILE* fp) { auto f = (FsFile*)fp; return F.stdio.count(f) ? f : nullptr; }
static std::set<FsFile*>& dead_fp() { static std::set<FsFile*> s; return s; }
} // namespace sim
using namespace sim;

extern "C" {
#define REAL(ret, name, args) ret __real_##name args
REAL(int, open, (const char*, int, ...)); REAL(int, open64, (const char*, int, ...)); REAL(int, close, (int));
REAL(ssize_t, pread, (int, void*, size_t, off_t)); REAL(ssize_t, pread64, (int, void*, size_t, off_t)); REAL(ssize_t, pwrite, (int, const void*, size_t, off_t)); REAL(ssize_t, pwrite64, (int, const void*, size_t, off_t));
REAL(ssize_t, read, (int, void*, size_t)); REAL(ssize_t, write, (int, const void*, size_t)); REAL(off_t, lseek, (int, off_t, int)); REAL(off_t, lseek64, (int, off_t, int));
REAL(int, fstat, (int, struct stat*)); REAL(int, fstat64, (int, struct stat*)); REAL(int, stat, (const char*, struct stat*)); REAL(int, stat64, (const char*, struct stat*)); REAL(int, access, (const char*, int)); REAL(int, ftruncate, (int, off_t)); REAL(int, ftruncate64, (int, off_t)); REAL(int, fsync, (int));
REAL(FILE*, fopen, (const char*, const char*)); REAL(FILE*, fopen64, (const char*, const char*)); REAL(int, fclose, (FILE*)); REAL(size_t, fread, (void*, size_t, size_t, FILE*)); REAL(size_t, fwrite, (const void*, size_t, size_t, FILE*));
REAL(int, fseek, (FILE*, long, int)); REAL(int, fseeko, (FILE*, off_t, int)); REAL(int, fseeko64, (FILE*, off_t, int)); REAL(long, ftell, (FILE*)); REAL(off_t, ftello, (FILE*)); REAL(off_t, ftello64, (FILE*));
REAL(int, ferror, (FILE*)); REAL(int, feof, (FILE*)); REAL(void, clearerr, (FILE*)); REAL(int, fflush, (FILE*)); REAL(void, rewind, (FILE*)); REAL(int, fileno, (FILE*)); REAL(int, setvbuf, (FILE*, char*, int, size_t));

static int sim_open(const char* path, int flags)
{
    FS_POINT(); int e = 0, fd = -1; { FsQuiet q; auto f = do_open(path, flags); e = errno; if (f) { fd = F.stdin_closed && !F.fds.count(0) ? 0 : F.next_fd++; F.fds[fd] = f; ev("FS   descriptor %d", fd); } } errno = e; FS_POINT(); return fd;
}
int __wrap_open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); return is_sim(p) ? sim_open(p, fl) : __real_open(p, fl, m); }
int __wrap_open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); return is_sim(p) ? sim_open(p, fl) : __real_open64(p, fl, m); }
int __wrap_close(int fd)
{
    if (!sim_fd(fd)) { if (fd < 0 && F.opened) { FsQuiet q; misuse("close of an invalid descriptor"); errno = EBADF; return -1; } return __real_close(fd); }
    FS_POINT(); FsQuiet q; auto f = by_fd(fd); if (!f) { misuse("a descriptor is closed twice"); errno = EBADF; return -1; }
    F.fds.erase(fd); delete f; ++F.closed; ev("FS close %d", fd); return 0;
}
static ssize_t sim_pread(int fd, void* p, size_t n, off_t o)
{
    FS_POINT(); ssize_t r; int e; { FsQuiet q; auto f = by_fd(fd); if (!f) { misuse("read on a closed descriptor"); errno = EBADF; r = -1; } else r = do_read(f, (uint8_t*)p, n, (uint64_t)o); e = errno; } if (r < 0) errno = e; FS_POINT(); return r;
}
static ssize_t sim_pwrite(int fd, const void* p, size_t n, off_t o)
{
    FS_POINT(); ssize_t r; int e; { FsQuiet q; auto f = by_fd(fd); if (!f) { misuse("write on a closed descriptor"); errno = EBADF; r = -1; } else r = do_write(f, (const uint8_t*)p, n, (uint64_t)o); e = errno; } if (r < 0) errno = e; FS_POINT(); return r;
}
ssize_t __wrap_pread(int fd, void* p, size_t n, off_t o) { return sim_fd(fd) ? sim_pread(fd, p, n, o) : __real_pread(fd, p, n, o); }
ssize_t __wrap_pread64(int fd, void* p, size_t n, off_t o) { return sim_fd(fd) ? sim_pread(fd, p, n, o) : __real_pread64(fd, p, n, o); }
ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t o) { return sim_fd(fd) ? sim_pwrite(fd, p, n, o) : __real_pwrite(fd, p, n, o); }
ssize_t __wrap_pwrite64(int fd, const void* p, size_t n, off_t o) { return sim_fd(fd) ? sim_pwrite(fd, p, n, o) : __real_pwrite64(fd, p, n, o); }
ssize_t __wrap_read(int fd, void* p, size_t n) { if (!sim_fd(fd)) return __real_read(fd, p, n); FsFile* f; { FsQuiet q; f = by_fd(fd); } if (!f) { errno = EBADF; return -1; } ssize_t r = sim_pread(fd, p, n, (off_t)f->pos); if (r > 0) f->pos += r; return r; }
ssize_t __wrap_write(int fd, const void* p, size_t n) { if (!sim_fd(fd)) return __real_write(fd, p, n); FsFile* f; { FsQuiet q; f = by_fd(fd); } if (!f) { errno = EBADF; return -1; } ssize_t r = sim_pwrite(fd, p, n, (off_t)f->pos); if (r > 0) f->pos += r; return r; }
static off_t sim_seek(FsFile* f, off_t o, int w) { FsQuiet q; call_begin(); int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)f->pos : (int64_t)f->n->size(); if (b + o < 0 || (o > 0 && b > INT64_MAX - o)) { errno = EINVAL; hard(f->n.get(), "fs.einval"); return -1; } f->pos = (uint64_t)(b + o); return (off_t)f->pos; }
static off_t sim_lseek(int fd, off_t o, int w) { FS_POINT(); FsFile* f; { FsQuiet q; f = by_fd(fd); } if (!f) { errno = EBADF; return -1; } off_t r = sim_seek(f, o, w); FS_POINT(); return r; }
off_t __wrap_lseek(int fd, off_t o, int w) { return sim_fd(fd) ? sim_lseek(fd, o, w) : __real_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return sim_fd(fd) ? sim_lseek(fd, o, w) : __real_lseek64(fd, o, w); }
static int node_stat(FsNode* n, struct stat* s) { memset(s, 0, sizeof(*s)); s->st_mode = S_IFREG | 0644; s->st_size = (off_t)n->size(); s->st_nlink = 1; return 0; }
static int sim_fstat(int fd, struct stat* s) { FsQuiet q; auto f = by_fd(fd); if (!f) { errno = EBADF; return -1; } return node_stat(f->n.get(), s); }
static int sim_stat(const char* p, struct stat* s) { FS_POINT(); FsQuiet q; auto f = F.files.find(p); if (f == F.files.end() || !f->second->exists) { if (f != F.files.end() && f->second->race_create) { f->second->exists = true; f->second->race_create = false; count("fault.concurrent_create"); } errno = ENOENT; return -1; } return node_stat(f->second.get(), s); }
int __wrap_fstat(int fd, struct stat* s) { return sim_fd(fd) ? sim_fstat(fd, s) : __real_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat* s) { return sim_fd(fd) ? sim_fstat(fd, s) : __real_fstat64(fd, s); }
int __wrap_stat(const char* p, struct stat* s) { return is_sim(p) ? sim_stat(p, s) : __real_stat(p, s); }
int __wrap_stat64(const char* p, struct stat* s) { return is_sim(p) ? sim_stat(p, s) : __real_stat64(p, s); }
int __wrap_access(const char* p, int m) { struct stat s; return is_sim(p) ? sim_stat(p, &s) : __real_access(p, m); }
static int sim_trunc(int fd, off_t n) { FsQuiet q; auto f = by_fd(fd); if (!f || !f->n->disk) { errno = EBADF; return -1; } f->n->lo = 0; f->n->disk->data.resize((size_t)n); return 0; }
int __wrap_ftruncate(int fd, off_t n) { return sim_fd(fd) ? sim_trunc(fd, n) : __real_ftruncate(fd, n); }
int __wrap_ftruncate64(int fd, off_t n) { return sim_fd(fd) ? sim_trunc(fd, n) : __real_ftruncate64(fd, n); }
int __wrap_fsync(int fd) { return sim_fd(fd) ? 0 : __real_fsync(fd); }

// ---- stdio on top (unbuffered): like the C library, fread continues after a partial transfer and stops at an error (setting the error indicator)
static FILE* sim_fopen(const char* p, const char* m)
{
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT; if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR; if (strchr(m, 'x')) fl |= O_EXCL;
    FS_POINT(); FsFile* f; int e; { FsQuiet q; f = do_open(p, fl); e = errno; if (f) { f->is_stdio = true; F.stdio.insert(f); } } errno = e; FS_POINT(); return (FILE*)f;
}
FILE* __wrap_fopen(const char* p, const char* m) { return is_sim(p) ? sim_fopen(p, m) : __real_fopen(p, m); }
FILE* __wrap_fopen64(const char* p, const char* m) { return is_sim(p) ? sim_fopen(p, m) : __real_fopen64(p, m); }
static FsFile* fp_of(FILE* fp, bool* dead) { FsQuiet q; *dead = false; if (auto f = by_fp(fp)) return f; if (dead_fp().count((FsFile*)fp)) { *dead = true; misuse("use of a closed FILE"); } return nullptr; }
int __wrap_fclose(FILE* fp)
{
    bool dead; auto f = fp_of(fp, &dead); if (dead) return EOF; if (!f) { if (!fp) { misuse("fclose of a null pointer"); return EOF; } return __real_fclose(fp); }
    FS_POINT(); FsQuiet q; F.stdio.erase(f); dead_fp().insert(f); f->n.reset(); ++F.closed; ev("FS fclose"); return 0;     // the object stays allocated, so that its address is not reused
}
size_t __wrap_fread(void* p, size_t s, size_t c, FILE* fp)
{
    bool dead; auto f = fp_of(fp, &dead); if (dead) return 0; if (!f) return __real_fread(p, s, c, fp);
    FS_POINT(); size_t want = s * c, got = 0; { FsQuiet q; while (got < want) { ssize_t r = do_read(f, (uint8_t*)p + got, want - got, f->pos); if (r < 0) { f->err = true; if (errno == EINTR) ++fs_hard(); break; } if (r == 0) { f->eof = true; break; } got += r; f->pos += r; } } FS_POINT(); return s ? got / s : 0;
}
size_t __wrap_fwrite(const void* p, size_t s, size_t c, FILE* fp)
{
    bool dead; auto f = fp_of(fp, &dead); if (dead) return 0; if (!f) return __real_fwrite(p, s, c, fp);
    FS_POINT(); size_t want = s * c, got = 0; { FsQuiet q; while (got < want) { ssize_t r = do_write(f, (const uint8_t*)p + got, want - got, f->pos); if (r < 0) { f->err = true; if (errno == EINTR) ++fs_hard(); break; } got += r; f->pos += r; } } FS_POINT(); return s ? got / s : 0;
}
// seeking refills the buffer of the C library, which may fail
static int sim_fseek(FsFile* f, off_t o, int w) { FS_POINT(); { FsQuiet q; if (roll(F.r_eio) || disk_roll(f->n.get(), f->n->disk ? f->n->disk->f.r_eio : 0)) { hard(f->n.get(), "fault.seek_eio"); ev("FS seek EIO"); f->err = true; errno = EIO; return -1; } } if (sim_seek(f, o, w) < 0) return -1; { FsQuiet q; f->eof = false; } FS_POINT(); return 0; }
#define FP(expr, real) bool dead; auto f = fp_of(fp, &dead); if (dead) return -1; return f ? (expr) : (real)
int __wrap_fseek(FILE* fp, long o, int w) { FP(sim_fseek(f, o, w), __real_fseek(fp, o, w)); }
int __wrap_fseeko(FILE* fp, off_t o, int w) { FP(sim_fseek(f, o, w), __real_fseeko(fp, o, w)); }
int __wrap_fseeko64(FILE* fp, off_t o, int w) { FP(sim_fseek(f, o, w), __real_fseeko64(fp, o, w)); }
#undef FP
#define FP(expr, real) bool dead; auto f = fp_of(fp, &dead); if (dead) return -1; FsQuiet q0; return f ? (expr) : (real)
long __wrap_ftell(FILE* fp) { FP((long)f->pos, __real_ftell(fp)); }
off_t __wrap_ftello(FILE* fp) { FP((off_t)f->pos, __real_ftello(fp)); }
off_t __wrap_ftello64(FILE* fp) { FP((off_t)f->pos, __real_ftello64(fp)); }
int __wrap_ferror(FILE* fp) { FP(f->err, __real_ferror(fp)); }
int __wrap_feof(FILE* fp) { FP(f->eof, __real_feof(fp)); }
int __wrap_fflush(FILE* fp) { if (!fp) return __real_fflush(fp); FP(0, __real_fflush(fp)); }
int __wrap_fileno(FILE* fp) { FP(-1, __real_fileno(fp)); }
int __wrap_setvbuf(FILE* fp, char* b, int m, size_t n) { FP(0, __real_setvbuf(fp, b, m, n)); }
void __wrap_clearerr(FILE* fp) { bool dead; auto f = fp_of(fp, &dead); if (dead) return; if (f) { FsQuiet q; f->err = f->eof = false; } else __real_clearerr(fp); }
void __wrap_rewind(FILE* fp) { bool dead; auto f = fp_of(fp, &dead); if (dead) return; if (f) { FsQuiet q; f->err = f->eof = false; f->pos = 0; } else __real_rewind(fp); }
}

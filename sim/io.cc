// Simulated disk: files below the per-run scratch directory.  The bytes live in
// the real (temporary) file system; what each call returns is decided here.
#include "internal.h"
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace simi;

namespace {
constexpr int NFD = 1024;
const char PRE[] = "scratch/";
struct File { bool open, writes; char path[120]; } fds[NFD];
struct Arm { int64_t nth; int kind; bool fired; } arms[16]; int narm;
uint64_t ops_, fired_; bool suspended;
int64_t crash_at = -1; bool crashed;
bool made;

bool mine(const char* p) { return p && !strncmp(p, PRE, sizeof PRE - 1); }
const char* base(const char* p) {          // absolute names of the same directory (HDF5 builds some)
    const char* s = strstr(p, "/scratch/");
    return s ? s + 1 : p;
}
bool on() { return g_active && cur; }
bool tracked(int fd) { return fd >= 0 && fd < NFD && fds[fd].open; }
void track(int fd, const char* p, bool w) { if (fd >= 0 && fd < NFD) { fds[fd].open = true; fds[fd].writes = w; strncpy(fds[fd].path, p, sizeof fds[fd].path - 1); } }

void copy_file(const char* a, const char* b) {
    long i = rsys(SYS_open, (long)a, O_RDONLY, 0);
    if (i < 0) return;
    long o = rsys(SYS_open, (long)b, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    static char buf[65536];
    for (long n; o >= 0 && (n = rsys(SYS_read, i, (long)buf, sizeof buf)) > 0;) rsys(SYS_write, o, (long)buf, n);
    if (o >= 0) rsys(SYS_close, o);
    rsys(SYS_close, i);
}
void crash_snapshot() {
    crashed = true;
    for (int f = 0; f < NFD; ++f) if (fds[f].open) {
        char b[160]; snprintf(b, sizeof b, "%s.crash", fds[f].path);
        copy_file(fds[f].path, b);
    }
    sim::note_fault("crash-point");
}
// what the simulated disk decides about this operation: 0 or a fault kind
int op(const char* name, bool writes, bool transfers, uint64_t size) {
    uint64_t i = ops_++;
    hash_mix(0x10, uint64_t(name[0]) << 8 | uint64_t(name[1]), size);
    sync_point(K_IO, 0);
    if (crash_at >= 0 && i == uint64_t(crash_at) && !crashed) crash_snapshot();
    if (!g_faults_on || suspended) return 0;
    for (int k = 0; k < narm; ++k) {
        Arm& a = arms[k];
        int kind = a.kind & 15; bool sticky = a.kind & sim::IO_STICKY;
        if (int64_t(i) < a.nth) continue;
        if (a.fired && !sticky) continue;
        if (!sticky && !a.fired && int64_t(i) > a.nth && kind == sim::IO_EIO) { /* first eligible operation */ }
        if (kind == sim::IO_ENOSPC && !writes) continue;
        if ((kind == sim::IO_SHORT || kind == sim::IO_EINTR) && (!transfers || size < 2)) continue;
        a.fired = true; ++fired_;
        char n[48]; snprintf(n, sizeof n, "disk-%s-%s", name, kind == sim::IO_EIO ? "eio" : kind == sim::IO_ENOSPC ? "enospc" : kind == sim::IO_SHORT ? "short" : "eintr");
        sim::note_fault(n);
        return kind;
    }
    return 0;
}
int err_of(int k) { return k == sim::IO_ENOSPC ? ENOSPC : k == sim::IO_EINTR ? EINTR : EIO; }
template <class F> F* real(const char* n) { return (F*)dlsym(RTLD_NEXT, n); }

int do_open(const char* path, int flags, mode_t mode) {
    const char* p = base(path);
    bool m = mine(p);
    if (m && on()) {
        int k = op("open", (flags & O_ACCMODE) != O_RDONLY, false, 0);
        if (k) { errno = err_of(k); return -1; }
    }
    long fd = rsys(SYS_open, (long)path, flags, mode);
    if (fd < 0) { errno = int(-fd); return -1; }
    if (m) track(int(fd), p, (flags & O_ACCMODE) != O_RDONLY);
    return int(fd);
}
void clean(const char* d) {
    DIR* dir = opendir(d);
    if (!dir) return;
    while (struct dirent* e = readdir(dir)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        char b[400]; snprintf(b, sizeof b, "%s/%s", d, e->d_name);
        unlink(b);
    }
    closedir(dir);
}
}  // namespace

namespace simi {
// every worker process has a directory of its own; the run's files are in
// ./scratch below it, so that names do not differ between workers
static char workdir[200];
void io_setup() {
    const char* r = getenv("SIM_SCRATCH");
    if (!r || !*r) r = "/tmp";
    snprintf(workdir, sizeof workdir, "%s/simw%08d", r, int(getpid()));
    mkdir(workdir, 0700);
    if (chdir(workdir) != 0) { fprintf(stderr, "simrt: no scratch directory\n"); _exit(70); }
    mkdir("scratch", 0700);
}
void io_teardown() {
    if (!workdir[0]) return;
    clean("scratch"); rmdir("scratch");
    if (chdir("/") == 0) rmdir(workdir);
}
void io_begin_run() { clean("scratch"); made = true; narm = 0; ops_ = fired_ = 0; crash_at = -1; crashed = false; suspended = false; memset(fds, 0, sizeof fds); }
}  // namespace simi

namespace sim {
const char* scratch() { return "scratch"; }
void io_arm(int64_t nth, int kind) { if (narm < 16) { arms[narm].nth = int64_t(ops_) + nth; arms[narm].kind = kind; arms[narm].fired = false; ++narm; } }
void io_disarm() { narm = 0; }
void io_crash_at(int64_t nth) { crash_at = int64_t(ops_) + nth; crashed = false; }
bool io_crashed() { return crashed; }
uint64_t io_ops() { return ops_; }
uint64_t io_fired() { return fired_; }
void io_reset() { narm = 0; ops_ = 0; fired_ = 0; crash_at = -1; crashed = false; }
int io_decide(const char* what, bool writes) { return on() ? op(what, writes, false, 0) : 0; }
bool io_suspend(bool s) { bool w = suspended; suspended = s; return w; }
void io_lose_half(const char* path) {
    struct stat st;
    if (mine(base(path)) && stat(path, &st) == 0) rsys(SYS_truncate, (long)path, long(st.st_size / 2));
}
bool io_writing(const char* path) {
    for (auto& f : fds) if (f.open && f.writes && !strcmp(f.path, base(path))) return true;
    return false;
}
int open_fds() { int n = 0; for (auto& f : fds) n += f.open; return n; }
}  // namespace sim

extern "C" {
int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return do_open(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return do_open(p, fl, m); }
int __open_2(const char* p, int fl) { return do_open(p, fl, 0); }
int __open64_2(const char* p, int fl) { return do_open(p, fl, 0); }
int creat(const char* p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int openat(int d, const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    if (d == AT_FDCWD) return do_open(p, fl, m);
    long r = rsys(SYS_openat, d, (long)p, fl, m); if (r < 0) { errno = int(-r); return -1; } return int(r);
}
int close(int fd) {
    bool t = tracked(fd); int k = 0;
    if (t && on() && fds[fd].writes) k = op("close", true, false, 0);   // a file that was only read has nothing to lose
    if (t) fds[fd].open = false;
    long r = rsys(SYS_close, fd);
    if (k) { errno = err_of(k); return -1; }
    if (r < 0) { errno = int(-r); return -1; }
    return 0;
}
static ssize_t xfer(const char* name, bool w, int fd, long num, const void* b, size_t n, long off, bool has_off) {
    size_t want = n;
    if (tracked(fd) && on()) {
        int k = op(name, w, true, n);
        if (k == sim::IO_SHORT) want = n / 2;
        else if (k) { errno = err_of(k); return -1; }
    }
    long r = has_off ? rsys(num, fd, (long)b, long(want), off) : rsys(num, fd, (long)b, long(want));
    if (r < 0) { errno = int(-r); return -1; }
    return r;
}
ssize_t read(int fd, void* b, size_t n) { return xfer("read", false, fd, SYS_read, b, n, 0, false); }
ssize_t write(int fd, const void* b, size_t n) { return xfer("write", true, fd, SYS_write, b, n, 0, false); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return xfer("pread", false, fd, SYS_pread64, b, n, o, true); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return xfer("pread", false, fd, SYS_pread64, b, n, o, true); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return xfer("pwrite", true, fd, SYS_pwrite64, b, n, o, true); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return xfer("pwrite", true, fd, SYS_pwrite64, b, n, o, true); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (tracked(fd) && on()) {
        uint64_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
        int k = op("writev", true, true, n);
        if (k == sim::IO_SHORT) {
            for (int i = 0; i < c; ++i) if (v[i].iov_len) { long r = rsys(SYS_write, fd, (long)v[i].iov_base, long((v[i].iov_len + 1) / 2)); if (r < 0) { errno = int(-r); return -1; } return r; }
        } else if (k) { errno = err_of(k); return -1; }
    }
    long r = rsys(SYS_writev, fd, (long)v, c);
    if (r < 0) { errno = int(-r); return -1; }
    return r;
}
static int trunc_(int fd, long n) {
    if (tracked(fd) && on()) { int k = op("ftruncate", true, false, uint64_t(n)); if (k) { errno = err_of(k); return -1; } }
    long r = rsys(SYS_ftruncate, fd, n); if (r < 0) { errno = int(-r); return -1; } return 0;
}
int ftruncate(int fd, off_t n) { return trunc_(fd, n); }
int ftruncate64(int fd, off64_t n) { return trunc_(fd, n); }
int fsync(int fd) {
    if (tracked(fd) && on()) { int k = op("fsync", true, false, 0); if (k) { errno = err_of(k); return -1; } }
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }

static FILE* fopen_(const char* p, const char* m, const char* sym) {
    using F = FILE*(const char*, const char*);
    static F* f1; static F* f2;
    F*& r = sym[5] ? f2 : f1;
    if (!r) r = real<F>(sym);
    const char* q = base(p);
    bool t = mine(q);
    if (t && on()) { int k = op("open", m[0] != 'r', false, 0); if (k) { errno = err_of(k); return nullptr; } }
    FILE* f = r(p, m);
    if (f && t) track(fileno(f), q, m[0] != 'r' || strchr(m, '+'));
    return f;
}
FILE* fopen(const char* p, const char* m) { return fopen_(p, m, "fopen"); }
FILE* fopen64(const char* p, const char* m) { return fopen_(p, m, "fopen64"); }
int fclose(FILE* f) {
    static auto r = real<int(FILE*)>("fclose");
    int fd = fileno(f); int k = 0;
    if (tracked(fd)) { if (on() && fds[fd].writes) k = op("close", true, false, 0); fds[fd].open = false; }
    int rc = r(f);
    if (k) { errno = err_of(k); return EOF; }
    return rc;
}
size_t fread(void* b, size_t s, size_t n, FILE* f) {
    static auto r = real<size_t(void*, size_t, size_t, FILE*)>("fread");
    if (on() && tracked(fileno(f))) { int k = op("fread", false, false, s * n); if (k) { f->_flags |= 0x20 /* ferror() */; errno = err_of(k); return 0; } }
    return r(b, s, n, f);
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
    static auto r = real<size_t(const void*, size_t, size_t, FILE*)>("fwrite");
    if (on() && tracked(fileno(f))) { int k = op("fwrite", true, false, s * n); if (k) { f->_flags |= 0x20 /* ferror() */; errno = err_of(k); return 0; } }
    return r(b, s, n, f);
}
}

/* simfs: the disk seam of the simulator.
 *
 * An LD_PRELOAD shim over the libc file calls that HDF5's sec2 driver and
 * CPython's io module use.  Only files below one "simulated disk" directory are
 * touched; everything else passes straight through.  The simulator (Python,
 * via ctypes) arms a plan of faults, each addressed by the ordinal of the call
 * it hits, and reads back a log of every call.  No clock and no randomness is
 * used here: what happens is a pure function of the plan and of the calls made.
 */
#define _GNU_SOURCE
#define _LARGEFILE64_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
enum { K_OPEN = 1, K_READ = 2, K_WRITE = 4, K_TRUNC = 8, K_CLOSE = 16, K_SYNC = 32, K_LOCK = 64 };
enum { A_ERR = 1, A_SHORT = 2, A_CRASH = 3, A_FLIP = 4, A_LOSE = 5 };

struct fault { int kinds; long nth; int action; long arg; int sticky; long seen; long fired; };
struct rec { int kind; int fd; long long off; long long len; long long ret; int err; int fault; };

#define MAXF 32
#define MAXLOG 65536
static struct fault plan[MAXF];
static int nplan;
static struct rec *logbuf;
static long nlog, nops;
static int armed, logging;
static char prefix[PATH_MAX];
static size_t plen;
static unsigned char tracked[MAXFD];
static long long fdpos[MAXFD];

void simfs_init(const char *p) {
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    if (!logbuf) logbuf = calloc(MAXLOG, sizeof *logbuf);
}
void simfs_reset(void) { nplan = 0; nlog = 0; nops = 0; armed = 0; logging = 0; }
void simfs_start(int dolog) { armed = 1; logging = dolog; nops = 0; nlog = 0; for (int i = 0; i < nplan; i++) plan[i].seen = plan[i].fired = 0; }
void simfs_stop(void) { armed = 0; }
void simfs_clear(void) { nplan = 0; }
int simfs_add(int kinds, long nth, int action, long arg, int sticky) {
    if (nplan >= MAXF) return -1;
    plan[nplan] = (struct fault){kinds, nth, action, arg, sticky, 0, 0};
    return nplan++;
}
long simfs_fired(int i) { return i < nplan ? plan[i].fired : -1; }
long simfs_nlog(void) { return nlog; }
long simfs_nops(void) { return nops; }
struct rec *simfs_log(void) { return logbuf; }
int simfs_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += tracked[i] != 0; return n; }

static void record(int kind, int fd, long long off, long long len, long long ret, int err, int f) {
    if (logging && logbuf && nlog < MAXLOG)
        logbuf[nlog++] = (struct rec){kind, fd, off, len, ret, err, f};
}
/* which armed fault hits this call (first match), or NULL */
static struct fault *hit(int kind) {
    if (!armed) return NULL;
    nops++;
    struct fault *h = NULL;
    for (int i = 0; i < nplan; i++) {
        struct fault *f = &plan[i];
        if (!(f->kinds & kind)) continue;
        long s = f->seen++;
        if (!h && (s == f->nth || (f->sticky && s >= f->nth))) h = f;
    }
    if (h) h->fired++;
    return h;
}
static int mine(const char *path) { return plen && path && strncmp(path, prefix, plen) == 0; }
static int mfd(int fd) { return fd >= 0 && fd < MAXFD && tracked[fd]; }

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

static int do_open(int (*ro)(const char *, int, ...), const char *path, int flags, mode_t mode) {
    if (!mine(path)) return ro(path, flags, mode);
    struct fault *f = hit(K_OPEN);
    if (f) {
        if (f->action == A_CRASH) { record(K_OPEN, -1, 0, 0, -1, 0, A_CRASH); _exit(77); }
        if (f->action == A_ERR) { record(K_OPEN, -1, flags, 0, -1, (int)f->arg, A_ERR); errno = (int)f->arg; return -1; }
    }
    int fd = ro(path, flags, mode);
    if (fd >= 0 && fd < MAXFD) { struct stat st; if (!fstat(fd, &st) && S_ISREG(st.st_mode)) { tracked[fd] = 1; } }
    record(K_OPEN, fd, flags, 0, fd < 0 ? -1 : 0, fd < 0 ? errno : 0, 0);
    return fd;
}
int open(const char *path, int flags, ...) {
    REAL(int, open, const char *, int, ...)
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_open(real_open, path, flags, m);
}
int open64(const char *path, int flags, ...) {
    REAL(int, open64, const char *, int, ...)
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_open(real_open64, path, flags, m);
}
static int do_openat(int (*ro)(int, const char *, int, ...), int d, const char *path, int flags, mode_t mode) {
    if (!mine(path)) return ro(d, path, flags, mode);
    struct fault *f = hit(K_OPEN);
    if (f) {
        if (f->action == A_CRASH) _exit(77);
        if (f->action == A_ERR) { errno = (int)f->arg; return -1; }
    }
    int fd = ro(d, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) { struct stat st; if (!fstat(fd, &st) && S_ISREG(st.st_mode)) { tracked[fd] = 1; } }
    record(K_OPEN, fd, flags, 0, fd < 0 ? -1 : 0, fd < 0 ? errno : 0, 0);
    return fd;
}
int openat(int d, const char *path, int flags, ...) {
    REAL(int, openat, int, const char *, int, ...)
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_openat(real_openat, d, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...) {
    REAL(int, openat64, int, const char *, int, ...)
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_openat(real_openat64, d, path, flags, m);
}
int close(int fd) {
    REAL(int, close, int)
    if (!mfd(fd)) return real_close(fd);
    struct fault *f = hit(K_CLOSE);
    if (f && f->action == A_CRASH) _exit(77);
    tracked[fd] = 0;
    int r = real_close(fd);
    if (f && f->action == A_ERR) { errno = (int)f->arg; r = -1; }  /* like Linux: descriptor gone, error reported */
    record(K_CLOSE, fd, 0, 0, r, r ? errno : 0, f ? f->action : 0);
    return r;
}
static ssize_t sim_io(int kind, int fd, void *buf, size_t n, long long off, int *skip, size_t *lim, struct fault **pf) {
    struct fault *f = hit(kind);
    *pf = f; *skip = 0; *lim = n;
    if (!f) return 0;
    switch (f->action) {
    case A_ERR: *skip = 1; record(kind, fd, off, (long long)n, -1, (int)f->arg, A_ERR); errno = (int)f->arg; return -1;
    case A_SHORT: if (n > 1) { *lim = (size_t)f->arg; if (*lim >= n) *lim = n - 1; if (*lim < 1) *lim = 1; } return 0;
    case A_CRASH: { size_t k = (size_t)f->arg; if (k > n) k = n; *lim = k; return 0; }
    case A_LOSE: if (kind == K_WRITE) { *skip = 1; record(kind, fd, off, (long long)n, (long long)n, 0, A_LOSE); return (ssize_t)n; } return 0;
    }
    return 0;
}
static void flip(struct fault *f, void *buf, ssize_t r) {
    if (f && f->action == A_FLIP && r > 0) ((unsigned char *)buf)[(size_t)f->arg % (size_t)r] ^= 1u << (f->arg % 8);
}
#define BODY(kind, call_full, call_lim, off) \
    int skip; size_t lim; struct fault *f; \
    ssize_t e = sim_io(kind, fd, (void *)buf, n, off, &skip, &lim, &f); \
    if (skip) return e; \
    size_t want = n; n = lim; \
    ssize_t r = n ? call_full : 0; \
    if (f && f->action == A_CRASH) _exit(77); \
    if (kind == K_READ) flip(f, (void *)buf, r); \
    record(kind, fd, off, (long long)want, r, r < 0 ? errno : 0, f ? f->action : 0); \
    return r;

ssize_t read(int fd, void *buf, size_t n) {
    REAL(ssize_t, read, int, void *, size_t)
    if (!mfd(fd)) return real_read(fd, buf, n);
    BODY(K_READ, real_read(fd, buf, n), 0, -1)
}
ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t)
    if (!mfd(fd)) return real_write(fd, buf, n);
    BODY(K_WRITE, real_write(fd, buf, n), 0, -1)
}
ssize_t pread(int fd, void *buf, size_t n, off_t o) {
    REAL(ssize_t, pread, int, void *, size_t, off_t)
    if (!mfd(fd)) return real_pread(fd, buf, n, o);
    BODY(K_READ, real_pread(fd, buf, n, o), 0, (long long)o)
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
    REAL(ssize_t, pread64, int, void *, size_t, off64_t)
    if (!mfd(fd)) return real_pread64(fd, buf, n, o);
    BODY(K_READ, real_pread64(fd, buf, n, o), 0, (long long)o)
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t)
    if (!mfd(fd)) return real_pwrite(fd, buf, n, o);
    BODY(K_WRITE, real_pwrite(fd, buf, n, o), 0, (long long)o)
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
    if (!mfd(fd)) return real_pwrite64(fd, buf, n, o);
    BODY(K_WRITE, real_pwrite64(fd, buf, n, o), 0, (long long)o)
}
static int do_trunc(int (*rt)(int, off64_t), int fd, off64_t l) {
    struct fault *f = hit(K_TRUNC);
    if (f && f->action == A_CRASH) { if (f->arg) rt(fd, l); _exit(77); }
    if (f && f->action == A_ERR) { record(K_TRUNC, fd, l, 0, -1, (int)f->arg, A_ERR); errno = (int)f->arg; return -1; }
    int r = rt(fd, l);
    record(K_TRUNC, fd, l, 0, r, r ? errno : 0, 0);
    return r;
}
int ftruncate(int fd, off_t l) {
    REAL(int, ftruncate, int, off64_t)
    if (!mfd(fd)) return real_ftruncate(fd, l);
    return do_trunc(real_ftruncate, fd, l);
}
int ftruncate64(int fd, off64_t l) {
    REAL(int, ftruncate64, int, off64_t)
    if (!mfd(fd)) return real_ftruncate64(fd, l);
    return do_trunc(real_ftruncate64, fd, l);
}
int fsync(int fd) {
    REAL(int, fsync, int)
    if (!mfd(fd)) return real_fsync(fd);
    struct fault *f = hit(K_SYNC);
    if (f && f->action == A_CRASH) _exit(77);
    if (f && f->action == A_ERR) { errno = (int)f->arg; return -1; }
    return real_fsync(fd);
}
int flock(int fd, int op) {
    REAL(int, flock, int, int)
    if (!mfd(fd)) return real_flock(fd, op);
    struct fault *f = hit(K_LOCK);
    if (f && f->action == A_CRASH) _exit(77);
    if (f && f->action == A_ERR && !(op & LOCK_UN)) { record(K_LOCK, fd, op, 0, -1, (int)f->arg, A_ERR); errno = (int)f->arg; return -1; }
    int r = real_flock(fd, op);
    record(K_LOCK, fd, op, 0, r, r ? errno : 0, 0);
    return r;
}

/* A simulated disk: interposes the file calls of the C library for paths below one directory.
 *
 * Off until simfs_arm() is called. Every decision comes from the plan and the seed given there. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ = 2, OP_WRITE = 4, OP_CLOSE = 8, OP_SYNC = 16, OP_RENAME = 32, OP_TRUNC = 64, OP_UNLINK = 128 };

static int armed = 0;
static char prefix[PATH_MAX];
static size_t prefix_len = 0;
static unsigned long long rng_state = 1;
static int short_rate, eintr_rate;          /* out of 256 */
static int fail_mask, fail_errno, fail_sticky; static long fail_at; /* the fail_at-th call matching fail_mask fails */
static long crash_at; static long crash_bytes;
static long budget;                         /* bytes the disk still takes, -1: unlimited */
static long calls, matching, nopen, nread, nwrite, nclose, nshort, neintr, nfail, bytes_written;
static unsigned char tracked[4096];
static char logbuf[1 << 16]; static size_t loglen;

static unsigned rnd(void) {
    rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
    return (unsigned)(rng_state >> 24);
}

static void note(const char *op, long a, long b) {
    if (loglen + 64 < sizeof(logbuf)) loglen += (size_t)snprintf(logbuf + loglen, 64, "%s %ld %ld\n", op, a, b);
}

void simfs_arm(const char *dir, unsigned long long seed, int shortr, int eintr, int mask, int err, int sticky, long at, long crash, long cbytes, long bud) {
    snprintf(prefix, sizeof(prefix), "%s", dir); prefix_len = strlen(prefix);
    rng_state = seed ? seed : 88172645463325252ULL; for (int i = 0; i < 8; i++) rnd();
    short_rate = shortr; eintr_rate = eintr; fail_mask = mask; fail_errno = err; fail_sticky = sticky; fail_at = at;
    crash_at = crash; crash_bytes = cbytes; budget = bud;
    calls = matching = nopen = nread = nwrite = nclose = nshort = neintr = nfail = bytes_written = 0; loglen = 0; logbuf[0] = 0;
    armed = 1;
}
void simfs_disarm(void) { armed = 0; memset(tracked, 0, sizeof(tracked)); }
long simfs_stat(int what) {
    long v[] = { calls, matching, nopen, nread, nwrite, nclose, nshort, neintr, nfail, bytes_written };
    return v[what];
}
const char *simfs_log(void) { return logbuf; }

static int mine(const char *path) { return armed && path && strncmp(path, prefix, prefix_len) == 0; }
static int mine_fd(int fd) { return armed && fd >= 0 && fd < 4096 && tracked[fd]; }

/* -> 1: fail with errno set */
static int decide(int op, const char *name) {
    calls++;
    if (crash_at > 0 && calls == crash_at && op != OP_WRITE) { _exit(77); }
    if (op & fail_mask) {
        matching++;
        if (matching == fail_at || (fail_sticky && fail_at > 0 && matching > fail_at)) {
            nfail++; note(name, -1, fail_errno); errno = fail_errno; return 1;
        }
    }
    if (eintr_rate && (op & (OP_OPEN | OP_READ | OP_WRITE)) && (int)(rnd() & 255) < eintr_rate) {
        neintr++; note(name, -1, EINTR); errno = EINTR; return 1;
    }
    return 0;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static int track(int fd) { if (fd >= 0 && fd < 4096) tracked[fd] = 1; note("open", fd, 0); return fd; }

#define OPEN_BODY(call) \
    if (!mine(path)) return call; \
    nopen++; \
    if (decide(OP_OPEN, "open")) return -1; \
    return track(call)

int open(const char *path, int flags, ...) {
    mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | __O_TMPFILE)) m = va_arg(a, mode_t); va_end(a);
    REAL(int, open, const char *, int, ...); OPEN_BODY(real(path, flags, m));
}
int open64(const char *path, int flags, ...) {
    mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | __O_TMPFILE)) m = va_arg(a, mode_t); va_end(a);
    REAL(int, open64, const char *, int, ...); OPEN_BODY(real(path, flags, m));
}
int openat(int d, const char *path, int flags, ...) {
    mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | __O_TMPFILE)) m = va_arg(a, mode_t); va_end(a);
    REAL(int, openat, int, const char *, int, ...); OPEN_BODY(real(d, path, flags, m));
}
int openat64(int d, const char *path, int flags, ...) {
    mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | __O_TMPFILE)) m = va_arg(a, mode_t); va_end(a);
    REAL(int, openat64, int, const char *, int, ...); OPEN_BODY(real(d, path, flags, m));
}
int creat(const char *path, mode_t m) { REAL(int, creat, const char *, mode_t); OPEN_BODY(real(path, m)); }
int creat64(const char *path, mode_t m) { REAL(int, creat64, const char *, mode_t); OPEN_BODY(real(path, m)); }

static size_t shorten(size_t n) {
    if (n > 1 && short_rate && (int)(rnd() & 255) < short_rate) { nshort++; return 1 + rnd() % (n - 1); }
    return n;
}

static ssize_t do_write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    nwrite++;
    if (crash_at > 0 && calls + 1 == crash_at) {
        size_t k = crash_bytes < 0 ? n : (size_t)crash_bytes < n ? (size_t)crash_bytes : n;
        if (k) { ssize_t r = real(fd, b, k); (void)r; }
        _exit(77);
    }
    if (decide(OP_WRITE, "write")) return -1;
    n = shorten(n);
    if (budget >= 0) {
        if (budget == 0 && n > 0) { nfail++; note("write", -1, ENOSPC); errno = ENOSPC; return -1; }
        if ((long)n > budget) n = (size_t)budget;
    }
    ssize_t r = real(fd, b, n);
    if (r > 0) { bytes_written += r; if (budget >= 0) budget -= r; }
    note("write", (long)n, r);
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    return mine_fd(fd) ? do_write(fd, b, n) : real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
    if (!mine_fd(fd)) return real(fd, b, n, o);
    if (lseek(fd, o, SEEK_SET) < 0) return -1;
    return do_write(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (!mine_fd(fd)) return real(fd, b, n, o);
    if (lseek64(fd, o, SEEK_SET) < 0) return -1;
    return do_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!mine_fd(fd)) return real(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (!mine_fd(fd)) return real(fd, b, n);
    nread++;
    if (decide(OP_READ, "read")) return -1;
    n = shorten(n);
    if (short_rate && n > 64 && (int)(rnd() & 255) < short_rate) { n = 1 + rnd() % 64; nshort++; }
    ssize_t r = real(fd, b, n);
    note("read", (long)n, r);
    return r;
}
int close(int fd) {
    REAL(int, close, int);
    if (!mine_fd(fd)) return real(fd);
    nclose++; tracked[fd] = 0;
    int bad = decide(OP_CLOSE, "close"); int e = errno;
    int r = real(fd);
    if (bad) { errno = e; return -1; }
    return r;
}
static int do_sync(int fd, int (*real)(int)) { if (mine_fd(fd) && decide(OP_SYNC, "sync")) return -1; return real(fd); }
int fsync(int fd) { REAL(int, fsync, int); return do_sync(fd, real); }
int fdatasync(int fd) { REAL(int, fdatasync, int); return do_sync(fd, real); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); if ((mine(a) || mine(b)) && decide(OP_RENAME, "rename")) return -1; return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, renameat, int, const char *, int, const char *); if ((mine(a) || mine(b)) && decide(OP_RENAME, "rename")) return -1; return real(x, a, y, b); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); if (mine_fd(fd) && decide(OP_TRUNC, "truncate")) return -1; return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); if (mine_fd(fd) && decide(OP_TRUNC, "truncate")) return -1; return real(fd, n); }
int unlink(const char *a) { REAL(int, unlink, const char *); if (mine(a) && decide(OP_UNLINK, "unlink")) return -1; return real(a); }

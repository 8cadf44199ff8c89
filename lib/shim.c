/* LD_PRELOAD library: reports filesystem effects of the process to a callback
 * before (phase 0) and after (phase 1) they happen.
 *
 * callback(kind, phase, path, path2, size) returns
 *    0        go on
 *    <0       do not perform the call, fail with that errno (phase 0)
 *    2        perform only half of a write, then report phase 1 (phase 0)
 * fsync, fdatasync, sync and syncfs are never really performed while a callback is set.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

typedef int (*cb_t)(const char *kind, int phase, const char *path, const char *path2, long size);
static cb_t cb;
static char prefix[PATH_MAX];
static size_t plen;
static __thread int busy;

void shim_set(cb_t f, const char *p) {
    cb = f;
    if (p) { snprintf(prefix, sizeof prefix, "%s", p); plen = strlen(prefix); }
}
int shim_loaded(void) { return 1; }
/* also report opening files for reading and (un)locking: "ropen", "lock", "unlock" */
static int extra;
void shim_extra(int on) { extra = on; }

static int active(void) { return cb && !busy; }
static int ours(const char *p) { return p && plen && !strncmp(p, prefix, plen); }
static const char *absat(int dfd, const char *p, char *buf) {
    if (!p) return NULL;
    if (p[0] == '/') return p;
    char d[PATH_MAX]; 
    if (dfd == AT_FDCWD) { if (!getcwd(d, sizeof d)) return NULL; }
    else { char l[64]; snprintf(l, 64, "/proc/self/fd/%d", dfd); ssize_t n = readlink(l, d, sizeof d - 1); if (n < 0) return NULL; d[n] = 0; }
    size_t n = strlen(d); if (n + strlen(p) + 2 > PATH_MAX) return NULL;
    memcpy(buf, d, n); buf[n] = '/'; strcpy(buf + n + 1, p);
    return buf;
}
static const char *fdpath(int fd, char *buf) {
    char l[64]; snprintf(l, 64, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, buf, PATH_MAX - 1);
    if (n < 0) return NULL;
    buf[n] = 0;
    return buf;
}
static int call(const char *kind, int phase, const char *a, const char *b, long size) {
    int e = errno;
    cb_t f = cb; /* another thread may end the observation */
    if (!f) return 0;
    busy = 1;
    int r = f(kind, phase, a, b ? b : "", size);
    busy = 0;
    errno = e;
    return r;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)
#define BEFORE(kind, a, b, size) { int r_ = call(kind, 0, a, b, size); if (r_ < 0) { errno = -r_; return -1; } }
#define AFTER(kind, a, b, size) call(kind, 1, a, b, size)

static int do_open(int (*real)(int, const char *, int, mode_t), int dfd, const char *path, int flags, mode_t mode) {
    char buf[PATH_MAX];
    if (active() && (flags & (O_CREAT | O_TRUNC))) {
        const char *p = absat(dfd, path, buf);
        if (ours(p)) {
            struct stat st;
            int exists = !lstat(p, &st);
            if (!exists || (flags & O_TRUNC)) {
                const char *k = exists ? "trunc" : "create";
                BEFORE(k, p, NULL, flags);
                int r = real(dfd, path, flags, mode);
                if (r >= 0) AFTER(k, p, NULL, flags);
                return r;
            }
        }
    }
    if (active() && extra && (flags & O_ACCMODE) == O_RDONLY && !(flags & O_DIRECTORY)) {
        const char *p = absat(dfd, path, buf);
        if (ours(p)) {
            BEFORE("ropen", p, NULL, flags);
            int r = real(dfd, path, flags, mode);
            if (r >= 0) AFTER("ropen", p, NULL, flags);
            return r;
        }
    }
    return real(dfd, path, flags, mode);
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
static int real_at(int dfd, const char *path, int flags, mode_t mode) {
    REAL(int, openat64, int, const char *, int, ...);
    return real(dfd, path, flags, mode);
}
int open(const char *path, int flags, ...) { MODE return do_open(real_at, AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(real_at, AT_FDCWD, path, flags, mode); }
int openat(int dfd, const char *path, int flags, ...) { MODE return do_open(real_at, dfd, path, flags, mode); }
int openat64(int dfd, const char *path, int flags, ...) { MODE return do_open(real_at, dfd, path, flags, mode); }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    char buf[PATH_MAX];
    if (active() && fd > 2) {
        const char *p = fdpath(fd, buf);
        if (ours(p)) {
            int r = call("write", 0, p, NULL, n);
            if (r < 0) { errno = -r; return -1; }
            ssize_t x = real(fd, b, r == 2 ? n / 2 : n);
            AFTER("write", p, NULL, x);
            return x;
        }
    }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    char buf[PATH_MAX];
    if (active()) { const char *p = fdpath(fd, buf); if (ours(p)) { BEFORE("write", p, NULL, n); ssize_t x = real(fd, b, n, o); AFTER("write", p, NULL, x); return x; } }
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    char buf[PATH_MAX];
    if (active()) { const char *p = fdpath(fd, buf); if (ours(p)) { BEFORE("write", p, NULL, c); ssize_t x = real(fd, v, c); AFTER("write", p, NULL, x); return x; } }
    return real(fd, v, c);
}
static ssize_t do_sendfile(int out, int in, off64_t *o, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
    char buf[PATH_MAX];
    if (active()) { const char *p = fdpath(out, buf); if (ours(p)) { BEFORE("write", p, NULL, n); ssize_t x = real(out, in, o, n); AFTER("write", p, NULL, x); return x; } }
    return real(out, in, o, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return do_sendfile(out, in, (off64_t *)o, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    char buf[PATH_MAX];
    if (active()) { const char *p = fdpath(out, buf); if (ours(p)) { BEFORE("write", p, NULL, n); ssize_t x = real(in, io, out, oo, n, f); AFTER("write", p, NULL, x); return x; } }
    return real(in, io, out, oo, n, f);
}
#define FDCALL(name, kind, params, args, proto) \
    int name params { REAL(int, name, proto); char buf[PATH_MAX]; \
        if (active()) { const char *p = fdpath(fd, buf); if (ours(p)) { BEFORE(kind, p, NULL, 0); int x = real args; if (x >= 0) AFTER(kind, p, NULL, 0); return x; } } \
        return real args; }
#define COMMA ,
FDCALL(ftruncate, "ftruncate", (int fd, off_t n), (fd, n), int COMMA off_t)
FDCALL(ftruncate64, "ftruncate", (int fd, off64_t n), (fd, n), int COMMA off64_t)
FDCALL(fallocate, "write", (int fd, int m, off_t o, off_t n), (fd, m, o, n), int COMMA int COMMA off_t COMMA off_t)
FDCALL(fallocate64, "write", (int fd, int m, off64_t o, off64_t n), (fd, m, o, n), int COMMA int COMMA off64_t COMMA off64_t)
FDCALL(fchmod, "chmod", (int fd, mode_t m), (fd, m), int COMMA mode_t)
FDCALL(futimens, "utime", (int fd, const struct timespec t[2]), (fd, t), int COMMA const struct timespec *)
#define SYNCCALL(name) \
    int name(int fd) { REAL(int, name, int); char buf[PATH_MAX]; \
        if (cb) { if (busy) return 0; const char *p = fdpath(fd, buf); if (ours(p)) { BEFORE("fsync", p, NULL, 0); AFTER("fsync", p, NULL, 0); } return 0; } \
        return real(fd); }
SYNCCALL(fsync)
SYNCCALL(fdatasync)
int flock(int fd, int op) {
    REAL(int, flock, int, int);
    char buf[PATH_MAX]; const char *p;
    if (active() && extra && (p = fdpath(fd, buf)) && ours(p)) {
        const char *k = (op & LOCK_UN) ? "unlock" : "lock";
        BEFORE(k, p, NULL, op);
        int r = real(fd, op);
        if (r >= 0) AFTER(k, p, NULL, op);
        return r;
    }
    return real(fd, op);
}
int syncfs(int fd) { REAL(int, syncfs, int); if (cb) { if (!busy) { call("sync", 0, "", NULL, 0); AFTER("sync", "", NULL, 0); } return 0; } return real(fd); }
void sync(void) {
    static void (*real)(void); if (!real) real = dlsym(RTLD_NEXT, "sync");
    if (cb) { if (!busy) { call("sync", 0, "", NULL, 0); AFTER("sync", "", NULL, 0); } return; }
    real();
}
#define PATHCALL(name, kind, params, args, proto, dfd, path) \
    int name params { REAL(int, name, proto); char buf[PATH_MAX]; \
        if (active()) { const char *p = absat(dfd, path, buf); if (ours(p)) { BEFORE(kind, p, NULL, 0); int x = real args; if (x >= 0) AFTER(kind, p, NULL, 0); return x; } } \
        return real args; }
PATHCALL(unlink, "unlink", (const char *a), (a), const char *, AT_FDCWD, a)
PATHCALL(unlinkat, "unlink", (int d, const char *a, int f), (d, a, f), int COMMA const char * COMMA int, d, a)
PATHCALL(rmdir, "rmdir", (const char *a), (a), const char *, AT_FDCWD, a)
PATHCALL(mkdir, "mkdir", (const char *a, mode_t m), (a, m), const char * COMMA mode_t, AT_FDCWD, a)
PATHCALL(mkdirat, "mkdir", (int d, const char *a, mode_t m), (d, a, m), int COMMA const char * COMMA mode_t, d, a)
PATHCALL(chmod, "chmod", (const char *a, mode_t m), (a, m), const char * COMMA mode_t, AT_FDCWD, a)
PATHCALL(fchmodat, "chmod", (int d, const char *a, mode_t m, int f), (d, a, m, f), int COMMA const char * COMMA mode_t COMMA int, d, a)
PATHCALL(truncate, "ftruncate", (const char *a, off_t n), (a, n), const char * COMMA off_t, AT_FDCWD, a)
PATHCALL(truncate64, "ftruncate", (const char *a, off64_t n), (a, n), const char * COMMA off64_t, AT_FDCWD, a)
PATHCALL(utimensat, "utime", (int d, const char *a, const struct timespec t[2], int f), (d, a, t, f), int COMMA const char * COMMA const struct timespec * COMMA int, d, a)
PATHCALL(symlink, "symlink", (const char *t, const char *a), (t, a), const char * COMMA const char *, AT_FDCWD, a)
PATHCALL(symlinkat, "symlink", (const char *t, int d, const char *a), (t, d, a), const char * COMMA int COMMA const char *, d, a)
#define TWOCALL(name, kind, params, args, proto, d1, a, d2, b) \
    int name params { REAL(int, name, proto); char b1[PATH_MAX], b2[PATH_MAX]; \
        if (active()) { const char *p = absat(d1, a, b1), *q = absat(d2, b, b2); if (ours(p) || ours(q)) { BEFORE(kind, p, q, 0); int x = real args; if (x >= 0) AFTER(kind, p, q, 0); return x; } } \
        return real args; }
TWOCALL(rename, "rename", (const char *a, const char *b), (a, b), const char * COMMA const char *, AT_FDCWD, a, AT_FDCWD, b)
TWOCALL(renameat, "rename", (int c, const char *a, int d, const char *b), (c, a, d, b), int COMMA const char * COMMA int COMMA const char *, c, a, d, b)
TWOCALL(renameat2, "rename", (int c, const char *a, int d, const char *b, unsigned f), (c, a, d, b, f), int COMMA const char * COMMA int COMMA const char * COMMA unsigned, c, a, d, b)
TWOCALL(link, "link", (const char *a, const char *b), (a, b), const char * COMMA const char *, AT_FDCWD, a, AT_FDCWD, b)
TWOCALL(linkat, "link", (int c, const char *a, int d, const char *b, int f), (c, a, d, b, f), int COMMA const char * COMMA int COMMA const char * COMMA int, c, a, d, b)

/* LD_PRELOAD seam for file operations.  Inactive until disksim_config() is called (through ctypes, in a forked
 * child).  It counts the operations that change files below one directory and strikes at the chosen one:
 * the process dies before, in the middle of or after it, or it fails, is interrupted or done only in part.
 * Reads of input files can fail, be interrupted or be short.  Nothing outside the directory is touched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

enum { NONE, KILL_BEFORE, KILL_AFTER, KILL_MID, FAIL, SHORT, EINTR_ONCE, CTRL_C };
static int active;
static char root[4096];
static int kind, err;
static long at, times, part, budget, used, ops, fired;
static int rkind, rerr;            /* reads: 0 none, 1 fail, 2 short, 3 interrupted, 4 open fails, 5 fail once */
static long rat, rpart, rops;
static int then_kind;              /* a second fault, so many operations after the first struck */
static long then_after, then_part, first;
static unsigned char cls[4096];    /* 1 output, 2 input */
static char oplog[16384];

void disksim_config(const char *r, int k, long a, long t, long p, int e, long b, int rk, long ra, long rp, int re) {
    snprintf(root, sizeof root, "%s", r);
    kind = k; at = a; times = t; part = p; err = e; budget = b;
    rkind = rk; rat = ra; rpart = rp; rerr = re;
    ops = used = fired = rops = 0;
    memset(cls, 0, sizeof cls);
    oplog[0] = 0;
    active = 1;
}
void disksim_then(int k, long after, long p) { then_kind = k; then_after = after; then_part = p; first = 0; }
void disksim_off(void) { active = 0; }
long disksim_ops(void) { return ops; }
long disksim_rops(void) { return rops; }
long disksim_fired(void) { return fired; }
const char *disksim_log(void) { return oplog; }

static int ours(int dirfd, const char *p) {
    if (!active || !p) return 0;
    if (p[0] == '/') return !strncmp(p, root, strlen(root));
    return dirfd == AT_FDCWD;
}
static void note(const char *what, const char *p) {
    size_t n = strlen(oplog);
    if (n < sizeof oplog - 300) snprintf(oplog + n, sizeof oplog - n, "%s%s %.200s", n ? "; " : "", what, p ? p : "");
}
static void die(void) { _exit(86); }

/* 0: do it; 1: fail with errno set.  *len is shortened for a partial write; *after: die when done */
static int strike(const char *what, const char *p, size_t *len, int *after) {
    *after = 0;
    ops++;
    note(what, p);
    if (then_kind && first && ops == first + then_after) {
        fired++;
        if (then_kind == KILL_MID && len) *len = *len * then_part / 100;
        if (then_kind == KILL_BEFORE || (then_kind == KILL_MID && (!len || !*len))) die();
        *after = 1;
        return 0;
    }
    if (budget >= 0 && len) {
        if (used >= budget) { fired++; errno = ENOSPC; return 1; }
        if (used + (long)*len > budget) { *len = budget - used; fired++; }
        used += *len;
    }
    if (kind == NONE || ops < at) return 0;
    if (kind == FAIL) {
        if (ops < at + times) { fired++; if (!first) first = ops; errno = err; return 1; }
        return 0;
    }
    if (ops != at) return 0;
    fired++;
    switch (kind) {
    case KILL_BEFORE: die();
    case KILL_AFTER: *after = 1; return 0;
    case KILL_MID:
        if (!len) die();
        *len = *len * part / 100;
        if (!*len) die();
        *after = 1;
        return 0;
    case SHORT:
        if (len && *len > 1) { *len = *len * part / 100; if (!*len) *len = 1; }
        return 0;
    case EINTR_ONCE: errno = EINTR; return 1;
    case CTRL_C: raise(SIGINT); return 0;
    }
    return 0;
}

static int is_input(const char *p) { return strstr(p, "tests/") != 0; }

static int do_open(int (*f)(int, const char *, int, mode_t), int dirfd, const char *p, int fl, mode_t m) {
    int after = 0, changes = fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC);
    if (!ours(dirfd, p)) return f(dirfd, p, fl, m);
    if (changes) {
        if (strike("open", p, 0, &after)) return -1;
    } else if (is_input(p) && rkind == 4 && ++rops == rat) { fired++; errno = rerr; return -1; }
    int fd = f(dirfd, p, fl, m);
    if (fd >= 0 && fd < 4096) cls[fd] = changes ? 1 : is_input(p) ? 2 : 0;
    if (after) die();
    return fd;
}
static int r_openat(int d, const char *p, int fl, mode_t m) {
    static int (*real)(int, const char *, int, ...);
    if (!real) real = dlsym(RTLD_NEXT, "openat");
    return real(d, p, fl, m);
}
#define OPEN_BODY(dirfd) va_list ap; va_start(ap, fl); mode_t m = fl & (O_CREAT | __O_TMPFILE) ? va_arg(ap, mode_t) : 0; va_end(ap); \
    return do_open(r_openat, dirfd, p, fl, m);
int open(const char *p, int fl, ...) { OPEN_BODY(AT_FDCWD) }
int open64(const char *p, int fl, ...) { OPEN_BODY(AT_FDCWD) }
int openat(int d, const char *p, int fl, ...) { OPEN_BODY(d) }
int openat64(int d, const char *p, int fl, ...) { OPEN_BODY(d) }
int creat(const char *p, mode_t m) { return do_open(r_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(r_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

#define OUT(fd) (active && (fd) >= 0 && (fd) < 4096 && cls[fd] == 1)

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (!OUT(fd)) return real(fd, b, n);
    int after;
    if (strike("write", 0, &n, &after)) return -1;
    ssize_t r = real(fd, b, n);
    if (after) die();
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off_t);
    if (!OUT(fd)) return real(fd, b, n, o);
    int after;
    if (strike("pwrite", 0, &n, &after)) return -1;
    ssize_t r = real(fd, b, n, o);
    if (after) die();
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (!OUT(fd)) return real(fd, v, c);
    int after;
    if (strike("writev", 0, 0, &after)) return -1;
    ssize_t r = real(fd, v, c);
    if (after) die();
    return r;
}
ssize_t sendfile64(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off_t *, size_t);
    if (!OUT(o)) return real(o, i, off, n);
    int after;
    if (strike("sendfile", 0, &n, &after)) return -1;
    ssize_t r = real(o, i, off, n);
    if (after) die();
    return r;
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!OUT(o)) return real(i, io, o, oo, n, f);
    int after;
    if (strike("copy_file_range", 0, &n, &after)) return -1;
    ssize_t r = real(i, io, o, oo, n, f);
    if (after) die();
    return r;
}
int close(int fd) {
    REAL(int, "close", int);
    if (active && fd >= 0 && fd < 4096 && cls[fd]) {
        int out = cls[fd] == 1, after = 0;
        cls[fd] = 0;
        if (out && kind != EINTR_ONCE) {
            if (strike("close", 0, 0, &after)) { int e = errno; real(fd); errno = e; return -1; }
        }
        int r = real(fd);
        if (after) die();
        return r;
    }
    return real(fd);
}
#define FD_OP(ret, fname, sig, args, label) ret fname sig { static ret (*real) sig; if (!real) real = dlsym(RTLD_NEXT, #fname); \
    int after = 0; if (OUT(fd) && strike(label, 0, 0, &after)) return -1; ret r = real args; if (after) die(); return r; }
FD_OP(int, fsync, (int fd), (fd), "fsync")
FD_OP(int, fdatasync, (int fd), (fd), "fdatasync")
FD_OP(int, ftruncate, (int fd, off_t n), (fd, n), "ftruncate")
FD_OP(int, ftruncate64, (int fd, off64_t n), (fd, n), "ftruncate")
#define PATH_OP(fname, sig, args, cond, label, p) int fname sig { static int (*real) sig; if (!real) real = dlsym(RTLD_NEXT, #fname); \
    int after = 0; if ((cond) && strike(label, p, 0, &after)) return -1; int r = real args; if (after) die(); return r; }
PATH_OP(rename, (const char *a, const char *b), (a, b), ours(AT_FDCWD, b), "rename", b)
PATH_OP(renameat, (int d, const char *a, int e, const char *b), (d, a, e, b), ours(e, b), "rename", b)
PATH_OP(renameat2, (int d, const char *a, int e, const char *b, unsigned f), (d, a, e, b, f), ours(e, b), "rename", b)
PATH_OP(link, (const char *a, const char *b), (a, b), ours(AT_FDCWD, b), "link", b)
PATH_OP(linkat, (int d, const char *a, int e, const char *b, int f), (d, a, e, b, f), ours(e, b), "link", b)
PATH_OP(symlink, (const char *a, const char *b), (a, b), ours(AT_FDCWD, b), "symlink", b)
PATH_OP(unlink, (const char *a), (a), ours(AT_FDCWD, a), "unlink", a)
PATH_OP(unlinkat, (int d, const char *a, int f), (d, a, f), ours(d, a), "unlink", a)
PATH_OP(truncate, (const char *a, off_t n), (a, n), ours(AT_FDCWD, a), "truncate", a)
PATH_OP(truncate64, (const char *a, off64_t n), (a, n), ours(AT_FDCWD, a), "truncate", a)
PATH_OP(mkdir, (const char *a, mode_t m), (a, m), ours(AT_FDCWD, a), "mkdir", a)

ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    if (active && fd >= 0 && fd < 4096 && cls[fd] == 2 && rkind && rkind != 4) {
        rops++;
        if ((rkind == 1 && rops >= rat) || (rkind == 5 && rops == rat)) { fired++; errno = rerr; return -1; }
        if (rkind == 2 && (long)n > rpart) { n = rpart; fired++; }
        if (rkind == 3 && rops % rat == 0) { fired++; errno = EINTR; return -1; }
    }
    return real(fd, b, n);
}

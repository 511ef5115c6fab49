/* LD_PRELOAD seam for standard input and output of a native program, and for its allocations.
 * SIM_IN / SIM_OUT: one item per read of fd 0 / write of fd 1, separated by commas; after the last, no interference:
 *   <n> at most n bytes   I EINTR   E<errno> this one fails   P<errno> this and all later fail   Z end of input for good
 *   K the process is killed here   J<ms> the clock jumps, and the next item applies
 * SIM_ERR=<errno>: writes to fd 2 fail.  SIM_ALLOC=<n>: the n-th allocation after the first prompt fails (and all later, if negative).
 * SIM_HEAP=<n>: so many bytes of heap are in use before main.  SIM_OPS=<n>: more operations than that end the process with 97.
 * SIM_CPU=<seconds>: processor time allowed.
 * SIM_LOG=<fd>: one line per operation.  SIM_NAMES: names of environment variables asked for are logged too. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <errno.h>
#include <signal.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>

extern void procsim_advance(int64_t ns);
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);

static char *plan_in, *plan_out;
static int inited, logfd = -1, stuck_in, stuck_out, err_errno, input_over;
static long ops, max_ops = -1, allocs, alloc_at;
static int counting, names;

char *getenv(const char *name) {
    extern char **environ;
    size_t n = strlen(name);
    char *found = 0;
    for (char **e = environ; e && *e && !found; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') found = *e + n + 1;
    if (names && logfd >= 0 && strncmp(name, "SIM_", 4) && n < 200) {
        char b[256];
        int k = snprintf(b, sizeof b, "! %s\n", name);
        syscall(SYS_write, logfd, b, k);
    }
    return found;
}

static void init(void) {
    if (inited) return;
    inited = 1;
    char *s;
    plan_in = getenv("SIM_IN");
    plan_out = getenv("SIM_OUT");
    if ((s = getenv("SIM_LOG"))) logfd = atoi(s);
    if ((s = getenv("SIM_ERR"))) err_errno = atoi(s);
    if ((s = getenv("SIM_OPS"))) max_ops = atol(s);
    if ((s = getenv("SIM_ALLOC"))) alloc_at = atol(s);
    if (getenv("SIM_NAMES")) names = 1;
}

__attribute__((constructor)) static void heap(void) {
    init();
    char *s = getenv("SIM_CPU");
    if (s) { struct rlimit l = {atol(s), atol(s) + 1}; setrlimit(RLIMIT_CPU, &l); }
    s = getenv("SIM_HEAP");
    if (s) {
        long n = atol(s);
        void *last = 0;
        while (n > 0) { void *p = __libc_malloc(1 + n % 777); if (last && n % 3 == 0) free(last); last = p; n -= 777; }
    }
}

static void note(char what, long asked, long got) {
    if (logfd < 0) return;
    char b[64];
    int n = snprintf(b, sizeof b, "%c %ld %ld\n", what, asked, got);
    syscall(SYS_write, logfd, b, n);
}

/* how many bytes this operation may move; negative: -errno */
static long decide(char **plan, int *stuck, char what, long n) {
    init();
    if (max_ops >= 0 && ++ops > max_ops) { note('X', n, 0); syscall(SYS_exit_group, 97); }
    if (*stuck) return -*stuck;
    while (*plan && **plan) {
        char *p = *plan, *e = strchr(p, ',');
        *plan = e ? e + 1 : p + strlen(p);
        switch (*p) {
        case 'I': return -EINTR;
        case 'E': return -atol(p + 1);
        case 'P': return -(*stuck = atol(p + 1));
        case 'Z': input_over = 1; return n;
        case 'K': note('K', n, 0); syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL); for (;;) syscall(SYS_pause);
        case 'J': procsim_advance(atol(p + 1) * 1000000LL); continue;
        default: { long k = atol(p); return k < 1 ? 1 : k < n ? k : n; }
        }
    }
    return n;
}

ssize_t read(int fd, void *b, size_t n) {
    if (fd != 0) return syscall(SYS_read, fd, b, n);
    long k = decide(&plan_in, &stuck_in, 'r', n);
    if (k < 0) { note('r', n, k); errno = -k; return -1; }
    long got = input_over ? 0 : syscall(SYS_read, fd, b, k);
    note(input_over ? 'Z' : 'r', n, got);
    return got;
}

ssize_t write(int fd, const void *b, size_t n) {
    if (fd == 2 && err_errno) { errno = err_errno; return -1; }
    if (fd != 1) return syscall(SYS_write, fd, b, n);
    if (n == 0) return 0;
    long k = decide(&plan_out, &stuck_out, 'w', n);
    counting = 1;
    if (k < 0) { note('w', n, k); errno = -k; return -1; }
    long done = syscall(SYS_write, fd, b, k);
    note('w', n, done);
    return done;
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    if (fd != 1 && fd != 2) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

static int starved(void) {
    if (!alloc_at || !counting) return 0;
    ++allocs;
    int hit = alloc_at > 0 ? allocs == alloc_at : allocs >= -alloc_at;
    if (hit && (alloc_at > 0 || allocs == -alloc_at)) note('A', allocs, 0);
    if (hit) errno = ENOMEM;
    return hit;
}
void *malloc(size_t n) { return starved() ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return starved() ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return starved() ? 0 : __libc_realloc(p, n); }
void *aligned_alloc(size_t a, size_t n) { return starved() ? 0 : __libc_memalign(a, n); }
void *memalign(size_t a, size_t n) { return starved() ? 0 : __libc_memalign(a, n); }
int posix_memalign(void **out, size_t a, size_t n) {
    if (starved()) return ENOMEM;
    void *p = __libc_memalign(a, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}

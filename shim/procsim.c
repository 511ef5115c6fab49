/* LD_PRELOAD seam for whole processes: clock, randomness and process id come from the simulator.
 * SIM_CLOCK=<seconds>, SIM_CLOCK_STEP=<ns per reading>, SIM_RANDOM=<seed>, SIM_PID=<pid> */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <unistd.h>

static int inited, have_clock, have_random, have_pid;
static int64_t now_ns, step_ns;
void procsim_advance(int64_t ns) { now_ns += ns; }
static uint64_t rnd;
static pid_t the_pid;

static void init(void) {
    if (inited) return;
    inited = 1;
    char *s;
    if ((s = getenv("SIM_CLOCK"))) { have_clock = 1; now_ns = strtoll(s, 0, 10) * 1000000000LL; }
    if ((s = getenv("SIM_CLOCK_STEP"))) step_ns = strtoll(s, 0, 10); else step_ns = 1000;
    if ((s = getenv("SIM_RANDOM"))) { have_random = 1; rnd = strtoull(s, 0, 10); }
    if ((s = getenv("SIM_PID"))) { have_pid = 1; the_pid = atoi(s); }
}

static uint64_t next(void) {
    uint64_t z = (rnd += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

static void fill(void *b, size_t n) {
    unsigned char *p = b;
    while (n) {
        uint64_t v = next();
        size_t k = n < 8 ? n : 8;
        memcpy(p, &v, k);
        p += k; n -= k;
    }
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    init();
    if (!have_clock || id == CLOCK_THREAD_CPUTIME_ID) return syscall(SYS_clock_gettime, id, ts);
    now_ns += step_ns;
    int64_t t = now_ns;
    if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE && t < 0) t = -t;
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
    return 0;
}

int gettimeofday(struct timeval *tv, void *tz) {
    init();
    if (!have_clock) return syscall(SYS_gettimeofday, tv, tz);
    now_ns += step_ns;
    tv->tv_sec = now_ns / 1000000000LL;
    tv->tv_usec = now_ns % 1000000000LL / 1000;
    return 0;
}

time_t time(time_t *p) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}

ssize_t getrandom(void *b, size_t n, unsigned f) {
    init();
    if (!have_random) return syscall(SYS_getrandom, b, n, f);
    fill(b, n);
    return n;
}

int getentropy(void *b, size_t n) {
    init();
    if (!have_random) return syscall(SYS_getrandom, b, n, 0) == (ssize_t)n ? 0 : -1;
    fill(b, n);
    return 0;
}

pid_t getpid(void) {
    init();
    return have_pid ? the_pid : syscall(SYS_getpid);
}

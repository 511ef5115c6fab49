/* One thread of the process runs at a time, and this file says which.
 *
 * Linked into the harness (main.rs): the library's basic blocks call __sanitizer_cov_trace_pc, the Rust standard library reaches the
 * kernel's futexes, threads, sleep, clock and randomness through the C functions defined here.  A schedule is a script of segments
 * "run thread t until its counter c reaches n", followed by seeded random switches; all of it comes from the request. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 64
#define MAXS 4096
#define MAXLOG 200000

enum { FREE, READY, FUTEX, JOIN, SLEEP, DONE };
enum { POINTS, NOVEL, CALLS, END };

struct task {
    int state, go, timed, timed_out, target, calls;
    uint32_t *addr;
    uint32_t bits;
    uint64_t wake_at, points, novel;
    pthread_t real;
    void *(*fn)(void *);
    void *arg;
    uint8_t seen[8192];
};

static struct task ts[MAXT];
static int nt, on, cur = -1, main_go, stuck;
static __thread int me = -1;
static uint64_t rng = 1, rng_env = 1, vnow = 1000000000ull, wall0 = 1700000000ull, total, cap = 1;
static struct { int t, kind; uint64_t n; } script[MAXS];
static int ns, at;
static uint64_t gap, left;
static uint32_t rare, visits[65536];    /* rare: chance in 100000 of a switch at a block's visit 1, 2, 4, 8, ... */
static uint32_t sync_rate;              /* the same in 1000, for blocks of functions of locks, cells and atomics (sim_sync) */
static struct { intptr_t from, to; } sync_fn[20000];
static int n_sync;
static uint8_t is_sync[65536];          /* 0: not looked up, 1: no, 2: yes */
static int calm;                        /* that many calls of the running thread may end before the next such switch */
static int p_spurious;              /* per thousand */
static uint64_t n_spurious, n_switch, n_wait, n_spawn;
static uint32_t lg_t[MAXLOG];
static uint64_t lg_p[MAXLOG];
static int nlog;

static long raw6(long nr, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

static uint64_t step(uint64_t *x) {
    *x ^= *x << 13;
    *x ^= *x >> 7;
    *x ^= *x << 17;
    return *x * 0x2545F4914F6CDD1Dull >> 11;
}

static uint64_t rnd(void) {         /* for the schedule */
    return step(&rng);
}

static uint64_t rnd_env(void) {     /* for what the kernel does; the same when a schedule is given as a script */
    return step(&rng_env);
}

static void give(int *go) {
    __atomic_store_n(go, 1, __ATOMIC_SEQ_CST);
    raw6(SYS_futex, (long)go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

static void await(int *go) {
    while (!__atomic_load_n(go, __ATOMIC_SEQ_CST))
        raw6(SYS_futex, (long)go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    __atomic_store_n(go, 0, __ATOMIC_SEQ_CST);
}

static int finished(int i) {        /* has segment i ended? */
    struct task *t = &ts[script[i].t];
    if (script[i].t >= nt || t->state == DONE)
        return 1;
    uint64_t c = script[i].kind == POINTS ? t->points : script[i].kind == NOVEL ? t->novel : script[i].kind == CALLS ? (uint64_t)t->calls : 0;
    return script[i].kind != END && c >= script[i].n;
}

static void wake_sleepers(void) {
    for (int i = 0; i < nt; i++)
        if ((ts[i].state == SLEEP || (ts[i].state == FUTEX && ts[i].timed)) && ts[i].wake_at <= vnow) {
            ts[i].timed_out = 1;
            ts[i].state = READY;
        }
}

/* who runs next; -1: nobody can */
static int pick(void) {
    for (;;) {
        int c[MAXT], n = 0;
        while (at < ns && finished(at))
            at++;
        if (at < ns && ts[script[at].t].state == READY)
            return script[at].t;
        for (int i = 0; i < nt; i++)
            if (ts[i].state == READY)
                c[n++] = i;
        if (n)
            return c[rnd() % n];
        uint64_t soon = UINT64_MAX;
        for (int i = 0; i < nt; i++)
            if ((ts[i].state == SLEEP || (ts[i].state == FUTEX && ts[i].timed)) && ts[i].wake_at < soon)
                soon = ts[i].wake_at;
        if (soon == UINT64_MAX)
            return -1;
        vnow = soon > vnow ? soon : vnow;
        wake_sleepers();
    }
}

static void note(int t) {
    if (nlog < MAXLOG) {
        lg_t[nlog] = t;
        lg_p[nlog++] = ts[t].points;
    }
}

static uint64_t next_gap(void) {
    if (!gap)
        return UINT64_MAX;
    uint64_t g = 0;
    do g++; while (g < 40 && rnd() % 2);        /* roughly geometric, scaled */
    return 1 + rnd() % (gap * g);
}

static void leave(int to) {
    /* the baton goes on; the caller waits for its own turn, or ends */
    left = next_gap();
    cur = to;
    if (to < 0) {
        for (int i = 0; i < nt; i++)
            if (ts[i].state != DONE)
                stuck = 1;
        give(&main_go);
    } else {
        n_switch++;
        give(&ts[to].go);
    }
}

static void turn(void) {            /* give way if the schedule says so; the caller stays ready or is blocked */
    int to = pick();
    if (to == me)
        return;
    note(me);
    calm = 0;
    leave(to);
    await(&ts[me].go);
}

static int other(void) {            /* a seeded choice among the other threads that can run */
    int c[MAXT], n = 0;
    for (int i = 0; i < nt; i++)
        if (i != me && ts[i].state == READY)
            c[n++] = i;
    return n ? c[rnd() % n] : -1;
}

static int in_sync(uint32_t h, intptr_t pc) {
    if (!is_sync[h]) {
        int lo = 0, hi = n_sync;
        while (lo < hi) {
            int m = (lo + hi) / 2;
            if (sync_fn[m].to <= pc)
                lo = m + 1;
            else
                hi = m;
        }
        is_sync[h] = 1 + (lo < n_sync && sync_fn[lo].from <= pc);
    }
    return is_sync[h] == 2;
}

void __sanitizer_cov_trace_pc(void) {
    if (me < 0 || !on)
        return;
    struct task *t = &ts[me];
    t->points++;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&nt;      /* wherever the program was loaded */
    uint32_t h = (uint32_t)((pc ^ pc >> 16) & 0xFFFF);
    uint32_t v = ++visits[h];
    if (!(t->seen[h >> 3] & 1 << (h & 7))) {
        t->seen[h >> 3] |= 1 << (h & 7);
        t->novel++;
    }
    if (++total == cap) {           /* perhaps somebody waits by trying again and again: be fair from here on */
        at = ns;
        gap = 1000;
        rare = sync_rate = 0;
        left = 1;
    } else if (total > 2 * cap) {
        stuck = 2;
        cur = -1;
        give(&main_go);
        for (;;)
            raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
    }
    vnow += 10;
    if (at < ns) {
        if (script[at].t == me && !finished(at))
            return;
        turn();
    } else if (--left == 0) {
        left = next_gap();
        turn();
    } else if ((rare || sync_rate) && !calm && !(v & (v - 1)) && rnd() % 100000 < (in_sync(h, pc) ? rare + 100 * sync_rate : rare)) {
        int to = other();
        if (to >= 0) {
            note(me);
            calm = rnd() % 2 ? 0 : 1 + (int)(rnd() % 4);
            leave(to);
            await(&ts[me].go);
        }
    }
}

void sim_call_ended(void) {
    if (me >= 0) {
        ts[me].calls++;
        if (calm && at >= ns)
            calm--;
        else
            turn();
    }
}

static void finish(void *x) {
    (void)x;
    ts[me].state = DONE;
    for (int i = 0; i < nt; i++)
        if (ts[i].state == JOIN && ts[i].target == me)
            ts[i].state = READY;
    note(me);
    int t = me;
    me = -1;
    (void)t;
    leave(pick());
}

extern int __cxa_thread_atexit_impl(void (*)(void *), void *, void *);
extern void *__dso_handle;

static void *body(void *x) {
    struct task *t = x;
    await(&t->go);
    me = (int)(t - ts);
    __cxa_thread_atexit_impl(finish, 0, &__dso_handle);      /* registered first, so it runs after the thread's own destructors */
    return t->fn(t->arg);
}

int pthread_create(pthread_t *id, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real)
        real = dlsym(RTLD_NEXT, "pthread_create");
    if (nt == MAXT)
        return EAGAIN;
    struct task *t = &ts[nt++];
    t->fn = fn;
    t->arg = arg;
    t->state = READY;
    int r = real(&t->real, attr, body, t);
    if (r) {
        nt--;
        return r;
    }
    *id = t->real;
    if (me >= 0)
        n_spawn++;
    return 0;
}

int pthread_join(pthread_t id, void **ret) {
    static int (*real)(pthread_t, void **);
    if (!real)
        real = dlsym(RTLD_NEXT, "pthread_join");
    if (me >= 0)
        for (int i = 0; i < nt; i++)
            if (pthread_equal(ts[i].real, id) && ts[i].state != DONE) {
                ts[me].target = i;
                ts[me].state = JOIN;
                turn();
            }
    return real(id, ret);
}

static long fut(uint32_t *addr, int op, uint32_t val, const struct timespec *tm, uint32_t bits) {
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        long n = 0;
        uint32_t limit = val > INT_MAX ? INT_MAX : val;
        int k = nt ? (int)(rnd_env() % nt) : 0;     /* which waiters go first is the kernel's choice */
        for (int j = 0; j < nt && n < limit; j++) {
            int i = (k + j) % nt;
            if (ts[i].state == FUTEX && ts[i].addr == addr && (ts[i].bits & bits)) {
                ts[i].state = READY;
                ts[i].timed_out = 0;
                n++;
            }
        }
        if (at >= ns && gap && rnd() % 2)
            turn();
        return n;
    }
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val)
            return -EAGAIN;
        n_wait++;
        if (p_spurious && rnd_env() % 1000 < (uint64_t)p_spurious) {
            n_spurious++;
            return rnd_env() % 2 ? 0 : -EINTR;
        }
        struct task *t = &ts[me];
        t->addr = addr;
        t->bits = bits;
        t->timed = tm != 0;
        t->timed_out = 0;
        if (tm) {
            uint64_t d = (uint64_t)tm->tv_sec * 1000000000ull + tm->tv_nsec;
            t->wake_at = cmd == FUTEX_WAIT_BITSET ? d : vnow + d;
        }
        t->state = FUTEX;
        turn();
        return t->timed_out ? -ETIMEDOUT : 0;
    }
    return -ENOSYS;
}

static long fill(void *p, size_t n) {
    for (size_t i = 0; i < n; i++)
        ((uint8_t *)p)[i] = (uint8_t)rnd_env();
    return (long)n;
}

long syscall(long nr, ...) {
    long a[6], r;
    va_list ap;
    va_start(ap, nr);
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && me >= 0)
        r = fut((uint32_t *)a[0], (int)a[1], (uint32_t)a[2], (const struct timespec *)a[3],
                (a[1] & FUTEX_CMD_MASK) == FUTEX_WAIT_BITSET || (a[1] & FUTEX_CMD_MASK) == FUTEX_WAKE_BITSET ? (uint32_t)a[5] : ~0u);
    else if (nr == SYS_getrandom)
        r = fill((void *)a[0], (size_t)a[1]);
    else
        r = raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

ssize_t getrandom(void *p, size_t n, unsigned f) {
    (void)f;
    return fill(p, n);
}

static int nap(uint64_t until) {
    if (me < 0)
        return 0;
    ts[me].wake_at = until;
    ts[me].state = SLEEP;
    turn();
    return 0;
}

int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem) {
    (void)id;
    (void)rem;
    uint64_t d = (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
    return nap(flags & TIMER_ABSTIME ? d : vnow + d);
}

int nanosleep(const struct timespec *t, struct timespec *rem) {
    (void)rem;
    return nap(vnow + (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec);
}

int clock_gettime(clockid_t id, struct timespec *t) {
    uint64_t v = vnow += 100;
    t->tv_sec = v / 1000000000ull + (id == CLOCK_REALTIME ? wall0 : 0);
    t->tv_nsec = v % 1000000000ull;
    return 0;
}

int sched_yield(void) {
    if (me >= 0) {
        vnow += 1000;
        wake_sleepers();
        int to = other();
        if (to >= 0) {
            note(me);
            calm = 0;
            leave(to);
            await(&ts[me].go);
        }
    }
    return 0;
}

/* for main.rs */
void sim_setup(uint64_t seed, uint64_t gap_, uint64_t rare_, uint64_t sync_, int spurious, uint64_t wall, uint64_t cap_) {
    cap = cap_;
    rng = seed * 2 + 1;
    rng_env = seed * 2 + 0x9E3779B97F4A7C15ull;
    for (int i = 0; i < 8; i++)
        rnd();
    gap = gap_;
    rare = (uint32_t)rare_;
    sync_rate = (uint32_t)sync_;
    p_spurious = spurious;
    wall0 = wall;
}

void sim_sync(int64_t from, int64_t size) {     /* in ascending order */
    if (n_sync < 20000) {
        sync_fn[n_sync].from = from;
        sync_fn[n_sync++].to = from + size;
    }
}

void sim_segment(int t, int kind, uint64_t n) {
    if (ns < MAXS) {
        script[ns].t = t;
        script[ns].kind = kind;
        script[ns++].n = n;
    }
}

int sim_run(void) {                 /* 0: all ended, 1: nobody can go on, 2: too long */
    on = 1;
    left = next_gap();
    int to = pick();
    if (to < 0)
        return 0;
    cur = to;
    give(&ts[to].go);
    await(&main_go);
    on = 0;
    return stuck;
}

uint64_t sim_count(int what, int t) {
    switch (what) {
    case 0: return ts[t].points;
    case 1: return ts[t].novel;
    case 2: return n_switch;
    case 3: return n_wait;
    case 4: return n_spurious;
    case 5: return n_spawn;
    case 6: return (uint64_t)nlog;
    case 7: return (uint64_t)nt;
    case 8: return (uint64_t)ts[t].state;
    case 9: return lg_t[t];
    case 10: return lg_p[t];
    }
    return 0;
}

// libavsim: a deterministic scheduler + fault injector that real, unmodified binaries run under.
//
// Loaded with LD_PRELOAD.  Between avsim_start() and avsim_stop() (or for a whole process when
// AVSIM_CFG is set) exactly one thread of the process runs at a time.  Which one is decided here, at
//   * every futex wait/wake (all of std's and crossbeam's and rayon's blocking goes through it),
//   * every sched_yield, sleep, clock read, thread creation, exit and join,
//   * every intercepted file operation,
//   * every atomic operation of Rust code built with `-C passes=tsan` (the LLVM pass turns each
//     atomic into a call of __tsan_atomic*, which are defined below: schedule, then do the atomic).
// All choices come from one PRNG seeded by the configuration, or from a recorded trace.
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/random.h>

#define EXPORT __attribute__((visibility("default")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
#define raw(n, ...) raw_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define raw_(n, a, b, c, d, e, f, ...) \
    raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static inline long ret(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ---------------------------------------------------------------- shared result record
enum { ST_NONE = 0, ST_RUNNING = 1, ST_DONE = 2, ST_DEADLOCK = 3, ST_STEPCAP = 4, ST_SPIN = 5,
       ST_LIMIT = 6, ST_BADCFG = 7 };
enum { FK_READ_EINTR, FK_READ_SHORT, FK_READ_EIO, FK_READ_EIO_STICKY, FK_READ_EAGAIN, FK_OPEN_ERR,
       FK_WRITE_EINTR, FK_WRITE_SHORT, FK_WRITE_EIO, FK_WRITE_ENOSPC, FK_THREAD_EAGAIN, FK_SPURIOUS,
       FK_STALL, FK_WAKE_ORDER, FK_PAUSE, FK_WRITE_EPIPE, FK_N };
#define MAXTHR 512
#define MAXDEV (1u << 20)
#define MAXFLT 65536u
struct dev { uint32_t step, val; };              // schedule deviation: at `step` run thread `val`
struct flt { uint32_t site, idx, kind, arg; };   // fault: idx-th event at `site` suffers `kind`
struct shm {
    uint64_t magic, status, steps, switches, preempt, nthreads, futex_waits, futex_wakes, yields,
        forced, simtime, hash, atomics, clockreads, sleeps, exitcode, max_runnable, io_hash;
    uint64_t faults[32];
    uint64_t iocnt[16];
    uint64_t ndev, nflt, devlost;
    char note[512];
    struct flt flts[MAXFLT];
    struct dev devs[MAXDEV];
};
static struct shm dummy_shm_hdr;   // only header used when no output file is given
static struct shm *S;

// ---------------------------------------------------------------- threads
enum { T_FREE, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DEAD };
struct thr {
    uint32_t gate;
    int state;
    uint32_t *uaddr;
    uint32_t bitset;
    int has_deadline, timedout, paused;
    uint64_t deadline, paused_at;
    uint64_t waitseq;
    struct thr *joining;
    pthread_t handle;
    int handle_ok, exited;
    uint64_t prio;
    uint64_t stall_until;   // starved until this step (0 = not)
    uint64_t enter_seq;
};
static struct thr T[MAXTHR];
static int nthr;
static volatile int active;
static int armed = 1;            // faults are injected only while set
static __thread int me __attribute__((tls_model("initial-exec"))) = -1;
static int cur = -1;
static uint64_t waitctr;

static uint64_t step, next_evt, run_since, simclock;
static uint64_t rng_s[2];

// configuration
static struct {
    uint64_t seed, stepcap, cpu_ms, quantum;
    int policy;              // 0 none(default only) 1 rand 2 pct 3 starve
    uint64_t gap;            // mean steps between forced choices (rand/starve)
    int pctd; uint64_t pctlen;
    uint64_t victims;        // bit mask (tid mod 64) of starved threads
    uint64_t starve;         // how long a starved thread may be left alone
    uint32_t p_spur, p_stall, p_wake;
    uint64_t stall_len;
    uint32_t pr_eintr, pr_short, pr_eio, pr_sticky, pr_eagain, po_err, pw_eintr, pw_short, pw_eio, pw_nospc,
        pw_epipe, pt_eagain, p_pause;
    uint64_t mem;            // mean number of memory accesses between two of them that are scheduling points
    uint64_t pause_ms, max_pause;   // threads stopped for a while by the clock (a loaded machine, a debugger, swapping)
    uint64_t disk_cap;       // bytes that fit on the simulated output disk (0 = unlimited)
    int tty, stdin_sim, stdout_sim;
    uint64_t at[16]; int nat, at_eintr, at_eio;   // offsets at which reads end (and the next is interrupted, or fails)
    uint16_t at_done;
    char dir[256];           // files below it are on the simulated disk
    char out[256];
    char trace[256];
    uint64_t after;          // no faults before this many I/O events
    uint64_t max_flt;
    uint64_t mainprio;
} C;
static int replay;
static struct dev *rdev; static uint64_t nrdev, rdevpos;
static struct flt *rflt; static uint64_t nrflt;
static uint64_t pct_points[64]; static int npct, pctpos;
static uint64_t prio_low = 1ull << 32;

static inline uint64_t splitmix(uint64_t *x) {
    uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct rng { uint64_t s; };
static struct rng r_sched, r_fault, r_user;
static inline uint64_t rnd(struct rng *r) { return splitmix(&r->s); }
static inline int chance(struct rng *r, uint32_t p) { return p && armed && (rnd(r) & 0xffff) < p; }
static inline void mix(uint64_t v) { S->hash = (S->hash ^ v) * 0x100000001b3ull; }

static void note(const char *s) {
    size_t n = strlen(S->note), m = strlen(s);
    if (n + m + 1 < sizeof S->note) memcpy(S->note + n, s, m + 1);
}
static void note_u(uint64_t v) {
    char b[24]; int i = 23; b[i] = 0;
    do { b[--i] = '0' + v % 10; v /= 10; } while (v);
    note(b + i);
}
static void __attribute__((noreturn)) die(int status) {
    S->status = status;
    S->steps = step; S->simtime = simclock; S->nthreads = nthr;
    raw(SYS_exit_group, 86);
    __builtin_unreachable();
}
static void describe_threads(void) {
    for (int i = 0; i < nthr; i++) {
        note(" t"); note_u(i); note("=");
        switch (T[i].state) {
        case T_RUN: note("run"); break;
        case T_FUTEX: note("futex"); break;
        case T_JOIN: note("join"); note_u(T[i].joining ? T[i].joining - T : 0); break;
        case T_SLEEP: note("sleep"); break;
        case T_DEAD: note("dead"); break;
        }
    }
}
static void rawwait(uint32_t *g) {
    while (__atomic_load_n(g, __ATOMIC_ACQUIRE) == 0)
        raw(SYS_futex, g, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
    __atomic_store_n(g, 0, __ATOMIC_RELEASE);
}
static void rawwake(uint32_t *g) {
    __atomic_store_n(g, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, g, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
static void log_dev(uint64_t st, uint32_t val) {
    if (S == &dummy_shm_hdr) return;
    if (S->ndev < MAXDEV) { S->devs[S->ndev].step = (uint32_t)st; S->devs[S->ndev].val = val; S->ndev++; }
    else S->devlost = 1;
}

// ---------------------------------------------------------------- scheduler
static inline uint64_t geom(uint64_t mean) {
    if (mean <= 1) return 1;
    // geometric-like gap, heavy at small values, by halving coin flips on a random scale
    uint64_t r = rnd(&r_sched);
    uint64_t g = 1 + r % (2 * mean);
    if ((r >> 60) == 0) g *= 8;
    return g;
}
#define PAUSE_STEPS 20000
static int npaused;
static void plan_next(void) {
    uint64_t n;
    if (replay) {
        n = rdevpos < nrdev ? rdev[rdevpos].step : UINT64_MAX;
        if (n <= step) n = step + 1;
    } else switch (C.policy) {
        case 1: case 3: n = step + geom(C.gap); break;
        case 2: n = pctpos < npct ? pct_points[pctpos] : UINT64_MAX; if (n <= step) n = step + 1; break;
        default: n = UINT64_MAX;
    }
    uint64_t q = run_since + C.quantum;
    if (q <= step) q = step + 1;
    if (n > q) n = q;
    if (n > C.stepcap) n = C.stepcap;
    if (npaused)
        for (int i = 0; i < nthr; i++) {
            uint64_t e = T[i].paused_at + PAUSE_STEPS;
            if (T[i].paused && e > step && e < n) n = e;
        }
    next_evt = n;
}
// wake every sleeper / timed futex waiter whose deadline has passed
static void expire(void) {
    for (int i = 0; i < nthr; i++)
        if ((T[i].state == T_SLEEP || (T[i].state == T_FUTEX && T[i].has_deadline)) &&
            T[i].deadline <= simclock) {
            if (!T[i].paused) T[i].timedout = T[i].state == T_FUTEX;
            if (T[i].paused) { T[i].paused = 0; npaused--; }
            T[i].state = T_RUN; T[i].uaddr = 0; T[i].has_deadline = 0;
        }
}
static uint64_t next_deadline(void) {
    uint64_t d = UINT64_MAX;
    for (int i = 0; i < nthr; i++)
        if ((T[i].state == T_SLEEP || (T[i].state == T_FUTEX && T[i].has_deadline)) && T[i].deadline < d)
            d = T[i].deadline;
    return d;
}
static uint64_t nd_cache = UINT64_MAX;   // earliest deadline, recomputed when it may have changed

enum { R_EVT, R_YIELD, R_BLOCK };
// The others run for at most PAUSE_STEPS steps while a thread is paused; then the pause is over by the clock, too
// (they may be waiting for it in a loop).
static void end_pauses(void) {
    for (int i = 0; i < nthr; i++)
        if (T[i].paused && step - T[i].paused_at >= PAUSE_STEPS && T[i].deadline > simclock) simclock = T[i].deadline;
}
static void pause_thread(int i, uint64_t ms) {
    if (i >= nthr || T[i].state != T_RUN || ms >> 21) return;
    T[i].state = T_SLEEP; T[i].paused = 1; T[i].paused_at = step; T[i].deadline = simclock + ms * 1000000;
    npaused++;
    if (T[i].deadline < nd_cache) nd_cache = T[i].deadline;
    S->faults[FK_PAUSE]++;
    log_dev(step, 1u << 31 | (uint32_t)ms << 10 | (uint32_t)i);
}
// Decide who runs next.  Called by the running thread (`cur`), which may have just blocked.
static int choose(int why) {
    if (npaused) end_pauses();
    if (nd_cache <= simclock) { expire(); nd_cache = next_deadline(); }
    int cand[MAXTHR], n = 0;
    if (replay) {
        while (rdevpos < nrdev && rdev[rdevpos].step < step) rdevpos++;
        while (rdevpos < nrdev && rdev[rdevpos].step == step && rdev[rdevpos].val >> 31) {
            uint32_t v = rdev[rdevpos++].val;
            pause_thread(v & 1023, (v & 0x7fffffffu) >> 10);
        }
    } else if (C.p_pause && S->faults[FK_PAUSE] < C.max_pause && chance(&r_sched, C.p_pause)) {
        for (int i = 0; i < nthr; i++) if (T[i].state == T_RUN) cand[n++] = i;
        uint64_t r = rnd(&r_sched), ms = C.pause_ms >> (r >> 8) % 12;
        if (n) pause_thread(cand[(r >> 16) % n], 1 + (r >> 32) % (ms ? ms : 1));
        n = 0;
    }
    for (;;) {
        for (int i = 0; i < nthr; i++) if (T[i].state == T_RUN) cand[n++] = i;
        if (n) break;
        nd_cache = next_deadline();
        if (nd_cache == UINT64_MAX) { note("deadlock:"); describe_threads(); die(ST_DEADLOCK); }
        if (nd_cache > simclock) simclock = nd_cache;       // idle: jump to the next timer
        expire(); nd_cache = next_deadline();
    }
    if ((uint64_t)n > S->max_runnable) S->max_runnable = n;
    if (step >= C.stepcap) { note("step cap:"); describe_threads(); die(ST_STEPCAP); }
    int curok = T[cur].state == T_RUN;
    // the default schedule: run on until blocking, yielding or the end of a long quantum
    int quantum = curok && why == R_EVT && step - run_since >= C.quantum;
    int dflt;
    if (curok && why != R_YIELD && !quantum) dflt = cur;
    else { dflt = cand[0]; for (int i = 0; i < n; i++) if (cand[i] > cur) { dflt = cand[i]; break; } }
    if (quantum) S->forced++;
    int pick = dflt;
    if (replay) {
        while (rdevpos < nrdev && rdev[rdevpos].step < step) rdevpos++;
        if (rdevpos < nrdev && rdev[rdevpos].step == step) {
            int w = rdev[rdevpos++].val;
            if (w < nthr && T[w].state == T_RUN) pick = w;
        }
    } else if (C.policy && n > 1) {
        // stalled threads (an injected fault) are skipped while anybody else can run
        int c2[MAXTHR], m = 0;
        for (int i = 0; i < n; i++) {
            struct thr *t = &T[cand[i]];
            if (t->stall_until > step) continue;
            if (C.policy == 3 && ((C.victims >> (cand[i] & 63)) & 1) && t->stall_until != UINT64_MAX) {
                if (!t->enter_seq) t->enter_seq = step + 1;
                if (step + 1 - t->enter_seq < C.starve) continue;
            }
            c2[m++] = cand[i];
        }
        if (!m) { memcpy(c2, cand, n * sizeof(int)); m = n; }
        if (C.policy == 2) {
            if (pctpos < npct && step >= pct_points[pctpos]) {
                while (pctpos < npct && step >= pct_points[pctpos]) pctpos++;
                if (curok) T[cur].prio = --prio_low;
            }
            if (curok && (why == R_YIELD || quantum)) T[cur].prio = --prio_low;
            pick = c2[0];
            for (int i = 1; i < m; i++) if (T[c2[i]].prio > T[pick].prio) pick = c2[i];
        } else if (why == R_EVT && !quantum) {
            pick = c2[rnd(&r_sched) % m];
        } else {
            // at a yield or block: mostly random, sometimes the default successor
            if (rnd(&r_sched) & 3) {
                pick = c2[rnd(&r_sched) % m];
                if (why == R_YIELD && pick == cur && m > 1) pick = c2[rnd(&r_sched) % m];
            } else { int ok = 0; for (int i = 0; i < m; i++) ok |= c2[i] == dflt; if (!ok) pick = c2[0]; }
        }
        if (C.p_stall && chance(&r_sched, C.p_stall) && n > 1) {
            T[pick].stall_until = step + 1 + rnd(&r_sched) % C.stall_len;
            S->faults[FK_STALL]++;
        }
    }
    if (pick != dflt) log_dev(step, pick);
    T[pick].enter_seq = 0;
    return pick;
}
static void switch_to(int to) {
    int self = cur;
    if (to == self) return;
    S->switches++;
    if (T[self].state == T_RUN) S->preempt++;
    mix(((uint64_t)step << 16) ^ (uint64_t)to);
    cur = to; run_since = step;
    plan_next();                       // before the other thread starts: it owns all state from then on
    rawwake(&T[to].gate);
}
// a scheduling point at which the caller stays runnable
static void resched(int why) {
    int to = choose(why);
    int self = cur;
    if (to == self) { if (step - run_since >= C.quantum) run_since = step; plan_next(); return; }
    switch_to(to);
    rawwait(&T[self].gate);
}
static inline __attribute__((always_inline)) int on(void) { return active && me >= 0; }
static inline __attribute__((always_inline)) void tick(void) {
    step++; simclock += 200;
    if (unlikely(step >= next_evt || simclock >= nd_cache)) resched(R_EVT);
}
static uint64_t idle_yields;            // since a thread last blocked or was woken
static void block(void) {               // caller has set T[me].state != T_RUN
    step++; simclock += 200;
    idle_yields = 0;
    int self = cur;
    int to = choose(R_BLOCK);
    if (to == self) { plan_next(); return; }   // (woken by a timer meanwhile)
    switch_to(to);
    rawwait(&T[self].gate);
}
static int wake_any(void) { next_evt = step + 1; return 0; }

// ---------------------------------------------------------------- futex
static long sim_futex(uint32_t *uaddr, int op, uint32_t val, const struct timespec *ts, uint32_t *u2, uint32_t v3) {
    int cmd = op & FUTEX_CMD_MASK;
    tick();
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        if (__atomic_load_n(uaddr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
        S->futex_waits++;
        if (!replay && chance(&r_fault, C.p_spur)) {
            S->faults[FK_SPURIOUS]++;
            if (S != &dummy_shm_hdr && S->nflt < MAXFLT)
                S->flts[S->nflt++] = (struct flt){15, (uint32_t)S->futex_waits, FK_SPURIOUS, 0};
            step++; resched(R_YIELD);
            return 0;
        }
        if (replay) for (uint64_t i = 0; i < nrflt; i++)
            if (rflt[i].site == 15 && rflt[i].idx == S->futex_waits) {
                S->faults[FK_SPURIOUS]++;
                if (S != &dummy_shm_hdr && S->nflt < MAXFLT) S->flts[S->nflt++] = rflt[i];
                step++; resched(R_YIELD); return 0;
            }
        struct thr *t = &T[me];
        t->state = T_FUTEX; t->uaddr = uaddr; t->timedout = 0; t->waitseq = ++waitctr;
        t->bitset = cmd == FUTEX_WAIT_BITSET ? v3 : 0xffffffffu;
        t->has_deadline = 0;
        if (ts) {
            uint64_t d = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
            t->deadline = cmd == FUTEX_WAIT ? simclock + d : d;
            t->has_deadline = 1;
            if (t->deadline < nd_cache) nd_cache = t->deadline;
        }
        block();
        return t->timedout ? -ETIMEDOUT : 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        uint32_t bs = cmd == FUTEX_WAKE_BITSET ? v3 : 0xffffffffu;
        long woken = 0;
        while (woken < (long)(int)val) {
            int w[MAXTHR], n = 0;
            for (int i = 0; i < nthr; i++)
                if (T[i].state == T_FUTEX && T[i].uaddr == uaddr && (T[i].bitset & bs)) w[n++] = i;
            if (!n) break;
            int k = 0;
            for (int i = 1; i < n; i++) if (T[w[i]].waitseq < T[w[k]].waitseq) k = i;
            if (n > 1 && !replay && chance(&r_fault, C.p_wake)) {
                int nk = rnd(&r_fault) % n;
                if (nk != k) {
                    k = nk; S->faults[FK_WAKE_ORDER]++;
                    if (S != &dummy_shm_hdr && S->nflt < MAXFLT)
                        S->flts[S->nflt++] = (struct flt){14, (uint32_t)S->futex_wakes, FK_WAKE_ORDER, w[k]};
                }
            } else if (n > 1 && replay) {
                for (uint64_t i = 0; i < nrflt; i++)
                    if (rflt[i].site == 14 && rflt[i].idx == S->futex_wakes)
                        for (int j = 0; j < n; j++) if ((uint32_t)w[j] == rflt[i].arg) {
                            k = j; S->faults[FK_WAKE_ORDER]++;
                            if (S != &dummy_shm_hdr && S->nflt < MAXFLT) S->flts[S->nflt++] = rflt[i];
                        }
            }
            struct thr *t = &T[w[k]];
            t->state = T_RUN; t->uaddr = 0; t->has_deadline = 0; t->timedout = 0;
            woken++; S->futex_wakes++; idle_yields = 0;
        }
        if (woken && !replay && C.policy == 2) wake_any();
        return woken;
    }
    (void)u2;
    note("unsupported futex op "); note_u(cmd);
    die(ST_LIMIT);
}
EXPORT long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on()) {
        if (n == SYS_futex) return ret(sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (void *)d, (void *)e, (uint32_t)f));
        if (n == SYS_sched_yield) return sched_yield();
        if (n == SYS_getrandom) return getrandom((void *)a, b, c);
    }
    return ret(raw6(n, a, b, c, d, e, f));
}
EXPORT int sched_yield(void) {
    if (!on()) return (int)ret(raw(SYS_sched_yield));
    step++; simclock += 200; S->yields++;
    // everybody waits (in a loop that yields) for somebody who sleeps or is paused: time passes
    if (++idle_yields > 64 * (uint64_t)nthr && nd_cache != UINT64_MAX) {
        idle_yields = 0;
        if (nd_cache > simclock) simclock = nd_cache;
    }
    resched(R_YIELD);
    return 0;
}
// ---------------------------------------------------------------- time
static void real_clock(clockid_t c, struct timespec *ts) { raw(SYS_clock_gettime, c, ts); }
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!on() || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) {
        return (int)ret(raw(SYS_clock_gettime, c, ts));
    }
    tick(); S->clockreads++;
    uint64_t v = simclock;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v += 1700000000ull * 1000000000ull;
    ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
    return 0;
}
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    (void)tz; return 0;
}
EXPORT time_t time(time_t *t) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static void sim_sleep(uint64_t deadline) {
    S->sleeps++;
    struct thr *t = &T[me];
    if (deadline <= simclock) { sched_yield(); return; }
    t->state = T_SLEEP; t->deadline = deadline;
    if (deadline < nd_cache) nd_cache = deadline;
    block();
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rm) {
    if (!on()) { long r = raw(SYS_clock_nanosleep, c, flags, rq, rm); return (int)-r; }
    uint64_t d = (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec;
    if (!(flags & TIMER_ABSTIME)) d += simclock;
    else if (c == CLOCK_REALTIME) d -= 1700000000ull * 1000000000ull;
    sim_sleep(d);
    return 0;
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) {
    if (!on()) return (int)ret(raw(SYS_nanosleep, rq, rm));
    return clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm);
}
EXPORT int usleep(useconds_t us) {
    struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
    return nanosleep(&ts, 0);
}
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (!on()) return ret(raw(SYS_getrandom, buf, n, flags));
    for (size_t i = 0; i < n; i++) ((uint8_t *)buf)[i] = (uint8_t)rnd(&r_user);
    return n;
}
EXPORT int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }

// ---------------------------------------------------------------- faults
static struct flt *planned(uint32_t site, uint32_t idx) {
    for (uint64_t i = 0; i < nrflt; i++) if (rflt[i].site == site && rflt[i].idx == idx) return &rflt[i];
    return 0;
}
static void log_flt(uint32_t site, uint32_t idx, uint32_t kind, uint32_t arg) {
    S->faults[kind]++;
    if (S != &dummy_shm_hdr && S->nflt < MAXFLT) S->flts[S->nflt++] = (struct flt){site, idx, kind, arg};
    S->io_hash = (S->io_hash ^ ((uint64_t)site << 48 ^ (uint64_t)idx << 16 ^ kind << 8 ^ arg)) * 0x100000001b3ull;
}
// ---------------------------------------------------------------- thread life
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static pthread_key_t exit_key;
struct boot { void *(*fn)(void *); void *arg; int id; };
static void thread_exit_hook(void *p) {
    intptr_t v = (intptr_t)p;
    if (v < 3) { pthread_setspecific(exit_key, (void *)(v + 1)); return; }  // run after everyone else's
    if (me < 0) return;
    int id = me;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_JOIN && T[i].joining == &T[id]) T[i].state = T_RUN;
    T[id].state = T_DEAD; T[id].exited = 1;
    step++;
    if (active) {
        int to = choose(R_BLOCK);
        S->switches++; mix(((uint64_t)step << 16) ^ (uint64_t)to);
        cur = to; run_since = step;
        plan_next();
        me = -1;
        rawwake(&T[to].gate);
    }
    me = -1;
}
static void *thread_main(void *p) {
    struct boot b = *(struct boot *)p;
    rawwait(&T[b.id].gate);
    me = b.id;
    free(p);
    pthread_setspecific(exit_key, (void *)1);
    return b.fn(b.arg);
}
static void setup_real(void) {
    if (!real_create) {
        real_create = dlsym(RTLD_NEXT, "pthread_create");
        real_join = dlsym(RTLD_NEXT, "pthread_join");
        pthread_key_create(&exit_key, thread_exit_hook);
    }
}
EXPORT int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    setup_real();
    if (!on()) return real_create(th, attr, fn, arg);
    tick();
    uint32_t idx = (uint32_t)S->iocnt[8]++;
    int fail = 0;
    if (replay) fail = planned(8, idx) != 0;
    else fail = chance(&r_fault, C.pt_eagain);
    if (fail) { log_flt(8, idx, FK_THREAD_EAGAIN, 0); return EAGAIN; }
    if (nthr >= MAXTHR) { note("too many threads"); die(ST_LIMIT); }
    int id = nthr;
    memset(&T[id], 0, sizeof T[id]);
    struct boot *b = malloc(sizeof *b);
    *b = (struct boot){fn, arg, id};
    pthread_t h;
    int r = real_create(&h, attr, thread_main, b);
    if (r) { free(b); return r; }
    for (int i = 0; i < nthr; i++)          // a detached thread that has ended: its handle is used again
        if (T[i].handle_ok && pthread_equal(T[i].handle, h)) T[i].handle_ok = 0;
    T[id].handle = h; T[id].handle_ok = 1;
    T[id].prio = (1ull << 33) + (rnd(&r_sched) >> 16);
    T[id].state = T_RUN;
    nthr++;
    *th = h;
    if (!replay && C.policy == 2) wake_any();
    tick();
    return 0;
}
EXPORT int pthread_join(pthread_t th, void **rv) {
    setup_real();
    if (on()) {
        tick();
        for (int i = 0; i < nthr; i++)
            if (T[i].handle_ok && pthread_equal(T[i].handle, th)) {
                if (!T[i].exited) { T[me].state = T_JOIN; T[me].joining = &T[i]; block(); }
                T[i].handle_ok = 0;
                break;
            }
    }
    return real_join(th, rv);
}
// ---------------------------------------------------------------- pthread locks of C libraries
static int (*real_mlock)(pthread_mutex_t *);
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!on()) {
        if (!real_mlock) real_mlock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
        return real_mlock(m);
    }
    for (;;) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        step++; resched(R_YIELD);
    }
}
static volatile uint64_t cond_gen;
static int (*real_cwait)(pthread_cond_t *, pthread_mutex_t *);
static int (*real_csig)(pthread_cond_t *), (*real_cbc)(pthread_cond_t *);
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!on()) {
        if (!real_cwait) real_cwait = dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
        return real_cwait(c, m);
    }
    uint64_t g = cond_gen;
    pthread_mutex_unlock(m);
    while (g == cond_gen) { step++; resched(R_YIELD); }
    return pthread_mutex_lock(m);
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
    cond_gen++;
    if (!real_csig) real_csig = dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
    return real_csig(c);
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
    cond_gen++;
    if (!real_cbc) real_cbc = dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
    return real_cbc(c);
}

// ---------------------------------------------------------------- simulated disk
// File contents live in a scratch directory; what each call returns is decided here.
// sites: 0 open, 1 read (input), 2 write (output), 3 read stdin, 4 write stdout, 8 thread creation,
//        14 wake order, 15 spurious futex return
#define MAXFD 1024
static uint8_t fdclass[MAXFD];      // 0 none, 1 simulated disk, 2 simulated std stream
static uint8_t fdbad[MAXFD];        // sticky EIO
static uint64_t disk_used;
static int sim_path(const char *p) {
    size_t n = strlen(C.dir);
    return n && !strncmp(p, C.dir, n);
}
static int in_fault_window(void) {
    uint64_t tot = S->iocnt[0] + S->iocnt[1] + S->iocnt[2] + S->iocnt[3] + S->iocnt[4];
    if (tot < C.after) return 0;
    uint64_t f = 0;
    for (int i = 0; i <= FK_THREAD_EAGAIN; i++) if (i != FK_READ_SHORT && i != FK_WRITE_SHORT && i != FK_READ_EINTR && i != FK_WRITE_EINTR) f += S->faults[i];
    return f < C.max_flt;
}
static const int open_errs[] = {EACCES, EMFILE, ENFILE, EIO, ENOENT, EINTR};
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    int sim = on() && sim_path(path);
    if (sim) {
        tick();
        uint32_t idx = (uint32_t)S->iocnt[0]++;
        int e = 0;
        if (replay) { struct flt *f = planned(0, idx); if (f) e = (int)f->arg; }
        else if (in_fault_window() && chance(&r_fault, C.po_err)) e = open_errs[rnd(&r_fault) % 5];
        if (e) { log_flt(0, idx, FK_OPEN_ERR, e); errno = e; return -1; }
    }
    long fd = raw(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) { fdclass[fd] = sim ? 1 : 0; fdbad[fd] = 0; }
    return (int)ret(fd);
}
EXPORT int open64(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
    return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m);
}
EXPORT int open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
    return do_open(AT_FDCWD, path, flags, m);
}
EXPORT int openat(int dfd, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
    return do_open(dfd, path, flags, m);
}
EXPORT int openat64(int dfd, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
    return do_open(dfd, path, flags, m);
}
EXPORT int close(int fd) {
    if (fd >= 0 && fd < MAXFD) { fdclass[fd] = 0; fdbad[fd] = 0; }
    return (int)ret(raw(SYS_close, fd));
}
static int simfd(int fd) {
    if (!on() || fd < 0 || fd >= MAXFD) return 0;
    if (fd == 0 && C.stdin_sim) return 2;
    if (fd == 1 && C.stdout_sim) return 2;
    return fdclass[fd];
}
// Returns: -errno to fail, or the number of bytes the call may transfer (<= want).
static long read_decision(int fd, size_t want) {
    uint32_t site = fd == 0 ? 3 : 1;
    uint32_t idx = (uint32_t)S->iocnt[site]++;
    tick();
    if (fdbad[fd]) return -EIO;
    uint32_t kind = FK_N, arg = 0;
    if (replay) { struct flt *f = planned(site, idx); if (f) { kind = f->kind; arg = f->arg; } }
    else {
        int w = in_fault_window();
        off_t pos = C.nat ? raw(SYS_lseek, fd, 0, SEEK_CUR) : -1;
        for (int i = 0; i < C.nat && pos >= 0; i++) {
            uint64_t a = C.at[i];
            if ((uint64_t)pos == a && !(C.at_done >> i & 1)) {
                C.at_done |= 1 << i;
                if (C.at_eintr) { kind = FK_READ_EINTR; break; }
                if (C.at_eio && w) { kind = C.at_eio == 1 ? FK_READ_EIO : FK_READ_EIO_STICKY; break; }
            } else if ((uint64_t)pos < a && a < pos + want && (kind == FK_N || a - pos < arg)) {
                kind = FK_READ_SHORT;
                arg = (uint32_t)(a - pos);
            }
        }
        if (kind != FK_N) ;
        else if (chance(&r_fault, C.pr_eintr)) kind = FK_READ_EINTR;
        else if (want > 1 && chance(&r_fault, C.pr_short)) {
            kind = FK_READ_SHORT;
            uint64_t r = rnd(&r_fault);
            arg = (r & 3) == 0 ? 1 : (r & 3) == 1 ? 1 + (r >> 2) % 16 : 1 + (r >> 2) % want;
        } else if (w && chance(&r_fault, C.pr_eio)) kind = FK_READ_EIO;
        else if (w && chance(&r_fault, C.pr_sticky)) kind = FK_READ_EIO_STICKY;
        else if (w && chance(&r_fault, C.pr_eagain)) kind = FK_READ_EAGAIN;
    }
    if (kind == FK_N) return (long)want;
    if (kind == FK_READ_SHORT) {
        if (arg == 0) arg = 1;
        if (arg >= want) return (long)want;
    }
    log_flt(site, idx, kind, arg);
    switch (kind) {
    case FK_READ_EINTR: return -EINTR;
    case FK_READ_EIO: return -EIO;
    case FK_READ_EIO_STICKY: fdbad[fd] = 1; return -EIO;
    case FK_READ_EAGAIN: return -EAGAIN;
    default: return (long)arg;
    }
}
static long write_decision(int fd, size_t want) {
    uint32_t site = fd == 1 ? 4 : 2;
    uint32_t idx = (uint32_t)S->iocnt[site]++;
    tick();
    if (fdbad[fd]) return fd == 1 ? -EPIPE : -EIO;
    uint32_t kind = FK_N, arg = 0;
    if (replay) { struct flt *f = planned(site, idx); if (f) { kind = f->kind; arg = f->arg; } }
    else {
        int w = in_fault_window();
        if (chance(&r_fault, C.pw_eintr)) kind = FK_WRITE_EINTR;
        else if (want > 1 && chance(&r_fault, C.pw_short)) { kind = FK_WRITE_SHORT; arg = 1 + rnd(&r_fault) % want; }
        else if (w && chance(&r_fault, C.pw_eio)) kind = FK_WRITE_EIO;
        else if (w && chance(&r_fault, C.pw_nospc)) kind = FK_WRITE_ENOSPC;
        else if (w && fd == 1 && chance(&r_fault, C.pw_epipe)) kind = FK_WRITE_EPIPE;
        else if (C.disk_cap && fd != 1 && disk_used + want > C.disk_cap) {
            arg = disk_used < C.disk_cap ? (uint32_t)(C.disk_cap - disk_used) : 0;
            kind = arg ? FK_WRITE_SHORT : FK_WRITE_ENOSPC;      // a filling disk: short write, then ENOSPC
        }
    }
    if (kind == FK_N) return (long)want;
    if (kind == FK_WRITE_SHORT) { if (arg == 0) arg = 1; if (arg >= want) return (long)want; }
    log_flt(site, idx, kind, arg);
    switch (kind) {
    case FK_WRITE_EINTR: return -EINTR;
    case FK_WRITE_EIO: fdbad[fd] = 1; return -EIO;
    case FK_WRITE_EPIPE: fdbad[fd] = 1; return -EPIPE;
    case FK_WRITE_ENOSPC: return -ENOSPC;
    default: return (long)arg;
    }
}
EXPORT ssize_t read(int fd, void *buf, size_t n) {
    if (simfd(fd) && n) { long d = read_decision(fd, n); if (d < 0) return ret(d); n = d; }
    return ret(raw(SYS_read, fd, buf, n));
}
EXPORT ssize_t pread64(int fd, void *buf, size_t n, off_t o) {
    if (simfd(fd) && n) { long d = read_decision(fd, n); if (d < 0) return ret(d); n = d; }
    return ret(raw(SYS_pread64, fd, buf, n, o));
}
EXPORT ssize_t pread(int fd, void *buf, size_t n, off_t o) { return pread64(fd, buf, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int cnt) {
    if (simfd(fd)) {
        for (int i = 0; i < cnt; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return ret(raw(SYS_readv, fd, v, cnt));
}
EXPORT ssize_t write(int fd, const void *buf, size_t n) {
    if (simfd(fd) && n) {
        long d = write_decision(fd, n);
        if (d < 0) return ret(d);
        n = d;
    }
    long r = raw(SYS_write, fd, buf, n);
    if (r > 0 && simfd(fd) == 1) disk_used += r;
    return ret(r);
}
EXPORT ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) {
    if (simfd(fd) && n) { long d = write_decision(fd, n); if (d < 0) return ret(d); n = d; }
    long r = raw(SYS_pwrite64, fd, buf, n, o);
    if (r > 0 && simfd(fd) == 1) disk_used += r;
    return ret(r);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int cnt) {
    if (simfd(fd)) {
        for (int i = 0; i < cnt; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return ret(raw(SYS_writev, fd, v, cnt));
}
EXPORT ssize_t copy_file_range(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned f) {
    if (simfd(a) || simfd(b)) { errno = ENOSYS; return -1; }
    return ret(raw(SYS_copy_file_range, a, oa, b, ob, n, f));
}
EXPORT ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (simfd(o) || simfd(i)) { errno = EINVAL; return -1; }
    return ret(raw(SYS_sendfile, o, i, off, n));
}
EXPORT int fsync(int fd) {
    if (simfd(fd)) { tick(); if (fdbad[fd]) { errno = EIO; return -1; } return 0; }
    return (int)ret(raw(SYS_fsync, fd));
}
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT int isatty(int fd) {
    if (on() && C.tty && fd >= 0 && fd < 3) return 1;
    char t[64];
    return raw(SYS_ioctl, fd, 0x5401 /*TCGETS*/, t) == 0 ? 1 : (errno = ENOTTY, 0);
}

// ---------------------------------------------------------------- atomics of instrumented code
#define ORD __ATOMIC_SEQ_CST
#define PT do { if (likely(on())) { S->atomics++; tick(); } } while (0)
#define ATOMICS(N, ty)                                                                              \
    EXPORT ty __tsan_atomic##N##_load(const volatile ty *a, int mo) { PT; (void)mo; return __atomic_load_n(a, ORD); } \
    EXPORT void __tsan_atomic##N##_store(volatile ty *a, ty v, int mo) { PT; (void)mo; __atomic_store_n(a, v, ORD); } \
    EXPORT ty __tsan_atomic##N##_exchange(volatile ty *a, ty v, int mo) { PT; (void)mo; return __atomic_exchange_n(a, v, ORD); } \
    EXPORT ty __tsan_atomic##N##_fetch_add(volatile ty *a, ty v, int mo) { PT; (void)mo; return __atomic_fetch_add(a, v, ORD); } \
    EXPORT ty __tsan_atomic##N##_fetch_sub(volatile ty *a, ty v, int mo) { PT; (void)mo; return __atomic_fetch_sub(a, v, ORD); } \
    EXPORT ty __tsan_atomic##N##_fetch_and(volatile ty *a, ty v, int mo) { PT; (void)mo; return __atomic_fetch_and(a, v, ORD); } \
    EXPORT ty __tsan_atomic##N##_fetch_or(volatile ty *a, ty v, int mo) { PT; (void)mo; return __atomic_fetch_or(a, v, ORD); } \
    EXPORT ty __tsan_atomic##N##_fetch_xor(volatile ty *a, ty v, int mo) { PT; (void)mo; return __atomic_fetch_xor(a, v, ORD); } \
    EXPORT ty __tsan_atomic##N##_fetch_nand(volatile ty *a, ty v, int mo) { PT; (void)mo; return __atomic_fetch_nand(a, v, ORD); } \
    EXPORT ty __tsan_atomic##N##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { PT; (void)mo; (void)fmo; \
        __atomic_compare_exchange_n(a, &c, v, 0, ORD, ORD); return c; }                              \
    EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { PT; (void)mo; (void)fmo; \
        return __atomic_compare_exchange_n(a, c, v, 0, ORD, ORD); }                                  \
    EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { PT; (void)mo; (void)fmo; \
        return __atomic_compare_exchange_n(a, c, v, 0, ORD, ORD); }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
typedef unsigned __int128 u128;
EXPORT u128 __tsan_atomic128_load(const volatile u128 *a, int mo) { PT; (void)mo; return __sync_val_compare_and_swap((volatile u128 *)a, 0, 0); }
EXPORT void __tsan_atomic128_store(volatile u128 *a, u128 v, int mo) { PT; (void)mo; u128 o; do o = *a; while (!__sync_bool_compare_and_swap(a, o, v)); }
EXPORT u128 __tsan_atomic128_compare_exchange_val(volatile u128 *a, u128 c, u128 v, int mo, int fmo) { PT; (void)mo; (void)fmo; return __sync_val_compare_and_swap(a, c, v); }
EXPORT void __tsan_atomic_thread_fence(int mo) { PT; (void)mo; __atomic_thread_fence(ORD); }
EXPORT void __tsan_atomic_signal_fence(int mo) { (void)mo; __atomic_signal_fence(ORD); }

// Memory accesses, in the build that has them instrumented (data races in code that uses `unsafe` or statics):
// every access to static data is a scheduling point, and every C.mem-th of all others.
static uintptr_t mem_lo, mem_len;
static int hold;                // the harness is at its own records
EXPORT void avsim_hold(int v) { hold = v; }
static uint64_t mem_n, mem_next = UINT64_MAX;
static void __attribute__((noinline)) mem_point(void) {
    mem_n = 0;
    mem_next = C.mem ? C.mem : UINT64_MAX;
    S->iocnt[15]++;
    tick();
}
static inline __attribute__((always_inline)) void macc(const volatile void *p) {
    if (likely(active && !hold)) {
        if (unlikely((uintptr_t)p - mem_lo < mem_len || ++mem_n >= mem_next) && on()) mem_point();
    }
}
#define MACC(N) \
    EXPORT void __tsan_read##N(void *p) { macc(p); } \
    EXPORT void __tsan_write##N(void *p) { macc(p); } \
    EXPORT void __tsan_read_write##N(void *p) { macc(p); } \
    EXPORT void __tsan_unaligned_read##N(void *p) { macc(p); } \
    EXPORT void __tsan_unaligned_write##N(void *p) { macc(p); } \
    EXPORT void __tsan_unaligned_read_write##N(void *p) { macc(p); } \
    EXPORT void __tsan_volatile_read##N(void *p) { macc(p); } \
    EXPORT void __tsan_volatile_write##N(void *p) { macc(p); } \
    EXPORT void __tsan_unaligned_volatile_read##N(void *p) { macc(p); } \
    EXPORT void __tsan_unaligned_volatile_write##N(void *p) { macc(p); }
MACC(1) MACC(2) MACC(4) MACC(8) MACC(16)
EXPORT void __tsan_read_range(void *p, uintptr_t n) { (void)n; macc(p); }
EXPORT void __tsan_write_range(void *p, uintptr_t n) { (void)n; macc(p); }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *p) { (void)p; }
EXPORT void __tsan_func_exit(void *p) { (void)p; }
EXPORT void __tsan_vptr_read(void **p) { (void)p; }
EXPORT void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
EXPORT void *__tsan_memcpy(void *d, const void *s, uintptr_t n) { macc(d); macc(s); return memcpy(d, s, n); }
EXPORT void *__tsan_memmove(void *d, const void *s, uintptr_t n) { macc(d); macc(s); return memmove(d, s, n); }
EXPORT void *__tsan_memset(void *d, int c, uintptr_t n) { macc(d); return memset(d, c, n); }
EXPORT void avsim_static_data(const void *lo, const void *hi) { mem_lo = (uintptr_t)lo; mem_len = (uintptr_t)hi - mem_lo; }

// ---------------------------------------------------------------- start / stop
static void on_cpu_limit(int s) {
    (void)s;
    if (S && active) { note("no scheduling point for the whole CPU budget:"); describe_threads(); die(ST_SPIN); }
    raw(SYS_exit_group, 86);
}
static uint64_t getu(const char *cfg, const char *key, uint64_t d) {
    size_t n = strlen(key);
    for (const char *p = cfg; *p;) {
        while (*p == ' ') p++;
        if (!strncmp(p, key, n) && p[n] == '=') return strtoull(p + n + 1, 0, 0);
        while (*p && *p != ' ') p++;
    }
    return d;
}
static void gets_(const char *cfg, const char *key, char *out, size_t cap) {
    size_t n = strlen(key);
    out[0] = 0;
    for (const char *p = cfg; *p;) {
        while (*p == ' ') p++;
        if (!strncmp(p, key, n) && p[n] == '=') {
            p += n + 1;
            size_t i = 0;
            while (*p && *p != ' ' && i + 1 < cap) out[i++] = *p++;
            out[i] = 0;
            return;
        }
        while (*p && *p != ' ') p++;
    }
}
static void load_trace(const char *path) {
    // text: "S step tid" and "F site idx kind arg", one per line, steps ascending
    int fd = (int)raw(SYS_openat, AT_FDCWD, path, O_RDONLY, 0);
    if (fd < 0) { note("cannot open trace"); die(ST_BADCFG); }
    struct stat st; fstat(fd, &st);
    char *b = malloc(st.st_size + 1);
    size_t off = 0;
    while (off < (size_t)st.st_size) { long r = raw(SYS_read, fd, b + off, st.st_size - off); if (r <= 0) break; off += r; }
    b[off] = 0; raw(SYS_close, fd);
    uint64_t lines = 1;
    for (size_t i = 0; i < off; i++) lines += b[i] == '\n';
    rdev = calloc(lines, sizeof *rdev); rflt = calloc(lines, sizeof *rflt);
    for (char *p = b; *p;) {
        char k = *p++;
        char *e;
        if (k == 'S') { rdev[nrdev].step = strtoul(p, &e, 10); rdev[nrdev].val = strtoul(e, &e, 10); nrdev++; p = e; }
        else if (k == 'F') {
            struct flt *f = &rflt[nrflt++];
            f->site = strtoul(p, &e, 10); f->idx = strtoul(e, &e, 10); f->kind = strtoul(e, &e, 10); f->arg = strtoul(e, &e, 10);
            p = e;
        }
        while (*p && *p != '\n') p++;
        if (*p) p++;
    }
    free(b);
}
EXPORT int avsim_start(const char *cfg) {
    setup_real();
    C.seed = getu(cfg, "seed", 1); C.policy = (int)getu(cfg, "policy", 1); C.gap = getu(cfg, "gap", 50);
    C.stepcap = getu(cfg, "stepcap", 20000000); C.cpu_ms = getu(cfg, "cpu_ms", 20000);
    C.quantum = getu(cfg, "quantum", 20000);
    C.pctd = (int)getu(cfg, "pctd", 3); C.pctlen = getu(cfg, "pctlen", 20000);
    C.victims = getu(cfg, "victims", 0); C.starve = getu(cfg, "starve", 20000);
    C.p_spur = getu(cfg, "spur", 0); C.p_stall = getu(cfg, "stall", 0); C.stall_len = getu(cfg, "stall_len", 2000);
    C.p_wake = getu(cfg, "wake", 0);
    C.mem = getu(cfg, "mem", 0); mem_n = 0; mem_next = C.mem ? C.mem : UINT64_MAX;
    C.p_pause = getu(cfg, "pause", 0); C.pause_ms = getu(cfg, "pause_ms", 1000); C.max_pause = getu(cfg, "max_pause", 8);
    C.pr_eintr = getu(cfg, "r_eintr", 0); C.pr_short = getu(cfg, "r_short", 0); C.pr_eio = getu(cfg, "r_eio", 0);
    C.pr_sticky = getu(cfg, "r_sticky", 0); C.pr_eagain = getu(cfg, "r_eagain", 0);
    C.po_err = getu(cfg, "o_err", 0); C.pw_eintr = getu(cfg, "w_eintr", 0); C.pw_short = getu(cfg, "w_short", 0);
    C.pw_eio = getu(cfg, "w_eio", 0); C.pw_nospc = getu(cfg, "w_nospc", 0); C.pw_epipe = getu(cfg, "w_epipe", 0);
    C.pt_eagain = getu(cfg, "t_eagain", 0); C.disk_cap = getu(cfg, "disk_cap", 0);
    C.tty = (int)getu(cfg, "tty", 0); C.stdin_sim = (int)getu(cfg, "stdin", 0); C.stdout_sim = (int)getu(cfg, "stdout", 0);
    C.after = getu(cfg, "after", 0); C.max_flt = getu(cfg, "max_flt", 1);
    C.at_eintr = (int)getu(cfg, "at_eintr", 0); C.at_eio = (int)getu(cfg, "at_eio", 0);
    char at[256];
    gets_(cfg, "r_at", at, sizeof at);
    for (char *q = at; *q && C.nat < 16;) { C.at[C.nat++] = strtoull(q, &q, 10); if (*q) q++; }
    gets_(cfg, "dir", C.dir, sizeof C.dir); gets_(cfg, "out", C.out, sizeof C.out);
    gets_(cfg, "trace", C.trace, sizeof C.trace);
    S = &dummy_shm_hdr;
    if (C.out[0]) {
        int fd = (int)raw(SYS_openat, AT_FDCWD, C.out, O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && raw(SYS_ftruncate, fd, 0) == 0 && raw(SYS_ftruncate, fd, sizeof(struct shm)) == 0) {
            void *p = mmap(0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) S = p;
        }
        if (fd >= 0) raw(SYS_close, fd);
    }
    S->magic = 0x6d6973767661ull; S->status = ST_RUNNING; S->hash = 0xcbf29ce484222325ull;
    S->io_hash = 0xcbf29ce484222325ull;
    // (hashed: consecutive seeds must not give shifted copies of one splitmix stream)
    uint64_t h = C.seed ^ 0x243f6a8885a308d3ull;
    r_sched.s = splitmix(&h) * 0xd1342543de82ef95ull; splitmix(&h);
    r_sched.s ^= splitmix(&h);
    r_fault.s = splitmix(&h) * 0xaf251af3b0f025b5ull; r_fault.s ^= splitmix(&h) >> 7;
    r_user.s = splitmix(&h) * 0x2545f4914f6cdd1dull; r_user.s ^= splitmix(&h) >> 5;
    for (int i = 0; i < 4; i++) { rnd(&r_sched); rnd(&r_fault); }
    if (C.trace[0]) { replay = 1; load_trace(C.trace); }
    if (C.policy == 2) {
        npct = C.pctd > 60 ? 60 : C.pctd;
        for (int i = 0; i < npct; i++) pct_points[i] = 1 + rnd(&r_sched) % C.pctlen;
        for (int i = 0; i < npct; i++) for (int j = i + 1; j < npct; j++)
            if (pct_points[j] < pct_points[i]) { uint64_t t = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = t; }
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_cpu_limit;
    sigaction(SIGPROF, &sa, 0);
    struct itimerval it = {{0, 0}, {C.cpu_ms / 1000, (C.cpu_ms % 1000) * 1000}};
    setitimer(ITIMER_PROF, &it, 0);
    simclock = 1000000000ull; step = 0; run_since = 0; idle_yields = 0; hold = 0; npaused = 0;
    nthr = 1; me = 0; cur = 0;
    memset(&T[0], 0, sizeof T[0]);
    T[0].state = T_RUN; T[0].prio = (1ull << 33) + (rnd(&r_sched) >> 16);
    active = 1;
    plan_next();
    return 0;
}
EXPORT void avsim_stop(void) {
    if (!active) return;
    active = 0;
    S->steps = step; S->simtime = simclock - 1000000000ull; S->nthreads = nthr; S->status = ST_DONE;
    struct itimerval it = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &it, 0);
}
EXPORT void avsim_arm(int v) { armed = v; }
EXPORT uint64_t avsim_step(void) { return step; }
EXPORT int avsim_tid(void) { return me; }
EXPORT void avsim_point(void) { if (on()) tick(); }
EXPORT void avsim_sleep(uint64_t ns) { if (on()) { tick(); sim_sleep(simclock + ns); } }
EXPORT uint64_t avsim_time(void) { return simclock; }

static void at_end(void) {
    // the process is ending normally (main returned or exit() was called)
    if (active) { active = 0; S->steps = step; S->simtime = simclock - 1000000000ull; S->nthreads = nthr; S->status = ST_DONE; }
}
__attribute__((constructor)) static void boot(void) {
    const char *c = getenv("AVSIM_CFG");
    if (c && *c) {
        char *copy = strdup(c);
        unsetenv("AVSIM_CFG"); unsetenv("LD_PRELOAD");
        avsim_start(copy);
        (void)at_end; (void)real_clock; (void)rng_s;
    }
}
__attribute__((destructor)) static void fini(void) { at_end(); }

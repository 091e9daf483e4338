// The scheduler, behind the callbacks that -Zsanitizer=thread puts at every memory access.
//
// One thread runs at a time. At every atomic operation, and at every blocking or yielding system
// call, the running thread asks which thread goes on; the answers are the schedule. Plain accesses
// are no scheduling points: two of them that are unordered are a data race, which vector clocks
// find in any interleaving that performs both, and that is reported as a failure of its own.
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned __int128 u128;
typedef uintptr_t up;

#define T 4
#define MAXP 4096
#define HORIZON 20000

// What one execution did, in memory shared with the explorer.
struct point { u8 n, chosen, forced; };
struct trace {
    u32 len, steps, accesses, verdict; // 0 running, 1 done, 2 failed, 3 the engine failed
    u32 prefix_len;
    u8 prefix[MAXP];
    struct point p[MAXP];
    char text[2048];
};
enum { DONE = 1, FAILED = 2, ENGINE = 3 };

static struct trace *tr;
static int active, nthreads, cur;
static __thread int me = -1;
static __thread int inside;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

extern char __executable_start;
static void verdict(u32 v, const char *fmt, ...) {
    if (tr && tr->verdict == 0) {
        va_list a;
        va_start(a, fmt);
        vsnprintf(tr->text, sizeof tr->text, fmt, a);
        va_end(a);
        tr->verdict = v;
    }
    raw(SYS_exit_group, v == DONE ? 0 : 10 + v, 0, 0, 0, 0, 0);
}

// ---------------------------------------------------------------- threads

enum { RUN, BLOCKED, GONE };
static struct {
    int state;
    u32 go; // set when it is this thread's turn
    u32 *futex;
    int timed, timed_out;
    // it does the same again and again and changes nothing: it goes on when the others cannot,
    // or when one of them has written something
    int polling;
    u32 same, idle;
    up last;
    u32 vc[T];
    u32 acq[T]; // what its relaxed loads saw
    u32 rel[T]; // what its last release fence covers
} th[T];

static void go(int t) {
    __atomic_store_n(&th[t].go, 1, __ATOMIC_SEQ_CST);
    raw(SYS_futex, (long)&th[t].go, 1 /* WAKE */, 1, 0, 0, 0);
}
static void wait_turn(int t) {
    while (!__atomic_load_n(&th[t].go, __ATOMIC_SEQ_CST))
        raw(SYS_futex, (long)&th[t].go, 0 /* WAIT */, 0, 0, 0, 0);
    __atomic_store_n(&th[t].go, 0, __ATOMIC_SEQ_CST);
}

static int pick(int *alt, int n, int forced) {
    if (n == 1)
        return alt[0];
    if (tr->len >= MAXP)
        verdict(FAILED, "no end after %u scheduling points: the threads run forever", tr->len);
    u32 i = tr->len++;
    u32 c = i < tr->prefix_len ? tr->prefix[i] : 0;
    if (c >= (u32)n)
        verdict(ENGINE, "the replay diverges at point %u: %u of %d", i, c, n);
    tr->p[i].n = n;
    tr->p[i].chosen = c;
    tr->p[i].forced = forced;
    return alt[c];
}

// The running thread stops here unless it is chosen. forced: it cannot go on itself.
static void point(int forced) {
    int alt[T], n = 0;
    if (++tr->steps > HORIZON)
        verdict(FAILED, "no end after %u steps: the threads run forever", tr->steps);
    if (th[me].polling)
        forced = 1;
    if (!forced)
        alt[n++] = me;
    for (int i = 0; i < nthreads; i++)
        if (i != me && th[i].state == RUN && !th[i].polling)
            alt[n++] = i;
    // those that poll take turns
    for (int d = 1; n == 0 && d <= nthreads; d++) {
        int i = (me + d) % nthreads;
        if (th[i].state == RUN)
            alt[n++] = i;
    }
    if (n == 0) {
        // only waits that end by themselves can go on
        for (int i = 0; i < nthreads; i++)
            if (th[i].state == BLOCKED && th[i].timed) {
                th[i].state = RUN;
                th[i].timed_out = 1;
                alt[n++] = i;
                break;
            }
    }
    if (n == 0) {
        int all = 1;
        for (int i = 0; i < nthreads; i++)
            all &= th[i].state == GONE;
        if (all) {
            go(T - 1); // the starter
            return;
        }
        verdict(FAILED, "deadlock: every thread that is left waits");
    }
    int next = pick(alt, n, forced);
    if (next == me)
        return;
    int self = me;
    cur = next;
    go(next);
    if (th[self].state != GONE)
        wait_turn(self);
}

// After an atomic operation: did it change anything?
static void effect(up a, int changed) {
    if (changed) {
        for (int i = 0; i < nthreads; i++)
            th[i].polling = th[i].same = th[i].idle = 0;
        th[me].last = 0;
        return;
    }
    th[me].same = th[me].last == a ? th[me].same + 1 : 1;
    th[me].last = a;
    if (th[me].same >= 3 || ++th[me].idle >= 24)
        th[me].polling = 1;
}

#define ON (active && me >= 0 && !inside)

// ---------------------------------------------------------------- clocks and races

enum { PR, PW, AR, AW };
static const char *kind_name[] = {"read", "write", "atomic read", "atomic write"};
struct cell {
    u16 clk[4][T];
    u32 pc[T];
    u32 freed;
};
struct sync {
    up addr;
    u32 vc[T];
};
#define NB (1u << 14) // blocks of 64 bytes
#define NS (1u << 14)
static up *blocks;
static struct cell *cells;
static struct sync *syncs;
static u32 nblocks;

static struct cell *cell(up a) {
    up want = a >> 6;
    u32 h = (u32)(((want >> 6) * 0x9E3779B97F4A7C15ull) >> 50);
    // neighbours stay neighbours, for the sake of the page tables
    h = (h & ~63u) | (want & 63);
    for (;; h = (h + 1) & (NB - 1)) {
        if (blocks[h] == want)
            return &cells[h * 64 + (a & 63)];
        if (!blocks[h]) {
            if (++nblocks > NB * 3 / 4)
                verdict(ENGINE, "too many addresses");
            blocks[h] = want;
            return &cells[h * 64 + (a & 63)];
        }
    }
}
static struct sync *sync_of(up a) {
    u32 h = (u32)((a * 0x9E3779B97F4A7C15ull) >> 50);
    for (u32 n = 0; n < NS; n++, h = (h + 1) & (NS - 1)) {
        if (syncs[h].addr == a || !syncs[h].addr) {
            syncs[h].addr = a;
            return &syncs[h];
        }
    }
    verdict(ENGINE, "too many atomics");
    return 0;
}

static const u8 against[4] = {
    [PR] = 1 << PW | 1 << AW,
    [PW] = 1 << PR | 1 << PW | 1 << AR | 1 << AW,
    [AR] = 1 << PW,
    [AW] = 1 << PR | 1 << PW,
};
static void access_(up a, up size, int kind, void *pc) {
    tr->accesses++;
    for (up b = a; b < a + size; b++) {
        struct cell *c = cell(b);
        if (c->freed)
            verdict(FAILED, "use after free: %s of freed memory at @%lx", kind_name[kind], (long)((up)pc - (up)&__executable_start));
        for (int t = 0; t < nthreads; t++) {
            if (t == me)
                continue;
            for (int k = 0; k < 4; k++)
                if (against[kind] >> k & 1 && c->clk[k][t] > th[me].vc[t])
                    verdict(FAILED, "data race: %s of %lu bytes by thread %d at @%lx, unordered with the %s by thread %d at @%x",
                            kind_name[kind], (unsigned long)size, me, (long)((up)pc - (up)&__executable_start), kind_name[k], t, c->pc[t]);
        }
        c->clk[kind][me] = (u16)th[me].vc[me];
        c->pc[me] = (u32)((up)pc - (up)&__executable_start);
    }
}
static __thread up stack_lo, stack_hi;
static void plain(up a, up size, int kind, void *pc) {
    if (a >= stack_lo && a < stack_hi)
        return; // the thread's own stack
    if (ON && size) {
        inside = 1;
        access_(a, size, kind, pc);
        inside = 0;
    }
}
static void join(u32 *a, const u32 *b) {
    for (int i = 0; i < T; i++)
        if (b[i] > a[i])
            a[i] = b[i];
}
static int is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static int is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

// The bookkeeping of one atomic operation. w: it writes. rmw: it also reads.
static void atom(up a, up size, int mo, int reads, int writes, void *pc) {
    access_(a, size, writes ? AW : AR, pc);
    struct sync *s = sync_of(a);
    if (reads) {
        join(th[me].acq, s->vc);
        if (is_acq(mo))
            join(th[me].vc, s->vc);
    }
    if (writes) {
        if (!reads)
            memset(s->vc, 0, sizeof s->vc);
        join(s->vc, is_rel(mo) ? th[me].vc : th[me].rel);
        th[me].vc[me]++;
    }
}
static void fence(int mo) {
    if (is_acq(mo))
        join(th[me].vc, th[me].acq);
    if (is_rel(mo))
        memcpy(th[me].rel, th[me].vc, sizeof th[me].rel);
    th[me].vc[me]++;
}

// ---------------------------------------------------------------- what the compiler calls

#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **a, void *v) { (void)v; plain((up)a, 8, PW, PC); }
void __tsan_vptr_read(void **a) { plain((up)a, 8, PR, PC); }
#define RW(n) \
    void __tsan_read##n(void *a) { plain((up)a, n, PR, PC); } \
    void __tsan_write##n(void *a) { plain((up)a, n, PW, PC); } \
    void __tsan_unaligned_read##n(void *a) { plain((up)a, n, PR, PC); } \
    void __tsan_unaligned_write##n(void *a) { plain((up)a, n, PW, PC); } \
    void __tsan_read_write##n(void *a) { plain((up)a, n, PR, PC); plain((up)a, n, PW, PC); } \
    void __tsan_unaligned_read_write##n(void *a) { plain((up)a, n, PR, PC); plain((up)a, n, PW, PC); } \
    void __tsan_volatile_read##n(void *a) { plain((up)a, n, PR, PC); } \
    void __tsan_volatile_write##n(void *a) { plain((up)a, n, PW, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, up n) { plain((up)a, n, PR, PC); }
void __tsan_write_range(void *a, up n) { plain((up)a, n, PW, PC); }
void *__tsan_memcpy(void *d, const void *s, up n) {
    plain((up)s, n, PR, PC);
    plain((up)d, n, PW, PC);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, up n) {
    plain((up)s, n, PR, PC);
    plain((up)d, n, PW, PC);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, up n) {
    plain((up)d, n, PW, PC);
    return memset(d, c, n);
}

#define BEFORE(sz, mo, r, w) \
    int on = ON; \
    if (on) { \
        inside = 1; \
        point(0); \
        (void)0; \
    }
#define AFTER(changed) \
    if (on) { \
        effect((up)p, changed); \
        inside = 0; \
    }
#define NOTE(sz, mo, r, w) if (on) atom((up)p, sz, mo, r, w, PC)
#define RMW(b, ty, name, expr) \
    ty __tsan_atomic##b##_##name(volatile ty *p, ty v, int mo) { \
        BEFORE(b / 8, mo, 1, 1); \
        NOTE(b / 8, mo, 1, 1); \
        ty old; \
        ty want; \
        do { \
            old = *p; \
            want = (expr); \
        } while (!CAS(p, old, want)); \
        AFTER(want != old); \
        return old; \
    }
#define CAS(p, o, n) __sync_bool_compare_and_swap(p, o, n)
#define ATOMICS(b, ty) \
    ty __tsan_atomic##b##_load(const volatile ty *p, int mo) { \
        BEFORE(b / 8, mo, 1, 0); \
        NOTE(b / 8, mo, 1, 0); \
        ty v = __atomic_load_n(p, __ATOMIC_SEQ_CST); \
        AFTER(0); \
        return v; \
    } \
    void __tsan_atomic##b##_store(volatile ty *p, ty v, int mo) { \
        BEFORE(b / 8, mo, 0, 1); \
        NOTE(b / 8, mo, 0, 1); \
        ty old = *p; \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST); \
        AFTER(v != old); \
    } \
    RMW(b, ty, exchange, v) \
    RMW(b, ty, fetch_add, old + v) \
    RMW(b, ty, fetch_sub, old - v) \
    RMW(b, ty, fetch_and, old & v) \
    RMW(b, ty, fetch_or, old | v) \
    RMW(b, ty, fetch_xor, old ^ v) \
    RMW(b, ty, fetch_nand, ~(old & v)) \
    ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p, ty want, ty v, int mo, int fmo) { \
        BEFORE(b / 8, mo, 1, 1); \
        ty old = *p; \
        if (old == want) { \
            NOTE(b / 8, mo, 1, 1); \
            ty seen = __sync_val_compare_and_swap(p, want, v); \
            if (seen != old && on) \
                verdict(ENGINE, "a thread ran out of turn"); \
            old = seen; \
        } else { \
            NOTE(b / 8, fmo, 1, 0); \
        } \
        AFTER(old == want && v != want); \
        return old; \
    } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *want, ty v, int mo, int fmo) { \
        ty old = __tsan_atomic##b##_compare_exchange_val(p, *want, v, mo, fmo); \
        int ok = old == *want; \
        *want = old; \
        return ok; \
    } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *want, ty v, int mo, int fmo) { \
        return __tsan_atomic##b##_compare_exchange_strong(p, want, v, mo, fmo); \
    }
ATOMICS(8, u8)
ATOMICS(16, u16)
ATOMICS(32, u32)
ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo) {
    if (ON) {
        inside = 1;
        point(0);
        fence(mo);
        inside = 0;
    }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---------------------------------------------------------------- blocking system calls

int sched_yield(void) {
    if (ON) {
        inside = 1;
        th[me].polling = 1;
        point(0);
        inside = 0;
        return 0;
    }
    return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *r, struct timespec *m) {
    if (ON)
        return sched_yield();
    return (int)-raw(SYS_clock_nanosleep, c, f, (long)r, (long)m, 0, 0);
}
int nanosleep(const struct timespec *r, struct timespec *m) {
    if (ON)
        return sched_yield();
    long x = raw(SYS_nanosleep, (long)r, (long)m, 0, 0, 0, 0);
    if (x < 0) {
        errno = (int)-x;
        return -1;
    }
    return 0;
}
long syscall(long n, ...) {
    long a[6];
    va_list v;
    va_start(v, n);
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(v, long);
    va_end(v);
    long r;
    if (n == SYS_futex && ON) {
        int op = (int)a[1] & 0x7f;
        u32 *f = (u32 *)a[0];
        inside = 1;
        if (op == 0 || op == 9) {
            point(0);
            if (__atomic_load_n(f, __ATOMIC_SEQ_CST) != (u32)a[2]) {
                r = -EAGAIN;
            } else {
                th[me].state = BLOCKED;
                th[me].polling = th[me].same = th[me].idle = 0;
                th[me].futex = f;
                th[me].timed = a[3] != 0;
                th[me].timed_out = 0;
                point(1);
                r = th[me].timed_out ? -ETIMEDOUT : 0;
            }
        } else if (op == 1 || op == 10) {
            r = 0;
            for (int i = 0; i < nthreads && r < a[2]; i++)
                if (th[i].state == BLOCKED && th[i].futex == f) {
                    th[i].state = RUN;
                    r++;
                }
            point(0);
        } else {
            verdict(ENGINE, "futex operation %d", op);
            r = 0;
        }
        inside = 0;
    } else {
        r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    }
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ---------------------------------------------------------------- memory

// Memory is not used again within an execution, so that every use after free shows.
static __thread char *heap, *heap_end;
void *rt_alloc(up size, up align) {
    char *p = (char *)(((up)heap + align - 1) & ~(align - 1));
    if (!heap || p + size > heap_end) {
        up n = size + align > (1 << 24) ? size + align : 1 << 24;
        heap = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (heap == MAP_FAILED)
            verdict(ENGINE, "out of memory");
        heap_end = heap + n;
        p = (char *)(((up)heap + align - 1) & ~(align - 1));
    }
    heap = p + size;
    return p;
}
void rt_free(void *p, up size) {
    if (ON && size) {
        inside = 1;
        access_((up)p, size, PW, PC);
        for (up b = (up)p; b < (up)p + size; b++)
            cell(b)->freed = 1;
        inside = 0;
    }
}

// ---------------------------------------------------------------- one execution

static void (*body)(up);
static void *start(void *x) {
    int t = (int)(up)x;
    wait_turn(t);
    pthread_attr_t at;
    void *lo;
    size_t n;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &n);
    pthread_attr_destroy(&at);
    stack_lo = (up)lo;
    stack_hi = (up)__builtin_frame_address(0);
    me = t;
    body((up)t);
    inside = 1;
    th[t].state = GONE;
    point(1);
    me = -1;
    inside = 0;
    return 0;
}
static void on_alarm(int s) {
    (void)s;
    verdict(FAILED, "a thread waits forever outside of the scheduler's sight");
}
static void on_crash(int s) { verdict(FAILED, "the process is ended by signal %d", s); }

// Only for the process of one execution: all threads from start to end under the scheduler.
void rt_run(struct trace *t, up n, void (*f)(up), u32 limit) {
    tr = t;
    nthreads = (int)n;
    body = f;
    blocks = mmap(0, sizeof(up) * NB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cells = mmap(0, sizeof(struct cell) * 64 * NB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    syncs = mmap(0, sizeof(struct sync) * NS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    signal(SIGALRM, on_alarm);
    signal(SIGSEGV, on_crash);
    signal(SIGBUS, on_crash);
    signal(SIGILL, on_crash);
    signal(SIGABRT, on_crash);
    alarm(limit);
    memset(th, 0, sizeof th);
    pthread_t p[T];
    for (int i = 0; i < nthreads; i++) {
        th[i].vc[i] = 1;
        pthread_create(&p[i], 0, start, (void *)(up)i);
    }
    active = 1;
    // who starts is the first choice
    int alt[T];
    for (int i = 0; i < nthreads; i++)
        alt[i] = i;
    cur = pick(alt, nthreads, 1);
    go(cur);
    wait_turn(T - 1);
    active = 0;
    for (int i = 0; i < nthreads; i++)
        pthread_join(p[i], 0);
    alarm(limit);
}
void rt_done(void) { verdict(DONE, "%s", ""); }
void rt_fail(const char *s) { verdict(FAILED, "%s", s); }

// A worker and its executions stay on one processor: the threads take turns anyway.
void rt_pin(up i) {
    u64 set[16] = {0}, pin[16] = {0};
    if (raw(SYS_sched_getaffinity, 0, sizeof set, (long)set, 0, 0, 0) <= 0)
        return;
    up have = 0;
    for (int b = 0; b < 1024; b++)
        have += set[b / 64] >> b % 64 & 1;
    i %= have;
    for (int b = 0; b < 1024; b++)
        if (set[b / 64] >> b % 64 & 1 && i-- == 0)
            pin[b / 64] |= 1ull << b % 64;
    raw(SYS_sched_setaffinity, 0, sizeof pin, (long)pin, 0, 0, 0);
}

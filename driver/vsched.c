/* Controlled scheduler: threads of the process run one at a time; every instrumented memory access
 * (the sources of the accelerators are compiled with -fsanitize=thread and linked to the entry points
 * here instead of the sanitizer runtime) and every pthread call is a scheduling point.
 * Pthread mutexes, condition variables and joins are implemented here.
 *
 * Detects: deadlock (exit 90), no progress (exit 91), bad use of pthread functions (exit 92).
 * Counts:  accesses to released memory and to the finished stack frames of the calling thread (vs_late). */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>

#define MAXTH 512
enum { FREE = 0, RUN, MUTEX, COND, TCOND, JOIN, DONE };
typedef struct {
    int st, prio, slow, starve, joined, detached, fastrun, timedout, woken;
    void *obj, *mtx;
    int target;
    pthread_t tid;
    sem_t sem;
    void *(*fn)(void *);
    void *arg, *res;
} th_t;
static th_t th[MAXTH];
static int nth, cur;
static __thread int me = -1;
static int active;                      // scheduling on
static unsigned long long rng = 88172645463325252ULL;
static int mode, pswitch, nchg, spur, spurleft;
static long step, chg[16], frz[2], idle, limit = 3000000;
static int nfrz, born, frzborn;
static int lowprio;
static long order;
long vs_late, vs_steps;
static char *main_base, *main_live;     // frames of thread 0 below main_live are finished

static unsigned rnd(unsigned n)
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return n ? (unsigned)((rng >> 11) % n) : 0;
}
static void die(int rc, const char *what)
{
    fprintf(stderr, "vsched: %s at step %ld\n", what, step);
    for (int i = 0; i < nth; i++) fprintf(stderr, "  thread %d state %d obj %p\n", i, th[i].st, th[i].obj);
    fflush(stderr);
    _exit(rc);
}
/* ---- mutex table ---- */
#define MT 1024
static struct { void *m; int owner; } mt[MT];
static int *owner(void *m)
{
    unsigned h = ((uintptr_t)m >> 3) % MT;
    for (int i = 0; i < MT; i++, h = (h + 1) % MT) {
        if (mt[h].m == m) return &mt[h].owner;
        if (!mt[h].m) { mt[h].m = m; mt[h].owner = -1; return &mt[h].owner; }
    }
    die(92, "too many mutexes");
    return 0;
}
static void dead_check(const void *p);

static int ready(int i)
{
    if (th[i].st == RUN) return 1;
    if (th[i].st == MUTEX) return *owner(th[i].obj) < 0;
    if (th[i].st == JOIN) return th[th[i].target].st == DONE;
    return 0;
}
/* choose the next thread to run */
static int pick(int self)
{
    int best = -1, n = 0, cand[MAXTH];
    // spurious wake up
    if (spurleft > 0 && rnd(60) == 0) {
        for (int i = 0; i < nth; i++)
            if (th[i].st == COND) { th[i].st = MUTEX; th[i].obj = th[i].mtx; th[i].woken = 1; spurleft--; break; }
    }
    if (idle > 60) for (int i = 0; i < nth; i++) th[i].starve = 0;
    for (int i = 0; i < nth; i++)
        if (ready(i) && !th[i].slow && !th[i].starve) cand[n++] = i;
    if (n == 0) {
        for (int i = 0; i < nth; i++) {
            if (th[i].slow) idle++;
            th[i].slow = 0;
            if (ready(i) && !th[i].starve) cand[n++] = i;
        }
    }
    if (n == 0 || (mode == 0 && rnd(40) == 0)) {
        // time out of some timed wait
        int t[MAXTH], nt = 0;
        for (int i = 0; i < nth; i++) if (th[i].st == TCOND) t[nt++] = i;
        if (nt) {
            static int rr;
            int i = mode == 0 ? t[rnd(nt)] : t[rr++ % nt];
            th[i].st = MUTEX; th[i].obj = th[i].mtx; th[i].timedout = 1;
            if (n == 0 && ++idle > 5000) die(91, "no progress");
            if (ready(i)) cand[n++] = i;
        } else if (n == 0) {
            for (int i = 0; i < nth; i++) {
                th[i].starve = 0;
                if (ready(i)) cand[n++] = i;
            }
            // every untimed waiter may still wake up spuriously, progress must not depend on it
            if (n == 0) die(90, "deadlock");
        }
    }
    if (n == 0) return pick(self);
    if (mode == 0) {
        if (self >= 0 && th[self].st == RUN && !th[self].slow && !th[self].starve && rnd(pswitch) != 0) return self;
        return cand[rnd(n)];
    }
    for (int k = 0; k < n; k++)
        if (best < 0 || th[cand[k]].prio > th[best].prio) best = cand[k];
    return best;
}
static void arrive(int i)
{
    if (th[i].st == MUTEX) { *owner(th[i].obj) = i; }
    if (th[i].st != DONE) th[i].st = RUN;
}
static void switch_to(int n, int self)
{
    arrive(n);
    cur = n;
    if (n == self) return;
    th[self].fastrun = 0;
    int done = th[self].st == DONE;
    sem_post(&th[n].sem);
    if (!done) while (sem_wait(&th[self].sem) != 0);
}
static void point(void)
{
    if (!active || me < 0) return;
    if (++step > limit) die(91, "no end");
    vs_steps++;
    int self = me;
    for (int i = 0; i < nchg; i++)
        if (chg[i] == step) th[self].prio = --lowprio;
    for (int i = 0; i < nfrz; i++)
        if (frz[i] == step) { th[self].starve = 1; idle = 0; }
    if (++th[self].fastrun > 1500) { th[self].fastrun = 0; th[self].slow = 1; th[self].prio = --lowprio; }
    switch_to(pick(self), self);
}
static void block(void)
{
    if (++step > limit) die(91, "no end");
    int self = me;
    th[self].fastrun = 0;
    switch_to(pick(self), self);
}
/* ---- control by the driver ---- */
void vs_reset(long seed, const char *how)
{
    // how: r<p> random with switching probability 1/p; p<n> priorities with n change points in first <len> steps;
    //      f<k>[,k2] random, the thread that runs at step k is frozen for as long as others make progress;
    //      d<n> random, the n'th thread created is; trailing s: spurious wake ups
    if (me < 0) {
        me = 0; nth = 1; th[0].st = RUN; sem_init(&th[0].sem, 0, 0); th[0].tid = pthread_self();
        main_base = (char *)__builtin_frame_address(0) + 4096;
    }
    rng = 88172645463325252ULL + 2654435761ULL * (unsigned long long)seed;
    for (int i = 0; i < 8; i++) rnd(2);
    srand48(seed);
    step = 0; idle = 0; vs_late = 0; nchg = nfrz = 0; lowprio = 0; born = 0; frzborn = 0;
    spurleft = strchr(how, 's') ? 2 : 0;
    long a = atol(how + 1);
    const char *c = strchr(how, ',');
    long b = c ? atol(c + 1) : 400;
    if (*how == 'r') { mode = 0; pswitch = a > 0 ? a : 1; }
    else if (*how == 'p') { mode = 1; nchg = a > 16 ? 16 : a; for (int i = 0; i < nchg; i++) chg[i] = 1 + rnd(b); }
    else {
        mode = 0; pswitch = 1 + rnd(20);
        if (*how == 'd') frzborn = a;
        else { nfrz = 1; frz[0] = a; if (c) { nfrz = 2; frz[1] = b; } }
    }
    for (int i = 0; i < nth; i++) { th[i].prio = 1 + rnd(1000); th[i].starve = th[i].slow = 0; }
    active = 1;
}
int vs_live(void)
{
    int n = 0;
    for (int i = 1; i < nth; i++) n += th[i].st != DONE;
    return n;
}
/* the calling thread is outside of the library: let the others run until all wait */
void vs_quiesce(void *frame)
{
    if (me < 0 || !active) return;
    main_live = frame;
    // last priority, every other thread polls a few times
    int m = mode, p = th[0].prio;
    mode = 1; th[0].prio = -1000000;
    for (int k = 0; k < 40 * nth; k++) {
        int n = 0;
        for (int i = 1; i < nth; i++) { th[i].slow = th[i].starve = 0; n += ready(i) || th[i].st == TCOND; }
        if (!n) break;
        int any = 0;
        for (int i = 1; i < nth; i++) any += ready(i);
        if (!any) {
            static int rr;
            for (int t = 0; t < nth; t++) {
                int i = 1 + (rr + t) % (nth > 1 ? nth - 1 : 1);
                if (th[i].st == TCOND) { th[i].st = MUTEX; th[i].obj = th[i].mtx; th[i].timedout = 1; rr++; break; }
            }
        }
        point();
    }
    mode = m; th[0].prio = p;
    main_live = 0;
}
void vs_off(void) { active = 0; }

/* ---- memory ---- */
#define QN 256
static struct { char *p; size_t n; } q[QN];
static int nq;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
/* blocks allocated by the library and not freed */
#define NB 4096
static void *blk[NB];
static int nblk_;
int vs_inlib;                            // thread 0 is inside of the library
int vs_blocks(void) { return nblk_; }
void vs_forget(void) { nblk_ = 0; }
static void *born_(void *p)
{
    if (p && active && me >= 0 && (me > 0 || vs_inlib) && nblk_ < NB) blk[nblk_++] = p;
    return p;
}
void *__wrap_malloc(size_t n) { return born_(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t m) { return born_(__real_calloc(n, m)); }
#include <malloc.h>
void __wrap_free(void *p)
{
    if (p && active && me >= 0) {
        for (int i = nblk_ - 1; i >= 0; i--) if (blk[i] == p) { blk[i] = blk[--nblk_]; break; }
        size_t n = malloc_usable_size(p);
        if (nq < QN && n <= 1 << 16) {
            q[nq].p = p; q[nq].n = n; nq++;
            return;
        }
    }
    __real_free(p);
}
void vs_drain(void)
{
    for (int i = 0; i < nq; i++) __real_free(q[i].p);
    nq = 0;
}
static void dead_check(const void *a)
{
    const char *p = a;
    for (int i = nq - 1; i >= 0; i--)
        if (p >= q[i].p && p < q[i].p + q[i].n) { vs_late++; return; }
    if (me != 0 && main_live && p < main_live && p > main_live - (1 << 17)) vs_late++;
}
static inline void acc(const void *p) { if (active && me >= 0) { dead_check(p); point(); } }

/* ---- instrumentation entry points ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) {}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { acc(p); } void __tsan_write##n(void *p) { acc(p); } \
    void __tsan_unaligned_read##n(void *p) { acc(p); } void __tsan_unaligned_write##n(void *p) { acc(p); } \
    void __tsan_volatile_read##n(void *p) { acc(p); } void __tsan_volatile_write##n(void *p) { acc(p); } \
    void __tsan_read##n##_pc(void *p, void *c) { acc(p); } void __tsan_write##n##_pc(void *p, void *c) { acc(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { acc(p); }
void __tsan_write_range(void *p, long n) { acc(p); }
void __tsan_vptr_update(void **p, void *v) { acc(p); }
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T *p, int o) { acc((void *)p); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##n##_store(volatile T *p, T v, int o) { acc((void *)p); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##n##_exchange(volatile T *p, T v, int o) { acc((void *)p); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int o) { acc((void *)p); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int o) { acc((void *)p); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int o) { acc((void *)p); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int o) { acc((void *)p); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int o) { acc((void *)p); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int o) { acc((void *)p); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) \
    { acc((void *)p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) \
    { acc((void *)p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) \
    { acc((void *)p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
void __tsan_atomic_thread_fence(int o) { __atomic_thread_fence(5); point(); }
void __tsan_atomic_signal_fence(int o) {}

/* ---- pthread functions ---- */
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_cond_destroy(pthread_cond_t *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __real_sched_yield(void);
int __real_usleep(useconds_t);
int __real_nanosleep(const struct timespec *, struct timespec *);
#define ON (active && me >= 0)

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    if (ON) { *owner(m) = -1; acc(m); return 0; }
    return __real_pthread_mutex_init(m, a);
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (ON) { acc(m); return 0; }
    return __real_pthread_mutex_destroy(m);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!ON) return __real_pthread_mutex_lock(m);
    acc(m);
    int *o = owner(m);
    if (*o == me) die(92, "mutex locked twice");
    if (*o < 0) { *o = me; return 0; }
    th[me].st = MUTEX; th[me].obj = m;
    block();
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!ON) return __real_pthread_mutex_trylock(m);
    acc(m);
    int *o = owner(m);
    if (*o >= 0) return EBUSY;
    *o = me;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!ON) return __real_pthread_mutex_unlock(m);
    int *o = owner(m);
    if (*o != me) die(92, "mutex of other thread unlocked");
    dead_check(m);
    *o = -1;
    point();
    return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
    if (ON) { acc(c); return 0; }
    return __real_pthread_cond_init(c, a);
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
    if (ON) { acc(c); return 0; }
    return __real_pthread_cond_destroy(c);
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int timed)
{
    dead_check(c);
    if (*owner(m) != me) die(92, "wait without mutex");
    *owner(m) = -1;
    th[me].st = timed ? TCOND : COND;
    th[me].obj = c; th[me].mtx = m; th[me].timedout = th[me].woken = 0;
    block();
    return th[me].timedout ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    return ON ? cwait(c, m, 0) : __real_pthread_cond_wait(c, m);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    return ON ? cwait(c, m, 1) : __real_pthread_cond_timedwait(c, m, t);
}
static void wake(pthread_cond_t *c, int all)
{
    acc(c);
    int w[MAXTH], n = 0;
    for (int i = 0; i < nth; i++)
        if ((th[i].st == COND || th[i].st == TCOND) && th[i].obj == (void *)c) w[n++] = i;
    while (n > 0) {
        int k = rnd(n), i = w[k];
        w[k] = w[--n];
        th[i].st = MUTEX; th[i].obj = th[i].mtx; idle = 0;
        if (!all) break;
    }
}
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
    if (!ON) return __real_pthread_cond_signal(c);
    wake(c, 0);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!ON) return __real_pthread_cond_broadcast(c);
    wake(c, 1);
    return 0;
}
static void *tramp(void *a)
{
    th_t *t = a;
    me = t - th;
    while (sem_wait(&t->sem) != 0);
    t->res = t->fn(t->arg);
    t->st = DONE;
    idle = 0;
    if (active) switch_to(pick(-1), me);
    return t->res;
}
int __wrap_pthread_create(pthread_t *tid, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    if (!ON) return __real_pthread_create(tid, a, fn, arg);
    dead_check(tid);
    int i;
    for (i = 1; i < nth && !(th[i].st == DONE && (th[i].joined || th[i].detached)); i++);
    if (i == nth) {
        if (nth == MAXTH) die(92, "too many threads");
        sem_init(&th[i].sem, 0, 0);
        nth++;
    }
    th_t *t = &th[i];
    t->fn = fn; t->arg = arg; t->joined = t->detached = t->slow = t->fastrun = 0;
    t->prio = 1 + rnd(1000);
    t->starve = ++born == frzborn;
    t->st = RUN;
    int rc = __real_pthread_create(&t->tid, a, tramp, t);
    if (rc) die(92, "thread not created");
    *tid = t->tid;
    point();
    return 0;
}
static int find(pthread_t t)
{
    for (int i = 0; i < nth; i++) if (th[i].st != FREE && !th[i].joined && pthread_equal(th[i].tid, t)) return i;
    return -1;
}
int __wrap_pthread_join(pthread_t t, void **r)
{
    if (!ON) return __real_pthread_join(t, r);
    point();
    int i = t ? find(t) : -1;
    if (i < 0 || th[i].joined || th[i].detached) die(92, "join of no thread");
    if (th[i].st != DONE) {
        th[me].st = JOIN; th[me].target = i; th[me].obj = 0;
        block();
    }
    th[i].joined = 1;
    return __real_pthread_join(t, r);
}
int __wrap_pthread_detach(pthread_t t)
{
    if (!ON) return __real_pthread_detach(t);
    int i = find(t);
    if (i < 0) die(92, "detach of no thread");
    th[i].detached = 1;
    __real_pthread_detach(t);
    point();
    return 0;
}
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *c) { point(); return 0; }
static int idler(void)
{
    th[me].slow = 1;
    if (++idle > 100000) die(91, "no progress");
    block();
    return 0;
}
int __wrap_sched_yield(void) { return ON ? idler() : __real_sched_yield(); }
int __wrap_pthread_yield(void) { return ON ? idler() : __real_sched_yield(); }
int __wrap_usleep(useconds_t u) { return ON ? idler() : __real_usleep(u); }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { return ON ? idler() : __real_nanosleep(a, b); }

#include "vsched.h"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace
{
enum State { RUNNABLE, B_MUTEX, B_COND, B_SLEEP, B_JOIN, B_ONCE, DONE };
const char *state_name[] = {"runnable", "mutex", "cond", "sleep", "join", "once", "done"};

struct VT
{
    int id;
    int go;
    State st;
    void *obj;
    int64_t deadline; // -1: none
    bool timed_out;
    long tid;
    pthread_t pt;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    int prio;
    int64_t starved_until;
    bool pending_preempt;
    bool interrupted; // a signal ended the blocking call
};

constexpr int MAXT = 512;
VT threads[MAXT];
int nthreads;
int nlive;
VT *cur;
bool active;
int paused;
bool deliver = false;
bool anywhere = false;
bool interrupt_blocked = false;
int spurious_left;
long preempts_raised;
vs_config cfg;
uint64_t rng_s;
int64_t vnow = 1000000LL * 1000000000LL;
long steps, switches, progress_steps, decisions, preempt_requests;
int64_t progress_vnow;
int budget;
int mem_budget;
uint64_t thash = 1469598103934665603ULL;
long pct_points[16];
int pct_next;
int pct_low = -1;
long stacks_live;
size_t bytes_live;

__attribute__((tls_model("initial-exec"))) __thread VT *self;

inline uint64_t rnd()
{
    rng_s += 0x9E3779B97F4A7C15ULL;
    uint64_t z = rng_s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }
inline void mix(uint64_t v)
{
    thash ^= v + 0x9E3779B97F4A7C15ULL + (thash << 6) + (thash >> 2);
    thash *= 1099511628211ULL;
}

long raw_futex(int *p, int op, int v) { 
    long ret;
    register long r10 __asm__("r10") = 0;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_futex), "D"(p), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
    return ret;
}
long raw_gettid()
{
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_gettid) : "rcx", "r11", "memory");
    return ret;
}

void raw_yield()
{
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_sched_yield) : "rcx", "r11", "memory");
}

void wait_go(VT *t)
{
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0)
        raw_futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
void give_go(VT *t)
{
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw_futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}

int draw_burst(int mean)
{
    if (mean <= 1) return 1;
    return 1 + (int)rnd(2 * mean - 1);
}
void new_budget()
{
    budget = draw_burst(cfg.burst);
    mem_budget = cfg.mem_burst > 0 ? draw_burst(cfg.mem_burst) : 0x7fffffff;
}

[[noreturn]] void hang(const char *why)
{
    active = false;
    if (vs_on_hang) vs_on_hang(why);
    _exit(99);
}

void expire()
{
    for (int i = 0; i < nthreads; ++i)
    {
        VT &t = threads[i];
        if ((t.st == B_COND || t.st == B_SLEEP || t.st == B_MUTEX) && t.deadline >= 0 && t.deadline <= vnow)
        {
            t.timed_out = true;
            t.st = RUNNABLE;
            t.obj = nullptr;
            t.deadline = -1;
        }
    }
}

void check_limits()
{
    if (steps - progress_steps > cfg.max_steps) hang("no progress: step limit");
    if ((double)(vnow - progress_vnow) > cfg.max_virtual_s * 1e9) hang("no progress: virtual time limit");
}

// pick the next thread to run; never returns null
VT *pick()
{
    VT *run[MAXT];
    for (;;)
    {
        expire();
        check_limits();
        int n = 0;
        for (int i = 0; i < nthreads; ++i)
            if (threads[i].st == RUNNABLE) run[n++] = &threads[i];
        if (n == 0)
        {
            int64_t best = -1;
            for (int i = 0; i < nthreads; ++i)
            {
                VT &t = threads[i];
                if ((t.st == B_COND || t.st == B_SLEEP || t.st == B_MUTEX) && t.deadline >= 0 && (best < 0 || t.deadline < best)) best = t.deadline;
            }
            if (best < 0) hang("deadlock: every thread is blocked");
            if (best > vnow) vnow = best;
            continue;
        }
        if (n == 1) return run[0];
        // unfair policies end when the program makes no progress for a while
        if (steps - progress_steps > 20000) return run[rnd(n)];
        switch (cfg.policy)
        {
        case VS_RR:
        {
            int c = cur ? cur->id : 0;
            for (int d = 1; d <= nthreads; ++d)
            {
                VT &t = threads[(c + d) % nthreads];
                if (t.st == RUNNABLE) return &t;
            }
            return run[0];
        }
        case VS_PCT:
        {
            // priority based; a runner that keeps spinning is demoted (see slow_point)
            VT *b = run[0];
            for (int i = 1; i < n; ++i)
                if (run[i]->prio > b->prio) b = run[i];
            return b;
        }
        case VS_STARVE:
        {
            VT *alt[MAXT];
            int m = 0;
            for (int i = 0; i < n; ++i)
                if (run[i]->starved_until <= decisions) alt[m++] = run[i];
            if (m == 0) return run[rnd(n)];
            VT *v = alt[rnd(m)];
            if (rnd(40) == 0) v->starved_until = decisions + 1 + (long)rnd(400);
            return v;
        }
        default:
            return run[rnd(n)];
        }
    }
}

void hand_to(VT *n)
{
    VT *me = self;
    if (n == me) return;
    ++switches;
    cur = n;
    give_go(n);
    wait_go(me);
}

// POSIX allows a wait for a condition variable to end without a notification
void spurious_wakeup()
{
    VT *w[MAXT];
    int n = 0;
    for (int i = 0; i < nthreads; ++i)
        if (threads[i].st == B_COND) w[n++] = &threads[i];
    if (n == 0) return;
    --spurious_left;
    VT *t = w[rnd(n)];
    t->st = RUNNABLE;
    t->obj = nullptr;
    t->deadline = -1;
}

void decide()
{
    ++decisions;
    if (cfg.jump_pm && (int)rnd(1000) < cfg.jump_pm) vnow += (int64_t)rnd(cfg.jump_max_us + 1) * 1000;
    if (spurious_left > 0 && rnd(60) == 0) spurious_wakeup();
    VT *n = pick();
    mix((uint64_t)n->id);
    new_budget();
    if (n != self) hand_to(n);
}

long burst_run;
VT *burst_owner;

void slow_point()
{
    check_limits();
    if (cfg.policy == VS_PCT)
    {
        bool change = false;
        while (pct_next < cfg.pct_depth && pct_next < 16 && steps >= pct_points[pct_next])
        {
            ++pct_next;
            change = true;
        }
        if (burst_owner != self)
        {
            burst_owner = self;
            burst_run = steps;
        }
        if (change || steps - burst_run > 600)
        {
            self->prio = pct_low--;
            burst_run = steps;
        }
    }
    decide();
}

// raises the pending scheduling signal at a synchronisation point or memory access of the code under test
__attribute__((noinline)) void raise_preempt()
{
    self->pending_preempt = false;
    ++preempts_raised;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_tgkill), "D"((long)getpid()), "S"(self->tid), "d"((long)SIGUSR1) : "rcx", "r11", "memory");
}

inline void point()
{
    if (!active || self == nullptr || self != cur) return;
    ++steps;
    vnow += cfg.step_cost_ns;
    if (paused) return;
    if (anywhere && self->pending_preempt) raise_preempt();
    if (--budget > 0) return;
    slow_point();
}

inline void mem_point()
{
    if (--mem_budget > 0) return;
    if (!active || self == nullptr || self != cur || paused)
    {
        mem_budget = 1000;
        return;
    }
    ++steps;
    vnow += cfg.step_cost_ns;
    slow_point();
    if (anywhere && self->pending_preempt) raise_preempt();
}

// the running thread blocks; returns when it is scheduled again
void block(State st, void *obj, int64_t deadline)
{
    VT *me = self;
    me->st = st;
    me->obj = obj;
    me->deadline = deadline;
    me->timed_out = false;
    me->interrupted = false;
    ++steps;
    ++decisions;
    VT *n = pick();
    mix((uint64_t)n->id + 1000);
    new_budget();
    if (n != me) hand_to(n);
    me->obj = nullptr;
    me->deadline = -1;
}

void wake_obj(void *obj, State st)
{
    for (int i = 0; i < nthreads; ++i)
        if (threads[i].st == st && threads[i].obj == obj)
        {
            threads[i].st = RUNNABLE;
            threads[i].obj = nullptr;
            threads[i].deadline = -1;
        }
}

template <typename F>
F real(const char *name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

inline bool ctl() { return active && self != nullptr && self == cur; }

// ---- mutex: state is kept in the pthread_mutex_t itself
int m_lock(pthread_mutex_t *m, bool blocking)
{
    int me = self->id + 1;
    for (;;)
    {
        if (m->__data.__owner == 0)
        {
            m->__data.__owner = me;
            m->__data.__count = 1;
            return 0;
        }
        if (m->__data.__owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
        {
            ++m->__data.__count;
            return 0;
        }
        if (!blocking) return EBUSY;
        block(B_MUTEX, m, -1);
    }
}
int m_unlock(pthread_mutex_t *m)
{
    int me = self->id + 1;
    if (m->__data.__owner != me) return EPERM;
    if (--m->__data.__count == 0)
    {
        m->__data.__owner = 0;
        wake_obj(m, B_MUTEX);
    }
    return 0;
}
void *tramp(void *p)
{
    VT *t = (VT *)p;
    self = t;
    t->tid = raw_gettid();
    wait_go(t);
    t->ret = t->fn(t->arg);
    // still holding the baton
    t->st = DONE;
    --nlive;
    wake_obj(t, B_JOIN);
    ++decisions;
    VT *n = pick();
    mix((uint64_t)n->id + 2000);
    new_budget();
    self = nullptr;
    cur = n;
    give_go(n);
    return t->ret;
}
int64_t ts_ns(const struct timespec *ts) { return (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec; }
constexpr int64_t SYS_EPOCH = 1700000000LL * 1000000000LL;
} // namespace

void (*vs_on_hang)(const char *why) = nullptr;

extern "C" {

bool vs_active() { return active; }
int64_t vs_now_ns() { return vnow; }
void vs_spend(int64_t ns) { vnow += ns; }
uint64_t vs_trace_hash() { return thash; }
long vs_steps() { return steps; }
long vs_switches() { return switches; }
int vs_self() { return self ? self->id : -1; }
void vs_point()
{
    if (!ctl()) return;
    point();
}
void vs_progress()
{
    progress_steps = steps;
    progress_vnow = vnow;
}
void vs_pause(bool on) { paused += on ? 1 : -1; }
int vs_thread_count() { return nlive; }
int vs_stacks_live() { return (int)stacks_live; }
size_t vs_bytes_live() { return bytes_live; }
long vs_preempt_requests() { return preempt_requests; }
bool vs_take_pending_preempt()
{
    if (!ctl()) return false;
    bool r = self->pending_preempt;
    self->pending_preempt = false;
    return r;
}
void vs_deliver_preempt(bool on) { deliver = on; }
void vs_deliver_anywhere(bool on) { anywhere = on; }
void vs_interrupt_blocked(bool on) { interrupt_blocked = on; }
long vs_preempts_raised() { return preempts_raised; }
void vs_busy_point()
{
    if (!ctl()) return;
    point();
    vnow += cfg.now_cost_ns;
    if (self->pending_preempt)
    {
        self->pending_preempt = false;
        if (deliver)
        {
            long ret;
            __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_tgkill), "D"((long)getpid()), "S"(self->tid), "d"((long)SIGUSR1) : "rcx", "r11", "memory");
        }
    }
}

void vs_start(const vs_config *c)
{
    cfg = *c;
    rng_s = cfg.seed * 0x2545F4914F6CDD1DULL + 12345;
    nthreads = 1;
    nlive = 1;
    VT &t = threads[0];
    memset(&t, 0, sizeof t);
    t.id = 0;
    t.st = RUNNABLE;
    t.deadline = -1;
    t.tid = raw_gettid();
    t.pt = pthread_self();
    t.prio = (int)rnd(1000);
    self = &t;
    cur = &t;
    for (int i = 0; i < 16; ++i) pct_points[i] = 1 + (long)rnd(4000);
    for (int i = 0; i < 16; ++i)
        for (int j = i + 1; j < 16; ++j)
            if (j < cfg.pct_depth && pct_points[j] < pct_points[i])
            {
                long x = pct_points[i];
                pct_points[i] = pct_points[j];
                pct_points[j] = x;
            }
    progress_vnow = vnow;
    spurious_left = cfg.spurious;
    new_budget();
    active = true;
}

int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!ctl())
    {
        static auto f = (int (*)(pthread_mutex_t *))nullptr;
        if (active) return 0; // exiting thread: nothing to protect
        if (!f) f = real<decltype(f)>("pthread_mutex_lock");
        return f(m);
    }
    point();
    return m_lock(m, true);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!ctl())
    {
        static auto f = (int (*)(pthread_mutex_t *))nullptr;
        if (active) return 0;
        if (!f) f = real<decltype(f)>("pthread_mutex_trylock");
        return f(m);
    }
    point();
    return m_lock(m, false);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!ctl())
    {
        static auto f = (int (*)(pthread_mutex_t *))nullptr;
        if (active) return 0;
        if (!f) f = real<decltype(f)>("pthread_mutex_unlock");
        return f(m);
    }
    int r = m_unlock(m);
    point();
    return r;
}

static int timed_lock(pthread_mutex_t *m, int64_t deadline)
{
    for (;;)
    {
        if (m_lock(m, false) == 0) return 0;
        if (vnow >= deadline) return ETIMEDOUT;
        block(B_MUTEX, m, deadline);
    }
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
    if (!ctl())
    {
        static auto f = real<int (*)(pthread_mutex_t *, const struct timespec *)>("pthread_mutex_timedlock");
        return active ? 0 : f(m, ts);
    }
    point();
    return timed_lock(m, ts_ns(ts) - SYS_EPOCH);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t clk, const struct timespec *ts)
{
    if (!ctl())
    {
        static auto f = real<int (*)(pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_mutex_clocklock");
        return active ? 0 : f(m, clk, ts);
    }
    point();
    return timed_lock(m, ts_ns(ts) - (clk == CLOCK_REALTIME ? SYS_EPOCH : 0));
}

// ---- reader-writer lock: readers and writer are kept in the pthread_rwlock_t itself
#define VS_RWLOCK(NAME, FREE, TAKE, BLOCKING)                                \
    int NAME(pthread_rwlock_t *l)                                             \
    {                                                                         \
        if (!ctl())                                                           \
        {                                                                     \
            static auto f = real<int (*)(pthread_rwlock_t *)>(#NAME);         \
            return active ? 0 : f(l);                                         \
        }                                                                     \
        point();                                                              \
        while (!(FREE))                                                       \
        {                                                                     \
            if (!BLOCKING) return EBUSY;                                      \
            block(B_MUTEX, l, -1);                                            \
        }                                                                     \
        TAKE;                                                                 \
        return 0;                                                             \
    }
VS_RWLOCK(pthread_rwlock_rdlock, l->__data.__cur_writer == 0, ++l->__data.__readers, true)
VS_RWLOCK(pthread_rwlock_tryrdlock, l->__data.__cur_writer == 0, ++l->__data.__readers, false)
VS_RWLOCK(pthread_rwlock_wrlock, l->__data.__cur_writer == 0 && l->__data.__readers == 0, l->__data.__cur_writer = self->id + 1, true)
VS_RWLOCK(pthread_rwlock_trywrlock, l->__data.__cur_writer == 0 && l->__data.__readers == 0, l->__data.__cur_writer = self->id + 1, false)
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    if (!ctl())
    {
        static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
        return active ? 0 : f(l);
    }
    if (l->__data.__cur_writer) l->__data.__cur_writer = 0;
    else --l->__data.__readers;
    wake_obj(l, B_MUTEX);
    point();
    return 0;
}

static int cond_wait_common(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline)
{
    // the caller owns m; release it completely, block, re-acquire
    unsigned cnt = m->__data.__count;
    m->__data.__count = 1;
    m_unlock(m);
    bool to = false;
    if (deadline >= 0 && deadline <= vnow)
    {
        point();
        to = true;
    }
    else
    {
        block(B_COND, c, deadline);
        to = self->timed_out;
        if (interrupt_blocked && self->interrupted)
        {
            self->interrupted = false;
            raise_preempt();
        }
    }
    m_lock(m, true);
    m->__data.__count = cnt;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!ctl())
    {
        static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
        return f(c, m);
    }
    point();
    return cond_wait_common(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    if (!ctl())
    {
        static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait");
        return f(c, m, ts);
    }
    point();
    int64_t d = ts_ns(ts) - SYS_EPOCH;
    return cond_wait_common(c, m, d < 0 ? 0 : d);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts)
{
    if (!ctl())
    {
        static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait");
        return f(c, m, clk, ts);
    }
    point();
    int64_t d = ts_ns(ts);
    if (clk == CLOCK_REALTIME) d -= SYS_EPOCH;
    return cond_wait_common(c, m, d < 0 ? 0 : d);
}
int pthread_cond_signal(pthread_cond_t *c)
{
    if (!ctl())
    {
        static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
        if (active) return 0;
        return f(c);
    }
    point();
    VT *w[MAXT];
    int n = 0;
    for (int i = 0; i < nthreads; ++i)
        if (threads[i].st == B_COND && threads[i].obj == c) w[n++] = &threads[i];
    if (n)
    {
        VT *t = w[n == 1 ? 0 : rnd(n)];
        t->st = RUNNABLE;
        t->obj = nullptr;
        t->deadline = -1;
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!ctl())
    {
        static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
        if (active) return 0;
        return f(c);
    }
    point();
    wake_obj(c, B_COND);
    return 0;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    static auto f = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    if (!ctl()) return f(pt, a, fn, arg);
    point();
    if (nthreads >= MAXT) hang("too many threads");
    VT *t = &threads[nthreads];
    memset(t, 0, sizeof *t);
    t->id = nthreads;
    t->st = RUNNABLE;
    t->deadline = -1;
    t->fn = fn;
    t->arg = arg;
    t->prio = (int)rnd(1000);
    ++nthreads;
    ++nlive;
    int r = f(pt, a, tramp, t);
    if (r)
    {
        --nthreads;
        --nlive;
        return r;
    }
    t->pt = *pt;
    while (__atomic_load_n(&t->tid, __ATOMIC_ACQUIRE) == 0) raw_yield();
    point();
    return 0;
}
int pthread_join(pthread_t pt, void **ret)
{
    static auto f = real<int (*)(pthread_t, void **)>("pthread_join");
    if (ctl())
    {
        point();
        for (int i = 0; i < nthreads; ++i)
            if (pthread_equal(threads[i].pt, pt) && threads[i].st != DONE)
            {
                while (threads[i].st != DONE) block(B_JOIN, &threads[i], -1);
            }
    }
    return f(pt, ret);
}
int pthread_once(pthread_once_t *o, void (*fn)(void))
{
    if (!ctl())
    {
        static auto f = real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once");
        return f(o, fn);
    }
    for (;;)
    {
        if (*o == 2) return 0;
        if (*o == 1)
        {
            block(B_ONCE, o, -1);
            continue;
        }
        *o = 1;
        try
        {
            fn();
        }
        catch (...)
        {
            *o = 0;
            wake_obj(o, B_ONCE);
            throw;
        }
        *o = 2;
        wake_obj(o, B_ONCE);
        point();
        return 0;
    }
}

// function-local statics
int __cxa_guard_acquire(long long *g)
{
    char *b = (char *)g;
    for (;;)
    {
        if (b[0]) return 0;
        if (b[1] && ctl())
        {
            block(B_ONCE, g, -1);
            continue;
        }
        b[1] = 1;
        return 1;
    }
}
void __cxa_guard_release(long long *g)
{
    char *b = (char *)g;
    b[1] = 0;
    b[0] = 1;
    if (ctl()) wake_obj(g, B_ONCE);
}
void __cxa_guard_abort(long long *g)
{
    char *b = (char *)g;
    b[1] = 0;
    if (ctl()) wake_obj(g, B_ONCE);
}

static void vsleep(int64_t ns)
{
    if (ns <= 0)
    {
        point();
        return;
    }
    block(B_SLEEP, nullptr, vnow + ns);
}
// the time that is left if a signal ended the sleep, else 0
static int64_t interruptible_sleep(int64_t ns)
{
    if (!interrupt_blocked)
    {
        vsleep(ns);
        return 0;
    }
    if (self->pending_preempt) raise_preempt();
    int64_t until = vnow + ns;
    vsleep(ns);
    if (!self->interrupted) return 0;
    self->interrupted = false;
    int64_t left = until - vnow;
    raise_preempt();
    return left > 0 ? left : 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem)
{
    if (!ctl())
    {
        static auto f = real<int (*)(const struct timespec *, struct timespec *)>("nanosleep");
        return f(req, rem);
    }
    int64_t left = interruptible_sleep(ts_ns(req));
    if (rem)
    {
        rem->tv_sec = left / 1000000000;
        rem->tv_nsec = left % 1000000000;
    }
    if (!left) return 0;
    errno = EINTR;
    return -1;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec *req, struct timespec *rem)
{
    if (!ctl())
    {
        static auto f = real<int (*)(clockid_t, int, const struct timespec *, struct timespec *)>("clock_nanosleep");
        return f(clk, flags, req, rem);
    }
    int64_t d = ts_ns(req);
    if (flags & TIMER_ABSTIME)
    {
        if (clk == CLOCK_REALTIME) d -= SYS_EPOCH;
        d -= vnow;
    }
    int64_t left = interruptible_sleep(d);
    if (rem && !(flags & TIMER_ABSTIME))
    {
        rem->tv_sec = left / 1000000000;
        rem->tv_nsec = left % 1000000000;
    }
    return left ? EINTR : 0;
}
int usleep(useconds_t us)
{
    if (!ctl())
    {
        static auto f = real<int (*)(useconds_t)>("usleep");
        return f(us);
    }
    if (!interruptible_sleep((int64_t)us * 1000)) return 0;
    errno = EINTR;
    return -1;
}
int sched_yield(void)
{
    if (ctl())
    {
        point();
        return 0;
    }
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_sched_yield) : "rcx", "r11", "memory");
    return (int)ret;
}
__attribute__((weak)) int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    static auto f = real<int (*)(int, fd_set *, fd_set *, fd_set *, struct timeval *)>("select");
    if (!ctl()) return f(n, r, w, e, tv);
    int64_t end = tv ? vnow + (int64_t)tv->tv_sec * 1000000000LL + (int64_t)tv->tv_usec * 1000 : -1;
    fd_set rr, ww, ee;
    if (r) rr = *r;
    if (w) ww = *w;
    if (e) ee = *e;
    for (;;)
    {
        struct timeval z = {0, 0};
        if (r) *r = rr;
        if (w) *w = ww;
        if (e) *e = ee;
        int ret = f(n, r, w, e, &z);
        if (ret != 0) return ret;
        if (end >= 0 && vnow >= end)
        {
            if (tv) tv->tv_sec = tv->tv_usec = 0;
            return 0;
        }
        if (interruptible_sleep(1000000))
        {
            errno = EINTR;
            return -1;
        }
    }
}

static int send_switch_signal(long tid)
{
    point();
    ++preempt_requests;
    // the sender can be slow between its decision and the signal, so that it arrives anywhere
    if (anywhere && rnd(3)) block(B_SLEEP, nullptr, vnow + cfg.step_cost_ns * (long)(1 + rnd(2ul << rnd(11))));
    for (int i = 0; i < nthreads; ++i)
        if (threads[i].tid == tid && threads[i].st != DONE)
        {
            VT &t = threads[i];
            t.pending_preempt = true;
            if (interrupt_blocked && (t.st == B_SLEEP || t.st == B_COND))
            {
                t.st = RUNNABLE;
                t.obj = nullptr;
                t.deadline = -1;
                t.interrupted = true;
            }
            return 0;
        }
    return ESRCH;
}
int tgkill(pid_t pid, pid_t tid, int sig)
{
    if (ctl() && sig == SIGUSR1)
    {
        int r = send_switch_signal(tid);
        if (r) errno = r;
        return r ? -1 : 0;
    }
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_tgkill), "D"((long)pid), "S"((long)tid), "d"((long)sig) : "rcx", "r11", "memory");
    if (ret < 0) errno = (int)-ret;
    return ret < 0 ? -1 : 0;
}
int pthread_kill(pthread_t pt, int sig)
{
    if (ctl() && sig == SIGUSR1)
    {
        for (int i = 0; i < nthreads; ++i)
            if (threads[i].st != DONE && pthread_equal(threads[i].pt, pt)) return send_switch_signal(threads[i].tid);
        return ESRCH;
    }
    static auto f = real<int (*)(pthread_t, int)>("pthread_kill");
    return f(pt, sig);
}

long syscall(long nr, ...)
{
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (auto &x : a) x = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_tgkill && ctl() && (int)a[2] == SIGUSR1)
    {
        int r = send_switch_signal((long)(int)a[1]);
        if (r) errno = r;
        return r ? -1 : 0;
    }
    if (nr == SYS_futex && ctl())
    {
        // libstdc++ std::future waits: turn them into polling
        int op = (int)a[1] & 0x7f;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            if (*(volatile int *)a[0] != (int)a[2])
            {
                errno = EAGAIN;
                return -1;
            }
            vsleep(1000000);
            return 0;
        }
    }
    long ret;
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096)
    {
        errno = (int)-ret;
        return -1;
    }
    return ret;
}

void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
    long ret;
    register long r10 __asm__("r10") = flags;
    register long r8 __asm__("r8") = fd;
    register long r9 __asm__("r9") = off;
    if (active && addr == nullptr && (flags & MAP_ANONYMOUS))
    {
        // addresses are a function of the case and are never reused
        static uintptr_t next = 0x200000000000ULL;
        addr = (void *)next;
        next += ((len + 4095) & ~(size_t)4095) + 4096;
    }
    __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_mmap), "D"(addr), "S"(len), "d"((long)prot), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096)
    {
        errno = (int)-ret;
        return MAP_FAILED;
    }
    if (active && (flags & MAP_ANONYMOUS))
    {
        ++stacks_live;
        bytes_live += len;
    }
    return (void *)ret;
}
int munmap(void *addr, size_t len)
{
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_munmap), "D"(addr), "S"(len) : "rcx", "r11", "memory");
    if (ret < 0)
    {
        errno = (int)-ret;
        return -1;
    }
    if (active)
    {
        --stacks_live;
        bytes_live -= len;
    }
    return 0;
}

// ---- -fsanitize=thread entry points
#define MEMHOOK(name) \
    void name(void *) { mem_point(); }
MEMHOOK(__tsan_read1)
MEMHOOK(__tsan_read2)
MEMHOOK(__tsan_read4)
MEMHOOK(__tsan_read8)
MEMHOOK(__tsan_read16)
MEMHOOK(__tsan_write1)
MEMHOOK(__tsan_write2)
MEMHOOK(__tsan_write4)
MEMHOOK(__tsan_write8)
MEMHOOK(__tsan_write16)
MEMHOOK(__tsan_unaligned_read2)
MEMHOOK(__tsan_unaligned_read4)
MEMHOOK(__tsan_unaligned_read8)
MEMHOOK(__tsan_unaligned_read16)
MEMHOOK(__tsan_unaligned_write2)
MEMHOOK(__tsan_unaligned_write4)
MEMHOOK(__tsan_unaligned_write8)
MEMHOOK(__tsan_unaligned_write16)
MEMHOOK(__tsan_volatile_read1)
MEMHOOK(__tsan_volatile_read2)
MEMHOOK(__tsan_volatile_read4)
MEMHOOK(__tsan_volatile_read8)
MEMHOOK(__tsan_volatile_write1)
MEMHOOK(__tsan_volatile_write2)
MEMHOOK(__tsan_volatile_write4)
MEMHOOK(__tsan_volatile_write8)
MEMHOOK(__tsan_vptr_read)
void __tsan_vptr_update(void *, void *) { mem_point(); }
void __tsan_read_range(void *, long) { mem_point(); }
void __tsan_write_range(void *, long) { mem_point(); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}
#define ATOMICS(sz, T)                                                                                              \
    T __tsan_atomic##sz##_load(const volatile T *p, int)                                                            \
    {                                                                                                               \
        point();                                                                                                    \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                \
    }                                                                                                               \
    void __tsan_atomic##sz##_store(volatile T *p, T v, int)                                                         \
    {                                                                                                               \
        point();                                                                                                    \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                               \
    T __tsan_atomic##sz##_exchange(volatile T *p, T v, int)                                                         \
    {                                                                                                               \
        point();                                                                                                    \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                         \
    }                                                                                                               \
    T __tsan_atomic##sz##_fetch_add(volatile T *p, T v, int)                                                        \
    {                                                                                                               \
        point();                                                                                                    \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                          \
    }                                                                                                               \
    T __tsan_atomic##sz##_fetch_sub(volatile T *p, T v, int)                                                        \
    {                                                                                                               \
        point();                                                                                                    \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                          \
    }                                                                                                               \
    T __tsan_atomic##sz##_fetch_and(volatile T *p, T v, int)                                                        \
    {                                                                                                               \
        point();                                                                                                    \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                          \
    }                                                                                                               \
    T __tsan_atomic##sz##_fetch_or(volatile T *p, T v, int)                                                         \
    {                                                                                                               \
        point();                                                                                                    \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                           \
    }                                                                                                               \
    T __tsan_atomic##sz##_fetch_xor(volatile T *p, T v, int)                                                        \
    {                                                                                                               \
        point();                                                                                                    \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                          \
    }                                                                                                               \
    T __tsan_atomic##sz##_fetch_nand(volatile T *p, T v, int)                                                       \
    {                                                                                                               \
        point();                                                                                                    \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                         \
    }                                                                                                               \
    int __tsan_atomic##sz##_compare_exchange_strong(volatile T *p, T *e, T v, int, int)                             \
    {                                                                                                               \
        point();                                                                                                    \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                     \
    }                                                                                                               \
    int __tsan_atomic##sz##_compare_exchange_weak(volatile T *p, T *e, T v, int, int)                               \
    {                                                                                                               \
        point();                                                                                                    \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                     \
    }                                                                                                               \
    T __tsan_atomic##sz##_compare_exchange_val(volatile T *p, T e, T v, int, int)                                   \
    {                                                                                                               \
        point();                                                                                                    \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                           \
        return e;                                                                                                   \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
} // extern "C"

// ---- clocks
namespace std::chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept
{
    if (!ctl())
    {
        if (active) return time_point(nanoseconds(vnow));
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return time_point(nanoseconds(ts_ns(&ts)));
    }
    vnow += cfg.now_cost_ns;
    point();
    return time_point(nanoseconds(vnow));
}
system_clock::time_point system_clock::now() noexcept
{
    if (!ctl())
    {
        if (active) return time_point(nanoseconds(vnow + SYS_EPOCH));
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        return time_point(nanoseconds(ts_ns(&ts)));
    }
    vnow += cfg.now_cost_ns;
    point();
    return time_point(nanoseconds(vnow + SYS_EPOCH));
}
}
}

void vs_dump(char *buf, size_t n)
{
    size_t o = 0;
    o += snprintf(buf + o, n - o, "t=%.6fs steps=%ld switches=%ld;", (double)(vnow - 1000000LL * 1000000000LL) / 1e9, steps, switches);
    for (int i = 0; i < nthreads && o + 60 < n; ++i)
        if (threads[i].st != DONE)
        {
            o += snprintf(buf + o, n - o, " T%d:%s%s", i, state_name[threads[i].st], threads[i].deadline >= 0 ? "(timed)" : "");
            if (threads[i].st == B_MUTEX) o += snprintf(buf + o, n - o, "(owner T%d)", ((pthread_mutex_t *)threads[i].obj)->__data.__owner - 1);
        }
}

// debugging aid, used only by "debug" replays
#include <execinfo.h>
static volatile int bt_done;
static void bt_handler(int)
{
    void *bt[60];
    int n = backtrace(bt, 60);
    for (int i = 0; i < n; ++i) fprintf(stderr, "BT %p\n", bt[i]);
    bt_done = 1;
}
void vs_backtraces()
{
    signal(SIGUSR2, bt_handler);
    for (int i = 0; i < nthreads; ++i)
    {
        if (threads[i].st == DONE) continue;
        fprintf(stderr, "---- thread %d %s\n", i, state_name[threads[i].st]);
        bt_done = 0;
        pthread_kill(threads[i].pt, SIGUSR2);
        for (int k = 0; k < 1000000 && !bt_done; ++k) raw_yield();
    }
}

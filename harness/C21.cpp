// C21: a coroutine that never yields cannot keep its environment to itself, and is interrupted without harm.
// C31 (C31.cpp defines BLOCKED): neither can one that blocks its thread in system calls.
#include "frames.h"
#include <condition_variable>
#include <sys/select.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace
{
enum { U_YIELD = 0, U_SLEEP, U_LOCK, U_CV, U_SEM, U_SPAWN, U_THROW, U_CHAN, U_SHARED, U_TIMED, U_RECURSIVE, U_LATCH, U_ONCE, U_WAIT, U_BARRIER, U_TIMER, U_EVENT, U_LOCAL, U_ENV, U_INFO, U_COMPUTE, U_N };
struct User
{
    int env;
    int prio;
    bool shared;
    std::vector<std::pair<int, int> > ops;
};
struct Hog
{
    int env;
    bool shared;
    bool lock;   // computes while it holds the mutex
    int frame;   // bytes of local data
    int kind;    // 0: computes; else: uses the library all the time without being suspended
    int slice;   // ms that a system call takes
    int tail;    // rounds to compute after everybody is done
    std::vector<std::pair<int, int> > ops; // before it computes
};
struct Program
{
    std::vector<Hog> hogs;
    std::vector<User> users;
    bool waiter; // somebody waits for a condition all the time
    bool anywhere = false; // the scheduling signal arrives anywhere, also inside the library
} P;
bool anywhere;
#ifdef BLOCKED
const bool blocked = true;
#else
const bool blocked = false;
#endif

void tune(Gen &g, CaseConfig &c)
{
    anywhere = g.chance(40);
    c.tick_ms = g.pick({10, 10, 20, 50});
    c.vs.now_cost_ns = 100000; // a round of the computation takes 0.1 ms
    if (c.vs.jump_max_us > 1000) c.vs.jump_max_us = 1000;
    if (c.vs.step_cost_ns > 1000) c.vs.step_cost_ns = 1000;
}

void gen_ops(Gen &g, std::vector<std::pair<int, int> > &ops)
{
    while (g.more(ops.size(), 1, 6, 3)) ops.push_back({g.weighted({4, 2, 2, 2, 1, 2, 1, 1, 2, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, 2, P.anywhere ? 6 : 1}), g.range(0, 6)});
}
void generate(Gen &g)
{
    P = Program();
    P.anywhere = anywhere;
    while (g.more(P.hogs.size(), 1, 3, 1))
    {
        Hog h;
        h.env = g.range(0, 1);
        h.shared = g.chance(20);
        h.lock = g.chance(25);
        h.frame = g.pick({0, 64, 3000});
        h.tail = g.pick({0, 5, 300});
        h.kind = blocked ? 10 + g.range(0, 5) : g.chance(60) ? 0 : g.range(1, 9);
        h.slice = blocked ? g.pick({30, 1, 100, 700}) : 0;
        if (g.chance(40)) gen_ops(g, h.ops);
        P.hogs.push_back(h);
    }
    while (g.more(P.users.size(), 1, 5, 3))
    {
        User u;
        u.env = g.range(0, 1);
        u.prio = 99; // strict priorities: a better one that spins for a lock starves its holder
        u.shared = g.chance(20);
        gen_ops(g, u.ops);
        P.users.push_back(u);
    }
    P.waiter = g.chance(30);
}
std::string render()
{
    const char *k[] = {"yield", "sleep", "lock", "cv", "sem", "spawn", "throw", "chan", "shared", "timed", "recursive", "latch", "once", "wait", "barrier", "timer", "event", "local", "env", "info", "compute"};
    const char *hk[] = {"", "lock/unlock", "chan", "spawn", "timer", "sem", "local", "prio", "notify", "memory", "sleep_for", "usleep", "clock_nanosleep", "std::condition_variable", "select", "sleep_until"};
    std::string s;
    if (P.anywhere) s += "signals anywhere: ";
    for (auto &h : P.hogs)
    {
        s += strf("hog#%d{", h.env);
        for (auto &o : h.ops) s += strf("%s%d ", k[o.first], o.second);
        s += strf("%s%s%s frame %d tail %d} ", h.shared ? "shared " : "", h.lock ? "holds the mutex " : "", (hk[h.kind] + (h.slice ? strf(" %dms", h.slice) : std::string())).c_str(), h.frame, h.tail);
    }
    for (auto &u : P.users)
    {
        s += strf("user#%d{%s%s", u.env, u.shared ? "shared " : "", u.prio != 99 ? strf("@%d ", u.prio).c_str() : "");
        for (auto &o : u.ops) s += strf(" %s%d", k[o.first], o.second);
        s += " } ";
    }
    if (P.waiter) s += "waiter";
    return s;
}

co_mutex *hog_mu, *cv_mu;
co_condition_variable *cv;
co_counting_semaphore<1> *sem;
co_shared_timed_mutex *shared_mu;
std::shared_ptr<co_timer> *timer;
co_event<int> *event;
std::atomic<int> created_envs {0};
co_timed_mutex *timed_mu;
co_recursive_timed_mutex *recursive_mu;
co_once_flag *once;
co_chan<int> *chan;
std::atomic<int> free_left {0}, owner {0}, interrupted {0}, computing {0};
std::atomic<bool> over {false};
std::atomic<int> spawned {0}, spawned_ran {0};

// Everything a computation has in registers and in the red zone while the scheduling signal arrives.
// The signal is raised by the syscall instruction inside this function, which uses its red zone.
struct Regs
{
    uint64_t gpr[16];
    uint64_t xmm[32];
    uint64_t red[16];
};
static_assert(sizeof(Regs) == 128 + 256 + 128);

extern "C" __attribute__((naked, noinline)) void interrupted_leaf(Regs *, Regs *, long, long)
{
    __asm__ volatile(
        "pushq %rbx\n\t"
        "pushq %rbp\n\t"
        "pushq %r12\n\t"
        "pushq %r13\n\t"
        "pushq %r14\n\t"
        "pushq %r15\n\t"
        "pushq %rsi\n\t"
        "movq %rdi, %r10\n\t"
        "movq %rdx, %r8\n\t" // pid
        "movq %rcx, %r9\n\t" // tid
        "movdqu 128(%r10), %xmm0\n\t"
        "movdqu 144(%r10), %xmm1\n\t"
        "movdqu 160(%r10), %xmm2\n\t"
        "movdqu 176(%r10), %xmm3\n\t"
        "movdqu 192(%r10), %xmm4\n\t"
        "movdqu 208(%r10), %xmm5\n\t"
        "movdqu 224(%r10), %xmm6\n\t"
        "movdqu 240(%r10), %xmm7\n\t"
        "movdqu 256(%r10), %xmm8\n\t"
        "movdqu 272(%r10), %xmm9\n\t"
        "movdqu 288(%r10), %xmm10\n\t"
        "movdqu 304(%r10), %xmm11\n\t"
        "movdqu 320(%r10), %xmm12\n\t"
        "movdqu 336(%r10), %xmm13\n\t"
        "movdqu 352(%r10), %xmm14\n\t"
        "movdqu 368(%r10), %xmm15\n\t"
        // red zone
        "xorq %rcx, %rcx\n"
        "1:\n\t"
        "movq 384(%r10,%rcx,8), %rax\n\t"
        "movq %rax, -128(%rsp,%rcx,8)\n\t"
        "incq %rcx\n\t"
        "cmpq $16, %rcx\n\t"
        "jne 1b\n\t"
        "movq 0(%r10), %rbx\n\t"
        "movq 8(%r10), %rbp\n\t"
        "movq 16(%r10), %r12\n\t"
        "movq 24(%r10), %r13\n\t"
        "movq 32(%r10), %r14\n\t"
        "movq 40(%r10), %r15\n\t"
        "movq %r8, %rdi\n\t"
        "movq %r9, %rsi\n\t"
        "movq 48(%r10), %r8\n\t"
        "movq 56(%r10), %r9\n\t"
        "movq 64(%r10), %r10\n\t"
        "movl $10, %edx\n\t"
        "movl $234, %eax\n\t"
        "syscall\n\t"
        "movq (%rsp), %rax\n\t"
        "movq %rbx, 0(%rax)\n\t"
        "movq %rbp, 8(%rax)\n\t"
        "movq %r12, 16(%rax)\n\t"
        "movq %r13, 24(%rax)\n\t"
        "movq %r14, 32(%rax)\n\t"
        "movq %r15, 40(%rax)\n\t"
        "movq %r8, 48(%rax)\n\t"
        "movq %r9, 56(%rax)\n\t"
        "movq %r10, 64(%rax)\n\t"
        "movq %rdx, 72(%rax)\n\t"
        "movdqu %xmm0, 128(%rax)\n\t"
        "movdqu %xmm1, 144(%rax)\n\t"
        "movdqu %xmm2, 160(%rax)\n\t"
        "movdqu %xmm3, 176(%rax)\n\t"
        "movdqu %xmm4, 192(%rax)\n\t"
        "movdqu %xmm5, 208(%rax)\n\t"
        "movdqu %xmm6, 224(%rax)\n\t"
        "movdqu %xmm7, 240(%rax)\n\t"
        "movdqu %xmm8, 256(%rax)\n\t"
        "movdqu %xmm9, 272(%rax)\n\t"
        "movdqu %xmm10, 288(%rax)\n\t"
        "movdqu %xmm11, 304(%rax)\n\t"
        "movdqu %xmm12, 320(%rax)\n\t"
        "movdqu %xmm13, 336(%rax)\n\t"
        "movdqu %xmm14, 352(%rax)\n\t"
        "movdqu %xmm15, 368(%rax)\n\t"
        "xorq %rcx, %rcx\n"
        "2:\n\t"
        "movq -128(%rsp,%rcx,8), %rdx\n\t"
        "movq %rdx, 384(%rax,%rcx,8)\n\t"
        "incq %rcx\n\t"
        "cmpq $16, %rcx\n\t"
        "jne 2b\n\t"
        "popq %rsi\n\t"
        "popq %r15\n\t"
        "popq %r14\n\t"
        "popq %r13\n\t"
        "popq %r12\n\t"
        "popq %rbp\n\t"
        "popq %rbx\n\t"
        "retq");
}

uint64_t mix(uint64_t x)
{
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdULL;
    x ^= x >> 33;
    return x;
}

// one round of a computation; the scheduling signal is delivered in the middle if it was sent
void compute_round(uint64_t &seed)
{
    vs_point();
    seed = mix(seed + 1);
    vs_spend(100000);
    if (P.anywhere || !vs_take_pending_preempt()) return;
    Regs in, out;
    auto p = (uint64_t *)&in;
    for (size_t i = 0; i < sizeof in / 8; ++i) p[i] = mix(seed + i);
    memset(&out, 0, sizeof out);
    int mine = 100 + (int)(seed & 0xff);
    errno = mine;
    long others = interrupted;
    interrupted_leaf(&in, &out, (long)::getpid(), (long)::gettid());
    ++interrupted;
    int e = errno;
    CHECK(!memcmp(in.gpr, out.gpr, 9 * 8), "a register changed while the computation was interrupted");
    CHECK(!memcmp(in.xmm, out.xmm, sizeof in.xmm), "a floating-point register changed while the computation was interrupted");
    CHECK(!memcmp(in.red, out.red, sizeof in.red), "local data below the stack pointer changed while the computation was interrupted");
    CHECK(e == mine, "errno changed while the computation was interrupted");
    (void)others;
}

void do_op(const std::pair<int, int> &o)
{
    switch (o.first)
    {
    case U_YIELD: this_co::yield(); break;
    case U_SLEEP: this_co::sleep_for(std::chrono::milliseconds(o.second)); break;
    case U_LOCK:
    {
        std::lock_guard<co_mutex> lock(*cv_mu);
        this_co::yield();
        break;
    }
    case U_CV:
    {
        std::unique_lock<co_mutex> lock(*cv_mu);
        cv->wait_for(lock, std::chrono::milliseconds(1 + o.second));
        break;
    }
    case U_SEM:
        sem->acquire();
        this_co::yield();
        sem->release();
        break;
    case U_SPAWN:
    {
        co c([] { this_co::yield(); });
        c.join();
        break;
    }
    case U_THROW:
        try
        {
            throw FrameEx(o.second);
        }
        catch (FrameEx &e)
        {
            this_co::yield();
            CHECK(e.id == o.second, "an exception changed");
        }
        break;
    case U_CHAN:
        chan->push(1);
        chan->pop();
        break;
    case U_SHARED:
        if (o.second == 0)
        {
            shared_mu->lock();
            this_co::sleep_for(15ms);
            shared_mu->unlock();
        }
        else if (o.second == 1)
        {
            shared_mu->lock_shared();
            this_co::sleep_for(1ms);
            shared_mu->unlock_shared();
        }
        else if (o.second & 1)
        {
            if (shared_mu->try_lock_shared_for(std::chrono::milliseconds(o.second)))
            {
                this_co::yield();
                shared_mu->unlock_shared();
            }
        }
        else if (shared_mu->try_lock_for(std::chrono::milliseconds(o.second)))
        {
            this_co::sleep_for(1ms);
            shared_mu->unlock();
        }
        break;
    case U_TIMED:
        if (timed_mu->try_lock_for(std::chrono::milliseconds(o.second)))
        {
            this_co::sleep_for(1ms);
            timed_mu->unlock();
        }
        break;
    case U_RECURSIVE:
        if (o.second < 3 ? (recursive_mu->lock(), true) : recursive_mu->try_lock_for(std::chrono::milliseconds(o.second)))
        {
            recursive_mu->lock();
            this_co::sleep_for(1ms);
            recursive_mu->unlock();
            recursive_mu->unlock();
        }
        break;
    case U_TIMER:
        switch (o.second)
        {
        case 0: (*timer)->stop(); break;
        case 1: (*timer)->reset(); break;
        case 2: (*timer)->is_running(); break;
        case 3: (*timer)->expire_time(); break;
        case 4: (*timer)->is_expired(); break;
        case 5: (*timer)->set_expire_callback([] { this_co::yield(); }); break;
        default: (*timer)->start();
        }
        break;
    case U_EVENT:
    {
        auto count = std::make_shared<std::atomic<int> >(0);
        auto h = event->sub([count](int) { ++*count; });
        for (int i = 0; i < 1 + o.second % 3; ++i) event->pub(i);
        event->unsub(h);
        CHECK(*count >= 1 + o.second % 3, "a subscriber was not called");
        break;
    }
    case U_LOCAL:
    {
        auto &x = CoLocal(value, int);
        x = o.second;
        this_co::yield();
        CHECK(CoLocal(value, int) == o.second, "a local value changed");
        break;
    }
    case U_ENV:
        if (++created_envs <= 3)
        {
            auto env = co::create_env(o.second & 1);
            co c({with_bind_env(env)}, [] { this_co::yield(); });
        }
        break;
    case U_INFO:
    {
        co c({with_name("info"), with_priority(98)}, [] { this_co::yield(); });
        for (int i = 0; i < 30; ++i) c.ctx_state();
        for (int i = 0; i < 3; ++i)
        {
            CHECK(c.name() == "info", "a name changed");
            CHECK(c.ctx_priority() == 98, "a priority changed");
            c.ctx_set_priority(98);
            co::set_timer_tick_duration(co::timing_duration());
        }
        c.join();
        break;
    }
    case U_COMPUTE:
        for (int i = 0; i <= o.second; ++i)
        {
            vs_point();
            vs_spend(4000000);
        }
        break;
    case U_LATCH:
    {
        auto latch = std::make_shared<co_latch>(1);
        co c([latch] { latch->count_down(); });
        latch->wait();
        c.join();
        break;
    }
    case U_ONCE:
        co_call_once(*once, [] { this_co::sleep_for(3ms); });
        break;
    case U_WAIT:
    {
        co c([n = o.second] { this_co::sleep_for(std::chrono::milliseconds(n)); });
        c.wait_for(2ms);
        c.join();
        break;
    }
    case U_BARRIER:
    {
        auto barrier = std::make_shared<co_barrier>(2);
        co c([barrier] { barrier->arrive_and_wait(); });
        barrier->arrive_and_wait();
        c.join();
        break;
    }
    }
}

// a system call that blocks the thread
void blocking_call(const Hog &h)
{
    auto slice = std::chrono::milliseconds(h.slice);
    auto begin = now_ns();
    bool full = true;
    switch (h.kind)
    {
    case 10: std::this_thread::sleep_for(slice); break;
    case 11:
        errno = 0;
        if (usleep((useconds_t)h.slice * 1000) != 0)
        {
            CHECK(errno == EINTR, "usleep failed with %d", errno);
            full = false;
        }
        break;
    case 12:
    {
        timespec ts {h.slice / 1000, h.slice % 1000 * 1000000L};
        int e;
        while ((e = clock_nanosleep(CLOCK_MONOTONIC, 0, &ts, &ts)) == EINTR);
        CHECK(e == 0, "clock_nanosleep returned %d", e);
        break;
    }
    case 13:
    {
        std::mutex mu;
        std::condition_variable c;
        std::unique_lock<std::mutex> lock(mu);
        full = !c.wait_for(lock, slice, [] { return free_left == 0; });
        CHECK(lock.owns_lock(), "the wait returned without the lock");
        break;
    }
    case 14:
    {
        timeval tv {h.slice / 1000, h.slice % 1000 * 1000};
        errno = 0;
        int r = select(0, nullptr, nullptr, nullptr, &tv);
        if (r != 0)
        {
            CHECK(errno == EINTR, "select returned %d with %d", r, errno);
            full = false;
        }
        break;
    }
    default: std::this_thread::sleep_until(std::chrono::steady_clock::now() + slice);
    }
    auto took = now_ns() - begin;
    if (full) CHECK(took >= (int64_t)h.slice * 1000000, "a system call of %d ms ended after %lld us", h.slice, (long long)took / 1000);
    else label("interrupted call");
}

void hog(const Hog &h)
{
    for (auto &o : h.ops) do_op(o);
    uint64_t seed = mix((uint64_t)++frames_ids);
    size_t words = (size_t)h.frame / 8;
    auto data = (uint64_t *)alloca(words * 8 + 8);
    for (size_t i = 0; i < words; ++i) data[i] = mix(seed + i);
    uint64_t s = seed;
    if (h.lock)
    {
        hog_mu->lock();
        CHECK(++owner == 1, "two coroutines own the mutex");
    }
    ++computing;
    long rounds = 0;
    co_mutex own_mu;
    co_counting_semaphore<8> own_sem(4);
    co_chan<int> own_chan(4);
    while (free_left > 0)
    {
        compute_round(s);
        ++rounds;
        switch (h.kind)
        {
        case 1:
            own_mu.lock();
            own_mu.unlock();
            break;
        case 2:
            own_chan.push((int)rounds);
            CHECK(own_chan.pop().value() == (int)rounds, "a channel delivered another value");
            break;
        case 3:
            if (rounds < 40)
            {
                ++spawned;
                co([] { ++spawned_ran; }).detach();
            }
            break;
        case 4:
        {
            auto t = co_timer::create([] {}, co_expire_type::once, 3600000);
            t->start();
            t->stop();
            break;
        }
        case 5:
            own_sem.acquire();
            own_sem.release();
            break;
        case 6: ++CoLocal(hogs_value, int); break;
        case 7: co::current_env()->current_ctx()->set_priority(99 - (int)(rounds & 1)); break;
        case 8: cv->notify_all(); break;
        case 9: delete new std::vector<int>(100); break;
        case 10 ... 15: blocking_call(h); break;
        default: break;
        }
    }
    if (h.kind == 6) CHECK(CoLocal(hogs_value, int) == rounds, "a coroutine-local value changed");
    if (h.kind == 7) co::current_env()->current_ctx()->set_priority(99);
    for (int i = 0; i < h.tail; ++i, ++rounds) compute_round(s);
    --computing;
    if (h.lock)
    {
        CHECK(--owner == 0, "two coroutines own the mutex");
        hog_mu->unlock();
    }
    uint64_t t = seed;
    for (long i = 0; i < rounds; ++i) t = mix(t + 1);
    CHECK(t == s, "the computation gave a wrong result");
    for (size_t i = 0; i < words; ++i) CHECK(data[i] == mix(seed + i), "local data changed during the computation");
}

void user(const User &u)
{
    for (auto &o : u.ops)
    {
        do_op(o);
        errno = 5;
        if (computing > 0)
        {
            nontrivial();
            label("ran beside a computation");
        }
    }
    --free_left;
    vs_progress();
}

void run()
{
    vs_deliver_anywhere(P.anywhere);
    vs_interrupt_blocked(blocked);
    hog_mu = new co_mutex;
    cv_mu = new co_mutex;
    cv = new co_condition_variable;
    sem = new co_counting_semaphore<1>(1);
    chan = new co_chan<int>(64);
    shared_mu = new co_shared_timed_mutex;
    timer = new std::shared_ptr<co_timer>(co_timer::create([] {}, co_expire_type::loop, 3));
    event = new co_event<int>;
    timed_mu = new co_timed_mutex;
    recursive_mu = new co_recursive_timed_mutex;
    once = new co_once_flag;
    co_env *envs[2] = {co::create_env(true), co::create_env(true)};
    free_left = (int)P.users.size();
    std::unique_ptr<co> waiter;
    co_mutex wait_mu;
    co_condition_variable wait_cv;
    if (P.waiter)
        waiter = std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_bind_env(envs[0])}, [&] {
            std::unique_lock<co_mutex> lock(wait_mu);
            while (!over) wait_cv.wait(lock);
        });
    std::vector<std::unique_ptr<co> > cos;
    for (auto &h : P.hogs)
        cos.push_back(std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_bind_env(envs[h.env]), with_shared_stack(h.shared)}, [&h] {
            hog(h);
            vs_progress();
        }));
    for (auto &u : P.users)
        cos.push_back(std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_priority((size_t)u.prio), with_bind_env(envs[u.env]), with_shared_stack(u.shared)}, [&u] { user(u); }));
    for (auto &c : cos) c->join();
    (*timer)->stop();
    if (interrupted) label("interrupted");
    while (spawned_ran < spawned) std::this_thread::sleep_for(1ms);
    if (vs_preempts_raised()) label("interrupted anywhere");
    if (waiter)
    {
        {
            std::lock_guard<co_mutex> lock(wait_mu);
            over = true;
        }
        wait_cv.notify_all();
        waiter->join();
    }
}
}

#ifndef BLOCKED
const Property property = {
    "C21",
    "1-3 coroutines that compute without yielding until all other participants are done, and 1-5 coroutines on the same or another environment that yield, sleep, lock, wait, "
    "throw and create coroutines; the scheduling signal arrives inside a leaf function that has known values in all registers and in the red zone; "
    "non-trivial = a coroutine got on while another one was computing",
    generate, render, run, tune, 16000, 200000};
#endif

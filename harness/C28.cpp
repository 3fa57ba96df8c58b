// C28: the program ends when main returns, whatever its coroutines are doing.
#include "common.h"

namespace
{
enum { L_YIELD, L_SLEEP, L_SLEEPS, L_CV, L_PUSH, L_LOCK, L_SHORT, L_TIMED, L_JOIN, L_CREATE, L_TIMER, L_PING, L_BLOCK, L_BUSY, L_BOUND, L_COUNT };
const char *names[] = {"yields", "sleeps", "sleeps often", "waits for a cv", "pushes", "waits for a mutex", "finishes", "waits for a cv with timeout", "joins", "creates and joins",
                       "timer", "ping-pong", "blocks its thread", "busy", "creates bound"};
enum { E_RETURN, E_CO, E_THREAD };
enum { H_NONE, H_LOCK, H_JOIN };
struct Left
{
    Place place;
    int what;
    int n;
};
struct Program
{
    std::vector<Left> left;
    bool wait; // until they have started, but not for long
    Work before;
    int end;
    Place end_place;
    int handler;
    int status;
    bool anywhere; // the scheduling signal arrives anywhere, also inside the library
} P;

void generate(Gen &g)
{
    P = Program();
    while (g.more(P.left.size(), 0, 6, 3))
    {
        Left l;
        l.place = gen_place(g, false, true, false);
        l.what = g.weighted({3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 1, 2});
        l.n = g.pick({1, 3, 10});
        P.left.push_back(l);
    }
    P.wait = g.chance(60);
    P.before = gen_work(g);
    P.end = g.weighted({5, 2, 1});
    P.end_place = gen_place(g, false, true, false);
    P.handler = g.weighted({5, 1, 1});
    P.status = g.pick({0, 1, 7, 255});
    P.anywhere = g.chance(25);
}
std::atomic<int> bound {0};
void tune(Gen &, CaseConfig &c)
{
    // a coroutine that never yields is interrupted once per tick
    if (c.tick_ms > 20) c.tick_ms = 20;
    // and looks at the clock all the time
    if (c.vs.now_cost_ns > 50000) c.vs.now_cost_ns = 50000;
}
std::string render()
{
    std::string s = P.anywhere ? "signals anywhere: " : "";
    for (auto &l : P.left) s += "{" + render_place(l.place) + ": " + names[l.what] + strf(" %d} ", l.n);
    s += P.handler == H_LOCK ? "atexit(lock a mutex) " : P.handler == H_JOIN ? "atexit(run a coroutine) " : "";
    s += (P.wait ? "wait " : "") + render_work(P.before);
    if (P.end == E_RETURN) return s + strf("return %d", P.status);
    return s + (P.end == E_CO ? "{" + render_place(P.end_place) + ": " : std::string("{thread: ")) + strf("exit(%d)}", P.status);
}

void run()
{
    vs_deliver_preempt(true);
    vs_deliver_anywhere(P.anywhere);
    auto &m = *new co_mutex;
    auto &cv = *new co_condition_variable;
    auto &locked = *new co_mutex;
    locked.lock();
    auto &a = *new Actors;
    auto &never = *new co_chan<int>(0);
    static std::atomic<int> started {0};
    bool busy = false;
    for (auto &l : P.left)
    {
        int n = l.n;
        auto ms = std::chrono::milliseconds(n);
        label(names[l.what]);
        if (l.what == L_TIMER)
        {
            auto &t = *new std::shared_ptr<co_timer>(co_timer::create([] { ++started; }, co_expire_type::loop, n));
            t->start();
            continue;
        }
        if (l.what == L_BUSY || l.what == L_BLOCK || l.what == L_YIELD) busy = true;
        co_env *env = l.what == L_BOUND ? a.env(l.place.env) : nullptr;
        a.spawn(l.place, [&, env, what = l.what, n, ms] {
            ++started;
            switch (what)
            {
            case L_YIELD:
                for (;;) this_co::yield();
            case L_SLEEP: this_co::sleep_for(100s); break;
            case L_SLEEPS:
                for (;;) this_co::sleep_for(ms);
            case L_CV:
            {
                std::unique_lock<co_mutex> l(m);
                cv.wait(l);
                break;
            }
            case L_PUSH: never.push(1); break;
            case L_LOCK: locked.lock(); break;
            case L_TIMED:
                for (;;)
                {
                    std::unique_lock<co_mutex> l(m);
                    cv.wait_for(l, ms);
                }
            case L_JOIN:
            {
                co c([] { this_co::sleep_for(100s); });
                c.join();
                break;
            }
            case L_CREATE:
                for (;;)
                {
                    co c([] {});
                    c.join();
                }
            case L_BOUND:
                // the environment can be blocked for a while
                for (;; this_co::yield())
                {
                    if (bound > 20) continue;
                    ++bound;
                    co c({with_bind_env(env)}, [] { --bound; });
                    c.detach();
                }
            case L_PING:
            {
                // not on the stack, which can be shared
                auto &ping = *new co_chan<int>(n == 1 ? 0 : n);
                co c([&ping] {
                    for (;;) ping.pop();
                });
                for (;;) ping.push(1);
            }
            case L_BLOCK: std::this_thread::sleep_for(10 * ms); break;
            case L_BUSY:
                for (;;) vs_busy_point();
            default:
                for (int i = 0; i < n; ++i) this_co::yield();
            }
        });
    }
    if (P.handler == H_LOCK)
        atexit([] {
            co_mutex l;
            l.lock();
            l.unlock();
            label("exit handler locks");
        });
    // the handler runs before the library's end, so coroutines still run
    if (P.handler == H_JOIN && !busy)
        atexit([] {
            static std::atomic<int> done {0}; // not on the stack, which can be shared
            co c([] { done = 1; });
            c.join();
            CHECK(done == 1, "an exit handler's coroutine did not run");
            label("exit handler runs a coroutine");
        });
    for (int i = 0; P.wait && i < 20 && started < (int)P.left.size(); ++i) std::this_thread::sleep_for(1ms);
    if (P.before.kind == W_SLEEP) P.before.kind = W_LONG;
    do_work(P.before);
    if (started > 0) nontrivial();
    note("end");
    vs_progress();
    if (P.end == E_RETURN) end_program(P.status);
    if (P.end == E_THREAD)
    {
        label("exit in a thread");
        std::thread t([] { end_program(P.status); });
        t.join();
        fail("exit returned");
    }
    label("exit in a coroutine");
    a.spawn(P.end_place, [] {
        note("exit");
        end_program(P.status);
    });
    std::this_thread::sleep_for(1000s);
}
}

const Property property = {
    "C28",
    "0-6 coroutines that yield, sleep, wait, create others, exchange values, block or never yield, and timers are left running when main returns, or a "
    "coroutine or thread calls exit; non-trivial = at least one of them had started",
    generate, render, run, tune, 40000, 400000, true,
    "objects used by the remaining coroutines outlive the program's end; exit handlers that need the coroutines run only without coroutines that never wait"};

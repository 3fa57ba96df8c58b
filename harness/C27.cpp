// C27: every created coroutine runs, whatever the pool of threads is doing; the pool keeps its limits.
#include "common.h"

namespace
{
enum { C_MAIN, C_THREAD, C_CO, C_TIMER, C_BOUND, C_WOKEN };
const char *cnames[] = {"main", "thread", "coroutine", "timer", "bound coroutine", "woken coroutine"};
struct Item
{
    Work w;
    bool shared, detached;
};
struct Creator
{
    int who;
    Work before;
    std::vector<Item> items;
};
enum { X_NONE, X_ENV, X_ENV_AUTO, X_EXCLUSIVE, X_BASE, X_MAX };
struct Phase
{
    int pause_ms; // before it
    int change, n;
    std::vector<Creator> creators;
};
struct Program
{
    bool base_mode; // only the growth up to the base count
    std::vector<Phase> phases;
} P;
int max0;

void tune(Gen &g, CaseConfig &c)
{
    c.base_envs = g.range(1, 4);
    c.max_envs = g.pick({1, 2, 3, 5, 128});
    c.tick_ms = g.pick({10, 10, 20, 100});
    if (c.vs.jump_max_us > 1000) c.vs.jump_max_us = 1000;
    max0 = c.max_envs;
}
void generate(Gen &g)
{
    P = Program();
    P.base_mode = g.chance(10);
    if (P.base_mode) return;
    while (g.more(P.phases.size(), 1, 6, 3))
    {
        Phase p {};
        p.pause_ms = g.pick({0, 1, 9, 10, 20, 21, 40, 60});
        p.change = g.chance(40) ? g.range(X_ENV, X_MAX) : X_NONE;
        p.n = g.range(0, 5);
        while (g.more(p.creators.size(), 1, 4, 2))
        {
            Creator c {};
            c.who = g.range(0, C_WOKEN);
            c.before = gen_work(g);
            while (g.more(c.items.size(), 1, 6, 3))
            {
                Item i {};
                i.w = gen_work(g);
                i.shared = g.chance(10);
                i.detached = g.chance(30);
                c.items.push_back(i);
            }
            p.creators.push_back(c);
        }
        P.phases.push_back(p);
    }
}
std::string render()
{
    if (P.base_mode) return "growth up to the base count";
    std::string s;
    const char *x[] = {"", "create_env ", "create_env(auto) ", "exclusive env ", "base count ", "max count "};
    for (auto &p : P.phases)
    {
        s += strf("pause %dms; ", p.pause_ms);
        if (p.change) s += x[p.change] + (p.change >= X_BASE ? strf("%d; ", p.n) : std::string("; "));
        for (auto &c : p.creators)
        {
            s += std::string(cnames[c.who]) + " " + render_work(c.before) + "[";
            for (auto &i : c.items) s += render_work(i.w) + (i.shared ? "shared" : "co") + (i.detached ? " detached, " : ", ");
            s += "] ";
        }
        s += "| ";
    }
    return s;
}

std::atomic<int> asked {0}, ran {0}, twice {0};
using Opts = std::initializer_list<std::function<void(co_ctx_config &)> >;

struct Runs
{
    std::atomic<int> n {0};
};
std::vector<std::unique_ptr<Runs> > runs;
std::atomic<int> nruns {0};

void create(const Creator &c)
{
    do_work(c.before);
    std::vector<std::unique_ptr<co> > cos;
    for (auto &i : c.items)
    {
        int id = nruns++;
        ++asked;
        try
        {
            auto h = std::make_unique<co>(Opts {with_shared_stack(i.shared)}, [&i, id] {
                if (runs[(size_t)id]->n++) fail("a coroutine ran twice");
                do_work(i.w);
                ++ran;
                vs_progress();
            });
            if (i.detached) h->detach();
            else
                cos.push_back(std::move(h));
        }
        catch (std::exception &e)
        {
            fail("creating a coroutine failed: %s", e.what());
        }
    }
    for (auto &h : cos) h->join();
    vs_progress();
}

void base_mode()
{
    int b = case_config.base_envs;
    std::atomic<int> started {0};
    std::vector<std::unique_ptr<co> > cos;
    for (int i = 0; i < b; ++i)
    {
        cos.push_back(std::make_unique<co>([&started, b] {
            ++started;
            while (started < b) std::this_thread::sleep_for(1ms);
        }));
        // each occupies a thread until all of them have started
        wait_soon([&] { return started > i; });
        CHECK(started > i, "with a base count of %d, coroutine %d did not start while %d others kept their threads", b, i + 1, i);
        vs_progress();
    }
    for (auto &c : cos) c->join();
    label("growth");
    if (b > 1) nontrivial();
}

void run()
{
    if (P.base_mode) return base_mode();
    size_t total = 0;
    for (auto &p : P.phases)
        for (auto &c : p.creators) total += c.items.size();
    for (size_t i = 0; i < total; ++i) runs.push_back(std::make_unique<Runs>());
    co_env *bound = nullptr;
    int extra = 0; // environments that the pool must not remove
    int max = case_config.max_envs;
    int threads0 = vs_thread_count();
    std::vector<std::shared_ptr<co_timer> > timers;
    for (auto &p : P.phases)
    {
        std::this_thread::sleep_for(std::chrono::milliseconds(p.pause_ms));
        switch (p.change)
        {
        case X_ENV:
            co::create_env(true);
            ++extra;
            break;
        case X_ENV_AUTO: co::create_env(false); break;
        case X_EXCLUSIVE:
            co::create_env(true)->set_exclusive();
            ++extra;
            break;
        case X_BASE: co::set_base_schedule_thread_count((size_t)p.n); break;
        case X_MAX:
            co::set_max_schedule_thread_count((size_t)p.n);
            max = std::max(1, p.n);
            break;
        default:;
        }
        int target = 0;
        std::vector<std::thread> ths;
        std::vector<std::unique_ptr<co> > cos;
        for (auto &c : p.creators) target += (int)c.items.size();
        target += ran;
        for (auto &c : p.creators)
        {
            switch (c.who)
            {
            case C_MAIN: create(c); break;
            case C_THREAD: ths.emplace_back([&c] { create(c); }); break;
            case C_CO: cos.push_back(std::make_unique<co>([&c] { create(c); })); break;
            case C_TIMER: {
                auto t = co_timer::create([&c] { create(c); }, std::chrono::steady_clock::now() + 5ms);
                t->start();
                timers.push_back(t);
                break;
            }
            case C_WOKEN: {
                // the first thing that the waking thread does with the library
                size_t how = c.items.size() % 3;
                auto sem = std::make_shared<co_counting_semaphore<10> >(0);
                auto latch = std::make_shared<co_latch>(1);
                auto ch = std::make_shared<co_chan<int> >(1);
                cos.push_back(std::make_unique<co>([&c, how, sem, latch, ch] {
                    if (how == 0) sem->acquire();
                    else if (how == 1) latch->wait();
                    else
                        ch->pop();
                    create(c);
                }));
                ths.emplace_back([how, sem, latch, ch] {
                    if (how == 0) sem->release();
                    else if (how == 1) latch->count_down();
                    else
                        ch->push(1);
                });
                break;
            }
            default:
                if (!bound)
                {
                    bound = co::create_env(true);
                    ++extra;
                }
                cos.push_back(std::make_unique<co>(Opts {with_bind_env(bound)}, [&c] { create(c); }));
            }
        }
        for (auto &t : ths) t.join();
        for (auto &c : cos) c->join();
        cos.clear();
        while (ran < target) std::this_thread::sleep_for(1ms); // a hang if one of them is lost
        vs_progress();
    }
    int peak = vs_thread_count() - threads0;
    // no load: the number of threads comes back to the limit
    int limit = threads0 + std::max(max, extra);
    wait_soon([=] { return vs_thread_count() <= limit; });
    int now = vs_thread_count();
    CHECK(now <= limit, "%d threads of the pool are left without load, the limit is %d (%d were created to stay)", now - threads0, max, extra);
    if (peak > std::max(max, extra))
    {
        label("pool shrank");
        nontrivial();
    }
    if (P.phases.size() > 1) nontrivial();
}
}

const Property property = {
    "C27",
    "1-6 bursts of 1-24 coroutines created by threads, coroutines, bound coroutines and timer callbacks, with pauses of about one or two ticks between them, environments created and "
    "marked exclusive, and changing base and maximum counts; non-trivial = several bursts or the pool had to shrink",
    generate, render, run, tune, 20000, 200000};

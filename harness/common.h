// Helpers shared by the property harnesses.  Only the public API of cocpp is used.
#pragma once
#include "cocpp/cocpp.h"
#include "pbt.h"
#include <atomic>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

using namespace cocpp;
using namespace std::chrono_literals;

// how a participant of a case is executed
enum Kind { K_CO = 0, K_BOUND = 1, K_SHARED = 2, K_THREAD = 3, K_SHARED_BOUND = 4 };
struct Place
{
    int kind = K_CO;
    int env = 0;   // index into the case's bound environments
    int prio = 99;
};
inline Place gen_place(Gen &g, bool threads = true, bool shared = true, bool prios = true)
{
    Place p;
    p.kind = g.weighted({5, 3, shared ? 1 : 0, threads ? 1 : 0, shared ? 1 : 0});
    p.env = g.range(0, 1);
    p.prio = prios && g.chance(20) ? g.pick({0, 1, 50, 98}) : 99;
    return p;
}
inline std::string render_place(const Place &p)
{
    const char *k[] = {"co", "bound", "shared", "thread", "sharedbound"};
    std::string s = k[p.kind];
    if (p.kind == K_BOUND || p.kind == K_SHARED_BOUND) s += strf("#%d", p.env);
    if (p.prio != 99) s += strf("@%d", p.prio);
    return s;
}

class Actors
{
    std::vector<co_env *> envs__ {nullptr, nullptr, nullptr, nullptr};
    std::vector<std::unique_ptr<co> > cos__;
    std::vector<std::thread> threads__;

public:
    co_env *env(int i)
    {
        if (!envs__[i]) envs__[i] = co::create_env(true);
        return envs__[i];
    }
    void spawn(const Place &p, std::function<void()> f)
    {
        auto body = [f] {
            f();
            vs_progress();
        };
        switch (p.kind)
        {
        case K_BOUND:
            cos__.push_back(std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_priority((size_t)p.prio), with_bind_env(env(p.env))}, body));
            break;
        case K_SHARED_BOUND:
            cos__.push_back(std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_priority((size_t)p.prio), with_bind_env(env(p.env)), with_shared_stack(true)}, body));
            break;
        case K_SHARED:
            cos__.push_back(std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_priority((size_t)p.prio), with_shared_stack(true)}, body));
            break;
        case K_THREAD:
            threads__.emplace_back(body);
            break;
        default:
            cos__.push_back(std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_priority((size_t)p.prio)}, body));
        }
    }
    void join()
    {
        for (auto &c : cos__)
        {
            c->join();
            vs_progress();
        }
        for (auto &t : threads__) t.join();
        cos__.clear();
        threads__.clear();
    }
};

// waits for something that needs no further work of the case
template <typename Cond>
inline void wait_soon(Cond cond)
{
    auto until = std::chrono::steady_clock::now() + 20s;
    while (!cond() && std::chrono::steady_clock::now() < until) std::this_thread::sleep_for(2ms);
}

// work done by a participant between two operations
enum { W_NONE = 0, W_YIELD = 1, W_SLEEP = 2, W_POINTS = 3, W_LONG = 4 };
struct Work
{
    int kind = 0, n = 0;
};
inline Work gen_work(Gen &g)
{
    Work w;
    w.kind = g.weighted({4, 3, 1, 2, 1});
    w.n = w.kind == W_YIELD ? g.range(1, 4) : w.kind == W_SLEEP ? g.pick({1, 3, 12, 30}) : w.kind == W_POINTS ? g.range(1, 30) : w.kind == W_LONG ? g.range(5, 25) : 0;
    return w;
}
inline std::string render_work(const Work &w)
{
    switch (w.kind)
    {
    case W_YIELD: return strf("yield*%d ", w.n);
    case W_SLEEP: return strf("sleep%dms ", w.n);
    case W_POINTS: return strf("work%d ", w.n);
    case W_LONG: return strf("block%dms ", w.n);
    default: return "";
    }
}
inline void do_work(const Work &w)
{
    switch (w.kind)
    {
    case W_YIELD:
        for (int i = 0; i < w.n; ++i) this_co::yield();
        break;
    case W_SLEEP: this_co::sleep_for(std::chrono::milliseconds(w.n)); break;
    case W_POINTS:
        for (int i = 0; i < w.n; ++i) vs_point();
        break;
    case W_LONG: std::this_thread::sleep_for(std::chrono::milliseconds(w.n)); break; // blocks the thread
    default: break;
    }
}

inline std::atomic<long> logical_clock {0};
inline long tick() { return ++logical_clock; }

inline int64_t now_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// upper bound for "soon": covers starvation by the schedule, time jumps and blocking work on the same thread
const int64_t SLACK = 20000000000;

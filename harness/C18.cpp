// C18: where coroutines run: bound environments, exclusive environments, program threads.
#include "common.h"
#include <unistd.h>
#include <sys/syscall.h>

namespace
{
enum { O_YIELD = 0, O_SLEEP, O_LOCK, O_SPAWN, O_WAIT, O_EXCLUSIVE, O_BLOCK, O_REFUSED };
struct Op
{
    int op = 0, n = 0;
    int env = -1;              // -1: unbound
    bool shared = false;
    int prio = 99;
    std::vector<Op> body;      // O_SPAWN
};
struct Env
{
    bool thread;    // a program thread that hands itself over
    bool exclusive; // from the start
};
struct Program
{
    std::vector<Env> envs;
    std::vector<std::pair<int, std::vector<Op> > > actors; // 0 coroutine, 1 thread
    std::vector<Op> main_ops;
} P;

std::vector<Op> gen_ops(Gen &g, int depth)
{
    std::vector<Op> v;
    while (g.more(v.size(), depth == 0 ? 1 : 0, depth == 0 ? 8 : 4, depth == 0 ? 4 : 2))
    {
        Op o;
        o.op = g.weighted({4, 2, 3, depth < 2 ? 7 : 0, 3, 1, 1, 1});
        switch (o.op)
        {
        case O_SLEEP: o.n = g.pick({0, 1, 5, 30}); break;
        case O_BLOCK: o.n = g.pick({1, 12, 25}); break;
        case O_SPAWN:
            o.env = g.range(-1, (int)P.envs.size() - 1);
            o.shared = g.chance(20);
            o.prio = g.chance(20) ? g.pick({0, 50, 98}) : 99;
            o.body = gen_ops(g, depth + 1);
            break;
        case O_EXCLUSIVE:
            o.env = P.envs.empty() ? -1 : g.range(0, (int)P.envs.size() - 1);
            break;
        default: break;
        }
        v.push_back(o);
    }
    return v;
}

void generate(Gen &g)
{
    P = Program();
    while (g.more(P.envs.size(), 0, 4, 5))
    {
        Env e;
        e.thread = g.chance(30);
        e.exclusive = g.chance(35);
        P.envs.push_back(e);
    }
    while (g.more(P.actors.size(), 0, 3, 2))
    {
        int k = g.range(0, 1);
        P.actors.push_back({k, gen_ops(g, 0)});
    }
    P.main_ops = gen_ops(g, 0);
}

std::string render_ops(const std::vector<Op> &v)
{
    std::string s;
    for (auto &o : v) switch (o.op)
    {
    case O_YIELD: s += " yield"; break;
    case O_SLEEP: s += strf(" sleep%dms", o.n); break;
    case O_LOCK: s += " lock"; break;
    case O_WAIT: s += " wait"; break;
    case O_BLOCK: s += strf(" block%dms", o.n); break;
    case O_EXCLUSIVE: s += strf(" exclusive(env%d)", o.env); break;
    case O_REFUSED: s += " bind-to-plain-thread"; break;
    case O_SPAWN:
        s += strf(" spawn(%s%s", o.env < 0 ? "unbound" : strf("env%d", o.env).c_str(), o.shared ? " shared" : "");
        if (o.prio != 99) s += strf(" @%d", o.prio);
        s += ":" + render_ops(o.body) + ")";
        break;
    }
    return s;
}
std::string render()
{
    std::string s;
    for (size_t i = 0; i < P.envs.size(); ++i)
        s += strf("env%d{%s%s} ", (int)i, P.envs[i].thread ? "thread" : "created", P.envs[i].exclusive ? " exclusive" : "");
    for (auto &a : P.actors) s += std::string(a.first ? "thread{" : "co{") + render_ops(a.second) + " } ";
    s += "main{" + render_ops(P.main_ops) + " }";
    return s;
}

struct RtEnv
{
    co_env *env = nullptr;
    std::atomic<long> tid {0};        // of the thread that runs what is bound to it
    std::atomic<bool> exclusive {false};
};
RtEnv envs[4];
std::atomic<long> plain_tids[8];
std::atomic<int> n_plain {0};
std::atomic<co_env *> plain_env {nullptr};
long plain_env_tid;
std::atomic<int> started {0}, ended {0};
std::atomic<long> owner {0};
co_mutex *mu;

long my_tid() { return syscall(SYS_gettid); }

struct Child
{
    std::unique_ptr<co> handle;
    std::shared_ptr<std::atomic<int> > done = std::make_shared<std::atomic<int> >(0);
};

void register_plain()
{
    plain_tids[n_plain++] = my_tid();
}

// env < -1: a plain thread
void check_place(int env, long first, unsigned excluded)
{
    long t = my_tid();
    if (env < -1) return;
    CHECK(t == first, "a coroutine continued on another thread");
    if (env >= 0)
    {
        CHECK(co::current_env() == envs[env].env, "a bound coroutine is in another environment");
        long expected = 0;
        if (!envs[env].tid.compare_exchange_strong(expected, t)) CHECK(expected == t, "a coroutine bound to env%d runs on another thread", env);
    }
    else
        for (int i = 0; i < (int)P.envs.size(); ++i)
            if (excluded & (1u << i)) CHECK(co::current_env() != envs[i].env && envs[i].tid != t, "an unbound coroutine runs on the exclusive env%d", i);
    for (int i = 0; i < n_plain; ++i) CHECK(plain_tids[i] != t, "a coroutine runs on a program thread that does not schedule");
}

void run_ops(const std::vector<Op> &ops, int env, unsigned excluded)
{
    std::vector<Child> children;
    long me = my_tid();
    check_place(env, me, excluded);
    auto wait_one = [&] {
        auto c = std::move(children.back());
        children.pop_back();
        c.handle->join();
        CHECK(*c.done == 1, "a wait for a coroutine returned before it ended");
        vs_progress();
    };
    for (auto &o : ops)
    {
        switch (o.op)
        {
        case O_YIELD: this_co::yield(); break;
        case O_SLEEP:
        {
            auto t0 = now_ns();
            this_co::sleep_for(std::chrono::milliseconds(o.n));
            CHECK(now_ns() - t0 >= o.n * 1000000L, "a sleep was too short");
            break;
        }
        case O_BLOCK: std::this_thread::sleep_for(std::chrono::milliseconds(o.n)); break;
        case O_LOCK:
        {
            std::lock_guard<co_mutex> lock(*mu);
            CHECK(++owner == 1, "two participants own the mutex");
            this_co::yield();
            --owner;
            break;
        }
        case O_WAIT:
            if (!children.empty()) wait_one();
            break;
        case O_EXCLUSIVE:
            if (o.env >= 0)
            {
                envs[o.env].env->set_exclusive();
                envs[o.env].exclusive = true;
            }
            break;
        case O_REFUSED:
            if (plain_env)
            {
                label("bound to a plain thread");
                auto ran = std::make_shared<std::atomic<int> >(0);
                try
                {
                    co c({with_bind_env(plain_env.load())}, [ran] {
                        CHECK(my_tid() == plain_env_tid, "a coroutine bound to a thread runs elsewhere");
                        ++*ran;
                    });
                    c.detach();
                }
                catch (std::exception &)
                {
                    this_co::yield();
                    CHECK(*ran == 0, "a refused coroutine ran");
                }
            }
            break;
        case O_SPAWN:
        {
            unsigned ex = 0;
            for (int i = 0; i < (int)P.envs.size(); ++i)
                if (envs[i].exclusive) ex |= 1u << i;
            Child c;
            auto done = c.done;
            auto body = [&o, ex, done] {
                if (o.env >= 0)
                {
                    label(P.envs[(size_t)o.env].thread ? "bound to a handed-over thread" : "bound");
                    nontrivial();
                }
                else if (ex)
                {
                    label("unbound beside an exclusive environment");
                    nontrivial();
                }
                ++started;
                run_ops(o.body, o.env, ex);
                ++ended;
                ++*done;
                vs_progress();
            };
            c.handle = std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_priority((size_t)o.prio), with_bind_env(o.env < 0 ? nullptr : envs[o.env].env), with_shared_stack(o.shared)}, body);
            CHECK(o.env < 0 || c.handle->ctx_env() == envs[o.env].env, "ctx_env is not the bound environment");
            children.push_back(std::move(c));
            break;
        }
        default: break;
        }
        check_place(env, me, excluded);
    }
    while (!children.empty()) wait_one();
    check_place(env, me, excluded);
}

void run()
{
    mu = new co_mutex;
    register_plain();
    for (size_t i = 0; i < P.envs.size(); ++i)
    {
        if (P.envs[i].thread)
        {
            auto ready = std::make_shared<std::atomic<co_env *> >(nullptr);
            std::thread([i, ready] {
                envs[i].tid = my_tid();
                *ready = co::current_env();
                co::schedule_in_this_thread();
            }).detach();
            while (!*ready) std::this_thread::sleep_for(1ms);
            envs[i].env = *ready;
            // wait until the thread schedules
            for (bool ok = false; !ok;)
                try
                {
                    co probe({with_bind_env(envs[i].env)}, [] {});
                    probe.join();
                    ok = true;
                }
                catch (std::runtime_error &)
                {
                    std::this_thread::sleep_for(1ms);
                }
        }
        else
            envs[i].env = co::create_env(true);
        if (P.envs[i].exclusive)
        {
            envs[i].env->set_exclusive();
            envs[i].exclusive = true;
        }
    }
    std::vector<std::thread> threads;
    std::vector<std::unique_ptr<co> > cos;
    for (auto &a : P.actors)
        if (a.first)
            threads.emplace_back([&a] {
                register_plain();
                if (!plain_env)
                {
                    plain_env_tid = my_tid();
                    plain_env = co::current_env();
                }
                run_ops(a.second, -2, 0);
                vs_progress();
            });
        else
            cos.push_back(std::make_unique<co>([&a] { run_ops(a.second, -1, 0); }));
    run_ops(P.main_ops, -2, 0);
    for (auto &c : cos) c->join();
    for (auto &t : threads) t.join();
    CHECK(started == ended, "a coroutine did not end");
}

}

const Property property = {
    "C18",
    "0-4 environments (created, or program threads handed over to scheduling; some exclusive from the start or later), 1-4 participants (main, threads, coroutines) "
    "that create bound and unbound coroutines up to depth 2, wait, sleep, lock, yield and block; after every operation each coroutine checks its thread and environment; "
    "non-trivial = a bound coroutine ran, or an unbound one while an environment was exclusive",
    generate, render, run, nullptr, 24000, 300000};

// C17: within one environment scheduling follows priority, and equal priorities take turns.
#include "common.h"
#include <algorithm>

namespace
{
enum { O_YIELD, O_PRIO, O_OUTSIDE, O_WAIT, O_SPAWN, O_WORK };
struct Op
{
    int op, target, value;
};
struct Co
{
    int prio;
    bool late; // created by an O_SPAWN (or at the end of the creator's life)
    bool shared;
    std::vector<Op> ops;
};
struct Changer
{
    Place place;
    std::vector<std::pair<Op, Work> > ops;
};
struct Program
{
    std::vector<Co> cos;
    std::vector<Changer> changers; // if there are any: priorities are changed by others at any time, without a model
} P;
const int VALUES[] = {99, 0, 1, 2, 50, 98, 100, 1000, -1, -100};
int clamp_prio(int v) { return std::clamp(v, 0, 99); }

void generate(Gen &g)
{
    P = Program();
    bool storm = g.chance(30);
    int n = 2;
    while (g.more((size_t)n, 2, 8, 5)) ++n;
    int spread = g.weighted({3, 2, 1}); // how many different priorities there are
    for (int i = 0; i < n; ++i)
    {
        Co c;
        c.prio = spread == 0 ? g.pick({99, 50}) : spread == 1 ? g.pick({0, 1, 2, 50, 99}) : VALUES[g.range(0, 7)];
        c.late = i > 0 && g.chance(20);
        c.shared = g.chance(15);
        while (g.more(c.ops.size(), 0, 10, 6))
        {
            Op o;
            o.op = g.weighted({8, 3, 1, 2, 1, 1});
            o.target = g.range(0, n - 1);
            o.value = VALUES[g.range(0, 9)];
            c.ops.push_back(o);
        }
        P.cos.push_back(c);
    }
    if (storm)
        while (g.more(P.changers.size(), 1, 4, 2))
        {
            Changer c;
            c.place = gen_place(g);
            while (g.more(c.ops.size(), 1, 8, 4)) c.ops.push_back({{O_PRIO, g.range(0, n - 1), VALUES[g.range(0, 9)]}, gen_work(g)});
            P.changers.push_back(c);
        }
}
std::string render()
{
    std::string s;
    for (size_t i = 0; i < P.cos.size(); ++i)
    {
        auto &c = P.cos[i];
        s += strf("co%zu{prio %d%s%s:", i, c.prio, c.late ? " late" : "", c.shared ? " shared" : "");
        for (auto &o : c.ops)
            switch (o.op)
            {
            case O_YIELD: s += " yield"; break;
            case O_PRIO: s += strf(" prio(co%d %d)", o.target, o.value); break;
            case O_OUTSIDE: s += strf(" outside-prio(co%d %d)", o.target, o.value); break;
            case O_WAIT: s += strf(" wait(co%d)", o.target); break;
            case O_SPAWN: s += strf(" spawn(co%d)", o.target); break;
            default: s += " work";
            }
        s += "} ";
    }
    for (auto &c : P.changers)
    {
        s += "changer{" + render_place(c.place) + ":";
        for (auto &o : c.ops) s += " " + render_work(o.second) + strf("prio(co%d %d)", o.first.target, o.first.value);
        s += "} ";
    }
    return s;
}

// model; everything happens on one thread, except what the main thread does on request while that one waits
enum { S_NONE, S_READY, S_WAITING, S_DONE };
struct State
{
    int status = S_NONE;
    int prio = 0;      // its own
    int eff = 0;       // while it waits: the one of its target
    int target = -1;
    int waiters = 0;
    long since = 0;    // ready with this priority since
    long last = 0;     // last continued at
} S[10];
long seq;
std::unique_ptr<co> handles[10];
std::atomic<int> request {0}, rq_target {0}, rq_value {0};
std::atomic<int> finished {0}, made {0};
std::atomic<bool> gate_running, gate_open;

void resumed(int i)
{
    auto &a = S[i];
    CHECK(a.status == S_READY, "co%d continued although it waits or has ended", i);
    int ready = 0;
    for (int j = 0; j < (int)P.cos.size(); ++j)
    {
        auto &b = S[j];
        if (b.status != S_READY) continue;
        ++ready;
        if (j == i) continue;
        CHECK(b.eff >= a.eff, "co%d (priority %d) continued while co%d (priority %d) was ready", i, a.eff, j, b.eff);
        if (b.eff == a.eff && a.last && a.since <= a.last && b.since < a.last)
            CHECK(b.last > a.last, "co%d continued twice while co%d of the same priority was ready all the time", i, j);
    }
    if (ready > 1)
    {
        label("choice");
        nontrivial();
    }
    a.last = ++seq;
    observe((uint64_t)i);
    vs_progress();
}
void set_model_prio(int t, int v)
{
    v = clamp_prio(v);
    if (v != S[t].prio)
    {
        S[t].since = ++seq;
        label("priority changed");
    }
    S[t].prio = S[t].eff = v;
}
void body(int i);
void make(int i, co_env *env)
{
    ++made;
    S[i].status = S_READY;
    S[i].prio = S[i].eff = clamp_prio(P.cos[(size_t)i].prio);
    S[i].since = ++seq;
    handles[i] = std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_priority((size_t)P.cos[(size_t)i].prio), with_bind_env(env), with_shared_stack(P.cos[(size_t)i].shared)}, [i] { body(i); });
}
co_env *the_env;
void body(int i)
{
    resumed(i);
    auto check_prio = [](int t) {
        int p = (int)handles[t]->ctx_priority();
        CHECK(p == S[t].eff, "the priority of co%d is %d instead of %d", t, p, S[t].eff);
    };
    auto go_on = [&] {
        for (auto &o : P.cos[(size_t)i].ops)
        {
            auto &t = S[o.target];
            switch (o.op)
            {
            case O_YIELD:
                this_co::yield();
                resumed(i);
                break;
            case O_PRIO:
            case O_OUTSIDE:
                // what becomes of a priority that is changed while it is inherited is not specified
                if (t.status != S_READY || t.waiters || (o.target != i && t.target >= 0)) break;
                if (o.op == O_PRIO)
                    handles[o.target]->ctx_set_priority(o.value);
                else
                {
                    rq_target = o.target;
                    rq_value = o.value;
                    request = 1;
                    while (request) vs_point();
                    label("changed from outside");
                }
                set_model_prio(o.target, o.value);
                check_prio(o.target);
                break;
            case O_WAIT:
                if (o.target <= i || t.status == S_NONE) break; // no cycles
                if (t.status != S_DONE)
                {
                    S[i].status = S_WAITING;
                    S[i].target = o.target;
                    S[i].eff = t.eff;
                    ++t.waiters;
                    handles[o.target]->wait<void>();
                    label("waited");
                    // now ready again, with the inherited priority
                    resumed(i);
                    S[i].target = -1;
                    if (S[i].eff != S[i].prio) S[i].since = ++seq;
                    S[i].eff = S[i].prio;
                }
                else
                    handles[o.target]->wait<void>();
                check_prio(i);
                break;
            case O_SPAWN:
                if (!P.cos[(size_t)o.target].late || t.status != S_NONE) break;
                make(o.target, the_env);
                label("created by a coroutine");
                break;
            default: vs_point();
            }
            for (int t2 = 0; t2 < (int)P.cos.size(); ++t2)
                if (S[t2].status == S_WAITING) check_prio(t2);
        }
    };
    go_on();
    S[i].status = S_DONE;
    for (int j = 0; j < (int)P.cos.size(); ++j)
        if (S[j].status == S_WAITING && S[j].target == i)
        {
            S[j].status = S_READY;
            S[j].since = ++seq;
            --S[i].waiters;
        }
    ++finished;
}

// priorities are changed by others at any time: nobody is lost, and the last value counts
void run_storm()
{
    Actors acts;
    the_env = acts.env(0);
    std::vector<std::unique_ptr<co> > hs;
    hs.reserve(P.cos.size()); // the coroutines run while further ones are created
    for (size_t i = 0; i < P.cos.size(); ++i)
    {
        auto &c = P.cos[i];
        hs.push_back(std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_priority((size_t)c.prio), with_bind_env(c.late ? nullptr : the_env), with_shared_stack(c.shared)}, [&c, &hs, i] {
            for (auto &o : c.ops)
                switch (o.op)
                {
                case O_PRIO:
                case O_OUTSIDE: this_co::sleep_for(std::chrono::milliseconds(o.target)); break;
                case O_WAIT:
                    if ((size_t)o.target < i) hs[(size_t)o.target]->wait<void>();
                    break;
                default: this_co::yield();
                }
            ++finished;
            vs_progress();
        }));
    }
    for (auto &c : P.changers)
        acts.spawn(c.place, [&] {
            for (auto &o : c.ops)
            {
                do_work(o.second);
                if (finished < (int)P.cos.size())
                {
                    nontrivial();
                    label("changed at any time");
                }
                hs[(size_t)o.first.target]->ctx_set_priority(o.first.value);
                int p = (int)hs[(size_t)o.first.target]->ctx_priority();
                CHECK(p >= 0 && p <= 99, "the priority is %d", p);
            }
        });
    acts.join();
    for (auto &h : hs) h->wait<void>();
    CHECK(finished == (int)P.cos.size(), "not all coroutines ended");
    for (size_t i = 0; i < hs.size(); ++i)
    {
        int v = P.changers[0].ops[0].first.value + (int)i;
        hs[i]->ctx_set_priority(v);
        CHECK((int)hs[i]->ctx_priority() == clamp_prio(v), "the priority is %d after setting %d", (int)hs[i]->ctx_priority(), v);
    }
}

void run()
{
    if (!P.changers.empty()) return run_storm();
    the_env = co::create_env(true);
    co gate({with_priority(0), with_bind_env(the_env)}, [] {
        gate_running = true;
        while (!gate_open) vs_point();
    });
    while (!gate_running) vs_point();
    for (int i = 0; i < (int)P.cos.size(); ++i)
        if (!P.cos[(size_t)i].late) make(i, the_env);
    gate_open = true;
    while (true)
    {
        // the handles are not touched before all are done, those that were created late too
        int done = finished;
        if (done == made) break;
        if (request)
        {
            handles[rq_target]->ctx_set_priority(rq_value);
            request = 0;
        }
        std::this_thread::sleep_for(1ms);
    }
    gate.join();
    for (auto &h : handles)
        if (h) h->join();
}
}

const Property property = {
    "C17",
    "2-8 coroutines of one environment with generated priorities (also out of range) and 0-10 operations each: yield, priority changes of itself and "
    "others from inside and outside, waits for each other, creation of further coroutines; every continuation is compared with a model of the ready "
    "coroutines; or 1-4 participants change the priorities at any time (then: nobody is lost, values clamped); non-trivial = the scheduler had a choice, "
    "or a priority was changed while coroutines were running",
    generate, render, run, nullptr, 24000, 300000};

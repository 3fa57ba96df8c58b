// C25: events call the current subscribers once per publication, in the order of subscription.
#include "common.h"

namespace
{
constexpr int MAXSUB = 160, MAXPUB = 400, MAXCALL = 30000;
bool anywhere;

enum { A_UNSUB_SELF, A_UNSUB, A_SUB, A_PUB, A_WORK, A_RESUB };
struct Act
{
    int kind, n;
    Work w;
};
enum { O_SUB, O_UNSUB, O_PUB, O_WORK, O_UNSUB_TWICE };
struct Op
{
    int kind, n;
    std::vector<Act> script; // what the callback does when called (only in the first calls)
    Work w;
};
struct Actor
{
    Place p;
    int finish_cbs; // callbacks for the end of this coroutine
    std::vector<Op> ops;
};
struct Program
{
    bool anywhere;
    std::vector<Op> first; // before the actors start
    std::vector<Actor> actors;
} P;

void tune(Gen &g, CaseConfig &c)
{
    anywhere = g.chance(30);
    if (!anywhere) return;
    c.tick_ms = g.pick({10, 20});
    c.vs.now_cost_ns = 100000;
    if (c.vs.jump_max_us > 1000) c.vs.jump_max_us = 1000;
    c.vs.step_cost_ns = g.pick({1000, 20000, 100000});
}

Op gen_op(Gen &g, bool plain)
{
    Op o {};
    o.kind = g.weighted({4, 3, 5, plain ? 0 : 3, 1});
    o.n = g.range(0, 9);
    if (o.kind == O_WORK)
    {
        o.w = gen_work(g);
        if (o.w.kind == W_LONG) o.w.n = 3;
    }
    if (o.kind == O_SUB && g.chance(40))
        while (g.more(o.script.size(), 1, 3, 2))
        {
            Act a {};
            a.kind = g.weighted({3, 2, 3, 2, 3, 1});
            a.n = g.range(0, 9);
            if (a.kind == A_WORK)
            {
                a.w.kind = g.chance(50) ? W_YIELD : W_POINTS;
                a.w.n = g.range(1, 5);
            }
            o.script.push_back(a);
        }
    return o;
}
std::string render_op(const Op &o)
{
    std::string s = o.kind == O_SUB ? "sub" : o.kind == O_UNSUB ? strf("unsub(-%d) ", o.n) : o.kind == O_UNSUB_TWICE ? strf("unsub twice(-%d) ", o.n) : o.kind == O_PUB ? "pub " : render_work(o.w);
    if (o.kind == O_SUB)
    {
        if (!o.script.empty()) s += "{";
        for (auto &a : o.script)
            s += a.kind == A_UNSUB_SELF ? "unsub self " : a.kind == A_UNSUB ? strf("unsub(-%d) ", a.n) : a.kind == A_SUB ? "sub " : a.kind == A_PUB ? "pub " : a.kind == A_RESUB ? "resub " : render_work(a.w);
        s += o.script.empty() ? " " : "} ";
    }
    return s;
}
void generate(Gen &g)
{
    P = Program();
    P.anywhere = anywhere;
    while (g.more(P.first.size(), 0, 8, 3)) P.first.push_back(gen_op(g, true));
    while (g.more(P.actors.size(), 1, 5, 2))
    {
        Actor a;
        a.p = gen_place(g, true, true, false);
        a.finish_cbs = g.range(0, 2);
        while (g.more(a.ops.size(), 1, 12, 5)) a.ops.push_back(gen_op(g, false));
        P.actors.push_back(a);
    }
}
std::string render()
{
    std::string s = P.anywhere ? "interrupted anywhere; first: " : "first: ";
    for (auto &o : P.first) s += render_op(o);
    for (auto &a : P.actors)
    {
        s += "| " + render_place(a.p) + strf(" finish callbacks %d: ", a.finish_cbs);
        for (auto &o : a.ops) s += render_op(o);
    }
    return s;
}

struct Sub
{
    std::atomic<int> begin {0}, end {0}, unsub_begin {0}, unsub_end {0}, calls {0};
    std::atomic<co_event_handle> h {0};
    const std::vector<Act> *script = nullptr;
};
struct Pub
{
    std::atomic<int> begin {0}, end {0};
};
struct Call
{
    std::atomic<int> pub {-1}, sub {-1};
};
Sub subs[MAXSUB];
Pub pubs[MAXPUB];
Call calls[MAXCALL];
std::atomic<int> clock_ {0}, nsub {0}, npub {0}, ncall {0}, active {0};
co_event<int, std::string, long long> *ev;
const std::vector<Act> none;

void publish(int depth);
void subscribe(const std::vector<Act> *script);

// the handle of the n-th last subscription
int pick_sub(int n)
{
    int m = std::min(nsub.load(), MAXSUB);
    return m == 0 ? -1 : std::max(0, m - 1 - n);
}
void unsubscribe(int id)
{
    if (id < 0 || !subs[id].end) return; // handle not known yet
    int zero = 0, t = ++clock_;
    subs[id].unsub_begin.compare_exchange_strong(zero, t);
    ev->unsub(subs[id].h);
    t = ++clock_;
    zero = 0;
    subs[id].unsub_end.compare_exchange_strong(zero, t);
}
void called(int id, int pub, const std::string &text, long long v)
{
    CHECK(pub >= 0 && pub < MAXPUB && v == pub * 1000003ll && text == std::string((size_t)pub % 40, 'e') + std::to_string(pub), "a callback got other arguments than the published ones");
    int i = ncall++;
    if (i >= MAXCALL) fail("the callbacks are called without end");
    calls[i].pub = pub;
    calls[i].sub = id;
    int nth = subs[id].calls++;
    if (nth > 2 || pub % 4 == 3) return; // scripts run in the first calls, and not nested forever
    for (auto &a : *subs[id].script)
    {
        switch (a.kind)
        {
        case A_UNSUB_SELF:
            label("unsubscribed itself");
            unsubscribe(id);
            break;
        case A_UNSUB:
            label("unsubscribed in a callback");
            unsubscribe(pick_sub(a.n));
            break;
        case A_SUB:
            label("subscribed in a callback");
            subscribe(&none);
            break;
        case A_RESUB:
            unsubscribe(id);
            subscribe(&none);
            break;
        case A_PUB:
            label("published in a callback");
            publish(pub % 4 + 1);
            break;
        default:
            if (a.w.kind == W_YIELD) label("suspended in a callback");
            do_work(a.w);
        }
    }
}
void subscribe(const std::vector<Act> *script)
{
    int id = nsub++;
    if (id >= MAXSUB)
    {
        nsub = MAXSUB;
        return;
    }
    subs[id].script = script;
    subs[id].begin = ++clock_;
    subs[id].h = ev->sub([id](int pub, std::string text, long long v) { called(id, pub, text, v); });
    subs[id].end = ++clock_;
}
// the depth of a publication is the last two bits of its number
void publish(int depth)
{
    int id = npub.fetch_add(4) + depth;
    if (id >= MAXPUB - 4) return;
    if (++active > 1) nontrivial();
    pubs[id].begin = ++clock_;
    ev->pub(id, std::string((size_t)id % 40, 'e') + std::to_string(id), id * 1000003ll);
    pubs[id].end = ++clock_;
    --active;
}
void do_op(const Op &o)
{
    switch (o.kind)
    {
    case O_SUB: subscribe(&o.script); break;
    case O_UNSUB: unsubscribe(pick_sub(o.n)); break;
    case O_UNSUB_TWICE: {
        int id = pick_sub(o.n);
        unsubscribe(id);
        unsubscribe(id);
        ev->unsub(1000000);
        break;
    }
    case O_PUB: publish(0); break;
    default: do_work(o.w);
    }
}

std::atomic<int> finish_calls[16];

void check()
{
    int ns = std::min(nsub.load(), MAXSUB), np = std::min(npub.load(), MAXPUB);
    for (int i = 0; i < ns; ++i)
        for (int j = 0; j < i; ++j)
        {
            auto &a = subs[j], &b = subs[i];
            bool gone = (a.unsub_end && a.unsub_end < b.begin) || (b.unsub_end && b.unsub_end < a.begin);
            CHECK(gone || a.h != b.h, "two subscriptions got the same handle");
        }
    std::vector<std::vector<int> > order(MAXPUB);
    for (int i = 0, n = ncall; i < n; ++i) order[(size_t)calls[i].pub].push_back(calls[i].sub);
    for (int p = 0; p < np; ++p)
    {
        if (!pubs[p].begin) continue;
        int b = pubs[p].begin, e = pubs[p].end;
        std::vector<int> cnt(MAXSUB, 0);
        auto &ord = order[(size_t)p];
        for (size_t i = 0; i < ord.size(); ++i)
        {
            cnt[(size_t)ord[i]]++;
            for (size_t j = 0; j < i; ++j)
                CHECK(!(subs[ord[i]].end < subs[ord[j]].begin), "publication %d called subscriber %d before the earlier subscriber %d", p, ord[j], ord[i]);
        }
        for (int s = 0; s < ns; ++s)
        {
            auto &u = subs[s];
            if (u.end < b && (!u.unsub_begin || u.unsub_begin > e))
                CHECK(cnt[(size_t)s] == 1, "publication %d called subscriber %d, which was subscribed all the time, %d times", p, s, cnt[(size_t)s]);
            else if (u.begin > e || (u.unsub_end && u.unsub_end < b))
                CHECK(cnt[(size_t)s] == 0, "publication %d called subscriber %d, which was not subscribed", p, s);
            else
            {
                label("changed during a publication");
                nontrivial();
                CHECK(cnt[(size_t)s] <= 1, "publication %d called subscriber %d %d times", p, s, cnt[(size_t)s]);
            }
        }
    }
}

void run()
{
    ev = new co_event<int, std::string, long long>;
    int expected[16] = {};
    for (auto &o : P.first) do_op(o);
    Actors as;
    std::vector<co_env *> envs;
    vs_deliver_anywhere(P.anywhere);
    for (size_t i = 0; i < P.actors.size(); ++i)
    {
        auto &a = P.actors[i];
        bool thread = a.p.kind == K_THREAD;
        if (!thread) expected[i] = a.finish_cbs;
        as.spawn(a.p, [&a, i, thread] {
            if (!thread)
                for (int k = 0; k < a.finish_cbs; ++k) co::current_env()->current_ctx()->finished().sub([i] { ++finish_calls[i]; });
            for (int round = 0; round < (P.anywhere ? 3 : 1); ++round)
                for (auto &o : a.ops)
                {
                    if (P.anywhere) vs_spend(4000000);
                    do_op(o);
                }
        });
    }
    as.join();
    vs_deliver_anywhere(false);
    if (vs_preempts_raised()) label("interrupted");
    std::this_thread::sleep_for(1s);
    for (size_t i = 0; i < P.actors.size(); ++i)
        CHECK(finish_calls[i] == expected[i], "%d calls for the end of a coroutine with %d subscribers", finish_calls[i].load(), expected[i]);
    publish(3);
    check();
    delete ev;
}
}

const Property property = {
    "C25",
    "1-5 coroutines and threads that subscribe, unsubscribe and publish one event, with callbacks that subscribe, unsubscribe themselves and others, publish and suspend, and "
    "subscribe to their own end; 30% of the cases interrupt coroutines at any instruction; non-trivial = two publications overlapped or the subscriptions changed during one",
    generate, render, run, tune, 50000, 400000};

// C14: timed waits for a coroutine: its result, or a timeout at the right time.
#include "common.h"

namespace
{
enum { F_NOW, F_SLEEP, F_GATE };
enum { Q_FOR, Q_UNTIL, Q_WAIT };
const int FOREVER = INT_MAX; // the longest time there is
struct Target
{
    Place place;
    int finish;   // how it ends
    int us;       // F_SLEEP: after that time
    bool throws;
    bool shortly; // the handle is destroyed right after the last wait
};
struct Query
{
    int co, how, us;
    Work before;
};
struct Waiter
{
    Place place;
    std::vector<Query> qs;
};
struct Program
{
    std::vector<Target> cos;
    std::vector<Waiter> waiters;
    int gate_ms;
} P;

void generate(Gen &g)
{
    P = Program();
    P.gate_ms = g.pick({0, 3, 30, 100});
    while (g.more(P.cos.size(), 1, 4, 1))
    {
        Target t;
        t.place = gen_place(g, false);
        t.finish = g.weighted({1, 5, 2});
        t.us = g.pick({0, 500, 1000, 2000, 5000, 20000});
        t.throws = g.chance(20);
        t.shortly = g.chance(70);
        P.cos.push_back(t);
    }
    while (g.more(P.waiters.size(), 1, 5, 2))
    {
        Waiter w;
        w.place = gen_place(g);
        while (g.more(w.qs.size(), 1, 5, 2))
        {
            Query q;
            q.co = g.range(0, (int)P.cos.size() - 1);
            q.how = g.weighted({4, 4, 1});
            q.us = g.pick({1000, 0, 50, 999, 1500, 2000, 5000, 20000, 60000, 1000000000, FOREVER, -1, -3000, -5000000});
            q.before = gen_work(g);
            w.qs.push_back(q);
        }
        P.waiters.push_back(w);
    }
}
std::string render()
{
    const char *hs[] = {"wait_for", "wait_until", "wait"};
    std::string s;
    for (auto &c : P.cos)
        s += strf("co{%s %s%s%s} ", render_place(c.place).c_str(), c.finish == F_NOW ? "ends" : c.finish == F_SLEEP ? strf("ends after %dus", c.us).c_str() : "ends at the gate", c.throws ? " throws" : "", c.shortly ? "" : " handle kept");
    for (auto &w : P.waiters)
    {
        s += "{" + render_place(w.place) + ":";
        for (auto &q : w.qs) s += " " + render_work(q.before) + strf("%s(co%d", hs[q.how], q.co) + (q.how == Q_WAIT ? ")" : q.us == FOREVER ? " forever)" : strf(" %+dus)", q.us));
        s += "} ";
    }
    return s + strf("gate after %dms", P.gate_ms);
}

struct State
{
    std::atomic<int> runs {0};
    std::atomic<int64_t> end {0};          // when the body ended
    std::atomic<int> known {0};            // a wait reported the end
    std::atomic<int> delivered {0};
    std::atomic<int> users {0};
} S[8];
std::atomic<bool> gate;

void ask(co &h, const Query &q)
{
    auto &t = P.cos[(size_t)q.co];
    auto &s = S[q.co];
    bool known = s.known != 0;
    int64_t t0 = now_ns(), deadline = q.us == FOREVER ? INT64_MAX : t0 + (int64_t)q.us * 1000;
    bool timed = q.how != Q_WAIT, got = true, exc = false;
    try
    {
        std::optional<co_return_value> r;
        switch (q.how)
        {
        case Q_FOR: r = q.us == FOREVER ? h.wait_for(std::chrono::nanoseconds::max()) : h.wait_for(std::chrono::microseconds(q.us)); break;
        case Q_UNTIL: r = h.wait_until(std::chrono::steady_clock::time_point(std::chrono::nanoseconds(deadline))); break;
        default:
            if (h.wait<int>() != q.co + 17) fail("wait for co%d returned another value", q.co);
        }
        if (timed)
        {
            got = r.has_value();
            if (got && !(t.throws && s.delivered)) CHECK((int)*r == q.co + 17, "timed wait for co%d returned another value", q.co);
        }
    }
    catch (std::bad_cast &)
    {
        // the exception was already delivered to another waiter: there is no value (or it is just being delivered)
        CHECK(t.throws, "co%d has no result", q.co);
    }
    catch (std::string &e)
    {
        exc = true;
        CHECK(t.throws && e == strf("exception of co%d", q.co), "co%d: wrong exception", q.co);
        int d = ++s.delivered;
        CHECK(d == 1, "the exception of co%d was delivered %d times", q.co, d);
    }
    int64_t t1 = now_ns(), end = s.end;
    note("%s co%d %s", timed ? "timed wait" : "wait", q.co, exc ? "exception" : got ? "result" : "timeout");
    if (got)
    {
        CHECK(end != 0, "the wait for co%d reported a result before it ended", q.co);
        s.known = 1;
        CHECK(t1 <= std::max(t0, end) + SLACK, "the wait for co%d came back %lld us after the coroutine ended", q.co, (long long)(t1 - std::max(t0, end)) / 1000);
        if (end > t0) nontrivial();
        label(exc ? "exception" : "result");
    }
    else
    {
        label(q.us <= 0 ? "poll" : "timeout");
        if (q.us > 0) nontrivial();
        CHECK(!known, "the wait for co%d timed out although it was known to have ended", q.co);
        CHECK(q.us <= 0 || t1 >= deadline, "the wait for co%d timed out %lld us too early", q.co, (long long)(deadline - t1) / 1000);
        CHECK(end == 0 || end + SLACK > deadline, "the wait for co%d timed out although it ended %lld us before the deadline", q.co, (long long)(deadline - end) / 1000);
    }
    if (timed)
    {
        int64_t late = t1 - std::max(deadline, t0);
        CHECK(late <= SLACK, "the timed wait for co%d came back %lld us after the deadline", q.co, (long long)late / 1000);
    }
    observe((uint64_t)q.co * 8 + got * 2 + exc);
    vs_progress();
}

void run()
{
    Actors acts;
    std::vector<std::unique_ptr<co> > handles(P.cos.size());
    for (auto &w : P.waiters)
        for (auto &q : w.qs) ++S[q.co].users;
    for (size_t i = 0; i < P.cos.size(); ++i)
    {
        auto &t = P.cos[i];
        int k = (int)i;
        co_env *env = t.place.kind == K_BOUND || t.place.kind == K_SHARED_BOUND ? acts.env(t.place.env) : nullptr;
        handles[i] = std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_priority((size_t)t.place.prio), with_bind_env(env), with_shared_stack(t.place.kind == K_SHARED || t.place.kind == K_SHARED_BOUND)},
                                          [k, &t]() -> int {
                                              int n = ++S[k].runs;
                                              CHECK(n == 1, "co%d was started %d times", k, n);
                                              if (t.finish == F_SLEEP) this_co::sleep_for(std::chrono::microseconds(t.us));
                                              if (t.finish == F_GATE)
                                                  while (!gate) this_co::sleep_for(1ms);
                                              note("co%d ends", k);
                                              S[k].end = now_ns();
                                              vs_progress();
                                              if (t.throws) throw strf("exception of co%d", k);
                                              return k + 17;
                                          });
    }
    auto drop = [&](int k) {
        // the last user of a handle destroys it; the exception was received by a wait before
        auto &t = P.cos[(size_t)k];
        if (t.throws && !S[k].delivered)
        {
            try
            {
                handles[(size_t)k]->wait<void>();
            }
            catch (std::string &)
            {
                ++S[k].delivered;
            }
        }
        handles[(size_t)k].reset();
        CHECK(S[k].end != 0, "the handle of co%d was destroyed before it ended", k);
        vs_progress();
    };
    for (auto &w : P.waiters)
        acts.spawn(w.place, [&] {
            for (auto &q : w.qs)
            {
                do_work(q.before);
                ask(*handles[(size_t)q.co], q);
                if (--S[q.co].users == 0 && P.cos[(size_t)q.co].shortly) drop(q.co);
            }
        });
    this_co::sleep_for(std::chrono::milliseconds(P.gate_ms));
    gate = true;
    vs_progress();
    acts.join();
    for (size_t i = 0; i < P.cos.size(); ++i)
        if (handles[i]) drop((int)i);
    for (size_t i = 0; i < P.cos.size(); ++i)
    {
        CHECK(S[i].runs == 1, "co%zu was started %d times", i, S[i].runs.load());
        if (P.cos[i].throws) CHECK(S[i].delivered == 1, "the exception of co%zu was delivered %d times", i, S[i].delivered.load());
    }
}
}

const Property property = {
    "C14",
    "1-4 coroutines that end at once, after a generated time or at a gate, some with an exception; 1-5 participants with 1-5 waits each: wait_for, "
    "wait_until with deadlines from -5 s to 1000 s or the longest time there is, and untimed ones; handles are often destroyed right after the last wait; non-trivial = a wait "
    "timed out after a positive time or received a result that was not there when it began",
    generate, render, run, nullptr, 24000, 300000};

// C15: sleeping lasts at least as long as asked, always ends, and lets others run.
#include "common.h"

namespace
{
enum { O_FOR, O_UNTIL, O_GRID, O_TIMER, O_WORK };
struct Op
{
    int op;
    int64_t us;
    Work w;
    bool stop; // O_TIMER: stop it again
};
struct Part
{
    Place place;
    std::vector<Op> ops;
};
struct Program
{
    std::vector<Part> parts;
    bool sentinel; // a coroutine that sleeps for very long on environment 0
    int sentinel_kind;
} P;

void generate(Gen &g)
{
    P = Program();
    P.sentinel = g.chance(30);
    P.sentinel_kind = g.pick({K_BOUND, K_SHARED_BOUND});
    while (g.more(P.parts.size(), 1, 8, 4))
    {
        Part p;
        p.place = gen_place(g);
        while (g.more(p.ops.size(), 1, 6, 3))
        {
            Op o;
            o.op = g.weighted({4, 3, 5, 2, 1});
            o.us = o.op == O_GRID ? g.range(0, 6) * 5000 : (int64_t)g.pick({1000, 0, 1, 300, 999, 5000, 10000, 30000, -1, -700, -100000});
            o.w = o.op == O_WORK ? gen_work(g) : Work();
            o.stop = g.chance(50);
            p.ops.push_back(o);
        }
        P.parts.push_back(p);
    }
}
std::string render()
{
    std::string s;
    for (auto &p : P.parts)
    {
        s += "{" + render_place(p.place) + ":";
        for (auto &o : p.ops)
            s += o.op == O_WORK ? " " + render_work(o.w) : o.op == O_FOR ? strf(" sleep_for %ldus", o.us) : o.op == O_UNTIL ? strf(" sleep_until now%+ldus", o.us) : o.op == O_GRID ? strf(" sleep_until base+%ldus", o.us) : strf(" timer %ldus%s", o.us, o.stop ? " stopped" : "");
        s += "} ";
    }
    if (P.sentinel) s += P.sentinel_kind == K_BOUND ? "bound#0 sleeps 60s" : "sharedbound#0 sleeps 60s";
    return s;
}

std::atomic<int> running, asleep;
void run()
{
    Actors acts;
    int64_t base = now_ns() + 2000000;
    running = (int)P.parts.size();
    auto nap = [](const char *what, int64_t deadline, auto f) {
        int64_t t0 = now_ns();
        if (deadline > t0)
        {
            nontrivial();
            label("slept");
        }
        else
            label("deadline in the past");
        if (++asleep > 1) label("several asleep");
        f();
        --asleep;
        int64_t t1 = now_ns();
        CHECK(t1 >= deadline, "%s returned %lld ns too early", what, (long long)(deadline - t1));
        int64_t late = t1 - std::max(deadline, t0);
        CHECK(late <= SLACK, "%s returned %lld us too late", what, (long long)late / 1000);
        vs_progress();
    };
    if (P.sentinel)
    {
        Place pl;
        pl.kind = P.sentinel_kind;
        pl.prio = 99;
        acts.spawn(pl, [&] {
            nap("long sleep", now_ns() + 60000000000, [&] { this_co::sleep_for(60s); });
            CHECK(running == 0, "%d participants did not run while a coroutine slept for a minute", running.load());
            label("minute");
        });
    }
    for (auto &p : P.parts)
        acts.spawn(p.place, [&] {
            for (auto &o : p.ops)
                switch (o.op)
                {
                case O_WORK: do_work(o.w); break;
                case O_FOR: nap("sleep_for", now_ns() + o.us * 1000, [&] { this_co::sleep_for(std::chrono::microseconds(o.us)); }); break;
                case O_UNTIL:
                {
                    int64_t d = now_ns() + o.us * 1000;
                    nap("sleep_until", d, [&] { this_co::sleep_until(std::chrono::steady_clock::time_point(std::chrono::nanoseconds(d))); });
                    break;
                }
                case O_GRID:
                {
                    int64_t d = base + o.us * 1000;
                    nap("sleep_until", d, [&] { this_co::sleep_until(std::chrono::steady_clock::time_point(std::chrono::nanoseconds(d))); });
                    break;
                }
                case O_TIMER:
                {
                    // a timer that expires at one of the instants others sleep until
                    auto t = co_timer::create([] {}, std::chrono::steady_clock::time_point(std::chrono::nanoseconds(base + o.us * 1000)));
                    t->start();
                    this_co::yield();
                    if (o.stop) t->stop();
                    label("timer");
                    break;
                }
                }
            --running;
        });
    acts.join();
}
}

const Property property = {
    "C15",
    "1-8 participants with 1-6 operations each: sleep_for and sleep_until with times from -100 ms to 30 ms, many of them at common instants, timers "
    "started and stopped at the same instants, sometimes next to a coroutine that sleeps for a minute; non-trivial = somebody slept with a "
    "deadline in the future",
    generate, render, run, nullptr, 24000, 300000};

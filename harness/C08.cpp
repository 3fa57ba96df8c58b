// C08: latch and wait group open exactly at zero and release every waiter.
#include "common.h"

namespace
{
enum { O_DOWN, O_WAIT, O_TRY, O_ARRIVE };
struct Op
{
    int op, n;
    Work before;
};
struct Part
{
    Place place;
    std::vector<Op> ops;
};
struct Program
{
    int type; // 0 latch 1 wait group 2 wait group whose destructor waits
    int expected;
    std::vector<Part> parts;
    Work tail;
} P;

void generate(Gen &g)
{
    P = Program();
    P.type = g.weighted({5, 3, 1});
    P.expected = g.weighted({1, 4, 4, 4, 2, 2, 1, 1, 1});
    while (g.more(P.parts.size(), 1, 7, 4))
    {
        Part p;
        p.place = gen_place(g, true, true, false);
        while (g.more(p.ops.size(), 1, 4, 2))
        {
            Op o;
            o.op = P.type == 0 ? g.weighted({4, 3, 2, 2}) : P.type == 1 ? g.weighted({4, 3}) : O_DOWN;
            o.n = P.type == 0 ? g.weighted({2, 8, 2, 1}) : 1; // 0..3
            o.before = gen_work(g);
            p.ops.push_back(o);
        }
        P.parts.push_back(p);
    }
    P.tail = gen_work(g);
}
std::string render()
{
    std::string s = P.type == 0 ? strf("co_latch(%d)", P.expected) : strf("co_wait_group(%d)%s", P.expected, P.type == 2 ? " destructor waits" : "");
    for (auto &p : P.parts)
    {
        s += " {" + render_place(p.place) + ":";
        for (auto &o : p.ops)
            s += " " + render_work(o.before) + (o.op == O_DOWN ? (P.type == 0 ? strf("count_down(%d)", o.n) : "done") : o.op == O_WAIT ? "wait" : o.op == O_TRY ? "try_wait" : strf("arrive_and_wait(%d)", o.n));
        s += "}";
    }
    return s;
}

std::atomic<int> begun {0};    // arrivals accepted or under way
std::atomic<int> accepted {0}; // arrivals counted for sure
std::atomic<int> slots {0};    // wait group: arrivals given out so far

bool down(co_latch &l, int n)
{
    begun += n;
    try
    {
        l.count_down(n);
    }
    catch (std::logic_error &)
    {
        int b = begun;
        CHECK(b > P.expected, "count_down(%d) failed although at most %d of %d arrivals had been counted", n, b - n, P.expected);
        begun -= n;
        label("count_down refused");
        return false;
    }
    int a = accepted += n;
    CHECK(a <= P.expected, "%d arrivals were accepted by a latch for %d", a, P.expected);
    return true;
}
void opened(const char *what)
{
    int b = begun;
    CHECK(b >= P.expected, "%s came back after %d of %d arrivals", what, b, P.expected);
}

void latch()
{
    auto l = std::make_unique<co_latch>(P.expected);
    std::atomic<int> unfinished {(int)P.parts.size()};
    Actors a;
    for (size_t i = 0; i < P.parts.size(); ++i)
        a.spawn(P.parts[i].place, [&, i] {
            for (auto &o : P.parts[i].ops)
            {
                do_work(o.before);
                note("p%zu op%d n=%d", i, o.op, o.n);
                if (o.op == O_DOWN)
                    down(*l, o.n);
                else if (o.op == O_TRY)
                {
                    int before = accepted;
                    bool t = l->try_wait();
                    label(t ? "try_wait true" : "try_wait false");
                    if (t) opened("try_wait");
                    else CHECK(before < P.expected, "try_wait is false although the latch is open");
                }
                else
                {
                    if (accepted < P.expected)
                    {
                        label("wait on a closed latch");
                        nontrivial();
                    }
                    else
                        label("wait on an open latch");
                    if (o.op == O_ARRIVE)
                    {
                        begun += o.n;
                        bool ok = true;
                        try
                        {
                            l->arrive_and_wait(o.n);
                        }
                        catch (std::logic_error &)
                        {
                            ok = false;
                            CHECK(begun > P.expected, "arrive_and_wait(%d) failed although at most %d of %d arrivals had been counted", o.n, begun.load() - o.n, P.expected);
                            begun -= o.n;
                        }
                        if (ok)
                        {
                            int t = accepted += o.n;
                            CHECK(t <= P.expected, "%d arrivals were accepted by a latch for %d", t, P.expected);
                            opened("arrive_and_wait");
                        }
                    }
                    else
                    {
                        l->wait();
                        opened("wait");
                    }
                }
                observe((uint64_t)i);
                vs_progress();
            }
            --unfinished;
        });
    // The missing arrivals are supplied one at a time, as often as the latch takes them.
    do_work(P.tail);
    while (unfinished > 0 || accepted < P.expected)
    {
        this_co::sleep_for(9ms);
        if (begun < P.expected)
        {
            // an arrival of a participant may come first; then this one is refused
            if (down(*l, 1)) vs_progress();
        }
        else if (unfinished == 0)
            break;
    }
    a.join();
    CHECK(accepted == P.expected, "the latch took %d arrivals instead of %d", accepted.load(), P.expected);
    CHECK(l->try_wait(), "try_wait is false although all arrivals were counted");
    l->wait();
    bool threw = false;
    try
    {
        l->count_down(1);
    }
    catch (std::logic_error &)
    {
        threw = true;
    }
    CHECK(threw, "counting past zero did not fail");
    CHECK(l->try_wait(), "a refused count_down closed the latch again");
    l->wait();
}

bool done(co_wait_group &w)
{
    if (slots++ >= P.expected) return false;
    ++begun;
    w.done();
    ++accepted;
    return true;
}
void group()
{
    co_wait_group *w = new co_wait_group(P.expected);
    std::atomic<int> unfinished {(int)P.parts.size()};
    Actors a;
    for (size_t i = 0; i < P.parts.size(); ++i)
        a.spawn(P.parts[i].place, [&, i] {
            for (auto &o : P.parts[i].ops)
            {
                do_work(o.before);
                note("p%zu op%d", i, o.op);
                if (o.op == O_DOWN)
                    done(*w);
                else
                {
                    if (accepted < P.expected)
                    {
                        label("wait on a closed group");
                        nontrivial();
                    }
                    else
                        label("wait on an open group");
                    w->wait();
                    opened("wait");
                }
                observe((uint64_t)i);
                vs_progress();
            }
            --unfinished;
        });
    do_work(P.tail);
    if (P.type == 2)
    {
        Actors helper;
        helper.spawn(Place(), [&] {
            while (done(*w)) do_work(P.tail);
        });
        if (accepted < P.expected) nontrivial();
        delete w;
        opened("the destructor");
        label("destructor waited");
        helper.join();
        a.join();
        return;
    }
    while (unfinished > 0)
    {
        this_co::sleep_for(9ms);
        if (done(*w)) vs_progress();
    }
    a.join();
    while (done(*w)) {}
    w->wait();
    delete w;
}
void run()
{
    if (P.type == 0)
        latch();
    else
        group();
}
}

const Property property = {
    "C08",
    "1-7 participants count down (also by 0 and past zero), wait, poll or arrive-and-wait on a latch, or report and wait on a wait group; the main "
    "thread supplies missing arrivals one at a time; non-trivial = a wait began before the last arrival",
    generate, render, run, nullptr, 30000, 300000};

// C10: call_once.
#include "common.h"

namespace
{
struct Call
{
    Work before, inside;
    bool throws;
    int form; // lambda, function with arguments, member function
};
struct Part
{
    Place place;
    std::vector<Call> calls;
};
struct Program
{
    int flags;
    std::vector<Part> parts;
    std::vector<int> which;
} P;

void generate(Gen &g)
{
    P = Program();
    P.flags = g.weighted({4, 1}) + 1;
    while (g.more(P.parts.size(), 1, 8, 5))
    {
        Part p;
        p.place = gen_place(g, true, true, false);
        while (g.more(p.calls.size(), 1, 3, 1)) p.calls.push_back({gen_work(g), gen_work(g), g.chance(25), g.range(0, 2)});
        P.parts.push_back(p);
        P.which.push_back(g.range(0, P.flags - 1));
    }
}
std::string render()
{
    std::string s = strf("%d flags", P.flags);
    for (size_t i = 0; i < P.parts.size(); ++i)
    {
        s += " {" + render_place(P.parts[i].place) + strf(" flag%d:", P.which[i]);
        for (auto &c : P.parts[i].calls) s += " " + render_work(c.before) + "call[" + render_work(c.inside) + (c.throws ? "throw" : "") + "]" + (c.form ? strf("/%d", c.form) : "");
        s += "}";
    }
    return s;
}

struct Oops
{
    int who;
};
struct State
{
    std::atomic<int> running {0}, completed {0};
    std::atomic<long> started {0};
} S[2];

void function(State &st, int me, const Call &c, std::unique_ptr<int> &&arg)
{
    CHECK(*arg == me, "the function was called with other arguments");
    int r = ++st.running;
    ++st.started;
    note("p%d runs", me);
    CHECK(r == 1, "%d callers run their function at the same time", r);
    CHECK(st.completed == 0, "participant %d runs its function after another one had completed", me);
    do_work(c.inside);
    --st.running;
    if (c.throws)
    {
        note("p%d throws", me);
        label("function threw");
        throw Oops {me};
    }
    int n = ++st.completed;
    CHECK(n == 1, "the function was completed %d times", n);
    note("p%d completed", me);
}
struct Obj
{
    State &st;
    int me;
    const Call &c;
    void method(std::unique_ptr<int> &&arg) { function(st, me, c, std::move(arg)); }
};

void run()
{
    std::unique_ptr<co_once_flag> flags[2] = {std::make_unique<co_once_flag>(), std::make_unique<co_once_flag>()};
    Actors a;
    for (size_t i = 0; i < P.parts.size(); ++i)
        a.spawn(P.parts[i].place, [&, i] {
            int me = (int)i;
            auto &st = S[P.which[i]];
            auto &flag = *flags[P.which[i]];
            for (auto &c : P.parts[i].calls)
            {
                do_work(c.before);
                if (st.running) // somebody else is in the function
                {
                    nontrivial();
                    label("call during the function");
                }
                long before = st.started;
                bool threw = false, mine = false;
                auto arg = std::make_unique<int>(me);
                note("p%d call", me);
                try
                {
                    if (c.form == 0)
                        co_call_once(flag, [&] {
                            mine = true;
                            function(st, me, c, std::move(arg));
                        });
                    else if (c.form == 1)
                        co_call_once(flag, function, st, me, c, std::move(arg));
                    else
                        co_call_once(flag, &Obj::method, Obj {st, me, c}, std::move(arg));
                }
                catch (Oops &o)
                {
                    threw = true;
                    CHECK(o.who == me && c.throws, "participant %d received the exception of participant %d", me, o.who);
                }
                note("p%d back", me);
                (void)before;
                if (threw)
                    label("exception delivered");
                else
                    CHECK(st.completed == 1, "participant %d came back before the function was completed (completed=%d)", me, st.completed.load());
                if (mine && c.throws) CHECK(threw, "the exception was swallowed");
                observe((uint64_t)me * 2 + threw);
                vs_progress();
            }
        });
    a.join();
    for (int f = 0; f < P.flags; ++f)
    {
        bool any = false;
        for (size_t i = 0; i < P.parts.size(); ++i) any |= P.which[i] == f;
        if (S[f].completed == 0)
        {
            // all calls threw (or there was none): the next call must run
            co_call_once(*flags[f], [&] { ++S[f].completed; });
            CHECK(S[f].completed == 1, "nobody completed the function, but a later call does not run it");
            if (any) label("completed at the end");
        }
        co_call_once(*flags[f], [&] { fail("the function runs again"); });
    }
}
}

const Property property = {
    "C10",
    "1-8 participants call co_call_once on one or two flags with functions that work, block or throw, passed as lambda, function with "
    "arguments or member function; non-trivial = a call was made while another caller ran its function",
    generate, render, run, nullptr, 60000, 600000};

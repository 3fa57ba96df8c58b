// C07: semaphores: permits are conserved, bounded and never lost.
#include "common.h"

namespace
{
enum { O_ACQ, O_REL, O_TRY, O_TRYFOR };
struct Op
{
    int op, n, ms;
    Work before;
};
struct Part
{
    Place place;
    std::vector<Op> ops;
};
struct Program
{
    int max, init;
    std::vector<Part> parts;
} P;

void generate(Gen &g)
{
    P = Program();
    P.max = g.pick({1, 2, 3, 8});
    P.init = g.range(0, P.max);
    while (g.more(P.parts.size(), 2, 8, 4))
    {
        Part p;
        p.place = gen_place(g, true, true, false);
        int bias = g.range(0, 2); // mixed, acquirer, releaser
        while (g.more(p.ops.size(), 1, 8, 4))
        {
            Op o;
            o.op = bias == 0 ? g.weighted({4, 4, 1, 1}) : bias == 1 ? g.weighted({6, 1, 1, 1}) : g.weighted({1, 6, 1, 1});
            o.n = o.op == O_REL && g.chance(25) ? g.range(2, 4) : 1;
            o.ms = g.pick({1, 0, 5, 15});
            o.before = gen_work(g);
            p.ops.push_back(o);
        }
        P.parts.push_back(p);
    }
}
std::string render()
{
    std::string s = strf("co_counting_semaphore<%d>(%d)", P.max, P.init);
    for (auto &p : P.parts)
    {
        s += " {" + render_place(p.place) + ":";
        for (auto &o : p.ops)
        {
            s += " " + render_work(o.before);
            s += o.op == O_ACQ ? "acquire" : o.op == O_REL ? strf("release(%d)", o.n) : o.op == O_TRY ? "try_acquire" : strf("try_acquire_for(%dms)", o.ms);
        }
        s += "}";
    }
    return s;
}

std::atomic<long> taken {0};         // permits handed out for sure
std::atomic<long> take_begun {0};    // permits handed out or being asked for
std::atomic<long> rel_begun {0};     // permits given back or being given back
std::atomic<long> rel_done {0};      // permits given back for sure
std::atomic<int> acq_waiting {0}, rel_waiting {0};

template <typename S>
void acquire(S &s, int me)
{
    note("p%d acquire", me);
    ++take_begun;
    ++acq_waiting;
    if (P.init + rel_done - taken <= 0)
    {
        nontrivial();
        label("acquire with no permit");
    }
    s.acquire();
    --acq_waiting;
    long t = ++taken;
    CHECK(t <= P.init + rel_begun, "%ld permits handed out, but there were only %d and %ld released", t, P.init, rel_begun.load());
    note("p%d acquired", me);
    vs_progress();
}
template <typename S>
void release(S &s, int me, int n)
{
    note("p%d release %d", me, n);
    rel_begun += n;
    ++rel_waiting;
    if (P.init + rel_done + n - taken > P.max)
    {
        nontrivial();
        label("release with no room");
    }
    if (n == 1)
        s.release();
    else
        s.release(n);
    --rel_waiting;
    rel_done += n;
    long avail = P.init + rel_done - take_begun;
    CHECK(avail <= P.max, "%ld permits are available, the maximum is %d", avail, P.max);
    note("p%d released", me);
    vs_progress();
}
template <typename S>
bool try_acquire(S &s, const Op &o)
{
    ++take_begun;
    bool got = o.op == O_TRY ? s.try_acquire() : s.try_acquire_for(std::chrono::milliseconds(o.ms));
    if (got)
    {
        long t = ++taken;
        CHECK(t <= P.init + rel_begun, "%ld permits handed out, but there were only %d and %ld released", t, P.init, rel_begun.load());
    }
    else
        --take_begun;
    label(got ? "try succeeded" : "try failed");
    return got;
}

template <typename S>
void go()
{
    auto s = std::make_unique<S>(P.init);
    CHECK(S::max() == P.max, "max() is %ld instead of %d", (long)S::max(), P.max);
    std::atomic<int> unfinished {(int)P.parts.size()};
    Actors a;
    for (size_t i = 0; i < P.parts.size(); ++i)
        a.spawn(P.parts[i].place, [&, i] {
            for (auto &o : P.parts[i].ops)
            {
                do_work(o.before);
                if (o.op == O_ACQ)
                    acquire(*s, (int)i);
                else if (o.op == O_REL)
                    release(*s, (int)i, o.n);
                else
                    try_acquire(*s, o);
                observe((uint64_t)i);
            }
            --unfinished;
        });
    // Participants may end up all acquiring from an empty or all releasing into a full semaphore; then
    // somebody has to help.  If both kinds wait, or permits are there, they must get on by themselves.
    Actors helpers;
    int last_state = -1, stable = 0;
    while (unfinished > 0)
    {
        this_co::sleep_for(7ms);
        int aw = acq_waiting, rw = rel_waiting;
        long avail = P.init + rel_done - taken;
        int state = aw > 0 && rw == 0 && avail <= 0 ? 1 : rw > 0 && aw == 0 ? 2 : 0;
        stable = state != 0 && state == last_state ? stable + 1 : 0;
        last_state = state;
        if (stable < 6) continue;
        stable = 0;
        if (state == 1)
        {
            label("helped an acquirer");
            ++unfinished;
            helpers.spawn(Place(), [&] {
                release(*s, 90, 1);
                --unfinished;
            });
        }
        else
        {
            label("helped a releaser");
            ++unfinished;
            helpers.spawn(Place(), [&] {
                acquire(*s, 91);
                --unfinished;
            });
        }
    }
    a.join();
    helpers.join();
    long left = P.init + rel_done - taken, n = 0;
    CHECK(left >= 0 && left <= P.max, "%ld permits left, allowed are 0..%d", left, P.max);
    while (n <= left && s->try_acquire()) ++n;
    CHECK(n == left, "%ld permits should be left but %s%ld can be taken", left, n > left ? "at least " : "", n);
}
void run()
{
    switch (P.max)
    {
    case 1: go<co_binary_semaphore>(); break;
    case 2: go<co_counting_semaphore<2> >(); break;
    case 3: go<co_counting_semaphore<3> >(); break;
    default: go<co_counting_semaphore<8> >();
    }
}
}

const Property property = {
    "C07",
    "2-8 participants run generated acquire/release(n)/try/timed sequences on a semaphore with generated maximum and initial count; a helper "
    "supplies or takes a permit only when nobody can proceed; non-trivial = an acquire found no permit or a release found no room",
    generate, render, run, nullptr, 24000, 300000};

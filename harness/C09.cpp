// C09: barrier phases.
#include "common.h"

namespace
{
enum { S_AAW, S_SPLIT, S_ARRIVE, S_DROP };
struct Step
{
    int kind;
    Work before, between;
    int bad; // 0 none, 1 too many arrivals, 2 token of another barrier
};
struct Part
{
    Place place;
    int weight;
    std::vector<Step> steps; // one per phase
};
struct Program
{
    std::vector<Part> parts;
    int phases = 0;
    std::vector<int> expected; // per phase
} P;

void generate(Gen &g)
{
    P = Program();
    P.phases = g.range(1, 5);
    while (g.more(P.parts.size(), 1, 6, 4))
    {
        Part p;
        p.place = gen_place(g, true, true, false);
        p.weight = g.chance(25) ? g.range(2, 3) : 1;
        int len = P.parts.empty() ? P.phases : g.chance(30) ? g.range(1, P.phases) : P.phases;
        for (int k = 0; k < len; ++k)
        {
            Step s;
            s.kind = k == len - 1 && len < P.phases ? S_DROP : g.weighted({5, 3, 2});
            if (s.kind == S_AAW && p.weight > 1) s.kind = S_SPLIT;
            s.before = gen_work(g);
            s.between = gen_work(g);
            s.bad = g.weighted({12, 1, 1});
            p.steps.push_back(s);
        }
        P.parts.push_back(p);
    }
    P.expected.assign((size_t)P.phases, 0);
    for (auto &p : P.parts)
        for (size_t k = 0; k < p.steps.size(); ++k) P.expected[k] += p.weight;
}
std::string render()
{
    const char *kinds[] = {"arrive_and_wait", "arrive..wait", "arrive", "arrive_and_drop"};
    std::string s = strf("co_barrier(%d)", P.expected[0]);
    for (auto &p : P.parts)
    {
        s += " {" + render_place(p.place) + (p.weight > 1 ? strf(" x%d", p.weight) : "") + ":";
        for (auto &t : p.steps)
            s += " " + render_work(t.before) + (t.bad == 1 ? "too_many " : t.bad == 2 ? "foreign_token " : "") + kinds[t.kind] + (t.kind == S_SPLIT ? "[" + render_work(t.between) + "]" : "");
        s += "}";
    }
    return s;
}

std::atomic<int> begun[8], done[8];

void run()
{
    auto b = std::make_unique<co_barrier>(P.expected[0]);
    auto other = std::make_unique<co_barrier>(1000);
    auto left = [&](int me, int k) {
        int n = begun[k];
        CHECK(n == P.expected[k], "participant %d left phase %d after %d of %d arrivals", me, k, n, P.expected[k]);
    };
    Actors a;
    for (size_t i = 0; i < P.parts.size(); ++i)
        a.spawn(P.parts[i].place, [&, i] {
            int me = (int)i;
            auto &p = P.parts[i];
            for (int k = 0; k < (int)p.steps.size(); ++k)
            {
                auto &s = p.steps[k];
                do_work(s.before);
                if (s.bad == 1)
                {
                    // the phase can't end before this participant arrives
                    int missing = P.expected[k] - done[k];
                    bool threw = false;
                    try
                    {
                        b->arrive(missing + 1);
                    }
                    catch (std::logic_error &)
                    {
                        threw = true;
                    }
                    CHECK(threw, "participant %d: %d arrivals were accepted where at most %d of %d are missing", me, missing + 1, missing, P.expected[k]);
                    if (missing < P.expected[k]) label("too many arrivals for the rest of the phase");
                    label("too many arrivals");
                }
                if (s.bad == 2)
                {
                    bool threw = false;
                    try
                    {
                        b->wait(other->arrive());
                    }
                    catch (std::logic_error &)
                    {
                        threw = true;
                    }
                    CHECK(threw, "participant %d: a token of another barrier was accepted", me);
                    label("foreign token");
                }
                begun[k] += p.weight;
                if (begun[k] < P.expected[k] && s.kind != S_ARRIVE && s.kind != S_DROP) nontrivial();
                note("p%d phase %d kind %d", me, k, s.kind);
                switch (s.kind)
                {
                case S_AAW:
                    b->arrive_and_wait();
                    done[k] += p.weight;
                    left(me, k);
                    label("arrive_and_wait");
                    break;
                case S_SPLIT:
                {
                    auto t = p.weight == 1 ? b->arrive() : b->arrive(p.weight);
                    done[k] += p.weight;
                    do_work(s.between);
                    if (done[k] == P.expected[k]) label("wait after the phase ended");
                    else label("wait before the phase ended");
                    b->wait(std::move(t));
                    left(me, k);
                    break;
                }
                case S_ARRIVE:
                {
                    if (p.weight == 1)
                        b->arrive();
                    else
                        b->arrive(p.weight);
                    done[k] += p.weight;
                    label("arrive only");
                    // this participant may go on when all arrivals of the phase are known to be counted
                    while (done[k] < P.expected[k] && begun[k + 1] == 0) this_co::sleep_for(3ms);
                    break;
                }
                default:
                    for (int n = 0; n < p.weight; ++n) b->arrive_and_drop();
                    done[k] += p.weight;
                    label("arrive_and_drop");
                }
                note("p%d phase %d over", me, k);
                observe((uint64_t)me * 8 + (uint64_t)k);
                vs_progress();
            }
        });
    a.join();
    // all participants are through; the barrier must be at the beginning of the next phase
    int next = 0;
    for (auto &p : P.parts)
        if ((int)p.steps.size() == P.phases) next += p.weight;
    bool threw = false;
    try
    {
        b->arrive(next + 1);
    }
    catch (std::logic_error &)
    {
        threw = true;
    }
    CHECK(threw, "the next phase accepts %d arrivals, %d are expected", next + 1, next);
    if (next > 1)
    {
        b->arrive(next - 1);
        threw = false;
        try
        {
            b->arrive(2);
        }
        catch (std::logic_error &)
        {
            threw = true;
        }
        CHECK(threw, "the next phase accepts %d arrivals, %d are expected", next + 1, next);
    }
    b->arrive_and_wait();
}
}

const Property property = {
    "C09",
    "1-6 participants with weights 1-3 go through 1-5 phases by arrive_and_wait, arrive and a later wait, arrive only, or leave with "
    "arrive_and_drop, with wrong arrivals and tokens in between; non-trivial = a participant waited before all arrivals of its phase had begun",
    generate, render, run, nullptr, 30000, 300000};

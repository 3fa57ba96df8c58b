// C02: recursive mutexes: depth-counted exclusion, ownership and progress.
#include "common.h"

namespace
{
struct Level
{
    int how; // 0 lock 1 try_lock 2 try_lock_for 3 try_lock_until
    int ms;
    Work work; // after acquiring this level
};
struct Op
{
    Work before;
    std::vector<Level> levels;
    std::vector<Work> unwind; // after releasing a level
    bool bad_unlock;          // unlock without owning first
    bool extra_unlock;        // one unlock too many at the end
};
struct Part
{
    Place place;
    std::vector<Op> ops;
};
struct Program
{
    bool timed;
    std::vector<Part> parts;
} P;

void generate(Gen &g)
{
    P = Program();
    P.timed = g.chance(40);
    while (g.more(P.parts.size(), 2, 6, 3))
    {
        Part p;
        p.place = gen_place(g);
        while (g.more(p.ops.size(), 1, 4, 2))
        {
            Op o;
            o.before = gen_work(g);
            while (g.more(o.levels.size(), 1, 5, 2))
            {
                Level l;
                l.how = P.timed ? g.weighted({4, 1, 1, 1}) : g.weighted({4, 1});
                l.ms = g.pick({1, 0, 5, 15, 40});
                l.work = gen_work(g);
                o.levels.push_back(l);
                o.unwind.push_back(gen_work(g));
            }
            o.bad_unlock = g.chance(10);
            o.extra_unlock = g.chance(10);
            p.ops.push_back(o);
        }
        P.parts.push_back(p);
    }
}
std::string render()
{
    const char *how[] = {"lock", "try", "try_for", "try_until"};
    std::string s = P.timed ? "co_recursive_timed_mutex" : "co_recursive_mutex";
    for (auto &p : P.parts)
    {
        s += " {" + render_place(p.place) + ":";
        for (auto &o : p.ops)
        {
            s += " " + render_work(o.before);
            if (o.bad_unlock) s += "foreign_unlock ";
            for (auto &l : o.levels) s += std::string(how[l.how]) + (l.how >= 2 ? strf("(%d)", l.ms) : "") + "[" + render_work(l.work);
            for (size_t i = o.levels.size(); i-- > 0;) s += "]" + render_work(o.unwind[i]);
            if (o.extra_unlock) s += "extra_unlock";
        }
        s += "}";
    }
    return s;
}

int holder = -1, depth = 0;

template <typename M>
void bad(M &m, int me)
{
    int before = holder, d = depth;
    bool threw = false;
    try
    {
        m.unlock();
    }
    catch (std::logic_error &)
    {
        threw = true;
    }
    (void)before;
    (void)d;
    CHECK(threw, "participant %d released a lock it does not hold", me);
    label("foreign unlock");
    if (holder >= 0) label("foreign unlock while held");
}
template <typename M>
void body(M &m, int me, const Part &part)
{
    for (auto &o : part.ops)
    {
        do_work(o.before);
        if (o.bad_unlock) bad(m, me);
        int mine = 0;
        for (auto &l : o.levels)
        {
            bool got = true;
            if (holder >= 0 && holder != me)
            {
                label("contended");
                nontrivial();
            }
            note("p%d acquire level %d", me, mine + 1);
            auto t0 = vs_now_ns();
            if (l.how == 0)
                m.lock();
            else if (l.how == 1)
                got = m.try_lock();
            else if constexpr (std::is_same_v<M, co_recursive_timed_mutex>)
            {
                if (l.how == 2)
                    got = m.try_lock_for(std::chrono::milliseconds(l.ms));
                else
                    got = m.try_lock_until(std::chrono::steady_clock::now() + std::chrono::milliseconds(l.ms));
            }
            (void)t0;
            if (mine > 0) CHECK(got, "the owner %d could not re-acquire its lock (depth %d)", me, mine);
            if (!got)
            {
                label("not acquired");
                break;
            }
            CHECK(holder == -1 || holder == me, "participant %d acquired while participant %d holds it (depth %d)", me, holder, depth);
            holder = me;
            ++mine;
            ++depth;
            note("p%d at depth %d", me, depth);
            observe((uint64_t)me * 16 + depth);
            CHECK(depth == mine, "depth %d expected %d", depth, mine);
            if (mine > 1) label("nested");
            do_work(l.work);
            CHECK(holder == me && depth == mine, "participant %d entered while participant %d holds the lock at depth %d", holder, me, mine);
        }
        while (mine > 0)
        {
            --mine;
            --depth;
            if (mine == 0) holder = -1;
            note("p%d release to %d", me, mine);
            m.unlock();
            vs_progress();
            do_work(o.unwind[mine]);
            if (mine > 0) CHECK(holder == me && depth == mine, "participant %d entered after %d released one of several levels", holder, me);
        }
        if (o.extra_unlock) bad(m, me);
    }
}
template <typename M>
void go()
{
    auto m = std::make_unique<M>();
    Actors a;
    for (size_t i = 0; i < P.parts.size(); ++i) a.spawn(P.parts[i].place, [&, i] { body(*m, (int)i, P.parts[i]); });
    a.join();
    CHECK(m->try_lock(), "all holders released the lock but try_lock() fails");
    m->unlock();
    // a newcomer on another context must get it as well
    bool ok = false;
    co c([&] {
        ok = m->try_lock();
        if (ok) m->unlock();
    });
    c.join();
    CHECK(ok, "all holders released the lock but another coroutine cannot take it");
}
void run()
{
    if (P.timed)
        go<co_recursive_timed_mutex>();
    else
        go<co_recursive_mutex>();
}
}

const Property property = {
    "C02",
    "2-6 participants run generated nested acquisitions (depth 1-5, lock/try/timed) with generated work at every level while acquiring and "
    "releasing; non-trivial = at least one acquisition was attempted while another participant held the lock",
    generate, render, run, nullptr, 14000, 250000};

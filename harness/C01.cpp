// C01: mutual exclusion, ownership and progress of the non-recursive locks.
#include "common.h"

namespace
{
struct Op
{
    int how;   // 0 lock 1 try_lock 2 try_lock_for(ms) 3 try_lock_until(ms)
    int ms;
    Work before, inside;
    bool bad_unlock; // also try to unlock without owning
};
struct Part
{
    Place place;
    std::vector<Op> ops;
};
struct Program
{
    int type; // 0 co_mutex 1 co_timed_mutex 2 co_spinlock
    std::vector<Part> parts;
} P;

void generate(Gen &g)
{
    P = Program();
    P.type = g.weighted({4, 2, 1});
    while (g.more(P.parts.size(), 2, 6, 3))
    {
        Part p;
        p.place = gen_place(g, true, true, P.type != 2); // a spinning lock cannot be combined with strict priorities
        while (g.more(p.ops.size(), 1, 6, 3))
        {
            Op o;
            o.how = P.type == 1 ? g.weighted({4, 1, 1, 1}) : g.weighted({4, 1});
            o.ms = g.pick({1, 0, 5, 15, 40});
            o.before = gen_work(g);
            o.inside = gen_work(g);
            o.bad_unlock = P.type != 2 && g.chance(10);
            p.ops.push_back(o);
        }
        P.parts.push_back(p);
    }
}
std::string render()
{
    const char *types[] = {"co_mutex", "co_timed_mutex", "co_spinlock"};
    const char *how[] = {"lock", "try_lock", "try_lock_for", "try_lock_until"};
    std::string s = types[P.type];
    for (auto &p : P.parts)
    {
        s += " {" + render_place(p.place) + ":";
        for (auto &o : p.ops)
        {
            s += " " + render_work(o.before);
            if (o.bad_unlock) s += "foreign_unlock ";
            s += o.how >= 2 ? strf("%s(%dms)", how[o.how], o.ms) : how[o.how];
            s += "[" + render_work(o.inside) + "]";
        }
        s += "}";
    }
    return s;
}

int holder = -1;
long entered = 0;
int waiting = 0;

template <typename M>
void body(M &m, int me, const Part &part)
{
    for (auto &o : part.ops)
    {
        do_work(o.before);
        if constexpr (!std::is_same_v<M, co_spinlock>)
        {
            if (o.bad_unlock)
            {
                bool threw = false;
                try
                {
                    m.unlock();
                }
                catch (std::logic_error &)
                {
                    threw = true;
                }
                CHECK(threw, "participant %d released a lock it does not hold", me);
                label("foreign unlock");
                if (holder >= 0) label("foreign unlock while held");
            }
        }
        bool got = true;
        if (holder >= 0)
        {
            label("contended");
            nontrivial();
        }
        ++waiting;
        if (waiting >= 2 && holder >= 0) label("two or more waiters");
        note("p%d acquire", me);
        if (o.how == 0)
            m.lock();
        else if (o.how == 1)
            got = m.try_lock();
        else if constexpr (std::is_same_v<M, co_timed_mutex>)
        {
            if (o.how == 2)
                got = m.try_lock_for(std::chrono::milliseconds(o.ms));
            else
                got = m.try_lock_until(std::chrono::steady_clock::now() + std::chrono::milliseconds(o.ms));
        }
        --waiting;
        if (!got)
        {
            label("not acquired");
            continue;
        }
        note("p%d acquired", me);
        CHECK(holder == -1, "participant %d acquired the lock while participant %d holds it", me, holder);
        holder = me;
        ++entered;
        observe((uint64_t)me);
        do_work(o.inside);
        CHECK(holder == me, "participant %d entered the critical section of participant %d", holder, me);
        holder = -1;
        note("p%d release", me);
        m.unlock();
        vs_progress();
    }
}

template <typename M>
void go()
{
    auto m = std::make_unique<M>();
    Actors a;
    for (size_t i = 0; i < P.parts.size(); ++i) a.spawn(P.parts[i].place, [&, i] { body(*m, (int)i, P.parts[i]); });
    a.join();
    // everything was released: the lock must be free for a newcomer
    CHECK(m->try_lock(), "all holders released the lock but try_lock() fails");
    m->unlock();
}
void run()
{
    switch (P.type)
    {
    case 0: go<co_mutex>(); break;
    case 1: go<co_timed_mutex>(); break;
    default: go<co_spinlock>();
    }
}
}

const Property property = {
    "C01",
    "2-6 participants (unbound, bound, shared-stack coroutines and plain threads) run generated lock/try_lock/timed sequences with "
    "generated work inside and outside the critical section under a generated schedule; non-trivial = at least one acquisition was "
    "attempted while another participant held the lock",
    generate, render, run, nullptr, 12000, 200000};

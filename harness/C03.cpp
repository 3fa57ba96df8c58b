// C03: reader-writer mutexes: writers exclude everybody, readers share, ownership, progress.
#include "common.h"

namespace
{
struct Op
{
    bool shared;
    int how; // 0 lock 1 try 2 try_for 3 try_until
    int ms;
    Work before, inside;
    int bad; // 0 none, 1 unlock while not holding, 2 unlock_shared while not holding, 3 release the wrong mode while holding
};
struct Part
{
    Place place;
    std::vector<Op> ops;
};
struct Program
{
    bool timed;
    std::vector<Part> parts;
    int probe; // 0: no overlap probe, else number of readers that meet inside
} P;

void generate(Gen &g)
{
    P = Program();
    P.timed = g.chance(30);
    int readers = g.pick({60, 50, 80, 95, 20});
    while (g.more(P.parts.size(), 2, 7, 4))
    {
        Part p;
        p.place = gen_place(g);
        while (g.more(p.ops.size(), 1, 5, 3))
        {
            Op o;
            o.shared = (int)g.draw(100) < readers;
            o.how = P.timed ? g.weighted({4, 1, 1, 1}) : g.weighted({5, 1});
            o.ms = g.pick({1, 0, 5, 15, 40});
            o.before = gen_work(g);
            o.inside = gen_work(g);
            o.bad = g.weighted({17, 1, 1, 1});
            p.ops.push_back(o);
        }
        P.parts.push_back(p);
    }
    P.probe = g.chance(25) ? g.range(2, 4) : 0;
}
std::string render()
{
    const char *how[] = {"lock", "try", "try_for", "try_until"};
    std::string s = P.timed ? "co_shared_timed_mutex" : "co_shared_mutex";
    for (auto &p : P.parts)
    {
        s += " {" + render_place(p.place) + ":";
        for (auto &o : p.ops)
        {
            s += " " + render_work(o.before);
            if (o.bad == 1) s += "bad_unlock ";
            if (o.bad == 2) s += "bad_unlock_shared ";
            s += std::string(o.shared ? "R." : "W.") + how[o.how] + (o.how >= 2 ? strf("(%d)", o.ms) : "");
            s += "[" + render_work(o.inside) + (o.bad == 3 ? "wrong_mode_unlock" : "") + "]";
        }
        s += "}";
    }
    if (P.probe) s += strf(" probe%d", P.probe);
    return s;
}

std::atomic<int> writer {-1};
std::atomic<int> readers {0};
std::atomic<int> waiting_r {0}, waiting_w {0};

template <typename M>
void must_throw(M &m, bool shared, int me, const char *what)
{
    bool threw = false;
    try
    {
        if (shared)
            m.unlock_shared();
        else
            m.unlock();
    }
    catch (std::logic_error &)
    {
        threw = true;
    }
    CHECK(threw, "participant %d: %s did not fail", me, what);
    label("bad unlock");
}

template <typename M>
bool acquire(M &m, const Op &o)
{
    if (o.how == 0)
    {
        if (o.shared)
            m.lock_shared();
        else
            m.lock();
        return true;
    }
    if (o.how == 1) return o.shared ? m.try_lock_shared() : m.try_lock();
    if constexpr (std::is_same_v<M, co_shared_timed_mutex>)
    {
        auto d = std::chrono::milliseconds(o.ms);
        auto t = std::chrono::steady_clock::now() + d;
        if (o.how == 2) return o.shared ? m.try_lock_shared_for(d) : m.try_lock_for(d);
        return o.shared ? m.try_lock_shared_until(t) : m.try_lock_until(t);
    }
    return false;
}

template <typename M>
void body(M &m, int me, const Part &part)
{
    for (auto &o : part.ops)
    {
        do_work(o.before);
        if (o.bad == 1) must_throw(m, false, me, "unlock() without holding");
        if (o.bad == 2) must_throw(m, true, me, "unlock_shared() without holding");
        bool conflict = writer >= 0 || (!o.shared && readers > 0);
        if (conflict)
        {
            label("conflicting attempt");
            nontrivial();
        }
        (o.shared ? waiting_r : waiting_w)++;
        if (waiting_r > 1 && waiting_w > 1) label("mixed queue");
        note("p%d %s", me, o.shared ? "R?" : "W?");
        bool got = acquire(m, o);
        (o.shared ? waiting_r : waiting_w)--;
        if (!got)
        {
            label("not acquired");
            CHECK(o.how != 0, "lock failed");
            continue;
        }
        note("p%d %s", me, o.shared ? "R+" : "W+");
        CHECK(writer == -1, "participant %d acquired (%s) while participant %d holds the lock exclusively", me, o.shared ? "shared" : "exclusive", writer.load());
        if (o.shared)
            ++readers;
        else
        {
            CHECK(readers == 0, "participant %d acquired exclusively while %d readers hold the lock", me, readers.load());
            writer = me;
        }
        if (readers > 1) label("readers overlap");
        observe((uint64_t)me * 2 + o.shared);
        do_work(o.inside);
        if (o.bad == 3) must_throw(m, !o.shared, me, "releasing the other mode");
        if (o.shared)
            CHECK(writer == -1 && readers > 0, "participant %d: writer %d came in during a shared section", me, writer.load());
        else
            CHECK(writer == me && readers == 0, "participant %d: somebody (writer %d, readers %d) came in during an exclusive section", me, writer.load(), readers.load());
        note("p%d %s", me, o.shared ? "R-" : "W-");
        if (o.shared)
        {
            --readers;
            m.unlock_shared();
        }
        else
        {
            writer = -1;
            m.unlock();
        }
        vs_progress();
    }
}
template <typename M>
void go()
{
    auto m = std::make_unique<M>();
    Actors a;
    for (size_t i = 0; i < P.parts.size(); ++i) a.spawn(P.parts[i].place, [&, i] { body(*m, (int)i, P.parts[i]); });
    a.join();
    CHECK(m->try_lock(), "all holders released the lock but try_lock() fails");
    if (!P.probe)
    {
        m->unlock();
        return;
    }
    // n readers queue up behind the exclusive owner; all of them must be inside together
    Actors b;
    std::atomic<int> inside {0};
    for (int i = 0; i < P.probe; ++i)
        b.spawn(P.parts[i % P.parts.size()].place, [&] {
            m->lock_shared();
            ++inside;
            while (inside < P.probe) this_co::sleep_for(1ms); // hangs if readers exclude each other
            m->unlock_shared();
        });
    do_work(P.parts[0].ops[0].inside);
    m->unlock();
    b.join();
    label("readers met inside");
    CHECK(m->try_lock(), "the readers released the lock but try_lock() fails");
    m->unlock();
}
void run()
{
    if (P.timed)
        go<co_shared_timed_mutex>();
    else
        go<co_shared_mutex>();
}
}

const Property property = {
    "C03",
    "2-7 participants run generated shared and exclusive acquisitions (lock/try/timed, wrong releases) with generated work; in a quarter of "
    "the cases a group of readers must meet inside; non-trivial = at least one acquisition conflicted with a current holder",
    generate, render, run, nullptr, 12000, 200000};

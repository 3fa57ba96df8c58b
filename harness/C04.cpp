// C04: try and timed acquisitions: truthful result, correct deadline, never blocked by a holder.
#include "common.h"

namespace
{
enum { M_MUTEX, M_TIMED, M_SPIN, M_REC_TIMED, M_SHARED_TIMED, M_SEM };
enum { H_TRY, H_FOR, H_UNTIL };

struct Attempt
{
    int how;
    int us;     // deadline relative to the call, may be negative or zero
    bool shared;
};
// one holder keeps the resource, one attempter asks for it meanwhile
struct Round
{
    bool holder_shared;
    int release;     // 0: the holder releases only after the attempt came back; 1: after hold_ms, long before the deadline
    int hold_ms;
    Work before;     // of the attempter
    Attempt a;
    int poll;        // how the holder waits for the attempt: 0 yield 1 sleep 2 block the thread
};
struct FreeOp
{
    Attempt a;
    Work before, inside;
};
struct Program
{
    int type;
    Place hp, ap;
    std::vector<Round> rounds;
    std::vector<std::pair<Place, std::vector<FreeOp> > > free_parts; // unsynchronised competitors afterwards
    int permits;
} P;

bool has_timed(int t) { return t == M_TIMED || t == M_REC_TIMED || t == M_SHARED_TIMED || t == M_SEM; }
Attempt gen_attempt(Gen &g)
{
    Attempt a;
    a.how = has_timed(P.type) ? g.weighted({1, 2, 2}) : H_TRY;
    a.us = g.pick({1000, 0, 50, 999, 5500, 20000, 60000, -3000});
    a.shared = P.type == M_SHARED_TIMED && g.chance(50);
    return a;
}
void generate(Gen &g)
{
    P = Program();
    P.type = g.weighted({2, 3, 1, 3, 4, 3});
    bool prios = false; // the attempts spin with yield: strict priorities would starve the holder
    P.hp = gen_place(g, true, true, prios);
    P.ap = gen_place(g, true, true, prios);
    P.permits = g.range(1, 3);
    while (g.more(P.rounds.size(), 1, 4, 2))
    {
        Round r;
        r.holder_shared = P.type == M_SHARED_TIMED && g.chance(40);
        r.before = gen_work(g);
        r.a = gen_attempt(g);
        r.release = r.a.how != H_TRY && g.chance(35);
        r.hold_ms = g.pick({1, 0, 8, 30});
        r.poll = g.range(0, 2);
        if (P.hp.kind == K_BOUND || P.hp.kind == K_SHARED_BOUND || P.hp.kind == K_CO || P.hp.kind == K_SHARED) r.poll = g.range(0, 1); // must let the attempter run
        P.rounds.push_back(r);
    }
    while (g.more(P.free_parts.size(), 0, 4, 2))
    {
        std::vector<FreeOp> ops;
        auto place = gen_place(g, true, true, prios);
        while (g.more(ops.size(), 1, 4, 2))
        {
            FreeOp o;
            o.a = gen_attempt(g);
            o.before = gen_work(g);
            o.inside = gen_work(g);
            ops.push_back(o);
        }
        P.free_parts.emplace_back(place, ops);
    }
}
std::string render_attempt(const Attempt &a)
{
    const char *how[] = {"try", "for", "until"};
    return std::string(how[a.how]) + (a.shared ? "_shared" : "") + (a.how ? strf("(%dus)", a.us) : "()");
}
std::string render()
{
    const char *types[] = {"co_mutex", "co_timed_mutex", "co_spinlock", "co_recursive_timed_mutex", "co_shared_timed_mutex", "co_counting_semaphore"};
    std::string s = std::string(types[P.type]) + " holder=" + render_place(P.hp) + " attempter=" + render_place(P.ap);
    if (P.type == M_SEM) s += strf(" permits=%d", P.permits);
    for (auto &r : P.rounds)
        s += " [hold" + std::string(r.holder_shared ? "_shared " : " ") + (r.release ? strf("release_after=%dms ", r.hold_ms) : strf("until_attempt_returned(poll %d) ", r.poll)) + "| "
             + render_work(r.before) + render_attempt(r.a) + (r.release ? "+5s" : "") + "]";
    for (auto &p : P.free_parts)
    {
        s += " {" + render_place(p.first) + ":";
        for (auto &o : p.second) s += " " + render_work(o.before) + render_attempt(o.a) + "[" + render_work(o.inside) + "]";
        s += "}";
    }
    return s;
}

// uniform access
template <typename M>
struct Res
{
    M m;
    void lock(bool shared)
    {
        if constexpr (std::is_same_v<M, co_shared_timed_mutex>)
            if (shared) return m.lock_shared();
        m.lock();
    }
    void unlock(bool shared)
    {
        if constexpr (std::is_same_v<M, co_shared_timed_mutex>)
            if (shared) return m.unlock_shared();
        m.unlock();
    }
    bool attempt(int how, std::chrono::microseconds d, std::chrono::steady_clock::time_point tp, bool shared)
    {
        if constexpr (std::is_same_v<M, co_shared_timed_mutex>)
            if (shared) return how == H_TRY ? m.try_lock_shared() : how == H_FOR ? m.try_lock_shared_for(d) : m.try_lock_shared_until(tp);
        if (how == H_TRY) return m.try_lock();
        if constexpr (!std::is_same_v<M, co_mutex> && !std::is_same_v<M, co_spinlock>)
            return how == H_FOR ? m.try_lock_for(d) : m.try_lock_until(tp);
        return m.try_lock();
    }
};
template <>
struct Res<co_counting_semaphore<8> >
{
    co_counting_semaphore<8> m {P.permits};
    void lock(bool) { m.acquire(); }
    void unlock(bool) { m.release(); }
    bool attempt(int how, std::chrono::microseconds d, std::chrono::steady_clock::time_point tp, bool)
    {
        return how == H_TRY ? m.try_acquire() : how == H_FOR ? m.try_acquire_for(d) : m.try_acquire_until(tp);
    }
};


struct Result
{
    bool got;
    int64_t t0, t1, deadline;
};
template <typename R>
Result do_attempt(R &r, const Attempt &a, int64_t extra_us = 0)
{
    Result x;
    auto d = std::chrono::microseconds(a.us + extra_us);
    auto base = std::chrono::steady_clock::now();
    x.t0 = std::chrono::duration_cast<std::chrono::nanoseconds>(base.time_since_epoch()).count();
    x.deadline = x.t0 + (a.us + extra_us) * 1000;
    x.got = r.attempt(a.how, d, base + d, a.shared);
    x.t1 = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
    note("attempt %s -> %d after %.3fms", render_attempt(a).c_str(), x.got, (double)(x.t1 - x.t0) / 1e6);
    if (a.how != H_TRY && !x.got)
    {
        label("timed out");
        CHECK(x.t1 >= x.deadline, "a timed attempt gave up %lldns before its deadline", (long long)(x.deadline - x.t1));
        CHECK(x.t1 <= std::max(x.deadline, x.t0) + SLACK, "a timed attempt gave up %.3fs after its deadline", (double)(x.t1 - x.deadline) / 1e9);
    }
    return x;
}

std::atomic<int> excl {0}, shar {0};

template <typename M>
void go()
{
    auto r = std::make_unique<Res<M> >();
    int limit = P.type == M_SEM ? P.permits : 1;
    for (auto &rd : P.rounds)
    {
        std::atomic<int> phase {0};
        Actors a;
        bool compatible = P.type == M_SHARED_TIMED && rd.holder_shared && rd.a.shared;
        a.spawn(P.hp, [&] {
            for (int i = 0; i < limit; ++i) r->lock(rd.holder_shared);
            phase = 1;
            if (rd.release == 0)
            {
                while (phase != 2)
                {
                    if (rd.poll == 0)
                        this_co::yield();
                    else if (rd.poll == 1)
                        this_co::sleep_for(2ms);
                    else
                        std::this_thread::sleep_for(1ms);
                }
            }
            else
                this_co::sleep_for(std::chrono::milliseconds(rd.hold_ms));
            for (int i = 0; i < limit; ++i) r->unlock(rd.holder_shared);
        });
        a.spawn(P.ap, [&] {
            while (phase == 0) this_co::sleep_for(1ms);
            do_work(rd.before);
            vs_progress();
            if (rd.release == 0)
            {
                nontrivial();
                auto x = do_attempt(*r, rd.a);
                CHECK(x.got == compatible, "attempt returned %s while the resource was %s", x.got ? "true" : "false", compatible ? "available" : "taken");
                label(compatible ? "shared with the holder" : "refused");
                if (x.got) r->unlock(rd.a.shared);
                observe((uint64_t)(x.t1 - x.t0));
            }
            else
            {
                auto x = do_attempt(*r, rd.a, 5000000);
                CHECK(x.got, "the resource became free %.3fs before the deadline and stayed free, but the attempt failed", (double)(x.deadline - x.t0) / 1e9 - rd.hold_ms / 1e3);
                label("acquired after release");
                nontrivial();
                observe((uint64_t)(x.t1 - x.t0));
                r->unlock(rd.a.shared);
            }
            phase = 2;
        });
        a.join();
        vs_progress();
        Actors b;
        b.spawn(P.ap, [&] {
            auto x = do_attempt(*r, rd.a);
            CHECK(x.got, "nobody uses the resource, but the attempt failed");
            r->unlock(rd.a.shared);
        });
        b.join();
    }
    Actors a;
    for (auto &p : P.free_parts)
        a.spawn(p.first, [&] {
            for (auto &o : p.second)
            {
                do_work(o.before);
                if (excl > 0) nontrivial();
                auto x = do_attempt(*r, o.a);
                if (!x.got)
                {
                    label("free: refused");
                    continue;
                }
                label("free: acquired");
                if (o.a.shared)
                {
                    ++shar;
                    CHECK(excl == 0, "shared attempt succeeded while the resource is held exclusively");
                }
                else
                {
                    int e = ++excl;
                    CHECK(e <= limit && shar == 0, "attempt succeeded but the resource is held by %d exclusive and %d shared others", e - 1, shar.load());
                }
                do_work(o.inside);
                if (!o.a.shared) CHECK(excl <= limit && shar == 0, "somebody else got the resource while it is held");
                --(o.a.shared ? shar : excl);
                r->unlock(o.a.shared);
                vs_progress();
            }
        });
    a.join();
    // nothing is held any more: exactly everything can be taken again, at once
    for (int i = 0; i < limit; ++i)
    {
        bool got = i % 2 == 0 ? do_attempt(*r, Attempt {H_TRY, 0, false}).got : do_attempt(*r, Attempt {H_FOR, 2000000, false}).got;
        CHECK(got, "everything was released, but an attempt fails (%d of %d)", i + 1, limit);
    }
    bool surplus = true;
    if (P.type != M_REC_TIMED)
    {
        surplus = do_attempt(*r, Attempt {H_TRY, 0, false}).got;
        CHECK(!surplus, "a refused attempt left an extra permit or released the lock");
    }
    for (int i = 0; i < limit; ++i) r->unlock(false);
}
void run()
{
    switch (P.type)
    {
    case M_MUTEX: go<co_mutex>(); break;
    case M_TIMED: go<co_timed_mutex>(); break;
    case M_SPIN: go<co_spinlock>(); break;
    case M_REC_TIMED: go<co_recursive_timed_mutex>(); break;
    case M_SHARED_TIMED: go<co_shared_timed_mutex>(); break;
    default: go<co_counting_semaphore<8> >();
    }
}
}

const Property property = {
    "C04",
    "rounds of one holder and one attempter (try, try_for, try_until with deadlines from -3 ms to 60 ms) where the holder either keeps the "
    "resource until the attempt came back or releases it seconds before the deadline, then competitors without coordination; on six resource "
    "types; non-trivial = an attempt was made while the resource was taken",
    generate, render, run, nullptr, 12000, 200000};

// C06: timed condition waits: result, deadline, independence of the single waits.
#include "common.h"

namespace
{
enum { F_FOR, F_UNTIL, F_UNTIMED };
enum { N_ONE, N_ALL };
struct Wait
{
    Work before;
    int form;
    int ms;    // may be negative
    int level; // -1: no predicate
};
struct Note
{
    Work before;
    int how;
    bool locked;
    int inc;
};
struct Part
{
    Place place;
    std::vector<Wait> waits;
    std::vector<Note> notes;
};
struct Program
{
    bool unique;
    bool pred;
    int nag; // ms between notifications that change nothing, 0: none
    std::vector<Part> parts;
} P;
const int LONG_MS = 60000;

void generate(Gen &g)
{
    P = Program();
    P.unique = g.chance(50);
    P.pred = g.chance(40);
    P.nag = P.pred && g.chance(25) ? g.pick({3000, 1000, 7000}) : 0;
    while (g.more(P.parts.size(), 1, 7, 4))
    {
        Part p;
        p.place = gen_place(g, true, true, false);
        if (P.parts.empty() || g.chance(60))
        {
            while (g.more(p.waits.size(), 1, 5, 3))
            {
                Wait w;
                w.before = gen_work(g);
                w.form = g.weighted({4, 3, 1});
                w.ms = P.nag && g.chance(50) ? g.pick({10000, 4000}) : g.pick({1, 0, -2, 3, 10, 25, LONG_MS});
                if (P.parts.empty() && w.form == F_UNTIMED) w.form = F_FOR;
                w.level = P.pred ? g.range(0, 4) : -1;
                p.waits.push_back(w);
            }
        }
        else
        {
            while (g.more(p.notes.size(), 1, 5, 3)) p.notes.push_back({gen_work(g), P.pred ? N_ALL : g.weighted({3, 2}), g.chance(60), g.range(0, 2)});
        }
        P.parts.push_back(p);
    }
}
std::string render()
{
    std::string s = P.unique ? "unique_lock<co_mutex>" : "co_mutex";
    if (P.nag) s += strf(" notify_all every %dms for 70s", P.nag);
    for (auto &p : P.parts)
    {
        s += " {" + render_place(p.place) + ":";
        for (auto &w : p.waits)
        {
            s += " " + render_work(w.before) + (w.form == F_FOR ? strf("wait_for(%dms", w.ms) : w.form == F_UNTIL ? strf("wait_until(now+%dms", w.ms) : "wait(");
            s += w.level < 0 ? ")" : strf("%svalue>=%d)", w.form == F_UNTIMED ? "" : ", ", w.level);
        }
        for (auto &n : p.notes) s += " " + render_work(n.before) + (n.inc ? strf("value+=%d,", n.inc) : "") + (n.how == N_ONE ? "notify_one" : "notify_all") + (n.locked ? "(locked)" : "");
        s += "}";
    }
    return s;
}

struct Rec
{
    int64_t sure = 0; // time at which a notification that must reach this wait had been sent
    int level;
    bool open = true;
};
// protected by the lock under test
int holder = -1;
int value = 0;
std::vector<std::shared_ptr<Rec> > active;
long W = 0, RL = 0, S = 0, N = 0; // long waits begun, long waits ended, notified short waits, guaranteed releases (<= RL + S in the end)
std::atomic<long> notify_begun {0}, notify_done {0};

template <typename L>
struct Guard
{
    L l;
    explicit Guard(co_mutex &m) : l(m) {}
    L &get() { return l; }
};
template <>
struct Guard<co_mutex>
{
    co_mutex &l;
    explicit Guard(co_mutex &m) : l(m) { l.lock(); }
    ~Guard() { l.unlock(); }
    co_mutex &get() { return l; }
};

template <typename L>
void go()
{
    auto m = std::make_unique<co_mutex>();
    auto cv = std::make_unique<co_condition_variable>();
    std::atomic<int> unfinished {(int)P.parts.size()};
    Actors a;
    auto enter = [&](int me) {
        CHECK(holder == -1, "participant %d owns the lock together with participant %d", me, holder);
        holder = me;
    };
    auto leave = [&](int me) {
        CHECK(holder == me, "participant %d lost the lock to %d", me, holder);
        holder = -1;
    };
    auto notify = [&](int how, const std::vector<std::shared_ptr<Rec> > &sees) {
        ++notify_begun;
        how == N_ONE ? cv->notify_one() : cv->notify_all();
        int64_t t = now_ns();
        ++notify_done;
        if (how == N_ALL || sees.size() == 1)
            for (auto &r : sees)
                if (r->sure == 0 && (r->level < 0 || value >= r->level)) r->sure = t;
    };
    for (size_t i = 0; i < P.parts.size(); ++i)
        a.spawn(P.parts[i].place, [&, i] {
            int me = (int)i;
            auto &p = P.parts[i];
            for (auto &w : p.waits)
            {
                do_work(w.before);
                Guard<L> g(*m);
                enter(me);
                leave(me);
                bool is_long = w.form == F_UNTIMED || w.ms == LONG_MS;
                if (is_long) ++W;
                auto r = std::make_shared<Rec>();
                r->level = w.level;
                active.push_back(r);
                long done0 = notify_done;
                bool already = w.level >= 0 && value >= w.level;
                auto pred = [&] {
                    CHECK(holder == -1, "the predicate is evaluated while participant %d owns the lock", holder);
                    return value >= w.level;
                };
                auto d = std::chrono::milliseconds(w.ms);
                auto base = std::chrono::steady_clock::now();
                int64_t t0 = std::chrono::duration_cast<std::chrono::nanoseconds>(base.time_since_epoch()).count();
                int64_t deadline = t0 + (int64_t)w.ms * 1000000;
                note("p%d wait form=%d %dms level=%d", me, w.form, w.ms, w.level);
                bool res = true;
                if (w.form == F_UNTIMED)
                    w.level < 0 ? cv->wait(g.get()) : cv->wait(g.get(), pred);
                else if (w.form == F_FOR)
                    res = w.level < 0 ? cv->wait_for(g.get(), d) : cv->wait_for(g.get(), d, pred);
                else
                    res = w.level < 0 ? cv->wait_until(g.get(), base + d) : cv->wait_until(g.get(), base + d, pred);
                int64_t t1 = now_ns();
                note("p%d back %d after %.3fms", me, res, (double)(t1 - t0) / 1e6);
                enter(me);
                vs_progress();
                observe((uint64_t)me * 2 + res);
                std::erase(active, r);
                if (w.form != F_UNTIMED)
                {
                    if (!res)
                    {
                        label("timed out");
                        CHECK(t1 >= deadline, "participant %d: the wait timed out %lldns before its deadline", me, (long long)(deadline - t1));
                        CHECK(r->sure == 0 || r->sure >= deadline, "participant %d: notified %.3fms before the deadline but the wait reports a timeout", me, (double)(deadline - r->sure) / 1e6);
                    }
                    else if (w.level < 0)
                    {
                        label("notified");
                        CHECK(notify_begun > done0, "participant %d: the wait reports a notification but there was none", me);
                    }
                    CHECK(t1 <= std::max(deadline, t0) + SLACK, "participant %d: the wait came back %.3fs after its deadline", me, (double)(t1 - deadline) / 1e9);
                    if (w.level >= 0)
                    {
                        label("predicate");
                        CHECK(res == (value >= w.level), "participant %d: the wait returned %d but the predicate is %d", me, res, value >= w.level);
                        if (already) CHECK(t1 <= t0 + SLACK, "participant %d: the predicate was true but the wait took %.3fs", me, (double)(t1 - t0) / 1e9);
                    }
                }
                else if (w.level >= 0)
                    CHECK(value >= w.level, "participant %d: the wait returned while the predicate is false", me);
                if (r->sure && r->sure < deadline && w.form != F_UNTIMED)
                {
                    label("notified before the deadline");
                    CHECK(t1 <= r->sure + SLACK, "participant %d: woken %.3fs after the notification", me, (double)(t1 - r->sure) / 1e9);
                }
                if (is_long)
                    ++RL;
                else if (res && w.level < 0)
                    ++S;
                leave(me);
            }
            for (auto &n : p.notes)
            {
                do_work(n.before);
                std::vector<std::shared_ptr<Rec> > sees;
                {
                    Guard<L> g(*m);
                    enter(me);
                    value += n.inc;
                    sees = active;
                    if (!active.empty()) nontrivial();
                    if (active.size() > 1) label("two or more waiting");
                    if (!P.pred)
                    {
                        if (n.how == N_ALL)
                            N = std::max(N, W + S);
                        else if (N < W + S)
                            ++N;
                    }
                    note("p%d notify %d, waiting %zu", me, n.how, active.size());
                    if (n.locked) notify(n.how, sees);
                    leave(me);
                }
                if (!n.locked) notify(n.how, sees);
                vs_progress();
            }
            --unfinished;
        });
    bool raised = false;
    for (int turn = 0;; ++turn)
    {
        this_co::sleep_for(std::chrono::milliseconds(P.nag ? P.nag : 5));
        if (unfinished == 0) break;
        Guard<L> g(*m);
        enter(99);
        if (P.pred)
        {
            if (turn < 70000 / std::max(P.nag, 1) && P.nag)
            {
                if (!active.empty()) label("notified without a change");
                notify(N_ALL, active);
            }
            else if ((P.nag || turn > 20) && !raised)
            {
                value += 10;
                raised = true;
                notify(N_ALL, active);
            }
        }
        else if (RL + S >= N && RL < W && turn > 20)
        {
            if (N < W + S) ++N;
            notify(N_ONE, active);
            label("main notify");
        }
        leave(99);
    }
    a.join();
    cv.reset(); // timers of finished waits must not come back to it
    m.reset();
    this_co::sleep_for(100ms);
}
void run()
{
    if (P.unique)
        go<std::unique_lock<co_mutex> >();
    else
        go<co_mutex>();
}
}

const Property property = {
    "C06",
    "1-7 participants run sequences of wait_for/wait_until (deadlines from -2 ms to 60 s, with and without predicate) and notifications on one "
    "condition variable, some with further notifications that change nothing; non-trivial = a notification was sent while somebody waited",
    generate, render, run, nullptr, 24000, 300000};

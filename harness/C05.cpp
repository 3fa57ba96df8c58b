// C05: condition variable: no lost wake-up, lock held on return, predicate holds on return.
#include "common.h"

namespace
{
enum { L_MUTEX, L_UNIQUE, L_RECURSIVE, L_SHARED, L_SPIN };
enum { N_ONE, N_ALL, N_EXIT };
struct Wait
{
    Work before;
    int level; // -1: plain wait, else wait until value >= level
};
struct Note
{
    Work before;
    int how;
    bool locked; // notify while holding the lock (else right after releasing it)
    int inc;     // raises the value (predicate waits need notify_all then)
};
struct Part
{
    Place place;
    std::vector<Wait> waits;
    std::vector<Note> notes;
};
struct Program
{
    int lock;
    bool pred; // waits with predicates, else plain waits
    std::vector<Part> parts;
    int top = 0; // final value
} P;

void generate(Gen &g)
{
    P = Program();
    P.lock = g.weighted({3, 3, 1, 1, 1});
    P.pred = g.chance(45);
    while (g.more(P.parts.size(), 2, 7, 4))
    {
        Part p;
        p.place = gen_place(g, true, true, false);
        // a participant waits or notifies; notifiers that end with a coroutine-exit notification are coroutines
        if (P.parts.empty() || g.chance(60))
        {
            while (g.more(p.waits.size(), 1, 4, 2)) p.waits.push_back({gen_work(g), P.pred ? g.range(0, 4) : -1});
        }
        else
        {
            while (g.more(p.notes.size(), 1, 4, 2))
            {
                Note n;
                n.before = gen_work(g);
                n.how = P.pred ? N_ALL : g.weighted({3, 2});
                n.locked = g.chance(60);
                n.inc = g.range(0, 2);
                P.top += n.inc;
                p.notes.push_back(n);
            }
            if (p.place.kind != K_THREAD && g.chance(20)) p.notes.back().how = N_EXIT;
        }
        P.parts.push_back(p);
    }
}
std::string render()
{
    const char *locks[] = {"co_mutex", "unique_lock<co_mutex>", "co_recursive_mutex", "co_shared_mutex", "co_spinlock"};
    const char *how[] = {"notify_one", "notify_all", "notify_all_at_co_exit"};
    std::string s = locks[P.lock];
    for (auto &p : P.parts)
    {
        s += " {" + render_place(p.place) + ":";
        for (auto &w : p.waits) s += " " + render_work(w.before) + (w.level < 0 ? "wait" : strf("wait(value>=%d)", w.level));
        for (auto &n : p.notes) s += " " + render_work(n.before) + (n.inc ? strf("value+=%d,", n.inc) : "") + how[n.how] + (n.locked ? "(locked)" : "");
        s += "}";
    }
    return s;
}

template <typename L>
struct Guard // what the user passes to wait()
{
    L &l;
    explicit Guard(L &m) : l(m) { l.lock(); }
    ~Guard() { l.unlock(); }
    L &get() { return l; }
};
template <>
struct Guard<std::unique_lock<co_mutex> >
{
    std::unique_lock<co_mutex> l;
    explicit Guard(co_mutex &m) : l(m) {}
    std::unique_lock<co_mutex> &get() { return l; }
};

// all of these are protected by the lock under test
int holder = -1;
long W = 0, R = 0, N = 0; // waits begun, waits returned, releases guaranteed by notifications so far
int value = 0;

template <typename L, typename M>
void go()
{
    auto m = std::make_unique<M>();
    auto cv = std::make_unique<co_condition_variable>();
    std::atomic<int> unfinished {0};
    Actors a;
    auto enter = [&](int me) {
        CHECK(holder == -1, "participant %d owns the lock together with participant %d", me, holder);
        holder = me;
    };
    auto leave = [&](int me) {
        CHECK(holder == me, "participant %d lost the lock to %d", me, holder);
        holder = -1;
    };
    for (size_t i = 0; i < P.parts.size(); ++i) unfinished += !P.parts[i].waits.empty() || P.pred;
    for (size_t i = 0; i < P.parts.size(); ++i)
        a.spawn(P.parts[i].place, [&, i] {
            int me = (int)i;
            auto &p = P.parts[i];
            for (auto &w : p.waits)
            {
                do_work(w.before);
                Guard<L> g(*m);
                enter(me);
                leave(me);
                ++W;
                if (w.level < 0)
                {
                    note("p%d wait", me);
                    cv->wait(g.get());
                }
                else
                {
                    note("p%d wait value>=%d, value=%d", me, w.level, value);
                    if (value >= w.level)
                        label("predicate already true");
                    else
                    {
                        label("predicate false at first");
                        nontrivial();
                    }
                    cv->wait(g.get(), [&] {
                        CHECK(holder == -1, "the predicate is evaluated while participant %d owns the lock", holder);
                        return value >= w.level;
                    });
                    CHECK(value >= w.level, "wait with a predicate returned while the predicate is false");
                }
                note("p%d woken", me);
                enter(me);
                ++R;
                vs_progress();
                observe((uint64_t)me);
                for (int k = 0; k < 3; ++k) vs_point();
                leave(me);
            }
            for (auto &n : p.notes)
            {
                do_work(n.before);
                {
                    Guard<L> g(*m);
                    enter(me);
                    value += n.inc;
                    note("p%d notify %d waiting=%ld", me, n.how, W - N);
                    if (W - N >= 1 && !P.pred) nontrivial();
                    if (W - N >= 2) label("two or more waiting");
                    if (n.how == N_ONE)
                    {
                        if (N < W) ++N;
                        label("notify_one");
                    }
                    else
                    {
                        N = W;
                        label(n.how == N_ALL ? "notify_all" : "notify at exit");
                    }
                    if (n.how == N_EXIT)
                        notify_all_at_co_exit(*cv);
                    else if (n.locked)
                        n.how == N_ONE ? cv->notify_one() : cv->notify_all();
                    leave(me);
                }
                if (n.how != N_EXIT && !n.locked) n.how == N_ONE ? cv->notify_one() : cv->notify_all();
                vs_progress();
            }
            if (!p.waits.empty() || P.pred) --unfinished;
        });
    // Every notification so far must have released what it guarantees, before new ones are sent.
    // Predicate waits must finish by the notifications of the program and one last raise of the value.
    bool raised = false;
    int turn = 0;
    for (;;)
    {
        this_co::sleep_for(5ms);
        if (unfinished == 0) break;
        Guard<L> g(*m);
        enter(99);
        if (P.pred)
        {
            if (!raised)
            {
                value += 10;
                raised = true;
                cv->notify_all();
                N = W;
            }
        }
        else if (R >= N && W > N)
        {
            ++turn;
            note("main notify, waiting=%ld", W - N);
            if (turn % 3 == 0)
            {
                N = W;
                cv->notify_all();
            }
            else
            {
                ++N;
                cv->notify_one();
            }
            label("main notify");
        }
        leave(99);
    }
    a.join();
    CHECK(R == W && R >= N, "%ld waits, %ld returned, %ld releases promised", W, R, N);
}
void run()
{
    switch (P.lock)
    {
    case L_MUTEX: go<co_mutex, co_mutex>(); break;
    case L_UNIQUE: go<std::unique_lock<co_mutex>, co_mutex>(); break;
    case L_RECURSIVE: go<co_recursive_mutex, co_recursive_mutex>(); break;
    case L_SHARED: go<co_shared_mutex, co_shared_mutex>(); break;
    default: go<co_spinlock, co_spinlock>();
    }
}
}

const Property property = {
    "C05",
    "2-7 participants wait (plain or with a predicate on a shared value) or notify (one, all, at coroutine exit; with the lock held or just "
    "after releasing it); every notification must release what it guarantees before the main thread sends new ones; non-trivial = a "
    "notification met a waiter, or a predicate wait began with a false predicate",
    generate, render, run, nullptr, 12000, 200000};

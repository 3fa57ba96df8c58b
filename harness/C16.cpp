// C16: timers fire the right number of times, never early, not after stop.
#include "common.h"
#include <mutex>

namespace
{
enum { T_ONCE, T_ABS, T_LOOP };
enum { O_START, O_STOP, O_RESET, O_SLEEP, O_AWAIT, O_CALLBACK, O_QUERY };
enum { B_PLAIN, B_SLEEP, B_BLOCK, B_YIELD, B_TIMER };
const char *bnames[] = {"", " sleeps", " blocks", " yields", " starts a timer"};
struct Op
{
    int op, n;
    Work before;
};
struct Timer
{
    int type;
    int ms;
    int body;
    Place owner;
    std::vector<Op> ops;
};
struct SelfTimer // manipulated by its own callback
{
    int ms, fires;
    bool loop; // loop timer stopped by its callback, else a one-shot timer reset by its callback
};
struct SharedTimer // manipulated by several participants
{
    int ms, type;
    std::vector<std::pair<Place, std::vector<Op> > > parts;
};
struct Program
{
    bool slow; // intervals of minutes, to see when a timer fires at last
    std::vector<Timer> timers;
    std::vector<SelfTimer> selfs;
    std::vector<SharedTimer> shared;
} P;

bool slow;
void tune(Gen &g, CaseConfig &c)
{
    slow = g.chance(15);
    if (slow) c.tick_ms = 1000; // a short tick makes long times expensive
    // a loop timer must not be due more often than the machine can run its callback
    c.vs.now_cost_ns = std::min(c.vs.now_cost_ns, 20000);
    c.vs.step_cost_ns = std::min(c.vs.step_cost_ns, 300);
    c.vs.jump_max_us = std::min(c.vs.jump_max_us, c.vs.jump_pm > 10 ? 50 : 500);
}
Op gen_op(Gen &g)
{
    Op o;
    o.op = g.weighted({5, 3, 3, 4, 3, 1, 2});
    o.n = o.op == O_SLEEP ? g.range(0, 8) : o.op == O_AWAIT ? g.range(1, 3) : 0;
    o.before = P.slow ? Work() : gen_work(g);
    return o;
}
void generate(Gen &g)
{
    P = Program();
    P.slow = slow;
    while (g.more(P.timers.size(), 1, 4, 2))
    {
        Timer t;
        t.type = g.weighted({4, 1, 2});
        t.ms = P.slow ? g.pick({60000, 80000}) : t.type == T_LOOP ? g.pick({2, 5, 10}) : g.pick({0, 1, 5, 10, 20});
        t.body = g.weighted({6, 1, 1, 1, 1});
        t.owner = gen_place(g);
        while (g.more(t.ops.size(), 1, 9, 5)) t.ops.push_back(gen_op(g));
        P.timers.push_back(t);
    }
    if (P.slow) return;
    while (g.more(P.selfs.size(), 0, 2, 1)) P.selfs.push_back({g.pick({2, 5}), g.range(1, 4), g.chance(50)});
    while (g.more(P.shared.size(), 0, 1, 1))
    {
        SharedTimer t;
        t.ms = g.pick({2, 5});
        t.type = g.pick({T_ONCE, T_LOOP});
        while (g.more(t.parts.size(), 2, 3, 2))
        {
            std::vector<Op> ops;
            while (g.more(ops.size(), 1, 5, 3)) ops.push_back(gen_op(g));
            t.parts.push_back({gen_place(g), ops});
        }
        P.shared.push_back(t);
    }
}
std::string render_op(const Op &o, int ms)
{
    const char *on[] = {"start", "stop", "reset", "sleep", "await", "callback", "query"};
    return " " + render_work(o.before) + on[o.op] + (o.op == O_SLEEP ? strf(" %gms", o.n * (ms + 1) / 4.0) : o.op == O_AWAIT ? strf(" %d", o.n) : "");
}
std::string render()
{
    const char *tn[] = {"once", "absolute", "loop"};
    std::string s;
    for (auto &t : P.timers)
    {
        s += strf("timer{%s %dms%s; %s:", tn[t.type], t.ms, bnames[t.body], render_place(t.owner).c_str());
        for (auto &o : t.ops) s += render_op(o, t.ms);
        s += "} ";
    }
    for (auto &t : P.selfs) s += strf("self{%s %dms *%d} ", t.loop ? "loop" : "once", t.ms, t.fires);
    for (auto &t : P.shared)
    {
        s += strf("shared{%s %dms;", tn[t.type], t.ms);
        for (auto &p : t.parts)
        {
            s += " {" + render_place(p.first) + ":";
            for (auto &o : p.second) s += render_op(o, t.ms);
            s += "}";
        }
        s += "} ";
    }
    return s;
}

const int64_t MS = 1000000;
void body_work(int b)
{
    switch (b)
    {
    case B_SLEEP: this_co::sleep_for(3ms); break;
    case B_BLOCK: std::this_thread::sleep_for(2ms); break;
    case B_YIELD: this_co::yield(); break;
    case B_TIMER: co_timer::create([] {}, co_expire_type::once, 1)->start(); break;
    }
}

// model of a timer with one owner
struct Model
{
    const Timer *def;
    std::mutex mu;
    int fired = 0;
    std::atomic<int> done {0}; // callbacks that came to their end
    struct Arm
    {
        int64_t begin, deadline; // the run began not before; expires not before
        bool must;               // it certainly fires
        int min_version;
        bool alone = false;      // all earlier runs had fired when it began
    };
    std::vector<Arm> cand;  // one-shot: runs that may have fired or may still fire
    int64_t closed_max = 0; // loop: the most that finished runs can have fired
    int64_t open_begin = 0; // loop: when the present run began (0: none)
    int version = 0;
    int64_t interval() const { return def->ms * MS; }

    void fire(int v)
    {
        {
            std::scoped_lock lk(mu);
            int n = fired++;
            int64_t t = now_ns();
            if (def->type == T_LOOP)
            {
                int64_t most = closed_max + (open_begin ? (t - open_begin) / interval() : 0);
                CHECK(fired <= most, "loop timer: callback number %d ran although only %lld expiries were possible", fired, (long long)most);
                if (fired > 1) label("loop fired again");
            }
            else
            {
                CHECK(fired <= (int)cand.size(), "one-shot timer: callback ran %d times although only %zu runs could expire", fired, cand.size());
                auto &a = cand[(size_t)n];
                CHECK(t >= a.deadline, "one-shot timer fired %lld us before its expiry", (long long)(a.deadline - t) / 1000);
                CHECK(t <= std::max(a.begin, a.deadline) + SLACK || !a.must || cand.size() != (size_t)fired, "one-shot timer fired %lld us after its expiry", (long long)(t - a.deadline) / 1000);
                if (cand.size() == (size_t)fired && a.alone) CHECK(v >= a.min_version, "the timer called a callback that had been replaced");
            }
            nontrivial();
            label("fired");
        }
        body_work(def->body);
        ++done;
    }
    int count()
    {
        std::scoped_lock lk(mu);
        return fired;
    }
};

void nap(int64_t ns)
{
    while (ns > 0)
    {
        int64_t n = std::min<int64_t>(ns, 30000 * MS);
        this_co::sleep_for(std::chrono::nanoseconds(n));
        if (n >= 1000 * MS) vs_progress();
        ns -= n;
    }
}

void own(Model &m)
{
    auto &def = *m.def;
    bool loop = def.type == T_LOOP;
    int64_t abs_deadline = now_ns() + m.interval();
    struct Callback
    {
        Model *m;
        int v;
        void operator()() const { m->fire(v); }
    };
    auto cb = [&m](int v) { return Callback {&m, v}; };
    auto t = def.type == T_ABS ? co_timer::create(cb(0), std::chrono::steady_clock::time_point(std::chrono::nanoseconds(abs_deadline))) : co_timer::create(cb(0), loop ? co_expire_type::loop : co_expire_type::once, (unsigned long long)def.ms);
    // one-shot: is the last candidate certainly still in its run (1), certainly over (0), unknown (2)
    auto armed = [&](int64_t at) {
        if (m.cand.empty() || m.fired >= (int)m.cand.size()) return 0;
        return at < m.cand.back().deadline ? 1 : 2;
    };
    bool open = false; // the last candidate was not ended by a stop
    auto disarm = [&](int64_t t1) { // after a stop that returned at t1
        if (loop)
        {
            if (m.open_begin) m.closed_max += (t1 - m.open_begin) / m.interval();
            m.open_begin = 0;
            return;
        }
        if (open && m.fired < (int)m.cand.size() && t1 < m.cand.back().deadline)
        {
            m.cand.pop_back(); // stopped in time
            label("stopped in time");
        }
        // stop and expiry may have met for the others
        for (size_t i = (size_t)m.fired; i < m.cand.size(); ++i) m.cand[i].must = false;
        open = false;
    };
    for (auto &o : def.ops)
    {
        do_work(o.before);
        switch (o.op)
        {
        case O_START:
        {
            int64_t t0 = now_ns();
            bool added = false;
            {
                std::scoped_lock lk(m.mu);
                if (loop)
                {
                    if (!m.open_begin) m.open_begin = t0;
                }
                else if (!open || armed(t0) != 1)
                {
                    // if the timer is still running this changes nothing, otherwise it is a new run
                    bool sure = !open || armed(t0) == 0;
                    m.cand.push_back({t0, def.type == T_ABS ? abs_deadline : t0 + m.interval(), sure, m.version, m.fired == (int)m.cand.size()});
                    added = true;
                }
                else
                    label("start while running");
            }
            t->start();
            int64_t t1 = now_ns();
            std::scoped_lock lk(m.mu);
            if (!loop && !added && t1 >= m.cand.back().deadline)
            {
                // the timer may have expired just before: then this began a new run
                m.cand.push_back({t0, def.type == T_ABS ? abs_deadline : t0 + m.interval(), false, m.version});
            }
            open = true;
            break;
        }
        case O_STOP:
        {
            t->stop();
            int64_t t1 = now_ns();
            CHECK(!t->is_running(), "the timer is running after stop");
            std::scoped_lock lk(m.mu);
            disarm(t1);
            break;
        }
        case O_RESET:
        {
            int64_t t0 = now_ns();
            size_t f0;
            Model::Arm a {t0, def.type == T_ABS ? abs_deadline : t0 + m.interval(), true, 0};
            {
                // callbacks of the new run may come before reset returns
                std::scoped_lock lk(m.mu);
                f0 = (size_t)m.fired;
                a.min_version = m.version;
                a.alone = m.fired == (int)m.cand.size();
                if (!loop)
                    m.cand.push_back(a);
                else if (!m.open_begin)
                    m.open_begin = t0;
            }
            t->reset();
            int64_t t1 = now_ns();
            std::scoped_lock lk(m.mu);
            if (loop)
            {
                if (m.open_begin) m.closed_max += (t1 - m.open_begin) / m.interval();
                m.open_begin = t0;
            }
            else
            {
                // as stop, for the candidate before the new one
                size_t i = m.cand.size() - 1;
                if (open && i > 0 && m.fired <= (int)i - 1 && t1 < m.cand[i - 1].deadline)
                {
                    m.cand.erase(m.cand.begin() + (long)i - 1);
                    --i;
                    label("reset in time");
                }
                for (size_t j = f0; j < i; ++j) m.cand[j].must = false;
            }
            open = true;
            break;
        }
        case O_SLEEP: nap((int64_t)o.n * (def.ms + 1) * MS / 4); break;
        case O_AWAIT:
        {
            int64_t t0 = now_ns();
            if (loop)
            {
                if (!m.open_begin) break;
                int target = m.count() + o.n;
                while (m.count() < target)
                {
                    nap(std::clamp<int64_t>(m.interval() / 2, MS, 2000 * MS));
                    CHECK(now_ns() < t0 + o.n * (m.interval() + SLACK), "the loop timer does not fire any more");
                }
            }
            else
            {
                if (!open) break;
                int64_t d;
                int target;
                {
                    std::scoped_lock lk(m.mu);
                    target = 0;
                    for (auto &a : m.cand) target += a.must;
                    d = m.cand.back().deadline;
                }
                while (m.count() < target)
                {
                    nap(std::clamp<int64_t>(m.interval() / 2, MS, 2000 * MS));
                    CHECK(now_ns() < std::max(t0, d) + SLACK, "the one-shot timer does not fire");
                }
            }
            label("awaited");
            break;
        }
        case O_CALLBACK:
        {
            int v = m.version + 1;
            auto old = t->set_expire_callback(cb(v));
            CHECK(old != nullptr, "the previous callback was lost");
            CHECK(old.target<Callback>() && old.target<Callback>()->v == v - 1, "replacing the callback did not give back the previous one");
            int64_t t1 = now_ns();
            std::scoped_lock lk(m.mu);
            m.version = v;
            for (size_t i = (size_t)m.fired; i < m.cand.size(); ++i)
                if (t1 < m.cand[i].deadline) m.cand[i].min_version = v;
            label("callback replaced");
            break;
        }
        case O_QUERY:
        {
            bool r = t->is_running();
            int64_t t1 = now_ns();
            std::scoped_lock lk(m.mu);
            if (loop)
                CHECK(r == (m.open_begin != 0), "is_running of the loop timer says %d", r);
            else if (!open)
                CHECK(!r, "is_running says that the stopped timer runs");
            else if (armed(t1) == 1 && m.cand.back().must)
                CHECK(r, "is_running says that the running timer is stopped");
            break;
        }
        }
        vs_progress();
    }
    if (loop)
    {
        t->stop();
        int64_t t1 = now_ns();
        std::scoped_lock lk(m.mu);
        disarm(t1);
    }
    // every run that was not stopped fires
    int must = 0;
    int64_t d = now_ns();
    {
        std::scoped_lock lk(m.mu);
        for (auto &a : m.cand)
        {
            must += a.must;
            d = std::max(d, a.deadline);
        }
    }
    while (m.count() < must)
    {
        nap(std::clamp<int64_t>(m.interval() / 2, MS, 2000 * MS));
        CHECK(now_ns() < d + SLACK, "the timer fired %d times, at least %d are due", m.count(), must);
    }
    // superfluous callbacks would come now
    nap(m.interval() * 3 / 2 + 2 * MS);
    vs_progress();
}

void run()
{
    Actors acts;
    std::vector<std::unique_ptr<Model> > models;
    for (auto &t : P.timers)
    {
        models.push_back(std::make_unique<Model>());
        auto *m = models.back().get();
        m->def = &t;
        acts.spawn(t.owner, [m] { own(*m); });
    }
    struct Self
    {
        std::shared_ptr<co_timer> t;
        std::atomic<int> fired {0};
        std::atomic<int64_t> limit {INT64_MAX}; // the most it can have fired until it was stopped
        std::atomic<int64_t> armed {0};
        std::atomic<bool> stopped {false};
    };
    std::vector<std::unique_ptr<Self> > selfs;
    for (auto &d : P.selfs)
    {
        selfs.push_back(std::make_unique<Self>());
        auto *s = selfs.back().get();
        auto cb = [s, &d] {
            int n = ++s->fired;
            int64_t t = now_ns();
            if (!d.loop)
            {
                CHECK(n <= d.fires, "the one-shot timer fired %d times after %d runs", n, d.fires);
                CHECK(t >= s->armed + d.ms * MS, "the timer fired too early after reset in its callback");
                if (n < d.fires)
                {
                    s->armed = now_ns();
                    s->t->reset();
                }
            }
            else
            {
                CHECK(n <= (t - s->armed) / (d.ms * MS), "the loop timer fired %d times within %lld us", n, (long long)(t - s->armed) / 1000);
                CHECK(n <= s->limit, "the loop timer fired after it was stopped by its callback");
                if (n == d.fires)
                {
                    s->t->stop();
                    s->limit = (now_ns() - s->armed) / (d.ms * MS);
                    s->stopped = true;
                }
            }
            label("callback used its own timer");
        };
        s->t = co_timer::create(cb, d.loop ? co_expire_type::loop : co_expire_type::once, (unsigned long long)d.ms);
        s->armed = now_ns();
        s->t->start();
    }
    struct Shared
    {
        std::shared_ptr<co_timer> t;
        std::atomic<int> fired {0}, armings {0};
        std::atomic<int64_t> first {0};
    };
    std::vector<std::unique_ptr<Shared> > shared;
    for (auto &d : P.shared)
    {
        shared.push_back(std::make_unique<Shared>());
        auto *s = shared.back().get();
        s->first = now_ns();
        s->t = co_timer::create(
            [s, &d] {
                int n = ++s->fired;
                if (d.type == T_ONCE)
                    CHECK(n <= s->armings, "the one-shot timer fired %d times after %d runs", n, s->armings.load());
                else
                    CHECK(n <= (now_ns() - s->first) / (d.ms * MS), "the loop timer fired too often");
                label("shared timer fired");
            },
            d.type == T_LOOP ? co_expire_type::loop : co_expire_type::once, (unsigned long long)d.ms);
        for (auto &p : d.parts)
            acts.spawn(p.first, [s, &d, &p] {
                for (auto &o : p.second)
                {
                    do_work(o.before);
                    switch (o.op)
                    {
                    case O_START:
                        ++s->armings;
                        s->t->start();
                        break;
                    case O_RESET:
                        ++s->armings;
                        s->t->reset();
                        break;
                    case O_STOP: s->t->stop(); break;
                    case O_SLEEP: nap((int64_t)o.n * (d.ms + 1) * MS / 4); break;
                    default: s->t->is_running(); break;
                    }
                    vs_progress();
                }
            });
    }
    acts.join();
    for (size_t i = 0; i < shared.size(); ++i)
    {
        auto &s = *shared[i];
        s.t->stop();
        nap(100 * MS);
        int before = s.fired;
        int64_t t0 = now_ns();
        ++s.armings;
        s.t->start();
        while (s.fired == before)
        {
            nap(MS);
            CHECK(now_ns() < t0 + SLACK, "the timer does not fire any more");
        }
        s.t->stop();
        vs_progress();
    }
    for (size_t i = 0; i < selfs.size(); ++i)
    {
        auto &s = *selfs[i];
        auto &d = P.selfs[i];
        int64_t t0 = now_ns();
        while (d.loop ? !s.stopped : s.fired < d.fires)
        {
            nap(MS);
            CHECK(now_ns() < t0 + SLACK * d.fires, "the timer used by its own callback does not fire any more");
        }
        nap(d.ms * 3 * MS + 5 * MS);
        s.t->set_expire_callback(nullptr);
    }
    // callbacks that have begun come to their end
    for (auto &m : models)
        while (m->done < m->count()) nap(MS);
}
}

const Property property = {
    "C16",
    "1-4 one-shot, absolute and loop timers, each used by its owner with 1-9 operations (start, stop, reset, sleep, await, replace the callback, "
    "query), callbacks that sleep, block, yield or start timers; timers used by their own callback; a timer used by 2-3 participants at once; "
    "intervals of 0-20 ms or of minutes; non-trivial = a timer with an owner fired",
    generate, render, run, tune, 24000, 300000};

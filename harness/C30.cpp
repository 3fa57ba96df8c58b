// C30: what a handle tells about its coroutine is true
#include "common.h"
#include <map>

namespace
{
enum { O_WORK = 0, O_SELF, O_LOOK, O_PRIO, O_WAIT, O_WAIT_FOR, O_SUB, O_BLOCK, O_N };
struct Op
{
    int what = 0, target = 0, n = 0;
    Work work;
};
struct Body
{
    Place place;
    int name = 0, stack = 0, prio = 99;
    bool throws = false, waits = false;
    std::vector<Op> ops;
};
struct Program
{
    std::vector<Body> bodies;
    std::vector<Op> main;
    bool moved = false;
} P;

const int prios[] = {99, 0, 1, 50, 98, 100, 1000, -3};
const int stacks[] = {0, 64 * 1024, 100001, 256 * 1024};

Op gen_op(Gen &g, int self, int n, bool can_wait)
{
    Op o;
    o.what = g.weighted({4, 3, 5, 3, can_wait ? 1 : 0, can_wait ? 1 : 0, 2, 1});
    o.target = g.range(0, n - 1);
    o.n = o.what == O_PRIO ? g.range(0, 7) : g.pick({0, 1, 5, 20});
    // waits go one way only
    if ((o.what == O_WAIT || o.what == O_WAIT_FOR) && self >= 0) o.target = o.target > self ? o.target : n - 1;
    if (o.what == O_WORK) o.work = gen_work(g);
    return o;
}

void generate(Gen &g)
{
    P = Program();
    int n = 1;
    while (g.more((size_t)n, 1, 5, 3)) ++n;
    for (int i = 0; i < n; ++i)
    {
        Body b;
        b.place = gen_place(g, false);
        b.name = g.range(0, 3);
        b.stack = g.weighted({4, 1, 1, 1});
        b.prio = prios[g.weighted({6, 1, 1, 1, 1, 1, 1})];
        b.throws = g.chance(15);
        while (g.more(b.ops.size(), 0, 8, 4)) b.ops.push_back(gen_op(g, i, n, i + 1 < n));
        for (auto &o : b.ops) b.waits |= o.what == O_WAIT || o.what == O_WAIT_FOR;
        P.bodies.push_back(b);
    }
    while (g.more(P.main.size(), 0, 8, 4)) P.main.push_back(gen_op(g, -1, n, true));
    P.moved = g.chance(30);
}

std::string render_op(const Op &o)
{
    switch (o.what)
    {
    case O_WORK: return render_work(o.work);
    case O_SELF: return "look at itself ";
    case O_LOOK: return strf("look at %d ", o.target);
    case O_PRIO: return strf("set priority of %d to %d ", o.target, prios[o.n]);
    case O_WAIT: return strf("wait for %d ", o.target);
    case O_WAIT_FOR: return strf("wait for %d %dms ", o.target, o.n);
    case O_SUB: return strf("subscribe to the end of %d ", o.target);
    default: return "wait to be seen suspended ";
    }
}
std::string render()
{
    std::string s;
    for (size_t i = 0; i < P.bodies.size(); ++i)
    {
        auto &b = P.bodies[i];
        s += strf("%zu{%s name%d stack%d prio%d%s: ", i, render_place(b.place).c_str(), b.name, stacks[b.stack], b.prio, b.throws ? " throws" : "");
        for (auto &o : b.ops) s += render_op(o);
        s += "} ";
    }
    s += "main{";
    for (auto &o : P.main) s += render_op(o);
    return s + "}" + (P.moved ? " moved" : "");
}

int clamp(int p) { return p > 99 ? 99 : p < 0 ? 0 : p; }
const char *const names[] = {"__unknown__", "a", "another name that does not fit into a small buffer", ""};

enum { MAXB = 5, MAXCHANGES = 400 };
struct State
{
    std::atomic<bool> ended {false};         // the body is over
    std::atomic<bool> seen_finished {false}; // somebody saw the state finished
    std::atomic<unsigned long long> id {0};  // seen inside
    std::atomic<co_env *> env {nullptr};     // seen inside
    // changes of the priority, in the order of their events
    std::atomic<int> changes {0};
    std::pair<int, int> change[MAXCHANGES];
    std::atomic<int> subs {0}, early_subs {0}, ends {0};
    std::atomic<bool> blocked {false};
};
State *S;
co **handles; // in memory that stays
std::atomic<bool> published {false};
std::atomic<int> blocked_open {0};

const char *str(co_state s) { return s == co_state::running ? "running" : s == co_state::suspended ? "suspended" : "finished"; }

// what anybody can say about coroutine i at any time; self = index of the observer, -1 for main
void look(int self, int i)
{
    auto &c = *handles[i];
    auto &s = S[i];
    auto &b = P.bodies[(size_t)i];
    bool finished_before = s.seen_finished;
    auto state = c.ctx_state();
    if (state == co_state::finished)
    {
        CHECK(s.ended, "a coroutine is reported finished before its function returned");
        s.seen_finished = true;
        label("seen finished");
    }
    else
    {
        CHECK(!finished_before, "a finished coroutine is reported %s", str(state));
        label(state == co_state::running ? "seen running" : "seen suspended");
    }
    if (self == i) CHECK(state == co_state::running, "the coroutine that asks is reported %s", str(state));
    bool bound = b.place.kind == K_BOUND || b.place.kind == K_SHARED_BOUND;
    if (self >= 0 && self != i && bound)
    {
        auto &o = P.bodies[(size_t)self].place;
        if ((o.kind == K_BOUND || o.kind == K_SHARED_BOUND) && o.env == b.place.env)
            CHECK(state != co_state::running, "two coroutines of one environment are running at the same time");
    }
    CHECK(c.name() == names[b.name], "the name is '%s'", c.name().c_str());
    auto id = c.id();
    CHECK(id != 0, "the id is 0");
    for (size_t k = 0; k < P.bodies.size(); ++k)
        if ((int)k != i) CHECK(handles[k]->id() != id, "two coroutines have the same id");
    if (s.id) CHECK(s.id == id, "the id differs from the one the coroutine sees");
    auto env = c.ctx_env();
    CHECK(env != nullptr, "no environment");
    if (s.env) CHECK(s.env == env, "the environment differs from the one it runs on");
    auto config = c.ctx_config();
    CHECK(config.name == names[b.name] && config.shared_stack == (b.place.kind == K_SHARED || b.place.kind == K_SHARED_BOUND), "the configuration differs");
    if (b.stack) CHECK(config.stack_size == (size_t)stacks[b.stack], "the stack size is %zu", config.stack_size);
    if (bound) CHECK(config.bind_env == env, "the environment is not the one it is bound to");
    auto p = (int)c.ctx_priority();
    CHECK(p >= 0 && p <= 99, "the priority is %d", p);
}

void do_op(int self, const Op &o)
{
    auto &c = *handles[o.target];
    auto &s = S[o.target];
    switch (o.what)
    {
    case O_WORK: do_work(o.work); break;
    case O_SELF:
        if (self < 0) break;
        CHECK(this_co::id() == handles[self]->id(), "the coroutine sees another id");
        CHECK(this_co::name() == names[P.bodies[(size_t)self].name], "the coroutine sees the name '%s'", this_co::name().c_str());
        CHECK(co::current_env() == handles[self]->ctx_env(), "the coroutine runs on another environment");
        look(self, self);
        nontrivial();
        break;
    case O_LOOK: look(self, o.target); break;
    case O_PRIO:
        if (P.bodies[(size_t)o.target].waits) break; // a waiting coroutine borrows a priority
        c.ctx_set_priority(prios[o.n]);
        break;
    case O_WAIT:
    case O_WAIT_FOR:
    {
        int before = self >= 0 ? (int)handles[self]->ctx_priority() : 0;
        bool done = true;
        try
        {
            if (o.what == O_WAIT) c.wait<void>();
            else done = !!c.wait_for(std::chrono::milliseconds(o.n));
        }
        catch (int)
        {
        }
        if (done)
        {
            CHECK(c.ctx_state() == co_state::finished, "a coroutine that was waited for is reported %s", str(c.ctx_state()));
            look(self, o.target);
        }
        if (self >= 0) CHECK((int)handles[self]->ctx_priority() == before, "the priority was %d before the wait and is %d after it", before, (int)handles[self]->ctx_priority());
        break;
    }
    case O_SUB:
    {
        auto cb = [i = o.target] {
            CHECK(S[i].ended, "the end of a coroutine is announced before it ended");
            ++S[i].ends;
        };
        c.ctx_finished().sub(cb);
        if (!s.ended) ++s.early_subs;
        ++s.subs;
        break;
    }
    case O_BLOCK:
        // main sees it suspended, and lets it go on
        if (self < 0) break;
        S[self].blocked = true;
        for (int k = 0; k < 10 && S[self].blocked; ++k) this_co::sleep_for(2ms);
        S[self].blocked = false;
        break;
    }
}

void run()
{
    int n = (int)P.bodies.size();
    S = new State[MAXB];
    handles = new co *[MAXB];
    co_env *envs[2] = {co::create_env(true), co::create_env(true)};
    std::vector<std::unique_ptr<co> > cos;
    for (int i = 0; i < n; ++i)
    {
        auto &b = P.bodies[(size_t)i];
        auto opts = [&b, &envs](co_ctx_config &c) {
            with_priority((size_t)b.prio)(c);
            if (b.name) with_name(names[b.name])(c);
            if (b.stack) with_stack_size((size_t)stacks[b.stack])(c);
            if (b.place.kind == K_SHARED || b.place.kind == K_SHARED_BOUND) with_shared_stack(true)(c);
            if (b.place.kind == K_BOUND || b.place.kind == K_SHARED_BOUND) with_bind_env(envs[b.place.env])(c);
        };
        cos.push_back(std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {opts}, [i] {
            S[i].id = this_co::id();
            S[i].env = co::current_env();
            while (!published) this_co::sleep_for(1ms);
            for (auto &o : P.bodies[(size_t)i].ops)
            {
                do_op(i, o);
                vs_progress();
            }
            CHECK(this_co::id() == S[i].id, "the id changed");
            S[i].ended = true;
            if (P.bodies[(size_t)i].throws) throw 1;
        }));
        handles[i] = cos.back().get();
        CHECK((int)cos.back()->ctx_priority() == clamp(b.prio), "created with priority %d, has %d", b.prio, (int)cos.back()->ctx_priority());
        cos.back()->ctx_priority_changed().sub([i](int from, int to) {
            int k = S[i].changes++;
            if (k < MAXCHANGES) S[i].change[k] = {from, to};
        });
    }
    published = true;
    for (auto &o : P.main)
        do_op(-1, o);
    // until all are over
    for (bool all = false; !all;)
    {
        all = true;
        for (int i = 0; i < n; ++i)
        {
            look(-1, i);
            if (S[i].blocked)
            {
                wait_soon([&] { return handles[i]->ctx_state() == co_state::suspended || !S[i].blocked; });
                if (S[i].blocked) label("seen waiting");
                S[i].blocked = false;
            }
            all &= S[i].ended;
        }
        std::this_thread::sleep_for(2ms);
    }
    vs_progress();
    for (int i = 0; i < n; ++i)
    {
        auto &b = P.bodies[(size_t)i];
        auto &s = S[i];
        auto &c = *cos[(size_t)i];
        bool thrown = false;
        try
        {
            c.wait<void>();
        }
        catch (int)
        {
            thrown = true;
        }
        (void)thrown;
        look(-1, i);
        CHECK(c.ctx_state() == co_state::finished, "a coroutine that was waited for is reported %s", str(c.ctx_state()));
        wait_soon([&] { return s.ends >= s.early_subs; });
        CHECK(s.ends >= s.early_subs, "%d subscribed before the coroutine ended, %d were told", (int)s.early_subs, (int)s.ends);
        CHECK(s.ends <= s.subs, "%d subscribed to the end, %d calls", (int)s.subs, (int)s.ends);
        if (s.early_subs) label("end announced");
        if (!b.waits)
        {
            int p = clamp(b.prio);
            for (int k = 0; k < s.changes && k < MAXCHANGES; ++k)
            {
                CHECK(s.change[k].first == p, "a change from %d to %d is announced, but the priority was %d", s.change[k].first, s.change[k].second, p);
                CHECK(s.change[k].second != p, "a change is announced that is none");
                p = s.change[k].second;
                label("priority changed");
            }
            CHECK((int)c.ctx_priority() == p, "the last announced priority is %d, the coroutine has %d", p, (int)c.ctx_priority());
        }
        auto id = c.id();
        if (P.moved)
        {
            co d(std::move(c));
            CHECK(d.id() == id && d.name() == names[b.name] && d.ctx_state() == co_state::finished, "a moved handle refers to something else");
            CHECK(c.id() == 0 && c.name() == "", "a handle that was moved from still refers to the coroutine");
            d.detach();
            CHECK(d.id() == 0 && d.name() == "", "a detached handle still refers to the coroutine");
            label("moved");
        }
        else
        {
            try
            {
                c.join();
            }
            catch (int)
            {
            }
            CHECK(c.id() == 0 && c.name() == "", "a joined handle still refers to the coroutine");
        }
    }
}
}

const Property property = {
    "C30",
    "1-5 coroutines of any kind with generated name, stack size, priority, body (work, observations of itself and others, priority changes, waits, subscriptions to ends, exceptions) "
    "while main observes too; non-trivial = a coroutine compared what it knows about itself with what its handle says",
    generate, render, run, nullptr, 60000, 600000};

// C22: coroutine-local variables.
#include "common.h"
#include <cmath>
#include <cstring>

namespace
{
constexpr uint64_t MAGIC = 0x7a11ce5ca1ab1e55ull;
std::atomic<int> alive {0}, created {0};
std::atomic<bool> broken {false};

// a value that knows whether it is alive
struct Tracked
{
    uint64_t magic = MAGIC;
    std::vector<int> data;
    Tracked *self = this;
    Tracked()
    {
        ++alive;
        ++created;
    }
    Tracked(const Tracked &) = delete;
    ~Tracked()
    {
        if (magic != MAGIC || self != this) broken = true;
        magic = 0;
        --alive;
    }
};
std::atomic<int> throw_next {0}; // per case: how many constructions of Thrower still fail
struct Thrower : Tracked
{
    int v = 17;
    Thrower()
    {
        if (throw_next > 0 && throw_next-- > 0) throw std::runtime_error("constructor");
    }
};
// its constructor suspends and creates another local
struct Nested : Tracked
{
    int v;
    Nested()
    {
        this_co::yield();
        v = CoLocal(inner, int) + 5;
        this_co::yield();
    }
};
struct alignas(32) Aligned
{
    double d[4];
    int n;
};
struct Pod
{
    int a, b;
    void *p;
    char c[40];
};

enum { T_INT, T_INT2, T_STR, T_TRACK, T_TRACK2, T_POD, T_VEC, T_THROW, T_NEST, T_ALIGN, T_DBL, T_INNER, T_N };
const char *names[] = {"x:int", "xx:int", "s:string", "t:tracked", "T:tracked", "p:pod", "v:vector", "e:throwing", "n:nested", "a:aligned", "d:double", "inner:int"};

enum { O_SET, O_CHECK, O_REF, O_WORK, O_CHILD };
struct Op
{
    int kind, var, value;
    Work w;
};
struct Actor
{
    Place p;
    int round;
    bool detached;
    std::vector<Op> ops, child;
};
struct Program
{
    int fails;
    std::vector<Actor> actors;
} P;

std::vector<Op> gen_ops(Gen &g, int max, bool child)
{
    std::vector<Op> v;
    while (g.more(v.size(), 1, max, 8))
    {
        Op o {};
        o.kind = g.weighted({4, 4, 2, 4, child ? 1 : 0});
        o.var = g.range(0, T_N - 1);
        o.value = g.range(1, 1000);
        if (o.kind == O_WORK) o.w = gen_work(g);
        v.push_back(o);
    }
    return v;
}
std::string render_ops(const std::vector<Op> &ops)
{
    std::string s;
    for (auto &o : ops)
        s += o.kind == O_SET ? strf("%s=%d ", names[o.var], o.value) : o.kind == O_CHECK ? strf("check %s ", names[o.var]) : o.kind == O_REF ? strf("keep &%s ", names[o.var]) : o.kind == O_CHILD ? "child " : render_work(o.w);
    return s;
}
void generate(Gen &g)
{
    P = Program();
    P.fails = g.chance(30) ? g.range(1, 3) : 0;
    while (g.more(P.actors.size(), 1, 8, 5))
    {
        Actor a;
        a.p = gen_place(g, true, true, false);
        a.round = g.range(0, 2);
        a.detached = g.chance(15);
        a.ops = gen_ops(g, 14, true);
        a.child = gen_ops(g, 6, false);
        P.actors.push_back(a);
    }
}
std::string render()
{
    std::string s = strf("throwing constructors %d; ", P.fails);
    for (auto &a : P.actors)
        s += strf("round %d ", a.round) + render_place(a.p) + (a.detached ? " detached" : "") + " [" + render_ops(a.ops) + "| child " + render_ops(a.child) + "] ";
    return s;
}

// what this coroutine must see in each of its variables
struct Model
{
    int val[T_N];
    void *ref[T_N];
    bool made[T_N];
};

// the variable as a number (0 = default constructed), its address, and an assignment
int access(int var, int set, void *&addr)
{
    switch (var)
    {
    case T_INT: { int &r = CoLocal(x, int); addr = &r; if (set) r = set; return r; }
    case T_INT2: { int &r = CoLocal(xx, int); addr = &r; if (set) r = set; return r; }
    case T_INNER: { int &r = CoLocal(inner, int); addr = &r; if (set) r = set; return r; }
    case T_STR: {
        std::string &r = CoLocal(s, std::string);
        addr = &r;
        if (set) r = std::string((size_t)set % 60, 'q') + std::to_string(set);
        if (r.empty()) return 0;
        int v = atoi(r.c_str() + r.find_first_not_of('q'));
        return r == std::string((size_t)v % 60, 'q') + std::to_string(v) ? v : -1;
    }
    case T_TRACK:
    case T_TRACK2:
    case T_THROW:
    case T_NEST: {
        Tracked *t;
        if (var == T_TRACK) t = &CoLocal(t, Tracked);
        else if (var == T_TRACK2) t = &CoLocal(T, Tracked);
        else if (var == T_THROW)
        {
            Thrower &e = CoLocal(e, Thrower);
            if (e.v != 17) return -1;
            t = &e;
        }
        else
            t = &CoLocal(n, Nested);
        addr = t;
        if (t->magic != MAGIC || t->self != t) return -1;
        if (set) t->data.assign(5, set);
        if (t->data.empty()) return 0;
        for (int x : t->data)
            if (x != t->data[0]) return -1;
        return t->data[0];
    }
    case T_POD: {
        Pod &r = CoLocal(p, Pod);
        addr = &r;
        if (set)
        {
            r.a = r.b = set;
            r.p = &r;
            memset(r.c, set & 0x7f, sizeof(r.c));
        }
        for (char c : r.c)
            if (c != (char)(r.a & 0x7f)) return -1;
        return r.a == r.b && (r.a ? r.p == &r : r.p == nullptr) ? r.a : -1;
    }
    case T_VEC: {
        auto &r = CoLocal(v, std::vector<std::string>);
        addr = &r;
        if (set) r.assign(3, std::to_string(set));
        if (r.empty()) return 0;
        return r.size() == 3 && r[0] == r[2] ? atoi(r[1].c_str()) : -1;
    }
    case T_ALIGN: {
        Aligned &r = CoLocal(a, Aligned);
        addr = &r;
        if ((uintptr_t)&r % 32) return -1;
        if (set)
        {
            r.n = set;
            for (double &d : r.d) d = set;
        }
        for (double d : r.d)
            if (d != r.n) return -1;
        return r.n;
    }
    default: {
        double &r = CoLocal(d, double);
        addr = &r;
        if (set) r = set + 0.5;
        return r == 0 && !std::signbit(r) ? 0 : r == (int)r + 0.5 ? (int)r : -1;
    }
    }
}

std::atomic<int> running {0};

void touch(const char *who, Model &m, int var, int set)
{
    void *addr = nullptr;
    int got;
    for (;;)
    {
        try
        {
            got = access(var, set, addr);
            break;
        }
        catch (std::runtime_error &)
        {
            label("constructor threw");
            CHECK(var == T_THROW && !m.made[var], "%s: unexpected exception from %s", who, names[var]);
        }
    }
    if (var == T_NEST && !m.made[var])
    {
        label("nested creation");
        // its constructor created the inner one
        void *in = nullptr;
        int v = access(T_INNER, 0, in);
        CHECK(v == m.val[T_INNER], "%s: %s is %d instead of %d", who, names[T_INNER], v, m.val[T_INNER]);
        CHECK(!m.made[T_INNER] || in == m.ref[T_INNER], "%s: %s moved", who, names[T_INNER]);
        m.made[T_INNER] = true;
        m.ref[T_INNER] = in;
    }
    if (set) m.val[var] = set;
    CHECK(got == m.val[var], "%s: %s is %d instead of %d", who, names[var], got, m.val[var]);
    CHECK(!m.made[var] || addr == m.ref[var], "%s: %s moved", who, names[var]);
    m.made[var] = true;
    m.ref[var] = addr;
}

void body(const char *who, const std::vector<Op> &ops, const std::vector<Op> *child, bool thread)
{
    if (++running > 1) nontrivial();
    Model m;
    memset(&m, 0, sizeof(m));
    int *kept = nullptr;
    for (auto &o : ops)
    {
        // the values of a plain thread have no coroutine whose end would destroy them
        int var = thread && ((o.var >= T_TRACK && o.var <= T_TRACK2) || o.var == T_THROW || o.var == T_NEST) ? T_INT2 : o.var;
        switch (o.kind)
        {
        case O_SET: touch(who, m, var, o.value); break;
        case O_CHECK: touch(who, m, var, 0); break;
        case O_REF:
            touch(who, m, T_INT, 0);
            kept = (int *)m.ref[T_INT];
            break;
        case O_CHILD: {
            auto mine = std::make_shared<co>([child, &who] { body("child", *child, nullptr, false); });
            mine->join();
            break;
        }
        default: do_work(o.w);
        }
        if (kept) CHECK(*kept == m.val[T_INT], "%s: a kept reference to %s shows %d instead of %d", who, names[T_INT], *kept, m.val[T_INT]);
        vs_progress();
    }
    for (int v = 0; v < T_N; ++v)
        if (m.made[v]) touch(who, m, v, 0);
    --running;
}

void run()
{
    throw_next = P.fails;
    int detached = 0;
    std::atomic<int> done {0};
    {
        Actors as;
        for (int r = 0; r < 3; ++r)
        {
            for (size_t i = 0; i < P.actors.size(); ++i)
            {
                auto &a = P.actors[i];
                if (a.round != r) continue;
                if (a.detached)
                {
                    ++detached;
                    co c([&a, &done] {
                        body("detached", a.ops, &a.child, false);
                        ++done;
                    });
                    c.detach();
                    continue;
                }
                as.spawn(a.p, [&a] { body("coroutine", a.ops, &a.child, a.p.kind == K_THREAD); });
            }
            as.join();
            vs_progress();
        }
    }
    while (done < detached) std::this_thread::sleep_for(1ms);
    CHECK(!broken, "a value was destroyed twice or overwritten");
    if (created) label("values with a destructor");
    // every owner is finished and no handle is left
    wait_soon([] { return alive == 0 || broken; });
    CHECK(!broken, "a value was destroyed twice or overwritten");
    CHECK(alive == 0, "%d of %d values were not destroyed although their coroutines are gone", alive.load(), created.load());
}
}

const Property property = {
    "C22",
    "1-8 coroutines and threads in up to three rounds (so that later ones reuse the memory of earlier ones), each using up to 12 local variables of 10 types "
    "(plain, class, aligned, with throwing or suspending constructor) with suspensions and children in between; non-trivial = two users existed at the same time",
    generate, render, run, nullptr, 40000, 300000};

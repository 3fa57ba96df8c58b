// C26: finished coroutines are released completely, live ones never.
#include "common.h"
#include <cstring>

namespace
{
constexpr uint64_t MAGIC = 0x5eed5eedfeedf00dull;
std::atomic<int> alive {0};
std::atomic<bool> broken {false};

struct Payload
{
    uint64_t magic = MAGIC;
    int id;
    std::shared_ptr<std::vector<int> > big;
    explicit Payload(int i, size_t n = 10)
        : id(i)
        , big(std::make_shared<std::vector<int> >(n, i))
    {
        ++alive;
    }
    Payload(const Payload &o)
        : id(o.id)
        , big(o.big)
    {
        o.check("copied");
        ++alive;
    }
    ~Payload()
    {
        check("destroyed");
        magic = 0xdead;
        --alive;
    }
    void check(const char *when) const
    {
        if (magic != MAGIC || !big || big->empty() || big->front() != id || big->back() != id)
        {
            broken = true;
            fail("a value that belongs to a coroutine is not intact when %s", when);
        }
    }
};

enum { R_VOID, R_VALUE, R_THROW, R_BIG };
enum { H_JOIN, H_SCOPE, H_DETACH, H_WAIT, H_WAITFOR, H_MOVE, H_KEEP, H_WORK_DETACH, H_ASSIGN };
const char *hnames[] = {"join", "scope", "detach", "wait", "wait_for", "move", "keep", "work+detach", "assign"};
struct Co
{
    int env; // -1 unbound
    bool shared;
    int result, handle;
    int frame; // bytes of stack to use
    int args;
    bool child;
    bool by_coroutine;
    Work w1, w2, hw;
};
struct Program
{
    int rounds;
    std::vector<Co> cos;
} P;

void tune(Gen &g, CaseConfig &c)
{
    c.base_envs = g.range(1, 3);
    c.max_envs = c.base_envs;
}

void generate(Gen &g)
{
    P = Program();
    P.rounds = g.pick({3, 6, 6, 30});
    while (g.more(P.cos.size(), 1, 7, 4))
    {
        Co c {};
        c.env = g.chance(40) ? g.range(0, 1) : -1;
        c.shared = g.chance(30);
        c.result = g.weighted({3, 3, 2, 1});
        c.handle = g.range(0, H_ASSIGN);
        if (c.result == R_THROW && (c.handle == H_SCOPE || c.handle == H_ASSIGN)) c.handle = H_JOIN; // an exception must be collected
        c.frame = g.pick({0, 100, 5000, 40000});
        c.args = g.range(0, 2);
        c.child = g.chance(20);
        c.by_coroutine = g.chance(60);
        c.w1 = gen_work(g);
        c.w2 = gen_work(g);
        c.hw = gen_work(g);
        if (c.w1.kind == W_LONG) c.w1.n = 2;
        if (c.w2.kind == W_LONG) c.w2.n = 2;
        if (c.hw.kind == W_LONG) c.hw.n = 2;
        P.cos.push_back(c);
    }
}
std::string render()
{
    const char *res[] = {"void", "value", "throws", "big value"};
    std::string s = strf("%d rounds: ", P.rounds);
    for (auto &c : P.cos)
        s += strf("%s%s{%s%sframe %d args %d %s%s} %s%s%s; ", c.env < 0 ? "co" : strf("bound#%d", c.env).c_str(), c.shared ? " shared" : "", render_work(c.w1).c_str(), render_work(c.w2).c_str(), c.frame, c.args, res[c.result],
                  c.child ? " child" : "", render_work(c.hw).c_str(), hnames[c.handle], c.by_coroutine ? " by a coroutine" : "");
    return s;
}

co_env *envs[2];
std::atomic<int> unfinished {0};

using Opts = std::initializer_list<std::function<void(co_ctx_config &)> >;

void use_stack(const Co &c, const Payload &p)
{
    std::vector<int> dummy;
    char *mem = (char *)__builtin_alloca((size_t)c.frame + 64);
    memset(mem, p.id & 0x7f, (size_t)c.frame + 64);
    do_work(c.w1);
    p.check("used by its coroutine");
    if (c.child)
    {
        Payload cp(7);
        co k([cp] { cp.check("used by a child"); });
        k.join();
    }
    do_work(c.w2);
    p.check("used by its coroutine");
    for (int i = 0; i < c.frame + 64; ++i)
        if (mem[i] != (char)(p.id & 0x7f)) fail("the stack of an unfinished coroutine was changed");
}

struct Body
{
    const Co *c;
    Payload p;
    template <typename... A>
    void work(const A &...a)
    {
        if (unfinished > 1) nontrivial();
        use_stack(*c, p);
        (a.check("used as an argument"), ...);
        if (c->result == R_THROW)
        {
            --unfinished;
            throw Payload(p.id);
        }
        --unfinished;
    }
};
struct VoidBody : Body
{
    template <typename... A>
    void operator()(const A &...a) { this->work(a...); }
};
struct ValueBody : Body
{
    template <typename... A>
    Payload operator()(const A &...a)
    {
        this->work(a...);
        return Payload(p.id, c->result == R_BIG ? 3000 : 10);
    }
};

template <typename B>
std::unique_ptr<co> make(const Co &c, int id)
{
    B b {{&c, Payload(id)}};
    ++unfinished;
    auto o = with_bind_env(c.env < 0 ? nullptr : envs[c.env]);
    auto s = with_shared_stack(c.shared);
    if (c.args == 0) return std::make_unique<co>(Opts {o, s}, b);
    if (c.args == 1) return std::make_unique<co>(Opts {o, s}, std::move(b), Payload(id + 1));
    Payload lv(id + 2);
    return std::make_unique<co>(Opts {o, s}, b, lv, Payload(id + 3));
}

void collect(co &h, const Co &c, int id, bool first = true)
{
    try
    {
        if (c.result == R_VALUE || c.result == R_BIG)
        {
            Payload p = h.wait<Payload>();
            p.check("returned");
            CHECK(p.id == id, "a coroutine returned another one's value");
        }
        else
            h.wait<void>();
        CHECK(!first || c.result != R_THROW, "the exception was lost");
    }
    catch (Payload &p)
    {
        p.check("caught");
        CHECK(c.result == R_THROW && p.id == id, "unexpected exception");
    }
}
void finish(co &h)
{
    try
    {
        h.join();
    }
    catch (Payload &)
    {
    }
}

struct Kept
{
    std::unique_ptr<co> h;
    const Co *c;
    int id;
};

void one(const Co &c, int id, std::vector<Kept> &kept)
{
    auto h = c.result == R_VALUE || c.result == R_BIG ? make<ValueBody>(c, id) : make<VoidBody>(c, id);
    switch (c.handle)
    {
    case H_JOIN:
        do_work(c.hw);
        finish(*h);
        break;
    case H_SCOPE: do_work(c.hw); break;
    case H_DETACH: h->detach(); break;
    case H_WORK_DETACH:
        do_work(c.hw);
        h->detach();
        break;
    case H_WAIT:
        collect(*h, c, id);
        do_work(c.hw);
        collect(*h, c, id, false);
        finish(*h);
        break;
    case H_WAITFOR:
        for (int i = 0; i < 2; ++i)
        {
            try
            {
                auto r = h->wait_for(i ? 1s : 1ms);
                if (r && (c.result == R_VALUE || c.result == R_BIG))
                {
                    Payload p = (Payload)*r;
                    p.check("returned in time");
                }
            }
            catch (Payload &p)
            {
                p.check("caught in time");
            }
        }
        if (id & 1) h->detach();
        else finish(*h);
        break;
    case H_MOVE: {
        co other(std::move(*h));
        h.reset();
        do_work(c.hw);
        collect(other, c, id);
        finish(other);
        break;
    }
    case H_ASSIGN: {
        co other([] {});
        do_work(c.hw);
        other = std::move(*h);
        h.reset();
        collect(other, c, id);
        break;
    }
    default:
        do_work(c.hw);
        kept.push_back({std::move(h), &c, id});
    }
    vs_progress();
}

// other coroutines come and go
void traffic()
{
    auto done = std::make_shared<std::atomic<int> >(0);
    const int n = 8;
    for (int i = 0; i < n; ++i)
    {
        co c(Opts {with_bind_env(i < 2 ? envs[i] : nullptr)}, [done] {
            this_co::sleep_for(2ms);
            ++*done;
        });
        c.detach();
    }
    while (*done < n) std::this_thread::sleep_for(2ms);
    vs_progress();
}

void round(int r)
{
    std::vector<Kept> kept;
    kept.reserve(P.cos.size());
    std::vector<std::unique_ptr<co> > helpers;
    helpers.reserve(P.cos.size());
    std::vector<std::vector<Kept> > hkept(P.cos.size());
    for (size_t i = 0; i < P.cos.size(); ++i)
    {
        auto &c = P.cos[i];
        int id = 1 + r % 100 * 100 + (int)i * 4;
        if (c.by_coroutine) helpers.push_back(std::make_unique<co>([&c, id, &hkept, i] { one(c, id, hkept[i]); }));
        else
            one(c, id, kept);
    }
    for (auto &h : helpers) h->join();
    for (auto &v : hkept)
        for (auto &k : v) kept.push_back(std::move(k));
    if (!kept.empty())
    {
        // the handles stay usable while other coroutines come and go
        label("kept handles");
        if (r % 3 == 0) traffic();
        for (auto &k : kept)
        {
            k.h->name();
            k.h->ctx_state();
            collect(*k.h, *k.c, k.id);
            finish(*k.h);
        }
    }
    kept.clear();
    while (unfinished > 0) std::this_thread::sleep_for(1ms);
    vs_progress();
}

void run()
{
    envs[0] = co::create_env(true);
    envs[1] = co::create_env(true);
    co::set_env_shared_stack_size(512 * 1024);
    int nenv = case_config.base_envs + 3;
    auto check_alive = [] {
        wait_soon([] { return alive == 0; });
        CHECK(alive == 0, "%d functions, arguments or results of finished coroutines were not released", alive.load());
        vs_progress();
    };
    traffic();
    round(0);
    round(1);
    check_alive();
    std::this_thread::sleep_for(100ms);
    int stacks = vs_stacks_live();
    long bytes = heap_live();
    for (int r = 0; r < P.rounds; ++r) round(r);
    check_alive();
    int n = P.rounds * (int)P.cos.size();
    if (n >= 60) label("60 coroutines or more");
    // shared stacks are made when they are first needed
    int slack = nenv;
    wait_soon([=] { return vs_stacks_live() <= stacks + slack; });
    CHECK(vs_stacks_live() <= stacks + slack, "%d more stacks exist after %d coroutines have finished", vs_stacks_live() - stacks, n);
    if (n >= 60)
    {
        long limit = 2048 + 600 * nenv;
        wait_soon([=] { return heap_live() - bytes < limit; });
        CHECK(heap_live() - bytes < limit, "%ld more bytes are in use after %d coroutines have finished", heap_live() - bytes, n);
    }
}
}

const Property property = {
    "C26",
    "1-7 kinds of coroutines (private and shared stacks, values, exceptions, arguments, children, made by threads and coroutines) whose handles are joined, waited for, moved, "
    "assigned, kept, dropped or detached at generated times, repeated 3-30 times, with counts of values, stacks and bytes; non-trivial = two were unfinished at the same time",
    generate, render, run, tune, 4000, 40000};

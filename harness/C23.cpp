// C23: a pipeline computes what its stages say.
#include "common.h"
#include <algorithm>
#include <list>
#include <map>
#include <set>

namespace
{
std::atomic<int> alive {0};
// captured by every function of a pipeline, to see that its stages end
struct Tracked
{
    Tracked() { ++alive; }
    Tracked(const Tracked &) { ++alive; }
    ~Tracked() { --alive; }
};

enum { S_FUNC, S_ENDLESS, S_VECTOR, S_LIST, S_INIT, S_ITER, S_STEP, S_STREAM, S_ENDLESS_STEP, S_N };
const char *snames[] = {"function", "endless function", "vector", "list", "initializer list", "iterators", "range", "stream", "endless range"};
enum { T_ADD, T_STRING, T_FILTER, T_TAKE, T_SKIP, T_FORK, T_GROUP, T_REDUCE, T_REDUCE_OTHER, T_N };
struct Stage
{
    int kind, n, m;
    Work w;
};
enum { K_VECTOR, K_LIST, K_SET, K_CHAN, K_CHAN_CLOSE, K_DROP };
const char *knames[] = {"vector", "list", "multiset", "channel", "channel, closed after", "dropped"};
struct Pipe
{
    Place p;
    int source, cap, len;
    Work sw;
    std::vector<Stage> stages;
    int sink, close_after;
    Work kw;
};
struct Program
{
    std::vector<Pipe> pipes;
} P;

Work small_work(Gen &g)
{
    Work w;
    if (g.chance(70)) return w;
    w.kind = g.weighted({0, 3, 1, 2});
    w.n = w.kind == W_YIELD ? g.range(1, 3) : w.kind == W_SLEEP ? 1 : g.range(1, 10);
    return w;
}
void generate(Gen &g)
{
    P = Program();
    while (g.more(P.pipes.size(), 1, 2, 1))
    {
        Pipe p {};
        p.p = gen_place(g, true, false, false);
        p.source = g.range(0, S_N - 1);
        p.cap = g.pick({-1, 0, 1, 2, 5});
        p.len = g.pick({0, 1, 2, 3, 7, 16, 40});
        p.sw = small_work(g);
        if (p.source == S_ENDLESS_STEP && p.cap < 0) p.cap = 3; // or it would fill the memory
        bool endless = p.source == S_ENDLESS || p.source == S_ENDLESS_STEP, unordered = false, last = false;
        int cost = 1; // items of the source for one item here
        while (!last && g.more(p.stages.size(), 0, 6, 3))
        {
            Stage s {};
            s.kind = g.weighted({3, 2, 3, 3, endless ? 1 : 2, endless ? 0 : 2, unordered ? 0 : 2, endless ? 0 : 1, endless ? 0 : 1});
            s.n = s.kind == T_FORK ? g.range(1, 4) : s.kind == T_GROUP ? g.range(1, 4) : s.kind == T_FILTER ? g.range(2, 4) : g.pick({0, 1, 2, 3, 5, 50});
            s.m = g.range(1, 9);
            if (endless)
            {
                int c = s.kind == T_FILTER ? 3 : s.kind == T_GROUP ? s.n : 1;
                if (s.kind == T_SKIP) s.n %= 4;
                if (cost * c > 12) s.kind = T_ADD;
                else
                    cost *= c;
            }
            s.w = small_work(g);
            if (s.kind == T_TAKE) endless = false;
            if (s.kind == T_FORK) unordered = true;
            if (s.kind == T_REDUCE || s.kind == T_REDUCE_OTHER) unordered = false;
            if (unordered && (s.kind == T_TAKE || s.kind == T_SKIP)) last = true; // which items are left depends on the schedule
            p.stages.push_back(s);
        }
        if (endless)
        {
            Stage s {};
            s.kind = T_TAKE;
            s.n = g.range(0, 20);
            p.stages.push_back(s);
        }
        p.sink = g.weighted({4, 1, 2, 3, 3, 1});
        p.close_after = g.range(0, 6);
        p.kw = small_work(g);
        P.pipes.push_back(p);
    }
}
std::string render()
{
    std::string s;
    const char *t[] = {"add", "string", "filter", "take", "skip", "fork", "group", "reduce", "reduce to string"};
    for (auto &p : P.pipes)
    {
        s += render_place(p.p) + strf(": %s of %d %s(channel %d)", snames[p.source], p.len, render_work(p.sw).c_str(), p.cap);
        for (auto &st : p.stages) s += strf(" | %s(%d) %s", t[st.kind], st.kind == T_ADD ? st.m : st.n, render_work(st.w).c_str());
        s += strf(" -> %s", knames[p.sink]);
        if (p.sink == K_CHAN_CLOSE) s += strf(" %d", p.close_after);
        s += " " + render_work(p.kw) + "; ";
    }
    return s;
}

using Pipeline = co_pipeline<long>;
using Ptr = std::unique_ptr<Pipeline>;
constexpr long INIT[] = {5, 3, 8, 1, 9, 2, 7};

// the constructor asks for an iterator with member operators
struct Iter
{
    const long *p;
    const long &operator*() const { return *p; }
    Iter &operator++()
    {
        ++p;
        return *this;
    }
    bool operator!=(const Iter &o) const { return p != o.p; }
};

// passes most of any sequence
bool passes(long v, long n)
{
    uint64_t z = (uint64_t)v + 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return (z ^ (z >> 31)) % (uint64_t)n != 0;
}
long item(long i) { return i * 7 % 1000 + i; }

struct Step
{
    Tracked tr;
    operator long() const { return 3; }
};
Ptr source(const Pipe &p, std::vector<long> &in)
{
    for (int i = 0; i < p.len; ++i) in.push_back(item(i));
    Work w = p.sw;
    Tracked tr;
    int cap = p.cap;
    switch (p.source)
    {
    case S_FUNC: {
        int n = p.len;
        return Ptr(new Pipeline([i = 0, n, w, tr]() mutable -> std::optional<long> {
            do_work(w);
            if (i >= n) return std::nullopt;
            return item(i++);
        }, cap));
    }
    case S_ENDLESS:
        in.clear();
        for (int i = 0; i < 25000; ++i) in.push_back(item(i)); // more than any take needs
        return Ptr(new Pipeline([i = 0, w, tr]() mutable -> std::optional<long> {
            do_work(w);
            this_co::yield(); // it would keep its thread to itself
            return item(i++);
        }, cap));
    case S_VECTOR: return Ptr(new Pipeline(in, cap));
    case S_LIST: {
        std::list<long> l(in.begin(), in.end());
        return Ptr(new Pipeline(l, cap));
    }
    case S_INIT:
        in.assign(INIT, INIT + 7);
        if (p.len % 3 == 0)
        {
            in.clear();
            return Ptr(new Pipeline(std::initializer_list<long> {}, cap));
        }
        if (p.len % 3 == 1)
        {
            in.resize(1);
            return Ptr(new Pipeline({5}, cap));
        }
        return Ptr(new Pipeline({5, 3, 8, 1, 9, 2, 7}, cap));
    case S_ITER: return Ptr(new Pipeline(Iter {in.data()}, Iter {in.data() + in.size()}, cap));
    case S_STEP: {
        in.clear();
        for (int i = 0; i < p.len; ++i) in.push_back(10 + 3l * i);
        return Ptr(new Pipeline(10l, 10l + 3l * p.len, 3l, cap));
    }
    case S_ENDLESS_STEP:
        in.clear();
        for (int i = 0; i < 25000; ++i) in.push_back(10 + 3l * i);
        return Ptr(new Pipeline(10l, 10l + 3l * (1l << 50), Step {tr}, cap));
    default: return Ptr(new Pipeline(in | pipeline::stream(cap)));
    }
}

Ptr stage(Ptr in, const Stage &s)
{
    Work w = s.w;
    Tracked tr;
    long m = s.m;
    size_t n = (size_t)s.n;
    switch (s.kind)
    {
    case T_ADD:
        return Ptr(new Pipeline(*in | [m, w, tr](long v) {
            do_work(w);
            return v + m;
        }));
    case T_STRING:
        return Ptr(new Pipeline((*in | [w, tr](long v) {
                                    do_work(w);
                                    return std::string(30, 's') + std::to_string(v);
                                })
                                | [tr](std::string t) { return atol(t.c_str() + 30) * 2; }));
    case T_FILTER:
        return Ptr(new Pipeline(*in | pipeline::filter([n, w, tr](long v) {
            do_work(w);
            return passes(v, (long)n);
        })));
    case T_TAKE: return Ptr(new Pipeline(*in | pipeline::take(n)));
    case T_SKIP: return Ptr(new Pipeline(*in | pipeline::skip(n)));
    case T_FORK:
        return Ptr(new Pipeline(*in | pipeline::fork(n, [m, w, tr](long v) {
            do_work(w);
            return v * m + 1;
        })));
    case T_GROUP:
        return Ptr(new Pipeline(*in | pipeline::group(n, [w, tr](std::vector<long> v) {
            do_work(w);
            long h = 17;
            for (long x : v) h = h * 31 % 1000003 + x;
            return h;
        })));
    case T_REDUCE:
        return Ptr(new Pipeline(*in | pipeline::reduce([w, tr](long a, long b) {
            do_work(w);
            return a + b;
        }, m)));
    default:
        return Ptr(new Pipeline((*in | pipeline::reduce([w, tr](std::string a, long b) -> std::string {
                                    do_work(w);
                                    return std::to_string(atol(a.c_str()) + b % 1000);
                                }, std::string("3")))
                                | [tr](std::string t) { return atol(t.c_str()); }));
    }
}

void model(std::vector<long> &v, const Stage &s)
{
    std::vector<long> o;
    switch (s.kind)
    {
    case T_ADD:
        for (long x : v) o.push_back(x + s.m);
        break;
    case T_STRING:
        for (long x : v) o.push_back(x * 2);
        break;
    case T_FILTER:
        for (long x : v)
            if (passes(x, s.n)) o.push_back(x);
        break;
    case T_TAKE: o.assign(v.begin(), v.begin() + (long)std::min(v.size(), (size_t)s.n)); break;
    case T_SKIP: o.assign(v.begin() + (long)std::min(v.size(), (size_t)s.n), v.end()); break;
    case T_FORK:
        for (long x : v) o.push_back(x * s.m + 1);
        break;
    case T_GROUP:
        for (size_t i = 0; i + (size_t)s.n <= v.size(); i += (size_t)s.n)
        {
            long h = 17;
            for (int k = 0; k < s.n; ++k) h = h * 31 % 1000003 + v[i + (size_t)k];
            o.push_back(h);
        }
        break;
    case T_REDUCE: {
        long r = s.m;
        for (long x : v) r += x;
        o.push_back(r);
        break;
    }
    default: {
        long r = 3;
        for (long x : v) r += x % 1000;
        o.push_back(r);
    }
    }
    v = o;
}

std::string show(const std::vector<long> &v)
{
    std::string s;
    for (size_t i = 0; i < v.size() && i < 12; ++i) s += strf("%ld ", v[i]);
    return s + strf("(%zu)", v.size());
}

void run_pipe(const Pipe &p)
{
    auto &want = *new std::vector<long>; // iterators of the source refer to it
    std::vector<long> got;
    bool unordered = false, partial = false;
    {
        auto in = source(p, want);
        Ptr out = std::move(in);
        std::vector<long> exp = want;
        for (auto &s : p.stages)
        {
            model(exp, s);
            if (s.kind == T_FORK) unordered = true;
            if (s.kind == T_REDUCE || s.kind == T_REDUCE_OTHER) unordered = false;
            if (unordered && (s.kind == T_TAKE || s.kind == T_SKIP)) partial = true;
            out = stage(std::move(out), s);
        }
        do_work(p.kw);
        switch (p.sink)
        {
        case K_VECTOR: got = *out | pipeline::to<std::vector<long> >(); break;
        case K_LIST: {
            auto l = *out | pipeline::to<std::list<long> >();
            got.assign(l.begin(), l.end());
            break;
        }
        case K_SET: {
            auto l = *out | pipeline::to<std::multiset<long> >();
            got.assign(l.begin(), l.end());
            unordered = true;
            break;
        }
        case K_CHAN: {
            auto ch = *out | pipeline::chan();
            out.reset();
            for (;;)
            {
                auto v = ch.pop();
                if (!v) break;
                got.push_back(*v);
                do_work(p.kw);
                vs_progress();
            }
            break;
        }
        case K_CHAN_CLOSE: {
            auto ch = *out | pipeline::chan();
            out.reset();
            for (int i = 0; i < p.close_after; ++i)
            {
                auto v = ch.pop();
                if (!v) break;
                got.push_back(*v);
            }
            ch.close();
            label("closed by the consumer");
            exp.resize(std::min(exp.size(), (size_t)p.close_after));
            if (unordered) partial = true;
            break;
        }
        default:
            (*out | pipeline::chan()).close();
            got = exp;
        }
        vs_progress();
        auto e = exp;
        if (partial)
        {
            label("subset");
            CHECK(got.size() == e.size(), "the pipeline delivered %zu items instead of %zu", got.size(), e.size());
            // every item must be one of the possible ones
            if (p.sink != K_DROP)
            {
                std::multiset<long> all;
                std::vector<long> full = want;
                for (auto &s : p.stages)
                    if (!(&s == &p.stages.back() && (s.kind == T_TAKE || s.kind == T_SKIP))) model(full, s);
                all.insert(full.begin(), full.end());
                for (long x : got)
                {
                    auto it = all.find(x);
                    CHECK(it != all.end(), "the pipeline delivered %ld, which is not in its input", x);
                    all.erase(it);
                }
            }
        }
        else
        {
            if (unordered)
            {
                label("multiset");
                std::sort(e.begin(), e.end());
                std::sort(got.begin(), got.end());
            }
            CHECK(got == e, "the pipeline delivered %s instead of %s", show(got).c_str(), show(e).c_str());
        }
        if (p.stages.size() >= 2 && want.size() >= 2) nontrivial();
    }
}

void run()
{
    Actors as;
    for (auto &p : P.pipes)
    {
        if (p.p.kind == K_THREAD) run_pipe(p);
        else
            as.spawn(p.p, [&p] { run_pipe(p); });
    }
    as.join();
    wait_soon([] { return alive == 0; });
    CHECK(alive == 0, "%d functions of stages are still in use after their pipelines ended", alive.load());
}
}

const Property property = {
    "C23",
    "1-2 pipelines from one of nine kinds of sources (0-40 items or endless, channel capacities from none to unlimited) through 0-6 stages of nine kinds into a collection or a channel, "
    "closed early by the consumer in some cases; compared with the same stages applied to a sequence; non-trivial = at least two stages and two items",
    generate, render, run, nullptr, 20000, 200000};

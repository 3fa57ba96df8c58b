// C13: a coroutine runs once; its waiters get the exact result or its exception.
#include "common.h"
#include <map>

namespace
{
enum { R_VOID, R_INT, R_STRING, R_DOUBLE, R_VECTOR, R_STRUCT, R_N };
enum { E_NONE, E_STRUCT, E_RUNTIME, E_INT };
enum { H_JOIN, H_DESTROY, H_MOVE_CTOR, H_MOVE_ASSIGN, H_DETACH };
enum { Q_VALUE, Q_VOID, Q_WRONG, Q_JOIN };
struct Point
{
    int x;
    std::string s;
    std::shared_ptr<int> p;
};
struct Co
{
    Place place;
    int result, exc;
    int arg;
    int args_form; // 0 lambda without arguments, 1 lambda with arguments, 2 function pointer, 3 functor
    Work work;
    bool self_wait;
    int handle;
    Work handle_work;
};
struct Query
{
    int co, kind;
    Work before;
};
struct Waiter
{
    Place place;
    std::vector<Query> qs;
};
struct Program
{
    std::vector<Co> cos;
    std::vector<Waiter> waiters;
} P;

void generate(Gen &g)
{
    P = Program();
    while (g.more(P.cos.size(), 1, 5, 2))
    {
        Co c;
        c.place = gen_place(g, false, true, true);
        c.result = g.range(0, R_N - 1);
        c.exc = g.weighted({6, 1, 1, 1});
        c.arg = g.range(0, 1000);
        c.args_form = g.range(0, 3);
        c.work = gen_work(g);
        c.self_wait = g.chance(15);
        c.handle = g.weighted({3, 2, 2, 2, 1});
        c.handle_work = gen_work(g);
        P.cos.push_back(c);
    }
    while (g.more(P.waiters.size(), 0, 5, 3))
    {
        Waiter w;
        w.place = gen_place(g);
        while (g.more(w.qs.size(), 1, 4, 2)) w.qs.push_back({g.range(0, (int)P.cos.size() - 1), g.weighted({4, 2, 2}), gen_work(g)});
        P.waiters.push_back(w);
    }
}
std::string render()
{
    const char *rs[] = {"void", "int", "string", "double", "vector", "struct"};
    const char *es[] = {"", " throws struct", " throws runtime_error", " throws int"};
    const char *hs[] = {"join", "destroy", "move-construct", "move-assign", "detach"};
    const char *qs[] = {"value", "void", "wrong type"};
    std::string s;
    for (auto &c : P.cos)
        s += strf("co{%s %s arg=%d form=%d %s%s%s; %s%s} ", render_place(c.place).c_str(), rs[c.result], c.arg, c.args_form, render_work(c.work).c_str(), es[c.exc], c.self_wait ? " waits for itself" : "", render_work(c.handle_work).c_str(), hs[c.handle]);
    for (auto &w : P.waiters)
    {
        s += "{" + render_place(w.place) + ":";
        for (auto &q : w.qs) s += " " + render_work(q.before) + strf("wait co%d %s", q.co, qs[q.kind]);
        s += "} ";
    }
    return s;
}

struct Boom
{
    int id;
    std::string text;
};
struct State
{
    std::atomic<int> started {0}, finished {0};
    std::atomic<int> waiting {0};
    std::atomic<co *> handle {nullptr};
    std::atomic<size_t> id {0};
    std::atomic<int> delivered {0};   // exceptions received
    std::atomic<long> delivered_begin {0}; // when the receiving wait began
    std::atomic<long> first_quiet_end {0}; // when a wait first came back without the exception
} S[8];

std::string text(int k) { return strf("text of %d that does not fit into the string object", k); }

// common body; returns normally or throws
void body(int k, int a, const std::string &b, const std::shared_ptr<int> &p)
{
    auto &c = P.cos[(size_t)k];
    auto &s = S[k];
    int n = ++s.started;
    CHECK(n == 1, "coroutine %d was started %d times", k, n);
    CHECK(a == c.arg && b == text(c.arg) && p && *p == c.arg, "coroutine %d received other arguments", k);
    s.id = (size_t)this_co::id();
    CHECK(this_co::name() == strf("co%d", k), "coroutine %d has the name %s", k, this_co::name().c_str());
    do_work(c.work);
    if (c.self_wait)
    {
        while (s.handle.load() == nullptr) this_co::sleep_for(1ms);
        bool threw = false;
        try
        {
            s.handle.load()->wait<void>();
        }
        catch (std::runtime_error &)
        {
            threw = true;
        }
        CHECK(threw, "coroutine %d could wait for itself", k);
        label("self wait refused");
    }
    note("co%d ends", k);
    ++s.finished;
    vs_progress();
    switch (c.exc)
    {
    case E_STRUCT: throw Boom {k, text(c.arg)};
    case E_RUNTIME: throw std::runtime_error(text(c.arg));
    case E_INT: throw c.arg;
    }
}
template <typename T>
T value(int a);
template <>
int value<int>(int a) { return a * 3 - 7; }
template <>
std::string value<std::string>(int a) { return text(a + 1); }
template <>
double value<double>(int a) { return a / 7.0; }
template <>
std::vector<int> value<std::vector<int> >(int a) { return std::vector<int>((size_t)(a % 50 + 1), a); }
template <>
Point value<Point>(int a) { return Point {a, text(a), std::make_shared<int>(a)}; }
bool same(const Point &a, const Point &b) { return a.x == b.x && a.s == b.s && *a.p == *b.p; }
template <typename T>
bool same(const T &a, const T &b) { return a == b; }

template <typename T>
T plain_function(int k, int a, std::string b, std::shared_ptr<int> p)
{
    body(k, a, b, p);
    if constexpr (!std::is_void_v<T>) return value<T>(a);
}
template <typename T>
struct Functor
{
    std::string tag;
    T operator()(int k, int a, const std::string &b, std::shared_ptr<int> p)
    {
        CHECK(tag == text(k), "the function object of coroutine %d was damaged", k);
        tag.clear();
        return plain_function<T>(k, a, b, p);
    }
};

co_env *env_of(Actors &a, const Place &p) { return p.kind == K_BOUND || p.kind == K_SHARED_BOUND ? a.env(p.env) : nullptr; }

template <typename T>
co make(Actors &acts, int k)
{
    auto &c = P.cos[(size_t)k];
    std::initializer_list<std::function<void(co_ctx_config &)> > opts = {
        with_name(strf("co%d", k)), with_priority((size_t)c.place.prio), with_bind_env(env_of(acts, c.place)),
        with_shared_stack(c.place.kind == K_SHARED || c.place.kind == K_SHARED_BOUND)};
    int a = c.arg;
    std::string b = text(a);
    auto p = std::make_shared<int>(a);
    switch (c.args_form)
    {
    case 0: return co(opts, [k, a, b, p] { return plain_function<T>(k, a, b, p); });
    case 1: return co(opts, [](int k, int a, const std::string &b, std::shared_ptr<int> p) { return plain_function<T>(k, a, b, p); }, k, a, b, p);
    case 2: return co(opts, &plain_function<T>, k, a, b, p);
    default: return co(opts, Functor<T> {text(k)}, k, a, b, p);
    }
}

// one wait; checks everything that can be said about it
template <typename T>
void ask(co &h, int k, int kind)
{
    auto &c = P.cos[(size_t)k];
    auto &s = S[k];
    long begin = tick();
    if (!s.finished)
    {
        label("wait before the end");
        nontrivial();
    }
    if (++s.waiting > 1) label("several waiters");
    bool exc = false, cast = false;
    try
    {
        if (kind == Q_VOID)
            h.wait<void>();
        else if (kind == Q_JOIN)
            h.join();
        else if (kind == Q_WRONG)
        {
            h.wait<char>();
            fail("coroutine %d: asking for another type succeeded", k);
        }
        else if constexpr (!std::is_void_v<T>)
        {
            auto v = h.wait<T>();
            CHECK(c.exc == E_NONE, "coroutine %d threw but the wait returned a value", k);
            CHECK(same(v, value<T>(c.arg)), "coroutine %d: the wait returned another value", k);
            label("value received");
        }
        else
            h.wait<void>();
    }
    catch (Boom &b)
    {
        exc = true;
        CHECK(c.exc == E_STRUCT && b.id == k && b.text == text(c.arg), "coroutine %d: the waiter received another exception", k);
    }
    catch (std::runtime_error &e)
    {
        exc = true;
        CHECK(c.exc == E_RUNTIME && e.what() == text(c.arg), "coroutine %d: the waiter received another exception: %s", k, e.what());
    }
    catch (int i)
    {
        exc = true;
        CHECK(c.exc == E_INT && i == c.arg, "coroutine %d: the waiter received another exception", k);
    }
    catch (std::bad_cast &)
    {
        cast = true;
    }
    --s.waiting;
    CHECK(s.finished, "the wait for coroutine %d came back before it finished", k);
    if (cast) CHECK(kind == Q_WRONG || (kind == Q_VALUE && c.exc != E_NONE), "coroutine %d: the result has a wrong type", k);
    if (c.exc != E_NONE)
    {
        if (exc)
        {
            int d = ++s.delivered;
            CHECK(d == 1, "the exception of coroutine %d was delivered %d times", k, d);
            s.delivered_begin = begin;
            label("exception received");
        }
        else
        {
            long z = 0;
            s.first_quiet_end.compare_exchange_strong(z, tick());
        }
    }
    else
        CHECK(!exc, "coroutine %d did not throw", k);
    observe((uint64_t)k * 8 + exc * 2 + cast);
    vs_progress();
}
void ask_any(co &h, int k, int kind)
{
    switch (P.cos[(size_t)k].result)
    {
    case R_INT: return ask<int>(h, k, kind);
    case R_STRING: return ask<std::string>(h, k, kind);
    case R_DOUBLE: return ask<double>(h, k, kind);
    case R_VECTOR: return ask<std::vector<int> >(h, k, kind);
    case R_STRUCT: return ask<Point>(h, k, kind);
    default: return ask<void>(h, k, kind == Q_VALUE ? Q_VOID : kind);
    }
}

void run()
{
    Actors acts;
    std::vector<std::unique_ptr<co> > handles;
    for (size_t k = 0; k < P.cos.size(); ++k)
    {
        auto mk = [&]() -> co {
            switch (P.cos[k].result)
            {
            case R_INT: return make<int>(acts, (int)k);
            case R_STRING: return make<std::string>(acts, (int)k);
            case R_DOUBLE: return make<double>(acts, (int)k);
            case R_VECTOR: return make<std::vector<int> >(acts, (int)k);
            case R_STRUCT: return make<Point>(acts, (int)k);
            default: return make<void>(acts, (int)k);
            }
        };
        handles.push_back(std::make_unique<co>(mk()));
        S[k].handle = handles.back().get();
    }
    for (auto &w : P.waiters)
        acts.spawn(w.place, [&] {
            for (auto &q : w.qs)
            {
                do_work(q.before);
                ask_any(*handles[(size_t)q.co], q.co, q.kind);
            }
        });
    acts.join();
    for (size_t i = 0; i < P.cos.size(); ++i)
    {
        int k = (int)i;
        auto &c = P.cos[i];
        do_work(c.handle_work);
        auto &h = handles[i];
        // a handle must not be dropped with an exception nobody received
        if (c.exc != E_NONE && c.handle != H_DETACH && c.handle != H_JOIN) ask_any(*h, k, Q_VOID);
        if (c.self_wait)
            while (!S[k].finished) this_co::sleep_for(1ms);
        if (!S[k].finished && c.handle != H_DETACH) nontrivial();
        if (S[k].id) CHECK((size_t)h->id() == S[k].id, "the id of coroutine %d differs inside and outside", k);
        CHECK(h->name() == strf("co%d", k), "coroutine %d has the name %s", k, h->name().c_str());
        switch (c.handle)
        {
        case H_JOIN:
            ask_any(*h, k, Q_JOIN);
            CHECK(h->id() == 0, "the handle of coroutine %d refers to it after join", k);
            CHECK(S[k].finished, "join of coroutine %d came back before it finished", k);
            h->wait<void>();
            h->join();
            break;
        case H_DESTROY:
            h.reset();
            CHECK(S[k].finished, "the handle of coroutine %d was destroyed before it finished", k);
            break;
        case H_MOVE_CTOR:
        {
            co m(std::move(*h));
            h->wait<void>();
            h.reset(); // must not wait for or affect the coroutine
            ask_any(m, k, Q_VALUE);
            label("moved");
            break;
        }
        case H_MOVE_ASSIGN:
        {
            std::atomic<int> done {0};
            co m([&] {
                do_work(c.work);
                ++done;
            });
            m = std::move(*h);
            CHECK(done == 1, "assigning to a handle did not wait for its coroutine");
            h.reset();
            ask_any(m, k, Q_VALUE);
            m.join();
            label("moved");
            break;
        }
        case H_DETACH:
            h->detach();
            h->join();
            h.reset();
            while (!S[k].finished) this_co::sleep_for(2ms);
            label("detached");
            break;
        }
        vs_progress();
    }
    for (size_t k = 0; k < P.cos.size(); ++k)
    {
        auto &s = S[k];
        CHECK(s.started == 1 && s.finished == 1, "coroutine %zu was started %d times and finished %d times", k, s.started.load(), s.finished.load());
        if (s.first_quiet_end)
        {
            CHECK(s.delivered == 1, "the exception of coroutine %zu was delivered to nobody", k);
            CHECK(s.delivered_begin < s.first_quiet_end, "the exception of coroutine %zu was not delivered to the first waiter", k);
        }
    }
}
}

const Property property = {
    "C13",
    "1-5 coroutines with generated results (void, int, string, double, vector, struct), arguments, call forms, exceptions and handle operations "
    "(join, destroy, move, assign, detach), and 0-5 participants that wait for them with right and wrong types; non-trivial = somebody waited "
    "before the coroutine ended",
    generate, render, run, nullptr, 24000, 300000};

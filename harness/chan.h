// Shared by C11 (buffered, unlimited) and C12 (unbuffered): producers, consumers and closers on one channel.
#include "common.h"
#include <map>

namespace
{
struct Push
{
    Work before;
    int form; // push, <, <<
};
struct Producer
{
    Place place;
    std::vector<Push> pushes;
    bool closes; // closes the channel afterwards
};
struct Consumer
{
    Place place;
    int form;   // pop, >, >>, range for
    int count;  // -1: until the end
    Work between;
};
struct Program
{
    int cap;
    std::vector<Producer> producers;
    std::vector<Consumer> consumers;
    bool closer;
    Place closer_place;
    Work closer_work;
    int closer_yields;
    Work main_work;
    bool drain; // closes the channel only after the consumers took everything they can get
} P;

void generate(Gen &g)
{
    P = Program();
    P.cap = SYNC ? 0 : g.pick({1, 2, 3, 8, -1});
    while (g.more(P.producers.size(), 1, 4, 2))
    {
        Producer p;
        p.place = gen_place(g, true, true, false);
        while (g.more(p.pushes.size(), 1, 12, 5)) p.pushes.push_back({gen_work(g), g.range(0, 2)});
        p.closes = g.chance(10);
        P.producers.push_back(p);
    }
    bool bounded = g.chance(30); // no consumer drains the channel: values stay in it while the producers end
    while (g.more(P.consumers.size(), 1, 4, 2))
    {
        Consumer c;
        c.place = gen_place(g, true, true, false);
        c.form = g.range(0, bounded ? 2 : 3);
        c.count = bounded ? g.range(0, 9) : c.form == 3 || !g.chance(30) ? -1 : g.range(0, 5);
        c.between = gen_work(g);
        P.consumers.push_back(c);
    }
    P.closer = g.chance(30);
    P.closer_place = gen_place(g, true, true, false);
    P.closer_work = gen_work(g);
    P.closer_yields = g.range(0, 3);
    P.main_work = gen_work(g);
    P.drain = g.chance(50);
}
std::string render()
{
    const char *pf[] = {"push", "<", "<<"}, *cf[] = {"pop", ">", ">>", "for"};
    std::string s = strf("co_chan(%d)", P.cap);
    for (auto &p : P.producers)
    {
        s += " {" + render_place(p.place) + ":";
        for (auto &o : p.pushes) s += " " + render_work(o.before) + pf[o.form];
        s += p.closes ? " close}" : "}";
    }
    for (auto &c : P.consumers) s += " {" + render_place(c.place) + ": " + cf[c.form] + (c.count < 0 ? "*" : strf("x%d", c.count)) + " " + render_work(c.between) + "}";
    if (P.closer) s += " {" + render_place(P.closer_place) + ": " + render_work(P.closer_work) + strf("yield*%d close}", P.closer_yields);
    if (P.drain) s += " drain";
    return s;
}

struct Val
{
    int producer = -1, seq = -1;
    std::string text; // must survive copying
};
struct Popped
{
    int consumer;
    Val v;
    long begin, end;
};

std::atomic<long> push_true {0};  // pushes that returned true
std::atomic<long> pop_begun {0};  // pops that returned a value or are under way
std::atomic<int> close_begun {0}, close_done {0};
std::atomic<long> none_at {0};    // when a pop first came back with nothing
std::atomic<int> producers_left {0}, consumers_left {0};
std::vector<std::vector<int> > result; // per producer and value: 1 true, 0 false, -1 unknown
std::vector<Popped> popped;            // guarded by pmu
std::mutex pmu;
std::atomic<int> pushing {0};

void got(int consumer, const Val &v, long begin)
{
    CHECK(v.producer >= 0 && v.producer < (int)P.producers.size() && v.seq >= 0 && v.seq < (int)P.producers[(size_t)v.producer].pushes.size() && v.text == strf("value %d of %d, long enough to be on the heap", v.seq, v.producer),
          "consumer %d received a value that was never pushed (%d/%d)", consumer, v.producer, v.seq);
    long n = none_at;
    CHECK(n == 0 || n > begin, "consumer %d received a value although the end of the channel had been reported before", consumer);
    long e = tick();
    std::scoped_lock lk(pmu);
    popped.push_back({consumer, v, begin, e});
    note("c%d got %d/%d", consumer, v.producer, v.seq);
    vs_progress();
}
// returns false at the end of the channel
bool pop_one(co_chan<Val> &ch, int me, int form)
{
    long begin = tick();
    ++pop_begun;
    if (ch.empty()) label("pop on an empty channel");
    std::optional<Val> v;
    if (form == 0)
        v = ch.pop();
    else if (form == 1)
    {
        Val x;
        if (ch > x) v = x;
    }
    else
    {
        Val x;
        try
        {
            ch >> x;
            v = x;
        }
        catch (std::exception &)
        {
        }
    }
    if (!v)
    {
        --pop_begun;
        CHECK(close_begun > 0, "consumer %d: pop returned nothing although nobody closed the channel", me);
        long z = 0;
        none_at.compare_exchange_strong(z, tick());
        label("end seen");
        return false;
    }
    got(me, *v, begin);
    return true;
}
void close(co_chan<Val> &ch)
{
    note("close");
    if (pushing > 0)
    {
        label("close during a push");
    }
    ++close_begun;
    ch.close();
    ++close_done;
    CHECK(ch.closed(), "closed() is false after close()");
    vs_progress();
}

void run()
{
    auto chp = std::make_unique<co_chan<Val> >(P.cap);
    auto &ch = *chp;
    CHECK(ch.max_size() == P.cap, "max_size() is %d", ch.max_size());
    result.resize(P.producers.size());
    for (size_t i = 0; i < P.producers.size(); ++i) result[i].assign(P.producers[i].pushes.size(), -1);
    producers_left = (int)P.producers.size();
    consumers_left = (int)P.consumers.size();
    Actors a;
    for (size_t i = 0; i < P.producers.size(); ++i)
        a.spawn(P.producers[i].place, [&, i] {
            auto &p = P.producers[i];
            for (size_t k = 0; k < p.pushes.size(); ++k)
            {
                do_work(p.pushes[k].before);
                Val v {(int)i, (int)k, strf("value %zu of %zu, long enough to be on the heap", k, i)};
                int cd = close_done;
                if (++pushing > 1)
                {
                    label("concurrent pushes");
                }
                if (P.cap == 0 ? pop_begun == push_true : P.cap > 0 && push_true - pop_begun >= P.cap)
                {
                    label("push without room");
                    nontrivial();
                }
                note("p%zu push %zu", i, k);
                bool ok;
                if (p.pushes[k].form == 0)
                    ok = ch.push(v);
                else if (p.pushes[k].form == 1)
                    ok = ch < v;
                else
                {
                    ch << v;
                    ok = true; // the result is not reported; only used while the channel cannot be closed
                }
                --pushing;
                if (p.pushes[k].form == 2)
                {
                    // known to be in if the channel was not being closed
                    if (close_begun == 0)
                    {
                        result[i][k] = 1;
                        ++push_true;
                    }
                    vs_progress();
                    continue;
                }
                note("p%zu push %zu -> %d", i, k, ok);
                result[i][k] = ok;
                if (ok)
                {
                    long t = ++push_true;
                    CHECK(cd == 0, "producer %zu: push returned true although the channel had been closed before", i);
                    if (P.cap >= 0)
                        CHECK(t - pop_begun <= P.cap, "%ld pushes came back, but only %ld pops were begun and the capacity is %d", t, pop_begun.load(), P.cap);
                }
                else
                {
                    label("push refused");
                    CHECK(close_begun > 0, "producer %zu: push failed although nobody closed the channel", i);
                }
                vs_progress();
            }
            if (p.closes) close(ch);
            --producers_left;
        });
    for (size_t i = 0; i < P.consumers.size(); ++i)
        a.spawn(P.consumers[i].place, [&, i] {
            auto &c = P.consumers[i];
            if (c.form == 3)
            {
                // the loop pops in begin() and in ++
                long begin = tick();
                ++pop_begun;
                for (auto &v : ch)
                {
                    got((int)i, v, begin);
                    do_work(c.between);
                    begin = tick();
                    ++pop_begun;
                }
                --pop_begun;
                CHECK(close_begun > 0, "consumer %zu: the iteration ended although nobody closed the channel", i);
                long z = 0;
                none_at.compare_exchange_strong(z, tick());
                label("end seen");
            }
            else
                for (int n = 0; c.count < 0 || n < c.count; ++n)
                {
                    if (!pop_one(ch, (int)i, c.form)) break;
                    do_work(c.between);
                }
            --consumers_left;
        });
    if (P.closer)
        a.spawn(P.closer_place, [&] {
            do_work(P.closer_work);
            for (int i = 0; i < P.closer_yields; ++i) this_co::yield();
            close(ch);
        });
    do_work(P.main_work);
    size_t total = 0;
    for (auto &r : result) total += r.size();
    // When the producers are through the channel is closed; when the consumers are, the main thread takes over.
    while (producers_left > 0)
    {
        this_co::sleep_for(4ms);
        bool more;
        {
            std::scoped_lock lk(pmu);
            // else the remaining values fit in, and the producers end without another pop
            more = P.cap >= 0 && popped.size() + (size_t)P.cap < total;
            if (P.cap != 0 && !more && popped.size() < total && consumers_left == 0) label("rest fits");
        }
        if (more && consumers_left == 0) pop_one(ch, 99, 0);
    }
    while (P.drain && consumers_left > 0)
    {
        {
            std::scoped_lock lk(pmu);
            if ((long)popped.size() >= push_true) break;
        }
        label("values left for the consumers");
        this_co::sleep_for(4ms);
    }
    close(ch);
    while (pop_one(ch, 99, 1)) {}
    a.join();
    while (pop_one(ch, 99, 0)) {}
    CHECK(!ch.push(Val()), "push returned true on a closed channel");
    CHECK(ch.empty() && !ch.pop(), "the closed channel is not empty after it was drained");
    // exactly the accepted values, each once
    std::map<std::pair<int, int>, int> times;
    for (auto &p : popped) ++times[{p.v.producer, p.v.seq}];
    for (size_t i = 0; i < result.size(); ++i)
        for (size_t k = 0; k < result[i].size(); ++k)
        {
            int n = times[{(int)i, (int)k}];
            CHECK(n <= 1, "value %zu/%zu was received %d times", i, k, n);
            CHECK(result[i][k] != 1 || n == 1, "value %zu/%zu was pushed successfully but never received", i, k);
            CHECK(result[i][k] != 0 || n == 0, "value %zu/%zu was received although its push returned false", i, k);
        }
    // order of each producer
    for (auto &x : popped)
        for (auto &y : popped)
            if (x.v.producer == y.v.producer && x.v.seq < y.v.seq)
            {
                CHECK(x.consumer != y.consumer || x.end <= y.begin, "consumer %d received %d/%d after %d/%d", x.consumer, x.v.producer, x.v.seq, y.v.producer, y.v.seq);
                CHECK(x.begin < y.end, "value %d/%d was requested only after %d/%d had been received", x.v.producer, x.v.seq, y.v.producer, y.v.seq);
            }
    observe(popped.size());
    for (auto &p : popped) observe((uint64_t)p.consumer * 1000 + (uint64_t)p.v.producer * 50 + (uint64_t)p.v.seq);
}
}

// C20: coroutines that share one stack behave as if each had its own.
#include "frames.h"

namespace
{
struct Co
{
    int env; // -1 unbound
    bool shared;
    bool detached;
    std::vector<FOp> ops;
};
struct Program
{
    size_t extra; // shared stack: bytes beyond the largest need
    std::vector<Co> cos;
} P;

void generate(Gen &g)
{
    P = Program();
    FrameLimits l;
    l.max_frame = 5;
    l.children = true;
    l.many = false;
    P.extra = (size_t)g.pick({0, 1, 8, 4096, 1 << 20});
    bool one_env = g.chance(70);
    while (g.more(P.cos.size(), 1, 7, 5))
    {
        Co c;
        c.env = one_env ? 0 : g.range(-1, 1);
        c.shared = !g.chance(30);
        c.detached = g.chance(15);
        c.ops = gen_frames(g, l, 0);
        P.cos.push_back(c);
    }
}
std::string render()
{
    std::string s = strf("shared stack +%zu: ", P.extra);
    for (auto &c : P.cos)
        s += strf("%s%s%s{", c.shared ? "shared" : "private", c.env < 0 ? "" : strf("#%d", c.env).c_str(), c.detached ? " detached" : "") + render_frames(c.ops) + " } ";
    return s;
}

std::atomic<int> live {0}, shared_live {0};

void body(const std::vector<FOp> &ops, bool shared)
{
    if (shared && ++shared_live > 1) nontrivial();
    FrameRunner r;
    r.ops(ops);
    if (shared) --shared_live;
    vs_progress();
}

void run()
{
    frames_mu = new co_mutex;
    size_t need = 0;
    for (auto &c : P.cos) need = std::max(need, frames_need(c.ops));
    // the base covers what the library, the C++ runtime and signals need
    co::set_env_shared_stack_size(need + 64 * 1024 + P.extra);
    co_env *envs[2] = {co::create_env(true), nullptr};
    for (auto &c : P.cos)
        if (c.env == 1 && !envs[1]) envs[1] = co::create_env(true);
    frames_child = [](const std::vector<FOp> &ops) {
        // on the same environment as its creator
        co c({with_bind_env(co::current_env()), with_shared_stack(true)}, [&ops] { body(ops, true); });
        c.join();
    };
    std::vector<std::unique_ptr<co> > cos;
    for (auto &c : P.cos)
    {
        ++live;
        auto h = std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_bind_env(c.env < 0 ? nullptr : envs[c.env]), with_shared_stack(c.shared)}, [&c] {
            body(c.ops, c.shared);
            --live;
        });
        if (c.detached)
        {
            label("detached");
            h->detach();
        }
        else
            cos.push_back(std::move(h));
    }
    for (auto &c : cos) c->join();
    while (live > 0) std::this_thread::sleep_for(1ms);
    CHECK(FrameEx::live == 0, "%d exception objects were not destroyed", FrameEx::live.load());
}
}

const Property property = {
    "C20",
    "1-7 coroutines, most of them on the shared stack of one or two environments, that run generated call trees (frames of 0-60000 bytes nested up to 40 deep, registers, "
    "floating point, exceptions, shared-stack children) with suspensions at every depth; the shared stack is little larger than the largest need; "
    "non-trivial = two shared-stack coroutines existed at the same time",
    generate, render, run, nullptr, 20000, 200000};

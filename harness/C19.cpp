// C19: local state survives every switch.
#include "frames.h"

namespace
{
struct Co
{
    int env; // -1 unbound
    int prio;
    size_t stack;
    bool shared;
    std::vector<FOp> ops;
};
struct Program
{
    std::vector<Co> cos;
} P;

void generate(Gen &g)
{
    P = Program();
    FrameLimits l;
    l.max_frame = 3;
    l.children = true;
    bool one_env = g.chance(60);
    while (g.more(P.cos.size(), 1, 6, 3))
    {
        Co c;
        c.env = one_env ? 0 : g.range(-1, 1);
        c.prio = 99;
        c.shared = g.chance(10);
        c.stack = (size_t)g.pick({0, 0, 0, 96000, 98304, 100001, 1 << 20}); // 0: default
        c.ops = gen_frames(g, l, 0);
        c.stack = c.stack ? c.stack + frames_need(c.ops) : CO_DEFAULT_STACK_SIZE;
        P.cos.push_back(c);
    }
}
std::string render()
{
    std::string s;
    for (auto &c : P.cos)
    {
        s += c.env < 0 ? std::string("co{") : strf("co#%d{", c.env);
        if (c.shared) s += "shared ";
        if (c.stack != CO_DEFAULT_STACK_SIZE) s += strf("stack %zu ", c.stack);
        s += render_frames(c.ops) + " } ";
    }
    return s;
}
void run()
{
    frames_mu = new co_mutex;
    co_env *envs[2] = {co::create_env(true), nullptr};
    for (auto &c : P.cos)
        if (c.env == 1 && !envs[1]) envs[1] = co::create_env(true);
    frames_child = [](const std::vector<FOp> &ops) {
        co c([&ops] {
            FrameRunner r;
            r.ops(ops);
            vs_progress();
        });
        c.join();
    };
    std::vector<std::unique_ptr<co> > cos;
    for (auto &c : P.cos)
        cos.push_back(std::make_unique<co>(std::initializer_list<std::function<void(co_ctx_config &)> > {with_priority((size_t)c.prio), with_bind_env(c.env < 0 ? nullptr : envs[c.env]), with_stack_size(c.stack), with_shared_stack(c.shared)}, [&c] {
            FrameRunner r;
            r.ops(c.ops);
            vs_progress();
        }));
    for (auto &c : cos) c->join();
    CHECK(FrameEx::live == 0, "%d exception objects were not destroyed", FrameEx::live.load());
}
}

const Property property = {
    "C19",
    "1-6 coroutines on one or several environments, private stacks of several sizes (few shared), that run generated call trees: frames of 0-5000 bytes nested up to 40 deep, "
    "values in callee-saved registers and floating-point variables, rounding modes, exceptions with suspensions in handlers and destructors, up to 1100 switches in place, "
    "child coroutines; everything is compared after each suspension; non-trivial = suspended while another coroutine was suspended with data at stake",
    generate, render, run, nullptr, 20000, 200000};

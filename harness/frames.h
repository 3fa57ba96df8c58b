// Generated call trees that keep data in stack frames, registers, floating-point state and exceptions
// across suspensions, and check all of it afterwards.  Used for C19 - C21.
#pragma once
#include "common.h"
#include <alloca.h>
#include <cfenv>
#include <cstring>
#include <exception>

enum { F_SUSPEND = 0, F_CALL, F_TRY, F_ROUND, F_REGS, F_FLOAT, F_CHILD, F_MANY };
struct FOp
{
    int op = 0;
    int n = 0;       // suspension kind, frame size, rounding mode, repetitions
    int depth = 0;   // F_CALL: number of nested frames
    bool flag = false; // F_TRY: throws; a destructor suspends while unwinding
    bool rethrow = false;
    std::vector<FOp> body, handler;
};

struct FrameLimits
{
    int max_frame = 3;      // index into the frame sizes
    bool exceptions = true;
    bool children = false;
    bool many = true;       // more than a thousand switches at one place
};

inline const int FRAME_SIZES[] = {0, 64, 1000, 5000, 20000, 60000};

inline std::vector<FOp> gen_frames(Gen &g, const FrameLimits &l, int depth)
{
    std::vector<FOp> v;
    while (g.more(v.size(), depth == 0 ? 1 : 0, depth == 0 ? 6 : 3, depth == 0 ? 3 : 2))
    {
        FOp o;
        o.op = g.weighted({5, depth < 3 ? 4 : 0, l.exceptions && depth < 3 ? 3 : 0, 1, 2, 2, l.children && depth < 2 ? 1 : 0, l.many && depth < 2 ? 1 : 0});
        switch (o.op)
        {
        case F_SUSPEND: o.n = g.weighted({6, 1, 2, 1}); break;
        case F_CALL:
            o.n = g.range(0, l.max_frame);
            o.depth = g.weighted({5, 3, 1, 1});
            o.depth = o.depth == 3 ? 40 : o.depth + 1;
            o.body = gen_frames(g, l, depth + 1);
            break;
        case F_TRY:
            o.flag = g.chance(70);
            o.rethrow = g.chance(20);
            o.n = g.chance(40);
            o.body = gen_frames(g, l, depth + 1);
            o.handler = gen_frames(g, l, depth + 1);
            break;
        case F_ROUND: o.n = g.range(0, 3); break;
        case F_CHILD: o.body = gen_frames(g, l, depth + 1); break;
        case F_MANY: o.n = g.pick({10, 100, 1100}); break;
        default: break;
        }
        v.push_back(o);
    }
    return v;
}

inline std::string render_frames(const std::vector<FOp> &v)
{
    const char *k[] = {"yield", "sleep", "lock", "block"};
    std::string s;
    for (auto &o : v) switch (o.op)
    {
    case F_SUSPEND: s += strf(" %s", k[o.n]); break;
    case F_CALL: s += strf(" call(%d bytes x%d:%s)", FRAME_SIZES[o.n], o.depth, render_frames(o.body).c_str()); break;
    case F_TRY:
        s += strf(" try{%s%s%s}catch{%s%s}", render_frames(o.body).c_str(), o.flag ? " throw" : "", o.n ? " suspending-dtor" : "", render_frames(o.handler).c_str(), o.rethrow ? " rethrow" : "");
        break;
    case F_ROUND: s += strf(" round%d", o.n); break;
    case F_REGS: s += " regs"; break;
    case F_FLOAT: s += " float"; break;
    case F_CHILD: s += " child{" + render_frames(o.body) + " }"; break;
    case F_MANY: s += strf(" yield*%d", o.n); break;
    }
    return s;
}

// bytes of stack a call tree needs at most (generous)
inline size_t frames_need(const std::vector<FOp> &v)
{
    size_t m = 0;
    for (auto &o : v)
    {
        size_t n = o.op == F_CALL ? (size_t)o.depth * ((size_t)FRAME_SIZES[o.n] + 1000) : 2000;
        m = std::max({m, n + frames_need(o.body), n + frames_need(o.handler)});
    }
    return m;
}

struct FrameEx
{
    static inline std::atomic<int> live {0};
    long id;
    long canary;
    explicit FrameEx(long i)
        : id(i)
        , canary(i ^ 0x5aa5)
    {
        ++live;
    }
    FrameEx(const FrameEx &o)
        : id(o.id)
        , canary(o.canary)
    {
        ++live;
    }
    ~FrameEx()
    {
        canary = 0;
        --live;
    }
};

inline co_mutex *frames_mu;
inline std::atomic<int> frames_owner {0};
inline std::atomic<long> frames_ids {0};
inline std::atomic<int> frames_inside {0}; // suspensions with data at stake going on
inline std::function<void(std::vector<FOp> const &)> frames_child;

// executes one call tree; one object per coroutine
class FrameRunner
{
    long uncaught__ = 0;

    static uint64_t mix(uint64_t x)
    {
        x ^= x >> 33;
        x *= 0xff51afd7ed558ccdULL;
        x ^= x >> 33;
        return x;
    }

public:
    virtual ~FrameRunner() {}
    virtual void suspend_hook(int kind)
    {
        switch (kind)
        {
        case 1: this_co::sleep_for(std::chrono::milliseconds(1)); break;
        case 2:
        {
            std::lock_guard<co_mutex> lock(*frames_mu);
            CHECK(++frames_owner == 1, "two coroutines own the mutex");
            this_co::yield();
            --frames_owner;
            break;
        }
        case 3: std::this_thread::sleep_for(std::chrono::milliseconds(12)); // blocks the thread
        // fall through
        default: this_co::yield();
        }
    }
    static void suspend_c(FrameRunner *r, int kind) { r->suspend(kind); }
    __attribute__((noinline)) void suspend(int kind)
    {
        int mode = fegetround();
        long unc = std::uncaught_exceptions();
        CHECK(unc == uncaught__, "uncaught_exceptions() is %ld, should be %ld", unc, uncaught__);
        if (++frames_inside > 1) nontrivial();
        suspend_hook(kind);
        --frames_inside;
        CHECK(fegetround() == mode, "the rounding mode changed during a suspension: %d, was %d", fegetround(), mode);
        unc = std::uncaught_exceptions();
        CHECK(unc == uncaught__, "uncaught_exceptions() is %ld after a suspension, should be %ld", unc, uncaught__);
    }
    // callee-saved registers
    __attribute__((noinline)) void regs(int kind)
    {
        uint64_t seed = mix((uint64_t)++frames_ids);
        uint64_t out[5];
        uint64_t in[5];
        for (int i = 0; i < 5; ++i) in[i] = mix(seed + (uint64_t)i);
        void *ctl[5] = {(void *)&suspend_c, this, (void *)(long)kind, in, out};
        void **p = ctl;
        __asm__ volatile(
            "movq %%rsp, %%rcx\n\t"
            "subq $1024, %%rsp\n\t"
            "andq $-64, %%rsp\n\t"
            "pushq %%rcx\n\t"
            "pushq 32(%%rax)\n\t"
            "movq 8(%%rax), %%rdi\n\t"
            "movq 16(%%rax), %%rsi\n\t"
            "movq 24(%%rax), %%rcx\n\t"
            "movq 0(%%rax), %%rax\n\t"
            "movq 0(%%rcx), %%rbx\n\t"
            "movq 8(%%rcx), %%r12\n\t"
            "movq 16(%%rcx), %%r13\n\t"
            "movq 24(%%rcx), %%r14\n\t"
            "movq 32(%%rcx), %%r15\n\t"
            "callq *%%rax\n\t"
            "popq %%rcx\n\t"
            "movq %%rbx, 0(%%rcx)\n\t"
            "movq %%r12, 8(%%rcx)\n\t"
            "movq %%r13, 16(%%rcx)\n\t"
            "movq %%r14, 24(%%rcx)\n\t"
            "movq %%r15, 32(%%rcx)\n\t"
            "popq %%rsp\n\t"
            : "+a"(p)
            :
            : "rbx", "rcx", "rdx", "rsi", "rdi", "r12", "r13", "r14", "r15", "r8", "r9", "r10", "r11", "memory", "cc",
              "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
        for (int i = 0; i < 5; ++i) CHECK(out[i] == in[i], "a callee-saved register changed during a suspension");
    }
    // floating-point values that live across suspensions
    __attribute__((noinline)) void floats(int kind)
    {
        double x = 1.0 + (double)(++frames_ids % 97) / 97.0;
        long double y = 1.0L + (long double)(frames_ids.load() % 89) / 89.0L;
        float z = (float)x;
        double a[8], b[8];
        for (int i = 0; i < 8; ++i) a[i] = b[i] = x * i + 0.25;
        volatile double vx = x;
        volatile long double vy = y;
        volatile float vz = z;
        suspend(kind);
        CHECK(vx == x && vy == y && vz == z, "a floating-point value changed during a suspension");
        for (int i = 0; i < 8; ++i) CHECK(a[i] == b[i], "a floating-point value changed during a suspension");
    }
    // a frame with `size` bytes of data
    __attribute__((noinline)) void frame(const FOp &o, int depth, const std::vector<FOp> &body)
    {
        size_t words = (size_t)FRAME_SIZES[o.n] / 8;
        auto data = (uint64_t *)alloca(words * 8 + 8);
        uint64_t seed = mix((uint64_t)++frames_ids * 77);
        for (size_t i = 0; i < words; ++i) data[i] = mix(seed + i);
        uint64_t k0 = mix(seed ^ 1), k1 = mix(seed ^ 2), k2 = mix(seed ^ 3);
        __asm__ volatile("" : "+r"(k0), "+r"(k1), "+r"(k2), "+r"(data) : : "memory");
        struct Check
        {
            uint64_t *data;
            size_t words;
            uint64_t seed, k0, k1, k2;
            void operator()() const
            {
                for (size_t i = 0; i < words; ++i)
                    if (data[i] != mix(seed + i)) fail("%zu bytes of local data changed at word %zu", words * 8, i);
                CHECK(k0 == mix(seed ^ 1) && k1 == mix(seed ^ 2) && k2 == mix(seed ^ 3), "a local variable changed");
            }
        };
        try
        {
            if (depth > 1)
                frame(o, depth - 1, body);
            else
                ops(body);
        }
        catch (...)
        {
            Check {data, words, seed, k0, k1, k2}();
            throw;
        }
        Check {data, words, seed, k0, k1, k2}();
    }
    struct Dtor
    {
        FrameRunner *r;
        bool throwing;
        ~Dtor()
        {
            if (!throwing) return;
            label("suspended while unwinding");
            ++r->uncaught__;
            r->suspend(0);
            // an exception of its own inside the destructor
            long id = ++frames_ids;
            try
            {
                throw FrameEx(id);
            }
            catch (FrameEx &e)
            {
                r->suspend(0);
                CHECK(e.id == id && e.canary == (id ^ 0x5aa5), "an exception changed");
            }
            r->suspend(0);
            --r->uncaught__;
        }
    };
    __attribute__((noinline)) void try_once(const FOp &o)
    {
        long id = ++frames_ids;
        long caught = 0;
        try
        {
            ops(o.body);
            if (o.flag)
            {
                if (o.n)
                {
                    Dtor d {this, true};
                    throw FrameEx(id);
                }
                throw FrameEx(id);
            }
        }
        catch (FrameEx &e)
        {
            label("suspended in a handler");
            CHECK(o.flag, "an exception arrived where none was thrown");
            CHECK(e.id == id && e.canary == (id ^ 0x5aa5), "the exception of somebody else was caught");
            auto before = std::current_exception();
            ops(o.handler);
            CHECK(e.id == id && e.canary == (id ^ 0x5aa5), "the exception changed while it was handled");
            CHECK(std::current_exception() == before, "current_exception() changed while it was handled");
            ++caught;
            if (o.rethrow)
            {
                try
                {
                    throw;
                }
                catch (FrameEx &e2)
                {
                    suspend(0);
                    CHECK(e2.id == id, "rethrowing delivered another exception");
                }
            }
        }
        CHECK(caught == (o.flag ? 1 : 0), "an exception was lost");
    }
    void ops(const std::vector<FOp> &v)
    {
        static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
        for (auto &o : v) switch (o.op)
        {
        case F_SUSPEND: suspend(o.n); break;
        case F_CALL: frame(o, o.depth, o.body); break;
        case F_TRY: try_once(o); break;
        case F_ROUND:
            label("rounding mode");
            fesetround(modes[o.n]);
            break;
        case F_REGS: regs(0); break;
        case F_FLOAT: floats(0); break;
        case F_CHILD: frames_child(o.body); break;
        case F_MANY:
            if (o.n > 1000) label("more than a thousand switches");
            for (int i = 0; i < o.n; ++i) suspend(0);
            break;
        }
    }
};

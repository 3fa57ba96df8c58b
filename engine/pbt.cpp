#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <malloc.h>
#include <map>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

void pbt_init_manager(const CaseConfig &); // harness_glue.cpp

CaseConfig case_config;

// ------------------------------------------------------------------ generation
static uint64_t sm64(uint64_t &s)
{
    s += 0x9E3779B97F4A7C15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
uint32_t Gen::draw(uint32_t n)
{
    if (n == 0) n = 1;
    uint32_t v;
    if (replay__)
        v = pos__ < rec__.size() ? rec__[pos__] : 0;
    else
    {
        v = (uint32_t)(sm64(s__) >> 16);
        v %= n;
        rec__.push_back(v);
    }
    ++pos__;
    return v % n;
}
std::string strf(const char *fmt, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    return b;
}

// ------------------------------------------------------------------ shared result of one case
struct Result
{
    int verdict; // 0 not finished, 1 ok, 2 fail, 3 hang
    char msg[1500];
    char trace[24000];
    int trace_len;
    int nontrivial;
    uint64_t obs;
    uint64_t sched;
    long steps, switches;
    double vtime;
    int nlabels;
    char labels[24][40];
};
static Result *res;
static bool in_child;

static void finish(int verdict, const char *msg)
{
    if (msg) snprintf(res->msg, sizeof res->msg, "%s", msg);
    res->sched = vs_trace_hash();
    res->steps = vs_steps();
    res->switches = vs_switches();
    res->vtime = (double)vs_now_ns() / 1e9;
    res->verdict = verdict;
    _exit(0);
}
void fail(const char *fmt, ...)
{
    char b[1400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    finish(2, b);
    abort();
}
void label(const char *name)
{
    for (int i = 0; i < res->nlabels; ++i)
        if (!strcmp(res->labels[i], name)) return;
    if (res->nlabels < 24) snprintf(res->labels[res->nlabels++], 40, "%s", name);
}
void nontrivial() { res->nontrivial = 1; }
void observe(uint64_t v)
{
    res->obs ^= v + 0x9E3779B97F4A7C15ULL + (res->obs << 6) + (res->obs >> 2);
    res->obs *= 1099511628211ULL;
}
void note(const char *fmt, ...)
{
    char b[256];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    if (res->trace_len + n + 40 < (int)sizeof res->trace)
        res->trace_len += snprintf(res->trace + res->trace_len, sizeof res->trace - res->trace_len, "[%.6f T%d] %s\n", (double)(vs_now_ns() % 1000000000000000LL) / 1e9, vs_self(), b);
}

// ------------------------------------------------------------------ allocator with poisoning
// Every block carries a header; freed blocks are filled with 0xDB.  In quarantine mode they are
// kept and re-checked at the end of the case, so a write through a dangling pointer is a failure.
namespace
{
constexpr uint64_t LIVE = 0x11FEB10C11FEB10CULL, DEAD = 0xDEADB10CDEADB10CULL;
struct Hdr
{
    uint64_t magic;
    uint32_t size;
    uint16_t off, align;
};
Hdr *quarantine[200000];
int nquar;
int amode;
std::atomic<long> live_bytes {0};
// Allocations of a case come from an arena at a fixed address, so that the addresses (which decide
// e.g. the order of ordered containers of pointers) do not depend on the history of the parent.
char *const ARENA = (char *)0x100000000000ULL;
constexpr size_t ARENA_SIZE = 4ULL << 30;
constexpr size_t CLASSES = 65536 / 16 + 8;
size_t arena_used;
void *free_list[CLASSES];
void arena_init()
{
    if (mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ARENA)
    {
        perror("arena");
        abort();
    }
}
bool in_arena(void *p) { return (char *)p >= ARENA && (char *)p < ARENA + ARENA_SIZE; }
char *raw_alloc(size_t n)
{
    if (!in_child) return (char *)malloc(n);
    size_t c = (n + 15) / 16;
    if (c < CLASSES && free_list[c])
    {
        char *r = (char *)free_list[c];
        free_list[c] = *(void **)r;
        return r;
    }
    if (arena_used + c * 16 > ARENA_SIZE) abort();
    char *r = ARENA + arena_used;
    arena_used += c * 16;
    return r;
}
void raw_free(char *p, size_t n)
{
    if (!in_arena(p))
    {
        free(p);
        return;
    }
    size_t c = (n + 15) / 16;
    if (c >= CLASSES) return;
    *(void **)p = free_list[c];
    free_list[c] = p;
}
void *do_alloc(size_t n, size_t align)
{
    if (align < 16) align = 16;
    char *raw = raw_alloc(n + align + sizeof(Hdr));
    if (!raw) abort();
    uintptr_t p = ((uintptr_t)raw + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
    Hdr *h = (Hdr *)(p - sizeof(Hdr));
    h->magic = LIVE;
    h->size = (uint32_t)n;
    h->off = (uint16_t)(p - (uintptr_t)raw);
    h->align = (uint16_t)align;
    live_bytes += (long)n;
    if (in_child && n <= 65536) memset((void *)p, 0xCD, n);
    return (void *)p;
}
void do_free(void *p)
{
    if (!p) return;
    Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
    if (h->magic != LIVE)
    {
        if (in_child) fail("heap: %s at %s", h->magic == DEAD ? "double delete" : "delete of a corrupt block", "operator delete");
        abort();
    }
    h->magic = DEAD;
    live_bytes -= (long)h->size;
    if (in_child && h->size <= 65536) memset(p, 0xDB, h->size);
    if (in_child && amode == 1 && nquar < 200000 && h->size <= 65536)
    {
        quarantine[nquar++] = h;
        return;
    }
    // the link of the free list lives in front of the header, so the poison stays intact
    raw_free((char *)p - h->off, (size_t)h->size + h->align + sizeof(Hdr));
}
void check_quarantine()
{
    for (int i = 0; i < nquar; ++i)
    {
        unsigned char *p = (unsigned char *)(quarantine[i] + 1);
        if (quarantine[i]->magic != DEAD) fail("heap: header of a freed %u byte block was overwritten", quarantine[i]->size);
        for (uint32_t k = 0; k < quarantine[i]->size; ++k)
            if (p[k] != 0xDB) fail("heap: write into a freed block (size %u, offset %u)", quarantine[i]->size, k);
    }
}
}
long heap_live() { return live_bytes; }
void *operator new(size_t n) { return do_alloc(n, 16); }
void *operator new[](size_t n) { return do_alloc(n, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_alloc(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_alloc(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return do_alloc(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return do_alloc(n, (size_t)a); }
void operator delete(void *p) noexcept { do_free(p); }
void operator delete[](void *p) noexcept { do_free(p); }
void operator delete(void *p, size_t) noexcept { do_free(p); }
void operator delete[](void *p, size_t) noexcept { do_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_free(p); }

// ------------------------------------------------------------------ one case
static CaseConfig gen_config(Gen &g)
{
    CaseConfig c;
    c.vs.seed = g.draw(1u << 30) + 1;
    c.vs.policy = (int[]){VS_RANDOM, VS_RR, VS_PCT, VS_STARVE}[g.weighted({5, 1, 2, 2})];
    c.vs.burst = g.pick({20, 5, 1, 2, 100});
    c.vs.mem_burst = g.pick({0, 1500, 200, 40, 0});
    c.vs.pct_depth = g.pick({2, 3, 5, 10});
    c.vs.now_cost_ns = g.pick({50000, 20000, 200000, 1000000});
    c.vs.step_cost_ns = g.pick({300, 100, 3000});
    switch (g.weighted({6, 2, 2}))
    {
    case 0: c.vs.jump_pm = 0; break;
    case 1: c.vs.jump_pm = 2; c.vs.jump_max_us = 20000; break;
    default: c.vs.jump_pm = 20; c.vs.jump_max_us = 5000; break;
    }
    c.vs.spurious = g.chance(10) ? g.pick({1, 5, 20}) : 0;
    c.alloc_mode = g.weighted({1, 1});
    c.base_envs = g.pick({1, 2, 3, 4});
    c.max_envs = 128;
    c.tick_ms = g.pick({1000, 10, 50});
    if (property.tune) property.tune(g, c);
    return c;
}
static std::string render_config(const CaseConfig &c)
{
    static const char *pol[] = {"random", "rr", "pct", "starve"};
    return strf("schedule{seed=%llu policy=%s burst=%d mem=%d depth=%d now=%dns step=%dns jump=%d/1000<=%dus spurious=%d} alloc=%s threads=%d/%d tick=%dms",
                (unsigned long long)c.vs.seed, pol[c.vs.policy], c.vs.burst, c.vs.mem_burst, c.vs.pct_depth, c.vs.now_cost_ns, c.vs.step_cost_ns,
                c.vs.jump_pm, c.vs.jump_max_us, c.vs.spurious, c.alloc_mode ? "quarantine" : "reuse", c.base_envs, c.max_envs, c.tick_ms);
}

static bool debug_child = false;
static void on_hang(const char *why)
{
    char b[1400];
    size_t n = snprintf(b, sizeof b, "hang: %s; ", why);
    vs_dump(b + n, sizeof b - n);
    if (debug_child)
    {
        fprintf(stderr, "%s\n%s\n", b, res->trace);
        if (getenv("PBT_BT")) vs_backtraces();
        _exit(5);
    }
    finish(3, b);
}

static void crash_handler(int sig, siginfo_t *si, void *)
{
    char b[200];
    snprintf(b, sizeof b, "crash: signal %d (%s) at address %p", sig, strsignal(sig), si->si_addr);
    if (debug_child)
    {
        fprintf(stderr, "%s\n", b);
        void *bt[60];
        int n = backtrace(bt, 60);
        for (int i = 0; i < n; ++i) fprintf(stderr, "BT %p\n", bt[i]);
        _exit(5);
    }
    finish(2, b);
}

// the handlers registered before the manager exists run after it was destroyed
static int ending = -1;
static int64_t ending_since;
static void (*ending_check)();
static void after_exit(int status, void *)
{
    int64_t took = vs_now_ns() - ending_since;
    if (ending < 0) finish(2, "the program called exit in the middle of the case");
    // what still runs goes on for a while, like during the rest of the real end of a process
    for (int i = 0; i < 300; ++i) vs_point();
    vs_pause(true);
    check_quarantine();
    if (took > 20000000000) fail("the program took %.3fs to end", (double)took / 1e9);
    if (status != ending) fail("the program ends with status %d instead of %d", status, ending);
    if (ending_check) ending_check();
    finish(1, nullptr);
}
void expect_end(int status, void (*check)())
{
    ending = status;
    ending_since = vs_now_ns();
    ending_check = check;
}
void end_program(int status)
{
    expect_end(status);
    exit(status);
}

static void child_main()
{
    in_child = true;
    on_exit(after_exit, nullptr);
    amode = case_config.alloc_mode;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (!debug_child)
    {
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 0);
        dup2(fd, 1);
        dup2(fd, 2);
        struct itimerval it = {};
        it.it_value.tv_sec = 60;
        setitimer(ITIMER_REAL, &it, nullptr);
    }
    vs_on_hang = on_hang;
    static char alt[65536];
    stack_t ss = {};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    vs_start(&case_config.vs);
    if (property.use_manager)
    {
        pbt_init_manager(case_config);
    }
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
    {
        if (property.library_signals) break;
        struct sigaction sa = {};
        sa.sa_sigaction = crash_handler;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        sigaction(s, &sa, nullptr);
    }
    for (int s : {SIGTERM, SIGINT, SIGHUP, SIGQUIT})
        if (!property.library_signals) signal(s, SIG_DFL);
    property.run();
    vs_pause(true);
    check_quarantine();
    finish(1, nullptr);
}

// start a case; the program and configuration are the globals
static pid_t start_case(Result *r)
{
    memset(r, 0, offsetof(Result, trace));
    r->trace_len = 0;
    r->nontrivial = 0;
    r->obs = 1469598103934665603ULL;
    r->nlabels = 0;
    res = r;
    pid_t p = fork();
    if (p < 0)
    {
        perror("fork");
        exit(3);
    }
    if (p == 0) child_main();
    return p;
}
// returns true if the case violated the property
static bool end_case(Result *r, pid_t p, bool *error = nullptr)
{
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (r->verdict == 1) return false;
    if (r->verdict == 2 || r->verdict == 3) return true;
    if (WIFSIGNALED(st))
    {
        if (WTERMSIG(st) == SIGKILL)
        {
            if (error) *error = true;
            snprintf(r->msg, sizeof r->msg, "the case process was killed (out of memory?)");
            return false;
        }
        snprintf(r->msg, sizeof r->msg, "crash: signal %d (%s)%s", WTERMSIG(st), strsignal(WTERMSIG(st)), WTERMSIG(st) == SIGALRM ? ": no end within 60 s of real time" : "");
        return true;
    }
    snprintf(r->msg, sizeof r->msg, "the process exited with status %d in the middle of the case", WEXITSTATUS(st));
    return true;
}

struct CaseText
{
    std::vector<uint32_t> choices;
    std::string config, program;
};
static CaseText build(Gen &g)
{
    CaseText t;
    case_config = gen_config(g);
    property.generate(g);
    t.choices = g.choices();
    if (t.choices.size() > g.used()) t.choices.resize(g.used());
    t.config = render_config(case_config);
    t.program = property.render();
    return t;
}

static uint64_t hstr(const std::string &s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

// ------------------------------------------------------------------ campaign
static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += strf("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}

constexpr int MAXW = 64;
constexpr long MAXH = 1 << 21;
struct Worker
{
    long evals, nontriv, steps, switches, errors, flaky;
    double vtime;
    int nlabels;
    char labels[64][40];
    long lcount[64];
    long nhash;
    int failed;
    long fail_idx;
    int nfailchoices;
    uint32_t failchoices[20000];
    char failmsg[1500];
    int nsamples;
    char samples[3][3000];
    uint64_t hashes[MAXH / 8];
};
struct Shared
{
    std::atomic<long> stop_idx; // lowest failing index so far
    std::atomic<int> stop;
    Worker w[MAXW];
};
static Shared *sh;

static double now_s()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static uint64_t case_seed(uint64_t seed, long idx)
{
    uint64_t s = seed * 0x9E3779B97F4A7C15ULL + (uint64_t)idx * 0xD1B54A32D192ED03ULL + hstr(property.id);
    sm64(s);
    return s;
}

static void worker_main(int w, int nw, uint64_t seed, long n, double deadline)
{
    Worker &W = sh->w[w];
    Result *r = (Result *)::mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    cpu_set_t all, one;
    sched_getaffinity(0, sizeof all, &all);
    int ncpu = CPU_COUNT(&all), k = w % ncpu, c = 0;
    for (int i = 0; i < CPU_SETSIZE; ++i)
        if (CPU_ISSET(i, &all) && k-- == 0)
        {
            c = i;
            break;
        }
    CPU_ZERO(&one);
    CPU_SET(c, &one);
    sched_setaffinity(0, sizeof one, &one);
    for (long i = w; i < n; i += nw)
    {
        if (i > sh->stop_idx.load() || sh->stop.load()) break;
        if (now_s() > deadline) break;
        Gen g(case_seed(seed, i));
        CaseText t = build(g);
        pid_t p = start_case(r);
        bool err = false;
        bool bad = end_case(r, p, &err);
        if (err)
        {
            ++W.errors;
            continue;
        }
        ++W.evals;
        W.steps += r->steps;
        W.switches += r->switches;
        W.vtime += r->vtime - 1000000.0;
        for (int l = 0; l < r->nlabels; ++l)
        {
            int q = 0;
            while (q < W.nlabels && strcmp(W.labels[q], r->labels[l])) ++q;
            if (q == W.nlabels && q < 64) strcpy(W.labels[W.nlabels++], r->labels[l]);
            if (q < 64) ++W.lcount[q];
        }
        if (r->nontrivial)
        {
            ++W.nontriv;
            if (W.nhash < MAXH / 8) W.hashes[W.nhash++] = hstr(t.program) ^ r->obs;
            if (W.nsamples < 3 && (W.nontriv % 7) == 1)
                snprintf(W.samples[W.nsamples++], 3000, "case %ld: %s | %s", i, t.program.c_str(), t.config.c_str());
        }
        if (bad)
        {
            // only a failure that repeats counts
            std::string first = r->msg;
            int again = 0;
            for (int k = 0; k < 6 && again < 3; ++k)
            {
                pid_t q = start_case(r);
                if (end_case(r, q)) ++again;
            }
            if (again < 3)
            {
                ++W.flaky;
                snprintf(W.failmsg, sizeof W.failmsg, "%s", first.c_str());
                continue;
            }
            W.failed = 1;
            W.fail_idx = i;
            W.nfailchoices = (int)std::min<size_t>(t.choices.size(), 20000);
            memcpy(W.failchoices, t.choices.data(), W.nfailchoices * 4);
            snprintf(W.failmsg, sizeof W.failmsg, "%s", r->msg);
            long cur = sh->stop_idx.load();
            while (i < cur && !sh->stop_idx.compare_exchange_weak(cur, i)) {}
            break;
        }
    }
    _exit(0);
}

// run a set of candidate choice lists in parallel; returns index of the first that fails, or -1
struct Eval
{
    CaseText text;
    std::string msg, trace;
    bool bad;
};
static std::vector<Eval> eval_many(const std::vector<std::vector<uint32_t> > &cands)
{
    static std::vector<Result *> rs;
    while (rs.size() < cands.size()) rs.push_back((Result *)::mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<Eval> out(cands.size());
    std::vector<pid_t> ps(cands.size());
    cpu_set_t all;
    sched_getaffinity(0, sizeof all, &all);
    for (size_t i = 0; i < cands.size(); ++i)
    {
        Gen g(cands[i]);
        out[i].text = build(g);
        int k = (int)i % CPU_COUNT(&all);
        for (int c = 0; c < CPU_SETSIZE; ++c)
            if (CPU_ISSET(c, &all) && k-- == 0)
            {
                cpu_set_t one;
                CPU_ZERO(&one);
                CPU_SET(c, &one);
                sched_setaffinity(0, sizeof one, &one);
                break;
            }
        ps[i] = start_case(rs[i]);
        sched_setaffinity(0, sizeof all, &all);
    }
    for (size_t i = 0; i < cands.size(); ++i)
    {
        out[i].bad = end_case(rs[i], ps[i]);
        out[i].msg = rs[i]->msg;
        out[i].trace.assign(rs[i]->trace, rs[i]->trace_len);
    }
    return out;
}

// shrinking keeps the class of the failure (hang, crash, heap error or failed check)
static std::string failure_kind(const std::string &msg)
{
    size_t c = msg.find(':');
    return c != std::string::npos && c <= 6 ? msg.substr(0, c) : "check";
}

static std::vector<uint32_t> shrink(std::vector<uint32_t> best, double budget_s, long &tries, const std::string &kind)
{
    double end = now_s() + budget_s;
    uint64_t rs = 12345;
    auto better = [](const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return std::lexicographical_compare(a.begin() + 1, a.end(), b.begin() + 1, b.end());
    };
    auto attempt = [&](const std::vector<std::vector<uint32_t> > &in) -> bool {
        // each candidate is tried with the current schedule seed and with fresh ones
        std::vector<std::vector<uint32_t> > c;
        for (auto &x : in)
        {
            if (x.empty()) continue;
            c.push_back(x);
            for (int k = 0; k < 3; ++k)
            {
                auto y = x;
                y[0] = (uint32_t)(sm64(rs) >> 20) & 0x3fffffff;
                c.push_back(y);
            }
        }
        bool any = false;
        for (size_t o = 0; o < c.size() && !any; o += 16)
        {
            std::vector<std::vector<uint32_t> > b(c.begin() + o, c.begin() + std::min(c.size(), o + 16));
            tries += (long)b.size();
            auto ev = eval_many(b);
            for (auto &e : ev)
                if (e.bad && failure_kind(e.msg) == kind && better(e.text.choices, best))
                {
                    best = e.text.choices;
                    any = true;
                }
        }
        return any;
    };
    bool progress = true;
    while (progress && now_s() < end)
    {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && now_s() < end; len = len / 2)
        {
            for (size_t at = best.size(); at > 1 && now_s() < end;)
            {
                std::vector<std::vector<uint32_t> > c;
                for (int k = 0; k < 4 && at > 1; ++k)
                {
                    at = at > len ? at - len : 1;
                    if (at < 1) at = 1;
                    if (at >= best.size()) continue;
                    auto x = best;
                    x.erase(x.begin() + at, x.begin() + std::min(x.size(), at + len));
                    c.push_back(x);
                    if (at == 1) break;
                }
                if (attempt(c)) progress = true;
                if (at <= 1) break;
            }
            if (len == 1) break;
        }
        for (size_t at = 1; at < best.size() && now_s() < end; at += 4)
        {
            std::vector<std::vector<uint32_t> > c;
            for (size_t k = at; k < at + 4 && k < best.size(); ++k)
                if (best[k] > 0)
                {
                    auto x = best;
                    x[k] = 0;
                    c.push_back(x);
                    if (best[k] > 1)
                    {
                        x[k] = best[k] / 2;
                        c.push_back(x);
                        x[k] = best[k] - 1;
                        c.push_back(x);
                    }
                }
            if (!c.empty() && attempt(c)) progress = true;
        }
    }
    return best;
}

int main(int argc, char **argv)
{
    // fixed addresses: containers ordered by pointer behave identically in every run
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("PBT_REEXEC"))
    {
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1)
        {
            setenv("PBT_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    arena_init();
    std::string mode = argc > 1 ? argv[1] : "run";
    if (mode == "replay" || mode == "debug")
    {
        // replay FILE: the choices are the line starting with "choices:"
        std::ifstream f(argc > 2 ? argv[2] : "");
        std::string line;
        std::vector<uint32_t> ch;
        while (std::getline(f, line))
            if (line.rfind("choices:", 0) == 0)
            {
                std::istringstream is(line.substr(8));
                uint32_t x;
                while (is >> x) ch.push_back(x);
            }
        if (mode == "debug")
        {
            debug_child = true;
            Gen g(ch);
            auto t = build(g);
            printf("%s\n%s\n", t.program.c_str(), t.config.c_str());
            Result *r = (Result *)::mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            r->obs = 1469598103934665603ULL;
            res = r;
            child_main();
        }
        auto ev = eval_many({ch});
        printf("program: %s\n%s\nresult: %s\n", ev[0].text.program.c_str(), ev[0].text.config.c_str(), ev[0].bad ? ev[0].msg.c_str() : "property held");
        if (ev[0].bad) printf("trace:\n%s", ev[0].trace.c_str());
        return ev[0].bad ? 1 : 0;
    }
    if (mode == "one")
    {
        // one SEED IDX: run a single generated case
        Gen g(case_seed(strtoull(argv[2], nullptr, 10), atol(argv[3])));
        auto t = build(g);
        auto ev = eval_many({t.choices});
        printf("program: %s\n%s\nresult: %s\n", ev[0].text.program.c_str(), ev[0].text.config.c_str(), ev[0].bad ? ev[0].msg.c_str() : "property held");
        printf("trace:\n%s", ev[0].trace.c_str());
        return ev[0].bad ? 1 : 0;
    }
    if (mode != "run" || argc < 7)
    {
        fprintf(stderr, "usage: %s run SEED CASES MAXSECONDS STATS.json REPLAY.txt | replay FILE | debug FILE | one SEED IDX\n", argv[0]);
        return 2;
    }
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    long n = !strcmp(argv[3], "quick") ? property.quick_cases : !strcmp(argv[3], "thorough") ? property.thorough_cases : atol(argv[3]);
    double maxs = atof(argv[4]);
    double t0 = now_s();
    sh = (Shared *)::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sh->stop_idx = 1L << 60;
    cpu_set_t all;
    sched_getaffinity(0, sizeof all, &all);
    int nw = std::max(1, std::min(MAXW, CPU_COUNT(&all)));
    if (getenv("PBT_WORKERS")) nw = atoi(getenv("PBT_WORKERS"));
    long start = 0;
    (void)start;
    std::vector<pid_t> ws;
    for (int w = 0; w < nw; ++w)
    {
        pid_t p = fork();
        if (p == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            worker_main(w, nw, seed, n, t0 + maxs);
        }
        ws.push_back(p);
    }
    for (pid_t p : ws)
    {
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        {
            fprintf(stderr, "worker ended abnormally: %d\n", st);
            return 3;
        }
    }
    // ---- statistics
    long evals = 0, nontriv = 0, steps = 0, switches = 0, errors = 0;
    double vtime = 0;
    int unconfirmed = 0;
    std::map<std::string, long> labels;
    std::unordered_set<uint64_t> dist;
    std::vector<std::string> samples;
    for (int w = 0; w < nw; ++w)
    {
        Worker &W = sh->w[w];
        evals += W.evals;
        nontriv += W.nontriv;
        steps += W.steps;
        switches += W.switches;
        errors += W.errors;
        unconfirmed += (int)W.flaky;
        if (W.flaky) fprintf(stderr, "unconfirmed: %s\n", W.failmsg);
        vtime += W.vtime;
        for (int l = 0; l < W.nlabels; ++l) labels[W.labels[l]] += W.lcount[l];
        for (long i = 0; i < W.nhash; ++i) dist.insert(W.hashes[i]);
    }
    for (int k = 0; k < 3; ++k)
        for (int w = 0; w < nw && samples.size() < 5; ++w)
            if (k < sh->w[w].nsamples) samples.push_back(sh->w[w].samples[k]);
    // ---- failures, lowest index first
    std::vector<Worker *> fails;
    for (int w = 0; w < nw; ++w)
        if (sh->w[w].failed) fails.push_back(&sh->w[w]);
    std::sort(fails.begin(), fails.end(), [](Worker *a, Worker *b) { return a->fail_idx < b->fail_idx; });
    bool violated = false;
    std::string fmsg;
    long tries = 0;
    for (Worker *W : fails)
    {
        std::vector<uint32_t> ch(W->failchoices, W->failchoices + W->nfailchoices);
        int bad = 0, runs = 0;
        std::string last;
        for (; runs < 9 && bad < 3; ++runs)
        {
            auto e = eval_many({ch})[0];
            if (e.bad)
            {
                ++bad;
                last = e.msg;
            }
        }
        if (bad < 3)
        {
            ++unconfirmed;
            fprintf(stderr, "unconfirmed failure (case %ld, %d/%d): %s\n", W->fail_idx, bad, runs, W->failmsg);
            continue;
        }
        auto small = getenv("PBT_NOSHRINK") ? ch : shrink(ch, 45, tries, failure_kind(last));
        int again = 0;
        Eval fin;
        for (int k = 0; k < 3; ++k)
        {
            auto e = eval_many({small})[0];
            if (e.bad)
            {
                ++again;
                fin = e;
            }
        }
        if (again < 3)
        {
            small = ch;
            fin = eval_many({small})[0];
            if (!fin.bad) fin = eval_many({small})[0];
        }
        violated = true;
        fmsg = fin.msg;
        std::ofstream f(argv[6]);
        f << "property: " << property.id << "\n";
        f << "found: seed=" << seed << " case=" << W->fail_idx << "; original failure: " << last << "\n";
        f << "shrunk from " << ch.size() << " to " << small.size() << " choices in " << tries << " executions\n";
        f << "failure: " << fin.msg << "\n";
        f << "program: " << fin.text.program << "\n";
        f << "config: " << fin.text.config << "\n";
        f << "choices:";
        for (auto c : small) f << ' ' << c;
        f << "\ntrace:\n" << fin.trace;
        break;
    }
    std::ofstream o(argv[5]);
    o << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"distinct\":" << dist.size() << ",\"sched_points\":" << steps
      << ",\"switches\":" << switches << ",\"virtual_seconds\":" << vtime << ",\"errors\":" << errors << ",\"planned\":" << n
      << ",\"unconfirmed\":" << unconfirmed << ",\"violated\":" << (violated ? "true" : "false") << ",\"message\":" << jstr(fmsg)
      << ",\"rule\":" << jstr(property.rule) << ",\"assumptions\":" << jstr(property.assumptions) << ",\"seconds\":" << now_s() - t0 << ",\"labels\":{";
    bool first = true;
    for (auto &[k, v] : labels)
    {
        o << (first ? "" : ",") << jstr(k) << ":" << v;
        first = false;
    }
    o << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << jstr(samples[i]);
    o << "]}\n";
    o.close();
    return violated ? 1 : 0;
}

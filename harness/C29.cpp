// C29: fatal signals: a complete report, and the process ends with a status that tells the signal.
#include "common.h"
#include "cocpp/exception/co_exception.h"
#include <csignal>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>

namespace
{
enum { F_RAISE, F_FAULT, F_ABORT, F_TERMINATE };
enum { L_SLEEP, L_CV, L_PUSH, L_LOCK, L_YIELD, L_SLEEPS, L_SHORT, L_TIMER, L_COUNT };
const char *names[] = {"sleeps", "waits for a cv", "pushes", "waits for a mutex", "yields", "sleeps often", "finishes", "timer"};
struct Other
{
    Place place;
    int what;
    int n;
    int priority;
};
struct Program
{
    std::vector<Other> others;
    bool wait;
    Work before;
    int pipes; // SIGPIPE before
    Place place;
    bool in_main;
    int how;
    int sig;
} P;

void generate(Gen &g)
{
    P = Program();
    while (g.more(P.others.size(), 0, 5, 3)) P.others.push_back({gen_place(g, false, true, false), g.range(0, L_COUNT - 1), g.pick({1, 3, 10}), g.chance(70) ? 99 : g.pick({0, 50, 98})});
    for (auto &o : P.others)
        if (o.what == L_YIELD) o.priority = 99; // or it would keep the others from running
    P.wait = g.chance(60);
    P.before = gen_work(g);
    P.pipes = g.chance(20) ? g.range(1, 2) : 0;
    P.place = gen_place(g, true, true, false);
    P.in_main = g.chance(25);
    P.how = g.weighted({6, 3, 1, 1});
    P.sig = g.pick({SIGTERM, SIGINT, SIGHUP, SIGQUIT, SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGSYS, SIGXCPU, SIGXFSZ});
    if (P.how == F_FAULT) P.sig = g.pick({SIGSEGV, SIGILL, SIGFPE});
    if (P.how >= F_ABORT) P.sig = SIGABRT;
    if (P.how == F_TERMINATE)
    {
        P.in_main = false;
        P.place.kind = K_THREAD;
    }
}
std::string render()
{
    const char *hows[] = {"raise", "fault", "abort", "uncaught exception"};
    std::string s;
    for (auto &l : P.others) s += "{" + render_place(l.place) + ": " + names[l.what] + strf(" %d%s} ", l.n, l.priority < 99 ? strf(" priority %d", l.priority).c_str() : "");
    s += (P.wait ? "wait " : "") + render_work(P.before);
    return s + "{" + (P.in_main ? "main" : render_place(P.place)) + ": " + (P.pipes ? strf("SIGPIPE*%d ", P.pipes) : "") + strf("%s %d}", hows[P.how], P.sig);
}

int fd;
FILE *out;
std::atomic<int> started {0};
std::atomic<bool> parked[8];

bool has_number(const std::string &line, int n)
{
    std::istringstream words(line);
    for (std::string w; words >> w;)
    {
        size_t at = w.find_first_of("0123456789");
        if (at != std::string::npos && atoi(w.c_str() + at) == n) return true;
    }
    return false;
}
void check()
{
    fflush(out);
    std::string r;
    char b[65536];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) r.append(b, (size_t)n);
    char exe[4096] = {};
    if (readlink("/proc/self/exe", exe, sizeof exe - 1) < 0) exe[0] = 0;
    bool signal = false, pid = false, program = exe[0] == 0;
    std::istringstream lines(r);
    for (std::string line; std::getline(lines, line);)
    {
        // not the lines of the memory map and the call stack
        if (line.find("r-xp ") != std::string::npos || line.find("r--p ") != std::string::npos || line.find("rw-p ") != std::string::npos || line.find(" [0x") != std::string::npos) continue;
        if (line.find("signal") != std::string::npos && has_number(line, P.sig)) signal = true;
        if (line.find("pid") != std::string::npos && has_number(line, ::getpid())) pid = true;
        if (line.find(exe) != std::string::npos) program = true;
    }
    CHECK(signal, "the report does not name signal %d", P.sig);
    CHECK(pid, "the report does not name the process");
    CHECK(program, "the report does not name the program");
    CHECK(r.find("[stack]") != std::string::npos && r.find("libc.so") != std::string::npos, "the report has no memory map");
    for (size_t i = 0; i < P.others.size(); ++i)
        if (parked[i]) CHECK(r.find(strf("other-%zu", i)) != std::string::npos, "the report does not list coroutine %zu, which is waiting", i);
    size_t frames = 0;
    for (size_t at = 0; (at = r.find(") [0x", at)) != std::string::npos; ++at) ++frames;
    CHECK(frames >= 3, "the report has no call stack");
}

void die()
{
    for (int i = 0; i < P.pipes; ++i)
    {
        int p[2];
        CHECK(pipe(p) == 0, "pipe");
        close(p[0]);
        CHECK(write(p[1], "x", 1) == -1 && errno == EPIPE, "no EPIPE");
        close(p[1]);
        label("SIGPIPE");
    }
    expect_end((128 - P.sig) & 255, check);
    note("signal");
    switch (P.how)
    {
    case F_RAISE: raise(P.sig); break;
    case F_ABORT: abort();
    case F_TERMINATE: throw 1;
    default:
        if (P.sig == SIGSEGV) __asm__ volatile("movl $1, (%0)" ::"r"(0L) : "memory");
        if (P.sig == SIGILL) __asm__ volatile("ud2");
        if (P.sig == SIGFPE) __asm__ volatile("xorl %%edx, %%edx; movl $5, %%eax; divl %%edx" ::: "eax", "edx");
    }
    fail("the program goes on after signal %d", P.sig);
}

void run()
{
    fd = memfd_create("report", 0);
    out = fdopen(fd, "w+");
    set_exec_file(out);
    auto &m = *new co_mutex;
    auto &cv = *new co_condition_variable;
    auto &locked = *new co_mutex;
    locked.lock();
    auto &a = *new Actors;
    auto &never = *new co_chan<int>(0);
    auto &cos = *new std::vector<co>;
    cos.reserve(8);
    int expected = 0;
    for (size_t i = 0; i < P.others.size(); ++i)
    {
        auto &l = P.others[i];
        int n = l.n;
        auto ms = std::chrono::milliseconds(n);
        label(names[l.what]);
        if (l.what == L_TIMER)
        {
            auto &t = *new std::shared_ptr<co_timer>(co_timer::create([] {}, co_expire_type::loop, n));
            t->start();
            continue;
        }
        ++expected;
        bool bound = l.place.kind == K_BOUND || l.place.kind == K_SHARED_BOUND;
        bool shared = l.place.kind == K_SHARED || l.place.kind == K_SHARED_BOUND;
        cos.emplace_back(std::initializer_list<std::function<void(co_ctx_config &)> > {with_name(strf("other-%zu", i)), with_bind_env(bound ? a.env(l.place.env) : nullptr), with_shared_stack(shared), with_priority((size_t)l.priority)},
                         [&, i, what = l.what, n, ms] {
                             parked[i] = what != L_SHORT;
                             ++started;
                             switch (what)
                             {
                             case L_SLEEP: this_co::sleep_for(100s); break;
                             case L_CV:
                             {
                                 std::unique_lock<co_mutex> l(m);
                                 cv.wait(l);
                                 break;
                             }
                             case L_PUSH: never.push(1); break;
                             case L_LOCK: locked.lock(); break;
                             case L_YIELD:
                                 for (;;) this_co::yield();
                             case L_SLEEPS:
                                 for (;;) this_co::sleep_for(ms);
                             default:
                                 for (int k = 0; k < n; ++k) this_co::yield();
                             }
                         });
    }
    for (int i = 0; P.wait && i < 20 && started < expected; ++i) std::this_thread::sleep_for(1ms);
    if (P.before.kind == W_SLEEP) P.before.kind = W_LONG;
    do_work(P.before);
    if (started > 0) nontrivial();
    vs_progress();
    if (P.in_main)
        die();
    else
    {
        a.spawn(P.place, die);
        std::this_thread::sleep_for(1000s);
    }
}
void tune(Gen &, CaseConfig &c)
{
    if (c.tick_ms > 20) c.tick_ms = 20;
}
}

const Property property = {
    "C29",
    "a thread or coroutine raises a signal, faults, aborts or ends with an uncaught exception while 0-5 others and timers run or wait; non-trivial = at least one "
    "of the others had started",
    generate, render, run, tune, 60000, 600000, true,
    "one fatal signal per program, raised in the program's own code; the register values of the report are not checked", true};

// vsched: a deterministic user-space scheduler for the threads of one test case.
//
// The harness executable defines the pthread / clock / sleep entry points that the code under
// test (and libstdc++) call.  Between vs_start() and the end of the process exactly one thread
// runs at a time; which one is decided by a seeded generator at every synchronisation operation,
// atomic operation, clock read and (through -fsanitize=thread instrumentation, served by this
// runtime, not by libtsan) at plain memory accesses.  Time is virtual: it advances by a fixed cost
// per step and jumps to the next deadline when nothing can run.  A run is therefore a pure function
// of the program, the configuration below and the code under test.
#pragma once
#include <cstdint>
#include <cstddef>

enum vs_policy { VS_RANDOM = 0, VS_RR = 1, VS_PCT = 2, VS_STARVE = 3 };

struct vs_config
{
    uint64_t seed = 1;
    int policy = VS_RANDOM;
    int burst = 5;          // mean number of sync points between scheduling decisions
    int mem_burst = 0;      // mean number of plain memory accesses between decisions (0: never)
    int pct_depth = 3;      // number of priority change points
    int now_cost_ns = 50000;// virtual cost of reading the clock
    int step_cost_ns = 300; // virtual cost of a sync point
    int jump_pm = 0;        // per-mille chance of a virtual time jump at a decision
    int jump_max_us = 0;    // size of such a jump
    int spurious = 0;       // at most so many waits for condition variables end without a notification
    long max_steps = 3000000;     // sync points without progress => hang
    double max_virtual_s = 120;   // virtual seconds without progress => hang
};

extern "C" {
void vs_start(const vs_config *cfg); // the calling thread becomes thread 0
bool vs_active();
void vs_point();                     // explicit scheduling point
void vs_progress();                  // the case made progress (resets the hang limits)
int64_t vs_now_ns();                 // virtual time, without a scheduling point
void vs_spend(int64_t ns);           // lets virtual time pass, without a scheduling point
uint64_t vs_trace_hash();            // hash of all scheduling decisions so far
long vs_steps();
long vs_switches();
int vs_self();                       // id of the running controlled thread
bool vs_take_pending_preempt();      // a forced-scheduling request is pending for this thread
long vs_preempt_requests();
void vs_deliver_preempt(bool on);    // if on, vs_busy_point raises the pending signal
void vs_deliver_anywhere(bool on);   // if on, every point raises the pending signal
void vs_interrupt_blocked(bool on);  // if on, the signal also ends sleeps and waits for condition variables
long vs_preempts_raised();
void vs_busy_point();                // scheduling point inside CPU-bound user code
void vs_pause(bool on);              // on: no scheduling decisions are taken (baton kept)
int vs_thread_count();               // number of live controlled threads
int vs_stacks_live();                // live private anonymous mappings made while active
size_t vs_bytes_live();
}
void vs_dump(char *buf, size_t n);
void vs_backtraces(); // debugging aid: print a backtrace of every live thread
// called on a hang / deadlock; must not return
extern void (*vs_on_hang)(const char *why);

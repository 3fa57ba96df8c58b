// Small property-based testing engine: choice-sequence generation, fork-per-case execution under
// vsched, classification, shrinking and replay.
#pragma once
#include "vsched.h"
#include <cstdarg>
#include <cstdint>
#include <string>
#include <vector>

// Every random decision of a case is one element of a choice sequence.  Smaller choices mean
// simpler cases, so deleting / zeroing / lowering elements shrinks the case.
class Gen
{
    std::vector<uint32_t> rec__;
    size_t pos__ = 0;
    bool replay__ = false;
    uint64_t s__ = 0;

public:
    explicit Gen(uint64_t seed)
        : s__(seed)
    {
    }
    explicit Gen(std::vector<uint32_t> choices)
        : rec__(std::move(choices))
        , replay__(true)
    {
    }
    uint32_t draw(uint32_t n); // uniform in [0,n)
    int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
    bool chance(int pct) { return (int)draw(100) >= 100 - pct; } // shrinks to false
    // true while another element should be generated (list idiom)
    bool more(size_t have, size_t lo, size_t hi, int avg)
    {
        if (have < lo) return true;
        if (have >= hi) return false;
        return (int)draw((uint32_t)avg + 1) != 0;
    }
    template <typename T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + draw((uint32_t)l.size()));
    }
    // weighted choice; index 0 should be the simplest
    int weighted(std::initializer_list<int> w)
    {
        int tot = 0;
        for (int x : w) tot += x;
        int d = (int)draw((uint32_t)tot), i = 0;
        for (int x : w)
        {
            if (d < x) return i;
            d -= x;
            ++i;
        }
        return 0;
    }
    const std::vector<uint32_t> &choices() const { return rec__; }
    size_t used() const { return pos__; }
};

struct CaseConfig
{
    vs_config vs;
    int alloc_mode = 0;  // 0: malloc with poison on free, 1: quarantine (freed blocks are never reused and must stay untouched)
    int base_envs = 4;   // base schedule thread count
    int max_envs = 128;
    int tick_ms = 10;    // monitor period
};

struct Property
{
    const char *id;
    const char *rule;                 // how cases are made, what is non-trivial
    void (*generate)(Gen &);          // builds the global program of this harness
    std::string (*render)();          // human readable program
    void (*run)();                    // runs in the child, on controlled thread 0
    void (*tune)(Gen &, CaseConfig &);// may adjust the configuration (may be null)
    long quick_cases;
    long thorough_cases;
    bool use_manager = true;
    const char *assumptions = "";
    bool library_signals = false;     // the library's signal handlers stay in place
};
extern const Property property;
extern CaseConfig case_config;

// ---- inside a case (child process)
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void label(const char *name);  // count the case in this class
void nontrivial();             // the case is non-trivial by the stated rule
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // event trace, kept for failing cases
void observe(uint64_t v);      // mixed into the identity of the observed history

#define CHECK(cond, ...)          \
    do                            \
    {                             \
        if (!(cond)) fail(__VA_ARGS__); \
    } while (0)

[[noreturn]] void end_program(int status); // calls exit; the case succeeds if the program ends with this status
void expect_end(int status, void (*check)() = nullptr); // from now on the program is to end with this status; check runs after that
long heap_live(); // bytes allocated with new and not deleted
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

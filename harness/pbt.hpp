// Small deterministic property-based testing engine with coverage feedback.
// A case is a sequence of recorded choices; see pbt.cpp for the driver.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace pbt {

// Allocations made while cases run, ever.
inline std::atomic<uint64_t> allocs_made{0}, bytes_made{0};

class T {
public:
    // --- choices -------------------------------------------------------
    // Uniform index in [0, n).
    size_t idx(size_t n) { return (size_t)draw(n, false); }
    // Integer in [lo, hi], biased to boundaries and to constants the code compares against.
    int64_t num(int64_t lo, int64_t hi) {
        return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo + 1, true, (uint64_t)lo));
    }
    uint64_t unum(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1, true, lo); }
    // Uniform integer in [lo, hi].
    int64_t uni(int64_t lo, int64_t hi) {
        return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo + 1, false));
    }
    // Full 64 bit value, biased.
    uint64_t u64();
    // True with probability pct/100; shrinks to false.
    bool chance(unsigned pct) { return draw(100, false) >= 100 - pct; }
    // Loop control: continue a sequence with this expected length. Shrinks to "stop".
    bool more(unsigned avg) { return draw(avg + 1, false) != 0; }
    // Skewed size in [0, max]: mostly small, sometimes up to max.
    size_t size(size_t max);
    // Index chosen with the given weights.
    size_t weighted(std::initializer_list<unsigned> w);
    template<typename A> A pick(std::initializer_list<A> l) { return *(l.begin() + idx(l.size())); }

    // --- outcome -------------------------------------------------------
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    bool tracing() const { return trace; }
    void label(const char *name); // name must be a literal
    void nontrivial() { interesting = true; }
    // Allocations made from here to the end are not counted as leaks.
    void ignore_leaks() { leak_check = false; }

    uint64_t draw(uint64_t n, bool biased, uint64_t base = 0);

    bool trace = false;
    bool interesting = false;
    bool leak_check = true;
};

using PropFn = void (*)(T &);

struct PropOpts {
    const char *rule = "";     // what makes a case non-trivial
    unsigned quick = 20000;    // number of cases, quick tier
    unsigned thorough = 0; // 0: 25 times quick
    double cpu_limit = 10.0;   // CPU seconds for one case before it counts as non-terminating
    unsigned replays = 3;      // replays needed (all failing) before a violation is reported
    bool leak_check = true;
    unsigned wall_limit = 300; // seconds without progress
    unsigned workers = 8;
    bool guided = true;        // coverage guided mutation for half of the cases
};

struct Registrar {
    Registrar(const char *id, const char *name, PropFn fn, PropOpts o);
};

// The environment (not the code under test) failed: the case is dropped.
[[noreturn]] void infra(const char *msg);

std::string show(const std::string &s);     // printable form of bytes
std::string show(const void *p, size_t n);

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#ifndef YEAR
#define YEAR 2026
#endif
#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define PROP(id, name, ...)                                                                        \
    static void PBT_CAT(prop_, __LINE__)(pbt::T & t);                                              \
    static pbt::Registrar PBT_CAT(reg_, __LINE__)(id, name "@" PBT_STR(YEAR),                      \
                                                  PBT_CAT(prop_, __LINE__),                        \
                                                  pbt::PropOpts{__VA_ARGS__});                     \
    static void PBT_CAT(prop_, __LINE__)(pbt::T & t)

#define CHECK(cond, ...)                                                                           \
    do {                                                                                           \
        if(!(cond))                                                                                \
            t.fail(__VA_ARGS__);                                                                   \
    } while(0)
#define CHECK_EQ(a, b, what)                                                                       \
    do {                                                                                           \
        const long long pbt_a = (long long)(a), pbt_b = (long long)(b);                            \
        if(pbt_a != pbt_b)                                                                         \
            t.fail("%s: got %lld, expected %lld", what, pbt_a, pbt_b);                             \
    } while(0)

// True if the callable throws anything.
template<typename F> bool rejects(F &&f) {
    try {
        f();
    } catch(...) {
        return true;
    }
    return false;
}

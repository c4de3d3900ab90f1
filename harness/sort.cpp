// C18-C22: sorting, selection, partitioning and rotation.
#include "pbt.hpp"
#include "ns.hpp"
#if YEAR == 2026
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_stablepartition.hpp>
#endif
#include <cmath>

using namespace pbt;

// An element that can only be default constructed and moved. Its own operators must not be used
// by an algorithm that was given an ordering.
struct Bare {
    int key = -1;
    int id = -1; // original position
    const Bare *self;
    int state = 0x600D;
    Bare() noexcept : self(this) { ++live_count; }
    Bare(int k, int i) noexcept : key(k), id(i), self(this) { ++live_count; }
    Bare(const Bare &) = delete;
    Bare &operator=(const Bare &) = delete;
    Bare(Bare &&o) noexcept : key(o.key), id(o.id), self(this) {
        o.check("move");
        o.key = -5;
        o.id = -5;
        ++live_count;
    }
    Bare &operator=(Bare &&o) noexcept {
        check("assignment");
        o.check("move");
        int k = o.key, i = o.id;
        if(this != &o)
            o.key = o.id = -5;
        key = k;
        id = i;
        return *this;
    }
    ~Bare() {
        check("destruction");
        state = 0xDEAD;
        --live_count;
    }
    void check(const char *what) const noexcept {
        if(state != 0x600D || self != this)
            cur_t->fail("%s of an object that is not alive", what);
    }
    [[noreturn]] static void own() {
        cur_t->fail("the algorithm compared elements with their own operators instead of the given ordering");
        abort();
    }
    bool operator==(const Bare &) const { own(); }
    bool operator!=(const Bare &) const { own(); }
    bool operator<(const Bare &) const { own(); }
    bool operator>(const Bare &) const { own(); }
    bool operator<=(const Bare &) const { own(); }
    bool operator>=(const Bare &) const { own(); }
};

// A strict weak ordering chosen by the case.
struct Order {
    int mode = 0; // 0 ascending 1 descending 2 by key modulo 3 4 by key/8 5 all equivalent
    int magnitude = 1;
    int rank(int k) const {
        switch(mode) {
        case 1: return -k;
        case 2: return k % 7;
        case 3: return k / 8;
        case 4: return 0;
        default: return k;
        }
    }
    int cmp(int a, int b) const {
        int ra = rank(a), rb = rank(b);
        return ra < rb ? -magnitude : ra > rb ? magnitude : 0;
    }
    int compare(const Bare &a, const Bare &b) const noexcept {
        a.check("comparison");
        b.check("comparison");
        if(a.id < 0 || b.id < 0)
            cur_t->fail("the ordering was asked about an element that was moved from or never given");
        return cmp(a.key, b.key);
    }
    bool equal(const Bare &a, const Bare &b) const noexcept { return compare(a, b) == 0; }
};

static const char *ORDER_NAMES[] = {"ascending", "descending", "modulo 7", "by eighths", "all equivalent"};

static Order gen_order(T &t) {
    Order o;
    o.mode = (int)t.weighted({8, 3, 3, 3, 1});
    o.magnitude = t.pick({1, 1, 7, INT_MAX});
    return o;
}

static bool large; // set by the properties on long sequences
static size_t gen_count(T &t) {
    if(large) {
        size_t p = (size_t)1 << t.uni(10, 16);
        return t.chance(50) ? (size_t)t.uni(1500, 70000) : p - 2 + t.idx(5);
    }
    switch(t.weighted({10, 10, 8, 8, 3, 1})) {
    case 0: return t.idx(6);
    case 1: return (size_t)t.num(0, 40);
    case 2: return (size_t)t.num(14, 70);
    case 3: return (size_t)t.num(60, 300);
    case 4: return (size_t)t.num(290, 1300);
    default: return (size_t)t.num(1000, 4000);
    }
}

// Sequences with structure. Large ones come from a seed so that the case stays short.
static std::vector<int> gen_keys(T &t, size_t n) {
    std::vector<int> v(n);
    int pattern = (int)t.idx(10);
    static const char *names[] = {"drawn", "random", "few distinct", "sorted", "reversed", "organ pipe",
                                  "nearly sorted", "all equal", "runs", "sawtooth"};
    if(pattern == 0 && n > 400)
        pattern = 1;
    uint64_t s = pattern == 0 || pattern == 3 || pattern == 4 || pattern == 5 || pattern == 7 ? 0 : t.draw(65536, false);
    auto rnd = [&](uint64_t m) {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return (z ^ (z >> 31)) % m;
    };
    const int N = (int)n;
    const int distinct = pattern == 2 ? (int)t.pick({2, 3, 5, 16}) : 1;
    const int period = pattern == 9 || pattern == 8 ? (int)t.pick({2, 3, 16, 31, 33, 64}) : 1;
    for(int i = 0; i < N; ++i) {
        switch(pattern) {
        case 0: v[i] = (int)t.idx(n < 4 ? 4 : 2 * n); break;
        case 1: v[i] = (int)rnd(4 * n + 1); break;
        case 2: v[i] = (int)rnd(distinct); break;
        case 3: v[i] = i; break;
        case 4: v[i] = N - i; break;
        case 5: v[i] = i < N / 2 ? i : N - i; break;
        case 6: v[i] = rnd(20) == 0 ? (int)rnd(n) : i; break;
        case 7: v[i] = 3; break;
        case 8: v[i] = (int)(i / period * 7919 % 1009) + i % period; break;
        case 9: v[i] = i % period; break;
        }
    }
    if(t.tracing()) {
        std::string d;
        for(size_t i = 0; i < n && i < 60; ++i)
            d += (i ? " " : "") + std::to_string(v[i]);
        t.note("%zu keys (%s): %s%s", n, names[pattern], d.c_str(), n > 60 ? " ..." : "");
    }
    t.label(names[pattern]);
    return v;
}

// The sequence under test sits between guard elements that must not change.
struct Arena {
    Arena(T &t_, const std::vector<int> &keys) : t(t_), n(keys.size()) {
        pre = t.chance(30) ? 1 + t.idx(3) : 0;
        post = t.chance(30) ? 1 + t.idx(3) : 0;
        // without guards the allocation is exact, so any overrun is a memory error
        mem = (Bare *)malloc((pre + n + post) * sizeof(Bare) + (pre + n + post == 0));
        for(size_t i = 0; i < pre; ++i)
            new(mem + i) Bare(1000000 - (int)i * 2000000, 5000000 + (int)i);
        for(size_t i = 0; i < n; ++i)
            new(mem + pre + i) Bare(keys[i], (int)i);
        for(size_t i = 0; i < post; ++i)
            new(mem + pre + n + i) Bare(-1000000 + (int)i * 2000000, 6000000 + (int)i);
    }
    ~Arena() {
        for(size_t i = 0; i < pre + n + post; ++i)
            mem[i].~Bare();
        free(mem);
    }
    Bare *begin() { return mem + pre; }
    Bare *end() { return mem + pre + n; }
    void check_guards() {
        for(size_t i = 0; i < pre; ++i)
            CHECK(mem[i].key == 1000000 - (int)i * 2000000 && mem[i].id == 5000000 + (int)i, "an element before the range was changed");
        for(size_t i = 0; i < post; ++i)
            CHECK(mem[pre + n + i].key == -1000000 + (int)i * 2000000 && mem[pre + n + i].id == 6000000 + (int)i,
                  "an element after the range was changed");
    }
    void check_permutation(const std::vector<int> &keys) {
        check_guards();
        std::vector<char> seen(n);
        for(size_t i = 0; i < n; ++i) {
            const Bare &b = begin()[i];
            CHECK(b.id >= 0 && b.id < (int)n, "position %zu holds an element that is not one of the input (moved from or overwritten)", i);
            CHECK(!seen[b.id], "input element %d is there twice", b.id);
            seen[b.id] = 1;
            CHECK(b.key == keys[b.id], "the value of element %d was changed", b.id);
        }
    }
    void check_sorted(const Order &o, size_t upto) {
        for(size_t i = 1; i < upto; ++i)
            CHECK(o.cmp(begin()[i - 1].key, begin()[i].key) <= 0, "not sorted %s: key %d is before key %d (position %zu of %zu)",
                  ORDER_NAMES[o.mode], begin()[i - 1].key, begin()[i].key, i, n);
    }
    void check_stable(const Order &o) {
        for(size_t i = 1; i < n; ++i)
            CHECK(o.cmp(begin()[i - 1].key, begin()[i].key) != 0 || begin()[i - 1].id < begin()[i].id,
                  "equal elements changed order: input position %d is now before %d", begin()[i - 1].id, begin()[i].id);
    }
    T &t;
    size_t n, pre, post;
    Bare *mem;
};

#if YEAR == 2026
enum Algo { INSERTION, SHELL, HEAP, INTRO, MERGE, N_ALGO };
static const char *ALGO_NAMES[] = {"insertion_sort", "shell_sort", "heapsort", "introsort", "mergesort"};

template<typename It, typename C> static void run_sort(int algo, It b, It e, const C &c) {
    switch(algo) {
    case INSERTION: NS::insertion_sort(b, e, c); break;
    case SHELL: NS::shell_sort(b, e, c); break;
    case HEAP: NS::heapsort(b, e, c); break;
    case INTRO: NS::introsort(b, e, c); break;
    default: NS::mergesort(b, e, c); break;
    }
}
template<typename It> static void run_sort_default(int algo, It b, It e) {
    switch(algo) {
    case INSERTION: NS::insertion_sort(b, e); break;
    case SHELL: NS::shell_sort(b, e); break;
    case HEAP: NS::heapsort(b, e); break;
    case INTRO: NS::introsort(b, e); break;
    default: NS::mergesort(b, e); break;
    }
}

static void comparator_case(T &t) {
    Lifetimes lt(t);
    int algo = (int)t.idx(N_ALGO);
    size_t n = gen_count(t);
    if(algo == INSERTION)
        n %= 400;
    if(n > 1500)
        t.label("long");
    Order o = gen_order(t);
    t.note("%s, ordering: %s", ALGO_NAMES[algo], ORDER_NAMES[o.mode]);
    std::vector<int> keys = gen_keys(t, n);
    Arena a(t, keys);
    run_sort(algo, a.begin(), a.end(), o);
    a.check_permutation(keys);
    a.check_sorted(o, n);
    if(algo == MERGE || algo == INSERTION)
        t.label("stable algorithm");
    if(n >= 3)
        t.nontrivial();
}
PROP("C18", "comparator", .rule = "at least three elements", .quick = 200000) {
    large = false;
    comparator_case(t);
}
PROP("C18", "comparator_large", .rule = "at least three elements", .quick = 400, .cpu_limit = 30, .guided = false) {
    large = true;
    comparator_case(t);
}

// The adversary of McIlroy: an ordering that decides only when it has to, so that quicksorts meet
// their worst case and have to take the fallback paths.
struct Adversary {
    std::vector<int> &val;
    const int gas;
    int &nsolid, &candidate;
    int compare(const size_t &x, const size_t &y) const noexcept {
        if(val[x] == gas && val[y] == gas) {
            if((int)x == candidate)
                val[x] = nsolid++;
            else
                val[y] = nsolid++;
        }
        if(val[x] == gas)
            candidate = (int)x;
        else if(val[y] == gas)
            candidate = (int)y;
        return val[x] < val[y] ? -1 : val[x] > val[y];
    }
    bool equal(const size_t &x, const size_t &y) const noexcept { return compare(x, y) == 0; }
};

PROP("C18", "adversary", .rule = "every case", .quick = 300, .guided = false) {
    int algo = 1 + (int)t.idx(N_ALGO - 1);
    size_t n = (size_t)t.num(30, 1500);
    t.note("%s of %zu elements against the adversary", ALGO_NAMES[algo], n);
    std::vector<int> val(n, (int)n);
    int nsolid = 0, candidate = 0;
    Adversary adv{val, (int)n, nsolid, candidate};
    std::vector<size_t> v(n);
    for(size_t i = 0; i < n; ++i)
        v[i] = i;
    run_sort(algo, v.data(), v.data() + n, adv);
    std::vector<char> seen(n);
    for(size_t i = 0; i < n; ++i) {
        CHECK(v[i] < n && !seen[v[i]], "position %zu: element %zu lost or duplicated", i, v[i]);
        seen[v[i]] = 1;
        if(i)
            CHECK(val[v[i - 1]] <= val[v[i]], "not sorted at position %zu", i);
    }
    t.nontrivial();
}

template<typename X> struct Vals;
template<> struct Vals<NS::CString> {
    static NS::CString make(int k) {
        std::string s = std::to_string(k);
        return NS::CString(s.c_str());
    }
    static std::string key(const NS::CString &c) { return str(c); }
};
template<> struct Vals<Tracked> {
    static Tracked make(int k) { return Tracked(k); }
    static int key(const Tracked &c) { return c.get(); }
};
template<> struct Vals<int> {
    static int make(int k) { return k - 10; }
    static int key(const int &c) { return c; }
};
template<> struct Vals<unsigned char> {
    static unsigned char make(int k) { return (unsigned char)k; }
    static int key(const unsigned char &c) { return c; }
};
template<> struct Vals<int64_t> {
    static int64_t make(int k) { return k % 2 ? INT64_MAX - k : INT64_MIN + k; }
    static int64_t key(const int64_t &c) { return c; }
};

template<typename X> static void default_order(T &t, const char *type) {
    Lifetimes lt(t);
    int algo = (int)t.idx(N_ALGO);
    size_t n = gen_count(t);
    if(algo == INSERTION || !std::is_arithmetic_v<X>)
        n %= 400;
    bool span = t.chance(30) && algo != SHELL;
    t.note("%s of %s%s", ALGO_NAMES[algo], type, span ? " through a Span" : "");
    std::vector<int> keys = gen_keys(t, n);
    X *mem = (X *)malloc(n * sizeof(X) + (n == 0));
    std::vector<decltype(Vals<X>::key(*mem))> expected;
    for(size_t i = 0; i < n; ++i) {
        new(mem + i) X(Vals<X>::make(keys[i]));
        expected.push_back(Vals<X>::key(mem[i]));
    }
    std::sort(expected.begin(), expected.end());
    if(span) {
        NS::Span<X> s(mem, n);
        switch(algo) {
        case INSERTION: NS::insertion_sort(s); break;
        case HEAP: NS::heapsort(s); break;
        case INTRO: NS::introsort(s); break;
        default: NS::mergesort(s); break;
        }
    } else
        run_sort_default(algo, mem, mem + n);
    for(size_t i = 0; i < n; ++i)
        CHECK(Vals<X>::key(mem[i]) == expected[i], "position %zu of %zu does not hold the right element", i, n);
    for(size_t i = 0; i < n; ++i)
        mem[i].~X();
    free(mem);
    if(n >= 3)
        t.nontrivial();
}

static void default_order_case(T &t) {
    switch(t.idx(5)) {
    case 0: default_order<int>(t, "int"); break;
    case 1: default_order<NS::CString>(t, "CString"); break;
    case 2: default_order<Tracked>(t, "object"); break;
    case 3: default_order<int64_t>(t, "int64_t"); break;
    default: default_order<unsigned char>(t, "unsigned char"); break;
    }
}
PROP("C18", "default_order", .rule = "at least three elements", .quick = 200000) {
    large = false;
    default_order_case(t);
}
PROP("C18", "default_order_large", .rule = "at least three elements", .quick = 300, .cpu_limit = 30, .guided = false) {
    large = true;
    default_order_case(t);
}

template<typename F> static void floats(T &t) {
    int algo = (int)t.idx(N_ALGO);
    size_t n = (size_t)t.num(0, 300);
    std::vector<F> v;
    uint64_t s = t.draw(65536, false);
    const int kinds = (int)t.idx(3);
    for(size_t i = 0; i < n; ++i) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        unsigned k = (unsigned)(s >> 33);
        switch(k % 16) {
        case 0: v.push_back(kinds ? (F)NAN : 1); break;
        case 1: v.push_back((F)INFINITY); break;
        case 2: v.push_back((F)-INFINITY); break;
        case 3: v.push_back((F)0.0); break;
        case 4: v.push_back((F)-0.0); break;
        case 5: v.push_back(kinds == 2 ? -(F)NAN : 2); break;
        default: v.push_back((F)((int)(k >> 4) % 1000) / 8 - 50); break;
        }
    }
    t.note("%s of %zu floating point numbers", ALGO_NAMES[algo], n);
    std::vector<F> in = v;
    std::vector<F> exact(v); // exact allocation
    exact.shrink_to_fit();
    bool ignore_nan = kinds == 0 && t.chance(50);
    if(ignore_nan)
        run_sort(algo, exact.data(), exact.data() + n, NS::FloatIgnoreNanComparator<F>{});
    else
        run_sort(algo, exact.data(), exact.data() + n, NS::FloatTotalOrderComparator<F>{});
    auto key = [](F f) { return std::isnan(f) ? (F)INFINITY : f; };
    size_t nans = 0, nans_in = 0;
    for(auto f : in)
        nans_in += std::isnan(f);
    for(size_t i = 0; i < n; ++i) {
        nans += std::isnan(exact[i]);
        if(i)
            CHECK(key(exact[i - 1]) <= key(exact[i]) && (!std::isnan(exact[i - 1]) || std::isnan(exact[i])), "floats not sorted at %zu", i);
    }
    CHECK_EQ(nans, nans_in, "number of NaNs");
    auto bits = [](std::vector<F> x) {
        std::vector<std::string> r;
        for(F f : x)
            r.push_back(std::string((char *)&f, sizeof f));
        std::sort(r.begin(), r.end());
        return r;
    };
    CHECK(bits(in) == bits(exact), "the floats are not a permutation of the input");
    if(n >= 3)
        t.nontrivial();
}

PROP("C18", "floats", .rule = "at least three elements", .quick = 150000) {
    if(t.chance(50))
        floats<float>(t);
    else
        floats<double>(t);
}

// ---------------------------------------------------------------------------------------------
static void stable_case(T &t) {
    Lifetimes lt(t);
    bool merge = t.chance(80);
    size_t n = gen_count(t);
    if(!merge)
        n %= 300;
    Order o = gen_order(t);
    t.note("%s, ordering: %s", merge ? "mergesort" : "insertion_sort", ORDER_NAMES[o.mode]);
    std::vector<int> keys = gen_keys(t, n);
    Arena a(t, keys);
    if(!merge)
        NS::insertion_sort(a.begin(), a.end(), o);
    else if(t.chance(30))
        NS::mergesort(NS::Span<Bare>(a.begin(), n), o);
    else
        NS::mergesort(a.begin(), a.end(), o);
    a.check_permutation(keys);
    a.check_sorted(o, n);
    a.check_stable(o);
    std::set<int> ranks;
    for(int k : keys)
        ranks.insert(o.rank(k));
    if(n >= 3 && ranks.size() < n)
        t.nontrivial();
}
PROP("C19", "stable_sort", .rule = "at least three elements, two of them equivalent", .quick = 350000) {
    large = false;
    stable_case(t);
}
PROP("C19", "stable_sort_large", .rule = "at least three elements, two of them equivalent", .quick = 300, .cpu_limit = 30, .guided = false) {
    large = true;
    stable_case(t);
}

struct IntOrder {
    Order o;
    int compare(const int &a, const int &b) const noexcept { return o.cmp(a, b); }
    bool equal(const int &a, const int &b) const noexcept { return o.cmp(a, b) == 0; }
};

static void indirect_case(T &t) {
    size_t n = gen_count(t);
    IntOrder o{gen_order(t)};
    bool stable = t.chance(65), dflt = t.chance(20);
    if(dflt)
        o = IntOrder{};
    t.note("%s, ordering: %s", stable ? "indirect_stable_sort" : "indirect_sort", ORDER_NAMES[o.o.mode]);
    std::vector<int> keys = gen_keys(t, n);
    std::vector<int> in = keys;
    const int *b = keys.data(), *e = keys.data() + n;
    NS::Vector<size_t> idx = dflt ? (stable ? NS::indirect_stable_sort(b, e) : NS::indirect_sort(b, e))
                                  : (stable ? NS::indirect_stable_sort(b, e, o) : NS::indirect_sort(b, e, o));
    CHECK(keys == in, "the input was changed");
    CHECK_EQ(idx.size(), n, "number of indices");
    std::vector<char> seen(n);
    for(size_t i = 0; i < n; ++i) {
        size_t x = idx[i];
        CHECK(x < n && !seen[x], "index %zu is out of range or there twice", x);
        seen[x] = 1;
        if(i) {
            int c = o.o.cmp(keys[idx[i - 1]], keys[x]);
            CHECK(c <= 0, "the indices do not sort the input: %d before %d", keys[idx[i - 1]], keys[x]);
            CHECK(!stable || c != 0 || idx[i - 1] < x, "equal elements %zu and %zu changed order", idx[i - 1], x);
        }
    }
    if(n >= 3)
        t.nontrivial();
}
PROP("C19", "indirect", .rule = "at least three elements", .quick = 60000) {
    large = false;
    indirect_case(t);
}
PROP("C19", "indirect_large", .rule = "at least three elements", .quick = 200, .cpu_limit = 30, .guided = false) {
    large = true;
    indirect_case(t);
}

// Merging two sorted runs is stable, the left run first.
static void merge_case(T &t) {
    Lifetimes lt(t);
    Order o = gen_order(t);
    std::vector<int> l = gen_keys(t, large ? gen_count(t) : t.size(40)), r = gen_keys(t, large ? gen_count(t) : t.size(40));
    auto less = [&](int a, int b) { return o.cmp(a, b) < 0; };
    std::stable_sort(l.begin(), l.end(), less);
    std::stable_sort(r.begin(), r.end(), less);
    std::vector<int> all = l;
    all.insert(all.end(), r.begin(), r.end());
    Arena in(t, all);
    Arena out(t, all);
    NS::merge_pass(in.begin(), in.begin() + l.size(), in.begin() + l.size(), in.end(), out.begin(), o);
    out.check_permutation(all);
    out.check_sorted(o, all.size());
    out.check_stable(o);
    in.check_guards();
    if(l.size() >= 2 && r.size() >= 2)
        t.nontrivial();
}
PROP("C19", "merge", .rule = "both runs have two elements or more", .quick = 150000) {
    large = false;
    merge_case(t);
}
PROP("C19", "merge_large", .rule = "both runs have two elements or more", .quick = 200, .cpu_limit = 30, .guided = false) {
    large = true;
    merge_case(t);
}

// ---------------------------------------------------------------------------------------------
template<typename U> static void integers(T &t) {
    bool radix = t.chance(50);
    bool span = radix && t.chance(30);
    size_t n;
    bool huge = sizeof(U) == 2 && t.chance(1);
    if(huge)
        n = 66000 + t.idx(3000);
    else
        n = gen_count(t);
    uint64_t s = t.draw(65536, false);
    auto rnd = [&] {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    };
    int pattern = huge ? t.pick({2, 3, 7}) : (int)t.idx(9);
    U base = (U)t.u64(), mask = (U)t.u64();
    U few[4] = {(U)t.u64(), (U)t.u64(), (U)t.u64(), base};
    std::vector<U> v(n);
    for(size_t i = 0; i < n; ++i) {
        switch(pattern) {
        case 0: v[i] = n <= 400 ? (U)t.u64() : (U)rnd(); break;
        case 1: v[i] = (U)rnd(); break;
        case 2: v[i] = base; break;
        case 3: v[i] = few[rnd() % 4]; break;
        case 4: v[i] = (U)(base ^ ((U)rnd() & mask)); break;
        case 5: v[i] = (U)i; break;
        case 6: v[i] = (U)(n - i); break;
        case 7: v[i] = (U)(rnd() % 50 ? base : rnd()); break;
        default: v[i] = (U)((U)rnd() & mask); break;
        }
    }
    if(t.tracing()) {
        std::string d;
        for(size_t i = 0; i < n && i < 40; ++i)
            d += " " + std::to_string((uint64_t)v[i]);
        t.note("%s of %zu integers of %zu bits, pattern %d:%s", radix ? "radix_sort" : "bucketsort", n, sizeof(U) * 8, pattern, d.c_str());
    }
    std::vector<U> expected = v;
    std::sort(expected.begin(), expected.end());
    U *mem = (U *)malloc(n * sizeof(U) + (n == 0));
    std::copy(v.begin(), v.end(), mem);
    if(span)
        NS::radix_sort(NS::Span<U>(mem, n));
    else if(radix)
        NS::radix_sort(mem, mem + n);
    else
        NS::bucketsort(mem, mem + n);
    for(size_t i = 0; i < n; ++i)
        CHECK(mem[i] == expected[i], "position %zu of %zu: got %llu, expected %llu", i, n, (unsigned long long)mem[i], (unsigned long long)expected[i]);
    free(mem);
    t.label(radix ? "radix" : "bucket");
    if(n >= 3)
        t.nontrivial();
}

static void integers_case(T &t) {
    switch(t.idx(4)) {
    case 0: integers<uint8_t>(t); break;
    case 1: integers<uint16_t>(t); break;
    case 2: integers<uint32_t>(t); break;
    default: integers<uint64_t>(t); break;
    }
}
PROP("C20", "integers", .rule = "at least three elements", .quick = 450000, .cpu_limit = 20) {
    large = false;
    integers_case(t);
}
PROP("C20", "integers_large", .rule = "at least three elements", .quick = 600, .cpu_limit = 30, .guided = false) {
    large = true;
    integers_case(t);
}

// ---------------------------------------------------------------------------------------------
static void select_case(T &t) {
    Lifetimes lt(t);
    size_t n = gen_count(t);
    if(!large && n > 1500 && t.chance(70))
        n %= 500;
    Order o = gen_order(t);
    int what = (int)t.idx(4);
    static const char *names[] = {"nth_element", "nth_element (Span)", "nth_element_heap", "partial_sort"};
    std::vector<int> keys = gen_keys(t, n);
    Arena a(t, keys);
    if(n == 0 || t.chance(1)) { // out of bounds
        size_t bad = n + (size_t)t.num(0, 5);
        t.note("%s, n = %zu of %zu", names[what], bad, n);
        bool thrown = rejects([&] {
            switch(what) {
            case 0: NS::nth_element(a.begin(), a.end(), bad, o); break;
            case 1: NS::nth_element(NS::Span<Bare>(a.begin(), n), bad, o); break;
            case 2: NS::nth_element_heap(a.begin(), a.end(), bad, o); break;
            default: NS::partial_sort(a.begin(), a.end(), bad, o); break;
            }
        });
        CHECK(thrown, "%s accepted element %zu of %zu", names[what], bad, n);
        a.check_permutation(keys);
        return;
    }
    size_t nth = t.chance(20) ? n - 1 : t.idx(n);
    t.note("%s, n = %zu of %zu, ordering: %s", names[what], nth, n, ORDER_NAMES[o.mode]);
    size_t pos = 0;
    switch(what) {
    case 0: pos = NS::nth_element(a.begin(), a.end(), nth, o) - a.begin(); break;
    case 1: pos = NS::nth_element(NS::Span<Bare>(a.begin(), n), nth, o); break;
    case 2: pos = NS::nth_element_heap(a.begin(), a.end(), nth, o) - a.begin(); break;
    default: pos = NS::partial_sort(a.begin(), a.end(), nth, o) - a.begin(); break;
    }
    a.check_permutation(keys);
    CHECK_EQ(pos, nth, "position returned");
    std::vector<int> sorted = keys;
    std::sort(sorted.begin(), sorted.end(), [&](int x, int y) { return o.cmp(x, y) < 0; });
    int k = a.begin()[nth].key;
    CHECK(o.cmp(k, sorted[nth]) == 0, "position %zu holds %d, a sorted sequence has %d there", nth, k, sorted[nth]);
    for(size_t i = 0; i < nth; ++i)
        CHECK(o.cmp(a.begin()[i].key, k) <= 0, "an element before position %zu is greater", nth);
    for(size_t i = nth + 1; i < n; ++i)
        CHECK(o.cmp(a.begin()[i].key, k) >= 0, "an element after position %zu is smaller", nth);
    if(what == 3)
        a.check_sorted(o, nth + 1);
    if(n >= 3)
        t.nontrivial();
}
PROP("C21", "select", .rule = "at least three elements", .quick = 250000) {
    large = false;
    select_case(t);
}
PROP("C21", "select_large", .rule = "at least three elements", .quick = 400, .cpu_limit = 30, .guided = false) {
    large = true;
    select_case(t);
}

static void select_default_case(T &t) {
    size_t n = 1 + gen_count(t);
    std::vector<int> keys = gen_keys(t, n);
    std::vector<int> sorted = keys;
    std::sort(sorted.begin(), sorted.end());
    std::vector<int> v(keys);
    v.shrink_to_fit();
    size_t nth = t.chance(20) ? n - 1 : t.idx(n);
    int what = (int)t.idx(3);
    size_t pos = 0;
    int *b = v.data(), *e = v.data() + n;
    t.note("%s %zu of %zu", what == 0 ? "nth_element" : what == 1 ? "partial_sort" : "nth_element of a Span", nth, n);
    switch(what) {
    case 0: pos = NS::nth_element(b, e, nth) - b; break;
    case 1: pos = NS::partial_sort(b, e, nth) - b; break;
    default: pos = NS::nth_element(NS::Span<int>(b, n), nth); break;
    }
    CHECK_EQ(pos, nth, "position returned");
    CHECK(v[nth] == sorted[nth], "position %zu holds %d, a sorted sequence has %d there", nth, v[nth], sorted[nth]);
    for(size_t i = 0; i < nth; ++i)
        CHECK(v[i] <= v[nth], "a greater element is before position %zu", nth);
    for(size_t i = nth; i < n; ++i)
        CHECK(v[i] >= v[nth], "a smaller element is after position %zu", nth);
    if(what == 1)
        CHECK(std::is_sorted(v.begin(), v.begin() + nth + 1), "the front is not sorted");
    std::sort(v.begin(), v.end());
    CHECK(v == sorted, "the elements are not a permutation of the input");
    if(n >= 3)
        t.nontrivial();
}
PROP("C21", "select_default", .rule = "at least three elements", .quick = 250000) {
    large = false;
    select_default_case(t);
}
PROP("C21", "select_default_large", .rule = "at least three elements", .quick = 400, .cpu_limit = 30, .guided = false) {
    large = true;
    select_default_case(t);
}

// Elements of unusual sizes: the algorithms look at sizeof(element).
template<size_t N> struct Wide {
    int key = 0;
    char fill[N - sizeof(int)] = {};
    static Wide make(int k) {
        Wide w;
        w.key = k;
        for(size_t i = 0; i < sizeof(w.fill); ++i)
            w.fill[i] = (char)(k * 31 + (int)i);
        return w;
    }
    bool intact() const {
        for(size_t i = 0; i < sizeof(fill); ++i)
            if(fill[i] != (char)(key * 31 + (int)i))
                return false;
        return true;
    }
};
struct WideOrder {
    template<typename W> int compare(const W &a, const W &b) const { return a.key < b.key ? -1 : a.key > b.key; }
};
template<size_t N> static void wide_case(T &t, int what) {
    large = false;
    size_t n = 1 + gen_count(t);
    std::vector<int> keys = gen_keys(t, n);
    std::vector<Wide<N>> v;
    v.reserve(n);
    for(int k : keys)
        v.push_back(Wide<N>::make(k));
    v.shrink_to_fit();
    std::sort(keys.begin(), keys.end());
    size_t nth = t.idx(n);
    auto *b = v.data(), *e = v.data() + n;
    WideOrder o;
    static const char *names[] = {"nth_element", "partial_sort", "introsort", "heapsort", "shell_sort", "mergesort"};
    t.note("%s of %zu elements of %zu bytes, nth %zu", names[what], n, sizeof(Wide<N>), nth);
    switch(what) {
    case 0: CHECK_EQ(NS::nth_element(b, e, nth, o) - b, nth, "position returned"); break;
    case 1: CHECK_EQ(NS::partial_sort(b, e, nth, o) - b, nth, "position returned"); break;
    case 2: NS::introsort(b, e, o); break;
    case 3: NS::heapsort(b, e, o); break;
    case 4: NS::shell_sort(b, e, o); break;
    default: NS::mergesort(b, e, o); break;
    }
    for(auto &w : v)
        CHECK(w.intact(), "an element was torn");
    if(what < 2) {
        CHECK_EQ(v[nth].key, keys[nth], "key at the nth position");
        for(size_t i = 0; i < n; ++i)
            CHECK(i < nth ? v[i].key <= v[nth].key : v[i].key >= v[nth].key, "position %zu is on the wrong side of the nth element", i);
    }
    if(what > 1)
        for(size_t i = 0; i < n; ++i)
            CHECK_EQ(v[i].key, keys[i], "key after sorting");
    std::vector<int> got;
    for(auto &w : v)
        got.push_back(w.key);
    std::sort(got.begin(), got.end());
    CHECK(got == keys, "the elements are not a permutation of the input");
    if(n >= 3)
        t.nontrivial();
}
static void wide(T &t, int what) {
    switch(t.idx(5)) {
    case 0: wide_case<5 * 4>(t, what); break;
    case 1: wide_case<64>(t, what); break;
    case 2: wide_case<80>(t, what); break;
    case 3: wide_case<136>(t, what); break;
    default: wide_case<8>(t, what); break;
    }
}
PROP("C21", "wide_elements", .rule = "at least three elements", .quick = 60000) { wide(t, (int)t.idx(2)); }
PROP("C18", "wide_elements", .rule = "at least three elements", .quick = 60000) { wide(t, 2 + (int)t.idx(4)); }

static void min_max(T &t, size_t max_size) {
    Lifetimes lt(t);
    size_t n = max_size > 100 ? t.idx(max_size) : t.size(max_size);
    Order o = gen_order(t);
    std::vector<int> keys = gen_keys(t, n);
    Arena a(t, keys);
    auto *mn = NS::min_element(a.begin(), a.end(), o);
    auto *mx = NS::max_element(a.begin(), a.end(), o);
    a.check_permutation(keys);
    if(n == 0) {
        CHECK(mn == a.end() && mx == a.end(), "minimum or maximum of an empty range is not its end");
        return;
    }
    CHECK(mn >= a.begin() && mn < a.end() && mx >= a.begin() && mx < a.end(), "minimum or maximum outside of the range");
    for(size_t i = 0; i < n; ++i) {
        CHECK(o.cmp(a.begin()[i].key, mn->key) >= 0, "element %zu is smaller than the minimum", i);
        CHECK(o.cmp(a.begin()[i].key, mx->key) <= 0, "element %zu is greater than the maximum", i);
    }
    for(auto *p = a.begin(); p < mn; ++p)
        CHECK(o.cmp(p->key, mn->key) > 0, "element %zu is as small as the minimum found at %zu", (size_t)(p - a.begin()), (size_t)(mn - a.begin()));
    for(auto *p = a.begin(); p < mx; ++p)
        CHECK(o.cmp(p->key, mx->key) < 0, "element %zu is as great as the maximum found at %zu", (size_t)(p - a.begin()), (size_t)(mx - a.begin()));
    CHECK(NS::min_element(keys.data(), keys.data() + n) - keys.data() == std::min_element(keys.begin(), keys.end()) - keys.begin(),
          "min_element is not at the first smallest element");
    if(n >= 3)
        t.nontrivial();
}
#define MM_RULE .rule = "at least three elements"
PROP("C21", "min_max", MM_RULE, .quick = 200000) { min_max(t, 60); }
PROP("C21", "min_max.large", MM_RULE, .quick = 300, .guided = false) { min_max(t, 20000); }
PROP("C23", "min_max", MM_RULE, .quick = 200000) { min_max(t, 60); }
PROP("C23", "min_max.large", MM_RULE, .quick = 300, .guided = false) { min_max(t, 20000); }
#else
PROP("C18", "insertion_sort", .rule = "at least three elements", .quick = 250000) {
    Lifetimes lt(t);
    large = false;
    size_t n = gen_count(t) % 300;
    std::vector<int> keys = gen_keys(t, n);
    std::vector<int> sorted = keys;
    std::sort(sorted.begin(), sorted.end());
    Tracked *mem = (Tracked *)malloc(n * sizeof(Tracked) + (n == 0));
    for(size_t i = 0; i < n; ++i)
        new(mem + i) Tracked(keys[i]);
    if(t.chance(50))
        NS::insertion_sort(mem, mem + n);
    else
        NS::insertion_sort(NS::Span<Tracked>(mem, n));
    for(size_t i = 0; i < n; ++i)
        CHECK(mem[i].get() == sorted[i], "position %zu of %zu: got %d, expected %d", i, n, mem[i].get(), sorted[i]);
    for(size_t i = 0; i < n; ++i)
        mem[i].~Tracked();
    free(mem);
    if(n >= 3)
        t.nontrivial();
}

static void min_only(T &t, size_t max_size) {
    size_t n = t.size(max_size);
    std::vector<int> keys = gen_keys(t, n);
    keys.shrink_to_fit();
    auto *m = NS::min_element(keys.data(), keys.data() + n);
    CHECK(m - keys.data() == std::min_element(keys.begin(), keys.end()) - keys.begin(), "min_element is not the first smallest element");
    if(n >= 3)
        t.nontrivial();
}
PROP("C21", "min", .rule = "at least three elements", .quick = 250000) { min_only(t, 60); }
PROP("C23", "min", .rule = "at least three elements", .quick = 250000) { min_only(t, 60); }
#endif

// ---------------------------------------------------------------------------------------------
struct Pred {
    int mode;
    int limit;
    bool key(int k) const { return mode == 0 ? k < limit : mode == 1 ? k % 2 == 0 : mode == 2 ? k % 5 != 0 : mode == 3; }
    bool operator()(const Bare &b) const {
        b.check("predicate call");
        if(b.id < 0)
            cur_t->fail("the predicate was asked about an element that was moved from or never given");
        return key(b.key);
    }
};

static void partition_case(T &t) {
    Lifetimes lt(t);
    size_t n = large ? gen_count(t) : t.chance(90) ? t.size(60) : gen_count(t) % 700;
    std::vector<int> keys = gen_keys(t, n);
    Pred p{(int)t.weighted({6, 3, 3, 1, 1}), (int)t.num(0, 2 * (int64_t)n + 2)};
    bool stable = YEAR == 2026 && t.chance(60) && n < 8000;
    bool span = t.chance(30);
    t.note("%s%s", stable ? "stable_partition" : "partition", span ? " of a Span" : "");
    Arena a(t, keys);
    size_t boundary;
#if YEAR == 2026
    if(stable && span)
        boundary = NS::stable_partition(NS::Span<Bare>(a.begin(), n), p);
    else if(stable)
        boundary = NS::stable_partition(a.begin(), a.end(), p) - a.begin();
    else if(span)
        boundary = NS::partition(NS::Span<Bare>(a.begin(), n), p);
    else
        boundary = NS::partition(a.begin(), a.end(), p) - a.begin();
#else
    boundary = NS::partition(a.begin(), a.end(), Pred(p)) - a.begin();
#endif
    a.check_permutation(keys);
    size_t yes = 0;
    for(int k : keys)
        yes += p.key(k);
    CHECK_EQ(boundary, yes, "boundary");
    for(size_t i = 0; i < n; ++i)
        CHECK(p.key(a.begin()[i].key) == (i < yes), "the element at position %zu is on the wrong side", i);
    if(stable)
        for(size_t i = 1; i < n; ++i)
            CHECK(i == yes || a.begin()[i - 1].id < a.begin()[i].id, "relative order changed at position %zu", i);
    if(n >= 3 && yes && yes < n)
        t.nontrivial();
}
PROP("C22", "partition", .rule = "at least three elements in two groups", .quick = 450000) {
    large = false;
    partition_case(t);
}
PROP("C22", "partition_large", .rule = "at least three elements in two groups", .quick = 400, .cpu_limit = 30, .guided = false) {
    large = true;
    partition_case(t);
}

#if YEAR == 2026
static void rotate_case(T &t) {
    Lifetimes lt(t);
    size_t n = large ? gen_count(t) : t.chance(90) ? t.size(60) : gen_count(t) % 700;
    std::vector<int> keys(n);
    for(size_t i = 0; i < n; ++i)
        keys[i] = (int)i;
    size_t m = t.idx(n + 1);
    int what = (int)t.weighted({6, 3, 2, 2});
    if(what == 2)
        m = n ? n - 1 : 0;
    if(what == 3)
        m = n ? 1 : 0;
    static const char *names[] = {"rotate", "rotate of a Span", "rotate_last_to_front", "rotate_first_to_back"};
    t.note("%s, %zu elements, middle %zu", names[what], n, m);
    Arena a(t, keys);
    size_t r = n - m;
    switch(what) {
    case 0: r = NS::rotate(a.begin(), a.begin() + m, a.end()) - a.begin(); break;
    case 1: r = NS::rotate(NS::Span<Bare>(a.begin(), n), m) - a.begin(); break;
    case 2: NS::rotate_last_to_front(a.begin(), a.end()); break;
    default: NS::rotate_first_to_back(a.begin(), a.end()); break;
    }
    a.check_permutation(keys);
    CHECK_EQ(r, n - m, "new position of the first element");
    for(size_t i = 0; i < n; ++i)
        CHECK(a.begin()[i].id == (int)((i + m) % n), "position %zu holds element %d instead of %d", i, a.begin()[i].id, (int)((i + m) % n));
    if(n >= 3 && m && m < n)
        t.nontrivial();
}
PROP("C22", "rotate", .rule = "at least three elements and two non-empty halves", .quick = 450000) {
    large = false;
    rotate_case(t);
}
PROP("C22", "rotate_large", .rule = "at least three elements and two non-empty halves", .quick = 400, .cpu_limit = 30, .guided = false) {
    large = true;
    rotate_case(t);
}

// Lopsided rotations of long ranges: the depth of the work must not grow with the length.
PROP("C22", "rotate_long", .rule = "both halves non-empty", .quick = 24) {
    size_t n = 100000 + t.idx(400000);
    size_t m = t.idx(20);
    if(t.idx(2))
        m = n - m;
    t.note("rotate of %zu ints, middle %zu", n, m);
    std::vector<int> v(n);
    for(size_t i = 0; i < n; ++i)
        v[i] = (int)i;
    size_t r = NS::rotate(v.data(), v.data() + m, v.data() + n) - v.data();
    CHECK_EQ(r, n - m, "new position of the first element");
    for(size_t i = 0; i < n; ++i)
        if(v[i] != (int)((i + m) % n))
            CHECK(false, "position %zu holds element %d", i, v[i]);
    if(m && m < n)
        t.nontrivial();
}
#endif

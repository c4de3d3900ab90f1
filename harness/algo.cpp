// C23: searching and small algorithms; C24: ranges and views; C25: float comparators; C26: formatting.
#include "pbt.hpp"
#include "ns.hpp"
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <deque>
#include <limits>

using namespace pbt;

// ---------------------------------------------------------------- C23

struct ByKey {
    int compare(const Tracked &e, int k) const { return e.get() < k ? -1 : e.get() > k; }
    int compare(const Tracked &a, const Tracked &b) const { return a.get() < b.get() ? -1 : a.get() > b.get(); }
};

static std::vector<int> gen_ints(T &t, size_t max) {
    size_t n = max > 1000 ? t.idx(max) : t.chance(95) ? t.size(12) : t.size(max);
    int span = t.pick({3, 10, 1000});
    std::vector<int> v(n);
    for(auto &x : v)
        x = t.chance(2) ? (int)t.num(INT_MIN, INT_MAX) : (int)t.uni(-span, span);
    return v;
}

template<typename E, typename F> static void search_case(T &t, F make_value, size_t max = 300) {
    std::vector<int> keys;
    if(max <= 1000)
        keys = gen_ints(t, max);
    else { // a piece repeated
        keys = gen_ints(t, 40);
        const size_t n = t.idx(max), unit = keys.size();
        for(size_t i = unit; unit && i < n; ++i)
            keys.push_back((int)std::clamp<int64_t>((int64_t)keys[i % unit] + (int64_t)(i * 40 / n), INT_MIN, INT_MAX));
    }
    bool sort_it = t.chance(60);
    if(sort_it)
        std::sort(keys.begin(), keys.end());
    size_t n = keys.size();
    int needle = n && t.chance(70) ? (int)std::clamp<int64_t>((int64_t)keys[t.idx(n)] + t.uni(-1, 1), INT_MIN, INT_MAX) : (int)t.num(INT_MIN, INT_MAX);
    std::string d;
    for(int k : keys)
        if(d.size() < 2000)
            d += std::to_string(k) + " ";
    t.note("sequence of %zu: %s", n, d.c_str());
    t.note("value: %d", needle);
    std::vector<E> v;
    v.reserve(n);
    for(int k : keys)
        v.push_back(EI<E>::make(k));
    v.shrink_to_fit();
    E *b = v.data(), *e = v.data() + n;
    const E value = make_value(needle);
    // find
    size_t want = std::find(keys.begin(), keys.end(), needle) - keys.begin();
    CHECK_EQ(NS::find(b, e, value) - b, want, "find");
    // find_if, find_if_not
    want = std::find_if(keys.begin(), keys.end(), [&](int k) { return k >= needle; }) - keys.begin();
    size_t calls = 0;
    auto pred = [&](const E &x) { ++calls; return EI<E>::get(x) >= needle; };
    CHECK_EQ(NS::find_if(b, e, [&](const E &x) { return EI<E>::get(x) >= needle; }) - b, want, "find_if");
    CHECK_EQ(NS::find_if(b, e, pred) - b, want, "find_if with a named predicate");
    want = std::find_if(keys.begin(), keys.end(), [&](int k) { return !(k >= needle); }) - keys.begin();
    CHECK_EQ(NS::find_if_not(b, e, [&](const E &x) { return EI<E>::get(x) >= needle; }) - b, want, "find_if_not");
    // sub-ranges
    if(n) {
        size_t lo = t.idx(n + 1), hi = lo + t.idx(n - lo + 1);
        want = std::find(keys.begin() + lo, keys.begin() + hi, needle) - keys.begin();
        CHECK_EQ(NS::find(b + lo, b + hi, value) - b, want, "find in a part");
        std::vector<int> part(keys.begin() + lo, keys.begin() + hi);
        if(std::is_sorted(part.begin(), part.end())) {
            want = lo + (std::lower_bound(part.begin(), part.end(), needle) - part.begin());
            CHECK_EQ(NS::lower_bound(b + lo, b + hi, value) - b, want, "lower_bound in a part");
        }
    }
#if YEAR == 2026
    if(std::is_sorted(keys.begin(), keys.end())) {
        want = std::lower_bound(keys.begin(), keys.end(), needle) - keys.begin();
        CHECK_EQ(NS::lower_bound(b, e, value) - b, want, "lower_bound");
    }
    NS::DefaultComparator<E> cmp;
    CHECK_EQ(NS::is_sorted(b, e, cmp), std::is_sorted(keys.begin(), keys.end()), "is_sorted");
    struct Rev {
        int compare(const E &x, const E &y) const { return NS::DefaultComparator<E>{}.compare(y, x); }
    };
    CHECK_EQ(NS::is_sorted(b, e, Rev{}), std::is_sorted(keys.begin(), keys.end(), std::greater<int>()), "is_sorted in reverse order");
    if(n >= 2) {
        NS::OnlyLessComparator<E> ol;
        int x = keys[0], y = keys[1];
        int want_sign = x < y ? -1 : x > y;
        auto sign = [](int c) { return c < 0 ? -1 : c > 0; };
        CHECK_EQ(sign(cmp.compare(b[0], b[1])), want_sign, "DefaultComparator");
        CHECK_EQ(sign(ol.compare(b[0], b[1])), want_sign, "OnlyLessComparator");
        CHECK_EQ(cmp.equal(b[0], b[1]), x == y, "DefaultComparator::equal");
        CHECK_EQ(ol.equal(b[0], b[1]), x == y, "OnlyLessComparator::equal");
    }
#else
    if(std::is_sorted(keys.begin(), keys.end())) {
        want = std::lower_bound(keys.begin(), keys.end(), needle) - keys.begin();
        CHECK_EQ(NS::lower_bound(b, e, value) - b, want, "lower_bound");
        CHECK_EQ(NS::lower_bound(b, e, needle, [](const E &x, int k) { return EI<E>::get(x) < k; }) - b, want, "lower_bound with an ordering");
    }
#endif
    for(size_t i = 0; i < n; ++i)
        CHECK_EQ(EI<E>::get(b[i]), keys[i], "element after searching");
    if(n >= 3)
        t.nontrivial();
}
PROP("C23", "search.int", .rule = "three or more elements", .quick = 400000) {
    search_case<int>(t, [](int k) { return k; });
}
PROP("C23", "search.large", .rule = "three or more elements", .quick = 2000, .cpu_limit = 60, .guided = false) {
    search_case<int>(t, [](int k) { return k; }, t.pick({1001u, 20000u, 200000u}));
}
#if YEAR == 2026
template<typename E> static void compare_case(T &t) {
    const size_t n = 2 + t.size(30);
    std::vector<E> v(n);
    for(auto &x : v)
        switch(t.idx(4)) {
        case 0: x = (E)t.uni(0, 3); break;
        case 1: x = (E)t.u64(); break;
        case 2: x = (E)(std::numeric_limits<E>::max() - (E)t.idx(2)); break;
        default: x = (E)(std::numeric_limits<E>::min() + (E)t.idx(2));
        }
    std::string d;
    for(auto x : v)
        d += std::to_string(x) + " ";
    t.note("%zu bytes, %s: %s", sizeof(E), std::is_signed_v<E> ? "signed" : "unsigned", d.c_str());
    NS::DefaultComparator<E> cmp;
    NS::OnlyLessComparator<E> ol;
    auto sign = [](int c) { return c < 0 ? -1 : c > 0; };
    for(size_t i = 0; i + 1 < n; ++i) {
        const E x = v[i], y = v[i + 1];
        const int want = x < y ? -1 : y < x;
        CHECK_EQ(sign(cmp.compare(x, y)), want, "DefaultComparator");
        CHECK_EQ(sign(ol.compare(x, y)), want, "OnlyLessComparator");
        CHECK(cmp.equal(x, y) == (x == y) && ol.equal(x, y) == (x == y), "equal");
    }
    E *b = v.data(), *e = b + n;
    CHECK_EQ(NS::min_element(b, e) - b, std::min_element(b, e) - b, "min_element");
    CHECK_EQ(NS::max_element(b, e, cmp) - b, std::max_element(b, e) - b, "max_element");
    CHECK_EQ(NS::is_sorted(b, e, cmp), std::is_sorted(b, e), "is_sorted");
    const E needle = v[t.idx(n)];
    CHECK_EQ(NS::find(b, e, needle) - b, std::find(b, e, needle) - b, "find");
    std::sort(b, e);
    CHECK(NS::is_sorted(b, e, cmp), "is_sorted of a sorted sequence");
    CHECK_EQ(NS::lower_bound(b, e, needle) - b, std::lower_bound(b, e, needle) - b, "lower_bound");
    t.nontrivial();
}
PROP("C23", "comparators", .rule = "every case", .quick = 100000) {
    switch(t.idx(8)) { // not signed char and char16_t, which the library does not count as integers
    case 1: return compare_case<uint8_t>(t);
    case 2: return compare_case<int16_t>(t);
    case 3: return compare_case<uint16_t>(t);
    case 4: return compare_case<int32_t>(t);
    case 5: return compare_case<uint32_t>(t);
    case 6: return compare_case<int64_t>(t);
    case 7: return compare_case<uint64_t>(t);
    default: return compare_case<char>(t);
    }
}
#endif
PROP("C23", "search.tracked", .rule = "three or more elements", .quick = 200000) {
    Lifetimes lt(t);
    search_case<Tracked>(t, [](int k) { return Tracked(k); });
}
#if YEAR == 2026
PROP("C23", "search.by_key", .rule = "three or more elements", .quick = 100000) {
    Lifetimes lt(t);
    std::vector<int> keys = gen_ints(t, 300);
    std::sort(keys.begin(), keys.end());
    int needle = keys.size() && t.chance(70) ? keys[t.idx(keys.size())] : (int)t.uni(-12, 12);
    std::vector<Tracked> v;
    v.reserve(keys.size());
    for(int k : keys)
        v.emplace_back(k);
    v.shrink_to_fit();
    auto r = NS::lower_bound(v.data(), v.data() + v.size(), needle, ByKey{});
    CHECK_EQ(r - v.data(), std::lower_bound(keys.begin(), keys.end(), needle) - keys.begin(), "lower_bound with a heterogeneous comparator");
    if(keys.size() >= 3)
        t.nontrivial();
}
#endif

template<typename A> static void swap_case(T &t, A x, A y, bool three) {
    A a = x, b = y;
    bool self = t.chance(20);
    if(self) {
#if YEAR == 2026
        if(three) {
            A tmp{};
            NS::swap(a, a, tmp);
        } else
#endif
            NS::swap(a, a);
        CHECK(a == x, "swapping a value with itself changed it");
    } else {
#if YEAR == 2026
        if(three) {
            A tmp{};
            NS::swap(a, b, tmp);
        } else
#endif
            NS::swap(a, b);
        CHECK(a == y && b == x, "swap did not exchange the values");
    }
}
PROP("C23", "swap", .rule = "every case", .quick = 100000) {
    t.nontrivial();
    bool three = t.idx(2);
    switch(t.idx(7)) {
    case 0: swap_case<int64_t>(t, (int64_t)t.u64(), (int64_t)t.u64(), three); break;
    case 1: swap_case<unsigned char>(t, (unsigned char)t.u64(), (unsigned char)t.u64(), three); break;
    case 2: swap_case<double>(t, (double)(int64_t)t.u64(), 1.0 / (1 + t.idx(1000)), three); break;
    case 3: {
        Lifetimes lt(t);
        swap_case<Tracked>(t, Tracked((int)t.idx(100)), Tracked((int)t.idx(100)), three);
        break;
    }
    case 4: {
        auto text = [&] { std::string s(t.size(40), (char)('a' + t.idx(26))); return NS::CString(s.c_str(), s.size()); };
        swap_case<NS::CString>(t, text(), text(), three);
        break;
    }
    case 5: {
        int x = (int)t.idx(100), y = (int)t.idx(100);
        swap_case<int *>(t, &x, &y, three);
        break;
    }
    default: {
        auto vec = [&] { NS::Vector<int> v; size_t n = t.size(20); for(size_t i = 0; i < n; ++i) v.push_back((int)t.idx(50)); return v; };
        auto a = vec(), b = vec();
        std::vector<int> ma(a.begin(), a.end()), mb(b.begin(), b.end());
        NS::swap(a, b);
        CHECK(std::vector<int>(a.begin(), a.end()) == mb && std::vector<int>(b.begin(), b.end()) == ma, "swap did not exchange the vectors");
    }
    }
}
PROP("C23", "clamp_int", .rule = "lower below upper", .quick = 200000) {
    int64_t lo = t.chance(30) ? (int64_t)t.u64() : t.uni(-20, 20), hi = t.chance(30) ? (int64_t)t.u64() : t.uni(-20, 20);
    if(lo > hi)
        std::swap(lo, hi);
    int64_t v = t.chance(30) ? (int64_t)t.u64() : t.uni(-30, 30);
    t.note("clamp(%lld, %lld, %lld)", (long long)v, (long long)lo, (long long)hi);
    CHECK_EQ(NS::clamp(v, lo, hi), std::clamp(v, lo, hi), "clamped value");
    CHECK_EQ(NS::maxval(v, hi), std::max(v, hi), "maxval");
    CHECK_EQ(NS::minval(v, hi), std::min(v, hi), "minval");
    size_t a = (size_t)t.u64(), b = (size_t)t.u64();
    CHECK_EQ(NS::maxval(a, b), std::max(a, b), "maxval of sizes");
    CHECK_EQ(NS::minval(a, b), std::min(a, b), "minval of sizes");
    if(lo < hi)
        t.nontrivial();
}
static double gen_double(T &t) {
    switch(t.weighted({4, 2, 2, 1})) {
    case 0: return (double)t.uni(-8, 8);
    case 1: return t.pick<double>({0.0, -0.0, INFINITY, -INFINITY, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, -5e-324, 0.1, 1e10});
    case 2: return (double)t.uni(-1000000, 1000000) / (double)(1 + t.idx(1000));
    default: {
        uint64_t u = t.u64();
        double d;
        memcpy(&d, &u, 8);
        return d;
    }
    }
}
PROP("C23", "clamp_double", .rule = "lower below upper, no NaN", .quick = 200000) {
    double lo = gen_double(t), hi = gen_double(t), v = gen_double(t);
    if(lo > hi)
        std::swap(lo, hi);
    t.note("clamp(%a, %a, %a)", v, lo, hi);
    double r = NS::clamp(v, lo, hi);
    if(std::isnan(v) || std::isnan(lo) || std::isnan(hi)) {
        CHECK(std::isnan(r), "clamping with a NaN gave %a", r);
        return;
    }
    double want = v < lo ? lo : v > hi ? hi : v;
    CHECK(r == want, "clamp gave %a, expected %a", r, want);
    if(lo < hi)
        t.nontrivial();
}

// ---------------------------------------------------------------- C24

struct Want {
    std::vector<int64_t> v;
    bool complete = false; // the progression ends within the limit
};
static Want progression(int64_t start, int64_t end, int64_t step, size_t limit) {
    Want w;
    __int128 x = start;
    while(step > 0 ? x < end : x > end) {
        if(w.v.size() >= limit)
            return w;
        w.v.push_back((int64_t)x);
        x += step;
    }
    w.complete = true;
    return w;
}
PROP("C24", "range", .rule = "at least two values", .quick = 400000) {
    NS::Range none;
    CHECK(!none.next() && !none.next(), "a default range yields something");
    int64_t start = 0, end, step = 1;
    int ctor = (int)t.weighted({1, 2, 6});
    static constexpr int64_t LO = INT64_MIN, HI = INT64_MAX;
    if(ctor == 0)
        end = t.chance(80) ? t.uni(-3, 60) : (int64_t)t.u64();
    else {
        start = t.chance(70) ? t.uni(-20, 20) : t.chance(50) ? (int64_t)t.u64() : t.pick({LO, LO + 1, HI, HI - 1, HI - 40, LO + 40});
        step = ctor == 1 ? 1 : t.chance(70) ? t.uni(-7, 7) : t.chance(50) ? (int64_t)t.u64() : t.pick({LO, HI, HI / 2, LO / 2, LO + 1});
        int64_t away = t.uni(-60, 60);
        __int128 e = (__int128)start + (t.chance(70) ? away : (__int128)step * t.uni(0, 9) + t.uni(-2, 2));
        end = e > HI ? HI : e < LO ? LO : (int64_t)e;
        if(t.chance(5))
            end = (int64_t)t.u64();
    }
    t.note("Range(%lld, %lld, %lld), form %d", (long long)start, (long long)end, (long long)step, ctor);
    auto make = [&] {
        switch(ctor) {
        case 0: return NS::Range(end);
        case 1: return NS::Range(start, end);
        default: return NS::Range(start, end, step);
        }
    };
    const size_t LIMIT = 80;
    if(step == 0) {
        CHECK(rejects([&] {
            auto r = make();
            for(size_t i = 0; i < LIMIT; ++i)
                if(!r.next())
                    throw 1;
        }), "a step of zero is neither rejected nor does the range end");
        return;
    }
    Want w = progression(start, end, step, LIMIT);
    auto r = make();
    if(t.chance(20)) {
        NS::Range r2(std::move(r));
        r = r2;
    }
    size_t n = 0;
    while(n < LIMIT) {
        auto o = r.next();
        if(!o)
            break;
        if(n < w.v.size())
            CHECK_EQ(*o, w.v[n], "value of the range");
        else
            t.fail("the range yields %lld after its %zu values", (long long)*o, w.v.size());
        ++n;
    }
    CHECK_EQ(n, w.v.size(), "number of values");
    if(w.complete)
        for(int i = 0; i < 3; ++i)
            CHECK(!r.next(), "a finished range yields another value");
    if(w.complete) {
        // The same through the two loop adapters.
        auto r2 = make();
        NS::LoopView view(r2);
        n = 0;
        for(auto &x : view) {
            CHECK(n < w.v.size(), "the loop view yields too many values");
            CHECK_EQ(x, w.v[n], "value of the loop view");
            ++n;
        }
        CHECK_EQ(n, w.v.size(), "number of values of the loop view");
        n = 0;
        for(auto &x : NS::Loopsume(make())) {
            CHECK(n < w.v.size(), "Loopsume yields too many values");
            CHECK_EQ(x, w.v[n], "value of Loopsume");
            ++n;
        }
        CHECK_EQ(n, w.v.size(), "number of values of Loopsume");
    }
    if(w.v.size() >= 2)
        t.nontrivial();
}
PROP("C24", "range.large", .rule = "more than 1000 values", .quick = 150, .guided = false) {
    const size_t n = t.idx(t.pick({5000u, 70000u, 300000u}));
    const int64_t step = t.pick<int64_t>({1, -1, 2, -3, 1000, -70000, 1LL << 33, -(1LL << 40)});
    const int64_t start = t.chance(50) ? t.uni(-1000, 1000) : (int64_t)t.u64() / 4;
    const int64_t last = start + (int64_t)n * step; // |n * step| < 2^60
    const int64_t end = last - (n && t.chance(50) ? (step > 0 ? 1 : -1) * (int64_t)(t.u64() % (uint64_t)(step > 0 ? step : -step)) : 0);
    t.note("Range(%lld, %lld, %lld), %zu values", (long long)start, (long long)end, (long long)step, n);
    NS::Range r(start, end, step);
    for(size_t i = 0; i < n; ++i) {
        auto o = r.next();
        CHECK(o, "the range ends after %zu of %zu values", i, n);
        CHECK_EQ(*o, start + (int64_t)i * step, "value of the range");
    }
    for(int i = 0; i < 3; ++i)
        CHECK(!r.next(), "the range yields more than %zu values", n);
    if(n > 1000)
        t.nontrivial();
}
template<typename E> struct Source { // a Python style iterator of owned values
    std::vector<int> left;
    size_t pos = 0;
    size_t *calls = nullptr;
    NS::Optional<E> next() {
        if(calls)
            ++*calls;
        if(pos >= left.size())
            return {};
        return NS::Optional<E>(EI<E>::make(left[pos++]));
    }
};
PROP("C24", "loop_adapters", .rule = "two or more elements", .quick = 150000) {
    Lifetimes lt(t);
    std::vector<int> v = gen_ints(t, 100);
    size_t stop = t.chance(70) ? v.size() : t.idx(v.size() + 1);
    size_t n = 0, calls = 0;
    auto body = [&](MoveOnly &x) {
        CHECK(n < v.size(), "too many elements");
        CHECK_EQ(x.get(), v[n], "element");
        if(t.chance(20)) {
            MoveOnly taken(std::move(x)); // consuming the element must not disturb the loop
            CHECK_EQ(taken.get(), v[n], "element moved out");
        }
        ++n;
    };
    Source<MoveOnly> s{v};
    s.calls = &calls;
    if(t.idx(2)) {
        t.note("LoopView over %zu elements, left after %zu", v.size(), stop);
        NS::LoopView view(s);
        for(auto &x : view) {
            if(n == stop)
                break;
            body(x);
        }
    } else {
        t.note("Loopsume of %zu elements, left after %zu", v.size(), stop);
        for(auto &x : NS::Loopsume<Source<MoveOnly>>(std::move(s))) {
            if(n == stop)
                break;
            body(x);
        }
    }
    CHECK_EQ(n, stop, "elements visited");
    CHECK_EQ(calls, std::min(stop, v.size()) + 1, "calls of next()");
    if(v.size() >= 2)
        t.nontrivial();
}
static void enumerate(T &t, size_t max_size) {
    Lifetimes lt(t);
    std::vector<int> m = gen_ints(t, 100);
    if(max_size) {
        size_t n = t.idx(max_size);
        while(m.size() < n)
            m.push_back((int)m.size());
    }
    NS::Vector<Tracked> v;
    for(int x : m)
        v.push_back(Tracked(x));
    NS::EnumerateView view(v);
    for(int round = 0; round < 2; ++round) {
        size_t n = 0;
        for(auto [i, value] : view) {
            CHECK(n < m.size(), "too many elements");
            CHECK_EQ(i, n, "index");
            CHECK_EQ(value.get(), m[n], "element");
            if(n < 200 && t.chance(40)) {
                int x = (int)t.idx(1000);
                value = Tracked(x);
                m[n] = x;
            }
            ++n;
        }
        CHECK_EQ(n, m.size(), "elements visited");
        CHECK_EQ(v.size(), m.size(), "size of the underlying vector");
        for(size_t k = 0; k < m.size(); ++k)
            CHECK_EQ(v[k].get(), m[k], "underlying element");
    }
    // over a plain Span
    std::vector<int> raw(m);
    NS::Span<int> sp(raw.data(), raw.size());
    size_t n = 0;
    for(auto [i, value] : NS::EnumerateView(sp)) {
        CHECK_EQ(i, n, "index");
        value = (int)(2 * n);
        ++n;
    }
    CHECK_EQ(n, raw.size(), "elements visited");
    for(size_t k = 0; k < raw.size(); ++k)
        CHECK_EQ(raw[k], 2 * k, "element written through the view");
    if(m.size() >= 2)
        t.nontrivial();
}
PROP("C24", "enumerate", .rule = "two or more elements", .quick = 150000) { enumerate(t, 0); }
PROP("C24", "enumerate.large", .rule = "two or more elements", .quick = 100, .guided = false) { enumerate(t, t.pick({1000u, 70000u, 200000u})); }

// ---------------------------------------------------------------- C25

#if YEAR == 2026
template<typename F, typename U> static F gen_float(T &t) {
    static const F inf = (F)INFINITY;
    switch(t.weighted({3, 3, 2, 2})) {
    case 0: return (F)t.uni(-5, 5);
    case 1: {
        U u = (U)t.u64(); // any bit pattern
        F f;
        memcpy(&f, &u, sizeof f);
        return f;
    }
    case 2: {
        static const F one[] = {(F)0.0, (F)-0.0, inf, -inf, (F)NAN, -(F)NAN, std::numeric_limits<F>::min(), std::numeric_limits<F>::denorm_min(),
                                -std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::max(), std::numeric_limits<F>::lowest(), (F)0.1, (F)-1.5};
        return one[t.idx(sizeof one / sizeof one[0])];
    }
    default: { // NaNs with payload
        U u = ~(U)0 >> t.idx(sizeof(U) * 8 - 1);
        u |= (U)t.idx(2) << (sizeof(U) * 8 - 1);
        F f;
        memcpy(&f, &u, sizeof f);
        return f;
    }
    }
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
template<typename F, typename U> static void order_case(T &t) {
    F a[3];
    a[0] = gen_float<F, U>(t);
    for(int i = 1; i < 3; ++i) {
        if(t.chance(25)) {
            U u;
            memcpy(&u, &a[i - 1], sizeof u);
            u += (U)t.uni(-1, 1);
            memcpy(&a[i], &u, sizeof u);
        } else
            a[i] = gen_float<F, U>(t);
    }
    t.note("values %a %a %a", (double)a[0], (double)a[1], (double)a[2]);
    NS::FloatTotalOrderComparator<F> c;
    NS::FloatIgnoreNanComparator<F> ig;
    int r[3][3];
    for(int i = 0; i < 3; ++i)
        for(int j = 0; j < 3; ++j) {
            r[i][j] = sgn(c.compare(a[i], a[j]));
            CHECK_EQ(sgn(NS::total_order_compare(a[i], a[j])), r[i][j], "total_order_compare");
            CHECK_EQ(c.equal(a[i], a[j]), r[i][j] == 0, "equality against comparison");
            CHECK_EQ(NS::total_order_equal(a[i], a[j]), r[i][j] == 0, "total_order_equal");
            if(!std::isnan(a[i]) && !std::isnan(a[j])) {
                int want = a[i] < a[j] ? -1 : a[i] > a[j];
                CHECK_EQ(r[i][j], want, "total order of ordinary numbers");
                CHECK_EQ(sgn(ig.compare(a[i], a[j])), want, "NaN-ignoring comparison");
                CHECK_EQ(ig.equal(a[i], a[j]), a[i] == a[j], "NaN-ignoring equality");
            }
        }
    for(int i = 0; i < 3; ++i) {
        CHECK_EQ(r[i][i], 0, "comparison with itself");
        for(int j = 0; j < 3; ++j) {
            CHECK_EQ(r[i][j], -r[j][i], "antisymmetry");
            for(int k = 0; k < 3; ++k) {
                if(r[i][j] <= 0 && r[j][k] <= 0)
                    CHECK(r[i][k] <= 0, "not transitive");
                if(r[i][j] == 0 && r[j][k] == 0)
                    CHECK(r[i][k] == 0, "equality is not transitive");
            }
        }
    }
    t.nontrivial();
}
PROP("C25", "order.double", .rule = "every case", .quick = 1500000) { order_case<double, uint64_t>(t); }
PROP("C25", "order.float", .rule = "every case", .quick = 1500000) { order_case<float, uint32_t>(t); }
template<typename F, typename U, typename C> static void sorted_case(T &t, bool nans) {
    size_t n = t.size(60);
    std::vector<F> v(n);
    for(auto &x : v) {
        x = gen_float<F, U>(t);
        if(!nans && std::isnan(x))
            x = 1;
    }
    v.shrink_to_fit();
    auto before = v;
    C c;
    NS::insertion_sort(v.data(), v.data() + n, c);
    for(size_t i = 1; i < n; ++i)
        CHECK(c.compare(v[i - 1], v[i]) <= 0, "sorted sequence is out of order");
    auto bits = [](std::vector<F> x) {
        std::vector<U> u(x.size());
        for(size_t i = 0; i < x.size(); ++i)
            memcpy(&u[i], &x[i], sizeof(U));
        std::sort(u.begin(), u.end());
        return u;
    };
    CHECK(bits(v) == bits(before), "sorting changed the values");
    // Numbers must form an ascending run, as a reader of the result expects.
    std::vector<F> nums;
    for(F x : v)
        if(!std::isnan(x))
            nums.push_back(x);
    CHECK(std::is_sorted(nums.begin(), nums.end()), "the numbers are not ascending after sorting");
    CHECK(NS::is_sorted(v.data(), v.data() + n, c), "is_sorted denies the sorted sequence");
    if(n >= 3)
        t.nontrivial();
}
PROP("C25", "sorting", .rule = "three or more numbers", .quick = 150000) {
    switch(t.idx(4)) {
    case 0: sorted_case<double, uint64_t, NS::FloatTotalOrderComparator<double>>(t, true); break;
    case 1: sorted_case<float, uint32_t, NS::FloatTotalOrderComparator<float>>(t, true); break;
    case 2: sorted_case<double, uint64_t, NS::FloatIgnoreNanComparator<double>>(t, false); break;
    default: sorted_case<float, uint32_t, NS::FloatIgnoreNanComparator<float>>(t, false); break;
    }
}
#endif

// ---------------------------------------------------------------- C26

static void collect(const char *buf, size_t n, void *ctx) { ((std::string *)ctx)->append(buf, n); }
static void via_callback(std::string &out, const char *f, ...) {
    va_list a;
    va_start(a, f);
    NS::cformat_with_cb(collect, &out, f, a);
    va_end(a);
}

static std::string literal_text(T &t) {
    std::string s;
    size_t n = t.weighted({6, 2, 1}) == 0 ? t.size(8) : t.chance(50) ? t.size(60) : (size_t)t.uni(900, 1100);
    if(n > 100)
        return std::string(n, (char)('a' + t.idx(26)));
    for(size_t i = 0; i < n; ++i) {
        char c = (char)t.uni(1, 255);
        s += c;
        if(c == '%')
            s += '%';
    }
    return s;
}
static std::string flags(T &t, bool numeric) {
    std::string s;
    if(t.chance(40))
        s += '-';
    if(numeric) {
        if(t.chance(20))
            s += '+';
        if(t.chance(15))
            s += ' ';
        if(t.chance(20))
            s += '0';
        if(t.chance(20))
            s += '#';
    }
    return s;
}
static size_t width(T &t) {
    switch(t.weighted({5, 3, 2, 1})) {
    case 0: return 0;
    case 1: return (size_t)t.idx(30) + 1;
    case 2: return (size_t)t.uni(1000, 1040);
    default: return (size_t)t.uni(1, 20000);
    }
}
static std::string spec_tail(T &t, const char *conv, const char *len, bool prec_ok, bool numeric) {
    std::string s = "%" + (conv[0] == 's' || conv[0] == 'c' ? flags(t, false) : flags(t, numeric));
    size_t w = width(t);
    if(w)
        s += std::to_string(w);
    if(prec_ok && t.chance(30))
        s += "." + std::to_string(t.size(40));
    return s + len + conv[0];
}

static std::string g_out;
static const char *g_entry;
template<typename... A> static void call(T &t, const std::string &fmt, int entry, A... a) {
    const char *f = fmt.c_str();
    int len = snprintf(nullptr, 0, f, a...);
    CHECK(len >= 0, "the generator made an invalid format");
    std::string want(len + 1, 0);
    snprintf(want.data(), len + 1, f, a...);
    want.resize(len);
    t.note("result has %d bytes: %s", len, show(want).substr(0, 300).c_str());
    std::string before;
    if(entry != 0)
        before = std::string(t.size(40), (char)('A' + t.idx(26)));
    std::string got;
    if(entry < 2 && want.find('\0') != std::string::npos) {
        CHECK(rejects([&] {
            NS::CString s(before.c_str(), before.size());
            if(entry == 0)
                s = NS::cformat(f, a...);
            else
                NS::format_append(s, f, a...);
        }), "output with a zero byte, which a CString can not hold, was accepted");
        return;
    }
    switch(entry) {
    case 0: {
        NS::CString s = NS::cformat(f, a...);
        got.assign(s.c_str(), s.size());
        CHECK(s.c_str()[s.size()] == 0, "the result is not terminated");
        break;
    }
    case 1: {
        NS::CString s(before.c_str(), before.size());
        NS::format_append(s, f, a...);
        got.assign(s.c_str(), s.size());
        break;
    }
    case 2: {
        NS::Vector<char> v;
        for(char c : before)
            v.push_back(c);
        NS::format_append(v, f, a...);
        got.assign(v.begin(), v.end());
        break;
    }
    default:
        got = before;
        via_callback(got, f, a...);
    }
    want = before + want;
    CHECK_EQ(got.size(), want.size(), "length");
    for(size_t i = 0; i < want.size(); ++i)
        CHECK(got[i] == want[i], "byte %zu is %02x instead of %02x", i, (unsigned char)got[i], (unsigned char)want[i]);
    if(len > 20)
        t.nontrivial();
    if(len >= 1023)
        t.label("output of 1023 bytes or more");
}
template<typename... A> static void build(T &t, std::string fmt, std::vector<std::string> &keep, int entry, A... a) {
    fmt += literal_text(t);
    if constexpr(sizeof...(A) < 3) {
        switch(t.weighted({3, 2, 2, 2, 3, 1, 1})) {
        case 1: { // int
            const char *conv = t.pick({"d", "i", "u", "x", "X", "o"});
            const char *len = t.pick({"", "", "h", "hh"});
            fmt += spec_tail(t, conv, len, true, true);
            return build(t, fmt, keep, entry, a..., (int)t.num(INT_MIN, INT_MAX));
        }
        case 2: {
            const char *conv = t.pick({"d", "i", "u", "x", "X", "o"});
            fmt += spec_tail(t, conv, t.pick({"l", "ll", "z", "j"}), true, true);
            return build(t, fmt, keep, entry, a..., (long long)t.u64());
        }
        case 3: {
            const char *conv = t.pick({"f", "e", "g", "a", "F", "E", "G", "A"});
            fmt += spec_tail(t, conv, "", true, true);
            double d = gen_double(t);
            return build(t, fmt, keep, entry, a..., d);
        }
        case 4: {
            fmt += spec_tail(t, "s", "", true, false);
            size_t n = t.chance(70) ? t.size(30) : t.chance(50) ? (size_t)t.uni(1000, 1040) : (size_t)t.uni(0, 30000);
            char c = (char)t.uni(1, 255);
            keep.push_back(std::string(n, c));
            return build(t, fmt, keep, entry, a..., (const char *)keep.back().c_str());
        }
        case 5: {
            fmt += spec_tail(t, "c", "", false, false);
            return build(t, fmt, keep, entry, a..., t.chance(3) ? 0 : (int)t.uni(1, 255));
        }
        case 6:
            if constexpr(sizeof...(A) < 2) {
                fmt += t.idx(2) ? "%*d" : "%.*d";
                return build(t, fmt, keep, entry, a..., (int)t.uni(-30, 1100), (int)t.num(INT_MIN, INT_MAX));
            }
            break;
        default: break;
        }
    }
    if(t.chance(5))
        fmt += "%%";
    t.note("format %s", show(fmt).substr(0, 400).c_str());
    call(t, fmt, entry, a...);
}
PROP("C26", "format", .rule = "more than 20 bytes of output", .quick = 200000) {
    std::vector<std::string> keep;
    keep.reserve(8);
    int entry = (int)t.idx(4);
    g_entry = "";
    t.note("%s", entry == 0 ? "cformat" : entry == 1 ? "format_append to a CString" : entry == 2 ? "format_append to a Vector<char>" : "cformat_with_cb");
    build(t, "", keep, entry);
}
PROP("C26", "format.large", .rule = "more than 20 bytes of output", .quick = 300, .cpu_limit = 60, .guided = false) {
    const size_t n = t.pick({30000u, 65536u, 200000u, 3000000u});
    std::string x(n - 20 + t.idx(40), 0);
    uint64_t z = t.u64() | 1;
    for(char &c : x)
        c = (char)((z = z * 6364136223846793005u + 1442695040888963407u) >> 57 | 1);
    int entry = (int)t.idx(4);
    g_entry = "";
    t.note("a text of %zu bytes", x.size());
    switch(t.idx(3)) {
    case 0: return call(t, "%s", entry, x.c_str());
    case 1: return call(t, "%d<%s>%x", entry, (int)t.idx(1000), x.c_str(), 255);
    default: return call(t, "%.*s|%*d", entry, (int)t.idx(x.size()), x.c_str(), (int)t.idx(100000), 5);
    }
}
PROP("C26", "append_history", .rule = "three or more appends", .quick = 60000) {
    NS::CString s;
    std::string m;
    size_t n = 0;
    while(t.more(6) && n < 40) {
        if(t.chance(80)) {
            int x = (int)t.num(INT_MIN, INT_MAX);
            size_t w = width(t) % 3000;
            char buf[4000];
            snprintf(buf, sizeof buf, "<%*d|%s>", (int)w, x, "x");
            NS::format_append(s, "<%*d|%s>", (int)w, x, "x");
            m += buf;
        } else { // append the string to itself
            if(m.size() > 20000)
                continue;
            NS::format_append(s, "%s!", s.c_str());
            m += m + "!";
        }
        ++n;
        CHECK(std::string(s.c_str(), s.size()) == m, "wrong text after %zu appends", n);
    }
    if(n >= 3)
        t.nontrivial();
}

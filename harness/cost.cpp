// C37: the cost of operations, counted in comparisons, element moves and allocated bytes, grows no
// faster than the algorithms promise, whatever the input and the history.
#include "pbt.hpp"
#include "ns.hpp"
#include "place.hpp"
#if YEAR == 2026
#include <pystd2026_btree.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_stablepartition.hpp>
#else
#include <pystd2025_btree.hpp>
#endif
#include <cmath>

using namespace pbt;

// Set PBT_COSTS to a file to see how far the bounds are away.
static void spent(T &t, const char *what, uint64_t got, double bound, size_t n) {
    static FILE *f = getenv("PBT_COSTS") ? fopen(getenv("PBT_COSTS"), "a") : nullptr;
    if(f) {
        fprintf(f, "%.3f %s@%d %llu %zu\n", (double)got / bound, what, YEAR, (unsigned long long)got, n);
        fflush(f);
    }
    CHECK(f || (double)got <= bound, "%s: %llu for %zu elements, expected at most %.0f", what, (unsigned long long)got, n, bound);
}
static double lg(size_t n) { return std::log2((double)n + 2); }

// Short runs are sorted by insertion.
static double base(size_t n) { return 30 * (double)n + 3000; }

static uint64_t compares, moves, copies;
struct Cnt { // counts what is done with it
    int key = 0;
    Cnt() noexcept = default;
    explicit Cnt(int k) noexcept : key(k) {}
    Cnt(const Cnt &o) noexcept : key(o.key) { ++copies; }
    Cnt(Cnt &&o) noexcept : key(o.key) { ++moves; }
    Cnt &operator=(const Cnt &o) noexcept {
        key = o.key;
        ++copies;
        return *this;
    }
    Cnt &operator=(Cnt &&o) noexcept {
        key = o.key;
        ++moves;
        return *this;
    }
    bool operator==(const Cnt &o) const noexcept { return ++compares, key == o.key; }
    bool operator!=(const Cnt &o) const noexcept { return ++compares, key != o.key; }
    bool operator<(const Cnt &o) const noexcept { return ++compares, key < o.key; }
    bool operator>(const Cnt &o) const noexcept { return ++compares, key > o.key; }
    bool operator<=(const Cnt &o) const noexcept { return ++compares, key <= o.key; }
    bool operator>=(const Cnt &o) const noexcept { return ++compares, key >= o.key; }
    int operator<=>(const Cnt &o) const noexcept { return ++compares, key < o.key ? -1 : key > o.key; }
    template<typename H> void feed_hash(H &h) const {
        h.feed_hash((int32_t)key);
    }
};
#if YEAR == 2025
namespace pystd2025 {
template<typename H> struct HashFeeder<H, Cnt> {
    void operator()(H &h, const Cnt &k) noexcept { k.feed_hash(h); }
};
} // namespace pystd2025
#endif
struct Spread { // a good hash
    void feed_bytes(const char *buf, size_t n) noexcept {
        for(size_t i = 0; i < n; ++i)
            value = (value ^ (unsigned char)buf[i]) * 0x100000001b3ull;
        value ^= value >> 29;
    }
    size_t get_hash_value() const noexcept { return value * 0x9E3779B97F4A7C15ull >> 3; }
    void reset() noexcept { value = 0xcbf29ce484222325ull; }
    size_t value = 0xcbf29ce484222325ull;
};
static int raw(const Cnt &c) { return c.key; }
static int raw(int c) { return c; }
static void reset() { compares = moves = copies = 0; }

struct Rnd {
    uint64_t s;
    uint64_t operator()(uint64_t m) {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return (z ^ (z >> 31)) % m;
    }
};
static size_t gen_n(T &t, int max_bits) {
    size_t p = (size_t)1 << t.uni(5, max_bits);
    return t.chance(30) ? p - 1 + t.idx(3) : p + t.idx(p);
}
static std::vector<int> gen_keys(T &t, size_t n) {
    static const char *names[] = {"random", "few distinct", "sorted", "reversed", "organ pipe", "nearly sorted", "all equal", "sawtooth", "stairs", "sorted, then random"};
    int pat = (int)t.idx(10);
    Rnd r{t.draw(1 << 20, false)};
    size_t per = t.pick({2u, 3u, 10u, 33u, 100u, 1000u});
    std::vector<int> v(n);
    for(size_t i = 0; i < n; ++i)
        switch(pat) {
        case 0: v[i] = (int)r(1u << 30); break;
        case 1: v[i] = (int)r(per); break;
        case 2: v[i] = (int)i; break;
        case 3: v[i] = (int)(n - i); break;
        case 4: v[i] = (int)(i < n / 2 ? i : n - i); break;
        case 5: v[i] = r(20) ? (int)i : (int)r(n); break;
        case 6: v[i] = 1; break;
        case 7: v[i] = (int)(i % per); break;
        case 8: v[i] = (int)(i / per); break;
        default: v[i] = i < n - n / 20 ? (int)i : (int)r(n);
        }
    t.note("%zu keys, %s (%zu)", n, names[pat], per);
    t.label(names[pat]);
    return v;
}

#if YEAR == 2026
struct Plain {
    template<typename E> int compare(const E &a, const E &b) const noexcept {
        ++compares;
        return raw(a) < raw(b) ? -1 : raw(a) > raw(b);
    }
    template<typename E> bool equal(const E &a, const E &b) const noexcept { return compare(a, b) == 0; }
};
// Decides the order only when it has to, against quicksorts (McIlroy).
struct Killer {
    std::vector<int> &val;
    int gas, &nsolid, &candidate;
    int compare(const size_t &x, const size_t &y) const noexcept {
        ++compares;
        if(val[x] == gas && val[y] == gas)
            val[(int)x == candidate ? x : y] = nsolid++;
        if(val[x] == gas)
            candidate = (int)x;
        else if(val[y] == gas)
            candidate = (int)y;
        return val[x] < val[y] ? -1 : val[x] > val[y];
    }
    bool equal(const size_t &x, const size_t &y) const noexcept { return compare(x, y) == 0; }
};
template<typename It, typename C> static void sort_with(T &t, int algo, It b, It e, const C &c) {
    const size_t n = (size_t)(e - b);
    reset();
    switch(algo) {
    case 0:
        t.note("introsort");
        NS::introsort(b, e, c);
        spent(t, "introsort comparisons", compares, 5 * (double)n * lg(n) + base(n), n);
        break;
    case 1:
        t.note("heapsort");
        NS::heapsort(b, e, c);
        spent(t, "heapsort comparisons", compares, 3 * (double)n * lg(n) + base(n), n);
        break;
    case 2:
        t.note("mergesort");
        NS::mergesort(b, e, c);
        spent(t, "mergesort comparisons", compares, 2.5 * (double)n * lg(n) + base(n), n);
        break;
    case 3: {
        size_t k = t.idx(n);
        t.note("nth_element %zu", k);
        NS::nth_element(b, e, k, c);
        spent(t, "nth_element comparisons", compares, 5 * (double)n * lg(n) + base(n), n);
        break;
    }
    case 4: {
        size_t k = t.idx(n);
        t.note("partial_sort %zu", k);
        NS::partial_sort(b, e, k, c);
        spent(t, "partial_sort comparisons", compares, 8 * (double)n * lg(n) + base(n), n);
        break;
    }
    case 5:
        t.note("indirect_sort");
        NS::indirect_sort(b, e, c);
        spent(t, "indirect_sort comparisons", compares, 5 * (double)n * lg(n) + base(n), n);
        break;
    default:
        t.note("indirect_stable_sort");
        NS::indirect_stable_sort(b, e, c);
        spent(t, "indirect_stable_sort comparisons", compares, 8 * (double)n * lg(n) + base(n), n);
        break;
    }
    spent(t, "moves of a sort", moves, 12 * (double)n * lg(n) + 2 * base(n), n);
}
PROP("C37", "sorts", .rule = "every case", .quick = 6000, .cpu_limit = 60, .guided = false) {
    const size_t n = gen_n(t, 15);
    const auto keys = gen_keys(t, n);
    const int algo = (int)t.idx(7);
    if(t.chance(50)) {
        t.note("integers");
        std::vector<int> v = keys;
        sort_with(t, algo, v.data(), v.data() + n, Plain{});
    } else {
        std::vector<Cnt> v;
        for(int k : keys)
            v.emplace_back(k);
        sort_with(t, algo, v.data(), v.data() + n, Plain{});
    }
    t.nontrivial();
}
PROP("C37", "sorts_adversary", .rule = "every case", .quick = 4000, .cpu_limit = 60, .guided = false) {
    const size_t n = gen_n(t, 12);
    std::vector<int> val(n, (int)n);
    int nsolid = 0, candidate = 0;
    std::vector<size_t> v(n);
    for(size_t i = 0; i < n; ++i)
        v[i] = i;
    t.note("%zu elements against the adversary", n);
    sort_with(t, (int)t.idx(6), v.data(), v.data() + n, Killer{val, (int)n, nsolid, candidate});
    t.nontrivial();
}
PROP("C37", "rearranging", .rule = "every case", .quick = 4000, .cpu_limit = 60, .guided = false) {
    const size_t n = gen_n(t, 13);
    const auto keys = gen_keys(t, n);
    std::vector<Cnt> v;
    for(int k : keys)
        v.emplace_back(k);
    const int limit = keys[t.idx(n)];
    uint64_t calls = 0;
    auto pred = [&](const Cnt &c) { return ++calls, c.key < limit; };
    reset();
    switch(t.idx(3)) {
    case 0:
        t.note("partition");
        NS::partition(v.data(), v.data() + n, pred);
        spent(t, "partition tests", calls, 2 * (double)n + 10, n);
        spent(t, "partition moves", moves, 6 * (double)n + 10, n);
        break;
    case 1: {
        size_t k = t.idx(n + 1);
        t.note("rotate by %zu", k);
        NS::rotate(v.data(), v.data() + k, v.data() + n);
        spent(t, "rotate moves", moves, 8 * (double)n + 10, n);
        break;
    }
    default: {
        std::vector<Cnt> s = v;
        std::sort(s.begin(), s.end(), [](const Cnt &a, const Cnt &b) { return a.key < b.key; });
        reset();
        t.note("lower_bound");
        for(int i = 0; i < 20; ++i) {
            compares = 0;
            const Cnt needle(s[t.idx(n)].key + (int)t.uni(-1, 1));
            NS::lower_bound(s.data(), s.data() + n, needle, Plain{});
            spent(t, "lower_bound comparisons", compares, 2 * lg(n) + 6, n);
        }
    }
    }
    t.nontrivial();
}
#endif

#if YEAR == 2025
PROP("C37", "rearranging", .rule = "every case", .quick = 3000, .cpu_limit = 60, .guided = false) {
    const size_t n = gen_n(t, 13);
    std::vector<Cnt> v;
    for(int k : gen_keys(t, n))
        v.emplace_back(k);
    const int limit = v[t.idx(n)].key;
    uint64_t calls = 0;
    if(t.chance(50)) {
        reset();
        NS::partition(v.data(), v.data() + n, [&](const Cnt &c) { return ++calls, c.key < limit; });
        spent(t, "partition tests", calls, 2 * (double)n + 10, n);
        spent(t, "partition moves", moves, 6 * (double)n + 10, n);
    } else {
        std::sort(v.begin(), v.end(), [](const Cnt &a, const Cnt &b) { return a.key < b.key; });
        for(int i = 0; i < 20; ++i) {
            const Cnt needle(v[t.idx(n)].key + (int)t.uni(-1, 1));
            reset();
            NS::lower_bound(v.data(), v.data() + n, needle);
            spent(t, "lower_bound comparisons", compares, 2 * lg(n) + 6, n);
        }
    }
    t.nontrivial();
}
#endif

// Histories that only grow, or grow and shrink at any point.
PROP("C37", "vector", .rule = "every case", .quick = 4000, .cpu_limit = 60, .guided = false) {
    const size_t n = gen_n(t, 13);
    NS::Vector<Cnt> v;
    reset();
    const size_t start = t.chance(50) ? t.idx(300) : 0;
    const int mode = (int)t.idx(6);
    const size_t around = 1 + t.idx(n);
    t.note("%zu steps, mode %d, turning at %zu, reserving %zu first", n, mode, around, start);
    size_t ops = 0, peak = 0;
    Rnd r{t.draw(1 << 20, false)};
    const uint64_t b0 = bytes_made;
    if(start)
        v.reserve(start);
    for(size_t i = 0; i < n; ++i) {
        ++ops;
        switch(mode) {
        case 0: v.push_back(Cnt((int)i)); break;
        case 1: v.emplace_back((int)i); break;
        case 2: {
            const Cnt c((int)i);
            v.push_back(c);
            break;
        }
        case 3: { // blocks
            Cnt b[5];
            v.append(b, b + r(6));
            ops += 5;
            break;
        }
        case 4: // up and down around one size
            if(v.size() < around || r(2))
                v.push_back(Cnt((int)i));
            else
                v.pop_back();
            break;
        default:
            if(r(3))
                v.push_back(v.size() ? v[r(v.size())] : Cnt(1));
            else
                v.pop_back();
        }
        peak = std::max(peak, v.size());
    }
    spent(t, "vector moves and copies", moves + copies, 8 * (double)ops + 100, ops);
    spent(t, "vector bytes allocated", bytes_made - b0, sizeof(Cnt) * (8 * (double)peak + 2 * (double)start + 64) + 1000, peak);
    spent(t, "vector capacity", v.capacity(), 3 * (double)std::max(peak, start) + 32, peak);
#if YEAR != 2025
    if(t.chance(50)) { // room that was asked for is there
        const size_t k = v.size() + t.idx(1000);
        v.reserve(k);
        reset();
        const uint64_t a0 = allocs_made;
        while(v.size() < k)
            v.push_back(Cnt(1));
        spent(t, "moves after a reserve", moves + copies, 3 * (double)k + 3, k);
        spent(t, "allocations after a reserve", allocs_made - a0, 0.5, k);
    }
#endif
    t.nontrivial();
}

PROP("C37", "texts", .rule = "every case", .quick = 4000, .cpu_limit = 60, .guided = false) {
    const size_t n = gen_n(t, 13);
    const int mode = (int)t.idx(7);
    Rnd r{t.draw(1 << 20, false)};
    t.note("%zu steps, mode %d", n, mode);
    const uint64_t b0 = bytes_made, a0 = allocs_made;
    size_t total = 0;
    NS::CString c;
    NS::U8String u;
    NS::Bytes b;
    NS::CString piece("piece");
    NS::U8String upiece("pi\xc3\xa4");
    for(size_t i = 0; i < n; ++i)
        switch(mode) {
        case 0: c += 'x'; ++total; break;
        case 1: c += piece; total += 5; break;
        case 2: c += "literal"; total += 7; break;
        case 3: b.append((char)i); ++total; break;
        case 4: b.append("0123456", "0123456" + 7); total += 7; break;
        case 5: u += upiece; total += 4; break;
        default: u.append_codepoint((uint32_t)(0x40 + r(3) * 0x400)); total += 2;
        }
    CHECK(c.size() + b.size() + u.size_bytes() <= 7 * n, "size");
    spent(t, "text bytes allocated", bytes_made - b0, 12 * (double)total + 600 * (double)n + 2000, total);
    const bool single = mode == 0 || mode == 3 || mode == 4; // no temporary text is needed
    spent(t, single ? "text allocations" : "text allocations with temporaries", allocs_made - a0, (single ? 0 : 4 * (double)n) + 3 * lg(total) + 20, total);
    t.nontrivial();
}

PROP("C37", "hash", .rule = "every case", .quick = 3000, .cpu_limit = 60, .guided = false) {
    const size_t n = gen_n(t, 12);
    using M = NS::HashMap<Cnt, int, Spread>;
    Place<M> place;
    M *const mp = place.make(t);
    const uint64_t b0 = bytes_made;
    new(mp) M();
    auto &m = *mp;
    Rnd r{t.draw(1 << 20, false)};
    const int mode = (int)t.idx(3);
    t.note("%zu steps, mode %d", n, mode);
    reset();
    size_t ops = 0, peak = 0, next = 0;
    for(size_t i = 0; i < n; ++i) {
        ++ops;
        switch(mode) {
        case 0: m.insert(Cnt((int)i), 1); break;
        case 1: // a queue
            m.insert(Cnt((int)i), 1);
            if(m.size() > n / 8 + 1)
                m.remove(Cnt((int)next++));
            break;
        default: {
            Cnt k((int)r(n / 4 + 1));
            if(r(2))
                m.insert(k, 1);
            else
                m.remove(k);
        }
        }
        peak = std::max(peak, m.size());
    }
    for(size_t i = 0; i < n; ++i)
        m.contains(Cnt((int)(r(2) ? i : n + i)));
    ops += n;
    spent(t, "hash map key comparisons", compares, 16 * (double)ops + 400, ops);
    spent(t, "hash map moves and copies", moves + copies, 12 * (double)ops + 400, ops);
    if(mode == 0)
        spent(t, "hash map bytes allocated", bytes_made - b0, 250 * (double)peak + 8000, peak);
    place.drop(mp);
    t.nontrivial();
}

template<size_t N> static void btree_case(T &t) {
    const size_t n = gen_n(t, 12);
    const auto keys = gen_keys(t, n);
    Rnd r{t.draw(1 << 20, false)};
    NS::BTreeSet<Cnt, N> s;
    const int mode = (int)t.idx(3);
    t.note("nodes of %zu, mode %d", N, mode);
    reset();
    size_t ops = 0;
    for(size_t i = 0; i < n; ++i) {
        ++ops;
        s.insert(Cnt(keys[i]));
        if(mode && i > n / 2 && r(mode + 1)) {
            ++ops;
            s.remove(Cnt(keys[mode == 1 ? r(i) : i - n / 2]));
        }
    }
    const double node = (double)N, k = 3 * lg(n) + 2 * node;
    spent(t, N < 10 ? "small node btree update comparisons" : "large node btree update comparisons", compares, 2 * (double)ops * k + 500, ops);
    spent(t, N < 10 ? "small node btree update moves" : "large node btree update moves", moves, 6 * (double)ops * (lg(n) + node) + 500, ops);
    reset();
    for(size_t i = 0; i < n; ++i)
        s.contains(Cnt(r(2) ? keys[r(n)] : (int)r(n)));
    spent(t, N < 10 ? "small node btree lookup comparisons" : "large node btree lookup comparisons", compares, 2 * (double)n * k + 500, n);
    t.nontrivial();
}
PROP("C37", "btree_small", .rule = "every case", .quick = 3000, .cpu_limit = 60, .guided = false) { btree_case<5>(t); }
PROP("C37", "btree_large", .rule = "every case", .quick = 3000, .cpu_limit = 60, .guided = false) { btree_case<31>(t); }

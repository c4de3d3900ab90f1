// C15 HashMap / HashSet against std::map, C16 hashing.
#include "pbt.hpp"
#include "ns.hpp"
#include "place.hpp"
#include <sys/mman.h>
#if YEAR == 2026
#include <pystd2026_hashtable.hpp>
#endif

using namespace pbt;

// ---------------------------------------------------------------------------------------------
// A hash algorithm whose collisions are controlled by the test. It forgets the salt (everything
// fed except the last item), so that a case behaves the same in every process.
static int hash_mode = 0;

struct TestHash {
    void feed_bytes(const char *buf, size_t n) noexcept {
        if(hash_mode == 5) { // a good hash of the last item
            uint64_t h = 0xcbf29ce484222325ull;
            for(size_t i = 0; i < n; ++i)
                h = (h ^ (unsigned char)buf[i]) * 0x100000001b3ull;
            value = h ^ (h >> 29);
            return;
        }
        uint64_t k = 0;
        for(size_t i = 0; i < n && i < 8; ++i)
            k |= (uint64_t)(unsigned char)buf[i] << (8 * i);
        switch(hash_mode) {
        case 0: value = k; break;                  // identity
        case 1: value = 0; break;                  // everything collides
        case 2: value = k % 4; break;              // few classes
        case 3: value = k << 6; break;             // all slot tags equal
        case 4: value = ~(size_t)0 - k % 3; break; // runs that wrap around the table end
        case 6: value = (k & 1) ? 14 : 15; break;  // two chains meeting at the table end
        default: value = k * 0x9E3779B97F4A7C15ull; break;
        }
    }
    size_t get_hash_value() const noexcept { return value; }
    void reset() noexcept { value = 0; }
    size_t value = 0;
};

struct HKey {
    Tracked e;
    HKey() noexcept = default;
    explicit HKey(int v) noexcept : e(v) {}
    HKey(const HKey &) noexcept = default;
    HKey(HKey &&) noexcept = default;
    HKey &operator=(const HKey &) noexcept = default;
    HKey &operator=(HKey &&) noexcept = default;
    bool operator==(const HKey &o) const { return e.get() == o.e.get(); }
    template<typename H> void feed_hash(H &h) const { h.feed_hash((int32_t)e.get()); }
};
#if YEAR == 2025
namespace pystd2025 {
template<typename H> struct HashFeeder<H, HKey> {
    void operator()(H &h, const HKey &k) noexcept { k.feed_hash(h); }
};
} // namespace pystd2025
#endif

template<typename K> struct KI;
template<> struct KI<int> {
    static int make(int v) { return v; }
    static int get(const int &k) { return k; }
};
template<> struct KI<HKey> {
    static HKey make(int v) { return HKey(v); }
    static int get(const HKey &k) { return k.e.get(); }
};
template<> struct KI<uint64_t> {
    static uint64_t make(int v) { return (uint64_t)v * 0x100000001ull; }
    static int get(const uint64_t &k) { return (int)k; }
};
template<> struct KI<NS::U8String> {
    static NS::U8String make(int v) {
        char b[32];
        snprintf(b, sizeof b, "%dä", v);
        return NS::U8String(b);
    }
    static int get(const NS::U8String &k) { return atoi(k.c_str()); }
};
#if YEAR == 2026
template<> struct KI<NS::CString> {
    static NS::CString make(int v) {
        std::string s = std::to_string(v);
        return NS::CString(s.c_str());
    }
    static int get(const NS::CString &k) { return atoi(k.c_str()); }
};
#endif

template<typename M, typename K, typename V>
static void compare_map(T &t, const M &m, const std::map<int, int> &model) {
    CHECK_EQ(m.size(), model.size(), "size");
    CHECK(m.is_empty() == model.empty(), "is_empty is wrong");
    std::map<int, int> seen;
    size_t steps = 0;
    for(auto it = m.begin(); it != m.end(); ++it) {
        auto kv = *it;
        int k = KI<K>::get(*kv.key);
        if(!seen.emplace(k, EI<V>::get(*kv.value)).second)
            t.fail("iteration visits key %d twice", k);
        CHECK(++steps <= model.size(), "iteration visits more entries than the map has (%zu)", model.size());
    }
    if(seen != model) {
        for(auto &[k, v] : model) {
            auto i = seen.find(k);
            CHECK(i != seen.end(), "iteration misses key %d", k);
            CHECK(i->second == v, "iteration gives key %d the value %d instead of %d", k, i->second, v);
        }
        t.fail("iteration visits keys that are not in the map");
    }
}

template<typename K, typename V, typename Algo> static void run_map(T &t) {
    Lifetimes lt(t);
    using M = NS::HashMap<K, V, Algo>;
    hash_mode = (int)t.idx(8);
    const int range = (int)t.pick({6, 12, 24, 48, 200, 1000});
    t.note("hash mode %d, keys 0..%d", hash_mode, range - 1);
    const bool churn = t.chance(30);
    const unsigned len = range >= 200 ? 300 : t.pick({12u, 40u, 120u});
    Place<M> place;
    auto *m = new(place.make(t)) M;
    std::map<int, int> model;
    auto *m2 = new(place.make(t)) M;
    std::map<int, int> model2;
    size_t removed = 0, inserted = 0, reinserted = 0, n = 0;
    int fifo = 0;
    std::set<int> ever;
    int val = 0;
    auto insert = [&](int k) {
        val = val % 250 + 1;
        t.note("insert(%d, %d)", k, val);
        auto &r = m->insert(KI<K>::make(k), EI<V>::make(val));
        CHECK(EI<V>::get(r) == val, "insert(%d) returned a reference to %d instead of %d", k, EI<V>::get(r), val);
        if(ever.count(k) && !model.count(k))
            ++reinserted;
        ever.insert(k);
        model[k] = val;
        ++inserted;
    };
    auto remove = [&](int k) {
        t.note("remove(%d)", k);
        if(model.erase(k))
            ++removed;
        m->remove(KI<K>::make(k));
    };
    auto lookup = [&](int k) {
        auto key = KI<K>::make(k);
        V *p = m->lookup(key);
        auto it = model.find(k);
        CHECK((p != nullptr) == (it != model.end()), "lookup of key %d: %s", k, p ? "found, but it is absent" : "not found");
        CHECK(m->contains(key) == (p != nullptr), "contains(%d) disagrees with lookup", k);
        if(p)
            CHECK(EI<V>::get(*p) == it->second, "lookup(%d) gives %d instead of %d", k, EI<V>::get(*p), it->second);
    };
    while(t.more(len)) {
        if(++n > 3000)
            break;
        int k = (int)t.idx(range);
        if(churn && t.chance(80)) { // queue-like use
            insert(fifo % range);
            if(fifo >= 3)
                remove((fifo - 3) % range);
            ++fifo;
            CHECK_EQ(m->size(), model.size(), "size after churn");
            continue;
        }
        switch(t.weighted({30, 22, 12, 6, 4, 4, 2, 3, 3, 3, 2})) {
        case 0: insert(k); break;
        case 1: remove(k); break;
        case 2: lookup(k); break;
        case 3: {
            if constexpr(std::is_default_constructible_v<V>) {
                t.note("[%d]", k);
                auto it = model.find(k);
                V &v = (*m)[KI<K>::make(k)];
                int expect = it == model.end() ? EI<V>::def : it->second;
                CHECK(EI<V>::get(v) == expect, "operator[](%d) gives %d instead of %d", k, EI<V>::get(v), expect);
                val = val % 250 + 1;
                v = EI<V>::make(val);
                model[k] = val;
                ever.insert(k);
            }
            break;
        }
        case 4: {
            auto it = model.find(k);
            if(it != model.end()) {
                V &v = m->at(KI<K>::make(k));
                CHECK(EI<V>::get(v) == it->second, "at(%d) is wrong", k);
            } else if(t.chance(3)) {
                CHECK(rejects([&] { m->at(KI<K>::make(k)); }), "at() of an absent key did not throw");
            }
            break;
        }
        case 5: compare_map<M, K, V>(t, *m, model); break;
        case 6:
            t.note("clear");
            m->clear();
            model.clear();
            break;
        case 7: { // move construction
            t.note("move construct");
            auto *moved = new(place.make(t)) M(NS::move(*m));
            place.drop(m);
            m = moved;
            break;
        }
        case 8: // move assignment onto a map with contents
            t.note("move assign onto a map of %zu", model2.size());
            *m2 = NS::move(*m);
            std::swap(m, m2);
            place.drop(m2);
            m2 = new(place.make(t)) M;
            model2.clear();
            break;
        case 9: { // put something in the second map and swap roles
            t.note("switch maps");
            std::swap(m, m2);
            std::swap(model, model2);
            break;
        }
        case 10: { // overwrite an entry through a reference to its own key
            if(!model.empty()) {
                size_t pos = t.idx(model.size());
                auto it = m->begin();
                for(size_t i = 0; i < pos; ++i)
                    ++it;
                auto kv = *it;
                int kk = KI<K>::get(*kv.key);
                t.note("re-insert %d through its own key", kk);
                val = val % 250 + 1;
                if(t.chance(30)) {
                    model.erase(kk);
                    m->remove(*kv.key);
                } else {
                    m->insert(*kv.key, EI<V>::make(val));
                    model[kk] = val;
                }
            }
            break;
        }
        }
        CHECK_EQ(m->size(), model.size(), "size");
    }
    for(int k = 0; k < range && k < 220; ++k)
        lookup(k);
    lookup(range + 5);
    compare_map<M, K, V>(t, *m, model);
    compare_map<M, K, V>(t, *m2, model2);
    if(removed)
        t.label("removals");
    if(reinserted)
        t.label("re-insertions");
    if(inserted > 13)
        t.label("growth");
    if(inserted >= 5 && removed >= 2)
        t.nontrivial();
    place.drop(m);
    place.drop(m2);
}

PROP("C15", "map", .rule = "at least five insertions and two removals", .quick = 80000) {
    switch(t.idx(4)) {
    case 0: run_map<int, int, TestHash>(t); break;
    case 1: run_map<HKey, Tracked, TestHash>(t); break;
    case 2: run_map<HKey, MoveOnly, TestHash>(t); break;
    default: run_map<NS::U8String, unsigned char, TestHash>(t); break;
    }
}

// The default hash. Its salt is the address of the map, so the layout differs between runs.
PROP("C15", "map_simplehash", .rule = "at least five insertions and two removals", .quick = 50000) {
    switch(t.idx(3)) {
    case 0: run_map<int, Tracked, NS::SimpleHash>(t); break;
    case 1: run_map<uint64_t, int, NS::SimpleHash>(t); break;
#if YEAR == 2026
    default: run_map<NS::CString, MoveOnly, NS::SimpleHash>(t); break;
#else
    default: run_map<NS::U8String, MoveOnly, NS::SimpleHash>(t); break;
#endif
    }
}

// Long histories in bulk, to many thousands of entries.
template<typename K, typename V, typename Algo> static void run_large(T &t) {
    Lifetimes lt(t);
    using M = NS::HashMap<K, V, Algo>;
    hash_mode = t.pick({5, 7, 0});
    const int range = (int)t.pick({1000, 5000, 20000});
    const uint64_t seed = t.draw(65536, false);
    Place<M> place;
    auto *m = new(place.make(t)) M;
    std::map<int, int> model;
    size_t removed = 0, inserted = 0;
    int val = 0;
    uint64_t s = seed;
    auto rnd = [&](uint64_t n) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return (int)((s >> 33) % n);
    };
    for(unsigned phase = 0; phase < 12 && t.more(6); ++phase) {
        const int n = (int)t.uni(1, range), from = (int)t.idx(range), how = (int)t.idx(3);
        auto key = [&](int i) { return how == 0 ? (from + i) % range : how == 1 ? ((from - i) % range + range) % range : rnd(range); };
        switch(t.weighted({5, 4, 2, 1, 1, 1})) {
        case 0:
            t.note("insert %d keys from %d, order %d", n, from, how);
            for(int i = 0; i < n; ++i) {
                int k = key(i);
                val = val % 250 + 1;
                m->insert(KI<K>::make(k), EI<V>::make(val));
                model[k] = val;
                ++inserted;
            }
            break;
        case 1:
            t.note("remove %d keys from %d, order %d", n, from, how);
            for(int i = 0; i < n; ++i) {
                int k = key(i);
                m->remove(KI<K>::make(k));
                removed += model.erase(k);
            }
            break;
        case 2: {
            t.note("a queue of 50 over %d keys", n);
            for(int i = 0; i < n; ++i) {
                int k = (from + i) % range, old = (from + i - 50 + range) % range;
                val = val % 250 + 1;
                m->insert(KI<K>::make(k), EI<V>::make(val));
                model[k] = val;
                if(old != k) {
                    m->remove(KI<K>::make(old));
                    removed += model.erase(old);
                }
            }
            inserted += (size_t)n;
            break;
        }
        case 3:
            t.note("clear");
            m->clear();
            model.clear();
            break;
        case 4: {
            t.note("move construct");
            auto *moved = new(place.make(t)) M(NS::move(*m));
            place.drop(m);
            m = moved;
            break;
        }
        case 5: {
            t.note("move assign");
            auto *o = new(place.make(t)) M;
            o->insert(KI<K>::make(1), EI<V>::make(1));
            *o = NS::move(*m);
            place.drop(m);
            m = o;
            break;
        }
        }
        compare_map<M, K, V>(t, *m, model);
        for(int k = 0; k < range; k += 1 + range / 2000) {
            V *p = m->lookup(KI<K>::make(k));
            auto it = model.find(k);
            CHECK((p != nullptr) == (it != model.end()), "lookup of key %d: %s", k, p ? "found, but it is absent" : "not found");
            if(p)
                CHECK(EI<V>::get(*p) == it->second, "lookup(%d) gives %d instead of %d", k, EI<V>::get(*p), it->second);
        }
        if(model.size() > 10000)
            t.label("more than 10000 entries");
    }
    if(inserted >= 1000 && removed >= 100)
        t.nontrivial();
    place.drop(m);
}

PROP("C15", "map_large", .rule = "at least 1000 insertions and 100 removals", .quick = 500, .cpu_limit = 60, .guided = false) {
    switch(t.idx(3)) {
    case 0: run_large<int, int, TestHash>(t); break;
    case 1: run_large<HKey, Tracked, TestHash>(t); break;
    default: run_large<uint64_t, unsigned char, NS::SimpleHash>(t); break;
    }
}

template<typename K, typename Algo> static void run_set(T &t) {
    Lifetimes lt(t);
    hash_mode = (int)t.idx(8);
    const int range = (int)t.pick({6, 12, 24, 48, 200});
    t.note("hash mode %d, keys 0..%d", hash_mode, range - 1);
    Place<NS::HashSet<K, Algo>> place;
    struct Holder {
        Place<NS::HashSet<K, Algo>> &p;
        NS::HashSet<K, Algo> *s;
        ~Holder() { p.drop(s); }
    } holder{place, new(place.make(t)) NS::HashSet<K, Algo>};
    auto &s = *holder.s;
    std::set<int> model;
    size_t removed = 0, inserted = 0, n = 0;
    const unsigned len = t.pick({12u, 40u, 150u});
    while(t.more(len) && ++n < 2000) {
        int k = (int)t.idx(range);
        switch(t.weighted({30, 22, 10, 4, 2, 3})) {
        case 0: {
            t.note("insert(%d)", k);
            bool fresh = model.insert(k).second;
            auto r = s.insert(KI<K>::make(k));
            CHECK(r.second == fresh, "insert(%d) says %s", k, r.second ? "inserted, but the key was there" : "already there, but it was not");
            inserted += fresh;
            break;
        }
        case 1:
            t.note("remove(%d)", k);
            removed += model.erase(k);
            s.remove(KI<K>::make(k));
            break;
        case 2: CHECK(s.contains(KI<K>::make(k)) == !!model.count(k), "contains(%d) is wrong", k); break;
        case 3: {
            std::set<int> seen;
            for(auto &key : s) {
                int v = KI<K>::get(key);
                CHECK(seen.insert(v).second, "iteration visits %d twice", v);
                CHECK(model.count(v), "iteration visits %d, which is not in the set", v);
            }
            CHECK_EQ(seen.size(), model.size(), "entries visited");
            break;
        }
        case 4:
            t.note("clear");
            s.clear();
            model.clear();
            break;
        case 5: {
            t.note("move");
            NS::HashSet<K, Algo> o(NS::move(s));
            s = NS::move(o);
            break;
        }
        }
        CHECK_EQ(s.size(), model.size(), "size");
        CHECK(s.is_empty() == model.empty(), "is_empty is wrong");
    }
    for(int k = 0; k < range; ++k)
        CHECK(s.contains(KI<K>::make(k)) == !!model.count(k), "contains(%d) is wrong at the end", k);
    std::set<int> seen;
    for(auto &key : s)
        CHECK(seen.insert(KI<K>::get(key)).second, "iteration visits a key twice");
    CHECK(seen == model, "iteration does not visit the members");
    if(inserted >= 5 && removed >= 2)
        t.nontrivial();
}

PROP("C15", "set", .rule = "at least five insertions and two removals", .quick = 50000) {
    switch(t.idx(3)) {
    case 0: run_set<int, TestHash>(t); break;
    case 1: run_set<HKey, TestHash>(t); break;
    default: run_set<NS::U8String, NS::SimpleHash>(t); break;
    }
}

// ---------------------------------------------------------------------------------------------
// C16

struct Recorder { // a hash algorithm that records what it is fed
    static std::string log;
    void feed_bytes(const char *buf, size_t n) noexcept { log.append(buf, n); }
    size_t get_hash_value() const noexcept { return log.size(); }
    void reset() noexcept { log.clear(); }
};
std::string Recorder::log;

template<typename X> static size_t hash_of(const X &x) {
    NS::Hasher<NS::SimpleHash> h;
    h.feed_hash(x);
    return h.get_hash_value();
}
template<typename X> static std::string fed_by(const X &x) {
    Recorder::log.clear();
    NS::Hasher<Recorder> h;
    h.feed_hash(x);
    return Recorder::log;
}

static void chunks(T &t, size_t max_size) {
    size_t n = max_size > 100 ? t.idx(max_size) : t.size(max_size);
    std::string s;
    if(n <= 100)
        for(size_t i = 0; i < n; ++i)
            s.push_back((char)t.num(0, 255));
    else
        for(uint64_t x = t.u64(); s.size() < n; x = x * 6364136223846793005u + 1442695040888963407u)
            s.push_back((char)(x >> 56));
    NS::SimpleHash whole;
    whole.feed_bytes(s.data(), s.size());
    NS::SimpleHash parts;
    size_t pos = 0, chunks = 0;
    while(pos < s.size()) {
        size_t len = 1 + t.idx(s.size() - pos);
        std::string copy = s.substr(pos, len); // exact allocation: an overread is seen
        std::vector<char> buf(copy.begin(), copy.end());
        parts.feed_bytes(buf.data(), buf.size());
        if(t.chance(10))
            parts.feed_bytes(buf.data(), 0);
        pos += len;
        ++chunks;
    }
    t.note("%zu bytes %s in %zu chunks", s.size(), show(s.substr(0, 100)).c_str(), chunks);
    CHECK(whole.get_hash_value() == parts.get_hash_value(), "feeding the same bytes in %zu chunks gives another hash", chunks);
    // The same through a hasher
    NS::Hasher<NS::SimpleHash> h;
    h.feed_bytes(s.data(), s.size());
    NS::Hasher<NS::SimpleHash> h2;
    h2.feed_bytes(s.data(), s.size());
    CHECK(h.get_hash_value() == h2.get_hash_value(), "the same bytes hash differently the second time");
    CHECK(h.get_hash_value() == whole.get_hash_value(), "Hasher<SimpleHash> and SimpleHash disagree");
#if YEAR == 2026
    h2.reset();
    h2.feed_bytes(s.data(), s.size());
    CHECK(h.get_hash_value() == h2.get_hash_value(), "a reset hasher gives another hash");
    whole.reset();
    whole.feed_bytes(s.data(), s.size());
    CHECK(h.get_hash_value() == whole.get_hash_value(), "a reset hash gives another hash");
#endif
    if(s.size() >= 3 && chunks >= 2)
        t.nontrivial();
}
#define CHUNKS_RULE .rule = "at least three bytes split in at least two chunks"
PROP("C16", "chunks", CHUNKS_RULE, .quick = 150000) { chunks(t, 80); }
PROP("C16", "chunks.large", CHUNKS_RULE, .quick = 3000, .guided = false) { chunks(t, t.pick({300u, 5000u, 100000u})); }

template<typename I> static void int_hash(T &t, I v, const char *type) {
    std::string f = fed_by(v);
    t.note("%s", type);
    CHECK_EQ(f.size(), sizeof(I), "bytes fed for an integer");
    CHECK(memcmp(f.data(), &v, sizeof v) == 0, "an integer (%s) does not feed its own bytes", type);
    NS::SimpleHash s;
    s.feed_bytes((const char *)&v, sizeof v);
    CHECK(hash_of(v) == s.get_hash_value(), "hash of an integer (%s) is not the hash of its bytes", type);
    I same = v;
    CHECK(hash_of(v) == hash_of(same), "equal integers (%s) hash differently", type);
}

PROP("C16", "integers", .rule = "every case", .quick = 20000) {
    uint64_t u = t.u64();
    int_hash<int8_t>(t, (int8_t)u, "int8");
    int_hash<uint8_t>(t, (uint8_t)u, "uint8");
    int_hash<int16_t>(t, (int16_t)u, "int16");
    int_hash<uint16_t>(t, (uint16_t)u, "uint16");
    int_hash<int32_t>(t, (int32_t)u, "int32");
    int_hash<uint32_t>(t, (uint32_t)u, "uint32");
    int_hash<int64_t>(t, (int64_t)u, "int64");
    int_hash<uint64_t>(t, (uint64_t)u, "uint64");
    // values that differ in one bit must not all hash alike
    unsigned collisions = 0;
    for(int b = 0; b < 64; ++b)
        collisions += hash_of((uint64_t)(u ^ (1ull << b))) == hash_of(u);
    CHECK(collisions == 0, "%u of the 64 single bit changes of %llx do not change the hash", collisions, (unsigned long long)u);
    t.nontrivial();
}

static std::string gen_text(T &t) {
    static const char *pieces[] = {"a", "b", "A", "0", "1", " ", "ab", "ä", "ß", "€", "𝄞", "\x7f", "foo", "\n"};
    std::string s;
    unsigned len = t.pick({3u, 8u, 30u});
    while(t.more(len) && s.size() < 200)
        s += pieces[t.idx(sizeof pieces / sizeof *pieces)];
    return s;
}

// All representations of a text agree.
static void strings(T &t, size_t max_size) {
    std::string s = gen_text(t);
    if(max_size && !s.empty()) {
        std::string unit = s;
        for(size_t n = t.idx(max_size); s.size() < n;)
            s += unit;
    }
    t.note("%zu bytes %s", s.size(), show(s.substr(0, 100)).c_str());
    std::string padded = "<" + s + ">";
    NS::U8String u8(s.c_str(), s.size());
    NS::U8String u8b(s.c_str());
    if(!s.empty())
        u8b = NS::U8String(s.c_str(), s.size());
    const size_t hu = hash_of(u8);
    CHECK(hu == hash_of(u8b), "equal U8Strings hash differently");
    // A string with a different history
    NS::U8String grown;
    grown.reserve(t.idx(300));
    grown += u8;
    CHECK(hash_of(grown) == hu, "equal U8Strings with different histories hash differently");
#if YEAR == 2026
    NS::CString c(s.c_str(), s.size());
    const size_t hc = hash_of(c);
    CHECK(hc == hash_of(NS::CString(c)), "equal CStrings hash differently");
    CHECK(hash_of(NS::CStringView(padded.data() + 1, s.size())) == hc, "a CStringView hashes unlike the equal CString");
    NS::CString chopped(padded.c_str() + 1, s.size() + 1);
    chopped.pop_back();
    CHECK(hash_of(chopped) == hc, "equal CStrings with different histories hash differently");
    CHECK(hash_of(NS::U8StringView(padded.data() + 1, s.size())) == hu, "a U8StringView hashes unlike the equal U8String");
    NS::ZStringView z(s.c_str());
    if constexpr(requires { hash_of(z); })
        CHECK(hash_of(z) == hc, "a ZStringView hashes unlike the equal CString");
    CHECK(fed_by(c) == s, "a CString feeds %s", show(fed_by(c).substr(0, 300)).c_str());
    CHECK(hc == hu, "a CString hashes unlike the U8String of the same text");
#else
    std::string f = fed_by(u8);
    CHECK(f == s || f == s + std::string(1, '\0'), "a U8String feeds %s", show(f.substr(0, 300)).c_str());
#endif
    // Texts that differ in one byte have different hashes (multiplication by 13 is a bijection).
    if(!s.empty()) {
        std::string o = s;
        size_t i = t.idx(o.size());
        if((unsigned char)o[i] < 0x7e && (unsigned char)o[i] > 0)
            o[i]++;
        if(o != s) {
            NS::U8String ou(o.c_str(), o.size());
            CHECK(hash_of(ou) != hu, "%s and the same with byte %zu changed hash alike", show(s.substr(0, 300)).c_str(), i);
        }
    }
    if(s.size() >= 2)
        t.nontrivial();
}
PROP("C16", "strings", .rule = "a text of at least two bytes", .quick = 20000) { strings(t, 0); }
PROP("C16", "strings.large", .rule = "a text of at least two bytes", .quick = 2000, .guided = false) { strings(t, t.pick({300u, 3000u, 30000u})); }

// A container keyed by one representation finds entries put there through an equal key.
PROP("C16", "map_by_equal_key", .rule = "at least three texts", .quick = 5000) {
    std::vector<std::string> texts;
    std::map<std::string, int> model;
    NS::HashMap<NS::U8String, int> m;
#if YEAR == 2026
    NS::HashMap<NS::CStringView, int> views;
    NS::HashMap<NS::U8StringView, int> uviews;
    NS::HashMap<NS::CString, int> strings;
    std::vector<std::unique_ptr<std::string>> keep;
#endif
    int v = 0;
    while(t.more(10) && texts.size() < 100) {
        std::string s = gen_text(t);
        texts.push_back(s);
        model[s] = ++v;
        m.insert(NS::U8String(s.c_str(), s.size()), v);
#if YEAR == 2026
        keep.push_back(std::make_unique<std::string>("x" + s + "y"));
        views.insert(NS::CStringView(keep.back()->data() + 1, s.size()), v);
        uviews.insert(NS::U8StringView(keep.back()->data() + 1, s.size()), v);
        strings.insert(NS::CString(s.c_str(), s.size()), v);
#endif
    }
    CHECK_EQ(m.size(), model.size(), "entries");
    for(auto &[s, want] : model) {
        int *p = m.lookup(NS::U8String(s.c_str(), s.size()));
        CHECK(p && *p == want, "U8String key %s is not found through an equal key", show(s).c_str());
#if YEAR == 2026
        std::string o = s + "zz";
        p = views.lookup(NS::CStringView(o.data(), s.size()));
        CHECK(p && *p == want, "CStringView key %s is not found through an equal key", show(s).c_str());
        p = uviews.lookup(NS::U8StringView(o.data(), s.size()));
        CHECK(p && *p == want, "U8StringView key %s is not found through an equal key", show(s).c_str());
        NS::CString k(o.c_str(), o.size());
        k.pop_back();
        k.pop_back();
        p = strings.lookup(k);
        CHECK(p && *p == want, "CString key %s is not found through an equal key", show(s).c_str());
#endif
    }
    if(model.size() >= 3)
        t.nontrivial();
}

// Short different texts do not collide systematically.
PROP("C16", "spread", .rule = "every case", .quick = 300, .guided = false) {
    size_t len = 1 + t.idx(6);
    std::set<size_t> hashes;
    std::set<std::string> texts;
    for(int i = 0; i < 400; ++i) {
        std::string s;
        for(size_t j = 0; j < len; ++j)
            s.push_back((char)('0' + t.idx(10)));
        if(!texts.insert(s).second)
            continue;
        hashes.insert(hash_of(NS::U8String(s.c_str(), s.size())));
    }
    t.note("%zu texts of length %zu: %zu hashes", texts.size(), len, hashes.size());
    CHECK(hashes.size() * 2 >= texts.size(), "%zu different texts of length %zu have only %zu hashes", texts.size(), len, hashes.size());
    t.nontrivial();
}

// C17 BTree, BTreeSet and BTreeMap against std::map.
#include "pbt.hpp"
#include "ns.hpp"
#if YEAR == 2025
#include <pystd2025_btree.hpp>
#else
#include <pystd2026_btree.hpp>
#endif

using namespace pbt;

struct Entry { // ordered by key only; the tag shows which of several equal entries is stored
    Tracked key;
    int tag = 0;
    Entry() noexcept = default;
    Entry(int k, int t_) noexcept : key(k), tag(t_) {}
    Entry(const Entry &) noexcept = default;
    Entry(Entry &&) noexcept = default;
    Entry &operator=(const Entry &) noexcept = default;
    Entry &operator=(Entry &&) noexcept = default;
    bool operator==(const Entry &o) const { return key.get() == o.key.get(); }
    bool operator<(const Entry &o) const { return key.get() < o.key.get(); }
    int operator<=>(const Entry &o) const { return key <=> o.key; }
};

template<typename P> struct PI;
template<> struct PI<int> {
    static int make(int k, int) { return k; }
    static int key(const int &p) { return p; }
    static bool tag_ok(const int &, int) { return true; }
};
template<> struct PI<Entry> {
    static Entry make(int k, int tag) { return Entry(k, tag); }
    static int key(const Entry &p) { return p.key.get(); }
    static bool tag_ok(const Entry &p, int tag) { return p.tag == tag; }
};
template<> struct PI<NS::CString> {
    static NS::CString make(int k, int) {
        char b[16];
        snprintf(b, sizeof b, "%06d", k);
        return NS::CString(b);
    }
    static int key(const NS::CString &p) { return atoi(p.c_str()); }
    static bool tag_ok(const NS::CString &, int) { return true; }
};

// A key sequence with some structure.
struct Keys {
    T &t;
    int range;
    int mode; // 0 random 1 ascending 2 descending 3 inside out 4 clustered
    int pos = 0;
    int next() {
        switch(mode) {
        case 1: return pos++ % range;
        case 2: return range - 1 - (pos++ % range);
        case 3: {
            int p = pos++ % range;
            return p % 2 ? range / 2 + p / 2 : range / 2 - p / 2 > 0 ? range / 2 - p / 2 : 0;
        }
        case 4:
            if(t.chance(20))
                pos = (int)t.idx(range);
            return pos++ % range;
        default: return (int)t.idx(range);
        }
    }
};

template<typename P, size_t N> static void run_tree(T &t) {
    Lifetimes lt(t);
    using B = NS::BTree<P, N>;
    auto tree = std::make_unique<B>();
    std::map<int, int> model;
    const int range = (int)t.pick({5, 12, 30, 80, 250});
    t.note("BTree with %zu entries per node, keys 0..%d", N, range - 1);
    int tag = 0;
    size_t inserted = 0, removed = 0, emptied = 0, maxsize = 0;
    auto lookup = [&](int k, const char *when) {
        const P p = PI<P>::make(k, 0);
        const P *r = tree->lookup(p);
        auto it = model.find(k);
        CHECK((r != nullptr) == (it != model.end()), "%s: lookup(%d): %s", when, k, r ? "found, but it is absent" : "not found");
        CHECK(tree->contains(p) == (r != nullptr), "%s: contains(%d) disagrees with lookup", when, k);
        if(r) {
            CHECK(PI<P>::key(*r) == k, "%s: lookup(%d) gives %d", when, k, PI<P>::key(*r));
            CHECK(PI<P>::tag_ok(*r, it->second), "%s: lookup(%d) gives an entry that was overwritten", when, k);
        }
    };
    auto insert = [&](int k) {
        ++tag;
        t.note("insert(%d)", k);
        P p = PI<P>::make(k, tag);
        if(t.chance(50))
            tree->insert(p);
        else
            tree->insert(NS::move(p));
        model[k] = tag;
        ++inserted;
    };
    auto remove = [&](int k) {
        t.note("remove(%d)", k);
        if(model.erase(k)) {
            ++removed;
            if(model.empty())
                ++emptied;
        }
        tree->remove(PI<P>::make(k, 0));
    };
    auto iterate = [&] {
#if YEAR == 2026
        auto it = model.begin();
        size_t n = 0;
        for(auto &p : *tree) {
            CHECK(n < model.size(), "iteration visits more than the %zu entries", model.size());
            CHECK(PI<P>::key(p) == it->first, "iteration gives key %d at position %zu instead of %d", PI<P>::key(p), n, it->first);
            CHECK(PI<P>::tag_ok(p, it->second), "iteration gives an overwritten entry for key %d", it->first);
            ++it;
            ++n;
        }
        CHECK_EQ(n, model.size(), "entries visited");
#endif
    };
    unsigned phases = 0;
    while(t.more(5) && ++phases < 20) {
        switch(t.weighted({30, 25, 25, 8, 3, 4, 3})) {
        case 0: { // grow
            Keys ks{t, range, (int)t.idx(5), (int)t.idx(range)};
            const unsigned len = t.pick({4u, 20u, 80u});
            size_t n = 0;
            while(t.more(len) && ++n < 400)
                insert(ks.next());
            break;
        }
        case 1: { // shrink
            Keys ks{t, range, (int)t.idx(5), (int)t.idx(range)};
            const unsigned len = t.pick({4u, 20u, 80u});
            size_t n = 0;
            while(t.more(len) && ++n < 400) {
                remove(ks.next());
                CHECK_EQ(tree->size(), model.size(), "size");
            }
            break;
        }
        case 2: { // mixed
            unsigned ins = t.pick({50u, 35u, 65u});
            size_t n = 0;
            while(t.more(40) && ++n < 400) {
                int k = (int)t.idx(range);
                if(t.chance(ins))
                    insert(k);
                else
                    remove(k);
                if(t.chance(20))
                    lookup((int)t.idx(range), "mixed");
                CHECK_EQ(tree->size(), model.size(), "size");
            }
            break;
        }
        case 3: { // remove the members one after another
            unsigned how = (unsigned)t.idx(3);
            t.note("drain %s", how == 0 ? "from the front" : how == 1 ? "from the back" : "in any order");
            while(!model.empty() && t.more(60)) {
                auto it = model.begin();
                if(how == 1)
                    it = --model.end();
                else if(how == 2)
                    std::advance(it, t.idx(model.size()));
                remove(it->first);
                CHECK_EQ(tree->size(), model.size(), "size");
            }
            break;
        }
        case 4: {
            t.note("move");
            auto other = std::make_unique<B>(NS::move(*tree));
            tree = std::move(other);
            break;
        }
        case 5: { // remove or insert through a reference to the tree's own entry
            if(!model.empty()) {
                auto it = model.begin();
                std::advance(it, t.idx(model.size()));
                int k = it->first;
                const P *own = tree->lookup(PI<P>::make(k, 0));
                CHECK(own, "lookup(%d): not found", k);
                if(t.chance(40)) {
                    t.note("insert %d through a reference to it", k);
                    tree->insert(*own);
                    break;
                }
                t.note("remove %d through a reference to it", k);
                model.erase(k);
                ++removed;
                tree->remove(*own);
                if(model.empty())
                    ++emptied;
            }
            break;
        }
        case 6: {
            size_t n = t.idx(100);
            t.note("reserve(%zu)", n);
            tree->reserve(n);
            break;
        }
        }
        maxsize = std::max(maxsize, model.size());
        CHECK_EQ(tree->size(), model.size(), "size");
        CHECK(!!tree->is_empty() == model.empty(), "is_empty is wrong");
        iterate();
        for(int k = 0; k < range; ++k)
            lookup(k, "after a phase");
    }
    lookup(-1, "end");
    lookup(range, "end");
    if(maxsize > (N + 1) * (N + 1))
        t.label("height of three or more");
    if(emptied && model.size())
        t.label("emptied and refilled");
    if(inserted > N && removed >= 2)
        t.nontrivial();
}

PROP("C17", "tree_int", .rule = "more insertions than a node holds and two removals", .quick = 40000) {
    switch(t.idx(6)) {
    case 0: run_tree<int, 3>(t); break;
    case 1: run_tree<int, 5>(t); break;
    case 2: run_tree<int, 7>(t); break;
    case 3: run_tree<int, 9>(t); break;
    case 4: run_tree<int, 11>(t); break;
    default: run_tree<int, 31>(t); break;
    }
}

// Long histories in bulk, to tall trees.
template<typename P, size_t N> static void run_large(T &t) {
    Lifetimes lt(t);
    using B = NS::BTree<P, N>;
    auto tree = std::make_unique<B>();
    std::map<int, int> model;
    const int range = (int)t.pick({1000, 4000, 20000});
    uint64_t s = t.draw(65536, false);
    auto rnd = [&](uint64_t n) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return (int)((s >> 33) % n);
    };
    t.note("BTree with %zu entries per node, keys 0..%d", N, range - 1);
    int tag = 0;
    size_t removed = 0, inserted = 0;
    for(unsigned phase = 0; phase < 10 && t.more(6); ++phase) {
        const int n = (int)t.uni(1, range), from = (int)t.idx(range), how = (int)t.idx(3), op = (int)t.weighted({4, 3, 2});
        auto key = [&](int i) { return how == 0 ? (from + i) % range : how == 1 ? ((from - i) % range + range) % range : rnd(range); };
        t.note("%s %d keys from %d, order %d", op == 0 ? "insert" : op == 1 ? "remove" : "insert or remove", n, from, how);
        for(int i = 0; i < n; ++i) {
            const int k = key(i);
            if(op == 0 || (op == 2 && rnd(2))) {
                tree->insert(PI<P>::make(k, ++tag));
                model[k] = tag;
                ++inserted;
            } else {
                tree->remove(PI<P>::make(k, 0));
                removed += model.erase(k);
            }
            CHECK_EQ(tree->size(), model.size(), "size");
        }
        for(int k = 0; k < range; k += 1 + range / 3000) {
            const P *r = tree->lookup(PI<P>::make(k, 0));
            auto it = model.find(k);
            CHECK((r != nullptr) == (it != model.end()), "lookup(%d): %s", k, r ? "found, but it is absent" : "not found");
            if(r)
                CHECK(PI<P>::key(*r) == k && PI<P>::tag_ok(*r, it->second), "lookup(%d) gives another entry", k);
        }
#if YEAR == 2026
        auto it = model.begin();
        for(auto &p : *tree) {
            CHECK(it != model.end(), "iteration visits more than the %zu entries", model.size());
            CHECK(PI<P>::key(p) == it->first && PI<P>::tag_ok(p, it->second), "iteration gives key %d instead of %d", PI<P>::key(p), it->first);
            ++it;
        }
        CHECK(it == model.end(), "iteration misses the last entries from %d", it->first);
#endif
    }
    if(inserted >= 1000 && removed >= 100)
        t.nontrivial();
}

PROP("C17", "tree_large", .rule = "at least 1000 insertions and 100 removals", .quick = 2000, .cpu_limit = 60, .guided = false) {
    switch(t.idx(4)) {
    case 0: run_large<int, 3>(t); break;
    case 1: run_large<int, 15>(t); break;
    case 2: run_large<int, 31>(t); break;
    default: run_large<int, 101>(t); break;
    }
}

PROP("C17", "tree_objects", .rule = "more insertions than a node holds and two removals", .quick = 20000) {
    switch(t.idx(4)) {
    case 0: run_tree<Entry, 3>(t); break;
    case 1: run_tree<Entry, 5>(t); break;
    case 2: run_tree<Entry, 9>(t); break;
    default: run_tree<NS::CString, 5>(t); break;
    }
}

template<size_t N> static void run_set(T &t) {
    NS::BTreeSet<int, N> s;
    std::set<int> model;
    const int range = (int)t.pick({4, 20, 100});
    size_t n = 0, removed = 0;
    const unsigned len = t.pick({10u, 50u, 200u});
    while(t.more(len) && ++n < 1000) {
        int k = (int)t.idx(range);
        switch(t.weighted({5, 5, 2})) {
        case 0:
            t.note("insert(%d)", k);
            s.insert(k);
            model.insert(k);
            break;
        case 1:
            t.note("remove(%d)", k);
            s.remove(k);
            removed += model.erase(k);
            break;
        case 2: CHECK(s.contains(k) == !!model.count(k), "contains(%d) is wrong", k); break;
        }
        CHECK_EQ(s.size(), model.size(), "size");
        CHECK(s.is_empty() == model.empty(), "is_empty is wrong");
    }
    for(int k = 0; k < range; ++k)
        CHECK(s.contains(k) == !!model.count(k), "contains(%d) is wrong at the end", k);
    if(model.size() > N && removed >= 2)
        t.nontrivial();
}

PROP("C17", "set", .rule = "more members than a node holds and two removals", .quick = 20000) {
    switch(t.idx(3)) {
    case 0: run_set<3>(t); break;
    case 1: run_set<5>(t); break;
    default: run_set<7>(t); break;
    }
}

template<typename K, typename V, size_t N> static void run_map(T &t, K (*mk)(int)) {
    Lifetimes lt(t);
    NS::BTreeMap<K, V, N> m;
    std::map<int, int> model;
    const int range = (int)t.pick({4, 20, 100});
    size_t n = 0, removed = 0, overwritten = 0;
    const unsigned len = t.pick({10u, 50u, 200u});
    auto lookup = [&](int k) {
        V *p = m.lookup(mk(k));
        auto it = model.find(k);
        CHECK((p != nullptr) == (it != model.end()), "lookup(%d): %s", k, p ? "found, but it is absent" : "not found");
        if(p)
            CHECK(EI<V>::get(*p) == it->second, "lookup(%d) gives %d instead of %d", k, EI<V>::get(*p), it->second);
        return p;
    };
    while(t.more(len) && ++n < 1000) {
        int k = (int)t.idx(range);
        switch(t.weighted({6, 4, 2, 1})) {
        case 0:
            t.note("insert(%d, %zu)", k, n);
            m.insert(mk(k), EI<V>::make((int)n));
            overwritten += model.count(k);
            model[k] = (int)n;
            break;
        case 1:
            t.note("remove(%d)", k);
            m.remove(mk(k));
            removed += model.erase(k);
            break;
        case 2: lookup(k); break;
        case 3:
            if(V *p = lookup(k)) { // the mapped value can be changed in place
                t.note("value of %d = %zu", k, n);
                *p = EI<V>::make((int)n);
                model[k] = (int)n;
            }
            break;
        }
    }
    for(int k = 0; k < range; ++k)
        lookup(k);
    if(overwritten)
        t.label("overwrites");
    if(model.size() > N && removed >= 2)
        t.nontrivial();
}

PROP("C17", "map", .rule = "more entries than a node holds and two removals", .quick = 20000) {
    switch(t.idx(3)) {
    case 0: run_map<int, int, 3>(t, [](int k) { return k; }); break;
    case 1: run_map<int, Tracked, 5>(t, [](int k) { return k; }); break;
    default: run_map<NS::CString, Tracked, 5>(t, [](int k) { return PI<NS::CString>::make(k, 0); }); break;
    }
}

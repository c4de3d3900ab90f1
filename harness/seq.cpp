// C01 Vector, C02 FixedVector, C33 Stack: stateful model-based checks.
#include "ns.hpp"

static constexpr const char *RULE =
    "a random history of 1..60 operations on two or three containers, contents, lifetimes and allocations compared with "
    "std::vector after every operation; non-trivial = at least 4 operations ran and a container held 3 or more elements";

namespace {

template<typename E> void verify(pbt::T &t, const NS::Vector<E> &v, const std::vector<int> &m) {
    CHECK_EQ(v.size(), m.size(), "size");
    CHECK(v.is_empty() == m.empty(), "is_empty disagrees with size");
    CHECK(v.capacity() >= v.size(), "capacity below size");
    for(size_t i = 0; i < m.size(); ++i) {
        int x = EI<E>::get(v[i]);
        if(x != m[i])
            t.fail("element %zu of %zu: got %d, expected %d", i, m.size(), x, m[i]);
    }
    size_t n = 0;
    for(const auto &e : v) {
        if(n >= m.size() || EI<E>::get(e) != m[n])
            t.fail("iteration differs at %zu", n);
        ++n;
    }
    CHECK_EQ(n, m.size(), "number of iterated elements");
    CHECK_EQ(v.cend() - v.cbegin(), (long)m.size(), "cend - cbegin");
}

template<typename E> void vector_case(pbt::T &t) {
    Lifetimes lt(t);
    using V = NS::Vector<E>;
    constexpr size_t N = 2;
    V vs[N];
    std::vector<int> ms[N];
    unsigned ops = 0;
    size_t maxlen = 0;
    auto val = [&] { return (int)t.num(0, 255); };
    while(t.more(25)) {
        ++ops;
        size_t k = t.idx(N);
        V &v = vs[k];
        auto &m = ms[k];
        switch(t.idx(20)) {
        case 0: {
            int x = val();
            t.note("v%zu.push_back(const %d)", k, x);
            if constexpr(EI<E>::copyable) {
                const E e = EI<E>::make(x);
                v.push_back(e);
            } else
                v.push_back(EI<E>::make(x));
            m.push_back(x);
            break;
        }
        case 1: {
            int x = val();
            t.note("v%zu.push_back(move %d)", k, x);
            v.push_back(EI<E>::make(x));
            m.push_back(x);
            break;
        }
        case 2: {
            int x = val();
            t.note("v%zu.emplace_back(%d)", k, x);
            v.emplace_back(x);
            m.push_back(x);
            break;
        }
        case 3: {
            t.note("v%zu.pop_back()", k);
            auto o = v.pop_back();
            CHECK((bool)o == !m.empty(), "pop_back returned %s from %s vector", o ? "a value" : "nothing", m.empty() ? "an empty" : "a non-empty");
            if(!m.empty()) {
                CHECK_EQ(EI<E>::get(*o), m.back(), "popped value");
                m.pop_back();
            }
            break;
        }
        case 4:
            t.note("v%zu.clear()", k);
            v.clear();
            m.clear();
            break;
        case 5: {
            size_t n = t.size(300 * scale);
            t.note("v%zu.reserve(%zu)", k, n);
            v.reserve(n);
            CHECK(v.capacity() >= n, "capacity %zu after reserve(%zu)", v.capacity(), n);
            break;
        }
        case 6: {
            if(m.empty())
                break;
            size_t i = t.idx(m.size());
            int x = val();
            t.note("v%zu[%zu] = %d", k, i, x);
            if(t.chance(50))
                v[i] = EI<E>::make(x);
            else
                v.at(i) = EI<E>::make(x);
            m[i] = x;
            break;
        }
        case 7: {
            size_t i = m.size() + (t.chance(50) ? t.size(20) : (size_t)t.unum(0, SIZE_MAX - m.size()));
            t.note("v%zu[%zu] (out of bounds, size %zu)", k, i, m.size());
            t.label("oob index");
            CHECK(rejects([&] { (void)EI<E>::get(v[i]); }), "index %zu of a vector of size %zu accepted", i, m.size());
            CHECK(rejects([&] { (void)EI<E>::get(v.at(i)); }), "at(%zu) of a vector of size %zu accepted", i, m.size());
            const V &cv = v;
            CHECK(rejects([&] { (void)EI<E>::get(cv[i]); }), "const index %zu of a vector of size %zu accepted", i, m.size());
            break;
        }
        case 8: {
            if(m.empty())
                break;
            size_t i = t.idx(m.size());
            if(t.chance(50)) { // make it grow exactly now
                while(v.size() < v.capacity()) {
                    v.push_back(EI<E>::make(5));
                    m.push_back(5);
                }
            }
            t.label("push_back of own element");
            if constexpr(EI<E>::copyable) {
                t.note("v%zu.push_back(v%zu[%zu]) size %zu", k, k, i, m.size());
                v.push_back(v[i]);
                m.push_back(m[i]);
            } else {
                t.note("v%zu.push_back(move(v%zu[%zu])) size %zu", k, k, i, m.size());
                v.push_back(std::move(v[i]));
                m.push_back(m[i]);
                v[i] = EI<E>::make(3);
                m[i] = 3;
            }
            break;
        }
        case 9: {
            if(m.empty())
                break;
            size_t i = t.idx(m.size());
            if(t.chance(50))
                while(v.size() < v.capacity()) {
                    v.push_back(EI<E>::make(6));
                    m.push_back(6);
                }
            t.note("v%zu.push_back(move(v%zu[%zu])) size %zu", k, k, i, m.size());
            v.push_back(std::move(v[i]));
            m.push_back(m[i]);
            v[i] = EI<E>::make(9);
            m[i] = 9;
            break;
        }
        case 10: {
            if(m.empty())
                break;
            size_t i = t.idx(m.size());
            if(t.chance(50))
                while(v.size() < v.capacity()) {
                    v.emplace_back(8);
                    m.push_back(8);
                }
            t.label("emplace_back of own element");
            t.note("v%zu.emplace_back(v%zu[%zu]) size %zu", k, k, i, m.size());
            if constexpr(EI<E>::copyable) {
                v.emplace_back(v[i]);
                m.push_back(m[i]);
            } else {
                v.emplace_back(std::move(v[i]));
                m.push_back(m[i]);
                v[i] = EI<E>::make(4);
                m[i] = 4;
            }
            break;
        }
        case 11:
        case 12: {
            if constexpr(EI<E>::copyable) {
                std::vector<E> src;
                std::vector<int> sm;
                size_t n = t.size(60 * scale);
                for(size_t i = 0; i < n; ++i) {
                    int x = (int)t.uni(0, 200);
                    src.push_back(EI<E>::make(x));
                    sm.push_back(x);
                }
                src.push_back(EI<E>::make(0)); // the range never covers this one
                switch(t.idx(3)) {
                case 0:
                    t.note("v%zu.append(range of %zu)", k, n);
                    v.append(src.data(), src.data() + n);
                    m.insert(m.end(), sm.begin(), sm.end());
                    break;
                case 1:
                    t.note("v%zu.assign(range of %zu)", k, n);
                    v.assign(src.data(), src.data() + n);
                    m = sm;
                    break;
                default:
                    t.note("v%zu = Vector(range of %zu)", k, n);
                    v = V(src.data(), src.data() + n);
                    m = sm;
                }
            }
            break;
        }
        case 13: {
#if YEAR >= 2026
            size_t n = t.size(40 * scale);
            t.note("v%zu.append_with_default(%zu)", k, n);
            v.append_with_default(n);
            m.insert(m.end(), n, EI<E>::def);
            t.label("append_with_default");
#endif
            break;
        }
        case 14: {
            size_t j = t.idx(N);
            t.note("v%zu = move(v%zu)", k, j);
            if(t.chance(50) || k == j) {
                V &src = vs[j];
                v = std::move(src);
                if(j != k)
                    m = ms[j];
            } else {
                V tmp(std::move(vs[j]));
                v = std::move(tmp);
                m = ms[j];
            }
            if(j != k) {
                // A moved-from vector may hold anything valid: make it known again.
                vs[j].clear();
                ms[j].clear();
            }
            t.label("move");
            break;
        }
        case 15: {
            if constexpr(EI<E>::copyable) {
                t.note("copy of v%zu", k);
                V c(v);
                verify<E>(t, c, m);
                c.push_back(EI<E>::make(1));
                CHECK_EQ(v.size(), m.size(), "size of the source after a push to its copy");
                if(t.chance(50)) {
                    size_t j = t.idx(N);
                    auto m2 = m;
                    m2.push_back(1);
                    vs[j] = std::move(c);
                    ms[j] = m2;
                }
            }
            break;
        }
        case 16: {
            size_t j = t.idx(N);
            bool eq = vs[j] == v, ne = vs[j] != v;
            CHECK(eq == (ms[j] == m) && ne == !eq, "v%zu == v%zu gives %d, != gives %d", j, k, eq, ne);
            break;
        }
        case 17: {
            const V &cv = v;
            if(m.empty()) {
                CHECK(rejects([&] { (void)EI<E>::get(v.front()); }) && rejects([&] { (void)EI<E>::get(v.back()); }) &&
                          rejects([&] { (void)EI<E>::get(cv.front()); }) && rejects([&] { (void)EI<E>::get(cv.back()); }),
                      "front/back of an empty vector accepted");
            } else {
                CHECK_EQ(EI<E>::get(v.front()), m.front(), "front");
                CHECK_EQ(EI<E>::get(v.back()), m.back(), "back");
                CHECK_EQ(EI<E>::get(cv.front()), m.front(), "const front");
                CHECK_EQ(EI<E>::get(cv.back()), m.back(), "const back");
                CHECK_EQ(EI<E>::get(*v.data()), m.front(), "*data()");
            }
            break;
        }
        case 18: {
            size_t n = t.size(280 * scale);
            t.note("v%zu: push_back %zu elements", k, n);
            for(size_t i = 0; i < n; ++i) {
                int x = (int)(i * 7 % 251);
                v.push_back(EI<E>::make(x));
                m.push_back(x);
            }
            break;
        }
        case 19: {
#if YEAR >= 2026
            auto s = v.span();
            CHECK_EQ(s.size(), m.size(), "span size");
            for(size_t i = 0; i < m.size(); ++i)
                CHECK_EQ(EI<E>::get(s[i]), m[i], "span element");
            const V &cv = v;
            auto cs = cv.span();
            CHECK_EQ(cs.size(), m.size(), "const span size");
            if(!m.empty()) {
                size_t i = t.idx(m.size());
                CHECK_EQ(EI<E>::get(cv.unsafe_at(i)), m[i], "unsafe_at");
            }
#endif
            if constexpr(EI<E>::copyable) {
                // Appending from itself is either done right or refused without effect.
                if(m.empty())
                    break;
                size_t b = t.idx(m.size()), e = b + 1 + t.idx(m.size() - b);
                auto want = m;
                want.insert(want.end(), m.begin() + (long)b, m.begin() + (long)e);
                t.note("v%zu.append(v%zu[%zu..%zu))", k, k, b, e);
                bool rej = rejects([&] { v.append(v.begin() + b, v.begin() + e); });
                if(!rej)
                    m = want;
            }
            break;
        }
        }
        verify<E>(t, v, m);
        maxlen = std::max(maxlen, m.size());
        if(m.size() > 900 * scale) {
            v.clear();
            m.clear();
        }
    }
    for(size_t i = 0; i < N; ++i)
        verify<E>(t, vs[i], ms[i]);
    if(maxlen > 16)
        t.label("grew past 16 elements");
    if(maxlen > 64)
        t.label("grew past 64 elements");
    if(ops >= 4 && maxlen >= 3)
        t.nontrivial();
}

template<typename E, size_t CAP> void fixed_case(pbt::T &t) {
    Lifetimes lt(t);
    using V = NS::FixedVector<E, CAP>;
    constexpr size_t N = 2;
    V vs[N];
    std::vector<int> ms[N];
    unsigned ops = 0;
    size_t maxlen = 0;
    bool was_full = false;
    auto check = [&](const V &v, const std::vector<int> &m) {
        CHECK_EQ(v.size(), m.size(), "size");
        CHECK_EQ(v.capacity(), CAP, "capacity");
        CHECK(v.is_empty() == m.empty() && v.is_full() == (m.size() == CAP), "is_empty/is_full wrong at size %zu", m.size());
        for(size_t i = 0; i < m.size(); ++i)
            if(EI<E>::get(v[i]) != m[i])
                t.fail("element %zu of %zu: got %d, expected %d", i, m.size(), EI<E>::get(v[i]), m[i]);
        CHECK_EQ(v.end() - v.begin(), (long)m.size(), "end - begin");
    };
    while(t.more(30)) {
        ++ops;
        size_t k = t.idx(N);
        V &v = vs[k];
        auto &m = ms[k];
        const bool full = m.size() == CAP;
        was_full |= full;
        auto val = [&] { return (int)t.num(0, 255); };
        switch(t.idx(15)) {
        case 0:
        case 1: {
            int x = val();
            t.note("v%zu.push_back(%d)", k, x);
            bool rej;
            if constexpr(EI<E>::copyable) {
                const E e = EI<E>::make(x);
                rej = t.chance(50) ? rejects([&] { v.push_back(e); }) : rejects([&] { v.push_back(EI<E>::make(x)); });
            } else
                rej = rejects([&] { v.push_back(EI<E>::make(x)); });
            CHECK(rej == full, "push_back into %s container was %s", full ? "a full" : "a non-full", rej ? "rejected" : "accepted");
            if(!full)
                m.push_back(x);
            break;
        }
        case 2: {
            int x = val();
            t.note("v%zu.try_push_back(%d)", k, x);
            bool ok;
            if constexpr(EI<E>::copyable) {
                const E e = EI<E>::make(x);
                ok = t.chance(50) ? v.try_push_back(e) : v.try_push_back(EI<E>::make(x));
            } else
                ok = v.try_push_back(EI<E>::make(x));
            CHECK(ok == !full, "try_push_back returned %d (full: %d)", ok, full);
            if(ok)
                m.push_back(x);
            break;
        }
        case 3:
        case 4: {
            size_t loc = t.chance(85) ? t.idx(m.size() + 1) : m.size() + 1 + (size_t)t.unum(0, SIZE_MAX - m.size() - 1);
            int x = val();
            t.note("v%zu.insert(%zu, %d)", k, loc, x);
            bool bad = full || loc > m.size();
            bool rej = rejects([&] { v.insert(loc, EI<E>::make(x)); });
            CHECK(rej == bad, "insert(%zu) into size %zu of %zu was %s", loc, m.size(), CAP, rej ? "rejected" : "accepted");
            if(!bad)
                m.insert(m.begin() + (long)loc, x);
            t.label(bad ? "bad insert" : "insert");
            break;
        }
        case 5: {
            t.note("v%zu.pop_back()", k);
            v.pop_back();
            if(!m.empty())
                m.pop_back();
            break;
        }
        case 6: {
            t.note("v%zu.pop_front()", k);
            v.pop_front();
            if(!m.empty())
                m.erase(m.begin());
            break;
        }
        case 7:
        case 8: {
            size_t i = t.chance(80) && !m.empty() ? t.idx(m.size()) : m.size() + (size_t)t.unum(0, SIZE_MAX - m.size());
            t.note("v%zu.delete_at(%zu)", k, i);
            bool rej = rejects([&] { v.delete_at(i); });
            CHECK(rej == (i >= m.size()), "delete_at(%zu) at size %zu was %s", i, m.size(), rej ? "rejected" : "accepted");
            if(!rej)
                m.erase(m.begin() + (long)i);
            break;
        }
        case 9: {
            size_t j = t.idx(N);
            V &o = vs[j];
            bool bad = j == k || m.size() + ms[j].size() > CAP;
            t.note("v%zu.move_append(v%zu)", k, j);
            bool rej = rejects([&] { v.move_append(o); });
            CHECK(rej == bad, "move_append of %zu to %zu (capacity %zu) was %s", ms[j].size(), m.size(), CAP, rej ? "rejected" : "accepted");
            if(!rej) {
                t.label("move_append");
                m.insert(m.end(), ms[j].begin(), ms[j].end());
                // The source keeps moved-from elements or none; drop whatever is there.
                while(!o.is_empty())
                    o.pop_back();
                ms[j].clear();
            }
            break;
        }
        case 10: {
            size_t j = t.idx(N);
            t.note("v%zu = move(v%zu)", k, j);
            if(j == k) {
                V &o = vs[j];
                v = std::move(o);
            } else {
                if(t.chance(50))
                    v = std::move(vs[j]);
                else {
                    V tmp(std::move(vs[j]));
                    v = std::move(tmp);
                }
                m = ms[j];
                while(!vs[j].is_empty())
                    vs[j].pop_back();
                ms[j].clear();
            }
            break;
        }
        case 11: {
            size_t i = m.size() + (t.chance(50) ? t.size(10) : (size_t)t.unum(0, SIZE_MAX - m.size()));
            const V &cv = v;
            CHECK(rejects([&] { (void)EI<E>::get(v[i]); }) && rejects([&] { (void)EI<E>::get(cv[i]); }),
                  "index %zu of size %zu accepted", i, m.size());
            break;
        }
        case 12: {
            const V &cv = v;
            if(m.empty()) {
                CHECK(rejects([&] { (void)EI<E>::get(v.front()); }) && rejects([&] { (void)EI<E>::get(v.back()); }) &&
                          rejects([&] { (void)EI<E>::get(cv.front()); }) && rejects([&] { (void)EI<E>::get(cv.back()); }),
                      "front/back of an empty container accepted");
            } else {
                CHECK_EQ(EI<E>::get(v.front()), m.front(), "front");
                CHECK_EQ(EI<E>::get(v.back()), m.back(), "back");
                CHECK_EQ(EI<E>::get(cv.front()), m.front(), "const front");
                CHECK_EQ(EI<E>::get(cv.back()), m.back(), "const back");
                CHECK_EQ(EI<E>::get(*v.data()), m.front(), "*data()");
            }
            break;
        }
        case 13: {
#if YEAR >= 2026
            int x = val();
            t.note("v%zu.[try_]emplace_back(%d)", k, x);
            bool ok;
            if(t.chance(50))
                ok = v.try_emplace_back(x);
            else
                ok = !rejects([&] { v.emplace_back(x); });
            CHECK(ok == !full, "emplace_back success %d (full: %d)", ok, full);
            if(ok)
                m.push_back(x);
#endif
            break;
        }
        default: {
            if(m.empty())
                break;
            size_t i = t.idx(m.size());
            int x = val();
            v[i] = EI<E>::make(x);
            m[i] = x;
#if YEAR >= 2026
            auto s = v.span();
            CHECK_EQ(s.size(), m.size(), "span size");
            CHECK_EQ(EI<E>::get(s[i]), x, "span element");
            const V &cv = v;
            CHECK_EQ(cv.span().size(), m.size(), "const span size");
            CHECK_EQ(EI<E>::get(cv.unsafe_at(i)), x, "unsafe_at");
#endif
        }
        }
        check(v, m);
        maxlen = std::max(maxlen, m.size());
    }
    for(size_t i = 0; i < N; ++i)
        check(vs[i], ms[i]);
    if(was_full)
        t.label("operated on a full container");
    if(ops >= 4 && (maxlen >= 3 || maxlen == CAP))
        t.nontrivial();
}

template<typename E> void stack_case(pbt::T &t) {
    Lifetimes lt(t);
    using S = NS::Stack<E>;
    S s;
    std::vector<int> m;
    unsigned ops = 0, pops = 0;
    while(t.more(30)) {
        ++ops;
        switch(t.idx(8)) {
        case 0:
        case 1:
        case 2: {
            int x = (int)t.num(0, 1000);
            t.note("push %d", x);
            s.push(EI<E>::make(x));
            m.push_back(x);
            break;
        }
        case 3: {
            t.note("pop");
            s.pop(); // without effect on an empty stack
            if(m.empty())
                t.label("pop empty");
            else {
                m.pop_back();
                ++pops;
            }
            break;
        }
        case 4: {
            const S &cs = s;
            if(m.empty()) {
                CHECK(rejects([&] { (void)EI<E>::get(s.top()); }) && rejects([&] { (void)EI<E>::get(cs.top()); }),
                      "top of an empty stack accepted");
                break;
            }
            CHECK_EQ(EI<E>::get(s.top()), m.back(), "top");
            CHECK_EQ(EI<E>::get(cs.top()), m.back(), "const top");
            break;
        }
        case 5: {
            size_t n = t.size(100 * scale);
            t.note("push 0..%zu", n);
            for(size_t i = 0; i < n; ++i) {
                s.push(EI<E>::make((int)i));
                m.push_back((int)i);
            }
            break;
        }
        case 6: {
            if(t.chance(50)) {
                t.note("clear");
                s.clear();
                m.clear();
            } else {
                t.note("move away and back");
                S o(std::move(s));
                CHECK_EQ(o.size(), m.size(), "size after move");
                s = std::move(o);
            }
            break;
        }
        case 7: {
            if(m.empty())
                break;
            t.note("push a copy of top");
            s.push(s.top());
            m.push_back(m.back());
            break;
        }
        }
        CHECK_EQ(s.size(), m.size(), "size");
        CHECK(s.is_empty() == m.empty(), "is_empty");
        if(!m.empty())
            CHECK_EQ(EI<E>::get(s.top()), m.back(), "top");
    }
    const bool drain = t.chance(70);
    while(drain && !m.empty()) {
        CHECK_EQ(EI<E>::get(s.top()), m.back(), "top while draining");
        s.pop();
        m.pop_back();
        CHECK_EQ(s.size(), m.size(), "size while draining");
    }
    if(ops >= 3 && pops)
        t.nontrivial();
}

} // namespace

PROP("C01", "vector.int", .rule = RULE, .quick = 60000, .thorough = 2000000) { vector_case<int>(t); }
PROP("C01", "vector.byte", .rule = RULE, .quick = 30000, .thorough = 1000000) { vector_case<unsigned char>(t); }
PROP("C01", "vector.tracked", .rule = RULE, .quick = 80000, .thorough = 2000000) { vector_case<Tracked>(t); }
PROP("C01", "vector.moveonly", .rule = RULE, .quick = 60000, .thorough = 2000000) { vector_case<MoveOnly>(t); }
PROP("C01", "vector.aligned", .rule = RULE, .quick = 30000, .thorough = 1000000) { vector_case<Aligned>(t); }

static constexpr const char *LRULE = "as the other histories, with up to hundreds of times larger containers";
PROP("C01", "vector.large.int", .rule = LRULE, .quick = 5000, .cpu_limit = 60, .guided = false) { Scale s(200); vector_case<int>(t); }
PROP("C01", "vector.large.tracked", .rule = LRULE, .quick = 5000, .cpu_limit = 60, .guided = false) { Scale s(60); vector_case<Tracked>(t); }
PROP("C01", "vector.large.aligned", .rule = LRULE, .quick = 3000, .cpu_limit = 60, .guided = false) { Scale s(30); vector_case<Aligned>(t); }
PROP("C33", "stack.large", .rule = LRULE, .quick = 5000, .cpu_limit = 60, .guided = false) { Scale s(300); stack_case<Tracked>(t); }

PROP("C02", "fixedvector.tracked1", .rule = RULE, .quick = 30000, .thorough = 1000000) { fixed_case<Tracked, 1>(t); }
PROP("C02", "fixedvector.tracked5", .rule = RULE, .quick = 100000, .thorough = 3000000) { fixed_case<Tracked, 5>(t); }
PROP("C02", "fixedvector.moveonly8", .rule = RULE, .quick = 80000, .thorough = 3000000) { fixed_case<MoveOnly, 8>(t); }
PROP("C02", "fixedvector.int3", .rule = RULE, .quick = 60000, .thorough = 3000000) { fixed_case<int, 3>(t); }
PROP("C02", "fixedvector.tracked300", .rule = RULE, .quick = 20000, .thorough = 500000) { fixed_case<Tracked, 300>(t); }
PROP("C02", "fixedvector.aligned40", .rule = RULE, .quick = 40000, .thorough = 1000000) { fixed_case<Aligned, 40>(t); }

static constexpr const char *SRULE =
    "a random history of pushes, pops and peeks against std::vector; non-trivial = 3 or more operations and at least one pop";
PROP("C33", "stack.int", .rule = SRULE, .quick = 100000, .thorough = 3000000) { stack_case<int>(t); }
PROP("C33", "stack.tracked", .rule = SRULE, .quick = 100000, .thorough = 3000000) { stack_case<Tracked>(t); }
PROP("C33", "stack.aligned", .rule = SRULE, .quick = 100000, .thorough = 3000000) { stack_case<Aligned>(t); }

// C03 Bytes, C04 owning pointers and spans, C05 Optional and Expected.
#include "ns.hpp"

namespace {

// ------------------------------------------------------------------ C03
std::string gen_bytes(pbt::T &t, size_t max) {
    size_t n = t.size(max * scale);
    std::string s;
    const int alpha = (int)t.idx(3);
    if(n > 1000) { // repetitive
        std::string unit;
        for(size_t i = 0; i < 37; ++i)
            unit += (char)t.uni(0, 255);
        while(s.size() < n)
            s += unit;
        s.resize(n);
        return s;
    }
    for(size_t i = 0; i < n; ++i)
        s += alpha == 0 ? (char)t.uni(0, 255) : alpha == 1 ? (char)("\x00\x7f\x80\xff"[t.idx(4)]) : (char)t.uni('a', 'c');
    return s;
}

// The text is put in a heap block of its exact size so that overreads are seen.
struct Exact {
    char *p;
    size_t n;
    explicit Exact(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
    ~Exact() { free(p); }
    const char *b() const { return p; }
    const char *e() const { return p + n; }
};

void same(pbt::T &t, const NS::Bytes &b, const std::string &m) {
    CHECK_EQ(b.size(), m.size(), "size");
    CHECK(b.is_empty() == m.empty(), "is_empty");
    CHECK(b.capacity() >= b.size(), "capacity below size");
    if(m.empty()) {
        CHECK(rejects([&] { (void)b.front(); }) && rejects([&] { (void)b.back(); }), "front/back of an empty buffer accepted");
        CHECK(b.begin() == b.end(), "begin != end of an empty buffer");
        return;
    }
    if(memcmp(b.data(), m.data(), m.size()))
        t.fail("contents: got %s, expected %s", pbt::show(b.data(), b.size()).c_str(), pbt::show(m).c_str());
    for(size_t i = 0; i < m.size(); i += 1 + m.size() / 7)
        CHECK_EQ((unsigned char)b[i], (unsigned char)m[i], "operator[]");
    CHECK_EQ(b.front(), m.front(), "front");
    CHECK_EQ(b.back(), m.back(), "back");
    CHECK(std::string(b.begin(), b.end()) == m, "iterated contents differ");
}

void bytes_case(pbt::T &t) {
    using B = NS::Bytes;
    constexpr size_t N = 3;
    B bs[N];
    std::string ms[N];
    unsigned ops = 0;
    size_t maxlen = 0;
    while(t.more(25)) {
        ++ops;
        size_t k = t.idx(N);
        B &b = bs[k];
        std::string &m = ms[k];
        switch(t.idx(20)) {
        case 0: {
            char c = (char)t.num(0, 255);
            t.note("b%zu.append(0x%02x)", k, (unsigned char)c);
            t.chance(50) ? b.append(c) : b.push_back(c);
            m += c;
            break;
        }
        case 1:
        case 2: {
            std::string s = gen_bytes(t, 300);
            t.note("b%zu.append(%s)", k, pbt::show(s).c_str());
            Exact x(s);
            b.append(x.b(), x.e());
            m += s;
            break;
        }
        case 3: {
            std::string s = gen_bytes(t, 200);
            t.note("b%zu.assign(%s)", k, pbt::show(s).c_str());
            Exact x(s);
            b.assign(x.b(), x.n);
            m = s;
            break;
        }
        case 4:
        case 5: {
            std::string s = gen_bytes(t, 60);
            size_t i = t.chance(90) && !m.empty() ? t.idx(m.size()) : m.size() + (t.chance(50) ? 0 : (size_t)t.unum(0, SIZE_MAX - m.size()));
            t.note("b%zu.insert(%zu, %s)", k, i, pbt::show(s).c_str());
            Exact x(s);
            bool rej = rejects([&] { b.insert(i, x.b(), x.n); });
            if(i < m.size())
                CHECK(!rej, "insert inside the buffer was rejected");
            if(i > m.size())
                CHECK(rej, "insert past the end was accepted");
            if(!rej)
                m.insert(i, s);
            break;
        }
        case 6: {
            size_t n = t.chance(70) ? t.idx(m.size() + 3) : (size_t)t.unum(0, SIZE_MAX);
            t.note("b%zu.pop_back(%zu)", k, n);
            if(n == 1 && t.chance(50))
                b.pop_back();
            else
                b.pop_back(n);
            m.resize(m.size() - std::min(n, m.size()));
            break;
        }
        case 7: {
            size_t n = t.chance(70) ? t.idx(m.size() + 3) : (size_t)t.unum(0, SIZE_MAX);
            t.note("b%zu.pop_front(%zu)", k, n);
            if(n == 1 && t.chance(50))
                b.pop_front();
            else
                b.pop_front(n);
            m.erase(0, std::min(n, m.size()));
            t.label("pop_front");
            break;
        }
        case 8: {
            size_t a = t.idx(m.size() + 1), e = a + t.idx(m.size() - a + 1);
            if(t.chance(10))
                std::swap(a, e);
            if(t.chance(15))
                e = m.size() + 1 + (t.chance(50) ? t.size(10) : (size_t)t.unum(0, SIZE_MAX - m.size() - 1));
            t.note("b%zu.remove(%zu, %zu)", k, a, e);
            bool bad = a > e || e > m.size();
            bool rej = rejects([&] { b.remove(a, e); });
            CHECK(rej == bad, "remove(%zu, %zu) of %zu bytes was %s", a, e, m.size(), rej ? "rejected" : "accepted");
            if(!bad)
                m.erase(a, e - a);
            break;
        }
        case 9: {
            size_t n = t.size(300 * scale);
            t.note("b%zu.resize_to(%zu) and fill", k, n);
            t.chance(50) ? b.resize_to(n) : b.resize(n);
            CHECK_EQ(b.size(), n, "size after resize");
            size_t old = m.size();
            m.resize(n, 'R');
            if(n > old)
                memset(b.data() + old, 'R', n - old);
            break;
        }
        case 10: {
            size_t n = t.size(100 * scale);
            t.note("b%zu.extend(%zu) and fill", k, n);
            b.extend(n);
            CHECK_EQ(b.size(), m.size() + n, "size after extend");
            if(n)
                memset(b.data() + m.size(), 'E', n);
            m.append(n, 'E');
            break;
        }
        case 11: {
            size_t n = t.chance(60) ? t.idx(m.size() + 3) : (size_t)t.unum(0, SIZE_MAX);
            t.note("b%zu.shrink(%zu)", k, n);
            b.shrink(n);
            m.resize(m.size() - std::min(n, m.size()));
            break;
        }
        case 12:
            t.note("b%zu.clear()", k);
            b.clear();
            m.clear();
            break;
        case 13: {
            size_t n = t.size(500 * scale);
            t.note("b%zu.reserve(%zu)", k, n);
            b.reserve(n);
            CHECK(b.capacity() >= n, "capacity after reserve");
            break;
        }
        case 14: {
            size_t j = t.idx(N);
            t.note("b%zu = b%zu", k, j);
            if(t.chance(50)) {
                const B &o = bs[j];
                b = o;
            } else {
                B c(bs[j]);
                same(t, c, ms[j]);
                if(!ms[j].empty()) { // independent of its source
                    c.data()[0] ^= 1;
                    same(t, bs[j], ms[j]);
                    c.data()[0] ^= 1;
                }
                b = std::move(c);
            }
            m = ms[j];
            break;
        }
        case 15: {
            size_t j = t.idx(N);
            t.note("b%zu = move(b%zu)", k, j);
            B &o = bs[j];
            if(j == k) {
                b = std::move(o);
                break;
            }
            if(t.chance(50))
                b = std::move(o);
            else {
                B c(std::move(o));
                b = std::move(c);
            }
            m = ms[j];
            o.clear(); // whatever it held: valid and assignable
            ms[j].clear();
            break;
        }
        case 16: {
            size_t j = t.idx(N);
            t.note("b%zu += b%zu", k, j);
            if(m.size() > 4000 * scale)
                break;
            b += bs[j];
            m += std::string(ms[j]);
            break;
        }
        case 17: {
            std::string s = gen_bytes(t, 60);
            Exact x(s);
            t.note("b%zu = Bytes(%s) by some constructor", k, pbt::show(s).c_str());
            switch(t.idx(4)) {
            case 0:
                b = B(x.b(), x.n);
                break;
            case 1:
                b = B(x.b(), x.e());
                break;
            case 2: {
                size_t n = t.size(80 * scale);
                char c = (char)t.uni(0, 255);
                b = B(n, c);
                s.assign(n, c);
                break;
            }
            case 3: {
                B c(t.size(80 * scale));
                CHECK_EQ(c.size(), 0, "size of a buffer built with an initial capacity");
                c.append(x.b(), x.e());
                b = std::move(c);
                break;
            }
            }
            m = s;
            break;
        }
        case 18: { // arguments that point into the buffer itself
            if(m.empty())
                break;
            size_t a = t.idx(m.size()), e = a + t.idx(m.size() - a + 1);
            std::string s = m.substr(a, e - a);
            t.label("argument inside the buffer");
            if(t.chance(50)) {
                t.note("b%zu.append(own bytes %zu..%zu)", k, a, e);
                if(m.size() > 4000 * scale)
                    break;
                b.append(b.begin() + a, b.begin() + e);
                m += s;
            } else {
                t.note("b%zu.assign(own bytes %zu..%zu)", k, a, e);
                b.assign(b.begin() + a, e - a);
                m = s;
            }
            break;
        }
        case 19: {
            size_t i = b.capacity() + (t.chance(50) ? 0 : (size_t)t.unum(0, SIZE_MAX - b.capacity()));
            CHECK(rejects([&] { (void)b[i]; }), "index %zu beyond the capacity accepted", i);
#if YEAR >= 2026
            CHECK_EQ(b.span().size(), m.size(), "span size");
            CHECK(std::string(b.span().begin(), b.span().size()) == m, "span contents");
            for(size_t x = 0; x < m.size(); x += 1 + x / 8)
                CHECK(((const NS::Bytes &)b).unsafe_at(x) == m[x], "unsafe_at");
#else
            CHECK_EQ(b.view().size(), m.size(), "view size");
            CHECK(std::string(b.view().begin(), b.view().size()) == m, "view contents");
#endif
            break;
        }
        }
        same(t, b, m);
        maxlen = std::max(maxlen, m.size());
        if(m.size() > 6000 * scale) {
            b.clear();
            m.clear();
        }
    }
    for(size_t i = 0; i < N; ++i)
        same(t, bs[i], ms[i]);
    if(maxlen >= 64)
        t.label("64 bytes or more");
    if(ops >= 4 && maxlen >= 2)
        t.nontrivial();
}

void bytes_order(pbt::T &t) {
    std::string base = gen_bytes(t, 40), m[3];
    NS::Bytes b[3];
    for(int i = 0; i < 3; ++i) {
        m[i] = base;
        switch(t.idx(5)) {
        case 0:
            break;
        case 1:
            m[i].resize(t.idx(m[i].size() + 1));
            break;
        case 2:
            m[i] += gen_bytes(t, 4);
            break;
        case 3:
            if(!m[i].empty())
                m[i][t.idx(m[i].size())] = (char)t.num(0, 255);
            break;
        case 4:
            m[i] = gen_bytes(t, 40);
        }
        // different histories, same contents
        Exact x(m[i]);
        if(t.chance(50))
            b[i].assign(x.b(), x.n);
        else {
            b[i].append('!');
            b[i].append(x.b(), x.e());
            b[i].pop_front();
        }
        t.note("b%d = %s", i, pbt::show(m[i]).c_str());
    }
#if YEAR >= 2026
    const bool uns = true;
#else
    const NS::Bytes lo("\x7f", 1), hi("\x80", 1);
    const bool uns = lo < hi;
#endif
    auto less = [&](const std::string &x, const std::string &y) {
        return std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end(), [&](char p, char q) {
            return uns ? (unsigned char)p < (unsigned char)q : p < q;
        });
    };
    for(int i = 0; i < 3; ++i)
        for(int j = 0; j < 3; ++j) {
            bool lt = less(m[i], m[j]), gt = less(m[j], m[i]), eq = m[i] == m[j];
            CHECK((b[i] == b[j]) == eq, "b%d == b%d gives %d", i, j, b[i] == b[j]);
            CHECK((b[i] != b[j]) == !eq, "b%d != b%d gives %d", i, j, b[i] != b[j]);
            CHECK((b[i] < b[j]) == lt, "b%d < b%d gives %d, expected %d", i, j, b[i] < b[j], lt);
#if YEAR >= 2026
            int c = b[i] <=> b[j];
            CHECK((c < 0) == lt && (c > 0) == gt, "b%d <=> b%d gives %d", i, j, c);
            CHECK((b[i] > b[j]) == gt && (b[i] <= b[j]) == !gt && (b[i] >= b[j]) == !lt, "derived comparisons of b%d and b%d", i, j);
#else
            (void)gt;
#endif
        }
    if(base.size() >= 2)
        t.nontrivial();
    if(m[0].size() != m[1].size())
        t.label("different lengths");
}

// ------------------------------------------------------------------ C04
void unique_ptr_case(pbt::T &t) {
    Lifetimes lt(t);
    using P = NS::unique_ptr<Tracked>;
    constexpr size_t N = 3;
    P ps[N];
    Tracked *raw[N] = {};
    unsigned ops = 0, moves = 0;
    auto alive = [&] {
        long n = 0;
        for(auto *r : raw)
            n += r != nullptr;
        return n;
    };
    while(t.more(20)) {
        ++ops;
        size_t k = t.idx(N);
        switch(t.idx(6)) {
        case 0: {
            t.note("p%zu = unique_ptr(new)", k);
            Tracked *n = new Tracked((int)k);
            ps[k] = P(n);
            raw[k] = n;
            break;
        }
        case 1: {
            size_t j = t.idx(N);
            t.note("p%zu = move(p%zu)", k, j);
            P &o = ps[j];
            if(t.chance(50) || j == k)
                ps[k] = std::move(o);
            else {
                P c(std::move(o));
                CHECK(o.get() == nullptr, "moved-from pointer still owns");
                ps[k] = std::move(c);
            }
            if(j != k) {
                raw[k] = raw[j];
                raw[j] = nullptr;
            }
            ++moves;
            break;
        }
        case 2: {
            Tracked *n = t.chance(60) ? new Tracked(3) : nullptr;
            t.note("p%zu.reset(%s)", k, n ? "new" : "nullptr");
            ps[k].reset(n);
            raw[k] = n;
            break;
        }
        case 3: {
            t.note("delete p%zu.release()", k);
            Tracked *r = ps[k].release();
            CHECK(r == raw[k], "release returned a different pointer");
            raw[k] = nullptr;
            CHECK(ps[k].get() == nullptr && !ps[k], "pointer not empty after release");
            delete r;
            break;
        }
        case 4: {
            t.note("destroy p%zu", k);
            P c(std::move(ps[k]));
            raw[k] = nullptr;
            break;
        }
        case 5:
            if(raw[k]) {
                CHECK(&*ps[k] == raw[k] && ps[k]->get() == raw[k]->get(), "operator* / ->");
                const P &c = ps[k];
                CHECK(c.get() == raw[k] && c.operator->() == raw[k], "const access");
            }
        }
        for(size_t i = 0; i < N; ++i) {
            CHECK(ps[i].get() == raw[i], "p%zu holds the wrong object", i);
            CHECK((bool)ps[i] == (raw[i] != nullptr), "bool conversion of p%zu", i);
            if(raw[i])
                raw[i]->check("access");
        }
        CHECK_EQ(live_count, alive(), "number of live objects");
    }
    if(ops >= 4 && moves)
        t.nontrivial();
}

void unique_arr_case(pbt::T &t) {
    Lifetimes lt(t);
    using P = NS::unique_arr<Tracked>;
    constexpr size_t N = 3;
    P ps[N];
    const Tracked *raw[N] = {};
    size_t sz[N] = {};
    unsigned ops = 0, moves = 0;
    while(t.more(20)) {
        ++ops;
        size_t k = t.idx(N);
        switch(t.idx(4)) {
        case 0: {
            size_t n = t.size(30 * scale);
            t.note("a%zu = unique_arr(%zu)", k, n);
            if(t.chance(50)) {
                P p(n);
                ps[k] = std::move(p);
            } else {
                P p(new Tracked[n], n);
                ps[k] = std::move(p);
            }
            const P &c = ps[k];
            raw[k] = c.get();
            sz[k] = n;
            break;
        }
        case 1: {
            size_t j = t.idx(N);
            t.note("a%zu = move(a%zu)", k, j);
            P &o = ps[j];
            if(t.chance(50) || j == k)
                ps[k] = std::move(o);
            else {
                P c(std::move(o));
                ps[k] = std::move(c);
            }
            if(j != k) {
                raw[k] = raw[j];
                sz[k] = sz[j];
                raw[j] = nullptr;
                sz[j] = 0;
                CHECK(ps[j].get() == nullptr && ps[j].size() == 0, "moved-from array still owns");
            }
            ++moves;
            break;
        }
        case 2: {
            P c(std::move(ps[k]));
            raw[k] = nullptr;
            sz[k] = 0;
            break;
        }
        case 3: {
            size_t i = t.chance(50) ? sz[k] + t.size(5) : sz[k] + (size_t)t.unum(0, SIZE_MAX - sz[k]);
            const P &c = ps[k];
            CHECK(rejects([&] { (void)ps[k][i]; }) && rejects([&] { (void)c[i]; }), "index %zu of %zu accepted", i, sz[k]);
            for(size_t q = 0; q < sz[k]; ++q) {
                ps[k][q].check("access");
                CHECK(&c[q] == raw[k] + q, "element address");
            }
        }
        }
        long want = 0;
        for(size_t i = 0; i < N; ++i) {
            const P &c = ps[i];
            CHECK(c.get() == raw[i], "a%zu holds the wrong array", i);
            CHECK_EQ(c.size(), sz[i], "size");
            CHECK_EQ(c.size_bytes(), sz[i] * sizeof(Tracked), "size_bytes");
            want += (long)sz[i];
        }
        CHECK_EQ(live_count, want, "number of live objects");
    }
    if(ops >= 4 && moves)
        t.nontrivial();
}

template<typename E> void span_case(pbt::T &t) {
    size_t n = scale > 1 ? t.idx(60 * scale) : t.size(60);
    E *p = (E *)malloc(std::max<size_t>(1, n * sizeof(E)));
    for(size_t i = 0; i < n; ++i)
        p[i] = (E)(i * 3 + 1);
    using S = NS::Span<E>;
    size_t off = 0, len = n;
    {
        S s(p, n);
        unsigned depth = 0, refused = 0;
        while(t.more(5) && depth < 8) {
            ++depth;
            bool sane = t.chance(70);
            size_t o = sane ? t.idx(len + 1) : (size_t)t.unum(0, SIZE_MAX);
            const bool rest = t.chance(25);
            size_t l = rest ? (size_t)-1 : sane ? t.idx(len - o + 1) : t.chance(50) ? (size_t)t.unum(0, SIZE_MAX - 1) : len - std::min(o, len) + t.size(3);
            t.note("span of %zu: subspan(%zu, %lld)", len, o, (long long)l);
            size_t want = rest ? len - std::min(o, len) : l;
            bool inside = o <= len && want <= len - o;
            S r;
            bool rej = rejects([&] { r = (rest && t.chance(50)) ? s.subspan(o) : s.subspan(o, l); });
            if(!inside)
                CHECK(rej, "sub-span (%zu, %zu) outside a span of %zu accepted", o, l, len);
            else if(o < len)
                CHECK(!rej, "sub-span (%zu, %zu) inside a span of %zu rejected", o, l, len);
            if(inside && !rest && want && o + want == len)
                t.label("sub-span reaching the exact end");
            if(rej) {
                ++refused;
                continue;
            }
            s = r;
            off += o;
            len = want;
            CHECK_EQ(s.size(), len, "size of the sub-span");
            CHECK(s.begin() == p + off && s.end() == p + off + len && s.cbegin() == p + off && s.cend() == p + off + len, "sub-span bounds");
            CHECK(s.is_empty() == (len == 0), "is_empty");
            for(size_t i = 0; i < len; ++i)
                CHECK(&s[i] == p + off + i && &s.at(i) == p + off + i, "element %zu", i);
#if YEAR >= 2026
            CHECK_EQ(s.size_bytes(), len * sizeof(E), "size_bytes");
            CHECK(s.data() == p + off, "data");
#endif
            size_t bad = t.chance(50) ? len : len + (size_t)t.unum(0, SIZE_MAX - len);
            const S &cs = s;
            CHECK(rejects([&] { (void)s[bad]; }) && rejects([&] { (void)cs[bad]; }) && rejects([&] { (void)s.at(bad); }),
                  "index %zu of a span of %zu accepted", bad, len);
        }
        if(depth >= 1 && n >= 2)
            t.nontrivial();
        if(refused)
            t.label("refused sub-span");
    }
    free(p);
}

#if YEAR == 2025
void bytesview_case(pbt::T &t) {
    std::string m = scale > 1 ? std::string(t.idx(60 * scale), 'b') : gen_bytes(t, 60);
    for(size_t i = 0; scale > 1 && i < m.size(); ++i)
        m[i] = (char)(i * 7 + i / 256);
    Exact x(m);
    NS::BytesView v(x.b(), x.n);
    unsigned depth = 0;
    while(t.more(5) && depth < 8) {
        ++depth;
        bool sane = t.chance(70);
        size_t o = sane ? t.idx(m.size() + 1) : (size_t)t.unum(0, SIZE_MAX);
        bool rest = t.chance(25);
        size_t l = rest ? (size_t)-1 : sane ? t.idx(m.size() - o + 1) : t.chance(50) ? (size_t)t.unum(0, SIZE_MAX - 1) : 1 + t.size(3);
        t.note("view of %zu: subview(%zu, %lld)", m.size(), o, (long long)l);
        size_t want = rest ? m.size() - std::min(o, m.size()) : l;
        bool inside = o <= m.size() && want <= m.size() - o;
        NS::BytesView r;
        bool rej = rejects([&] { r = v.subview(o, l); });
        CHECK(rej == !inside, "sub-view (%zu, %zu) of %zu was %s", o, l, m.size(), rej ? "rejected" : "accepted");
        if(rej)
            continue;
        v = r;
        m = m.substr(o, want);
        CHECK_EQ(v.size(), m.size(), "size");
        CHECK(v.is_empty() == m.empty(), "is_empty");
        CHECK(std::string(v.begin(), v.end()) == m, "contents");
        for(size_t i = 0; i < m.size(); ++i)
            CHECK(v[i] == m[i] && v.at(i) == m[i], "element");
        size_t bad = m.size() + (t.chance(50) ? 0 : (size_t)t.unum(0, SIZE_MAX - m.size()));
        CHECK(rejects([&] { (void)v[bad]; }), "index %zu accepted", bad);
    }
    if(depth)
        t.nontrivial();
}
#endif

// ------------------------------------------------------------------ C05
template<typename E> void optional_case(pbt::T &t) {
    Lifetimes lt(t);
    using O = NS::Optional<E>;
    constexpr size_t N = 3;
    constexpr int NONE = -1;
    O os[N];
    int ms[N];
    std::fill(ms, ms + N, NONE);
    unsigned ops = 0, transitions = 0;
    while(t.more(20)) {
        ++ops;
        size_t k = t.idx(N), j = t.idx(N);
        O &o = os[k];
        const int before = ms[k];
        switch(t.idx(10)) {
        case 0: {
            int x = (int)t.num(0, 100);
            t.note("o%zu = move value %d", k, x);
            o = EI<E>::make(x);
            ms[k] = x;
            break;
        }
        case 1: {
            int x = (int)t.num(0, 100);
            t.note("o%zu = const value %d", k, x);
            if constexpr(EI<E>::copyable) {
                const E e = EI<E>::make(x);
                o = e;
                CHECK_EQ(EI<E>::get(e), x, "source of a copy");
            } else
                o = EI<E>::make(x);
            ms[k] = x;
            break;
        }
        case 2: {
            t.note("o%zu.reset()", k);
            o.reset();
            ms[k] = NONE;
            break;
        }
        case 3: {
            if constexpr(EI<E>::copyable) {
                t.note("o%zu = copy of o%zu", k, j);
                const O &src = os[j];
                o = src;
                ms[k] = ms[j];
            }
            break;
        }
        case 4: {
            t.note("o%zu = move(o%zu)", k, j);
            O &src = os[j];
            o = std::move(src);
            if(j != k) {
                ms[k] = ms[j];
                src.reset();
                ms[j] = NONE;
            }
            break;
        }
        case 5: {
            if constexpr(EI<E>::copyable) {
                O c(static_cast<const O &>(os[j]));
                CHECK((bool)c == (ms[j] != NONE), "state of a copy");
                if(c)
                    CHECK_EQ(EI<E>::get(*c), ms[j], "value of a copy");
                t.note("o%zu = copy-constructed from o%zu", k, j);
                o = std::move(c);
                ms[k] = ms[j];
            }
            break;
        }
        case 6: {
            t.note("o%zu = move-constructed from o%zu", k, j);
            O c(std::move(os[j]));
            CHECK((bool)c == (ms[j] != NONE), "state of a moved optional");
            int x = ms[j];
            os[j].reset();
            ms[j] = NONE;
            o = std::move(c);
            ms[k] = x;
            break;
        }
        case 7: {
            int x = (int)t.num(0, 100);
            t.note("o%zu = Optional(%d)", k, x);
            O c{EI<E>::make(x)};
            CHECK(c && EI<E>::get(c.value()) == x, "value after construction");
            o = std::move(c);
            ms[k] = x;
            break;
        }
        case 8: {
            if(ms[k] != NONE) {
                t.note("o%zu = its own value", k);
                if constexpr(EI<E>::copyable) {
                    if(t.chance(50)) {
                        const E &r = *o;
                        o = r;
                        break;
                    }
                }
                o = std::move(*o);
            }
            break;
        }
        case 9: {
            if(ms[k] != NONE) {
                int x = (int)t.num(0, 100);
                t.note("*o%zu = %d", k, x);
                *o = EI<E>::make(x);
                ms[k] = x;
            }
        }
        }
        transitions += (before == NONE) != (ms[k] == NONE);
        long alive = 0;
        for(size_t i = 0; i < N; ++i) {
            const O &c = os[i];
            O &m = os[i];
            CHECK((bool)c == (ms[i] != NONE), "o%zu %s", i, c ? "claims a value" : "lost its value");
            if(ms[i] != NONE) {
                ++alive;
                CHECK(EI<E>::get(*c) == ms[i] && EI<E>::get(c.value()) == ms[i] && EI<E>::get(*m) == ms[i] &&
                          EI<E>::get(m.value()) == ms[i] && EI<E>::get(*m.operator->()) == ms[i] && EI<E>::get(*c.operator->()) == ms[i],
                      "value of o%zu: got %d, expected %d", i, EI<E>::get(*c), ms[i]);
            } else
{
                // one way per step: unwinding is what costs the time here
                bool r = true;
                switch((ops + i) % 6) {
                case 0: r = rejects([&] { (void)*c; }); break;
                case 1: r = rejects([&] { (void)c.value(); }); break;
                case 2: r = rejects([&] { (void)*m; }); break;
                case 3: r = rejects([&] { (void)m.value(); }); break;
                case 4: r = rejects([&] { (void)m.operator->(); }); break;
                default: r = rejects([&] { (void)c.operator->(); });
                }
                CHECK(r, "access to the empty o%zu accepted", i);
            }
        }
        if constexpr(!std::is_same_v<E, int>)
            CHECK_EQ(live_count, alive, "number of live objects");
    }
    if(transitions >= 2)
        t.nontrivial();
}

void optional_ptr_case(pbt::T &t) {
    using O = NS::Optional<int *>;
    int store[4] = {1, 2, 3, 4};
    O os[3];
    int *ms[3] = {};
    unsigned ops = 0;
    while(t.more(12)) {
        ++ops;
        size_t k = t.idx(3), j = t.idx(3);
        switch(t.idx(5)) {
        case 0: {
            int *p = &store[t.idx(4)];
            os[k] = O(p);
            ms[k] = p;
            break;
        }
        case 1:
            os[k].reset();
            ms[k] = nullptr;
            break;
        case 2: {
            const O &c = os[j];
            os[k] = c;
            ms[k] = ms[j];
            break;
        }
        case 3: {
            O c(os[j]);
            O d(std::move(c));
            os[k] = std::move(d);
            ms[k] = ms[j];
            break;
        }
        case 4:
            os[k] = O(nullptr);
            ms[k] = nullptr;
        }
        for(size_t i = 0; i < 3; ++i) {
            CHECK((bool)os[i] == (ms[i] != nullptr), "state of o%zu", i);
            if(ms[i])
#if YEAR == 2025 // its operator* does not compile for pointers
                CHECK(&os[i].value() == ms[i] && os[i].operator->() == ms[i], "pointer of o%zu", i);
            else
                CHECK(rejects([&] { (void)os[i].value(); }) && rejects([&] { (void)os[i].operator->(); }), "access to the empty o%zu", i);
#else
                CHECK(&*os[i] == ms[i] && os[i].operator->() == ms[i], "pointer of o%zu", i);
            else
                CHECK(rejects([&] { (void)os[i].value(); }) && rejects([&] { (void)*os[i]; }), "access to the empty o%zu", i);
#endif
        }
    }
    if(ops >= 3)
        t.nontrivial();
}

template<typename V, typename E> void expected_case(pbt::T &t) {
    Lifetimes lt(t);
    using X = NS::Expected<V, E>;
    constexpr size_t N = 3;
    X xs[N];
    int st[N] = {}, val[N] = {}; // 0 neither, 1 value, 2 error
    unsigned ops = 0, transitions = 0;
    while(t.more(18)) {
        ++ops;
        size_t k = t.idx(N), j = t.idx(N);
        const int before = st[k];
        switch(t.idx(9)) {
        case 0:
        case 1: {
            int x = (int)t.num(0, 100);
            t.note("x%zu = value %d", k, x);
            if(t.chance(50)) {
                V v = EI<V>::make(x);
                X c(v);
                xs[k] = std::move(c);
            } else
                xs[k] = X(EI<V>::make(x));
            st[k] = 1;
            val[k] = x;
            break;
        }
        case 2:
        case 3: {
            int x = (int)t.num(0, 100);
            t.note("x%zu = error %d", k, x);
            switch(t.idx(3)) {
            case 0: {
                const E e = EI<E>::make(x);
                X c(e);
                xs[k] = std::move(c);
                break;
            }
            case 1:
                xs[k] = X(EI<E>::make(x));
                break;
            case 2:
                xs[k] = X(NS::Unexpected<E>(EI<E>::make(x)));
                break;
            }
            st[k] = 2;
            val[k] = x;
            break;
        }
        case 4:
        case 5: {
            t.note("x%zu = move(x%zu)", k, j);
            X &o = xs[j];
            xs[k] = std::move(o);
            if(j != k) {
                st[k] = st[j];
                val[k] = val[j];
                o = X(EI<V>::make(55)); // the moved-from one can be assigned again
                st[j] = 1;
                val[j] = 55;
                t.label(st[k] == 1 ? "moved a value" : st[k] == 2 ? "moved an error" : "moved an empty one");
            }
            break;
        }
        case 6: {
            t.note("x%zu = move-constructed from x%zu", k, j);
            int s = st[j], v = val[j];
            X c(std::move(xs[j]));
            CHECK(c.has_value() == (s == 1) && c.has_error() == (s == 2), "state of the moved-to object");
            xs[j] = X(EI<E>::make(66));
            st[j] = 2;
            val[j] = 66;
            xs[k] = std::move(c);
            st[k] = s;
            val[k] = v;
            break;
        }
        case 7: {
            t.note("x%zu = X()", k);
            xs[k] = X();
            st[k] = 0;
            break;
        }
        case 8: {
            if(t.chance(99)) // costs a process
                break;
            t.note("wrong access to x%zu", k);
            X &o = xs[k];
            if(st[k] != 1)
                CHECK(aborts_or_throws([&] { (void)o.value(); }), "value() granted without a value");
            if(st[k] != 2)
                CHECK(aborts_or_throws([&] { (void)o.error(); }), "error() granted without an error");
            t.label("refused access");
            break;
        }
        }
        transitions += before != st[k];
        for(size_t i = 0; i < N; ++i) {
            X &c = xs[i];
            CHECK(c.has_value() == (st[i] == 1) && c.has_error() == (st[i] == 2) && (bool)c == (st[i] == 1), "state of x%zu", i);
            if(st[i] == 1)
                CHECK_EQ(EI<V>::get(c.value()), val[i], "value");
            if(st[i] == 2)
                CHECK_EQ(EI<E>::get(c.error()), val[i], "error");
        }
    }
    if(transitions >= 2)
        t.nontrivial();
}

} // namespace

PROP("C03", "bytes.history", .rule = "random history of 1..50 edits on three buffers against std::string; non-trivial = 4 or more edits and a buffer of 2+ bytes",
     .quick = 40000, .thorough = 4000000) {
    bytes_case(t);
}
PROP("C03", "bytes.order", .rule = "three related buffers, all comparison operators pairwise against byte-wise lexicographic order; non-trivial = base text of 2+ bytes",
     .quick = 150000, .thorough = 4000000) {
    bytes_order(t);
}
static constexpr const char *OWN = "random ownership transfers between three owners, live objects counted; non-trivial = 4 or more operations with a move";
PROP("C03", "bytes.large", .rule = "as bytes.history, with up to 100 times larger buffers", .quick = 15000, .cpu_limit = 60, .guided = false) {
    Scale s(100);
    bytes_case(t);
}
PROP("C04", "unique_ptr", .rule = OWN, .quick = 150000, .thorough = 3000000) { unique_ptr_case(t); }
PROP("C04", "unique_arr", .rule = OWN, .quick = 120000, .thorough = 3000000) { unique_arr_case(t); }
static constexpr const char *SP = "chains of sub-views with offsets and lengths inside, at and beyond the bounds; non-trivial = at least one sub-view request on 2+ elements";
PROP("C04", "span.int", .rule = SP, .quick = 200000, .thorough = 4000000) { span_case<int>(t); }
PROP("C04", "span.char", .rule = SP, .quick = 200000, .thorough = 4000000) { span_case<char>(t); }
#if YEAR == 2025
PROP("C04", "bytesview", .rule = SP, .quick = 200000, .thorough = 4000000) { bytesview_case(t); }
#endif
#define LARGE(F) { Scale s(1500); F; }
PROP("C04", "span.large.int", .rule = SP, .quick = 1000, .cpu_limit = 60, .guided = false) LARGE(span_case<int>(t))
PROP("C04", "span.large.char", .rule = SP, .quick = 1000, .cpu_limit = 60, .guided = false) LARGE(span_case<char>(t))
#if YEAR == 2025
PROP("C04", "bytesview.large", .rule = SP, .quick = 1000, .cpu_limit = 60, .guided = false) LARGE(bytesview_case(t))
#endif
#undef LARGE
static constexpr const char *OPT = "random assignments, copies, moves and resets among three objects; non-trivial = at least two changes between holding states";
PROP("C05", "optional.tracked", .rule = OPT, .quick = 60000, .thorough = 4000000) { optional_case<Tracked>(t); }
PROP("C05", "optional.int", .rule = OPT, .quick = 30000, .thorough = 2000000) { optional_case<int>(t); }
PROP("C05", "optional.moveonly", .rule = OPT, .quick = 30000, .thorough = 2000000) { optional_case<MoveOnly>(t); }
PROP("C05", "optional.pointer", .rule = "random assignments among three optional pointers; non-trivial = 3 or more operations", .quick = 60000, .thorough = 2000000) {
    optional_ptr_case(t);
}
using Other = Elem<16, true>;
PROP("C05", "expected.tracked", .rule = OPT, .quick = 40000, .thorough = 3000000) { expected_case<Tracked, Other>(t); }
PROP("C05", "expected.mixed", .rule = OPT, .quick = 30000, .thorough = 3000000) { expected_case<int, Tracked>(t); }
PROP("C05", "expected.aligned", .rule = OPT, .quick = 30000, .thorough = 3000000) { expected_case<Aligned, int>(t); }

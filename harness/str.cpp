// C07 CString edits, C08 string queries, C09 FixedCString, C14 natural order, C34 exception messages.
#include "ns.hpp"

namespace {

// Bytes in a heap block of exactly their size: reading past them is a sanitizer report.
struct Exact {
    explicit Exact(const std::string &s) : n(s.size()), p(new char[n ? n : 1]) {
        memcpy(p.get(), s.data(), n);
        if(n == 0) // nothing may be read
            q.reset(new char[1]), p.swap(q);
    }
    const char *data() const { return p.get(); }
    size_t size() const { return n; }
    size_t n;
    std::unique_ptr<char[]> p, q;
};
struct ExactZ { // terminated
    explicit ExactZ(const std::string &s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.c_str(), s.size() + 1); }
    const char *c() const { return p.get(); }
    std::unique_ptr<char[]> p;
};

char gen_char(pbt::T &t, bool ws) {
    switch(t.weighted({8, ws ? 4u : 0u, 2, 2, 1})) {
    case 0:
        return (char)('a' + t.idx(3));
    case 1:
        return t.pick({' ', '\n', '\t', '\r'});
    case 2:
        return (char)t.uni(33, 126);
    case 3:
        return (char)(unsigned char)t.num(128, 255);
    default: {
        char c = (char)(unsigned char)t.num(1, 255);
        return c == '\v' || c == '\f' ? 'v' : c;
    }
    }
}
std::string gen_text(pbt::T &t, size_t max, bool ws = true) {
    std::string s;
    size_t n = t.size(max * scale);
    if((n > 20 && t.chance(50)) || n > 1000) { // long and repetitive
        std::string unit;
        const size_t m = n > 1000 && t.chance(50) ? 61 : t.size(5);
        for(size_t i = 0; i < m; ++i)
            unit.push_back(gen_char(t, ws));
        if(unit.empty())
            unit = "a";
        while(s.size() < n)
            s += unit;
        s.resize(n);
        return s;
    }
    for(size_t i = 0; i < n; ++i)
        s.push_back(gen_char(t, ws));
    return s;
}
bool is_ws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }

std::vector<std::string> ref_split(const std::string &s, const std::function<bool(char)> &sep) {
    std::vector<std::string> r;
    std::string cur;
    for(char c : s) {
        if(sep(c)) {
            if(!cur.empty())
                r.push_back(cur);
            cur.clear();
        } else
            cur.push_back(c);
    }
    if(!cur.empty())
        r.push_back(cur);
    return r;
}

void check_cstring(pbt::T &t, const NS::CString &s, const std::string &m, const char *who) {
    CHECK(s.size() == m.size() && s.length() == m.size(), "size of %s: got %zu, expected %zu", who, s.size(), m.size());
    CHECK(memcmp(s.c_str(), m.data(), m.size()) == 0, "text of %s: got %s, expected %s", who,
          pbt::show(std::string(s.c_str(), s.size())).c_str(), pbt::show(m).c_str());
    CHECK(s.c_str()[m.size()] == '\0', "%s is not terminated after its last character", who);
    CHECK(s.is_empty() == m.empty(), "is_empty of %s", who);
    CHECK(s.data() == s.c_str(), "data of %s", who);
    CHECK(s.view().size() == m.size(), "view size of %s", who);
    CHECK(s == m.c_str(), "%s == its own text", who);
    if(!m.empty()) {
        CHECK(s.front() == m.front() && s.back() == m.back(), "front or back of %s", who);
        CHECK(s[m.size() / 2] == m[m.size() / 2], "operator[] of %s", who);
    }
}

void cstring_case(pbt::T &t) {
    using S = NS::CString;
    constexpr size_t N = 3;
    S ss[N];
    std::string ms[N];
    unsigned ops = 0;
    size_t longest = 0;
    while(t.more(22)) {
        ++ops;
        size_t k = t.idx(N), j = t.idx(N);
        S &s = ss[k];
        std::string &m = ms[k];
        switch(t.idx(27)) {
        case 0: {
            char c = gen_char(t, true);
            int how = (int)t.idx(3);
            t.note("s%zu.%s(%s)", k, how == 0 ? "append" : how == 1 ? "push_back" : "+=", pbt::show(std::string(1, c)).c_str());
            if(how == 0)
                s.append(c);
            else if(how == 1)
                s.push_back(c);
            else
                s += c;
            m += c;
            break;
        }
        case 1: {
            std::string x = gen_text(t, 70);
            t.note("s%zu.append(ptr, %zu) %s", k, x.size(), pbt::show(x).c_str());
            Exact e(x);
            s.append(e.data(), e.size());
            m += x;
            break;
        }
        case 2: {
            std::string x = gen_text(t, 70);
            t.note("s%zu.append/+= cstr %s", k, pbt::show(x).c_str());
            ExactZ z(x);
            if(t.chance(50))
                s.append(z.c());
            else
                s += z.c();
            m += x;
            break;
        }
        case 3: {
            std::string x = gen_text(t, 40);
            t.note("s%zu.append(start, stop) %s", k, pbt::show(x).c_str());
            Exact e(x);
            s.append(e.data(), e.data() + e.size());
            m += x;
            break;
        }
        case 4:
            t.note("s%zu += s%zu", k, j);
            s += ss[j];
            m += std::string(ms[j]);
            break;
        case 5: {
            std::string x = gen_text(t, 40);
            t.note("s%zu = cstr %s", k, pbt::show(x).c_str());
            ExactZ z(x);
            s = z.c();
            m = x;
            break;
        }
        case 6: {
            t.note("s%zu = copy of s%zu", k, j);
            const S &o = ss[j];
            s = o;
            m = std::string(ms[j]);
            break;
        }
        case 7: {
            t.note("s%zu = move(s%zu)", k, j);
            S &o = ss[j];
            s = std::move(o);
            if(j != k) {
                m = ms[j];
                if(t.chance(50)) {
                    o = S("reborn");
                    ms[j] = "reborn";
                } else {
                    o.clear();
                    ms[j].clear();
                }
            }
            break;
        }
        case 8: {
            if(m.empty())
                break; // insert position must lie inside
            size_t at = t.idx(m.size());
            std::string x = gen_text(t, 40);
            t.note("s%zu.insert(%zu, %s)", k, at, pbt::show(x).c_str());
            Exact e(x);
            s.insert(at, NS::CStringView(e.data(), e.size()));
            m.insert(at, x);
            break;
        }
        case 9: {
            if(m.empty())
                break;
            size_t at = t.idx(m.size()), from = t.idx(m.size()), len = t.idx(m.size() - from + 1);
            t.note("s%zu.insert(%zu, own text %zu+%zu)", k, at, from, len);
            s.insert(at, NS::CStringView(s.c_str() + from, len));
            m.insert(at, std::string(m, from, len));
            t.label("insert own text");
            break;
        }
        case 10: {
            size_t from = t.idx(m.size() + 1), to = from + t.idx(m.size() - from + 1);
            t.note("s%zu.remove(%zu, %zu)", k, from, to);
            s.remove(from, to);
            m.erase(from, to - from);
            break;
        }
        case 11:
            t.note("s%zu.pop_back()", k);
            s.pop_back();
            if(!m.empty())
                m.pop_back();
            break;
        case 12: {
            if(t.chance(60)) { // give it something to strip
                std::string pad;
                size_t n = t.size(5);
                for(size_t i = 0; i < n; ++i)
                    pad.push_back(t.pick({' ', '\n', '\t', '\r'}));
                s += pad.c_str();
                m += pad;
                if(!m.empty() && t.chance(60)) {
                    s.insert(0, NS::CStringView(" \t", 2));
                    m.insert(0, " \t");
                }
            }
            t.note("s%zu.strip() of %s", k, pbt::show(m).c_str());
            s.strip();
            while(!m.empty() && is_ws(m.back()))
                m.pop_back();
            while(!m.empty() && is_ws(m.front()))
                m.erase(0, 1);
            break;
        }
        case 13: {
            size_t n = t.size(m.size() + 60);
            t.note("s%zu.resize(%zu) from %zu", k, n, m.size());
            s.resize(n);
            CHECK(s.size() == n, "size after resize(%zu): %zu", n, s.size());
            CHECK(s.c_str()[n] == '\0', "not terminated after resize(%zu)", n);
            for(size_t i = m.size(); i < n; ++i)
                s.mutable_data()[i] = 'x';
            m.resize(n, 'x');
            break;
        }
        case 14:
            t.note("s%zu.clear()", k);
            s.clear();
            m.clear();
            break;
        case 15: {
            size_t n = t.size(300);
            t.note("s%zu.reserve(%zu)", k, n);
            s.reserve(n);
            break;
        }
        case 16: {
            t.note("s%zu = upper/lower of s%zu", k, j);
            bool up = t.chance(50);
            S c = up ? ss[j].upper() : ss[j].lower();
            std::string r = ms[j];
            for(char &ch : r)
                if(up ? (ch >= 'a' && ch <= 'z') : (ch >= 'A' && ch <= 'Z'))
                    ch ^= 0x20;
            s = std::move(c);
            m = r;
            break;
        }
        case 17: {
            size_t from = t.idx(ms[j].size() + 1), len = t.idx(ms[j].size() - from + 1);
            std::string r(ms[j], from, len);
            if(t.chance(30)) {
                t.note("s%zu = s%zu.substr(%zu)", k, j, from);
                r = ms[j].substr(from);
                s = ss[j].substr(from);
            } else {
                t.note("s%zu = s%zu.substr(%zu, %zu)", k, j, from, len);
                s = ss[j].substr(from, len);
            }
            m = r;
            break;
        }
        case 18: {
            std::string x = gen_text(t, 60);
            int how = (int)t.idx(4);
            t.note("s%zu = constructed (%d) from %s", k, how, pbt::show(x).c_str());
            Exact e(x);
            ExactZ z(x);
            if(how == 0)
                s = S(e.data(), e.size());
            else if(how == 1)
                s = S(z.c());
            else if(how == 2)
                s = S(NS::CStringView(e.data(), e.size()));
            else
                s = S(NS::Bytes(e.data(), e.size()));
            m = x;
            break;
        }
        case 19: {
            // Text with a zero byte inside is rejected everywhere.
            std::string x = gen_text(t, 30);
            x.insert(t.idx(x.size() + 1), 1, '\0');
            int how = (int)t.idx(6);
            t.note("zero byte offered to s%zu, way %d: %s", k, how, pbt::show(x).c_str());
            Exact e(x);
            bool r;
            switch(how) {
            case 0:
                r = rejects([&] { S c(e.data(), e.size()); });
                break;
            case 1:
                r = rejects([&] { S c(NS::Bytes(e.data(), e.size())); });
                break;
            case 2:
                r = rejects([&] { S c(NS::CStringView(e.data(), e.size())); });
                break;
            case 3:
                r = rejects([&] { s.append('\0'); });
                break;
            case 4:
                r = rejects([&] { s += '\0'; });
                break;
            default:
                r = rejects([&] { s.append(e.data(), e.size()); });
                if(r && s.size() > m.size() && s.size() <= m.size() + x.size()) { // a rejected append may have added the clean beginning
                    std::string p(x, 0, s.size() - m.size());
                    if(p.find('\0') == std::string::npos)
                        m += p;
                }
            }
            CHECK(r, "text with a zero byte was accepted (way %d)", how);
            t.label("zero byte");
            break;
        }
        case 20: {
            if(m.empty())
                break;
            size_t from = t.idx(m.size()), len = t.idx(m.size() - from + 1);
            t.note("s%zu.append(own text %zu+%zu)", k, from, len);
            if(t.chance(50)) {
                s.append(s.c_str() + from, len);
                m += std::string(m, from, len);
            } else {
                s += s.c_str() + from;
                m += std::string(m, from);
            }
            t.label("append own text");
            break;
        }
        case 21: {
            size_t from = t.idx(m.size() + 1);
            t.note("s%zu = own text from %zu", k, from);
            s = s.c_str() + from;
            m = std::string(m, from);
            break;
        }
        case 22: {
            size_t from = t.idx(m.size() + 3), to = t.idx(m.size() + 4);
            if(from <= to && to <= m.size())
                break;
            t.note("s%zu.remove(%zu, %zu) of %zu", k, from, to, m.size());
            CHECK(rejects([&] { s.remove(from, to); }), "removal of [%zu, %zu) from a text of %zu accepted", from, to, m.size());
            break;
        }
        case 23: {
            size_t off = t.chance(50) ? m.size() + 1 + t.idx(5) : (size_t)t.unum(m.size() + 1, UINT64_MAX);
            size_t len = t.chance(50) ? t.idx(5) : (size_t)-1;
            t.note("s%zu.substr(%zu, %zu) of %zu", k, off, len, m.size());
            CHECK(rejects([&] { (void)s.substr(off, len); }), "substr from %zu of a text of %zu accepted", off, m.size());
            break;
        }
        case 24: {
            // Length beyond the end: either rejected or cut at the end.
            size_t off = t.idx(m.size() + 1);
            size_t len = t.chance(50) ? m.size() - off + 1 + t.idx(9) : (size_t)t.unum(m.size() - off + 1, UINT64_MAX - 1);
            t.note("s%zu.substr(%zu, %zu) of %zu", k, off, len, m.size());
            S c("?");
            if(!rejects([&] { c = s.substr(off, len); }))
                check_cstring(t, c, m.substr(off), "substr with a length beyond the end");
            break;
        }
        case 25: {
            t.note("s%zu = copy-constructed from s%zu", k, j);
            S c(static_cast<const S &>(ss[j]));
            check_cstring(t, c, ms[j], "a copy");
            S d(std::move(c));
            check_cstring(t, d, ms[j], "a moved-to string");
            std::string r = ms[j];
            s = std::move(d);
            m = r;
            break;
        }
        case 26: {
            if(m.empty())
                break;
            size_t i = t.idx(m.size());
            t.note("s%zu.mutable_data()[%zu] = '#'", k, i);
            s.mutable_data()[i] = '#';
            m[i] = '#';
        }
        }
        for(size_t i = 0; i < N; ++i) {
            check_cstring(t, ss[i], ms[i], i == 0 ? "s0" : i == 1 ? "s1" : "s2");
            longest = std::max(longest, ms[i].size());
        }
        if(longest > 3000)
            break;
    }
    if(ops >= 4 && longest >= 2)
        t.nontrivial();
}

// ---- queries -------------------------------------------------------------

bool same(const NS::CStringView &v, const std::string &s) { return v.size() == s.size() && (s.empty() || memcmp(v.data(), s.data(), s.size()) == 0); }

struct Sink {
    std::vector<std::string> got;
    size_t limit;
};
bool sink_cb(const NS::CStringView &p, void *ctx) {
    Sink *s = (Sink *)ctx;
    s->got.push_back(std::string(p.data(), p.size()));
    return s->got.size() < s->limit;
}

void check_pieces(pbt::T &t, const std::vector<std::string> &got, std::vector<std::string> want, size_t limit, const char *what) {
    if(want.size() > limit)
        want.resize(limit);
    CHECK(got.size() == want.size(), "%s: got %zu pieces, expected %zu", what, got.size(), want.size());
    for(size_t i = 0; i < got.size(); ++i)
        CHECK(got[i] == want[i], "%s: piece %zu is %s, expected %s", what, i, pbt::show(got[i]).c_str(), pbt::show(want[i]).c_str());
}

std::string gen_needle(pbt::T &t, const std::string &text) {
    switch(t.weighted({4, 3, 3, 2})) {
    case 0: { // a piece of the text
        size_t a = t.idx(text.size() + 1), b = t.idx(text.size() - a + 1);
        return text.substr(a, b);
    }
    case 1: { // a suffix
        return text.substr(t.idx(text.size() + 1));
    }
    case 2: { // a piece with one change or addition
        size_t a = t.idx(text.size() + 1), b = t.idx(text.size() - a + 1);
        std::string s = text.substr(a, b);
        if(s.empty() || t.chance(50))
            s.push_back(gen_char(t, true));
        else
            s[t.idx(s.size())] = gen_char(t, true);
        return s;
    }
    default:
        return gen_text(t, 8);
    }
}

int sgn(int x) { return x < 0 ? -1 : x > 0; }

void query_case(pbt::T &t) {
    using V = NS::CStringView;
    using S = NS::CString;
    const size_t NPOS = (size_t)-1;
    const std::string a = gen_text(t, 60), b = gen_needle(t, a);
    t.note("a = %s", pbt::show(a).c_str());
    t.note("b = %s", pbt::show(b).c_str());
    Exact ea(a), eb(b);
    ExactZ za(a), zb(b);
    V va(ea.data(), ea.size()), vb(eb.data(), eb.size());
    S sa(za.c()), sb(zb.c());
    const auto want = [](size_t p) { return p == std::string::npos ? (size_t)-1 : p; };

    CHECK(same(va, a) && same(V(ea.data(), ea.data() + ea.size()), a) && same(V(za.c()), a) && same(V(sa), a) && same(sa.view(), a),
          "a view does not show its text");
    CHECK(va.is_empty() == a.empty() && va.size() == a.size(), "is_empty or size");
    CHECK((size_t)(va.end() - va.begin()) == a.size(), "end - begin");
    CHECK((va == vb) == (a == b), "view == view");
    CHECK((va == zb.c()) == (a == b), "view == const char *");
    CHECK((vb == za.c()) == (a == b), "view == const char * (2)");
    CHECK((sa == sb) == (a == b), "CString == CString");
    CHECK((sa == vb) == (a == b), "CString == view");
    CHECK((sa == zb.c()) == (a == b), "CString == const char *");
    CHECK((va < vb) == (a < b), "view < view: got %d", va < vb);
    CHECK((vb < va) == (b < a), "view < view (2): got %d", vb < va);
#if YEAR == 2025
    {
        const bool u = a < b;
        const bool sg = std::lexicographical_compare((const signed char *)a.data(), (const signed char *)a.data() + a.size(),
                                                     (const signed char *)b.data(), (const signed char *)b.data() + b.size());
        CHECK((sa < sb) == u || (sa < sb) == sg, "CString < CString");
    }
#else
    CHECK((sa < sb) == (a < b) && (sa > sb) == (a > b) && (sa <= sb) == (a <= b) && (sa >= sb) == (a >= b), "CString ordering");
    CHECK(sgn(sa <=> sb) == sgn(a.compare(b)), "CString <=>");
#endif
    CHECK(va.starts_with(vb) == (b.size() <= a.size() && a.compare(0, b.size(), b) == 0), "starts_with(view)");
    CHECK(va.starts_with(zb.c()) == (b.size() <= a.size() && a.compare(0, b.size(), b) == 0), "starts_with(const char *)");
    CHECK(vb.starts_with(va) == (a.size() <= b.size() && b.compare(0, a.size(), a) == 0), "starts_with(view) (2)");

    size_t p = va.find(vb), q = want(a.find(b));
    CHECK(p == q, "view.find(view): got %zd, expected %zd", (ssize_t)p, (ssize_t)q);
    CHECK(sa.find(vb) == q, "CString.find(view): got %zd, expected %zd", (ssize_t)sa.find(vb), (ssize_t)q);
    CHECK(vb.find(va) == want(b.find(a)), "view.find(view) (2): got %zd", (ssize_t)vb.find(va));
    if(q != NPOS && !b.empty())
        t.label("needle found");
    char c = a.empty() || t.chance(40) ? gen_char(t, true) : a[t.idx(a.size())];
    CHECK(va.find(c) == want(a.find(c)), "view.find(char)");
    CHECK(sa.rfind(c) == want(a.rfind(c)), "CString.rfind: got %zd, expected %zd", (ssize_t)sa.rfind(c), (ssize_t)want(a.rfind(c)));

    // single characters
    size_t i = a.empty() || t.chance(30) ? (t.chance(50) ? a.size() : (size_t)t.unum(a.size(), UINT64_MAX)) : t.idx(a.size());
    if(i < a.size())
        CHECK(va[i] == a[i] && va.at(i) == a[i], "operator[](%zu)", i);
    else
        CHECK(rejects([&] { (void)va[i]; }) && rejects([&] { (void)va.at(i); }), "index %zu of a text of %zu accepted", i, a.size());
    if(a.empty()) {
        CHECK(rejects([&] { (void)va.front(); }), "front of an empty view accepted");
        CHECK(rejects([&] { (void)sa.back(); }), "back of an empty string accepted");
    } else {
        CHECK(va.front() == a.front(), "front");
#if YEAR >= 2026
        CHECK(va.unsafe_at(a.size() - 1) == a.back(), "unsafe_at");
#endif
    }

    // sub-views
    for(int r = 0; r < 2; ++r) {
        size_t pos = t.chance(75) ? t.idx(a.size() + 1) : (size_t)t.unum(0, UINT64_MAX);
        size_t cnt = t.chance(60) ? t.idx(a.size() + 3) : (size_t)t.unum(0, UINT64_MAX);
        t.note("substr(%zu, %zu)", pos, cnt);
        V sub;
        bool rej = rejects([&] { sub = va.substr(pos, cnt); });
        if(pos > a.size())
            CHECK(rej, "substr(%zu, %zu) of %zu accepted", pos, cnt, a.size());
        else if(pos < a.size()) {
            CHECK(!rej, "substr(%zu, %zu) of %zu rejected", pos, cnt, a.size());
            CHECK(same(sub, a.substr(pos, cnt)), "substr(%zu, %zu): %zu bytes", pos, cnt, sub.size());
        } else if(!rej)
            CHECK(sub.is_empty(), "substr at the end is not empty");
    }

    // overlap of two views into one text
    if(!a.empty()) {
        size_t s1 = t.idx(a.size() + 1), l1 = t.idx(a.size() - s1 + 1), s2 = t.idx(a.size() + 1), l2 = t.idx(a.size() - s2 + 1);
        V o1(ea.data() + s1, l1), o2(ea.data() + s2, l2);
        bool over = l1 && l2 && s1 < s2 + l2 && s2 < s1 + l1;
        if(l1 && l2) // an empty view has no agreed answer
            CHECK(o1.overlaps(o2) == over && o2.overlaps(o1) == over, "[%zu, %zu) overlaps [%zu, %zu): got %d", s1, s1 + l1, s2, s2 + l2, o1.overlaps(o2));
    }

    // splitting
    size_t limit = t.chance(70) ? NPOS : 1 + t.idx(3);
    {
        Sink k{{}, limit};
        sa.split(sink_cb, &k);
        check_pieces(t, k.got, ref_split(a, is_ws), limit, "CString.split");
        NS::Vector<S> v = sa.split();
        std::vector<std::string> g;
        for(size_t x = 0; x < v.size(); ++x)
            g.push_back(str(v[x]));
        check_pieces(t, g, ref_split(a, is_ws), NPOS, "CString.split to vector");
    }
    {
        Sink k{{}, limit};
        sa.split_by(c, sink_cb, &k);
        check_pieces(t, k.got, ref_split(a, [c](char x) { return x == c; }), limit, "CString.split_by");
        NS::Vector<S> v = sa.split_by(c);
        std::vector<std::string> g;
        for(size_t x = 0; x < v.size(); ++x)
            g.push_back(str(v[x]));
        check_pieces(t, g, ref_split(a, [c](char x) { return x == c; }), NPOS, "CString.split_by to vector");
    }
#if YEAR != 2025
    {
        Sink k{{}, limit};
        va.split(sink_cb, &k);
        check_pieces(t, k.got, ref_split(a, is_ws), limit, "CStringView.split");
    }
    {
        using Z = NS::ZStringView;
        Z z1(za.c()), z2(za.c(), a.size()), z3 = sa.zview();
        for(const Z *z : {&z1, &z2, &z3}) {
            CHECK(z->size() == a.size(), "ZStringView size: got %zu, expected %zu", z->size(), a.size());
            CHECK(strcmp(z->c_str(), a.c_str()) == 0 && same(z->view(), a), "ZStringView text");
            CHECK((*z == zb.c()) == (a == b) && (*z == Z(zb.c())) == (a == b), "ZStringView ==");
        }
        size_t k = t.chance(70) ? t.idx(a.size() + 1) : (size_t)t.unum(a.size() + 1, UINT64_MAX);
        if(k <= a.size()) {
            Z s = z1.subview(k);
            CHECK(s.size() == a.size() - k && strcmp(s.c_str(), a.c_str() + k) == 0, "ZStringView.subview(%zu)", k);
        } else
            CHECK(rejects([&] { (void)z1.subview(k); }), "ZStringView.subview(%zu) of %zu accepted", k, a.size());
    }
#endif
    // case conversion
    for(int up = 0; up < 2; ++up) {
        std::string r = a;
        for(char &ch : r)
            if(up ? (ch >= 'a' && ch <= 'z') : (ch >= 'A' && ch <= 'Z'))
                ch ^= 0x20;
        CHECK(str(up ? va.upper() : va.lower()) == r, "%s", up ? "upper" : "lower");
    }
    if(a.size() >= 2 && !b.empty())
        t.nontrivial();
}

// ---- fixed size ----------------------------------------------------------

template<size_t C> void fixed_case(pbt::T &t) {
    using F = NS::FixedCString<C>;
    using G = NS::FixedCString<C + 5>;
    constexpr size_t N = 3;
    F fs[N];
    std::string ms[N];
    unsigned ops = 0;
    size_t longest = 0;
    auto text = [&](size_t max) {
        // around the capacity
        std::string s = gen_text(t, max);
        if(t.chance(40)) {
            size_t want = C - std::min<size_t>(C, t.idx(3));
            if(t.chance(30))
                want = C + 1 + t.idx(4);
            if(want <= max)
                s.resize(want, 'f');
        }
        return s;
    };
    while(t.more(16)) {
        ++ops;
        size_t k = t.idx(N), j = t.idx(N);
        F &f = fs[k];
        std::string &m = ms[k];
        switch(t.idx(12)) {
        case 0:
        case 1: {
            std::string x = text(C + 6);
            t.note("f%zu = F(cstr %s)", k, pbt::show(x).c_str());
            ExactZ z(x);
            bool rej = rejects([&] { f = F(z.c()); });
            CHECK(rej == (x.size() > C), "text of %zu in capacity %zu: %s", x.size(), C, rej ? "rejected" : "accepted");
            if(!rej)
                m = x;
            break;
        }
        case 2:
        case 3: {
            std::string x = text(C + 6);
            t.note("f%zu = F(ptr, %zu) %s", k, x.size(), pbt::show(x).c_str());
            Exact e(x);
            bool rej = rejects([&] { f = F(e.data(), (uint32_t)e.size()); });
            CHECK(rej == (x.size() > C), "text of %zu in capacity %zu: %s", x.size(), C, rej ? "rejected" : "accepted");
            if(!rej)
                m = x;
            break;
        }
        case 4: {
            std::string x = text(C);
            if(x.empty())
                break;
            x[t.idx(x.size())] = '\0';
            t.note("F(ptr, %zu) %s", x.size(), pbt::show(x).c_str());
            Exact e(x);
            CHECK(rejects([&] { F c(e.data(), (uint32_t)e.size()); }), "text with a zero byte accepted");
            t.label("zero byte");
            break;
        }
        case 5:
        case 6: {
            std::string x = text(C + 6);
            t.note("f%zu = view %s", k, pbt::show(x).c_str());
            Exact e(x);
            bool rej = rejects([&] { f = NS::CStringView(e.data(), e.size()); });
            CHECK(rej == (x.size() > C), "view of %zu in capacity %zu: %s", x.size(), C, rej ? "rejected" : "accepted");
            if(!rej)
                m = x;
            break;
        }
        case 7: {
            t.note("f%zu = copy of f%zu", k, j);
            const F &o = fs[j];
            if(t.chance(50))
                f = o;
            else {
                F c(o);
                f = c;
            }
            m = std::string(ms[j]);
            break;
        }
        case 8: {
            t.note("f%zu = move(f%zu)", k, j);
            F &o = fs[j];
            if(t.chance(50))
                f = std::move(o);
            else {
                F c(std::move(o));
                f = std::move(c);
            }
            if(j != k) {
                m = ms[j];
                o = F("");
                ms[j].clear();
            }
            break;
        }
        case 9:
            t.note("f%zu.pop_back()", k);
            f.pop_back();
            if(!m.empty())
                m.pop_back();
            break;
        case 10: {
            std::string x = text(C + 5);
            t.note("f%zu = FixedCString<%zu>(%s)", k, C + 5, pbt::show(x).c_str());
            G g(x.c_str());
            bool rej = rejects([&] { f = g; });
            CHECK(rej == (x.size() > C), "other string of %zu in capacity %zu: %s", x.size(), C, rej ? "rejected" : "accepted");
            if(!rej)
                m = x;
            break;
        }
        case 11: {
            size_t n = t.idx(m.size() + 1);
            t.note("f%zu = the first %zu characters of itself", k, n);
            f = NS::CStringView(f.c_str(), n);
            m.resize(n);
        }
        }
        for(size_t i = 0; i < N; ++i) {
            F &x = fs[i];
            const F &cx = fs[i];
            CHECK(x.size() == ms[i].size(), "size of f%zu: got %zu, expected %zu", i, x.size(), ms[i].size());
            CHECK(memcmp(cx.c_str(), ms[i].c_str(), ms[i].size() + 1) == 0, "text or terminator of f%zu: got %s, expected %s", i,
                  pbt::show(std::string(cx.c_str(), std::min(C + 1, ms[i].size() + 1))).c_str(), pbt::show(ms[i]).c_str());
            CHECK(x.is_empty() == ms[i].empty() && same(cx.view(), ms[i]), "is_empty or view of f%zu", i);
            longest = std::max(longest, ms[i].size());
        }
        std::string other = t.chance(50) ? ms[j] : gen_needle(t, ms[k]);
        ExactZ z(other);
        Exact e(other);
        CHECK((fs[k] == z.c()) == (ms[k] == other), "f%zu == const char * %s", k, pbt::show(other).c_str());
        CHECK((fs[k] == NS::CStringView(e.data(), e.size())) == (ms[k] == other), "f%zu == view %s", k, pbt::show(other).c_str());
        CHECK((fs[k] == fs[j].view()) == (ms[k] == ms[j]), "f%zu == f%zu", k, j);
        if(!ms[k].empty()) {
            size_t i = t.idx(ms[k].size());
            const F &cx = fs[k];
            CHECK(fs[k][(uint32_t)i] == ms[k][i] && cx[(uint32_t)i] == ms[k][i], "operator[]");
        }
        CHECK(rejects([&] { (void)fs[k][(uint32_t)(C + 1 + t.idx(3))]; }), "index beyond the buffer accepted");
    }
    if(ops >= 3 && longest >= 1)
        t.nontrivial();
}

#if YEAR != 2025
// ---- natural order -------------------------------------------------------

struct Tok {
    bool num;
    std::string digits; // without leading zeros
    unsigned char c;
};
std::vector<Tok> tokens(const std::string &s) {
    std::vector<Tok> r;
    for(size_t i = 0; i < s.size();) {
        if(s[i] >= '0' && s[i] <= '9') {
            std::string d;
            while(i < s.size() && s[i] >= '0' && s[i] <= '9')
                d.push_back(s[i++]);
            d.erase(0, std::min(d.find_first_not_of('0'), d.size()));
            r.push_back({true, d, 0});
        } else
            r.push_back({false, "", (unsigned char)s[i++]});
    }
    return r;
}
constexpr int UNSPECIFIED = 99;
int ref_natural(const std::string &a, const std::string &b, bool sgnd) {
    auto x = tokens(a), y = tokens(b);
    for(size_t i = 0; i < x.size() && i < y.size(); ++i) {
        if(x[i].num != y[i].num)
            return UNSPECIFIED; // only has to be consistent
        if(x[i].num) {
            if(x[i].digits.size() != y[i].digits.size())
                return x[i].digits.size() < y[i].digits.size() ? -1 : 1;
            if(int r = x[i].digits.compare(y[i].digits))
                return sgn(r);
        } else if(x[i].c != y[i].c)
            return (sgnd ? (signed char)x[i].c < (signed char)y[i].c : x[i].c < y[i].c) ? -1 : 1;
    }
    return x.size() < y.size() ? -1 : x.size() > y.size();
}
std::string gen_nat(pbt::T &t) {
    std::string s;
    while(t.more(4)) {
        switch(t.weighted({5, 4, 1, 1, 1})) {
        case 0: { // number
            if(t.chance(20))
                s.append(t.size(4 * scale), '0');
            switch(t.idx(4)) {
            case 0:
                s += std::to_string(t.idx(20));
                break;
            case 1:
                s += std::to_string(t.unum(0, UINT64_MAX));
                break;
            case 2:
                s += std::to_string(t.unum(UINT64_MAX - 20, UINT64_MAX));
                break;
            default: {
                size_t n = t.chance(90) ? t.size(45 * scale) : t.size(700 * scale);
                for(size_t i = 0; i < n; ++i)
                    s.push_back((char)('0' + t.idx(10)));
            }
            }
            break;
        }
        case 1:
            s.push_back((char)('a' + t.idx(3)));
            break;
        case 2:
            s.push_back(t.pick({' ', '+', '-', '.', '/', ':', '\t'}));
            break;
        case 3:
            s.push_back((char)(unsigned char)t.num(128, 255));
            break;
        default:
            s.push_back((char)t.uni(33, 126));
        }
    }
    return s;
}
std::string gen_related(pbt::T &t, const std::string &a) {
    std::string s = a;
    switch(t.idx(6)) {
    case 0:
        return gen_nat(t);
    case 1:
        return s + gen_nat(t);
    case 2:
        s.resize(t.idx(s.size() + 1));
        return s + gen_nat(t);
    case 3:
        if(!s.empty())
            s[t.idx(s.size())] = (char)('0' + t.idx(10));
        return s;
    case 4:
        s.insert(t.idx(s.size() + 1), 1, t.pick({'0', ' ', '-', '9', 'a'}));
        return s;
    default:
        return s;
    }
}
#endif

} // namespace

PROP("C07", "cstring.history", .rule = "random history of edits on three strings against std::string; non-trivial = 4 or more edits and a text of 2+ bytes",
     .quick = 300000, .thorough = 10000000) {
    cstring_case(t);
}
PROP("C08", "queries", .rule = "a text and a related needle, every query against its definition on buffers of exact size; non-trivial = text of 2+ bytes and a non-empty needle",
     .quick = 400000, .thorough = 10000000) {
    query_case(t);
}
static constexpr const char *FX = "random history on three fixed strings with texts around the capacity; non-trivial = 3+ operations and a non-empty text";
PROP("C09", "fixed.1", .rule = FX, .quick = 25000, .thorough = 800000) { fixed_case<1>(t); }
PROP("C09", "fixed.7", .rule = FX, .quick = 40000, .thorough = 1500000) { fixed_case<7>(t); }
PROP("C09", "fixed.40", .rule = FX, .quick = 25000, .thorough = 800000) { fixed_case<40>(t); }

PROP("C09", "fixed.300", .rule = FX, .quick = 10000, .thorough = 300000) { fixed_case<300>(t); }
PROP("C07", "cstring.large", .rule = "as cstring.history, with up to 200 times longer texts", .quick = 15000, .cpu_limit = 60, .guided = false) {
    Scale s(200);
    cstring_case(t);
}
PROP("C08", "queries.large", .rule = "as queries, with up to 100 times longer texts", .quick = 15000, .cpu_limit = 60, .guided = false) {
    Scale s(100);
    query_case(t);
}

#if YEAR != 2025
static void natural_case(pbt::T &t) {
    std::string s[3];
    s[0] = gen_nat(t);
    s[1] = gen_related(t, s[0]);
    s[2] = gen_related(t, s[t.idx(2)]);
    // exact blocks; the terminated copies hold the text as part of a longer digit run
    int c[3][3];
    for(int i = 0; i < 3; ++i)
        t.note("s%d = %s", i, pbt::show(s[i]).c_str());
    const bool inside = t.chance(30);
    for(int i = 0; i < 3; ++i)
        for(int j = 0; j < 3; ++j) {
            std::string x = s[i], y = s[j];
            if(inside) { // a view into a larger text
                x += "7";
                y += "8";
            }
            Exact ex(x), ey(y);
            NS::CStringView vx(ex.data(), s[i].size()), vy(ey.data(), s[j].size());
            c[i][j] = sgn(vx.natural_order(vy));
        }
    bool sg = true, us = true;
    for(int i = 0; i < 3; ++i)
        for(int j = 0; j < 3; ++j) {
            CHECK(c[i][j] == -c[j][i], "order of s%d and s%d: %d one way, %d the other", i, j, c[i][j], c[j][i]);
            int u = ref_natural(s[i], s[j], false), g = ref_natural(s[i], s[j], true);
            if(u != UNSPECIFIED) {
                us &= u == c[i][j];
                sg &= g == c[i][j];
                CHECK(c[i][j] == u || c[i][j] == g, "order of s%d and s%d: got %d, expected %d", i, j, c[i][j], u);
            }
            for(int k = 0; k < 3; ++k) {
                if(c[i][j] < 0 && c[j][k] < 0)
                    CHECK(c[i][k] < 0, "s%d < s%d < s%d but not s%d < s%d", i, j, k, i, k);
                if(c[i][j] == 0)
                    CHECK(c[i][k] == c[j][k], "s%d and s%d are equal but compare differently with s%d", i, j, k);
            }
        }
    CHECK(sg || us, "bytes compared in two different ways");
    if(s[0] != s[1] && s[0].find_first_of("0123456789") != std::string::npos && s[1].find_first_of("0123456789") != std::string::npos)
        t.nontrivial();
}
static constexpr const char *NAT = "three related texts of digit runs and other bytes; value against a reference and order laws; non-trivial = two different texts containing digits";
PROP("C14", "natural", .rule = NAT, .quick = 300000, .thorough = 8000000) { natural_case(t); }
PROP("C14", "natural.large", .rule = NAT, .quick = 2000, .cpu_limit = 60, .guided = false) {
    Scale s(200);
    natural_case(t);
}
#endif

namespace {
std::string gen_message(pbt::T &t) {
    std::string s;
    size_t n = t.size(60 * scale);
    if(t.chance(5))
        n += 2000;
    const bool valid = t.chance(30); // without ill-formed sequences
    for(size_t i = 0; i < n; ++i)
        switch(t.weighted({6, 2, valid ? 0u : 2u, valid ? 0u : 1u, 1})) {
        case 0:
            s.push_back((char)t.uni(32, 126));
            break;
        case 1:
            s += t.pick({"\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\x80", "\xed\x9f\xbf"});
            break;
        case 2:
            s.push_back((char)(unsigned char)t.num(128, 255));
            break;
        case 3:
            s.push_back((char)(unsigned char)t.num(1, 255));
            break;
        default:
            s += t.pick({"\n", "%s", "\x7f", "\t"});
        }
    return s;
}
bool well_formed(const std::string &s) {
    for(size_t i = 0; i < s.size();) {
        const unsigned char c = (unsigned char)s[i];
        const size_t more = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : 9;
        if(more == 9 || s.size() - i <= more)
            return false;
        for(size_t j = 1; j <= more; ++j)
            if(((unsigned char)s[i + j] & 0xc0) != 0x80)
                return false;
        const unsigned char d = more ? (unsigned char)s[i + 1] : 0;
        if((c == 0xe0 && d < 0xa0) || (c == 0xed && d > 0x9f) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d > 0x8f))
            return false;
        i += 1 + more;
    }
    return true;
}
// The readable forms of a message: as given, or with everything outside ASCII replaced.
bool acceptable(const std::string &got, const std::string &given) {
    size_t i = 0, j = 0;
    while(i < given.size()) {
        if((unsigned char)given[i] < 128) {
            if(j >= got.size() || got[j] != given[i])
                return false;
            ++i, ++j;
            continue;
        }
        // a run of other bytes: verbatim, or replaced by one or more marks
        size_t e = i;
        while(e < given.size() && (unsigned char)given[e] >= 128)
            ++e;
        std::string run = given.substr(i, e - i);
        if(got.compare(j, run.size(), run) == 0)
            j += run.size();
        else {
            size_t marks = 0, max = run.size();
            // '?' in the given text may follow: take exactly as many as there were bytes, or code points
            while(marks < max && j + marks < got.size() && got[j + marks] == '?')
                ++marks;
            if(marks == 0)
                return false;
            j += marks;
        }
        i = e;
    }
    return j == got.size();
}
} // namespace
static void message_case(pbt::T &t) {
    std::string m = gen_message(t);
    t.note("message %s", pbt::show(m).c_str());
    ExactZ z(m);
    std::string got[4];
    auto text = [](const NS::PyException &e) { return std::string(e.what().c_str(), e.what().size_bytes()); };
    try {
        NS::PyException e(z.c());
        got[0] = text(e);
        NS::PyException copy(e);
        got[1] = text(copy);
    } catch(...) {
        t.fail("creating the exception failed: %s", describe_exception(std::current_exception()).c_str());
    }
    try {
        try {
            throw NS::PyException(z.c());
        } catch(const NS::PyException &e) {
            got[2] = text(e);
            throw;
        }
    } catch(const NS::PyException &e) {
        got[3] = text(e);
    }
    if(well_formed(m))
        CHECK(got[0] == m, "message reads %s", pbt::show(got[0]).c_str());
    CHECK(acceptable(got[0], m), "message reads %s", pbt::show(got[0]).c_str());
    for(int i = 1; i < 4; ++i)
        CHECK(got[i] == got[0], "message changed to %s (%d)", pbt::show(got[i]).c_str(), i);
    {
        NS::U8String u(got[0].c_str(), got[0].size());
        try {
            throw NS::PyException(u);
        } catch(const NS::PyException &e) {
            CHECK(text(e) == got[0], "message given as U8String reads %s", pbt::show(text(e)).c_str());
        }
    }
    for(char c : m)
        if(c & 0x80) {
            t.nontrivial();
            break;
        }
}
static constexpr const char *MSG = "exceptions built from arbitrary messages, copied, thrown and rethrown; non-trivial = message with a byte outside ASCII";
PROP("C34", "messages", .rule = MSG, .quick = 150000, .thorough = 4000000) { message_case(t); }
PROP("C34", "messages.large", .rule = MSG, .quick = 3000, .cpu_limit = 60, .guided = false) {
    Scale s(1000);
    message_case(t);
}

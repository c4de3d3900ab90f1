// C10 UTF-8 validation, C11 iteration, C12 edits, C13 case mapping.
#include "ns.hpp"
#include "case.inc"

namespace {
using Cps = std::vector<uint32_t>;

std::string enc1(uint32_t c, unsigned len = 0) { // len forces an overlong form
    if(!len)
        len = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
    std::string s(len, 0);
    for(unsigned i = len; i-- > 1;) {
        s[i] = (char)(0x80 | (c & 0x3f));
        c >>= 6;
    }
    s[0] = (char)(len == 1 ? c : len == 2 ? 0xC0 | (c & 0x1f) : len == 3 ? 0xE0 | (c & 0xf) : 0xF0 | (c & 7));
    return s;
}
std::string enc(const Cps &v) {
    std::string s;
    for(uint32_t c : v)
        s += enc1(c);
    return s;
}
// The Unicode definition (table 3-7), spelled out by byte ranges.
bool ref_valid(const std::string &s) {
    size_t i = 0;
    auto in = [&](size_t k, unsigned lo, unsigned hi) {
        if(k >= s.size())
            return false;
        unsigned char c = (unsigned char)s[k];
        return c >= lo && c <= hi;
    };
    while(i < s.size()) {
        if(in(i, 0, 0x7f))
            i += 1;
        else if(in(i, 0xC2, 0xDF) && in(i + 1, 0x80, 0xBF))
            i += 2;
        else if(in(i, 0xE0, 0xE0) && in(i + 1, 0xA0, 0xBF) && in(i + 2, 0x80, 0xBF))
            i += 3;
        else if(((in(i, 0xE1, 0xEC) || in(i, 0xEE, 0xEF)) && in(i + 1, 0x80, 0xBF)) && in(i + 2, 0x80, 0xBF))
            i += 3;
        else if(in(i, 0xED, 0xED) && in(i + 1, 0x80, 0x9F) && in(i + 2, 0x80, 0xBF))
            i += 3;
        else if(in(i, 0xF0, 0xF0) && in(i + 1, 0x90, 0xBF) && in(i + 2, 0x80, 0xBF) && in(i + 3, 0x80, 0xBF))
            i += 4;
        else if(in(i, 0xF1, 0xF3) && in(i + 1, 0x80, 0xBF) && in(i + 2, 0x80, 0xBF) && in(i + 3, 0x80, 0xBF))
            i += 4;
        else if(in(i, 0xF4, 0xF4) && in(i + 1, 0x80, 0x8F) && in(i + 2, 0x80, 0xBF) && in(i + 3, 0x80, 0xBF))
            i += 4;
        else
            return false;
    }
    return true;
}
Cps ref_decode(const std::string &s) { // of a valid text
    Cps r;
    for(size_t i = 0; i < s.size();) {
        unsigned char c = (unsigned char)s[i];
        unsigned len = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        uint32_t v = len == 1 ? c : len == 2 ? c & 0x1f : len == 3 ? c & 0xf : c & 7;
        for(unsigned k = 1; k < len; ++k)
            v = v << 6 | ((unsigned char)s[i + k] & 0x3f);
        r.push_back(v);
        i += len;
    }
    return r;
}
uint32_t gen_cp(pbt::T &t) {
    switch(t.weighted({6, 4, 4, 4, 3, 2})) {
    case 0:
        return (uint32_t)t.uni('a', 'f');
    case 1:
        return (uint32_t)t.num(0x80, 0x7ff);
    case 2: {
        uint32_t c = (uint32_t)t.num(0x800, 0xffff - 0x800);
        return c >= 0xd800 ? c + 0x800 : c;
    }
    case 3:
        return (uint32_t)t.num(0x10000, 0x10ffff);
    case 4:
        return t.pick<uint32_t>({' ', '\n', '\t', '\r'});
    default:
        return t.pick<uint32_t>({1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xdf, 0x130, 0x1c4, 0x390, 0xfb03});
    }
}
Cps gen_cps(pbt::T &t, size_t max) {
    Cps v;
    size_t n = t.size(max * scale);
    const size_t drawn = n > 500 ? 53 : n; // the rest of a long text is a repetition
    for(size_t i = 0; i < n; ++i)
        v.push_back(i < drawn ? gen_cp(t) : v[i - drawn]);
    return v;
}
struct Exact {
    explicit Exact(const std::string &s) : n(s.size()), p(new char[n ? n : 1]) { memcpy(p.get(), s.data(), n); }
    size_t n;
    std::unique_ptr<char[]> p;
};
std::string ustr(const NS::U8String &u) { return std::string(u.c_str(), u.size_bytes()); }

// ---- validation ----------------------------------------------------------
std::string gen_piece(pbt::T &t) {
    switch(t.weighted({6, 2, 2, 2, 2, 2, 3, 2})) {
    case 0:
        return enc1(gen_cp(t));
    case 1: { // overlong
        unsigned len = 2 + (unsigned)t.idx(3);
        uint32_t max = len == 2 ? 0x7f : len == 3 ? 0x7ff : 0xffff;
        return enc1((uint32_t)t.num(1, max), len);
    }
    case 2: // surrogates
        return enc1((uint32_t)t.num(0xd7f0, 0xe010), 3);
    case 3: // around and above the last code point
        return enc1((uint32_t)t.num(0x10fff0, 0x1fffff), 4);
    case 4: { // cut short
        std::string s = enc1(gen_cp(t));
        s.resize(t.idx(s.size() + 1));
        return s;
    }
    case 5: // loose bytes
        return std::string(1, (char)(unsigned char)t.num(0x80, 0xff));
    case 6: { // one byte changed
        std::string s = enc1(gen_cp(t));
        s[t.idx(s.size())] = (char)(unsigned char)t.num(1, 255);
        return s;
    }
    default: { // each byte at a boundary of the definition
        std::string s;
        size_t n = 1 + t.idx(4);
        s.push_back((char)t.pick({0x7f, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xfe, 0xff}));
        for(size_t i = 1; i < n; ++i)
            s.push_back((char)t.pick({0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0}));
        return s;
    }
    }
}

void valid_case(pbt::T &t) {
    std::string s;
    while(t.more(3))
        s += gen_piece(t);
    if(t.chance(4) && !s.empty()) // long texts
        while(s.size() < 600)
            s += s;
    if(scale > 1) { // a long valid text around or before it
        std::string before = enc(gen_cps(t, 40));
        s = t.chance(30) ? before + s + before : before + s;
    }
    const bool want = ref_valid(s);
    t.note("%s is %s", pbt::show(s).c_str(), want ? "valid" : "not valid");
    Exact e(s);
    std::unique_ptr<char[]> z(new char[s.size() + 1]);
    memcpy(z.get(), s.c_str(), s.size() + 1);
    auto judge = [&](bool rejected, const NS::U8String &u, const char *how) {
        CHECK(rejected == !want, "%s: %s UTF-8 was %s", how, want ? "valid" : "invalid", rejected ? "rejected" : "accepted");
        if(want)
            CHECK(ustr(u) == s, "%s: the text reads %s", how, pbt::show(ustr(u)).c_str());
    };
    {
        NS::U8String u;
        bool r = rejects([&] { u = NS::U8String(e.p.get(), s.size()); });
        judge(r, u, "pointer and length");
    }
    {
        NS::U8String u;
        bool r = rejects([&] { u = NS::U8String(z.get()); });
        judge(r, u, "C string");
    }
    {
        NS::U8String u;
        bool r = rejects([&] { u = NS::U8String(NS::Bytes(e.p.get(), s.size())); });
        judge(r, u, "Bytes");
    }
#if YEAR != 2025
    {
        NS::U8StringView v;
        bool r = rejects([&] { v = NS::U8StringView(e.p.get(), s.size()); });
        CHECK(r == !want, "view: %s UTF-8 was %s", want ? "valid" : "invalid", r ? "rejected" : "accepted");
        if(want) {
            NS::U8String u;
            if(t.chance(50))
                u = v;
            else
                u = NS::U8String(v);
            judge(false, u, "view to string");
            CHECK(v.size_bytes() == s.size() && memcmp(v.data(), s.data(), s.size()) == 0, "view text");
        }
        NS::U8StringView w;
        r = rejects([&] { w = NS::U8StringView(z.get(), (size_t)-1); });
        CHECK(r == !want, "view of a C string: %s UTF-8 was %s", want ? "valid" : "invalid", r ? "rejected" : "accepted");
        if(want)
            CHECK(w.size_bytes() == s.size(), "view of a C string has size %zu, expected %zu", w.size_bytes(), s.size());
    }
#endif
    {
        // single code points
        uint32_t c = t.chance(50) ? (uint32_t)t.num(0, 0x120000) : (uint32_t)t.unum(0, UINT32_MAX);
        if(t.chance(5))
            c = 0; // a U8String can not hold it
        bool ok = c > 0 && c < 0x110000 && !(c >= 0xd800 && c < 0xe000);
        NS::U8String u("x");
        bool r = rejects([&] { u.append_codepoint(c); });
        CHECK(r == !ok, "append_codepoint(U+%X) was %s", c, r ? "rejected" : "accepted");
        CHECK(ustr(u) == (ok ? "x" + enc1(c) : std::string("x")), "after append_codepoint(U+%X): %s", c, pbt::show(ustr(u)).c_str());
    }
    t.label(want ? "valid" : "invalid");
    for(char c : s)
        if(c & 0x80)
            t.nontrivial();
}

// ---- iteration -----------------------------------------------------------
void iter_case(pbt::T &t) {
    const Cps cps = gen_cps(t, 60);
    const std::string s = enc(cps);
    std::vector<size_t> off;
    {
        size_t o = 0;
        for(uint32_t c : cps) {
            off.push_back(o);
            o += enc1(c).size();
        }
        off.push_back(o);
    }
    t.note("text %s", pbt::show(s).c_str());
    NS::U8String u(s.data(), s.size());
    std::unique_ptr<char[]> z(new char[s.size() + 1]);
    const size_t n = cps.size();

    auto b = u.cbegin();
    const auto e = u.cend();
    Cps got;
    while(b != e) {
        CHECK(got.size() < n, "forward iteration does not end");
        got.push_back(*b);
#if YEAR != 2025
        CHECK(b.data() == u.c_str() + off[got.size() - 1], "position of character %zu", got.size() - 1);
        CHECK((b <=> e) < 0, "iterator order");
#endif
        if(t.chance(50))
            ++b;
        else {
            auto old = b++;
            CHECK(*old == got.back(), "value of the iterator before the increment");
        }
    }
    CHECK(b == e, "end not reached");
    CHECK(got == cps, "forward iteration gives other characters");
    // backwards with --
    auto i = u.cend();
    for(size_t k = n; k-- > 0;) {
        --i;
        CHECK(*i == cps[k], "character %zu while going back: U+%X, expected U+%X", k, *i, cps[k]);
    }
    CHECK(i == u.cbegin(), "start not reached");
    // reverse iterators
    auto r = u.crbegin();
    const auto re = u.crend();
    size_t cnt = 0;
    while(r != re) {
        CHECK(cnt < n, "reverse iteration does not end");
        CHECK(*r == cps[n - 1 - cnt], "reverse character %zu: U+%X, expected U+%X", cnt, *r, cps[n - 1 - cnt]);
        ++cnt;
        if(t.chance(50))
            ++r;
        else {
            auto old = r++;
            CHECK(*old == cps[n - cnt], "value of the reverse iterator before the increment");
        }
    }
    CHECK(cnt == n && r == re, "reverse iteration visited %zu of %zu", cnt, n);
    // a random walk
    auto w = u.cbegin();
    size_t pos = 0;
#if YEAR != 2025
    auto mark = u.cbegin();
    size_t mpos = 0;
#endif
    for(unsigned k = 0; k < 30 && t.more(20); ++k) {
        bool read = t.chance(60);
        if(read && pos < n)
            CHECK(*w == cps[pos], "walk: character %zu is U+%X, expected U+%X", pos, *w, cps[pos]);
        switch(t.idx(3)) {
        case 0:
            if(pos < n)
                ++w, ++pos;
            break;
        case 1:
            if(pos < n) {
                auto old = w++;
                ++pos;
                CHECK(old != w, "post-increment did not move");
            }
            break;
        case 2:
            if(pos > 0)
                --w, --pos;
        }
        CHECK((w == u.cbegin()) == (pos == 0) && (w == u.cend()) == (pos == n), "walk: position %zu of %zu", pos, n);
#if YEAR != 2025
        CHECK(w.data() == u.c_str() + off[pos], "walk: byte position");
        const int o1 = w <=> u.cbegin(), o2 = w <=> u.cend(), o3 = w <=> mark;
        CHECK((pos == 0 ? o1 == 0 : o1 > 0) && (pos == n ? o2 == 0 : o2 < 0), "walk: order of position %zu of %zu to the ends: %d, %d", pos, n, o1, o2);
        CHECK(pos < mpos ? o3 < 0 : pos > mpos ? o3 > 0 : o3 == 0, "walk: order of position %zu to position %zu: %d", pos, mpos, o3);
        if(t.chance(25)) { // go on with a copy
            NS::ValidU8Iterator c{w};
            mark = NS::move(c);
            mpos = pos;
            if(pos < n)
                CHECK(*mark == cps[pos], "walk: character %zu through a moved copy", pos);
        }
#endif
    }
#if YEAR != 2025
    // views: any range
    size_t x = t.idx(n + 1), y = x + t.idx(n - x + 1);
    auto ix = u.cbegin(), iy = u.cbegin();
    for(size_t k = 0; k < x; ++k)
        ++ix;
    for(size_t k = 0; k < y; ++k)
        ++iy;
    NS::U8StringView v(ix, iy);
    CHECK(v.size_bytes() == off[y] - off[x] && v.data() == u.c_str() + off[x], "extent of a view");
    got.clear();
    for(auto k = v.begin(); k != v.end(); ++k)
        got.push_back(*k);
    CHECK(got == Cps(cps.begin() + (long)x, cps.begin() + (long)y), "characters of a view");
    if(x < y)
        CHECK(rejects([&] { NS::U8StringView bad(iy, ix); }), "a view with exchanged ends was accepted");
    CHECK((v == std::string(s, off[x], off[y] - off[x]).c_str()), "view == its text");
    CHECK(!(v == (std::string(s, off[x], off[y] - off[x]) + "!").c_str()), "view == a longer text");
#endif
    for(uint32_t c : cps)
        if(c > 127 && n >= 2)
            t.nontrivial();
}

// ---- edits ---------------------------------------------------------------
bool ws(uint32_t c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
std::vector<Cps> ref_split(const Cps &s, bool (*sep)(uint32_t)) {
    std::vector<Cps> r;
    Cps cur;
    for(uint32_t c : s) {
        if(sep(c)) {
            if(!cur.empty())
                r.push_back(cur);
            cur.clear();
        } else
            cur.push_back(c);
    }
    if(!cur.empty())
        r.push_back(cur);
    return r;
}
NS::U8StringView mkview(const NS::U8String &u, size_t x, size_t y) {
    auto a = u.cbegin();
    for(size_t i = 0; i < x; ++i)
        ++a;
    auto b = u.cend();
    for(size_t n = ref_decode(ustr(u)).size(); n > y; --n)
        --b;
    return NS::U8StringView{a, b};
}
bool is_odd(uint32_t c) { return c % 2 == 1; }
struct Sink {
    std::vector<std::string> got;
    size_t limit;
};
bool sink_cb(const NS::U8StringView &p, void *ctx) {
    Sink *s = (Sink *)ctx;
    s->got.push_back(ustr(NS::U8String(p)));
    return s->got.size() < s->limit;
}

void edit_case(pbt::T &t) {
    using U = NS::U8String;
    constexpr size_t N = 3;
    U us[N];
    Cps ms[N];
    unsigned ops = 0;
    size_t longest = 0;
    bool wide = false;
    while(t.more(18)) {
        ++ops;
        size_t k = t.idx(N), j = t.idx(N);
        U &u = us[k];
        Cps &m = ms[k];
        switch(t.idx(18)) {
        case 0: {
            Cps x = gen_cps(t, 20);
            t.note("u%zu = %s", k, pbt::show(enc(x)).c_str());
            u = U(enc(x).c_str());
            m = x;
            break;
        }
        case 1:
        case 2: {
            t.note("u%zu += u%zu", k, j);
            u += us[j];
            Cps c = ms[j];
            m.insert(m.end(), c.begin(), c.end());
            break;
        }
        case 3: {
            if(t.chance(10)) { // can not be stored: rejected, nothing changes
                const uint32_t bad = t.pick<uint32_t>({0, 0xd800, 0xdabc, 0xdfff, 0x110000, 0xffffffff});
                t.note("u%zu.append_codepoint(U+%X)", k, bad);
                CHECK(rejects([&] { u.append_codepoint(bad); }), "append_codepoint(U+%X) was accepted", bad);
                break;
            }
            uint32_t c = gen_cp(t);
            t.note("u%zu.append_codepoint(U+%X)", k, c);
            u.append_codepoint(c);
            m.push_back(c);
            break;
        }
        case 4:
        case 5: {
            size_t at = t.idx(m.size() + 1);
            Cps x = gen_cps(t, 12);
            t.note("u%zu.insert(%zu, %s)", k, at, pbt::show(enc(x)).c_str());
            U o(enc(x).c_str());
            auto it = u.cbegin();
            for(size_t i = 0; i < at; ++i)
                ++it;
            u.insert(it, o.view());
            m.insert(m.begin() + (long)at, x.begin(), x.end());
            break;
        }
        case 6: {
            size_t at = t.idx(m.size() + 1), x = t.idx(ms[j].size() + 1), y = x + t.idx(ms[j].size() - x + 1);
            t.note("u%zu.insert(%zu, u%zu[%zu, %zu))", k, at, j, x, y);
            auto it = u.cbegin();
            for(size_t i = 0; i < at; ++i)
                ++it;
            Cps c(ms[j].begin() + (long)x, ms[j].begin() + (long)y);
            u.insert(it, mkview(us[j], x, y));
            m.insert(m.begin() + (long)at, c.begin(), c.end());
            if(j == k)
                t.label("insert own text");
            break;
        }
        case 7:
        case 8: {
            size_t x = t.idx(m.size() + 1), y = x + t.idx(m.size() - x + 1);
            t.note("u%zu.remove([%zu, %zu))", k, x, y);
            u.remove(mkview(u, x, y));
            m.erase(m.begin() + (long)x, m.begin() + (long)y);
            break;
        }
        case 9: {
            if(k == j || ms[j].empty())
                break;
            t.note("u%zu.remove(a view of u%zu)", k, j);
            CHECK(rejects([&] { u.remove(us[j].view()); }), "removal of another string's text accepted");
            t.label("foreign view");
            break;
        }
        case 10:
            t.note("u%zu.pop_front()", k);
            u.pop_front();
            if(!m.empty())
                m.erase(m.begin());
            break;
        case 11:
            t.note("u%zu.pop_back()", k);
            u.pop_back();
            if(!m.empty())
                m.pop_back();
            break;
        case 12: {
            // byte positions
            std::string s = enc(ms[j]);
            size_t from = t.chance(85) ? t.idx(s.size() + 1) : (size_t)t.unum(0, UINT64_MAX - 1);
            size_t len = t.chance(80) ? t.idx(s.size() + 2) : (size_t)t.unum(0, UINT64_MAX - 1);
            t.note("u%zu = u%zu.substr(%zu, %zu)", k, j, from, len);
            U r("?");
            bool rej = rejects([&] { r = us[j].substr(from, len); });
            if(from > s.size())
                CHECK(rej, "substr(%zu, %zu) of %zu bytes accepted", from, len, s.size());
            else {
                std::string want = s.substr(from, len);
                if(!ref_valid(want))
                    CHECK(rej, "substr(%zu, %zu) that cuts a character accepted", from, len);
                else if(len <= s.size() - from)
                    CHECK(!rej && ustr(r) == want, "substr(%zu, %zu): %s", from, len, rej ? "rejected" : pbt::show(ustr(r)).c_str());
                else if(!rej)
                    CHECK(ustr(r) == want, "substr(%zu, %zu) beyond the end: %s", from, len, pbt::show(ustr(r)).c_str());
                if(!rej) {
                    u = r;
                    m = ref_decode(want);
                }
            }
            break;
        }
        case 13: {
            t.note("u%zu = copy or move of u%zu", k, j);
            if(t.chance(50)) {
                const U &o = us[j];
                u = o;
                m = Cps(ms[j]);
            } else if(j != k) {
                u = std::move(us[j]);
                m = ms[j];
                us[j] = U("z");
                ms[j] = {'z'};
            }
            break;
        }
        case 14: {
            std::vector<Cps> want;
            std::vector<std::string> got;
            int how = (int)t.idx(2);
            if(how == 0) {
                t.note("u%zu.split_ascii()", k);
                want = ref_split(m, ws);
                auto v = u.split_ascii();
                for(size_t i = 0; i < v.size(); ++i)
                    got.push_back(ustr(v[i]));
            } else {
                size_t limit = t.chance(70) ? (size_t)-1 : 1 + t.idx(3);
                t.note("u%zu.split(odd characters, limit %zu)", k, limit);
                want = ref_split(m, is_odd);
                if(want.size() > limit)
                    want.resize(limit);
                Sink snk{{}, limit};
                u.split(sink_cb, is_odd, &snk);
                got = snk.got;
            }
            CHECK(got.size() == want.size(), "split gives %zu pieces, expected %zu", got.size(), want.size());
            for(size_t i = 0; i < got.size(); ++i)
                CHECK(got[i] == enc(want[i]), "piece %zu is %s, expected %s", i, pbt::show(got[i]).c_str(), pbt::show(enc(want[i])).c_str());
#if YEAR != 2025
            if(how == 0) {
                auto c = u.view().split_ascii();
                for(size_t i = 0; i < want.size(); ++i) {
                    auto p = c.next();
                    CHECK((bool)p, "lazy split ends after %zu pieces", i);
                    CHECK(ustr(U(*p)) == enc(want[i]), "lazy split: piece %zu", i);
                }
                CHECK(!c.next() && !c.next(), "lazy split does not end");
            }
#endif
            if(want.size() > 1)
                t.label("split in several pieces");
            break;
        }
        case 15: {
            t.note("u%zu = u%zu.join(...)", k, j);
            NS::Vector<U> parts;
            size_t n = t.idx(5);
            Cps want;
            for(size_t i = 0; i < n; ++i) {
                Cps x = t.chance(50) ? gen_cps(t, 6) : ms[t.idx(N)];
                parts.push_back(U(enc(x).c_str()));
                if(i)
                    want.insert(want.end(), ms[j].begin(), ms[j].end());
                want.insert(want.end(), x.begin(), x.end());
            }
            U r = us[j].join(parts);
            CHECK(ustr(r) == enc(want), "join gives %s, expected %s", pbt::show(ustr(r)).c_str(), pbt::show(enc(want)).c_str());
            if(want.size() < 500) {
                u = std::move(r);
                m = want;
            }
            break;
        }
        case 16: {
            size_t x = t.idx(ms[j].size() + 1), y = x + t.idx(ms[j].size() - x + 1);
            if(YEAR == 2025 && x == y)
                break; // it has no empty views
            t.note("u%zu = view [%zu, %zu) of u%zu", k, x, y, j);
            Cps c(ms[j].begin() + (long)x, ms[j].begin() + (long)y);
            NS::U8StringView v = mkview(us[j], x, y);
            if(t.chance(50))
                u = U(v);
#if YEAR != 2025
            else
                u = v;
#else
            else
                u = U(v);
#endif
            m = c;
            break;
        }
        case 17: {
            // relations between views
            size_t x = t.idx(m.size() + 1), y = x + t.idx(m.size() - x + 1);
            size_t x2 = t.idx(m.size() + 1), y2 = x2 + t.idx(m.size() - x2 + 1);
            NS::U8StringView a = mkview(u, x, y), b = mkview(u, x2, y2);
            CHECK(u.contains(a), "does not contain a part of itself");
            if(x < y && x2 < y2) {
                bool over = x < y2 && x2 < y;
                CHECK(a.overlaps(b) == over && b.overlaps(a) == over, "[%zu, %zu) overlaps [%zu, %zu): got %d", x, y, x2, y2, a.overlaps(b));
                CHECK(u.overlaps(a), "does not overlap a part of itself");
                if(k != j && !ms[j].empty())
                    CHECK(!us[j].contains(a) && !us[j].overlaps(a), "u%zu contains or overlaps text of u%zu", j, k);
            }
            Cps ca(m.begin() + (long)x, m.begin() + (long)y), cb(m.begin() + (long)x2, m.begin() + (long)y2);
            CHECK((a == enc(cb).c_str()) == (ca == cb), "view == const char *");
            CHECK((a == enc(ca).c_str()), "view == its own text");
#if YEAR != 2025
            CHECK((a == b) == (ca == cb), "view == view");
#endif
            break;
        }
        }
        for(size_t i = 0; i < N; ++i) {
            std::string s = enc(ms[i]);
            CHECK(us[i].size_bytes() == s.size(), "size of u%zu: got %zu, expected %zu", i, us[i].size_bytes(), s.size());
            CHECK(memcmp(us[i].c_str(), s.c_str(), s.size() + 1) == 0, "u%zu is %s, expected %s", i, pbt::show(ustr(us[i])).c_str(), pbt::show(s).c_str());
            CHECK(us[i].is_empty() == s.empty() && us[i] == s.c_str(), "is_empty or == of u%zu", i);
            longest = std::max(longest, ms[i].size());
            for(uint32_t c : ms[i])
                wide |= c > 127;
        }
        CHECK((us[k] == us[j]) == (ms[k] == ms[j]), "u%zu == u%zu", k, j);
#if YEAR != 2025
        const int want = enc(ms[k]).compare(enc(ms[j])), is = us[k] <=> us[j];
        CHECK((want < 0) == (is < 0) && (want > 0) == (is > 0), "u%zu <=> u%zu", k, j);
#endif
        if(longest > 1500)
            break;
    }
    if(ops >= 4 && wide && longest >= 2)
        t.nontrivial();
}

// ---- case mapping --------------------------------------------------------
const std::map<uint32_t, Cps> &table(bool up) {
    static std::map<uint32_t, Cps> tab[2];
    auto &m = tab[up];
    if(m.empty()) {
        auto add = [&](const uint32_t(&r)[4]) {
            Cps v;
            for(int i = 1; i < 4; ++i)
                if(r[i])
                    v.push_back(r[i]);
            m[r[0]] = v;
        };
        if(up)
            for(auto &r : UPPER)
                add(r);
        else
            for(auto &r : LOWER)
                add(r);
    }
    return m;
}
Cps ref_case(const Cps &in, bool up) {
    Cps r;
    auto &tab = table(up);
    for(uint32_t c : in) {
        auto it = tab.find(c);
        if(it == tab.end())
            r.push_back(c);
        else
            r.insert(r.end(), it->second.begin(), it->second.end());
    }
    return r;
}
std::string cps_text(const Cps &v) {
    std::string s;
    char b[20];
    for(uint32_t c : v) {
        snprintf(b, sizeof b, "%sU+%04X", s.empty() ? "" : " ", c);
        s += b;
    }
    return s;
}
std::string conv(const std::string &s, bool up) {
    NS::U8String u(s.data(), s.size());
    return ustr(up ? u.upper() : u.lower());
}

} // namespace

PROP("C10", "validation", .rule = "sequences of valid, overlong, surrogate, out-of-range, truncated and damaged encodings offered through every import; non-trivial = a byte above 127",
     .quick = 200000, .thorough = 6000000) {
    valid_case(t);
}
PROP("C10", "validation.short", .rule = "all byte strings of length 1 to 4 with bytes near the boundaries of the definition; non-trivial = a byte above 127",
     .quick = 200000, .thorough = 4000000) {
    std::string s;
    size_t n = 1 + t.idx(4);
    for(size_t i = 0; i < n; ++i)
        s.push_back((char)(unsigned char)(t.chance(20) ? t.uni(1, 255)
                                                       : t.pick({0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xff})));
    const bool want = ref_valid(s);
    t.note("%s is %s", pbt::show(s).c_str(), want ? "valid" : "not valid");
    Exact e(s);
    NS::U8String u;
    bool r = rejects([&] { u = NS::U8String(e.p.get(), s.size()); });
    CHECK(r == !want, "%s UTF-8 was %s", want ? "valid" : "invalid", r ? "rejected" : "accepted");
    for(char c : s)
        if(c & 0x80)
            t.nontrivial();
}
PROP("C11", "iteration", .rule = "random code point sequences walked forward, backward, in reverse and at random; non-trivial = 2+ characters with one outside ASCII",
     .quick = 400000, .thorough = 10000000) {
    iter_case(t);
}
PROP("C12", "u8string.history", .rule = "random history of edits on three strings against sequences of code points; non-trivial = 4+ edits, a character outside ASCII and 2+ characters",
     .quick = 120000, .thorough = 3000000) {
    edit_case(t);
}
PROP("C10", "validation.large", .rule = "as validation, within up to 300 times longer texts", .quick = 30000, .cpu_limit = 60, .guided = false) {
    Scale s(300);
    valid_case(t);
}
PROP("C11", "iteration.large", .rule = "as iteration, with up to 100 times longer texts", .quick = 15000, .cpu_limit = 60, .guided = false) {
    Scale s(100);
    iter_case(t);
}
PROP("C12", "u8string.large", .rule = "as u8string.history, with up to 100 times longer texts", .quick = 10000, .cpu_limit = 60, .guided = false) {
    Scale s(100);
    edit_case(t);
}
PROP("C13", "block", .rule = "every code point of a block of 256, one by one and as one text, against Python's Unicode database; non-trivial = the block contains letters with case",
     .quick = 60000, .thorough = 400000, .guided = false) {
    // blocks with case mappings are drawn more often
    uint32_t b;
    switch(t.idx(3)) {
    case 0:
        b = (uint32_t)t.uni(0, 0x10ff);
        break;
    case 1:
        b = (uint32_t)t.uni(0, 0x2f);
        break;
    default:
        b = t.pick<uint32_t>({0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x10, 0x13, 0x1c, 0x1d, 0x1e, 0x1f, 0x21, 0x24, 0x2c, 0x2d, 0xa6, 0xa7, 0xab, 0xfb, 0xff, 0x104, 0x105, 0x10c, 0x118, 0x16e, 0x1e9});
    }
    Cps all;
    for(uint32_t c = b * 256; c < (b + 1) * 256; ++c)
        if(c && !(c >= 0xd800 && c < 0xe000))
            all.push_back(c);
    t.note("block U+%X00", b);
    for(int up = 0; up < 2; ++up) {
        std::string got = conv(enc(all), up);
        Cps want = ref_case(all, up);
        if(got != enc(want))
            for(uint32_t c : all) {
                std::string g = conv(enc1(c), up);
                Cps w = ref_case({c}, up);
                CHECK(g == enc(w), "%s of U+%04X is %s, expected %s", up ? "upper" : "lower", c, ref_valid(g) ? cps_text(ref_decode(g)).c_str() : "not UTF-8",
                      cps_text(w).c_str());
            }
        CHECK(got == enc(want), "%s of the whole block differs from the parts", up ? "upper" : "lower");
        for(uint32_t c : all)
            if(table(up).count(c)) {
                t.nontrivial();
                break;
            }
    }
}
PROP("C13", "text", .rule = "random texts rich in characters with case mappings, whole and cut in two; non-trivial = a character that expands or a mapped one outside ASCII",
     .quick = 100000, .thorough = 3000000) {
    Cps v;
    size_t n = t.size(40);
    for(size_t i = 0; i < n; ++i) {
        switch(t.idx(4)) {
        case 0:
            v.push_back(UPPER[t.idx(sizeof UPPER / sizeof UPPER[0])][0]);
            break;
        case 1:
            v.push_back(LOWER[t.idx(sizeof LOWER / sizeof LOWER[0])][0]);
            break;
        case 2:
            v.push_back(t.pick<uint32_t>({'a', 'Z', 0xdf, 0x130, 0x149, 0x390, 0x3a3, 0x3c3, 0x3c2, 0x587, 0x1e9e, 0x1f52, 0xfb03, 0x10400}));
            break;
        default:
            v.push_back(gen_cp(t));
        }
        if(v.back() > 127 && (table(0).count(v.back()) || table(1).count(v.back())))
            t.nontrivial();
    }
    const std::string s = enc(v);
    t.note("text %s", cps_text(v).c_str());
    size_t cut = t.idx(v.size() + 1);
    std::string left = enc(Cps(v.begin(), v.begin() + (long)cut)), right = enc(Cps(v.begin() + (long)cut, v.end()));
    for(int up = 0; up < 2; ++up) {
        std::string got = conv(s, up), want = enc(ref_case(v, up));
        CHECK(ref_valid(got), "%s gives invalid UTF-8", up ? "upper" : "lower");
        CHECK(got == want, "%s is %s, expected %s", up ? "upper" : "lower", cps_text(ref_decode(got)).c_str(), cps_text(ref_case(v, up)).c_str());
        CHECK(conv(left, up) + conv(right, up) == got, "%s of the two halves differs", up ? "upper" : "lower");
        NS::U8String u(s.data(), s.size());
        NS::U8StringView vw = u.view();
        CHECK(ustr(up ? vw.upper() : vw.lower()) == want, "%s of a view", up ? "upper" : "lower");
        CHECK(ustr(u) == s, "the original changed");
    }
}

// C31: U8Regex/U8Match against PCRE2 called directly, and literal search against plain search.
#include "pbt.hpp"
#include "ns.hpp"
#if YEAR == 2026
#include <pystd2026_regex.hpp>
#endif
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>

using namespace pbt;

static std::string one_char(T &t) {
    return t.pick<const char *>({"a", "b", "c", "a", "b", "A", "1", " ", "\n", "_", "\xc3\xa9", "\xc3\x89", "\xe6\xbc\xa2", "\xf0\x9f\x98\x80", "\xcc\x81"});
}
static std::string gen_text(T &t, size_t max) {
    std::string x;
    for(size_t n = t.size(max); n; --n)
        x += one_char(t);
    return x;
}
static std::string atom(T &t, int depth);
static std::string branch(T &t, int depth) {
    std::string x;
    for(size_t n = t.idx(4); n; --n) {
        x += atom(t, depth);
        switch(t.weighted({10, 2, 2, 2, 1})) {
        case 1: x += "?"; break;
        case 2: x += "*"; break;
        case 3: x += "+"; break;
        case 4: x += t.pick<const char *>({"{2}", "{0,2}", "{1,}", "{0}", "{,2}"}); break;
        default: continue;
        }
        if(t.chance(25))
            x += t.pick<const char *>({"?", "+"});
    }
    return x;
}
static std::string alternatives(T &t, int depth) {
    std::string x = branch(t, depth);
    while(t.chance(20))
        x += "|" + branch(t, depth);
    return x;
}
static std::string atom(T &t, int depth) {
    switch(t.weighted({12, 2, 2, depth ? 6u : 0u, depth ? 2u : 0u, 2, 2, 1})) {
    case 0: return one_char(t);
    case 1: return ".";
    case 2: {
        std::string x = t.idx(3) ? "[" : "[^";
        for(size_t n = 1 + t.idx(3); n; --n)
            x += t.idx(4) ? one_char(t) : "a-c";
        return x + "]";
    }
    case 3: return "(" + alternatives(t, depth - 1) + ")";
    case 4: return t.pick<const char *>({"(?:", "(?:", "(?<n>", "(?=", "(?!", "(?<=", "(?i:", "(?s:", "(?>", "(?|"}) + alternatives(t, depth - 1) + ")";
    case 5: return t.pick<const char *>({"^", "$", "\\b", "\\B", "\\A", "\\z"});
    case 6: return t.pick<const char *>({"\\d", "\\w", "\\s", "\\S", "\\X", "\\x{e9}", "\\.", "\\R", "\\p{L}", "\\p{Lu}"});
    default: return t.pick<const char *>({"\\1", "\\2", "(?1)", "\\K", "(?(1)a|b)"});
    }
}
static std::string gen_pattern(T &t) {
    std::string x = alternatives(t, 3);
    if(t.chance(5)) { // often malformed
        switch(t.idx(3)) {
        case 0:
            if(!x.empty()) // ASCII only, so that it stays valid UTF-8
                for(size_t i = t.idx(x.size()), k = 0; k < x.size(); ++k, i = (i + 1) % x.size())
                    if((unsigned char)x[i] < 128) {
                        x.erase(i, 1);
                        break;
                    }
            break;
        case 1: x += t.pick<const char *>({"(", ")", "[", "\\", "*", "{1,2}", "(?", "[b-a]", "\\x{110000}"}); break;
        default: x = t.pick<const char *>({"(", ")", "[", "*", "\\"}) + x;
        }
    }
    return x;
}

static std::string s(const NS::U8String &x) { return std::string(x.c_str(), x.size_bytes()); }
static std::string raw(const NS::U8StringView &v) {
    auto c = v.raw_view();
    return std::string(c.data(), c.size());
}

struct Pcre { // direct use of the library
    pcre2_code *code = nullptr;
    explicit Pcre(const std::string &p) {
        int err;
        PCRE2_SIZE at;
        code = pcre2_compile((PCRE2_SPTR)p.data(), p.size(), PCRE2_UTF, &err, &at, nullptr);
    }
    ~Pcre() { pcre2_code_free(code); }
    struct Found {
        bool any = false;
        std::vector<std::string> g;
        std::vector<bool> set;
        std::vector<size_t> at;
        bool odd = false; // \K in a lookaround can put the start behind the end
    };
    Found search(const std::string &x) const {
        Found f;
        uint32_t n;
        pcre2_pattern_info(code, PCRE2_INFO_CAPTURECOUNT, &n);
        auto *md = pcre2_match_data_create_from_pattern(code, nullptr);
        int rc = pcre2_match(code, (PCRE2_SPTR)x.data(), x.size(), 0, 0, md, nullptr);
        f.any = rc > 0;
        auto *o = pcre2_get_ovector_pointer(md);
        f.g.resize(n + 1);
        f.set.resize(n + 1);
        f.at.resize(n + 1);
        for(size_t i = 0; f.any && i <= n; ++i) {
            f.set[i] = o[2 * i] != PCRE2_UNSET;
            if(!f.set[i])
                continue;
            if(o[2 * i] > o[2 * i + 1]) {
                f.odd = true;
                continue;
            }
            f.g[i] = x.substr(o[2 * i], o[2 * i + 1] - o[2 * i]);
            f.at[i] = o[2 * i];
        }
        pcre2_match_data_free(md);
        return f;
    }
};

static void check_match(T &t, NS::U8Match &m, const NS::U8String &text, const Pcre::Found &f) {
    CHECK_EQ(m.num_groups(), f.g.size() - 1, "number of groups");
    for(size_t i = 0; i < f.g.size(); ++i) {
        auto v = m.group(i);
        CHECK(raw(v) == f.g[i], "group %zu is %s, expected %s", i, show(raw(v)).c_str(), show(f.g[i]).c_str());
        auto c = v.raw_view();
        if(f.set[i])
            CHECK_EQ(c.data() - text.c_str(), f.at[i], "position of the group");
        auto sub = m.get_submatch(i);
        CHECK(s(sub) == f.g[i], "submatch %zu is %s, expected %s", i, show(s(sub)).c_str(), show(f.g[i]).c_str());
    }
    if(t.chance(1)) {
        size_t bad = t.pick<size_t>({f.g.size(), f.g.size() + 1, f.g.size() + 1000, (size_t)-1});
        CHECK(rejects([&] { m.group(bad); }), "group %zu of %zu accepted", bad, f.g.size());
        CHECK(rejects([&] { m.get_submatch(bad); }), "submatch %zu of %zu accepted", bad, f.g.size());
        t.label("group out of range rejected");
    }
}

static void search_case(T &t, std::string p, bool large) {
    t.note("pattern %s", show(p).c_str());
    NS::U8String pattern(p.c_str());
    Pcre ref(p);
    if(!ref.code) {
        if(t.chance(20)) { // exceptions are slow
            CHECK(rejects([&] { NS::U8Regex r(pattern); }), "the malformed pattern was accepted");
            t.nontrivial();
            t.label("malformed");
        }
        return;
    }
    NS::U8Regex r(pattern);
    size_t rounds = 1 + t.idx(4);
    for(size_t k = 0; k < rounds; ++k) {
        std::string x = gen_text(t, t.chance(90) ? 12 : 100);
        if(large) { // the match far behind the start, or long
            const std::string unit = gen_text(t, 6) + "b", tail = x;
            const size_t size = t.idx(p.size() > 40 ? 2000u : t.pick({300u, 2000u, 30000u}));
            x = t.idx(2) ? x : "";
            while(x.size() < size)
                x += unit;
            x += tail;
        }
        t.note("text of %zu %s", x.size(), show(x.substr(0, 300)).c_str());
        NS::U8String text(x.c_str());
        auto f = ref.search(x);
        if(!f.any) {
            if(t.chance(5)) {
                CHECK(rejects([&] { NS::regex_search(r, text); }), "a match, but there is none");
                t.label("no match");
            }
            continue;
        }
        if(f.odd)
            continue;
        auto m = NS::regex_search(r, text);
        check_match(t, m, text, f);
        if(t.idx(4) == 0) {
            NS::U8Match n(std::move(m));
            check_match(t, n, text, f);
            if(t.idx(2)) { // two matches alive at once
                std::string y = gen_text(t, 12);
                auto g = ref.search(y);
                if(g.any && !g.odd) {
                    NS::U8String other(y.c_str());
                    auto o = NS::regex_search(r, other);
                    check_match(t, o, other, g);
                    check_match(t, n, text, f);
                }
            }
        }
        CHECK(s(text) == x && s(pattern) == p, "the text or the pattern changed");
        if(f.g.size() > 1)
            t.nontrivial();
        for(size_t i = 1; i < f.g.size(); ++i)
            if(!f.set[i])
                t.label("absent group");
            else if(f.g[i].empty())
                t.label("empty group");
    }
}

PROP("C31", "search", .rule = "a match with a capture group, or a malformed pattern", .quick = 50000) { search_case(t, gen_pattern(t), false); }
PROP("C31", "search.large", .rule = "a match with a capture group, or a malformed pattern", .quick = 600, .cpu_limit = 60, .guided = false) {
    std::string p;
    switch(t.idx(3)) {
    case 0: p = gen_pattern(t); break;
    case 1: // many groups
        for(size_t n = t.idx(300); n; --n)
            p += "(" + one_char(t) + ")" + t.pick<const char *>({"?", "*", "", "?"});
        break;
    default: { // nested groups
        const size_t n = t.idx(100);
        p = std::string(n, '(') + "a|b";
        for(size_t i = 0; i < n; ++i)
            p += t.pick<const char *>({")", ")", ")?", "b?)"});
    }
    }
    search_case(t, p, true);
}
// Captures and offsets of many thousands of bytes.
PROP("C31", "long_captures", .rule = "a capture of 1000 bytes or more", .quick = 400, .cpu_limit = 60, .guided = false) {
    const size_t max = t.pick({2000u, 70000u, 300000u});
    const std::string in = t.pick<const char *>({"a", "ab", "\xc3\xa9", "a\xe6\xbc\xa2"}), out = t.pick<const char *>({"x", "xy", "\xc3\xa4x"});
    std::string before, first, second, after;
    for(size_t n = t.idx(max); before.size() < n;)
        before += out;
    for(size_t n = t.idx(max); first.size() < n;)
        first += in;
    for(size_t n = t.idx(max); second.size() < n;)
        second += out;
    for(size_t n = t.idx(max); after.size() < n;)
        after += in;
    const std::string x = before + "<" + first + ">" + second + "!" + after;
    t.note("%zu bytes, <, %zu bytes, >, %zu bytes, !, %zu bytes", before.size(), first.size(), second.size(), after.size());
    NS::U8String pattern("<([^>]*)>([^!]*)!(.*)"), text(x.c_str());
    NS::U8Regex r(pattern);
    auto m = NS::regex_search(r, text);
    const std::string want[] = {x.substr(before.size()), first, second, after};
    CHECK_EQ(m.num_groups(), 3u, "number of groups");
    for(size_t i = 0; i < 4; ++i) {
        auto v = m.group(i);
        auto sub = m.get_submatch(i);
        CHECK(raw(v) == want[i], "group %zu has %zu bytes, expected %zu", i, raw(v).size(), want[i].size());
        CHECK(s(sub) == want[i], "submatch %zu has %zu bytes, expected %zu", i, sub.size_bytes(), want[i].size());
    }
    if(first.size() >= 1000 || second.size() >= 1000)
        t.nontrivial();
}
PROP("C31", "literal", .rule = "the word occurs", .quick = 10000) {
    std::string w, p;
    for(size_t n = 1 + t.idx(3); n; --n) {
        auto c = one_char(t);
        if(c == "\xcc\x81")
            c = "a";
        w += c;
        p += c;
    }
    bool group = t.idx(2);
    std::string x = gen_text(t, 30);
    if(t.idx(2)) {
        size_t at = t.idx(x.size() + 1);
        while(at < x.size() && ((unsigned char)x[at] & 0xc0) == 0x80)
            ++at;
        x.insert(at, w);
    }
    t.note("%s in %s", show(w).c_str(), show(x).c_str());
    NS::U8String pattern((group ? "(" + p + ")" : p).c_str()), text(x.c_str());
    NS::U8Regex r(pattern);
    auto loc = x.find(w);
    if(loc == std::string::npos) {
        if(t.chance(5))
            CHECK(rejects([&] { NS::regex_search(r, text); }), "a match, but there is none");
        return;
    }
    auto m = NS::regex_search(r, text);
    CHECK_EQ(m.num_groups(), group, "number of groups");
    for(size_t i = 0; i <= group; ++i) {
        auto v = m.group(i);
        CHECK(raw(v) == w && s(m.get_submatch(i)) == w, "group %zu is %s", i, show(raw(v)).c_str());
        CHECK_EQ(v.raw_view().data() - text.c_str(), loc, "position");
    }
    t.nontrivial();
}

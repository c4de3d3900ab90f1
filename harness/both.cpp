// C35: both year namespaces in one program: the same operations, interleaved, give the same results.
#include "pbt.hpp"
#include "elem.hpp"
#include "scratch.hpp"
#include <map>
#include <set>
#include <cstdarg>
#include <exception>
#include <pystd2025.hpp>
#include <pystd2025_btree.hpp>
#include <pystd2025_threading.hpp>
#include <pystd2026.hpp>
#include <pystd2026_argparse.hpp>
#include <pystd2026_btree.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_regex.hpp>
#include <pystd2026_threading.hpp>
#include <pystd2026_variant.hpp>

using namespace pbt;

struct Machine {
    virtual ~Machine() = default;
    virtual std::string dump() = 0;
    virtual std::string op(int what, int i, int j, int x, int y, const std::string &w) = 0;
};
#define Regex_type U8Regex
// What the functions of both_probe.inc work on.
struct Job {
    std::string a, b, raw; // two texts in UTF-8, and bytes other than zero
    char ch = ' ';
    size_t x = 0, y = 0; // positions, often outside
    std::vector<std::pair<int, int>> steps;
    std::vector<int> ints;
    std::vector<uint32_t> cps;
    int64_t big[3] = {0, 0, 0};
    int range = 1;
    std::string file, dir, pattern;
};
namespace A {
#define BOTH_OLD 1
namespace L = pystd2025;
namespace OTHER = pystd2026;
#include "both.inc"
#include "both_probe.inc"
} // namespace A
#undef BOTH_OLD
#define BOTH_OLD 0
namespace B {
namespace L = pystd2026;
namespace OTHER = pystd2025;
#include "both.inc"
#include "both_probe.inc"
} // namespace B
static_assert(sizeof(A::probes) == sizeof(B::probes));
static const char *const areas[] = {"texts", "unicode", "bytes", "sequences", "holders", "hashes", "trees", "algorithms", "formats", "paths", "files", "regexes", "errors", "threads"};
static_assert(sizeof(areas) / sizeof(*areas) == sizeof(A::probes) / sizeof(*A::probes));

std::string describe_exception(std::exception_ptr e) __attribute__((used));
std::string describe_exception(std::exception_ptr e) {
    try {
        std::rethrow_exception(e);
    } catch(const pystd2025::PyException &x) {
        return std::string("2025: ") + x.what().c_str();
    } catch(const pystd2026::PyException &x) {
        return std::string("2026: ") + x.what().c_str();
    } catch(const char *s) {
        return s;
    } catch(...) {
        return "unknown type";
    }
}

static std::string gen_word(T &t) {
    std::string x;
    for(size_t n = t.chance(90) ? t.idx(8) : t.size(200); n; --n)
        x += t.pick<const char *>({"a", "b", "a", "B", " ", "c", "/", ".", "\t", "\xc3\xa9", "\xe6\xbc\xa2", "\xf0\x9f\x98\x80", "\xc3\x9f"});
    return x;
}

// Half of the steps run in one order, half in the other; a third machine of each year sees only a
// part of the history, so that shared state would show.
PROP("C35", "interleaved", .rule = "ten or more steps", .quick = 60000) {
    std::unique_ptr<Machine> m[2] = {std::make_unique<A::Machine>(), std::make_unique<B::Machine>()};
    size_t steps = 0;
    for(; t.more(25); ++steps) {
        int what = (int)t.idx(43), i = (int)t.idx(3), j = (int)t.idx(3);
        if(what == 40 && !t.chance(3))
            continue; // exceptions are slow
        if(what == 41 && !t.chance(20))
            continue;
        int x = (int)t.uni(0, 50), y = (int)t.uni(0, 99);
        auto w = gen_word(t);
        size_t first = t.idx(2);
        t.note("op %d %d %d %d %d %s, %d first", what, i, j, x, y, show(w).c_str(), first ? 2026 : 2025);
        std::string r[2];
        std::string other_before = t.chance(10) ? m[1 - first]->dump() : "";
        r[first] = m[first]->op(what, i, j, x, y, w);
        if(!other_before.empty())
            CHECK(m[1 - first]->dump() == other_before, "an operation on the objects of one year changed those of the other");
        r[1 - first] = m[1 - first]->op(what, i, j, x, y, w);
        CHECK(r[0] == r[1], "results differ: 2025 %s, 2026 %s", show(r[0]).c_str(), show(r[1]).c_str());
        if(what == 40)
            CHECK(r[0] != "an exception of the other year", "an exception type of the other year");
        if(t.chance(15)) {
            auto d0 = m[0]->dump(), d1 = m[1]->dump();
            CHECK(d0 == d1, "states differ: 2025 %s, 2026 %s", show(d0).c_str(), show(d1).c_str());
        }
    }
    auto d0 = m[0]->dump(), d1 = m[1]->dump();
    CHECK(d0 == d1, "states differ: 2025 %s, 2026 %s", show(d0).c_str(), show(d1).c_str());
    if(steps >= 10)
        t.nontrivial();
    size_t gone = t.idx(2);
    m[gone].reset(); // the other year's objects outlive these
    auto d = m[1 - gone]->dump();
    CHECK(d == d0, "destroying the objects of one year changed those of the other");
}

static std::string gen_bytes(T &t, size_t max) {
    std::string x;
    for(size_t n = t.size(max); n; --n)
        x += t.chance(50) ? t.pick({'a', 'b', '\n', ' ', '\xc3', '\xa9', '\xff', '\xed', '\xa0'}) : (char)t.uni(1, 255);
    return x;
}
static const std::string &scratch() {
    static std::string d;
    static pid_t owner = 0;
    if(owner != getpid()) {
        owner = getpid();
        d = scratch_root() + "/both";
        for(const char *p : {"", "/d", "/d/e", "/d/.h", "/d/e/f"})
            mkdir((d + p).c_str(), 0700);
        for(const char *p : {"/d/a.txt", "/d/b.txt", "/d/.c.txt", "/d/e/a.txt", "/d/e/f/xx", "/d/.h/y"})
            write_file(d + p, p);
    }
    return d;
}

// The same job done with each year. In some cases the transcript of one year is taken twice, with the
// work of the other year in between.
static void area_case(T &t, size_t max_steps, size_t max_ints) {
    Job k;
    const size_t area = t.weighted({5, 5, 4, 5, 5, 5, 5, 5, 2, 3, 2, 2, 1, 1});
    t.label(areas[area]);
    k.a = gen_word(t);
    k.b = t.chance(25) ? k.a : t.chance(25) ? k.a + gen_word(t) : gen_word(t);
    k.raw = gen_bytes(t, 60);
    k.ch = t.pick({' ', 'a', 'b', '/', '.', 'q'});
    k.x = t.chance(85) ? t.idx(12) : t.size(5000);
    k.y = t.chance(85) ? t.idx(12) : t.size(5000);
    k.range = (int)t.pick({3u, 20u, 300u});
    const bool history = area <= 6 || area == 9;
    if(history) {
        const size_t n = t.idx(max_steps);
        const int spread = (int)t.pick({8u, 64u, 1000u});
        const int favoured = t.chance(40) ? (int)t.idx(16) : -1;
        for(size_t i = 0; i < n; ++i)
            k.steps.emplace_back(favoured >= 0 && t.chance(50) ? favoured : (int)t.idx(48), (int)t.idx(spread));
    }
    if(area == 7 || area == 4)
        for(size_t n = t.size(max_ints), m = t.pick({2u, 20u, 60u}); n; --n)
            k.ints.push_back((int)t.idx(m));
    if(area == 1)
        for(int i = 0; i < 8; ++i)
            k.cps.push_back((uint32_t)t.pick({t.idx(0x600), t.idx(0x3000), t.idx(0x20000), 0xa640 + t.idx(0x100), 0xfb00 + t.idx(8), 0x1e00 + t.idx(0x200)}));
    for(auto &v : k.big)
        v = t.chance(50) ? t.uni(-10, 10) : t.num(INT64_MIN / 2, INT64_MAX / 2);
    if(area == 10) {
        k.file = scratch() + "/file";
        k.dir = scratch() + "/d";
        write_file(k.file, k.raw);
        k.pattern = t.pick<const char *>({"*", "*.txt", "**", "e/*", "**/*.txt", ".*", ".h/*", "e/f/x*", "a*t", "[", "**/**", "nothing*", "b.txt"});
    }
    if(area == 11)
        k.pattern = t.pick<const char *>({"(a+)(b)?", "a|b", "(", "[", "(x)|(a)|(b)", "\\w+", "^a", "b$", "(a)(b)(c)", ".", "(?:a|b)*", "\\X", "(a)(?=b)"});
    t.note("%s of a %s b %s raw %s ch '%c' x %zu y %zu range %d, %zu steps, %zu numbers, pattern %s", areas[area], show(k.a).c_str(), show(k.b).c_str(),
           show(k.raw).c_str(), k.ch, k.x, k.y, k.range, k.steps.size(), k.ints.size(), show(k.pattern).c_str());
    std::string r[2];
    const size_t first = t.idx(2);
    for(size_t i : {first, 1 - first})
        r[i] = i ? B::probes[area](k) : A::probes[area](k);
    if(r[0] != r[1]) {
        size_t d = 0;
        while(d < r[0].size() && d < r[1].size() && r[0][d] == r[1][d])
            ++d;
        size_t from = d > 60 ? d - 60 : 0;
        CHECK(false, "%s: the years differ at %zu: 2025 %s, 2026 %s", areas[area], d, show(r[0].substr(from, 120)).c_str(), show(r[1].substr(from, 120)).c_str());
    }
    if(t.chance(10)) {
        auto again = first ? B::probes[area](k) : A::probes[area](k);
        CHECK(again == r[first], "%s: the result changed after the other year was used", areas[area]);
    }
    if(k.a.size() + k.raw.size() + k.steps.size() + k.ints.size() >= 10)
        t.nontrivial();
}
PROP("C35", "areas", .rule = "ten or more bytes of text, steps and numbers", .quick = 150000) { area_case(t, 40, 80); }
PROP("C35", "areas.large", .rule = "ten or more bytes of text, steps and numbers", .quick = 4000, .cpu_limit = 60, .guided = false) { area_case(t, 1000, 3000); }
PROP("C35", "case_of_every_codepoint", .rule = "a block of codepoints with case", .quick = 30000, .guided = false) {
    uint32_t b = (uint32_t)t.idx(t.pick({0x30u, 0x1f0u, 0x1100u})), from = b * 256;
    t.note("codepoints %x to %x", from, from + 255);
    auto old = A::every_codepoint(from, from + 256), now = B::every_codepoint(from, from + 256);
    CHECK(old == now, "the years convert a codepoint from %x on differently: 2025 %.200s, 2026 %.200s", from, old.c_str(), now.c_str());
    if(b < 0x30 || (b >= 0xa6 && b <= 0xab) || b == 0xfb || b == 0xff || b == 0x104)
        t.nontrivial();
}

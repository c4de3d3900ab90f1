// C36: the command-line tools, compiled into this program and called with generated input.
#include "pbt.hpp"
#include "elem.hpp"
#include "globref.hpp"
#include <assert.h>
#include <ctype.h>
#include <dirent.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <pystd2025.hpp>
#include <pystd2025_btree.hpp>
#include <pystd2026.hpp>
#include <pystd2026_argparse.hpp>
#include <pystd2026_btree.hpp>
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_stablepartition.hpp>
#include <pystd2026_variant.hpp>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <utility>
#include <tool_includes.hpp>

#define main tool_main
namespace wordcount {
#include <wordcount.cpp>
}
namespace wordsort {
#include <wordsort.cpp>
}
namespace globber {
#include <globber.cpp>
}
namespace sorttest {
#include <sorttest.cpp>
}
namespace stablesorttest {
#include <stablesorttest.cpp>
}
namespace radixsorttest {
#include <radixsorttest.cpp>
}
#undef main

std::string describe_exception(std::exception_ptr e) __attribute__((used));
std::string describe_exception(std::exception_ptr e) {
    try {
        std::rethrow_exception(e);
    } catch(const pystd2025::PyException &x) {
        return std::string("2025: ") + x.what().c_str();
    } catch(const pystd2026::PyException &x) {
        return std::string("2026: ") + x.what().c_str();
    } catch(const char *s) {
        return s;
    } catch(...) {
        return "unknown type";
    }
}

// Calls a tool with its standard output going to a file in memory.
static std::string last_out;
template<typename F> static int capture(F &&f) {
    static int fd = -1;
    if(fd < 0 && (fd = memfd_create("out", 0)) < 0)
        infra("memfd_create");
    if(ftruncate(fd, 0) != 0)
        infra("ftruncate");
    lseek(fd, 0, SEEK_SET);
    fflush(stdout);
    int saved = dup(1);
    dup2(fd, 1);
    int rc = f();
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
    off_t n = lseek(fd, 0, SEEK_END);
    last_out.resize((size_t)n);
    if(n && pread(fd, last_out.data(), (size_t)n, 0) != n)
        infra("pread");
    return rc & 255;
}
template<typename F> static int tool(F &&f, const std::string &arg) {
    std::string a0 = "tool", a1 = arg;
    char *argv[] = {a0.data(), a1.data(), nullptr};
    return capture([&] { return f(2, argv); });
}
static std::vector<std::string> lines(T &t, const std::string &x) {
    std::vector<std::string> v;
    size_t at = 0;
    while(at < x.size()) {
        auto e = x.find('\n', at);
        CHECK(e != std::string::npos, "the last line of the output is not terminated");
        v.push_back(x.substr(at, e - at));
        at = e + 1;
    }
    return v;
}
static bool ws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static std::vector<std::string> words_of(const std::string &x) {
    std::vector<std::string> v;
    std::string cur;
    for(char c : x) {
        if(!ws(c))
            cur += c;
        else if(!cur.empty())
            v.push_back(std::exchange(cur, ""));
    }
    if(!cur.empty())
        v.push_back(cur);
    return v;
}
static bool many_words = false; // set by the properties with large inputs
struct Many {
    Many() { many_words = true; }
    ~Many() { many_words = false; }
};
static std::string gen_words(T &t, bool &valid) {
    std::vector<std::string> vocabulary;
    size_t nv = 1 + (many_words ? t.idx(t.pick({2u, 300u, 5000u})) : t.size(t.chance(80) ? 12 : 300));
    for(size_t i = 0; i < nv; ++i) {
        std::string w;
        for(size_t n = 1 + t.size(t.chance(90) ? 5 : 60); n; --n)
            w += t.pick<const char *>({"a", "b", "a", "b", "c", "A", "1", ".", "\xc3\xa9", "\xe6\xbc\xa2", "\xf0\x9f\x98\x80", "\xc2\xa0", "\x0b", "\x7f"});
        if(t.chance(3)) {
            // a long word
            const std::string unit = w;
            for(size_t n = t.idx(t.pick({300u, 3000u, 20000u})); w.size() < n;)
                w += unit;
        }
        vocabulary.push_back(w);
    }
    std::string x;
    size_t nw = many_words ? t.idx(t.pick({3000u, 80000u, 200000u})) : t.size(t.chance(85) ? 40 : 1500);
    const bool simple = nw > 3000; // a choice per word would take too long
    uint32_t state = simple ? (uint32_t)t.idx(1u << 31) : 0;
    bool lead = t.idx(2), trail = t.idx(2);
    auto space = [&] {
        x += t.pick({' ', '\n', '\t', '\r', ' ', '\n'});
        while(t.chance(15))
            x += t.pick({' ', '\n', '\t', '\r'});
    };
    if(lead)
        space();
    for(size_t i = 0; i < nw; ++i) {
        if(simple) {
            state = state * 1664525u + 1013904223u;
            const uint32_t r = state >> 10;
            x += i ? " \n\t\r"[r % 4] : ' ';
            x += vocabulary[(r >> 2) % 8 ? 0 : (r >> 5) % nv];
            if(x.size() > 4000000)
                break;
            continue;
        }
        if(i)
            space();
        x += vocabulary[t.size(nv - 1)];
    }
    if(trail)
        space();
    valid = true;
    if(t.chance(3)) {
        valid = false;
        x.insert(x.empty() ? 0 : t.idx(x.size()), t.pick<const char *>({"\xff", "\x80", "\xc3 ", "\xed\xa0\x80", "\xf5\x80\x80\x80"}));
        // (the insertion can not repair the text: each of these is wrong on its own or splits a character)
    }
    return x;
}
static void input(T &t, const std::string &path, const std::string &x) {
    write_file(path, x);
    t.note("input %s%s", show(x.substr(0, 1500)).c_str(), x.size() > 1500 ? "..." : "");
}
#define TRULE .rule = "five or more words, with a repeated one"

static void wordcount_case(T &t) {
    Scratch d;
    bool valid;
    auto x = gen_words(t, valid);
    auto path = d / "in.txt";
    input(t, path, x);
    int rc = tool(wordcount::tool_main, path);
    if(!valid) {
        CHECK(rc != 0, "text that is not UTF-8 was accepted");
        t.label("not UTF-8");
        return;
    }
    if(x.empty() && rc != 0)
        return; // an empty file can not be mapped
    CHECK_EQ(rc, 0, "exit status");
    std::map<std::string, size_t> want, got;
    auto words = words_of(x);
    for(auto &w : words)
        ++want[w];
    size_t last = (size_t)-1, last_len = 0;
    for(auto &l : lines(t, last_out)) {
        auto sp = l.find(' ');
        CHECK(sp != std::string::npos && sp > 0, "line %s", show(l).c_str());
        size_t n = strtoul(l.c_str(), nullptr, 10);
        auto w = l.substr(sp + 1);
        CHECK(!got.count(w), "word %s is listed twice", show(w).c_str());
        got[w] = n;
        CHECK(want.count(w), "word %s is not in the file", show(w).c_str());
        CHECK(l.substr(0, sp) == std::to_string(want[w]), "word %s: %s, expected %zu", show(w).c_str(), l.substr(0, sp).c_str(), want[w]);
        CHECK(n < last || (n == last && w.size() <= last_len), "the list is not sorted at %s", show(l).c_str());
        last = n;
        last_len = w.size();
    }
    for(auto &[w, n] : want)
        CHECK(got.count(w), "word %s is missing", show(w).c_str());
    if(words.size() >= 5 && want.size() < words.size())
        t.nontrivial();
    if(want.size() > 60)
        t.label("more than 60 different words");
}
PROP("C36", "wordcount", TRULE, .quick = 20000) { wordcount_case(t); }
PROP("C36", "wordcount.large", TRULE, .quick = 300, .cpu_limit = 60, .guided = false) {
    Many m;
    wordcount_case(t);
}
static void wordsort_case(T &t) {
    Scratch d;
    bool valid;
    auto x = gen_words(t, valid);
    auto path = d / "in.txt";
    input(t, path, x);
    int rc = tool(wordsort::tool_main, path);
    if(rc != 0 && (x.empty() || !valid))
        return;
    CHECK_EQ(rc, 0, "exit status");
    auto want = words_of(x);
    std::sort(want.begin(), want.end()); // as unsigned bytes
    auto got = lines(t, last_out);
    CHECK_EQ(got.size(), want.size(), "number of words");
    for(size_t i = 0; i < got.size(); ++i)
        CHECK(got[i] == want[i], "word %zu is %s, expected %s", i, show(got[i]).c_str(), show(want[i]).c_str());
    if(want.size() >= 5 && std::set<std::string>(want.begin(), want.end()).size() < want.size())
        t.nontrivial();
}
PROP("C36", "wordsort", TRULE, .quick = 20000) { wordsort_case(t); }
PROP("C36", "wordsort.large", TRULE, .quick = 300, .cpu_limit = 60, .guided = false) {
    Many m;
    wordsort_case(t);
}
PROP("C36", "bad_input", .rule = "every case", .quick = 400) {
    Scratch d;
    std::string path = d / "x";
    int how = (int)t.idx(4);
    if(how == 1)
        mkdir(path.c_str(), 0700);
    if(how == 2)
        path = "";
    if(how == 3) {
        write_file(path, "a");
        path += "/b";
    }
    t.note("%s", how == 0 ? "no such file" : how == 1 ? "a directory" : how == 2 ? "empty name" : "below a file");
    int rc = t.idx(2) ? tool(wordcount::tool_main, path) : tool(wordsort::tool_main, path);
    CHECK(rc != 0, "accepted");
    t.nontrivial();
}
PROP("C36", "globber", .rule = "at least one match, or the pattern is malformed", .quick = 8000) {
    Scratch d;
    Node root;
    size_t budget = 25;
    gen_kids(t, root, 0, budget);
    std::string top = d / "tree";
    mkdir(top.c_str(), 0700);
    make_tree(root, top);
    t.note("tree:");
    describe(t, root, "  ");
    Chdir cd(top, true);
    for(size_t k = 1 + t.idx(2); k; --k) {
        bool bad = t.chance(3);
        auto pat = gen_pattern(t, root);
        std::string text = bad ? t.pick<const char *>({"**/**", "a**", "/", "***", "a/**/**"}) : spell(t, pat);
        t.note("globber %s", show(text).c_str());
        int rc = tool(globber::tool_main, text);
        if(bad) {
            CHECK(rc != 0, "the malformed pattern was accepted");
            t.nontrivial();
            continue;
        }
        CHECK_EQ(rc, 0, "exit status");
        Result r;
        ref_glob(root, "", pat, 0, r);
        auto want = r.required;
        const std::string head = "Glob matches:\n\n";
        CHECK(last_out.compare(0, head.size(), head) == 0, "output starts with %s", show(last_out.substr(0, 30)).c_str());
        auto rest = last_out.substr(head.size());
        std::string all;
        if(rest.find('\n') != std::string::npos || !rest.empty()) {
            auto got = lines(t, rest);
            std::sort(got.begin(), got.end());
            for(auto &g : got)
                all += g + "\n";
        }
        std::sort(want.begin(), want.end());
        std::string wall;
        for(auto &g : want)
            wall += g + "\n";
        CHECK(all == wall, "matches (sorted) %s, expected %s", show(all).c_str(), show(wall).c_str());
        if(!want.empty())
            t.nontrivial();
    }
}
PROP("C36", "sorttests", .rule = "ten or more numbers", .quick = 6000) {
    Scratch d;
    size_t n = t.size(t.chance(90) ? 200 : 5000);
    std::vector<size_t> v(n);
    for(size_t i = 0; i < n; ++i)
        v[i] = i;
    switch(t.idx(4)) {
    case 0: break;
    case 1: std::reverse(v.begin(), v.end()); break;
    case 2: {
        uint64_t seed = t.u64() | 1;
        for(size_t i = n; i > 1; --i) {
            seed = seed * 6364136223846793005ull + 1442695040888963407ull;
            std::swap(v[i - 1], v[(size_t)((seed >> 33) % i)]);
        }
        break;
    }
    default:
        for(size_t k = t.idx(20); n && k; --k)
            std::swap(v[t.idx(n)], v[t.idx(n)]);
    }
    bool wrong = n && t.chance(5);
    if(wrong) {
        size_t &x = v[t.idx(n)];
        x = t.idx(2) ? x + n : n > 1 ? (x + 1) % n : 5;
    }
    t.note("%zu numbers%s", n, wrong ? ", one of them wrong" : "");
    write_file(d / "random.dat", std::string((const char *)v.data(), n * sizeof(size_t)));
    Chdir cd(d.path, true);
    int which = (int)t.idx(3);
    int rc = capture(which == 0 ? sorttest::tool_main : which == 1 ? stablesorttest::tool_main : radixsorttest::tool_main);
    const char *name = which == 0 ? "sorttest" : which == 1 ? "stablesorttest" : "radixsorttest";
    if(wrong)
        CHECK(rc != 0, "%s accepted a file that is no permutation", name);
    else
        CHECK(rc == 0, "%s: %s", name, show(last_out).c_str());
    if(n >= 10)
        t.nontrivial();
}

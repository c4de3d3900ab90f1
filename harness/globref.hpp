// Generated directory trees and patterns, and a reference glob.
#pragma once
#include "scratch.hpp"

struct Node {
    std::string name;
    bool dir = false;
    std::vector<Node> kids;
    std::string link; // directory symlink, relative to the root
};
static std::string gen_name(T &t) {
    std::string x;
    if(t.chance(20))
        x = ".";
    size_t n = 1 + t.size(4);
    for(size_t i = 0; i < n; ++i)
        x += t.chance(6) ? t.pick({'-', ' ', '~', '\xc3', 'Z'}) : t.pick({'a', 'b', 'a', '.', 'x'});
    if(x == "." || x == ".." || x == "...")
        x = "a";
    return x;
}
static void gen_kids(T &t, Node &n, int depth, size_t &budget) {
    std::set<std::string> used;
    while(budget && t.more(depth == 0 ? 6 : 3)) {
        Node k;
        k.name = gen_name(t);
        if(!used.insert(k.name).second)
            continue;
        --budget;
        k.dir = depth < 5 && t.chance(55);
        if(k.dir)
            gen_kids(t, k, depth + 1, budget);
        n.kids.push_back(std::move(k));
    }
}
static void make_tree(const Node &n, const std::string &path) {
    for(auto &k : n.kids) {
        std::string p = path + "/" + k.name;
        if(k.dir) {
            mkdir(p.c_str(), 0700);
            make_tree(k, p);
        } else
            close(open(p.c_str(), O_CREAT | O_WRONLY, 0600));
    }
}
static void describe(T &t, const Node &n, const std::string &path) {
    for(auto &k : n.kids) {
        t.note("  %s%s", show(path + k.name).c_str(), k.dir ? "/" : "");
        if(k.dir)
            describe(t, k, path + k.name + "/");
    }
}
// Reference matching of one component; `pos` is the position in the name.
static bool comp_match(const char *p, const char *x, bool start = true) {
    if(*p == 0)
        return *x == 0;
    if(*p == '*') {
        if(start && *x == '.')
            return false;
        for(;; ++x) {
            if(comp_match(p + 1, x, false))
                return true;
            if(!*x)
                return false;
        }
    }
    if(*p == '?')
        return *x && !(start && *x == '.') && comp_match(p + 1, x + 1, false);
    return *p == *x && comp_match(p + 1, x + 1, false);
}
struct Result {
    std::vector<std::string> required;
    std::set<std::string> optional;
};
static void all_below(const Node &n, const std::string &path, std::vector<std::string> &out) {
    for(auto &k : n.kids)
        if(k.name[0] != '.') {
            out.push_back(path + k.name);
            if(k.dir)
                all_below(k, path + k.name + "/", out);
        }
}
static void ref_glob(const Node &n, const std::string &path, const std::vector<std::string> &pat, size_t i, Result &r) {
    if(pat[i] == "**") {
        if(i + 1 == pat.size()) {
            all_below(n, path, r.required);
            return;
        }
        ref_glob(n, path, pat, i + 1, r);
        for(auto &k : n.kids)
            if(k.dir && k.name[0] != '.')
                ref_glob(k, path + k.name + "/", pat, i, r);
        return;
    }
    for(auto &k : n.kids)
        if(comp_match(pat[i].c_str(), k.name.c_str())) {
            if(i + 1 == pat.size())
                r.required.push_back(path + k.name);
            else if(k.dir)
                ref_glob(k, path + k.name + "/", pat, i + 1, r);
        }
}
static std::string blur(T &t, std::string x) { // a component pattern derived from a name
    if(t.chance(30))
        return x;
    if(t.chance(20))
        return t.pick<const char *>({"*", "?", "??", "*.*", ".*", "*a*", "a*", "*?", "?*", "*x", "*a", "*.a", "b*a"});
    size_t n = 1 + t.size(3);
    for(size_t i = 0; i < n && !x.empty(); ++i) {
        size_t at = t.idx(x.size()), len = t.idx(x.size() - at + 1);
        switch(t.idx(4)) {
        case 0: x[at] = '?'; break;
        case 1: x.replace(at, len, "*"); break;
        case 2: x.insert(at, "*"); break;
        default: x += "*"; break;
        }
    }
    std::string y;
    for(char c : x)
        if(!(c == '*' && !y.empty() && y.back() == '*'))
            y += c;
    return y.empty() ? "*" : y;
}
static std::vector<std::string> gen_pattern(T &t, const Node &root) {
    std::vector<std::string> p;
    const Node *n = &root;
    size_t depth = 1 + t.idx(4);
    for(size_t i = 0; i < depth; ++i) {
        std::string name = gen_name(t);
        const Node *k = nullptr;
        if(n && !n->kids.empty() && t.chance(92)) {
            std::vector<const Node *> dirs;
            for(auto &x : n->kids)
                if(x.dir)
                    dirs.push_back(&x);
            k = i + 1 < depth && !dirs.empty() && t.chance(85) ? dirs[t.idx(dirs.size())] : &n->kids[t.idx(n->kids.size())];
            name = k->name;
        }
        p.push_back(blur(t, name));
        n = k && k->dir ? k : nullptr;
    }
    if(t.chance(35)) {
        size_t at = t.idx(p.size() + 1);
        if(t.idx(2) && at < p.size())
            p[at] = "**";
        else
            p.insert(p.begin() + at, "**");
    }
    return p;
}
static std::string spell(T &t, const std::vector<std::string> &p) {
    std::string x;
    for(size_t i = 0; i < p.size(); ++i)
        x += (i ? t.chance(3) ? "//" : "/" : "") + p[i];
    if(t.chance(3))
        x += "/";
    return x;
}

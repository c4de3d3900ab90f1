// C27: path algebra; C28: reading files; C29: globbing.
#include "pbt.hpp"
#include "ns.hpp"
#include "globref.hpp"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>

using namespace pbt;

static std::string s(const NS::Path &p) { return std::string(p.c_str(), p.size()); }

static int next_fd() {
    int fd = open("/dev/null", O_RDONLY);
    close(fd);
    return fd;
}

// ---------------------------------------------------------------- C27

static std::string norm(std::string x) {
    while(x.size() > 1 && x.back() == '/')
        x.pop_back();
    return x;
}
static std::string join(const std::string &a, const std::string &b) {
    if((b.size() && b[0] == '/') || a.empty())
        return b;
    return norm(a.back() == '/' ? a + b : a + "/" + b);
}
static std::string base(const std::string &p) {
    auto loc = p.rfind('/');
    return loc == std::string::npos ? p : p.substr(loc + 1);
}
// Position of the extension's dot, npos if there is none. `unclear` when the only dot is the first
// character of the name, where conventions differ.
static size_t ext_pos(const std::string &p, bool &unclear) {
    std::string b = base(p);
    auto loc = b.rfind('.');
    unclear = b == ".." || loc == 0;
    return loc == std::string::npos ? loc : p.size() - b.size() + loc;
}
static size_t path_scale = 1;
static std::string gen_text(T &t, bool slashes) {
    std::string x;
    size_t n = t.chance(90) ? t.size(12) : path_scale > 1 ? t.idx(300 * path_scale) : t.size(300);
    for(size_t i = 0; i < n; ++i)
        switch(t.weighted({4, slashes ? 4u : 0u, 4, 2, 1})) {
        case 0: x += 'a'; break;
        case 1: x += '/'; break;
        case 2: x += '.'; break;
        case 3: x += t.pick({'b', ' ', '*', '~', '-', 'Z'}); break;
        default: x += (char)t.uni(1, 255); break;
        }
    if(!slashes)
        x.erase(std::remove(x.begin(), x.end(), '/'), x.end());
    return x;
}
static std::string gen_path(T &t) {
    switch(t.weighted({8, 1, 1, 1})) {
    case 0: return gen_text(t, true);
    case 1: return std::string(t.size(4), '/');
    case 2: return "";
    default: {
        std::string x = t.idx(2) ? "/" : "";
        size_t n = t.idx(5);
        for(size_t i = 0; i < n; ++i)
            x += gen_text(t, false) + (t.chance(80) ? "/" : "//");
        return x;
    }
    }
}
static void check_path(T &t, const NS::Path &p, const std::string &m, const char *what) {
    CHECK(s(p) == m, "%s: path is %s, expected %s", what, show(s(p)).c_str(), show(m).c_str());
    CHECK(strlen(p.c_str()) == p.size(), "%s: not terminated", what);
    CHECK_EQ(p.is_empty(), m.empty(), "is_empty");
    CHECK_EQ(p.is_abs(), !m.empty() && m[0] == '/', "is_abs");
    auto f = p.filename();
    CHECK(s(f) == base(m), "filename of %s is %s, expected %s", show(m).c_str(), show(s(f)).c_str(), show(base(m)).c_str());
    bool unclear;
    size_t e = ext_pos(m, unclear);
    auto got = str(p.extension());
    std::string want = e == std::string::npos ? "" : m.substr(e);
    CHECK(got == want || (unclear && got.empty()), "extension of %s is %s, expected %s", show(m).c_str(), show(got).c_str(), show(want).c_str());
    // split
    auto parts = p.split();
    std::vector<std::string> wp;
    std::string cur;
    for(char c : m + "/")
        if(c == '/') {
            if(!cur.empty())
                wp.push_back(cur);
            cur.clear();
        } else
            cur += c;
    CHECK_EQ(parts.size(), wp.size(), "number of parts");
    NS::Path again(m.size() && m[0] == '/' ? "/" : "");
    std::string again_m = m.size() && m[0] == '/' ? "/" : "";
    for(size_t i = 0; i < wp.size(); ++i) {
        CHECK(str(parts[i]) == wp[i], "part %zu is %s, expected %s", i, show(str(parts[i])).c_str(), show(wp[i]).c_str());
        again = again / parts[i];
        again_m = join(again_m, wp[i]);
    }
    CHECK(s(again) == again_m, "joining the parts gives %s, expected %s", show(s(again)).c_str(), show(again_m).c_str());
}
static void path_case(T &t) {
    std::string text = norm(gen_path(t));
    std::string raw = text + (text.empty() ? "" : std::string(t.chance(30) ? t.size(4) : 0, '/'));
    t.note("start with %s", show(raw).c_str());
    NS::Path p = t.idx(2) ? NS::Path(raw.c_str()) : NS::Path(NS::CString(raw.c_str(), raw.size()));
    std::string m = norm(raw);
    check_path(t, p, m, "construction");
    size_t ops = 0;
    while(ops < 20 && t.more(5)) {
        ++ops;
        switch(t.weighted({6, 2, 3, 2, 1})) {
        case 0: {
            std::string o = gen_path(t);
            if(!o.empty() && t.chance(70))
                while(!o.empty() && o[0] == '/')
                    o.erase(0, 1);
            t.note("join with %s", show(o).c_str());
            switch(t.idx(3)) {
            case 0: p = p / o.c_str(); break;
            case 1: p = p / NS::CString(o.c_str(), o.size()); break;
            default: p = p / NS::Path(o.c_str()); break;
            }
            m = join(m, norm(o));
            check_path(t, p, m, "join");
            break;
        }
        case 1: {
            t.note("take the file name");
            p = p.filename();
            m = base(m);
            check_path(t, p, m, "filename");
            break;
        }
        case 2: {
            bool unclear;
            size_t e = ext_pos(m, unclear);
            if(unclear || m == "/")
                break;
            std::string x = t.chance(20) ? "" : t.chance(80) ? "." + gen_text(t, false) : gen_text(t, false);
            t.note("replace the extension by %s", show(x).c_str());
            if(t.idx(2))
                p.replace_extension(x.c_str());
            else
                p.replace_extension(NS::CStringView(x.data(), x.size()));
            if(e != std::string::npos)
                m.resize(e);
            m += x;
            check_path(t, p, m, "replace_extension");
            break;
        }
        case 3: {
            NS::Path q(p);
            check_path(t, q, m, "copy");
            NS::Path r(std::move(q));
            p = r;
            check_path(t, p, m, "copy of moved");
            break;
        }
        default: {
            // An absolute right hand side wins.
            auto q = p / NS::Path("/abs");
            CHECK(s(q) == "/abs", "joining an absolute path gave %s", show(s(q)).c_str());
            auto q2 = NS::Path() / p;
            CHECK(s(q2) == m, "joining to an empty path gave %s", show(s(q2)).c_str());
        }
        }
        if(m.size() > 4000 * path_scale)
            break;
    }
    if(ops >= 3)
        t.nontrivial();
}
PROP("C27", "path_algebra", .rule = "three or more operations", .quick = 250000) { path_case(t); }
PROP("C27", "path_algebra.large", .rule = "three or more operations", .quick = 1500, .cpu_limit = 60, .guided = false) {
    path_scale = 40;
    struct Restore {
        ~Restore() { path_scale = 1; }
    } restore;
    path_case(t);
}

// ---------------------------------------------------------------- C28

#if YEAR == 2025
static const char *mdata(const NS::MMapping &m) { return m.view().data(); }
static size_t msize(const NS::MMapping &m) { return m.view().size(); }
#else
static const char *mdata(const NS::MMapping &m) { return m.span().size() ? &m.span()[0] : nullptr; }
static size_t msize(const NS::MMapping &m) { return m.span().size(); }
#endif
static bool big_files = false;
struct Big {
    Big() { big_files = true; }
    ~Big() { big_files = false; }
};
static std::string gen_content(T &t) {
    std::string x;
    if(big_files) { // whole and broken pages and buffers of usual sizes, one line or many
        size_t n = t.pick({65536u, 131072u, 1u << 20, 1u << 21, 3u << 20, 5000000u});
        if(t.chance(70))
            n = n - 3 + t.idx(7);
        else
            n = t.idx(n);
        unsigned w = t.pick({0u, 1u, 7u, 80u, 4096u, 70000u});
        std::string pat;
        for(int i = 0; i < 251; ++i)
            pat += (char)('a' + t.idx(26));
        x.resize(n);
        for(size_t i = 0; i < n; ++i)
            x[i] = w && i % (w + 1) == w ? '\n' : pat[i % 251];
        if(n && t.chance(30))
            x[t.idx(n)] = (char)t.idx(256);
        return x;
    }
    switch(t.weighted({4, 4, 3, 2, 1})) {
    case 0: { // lines
        size_t n = t.size(12);
        for(size_t i = 0; i < n; ++i) {
            size_t len = t.chance(85) ? t.size(12) : t.size(400);
            for(size_t k = 0; k < len; ++k)
                x += (char)t.uni(' ', '~');
            if(i + 1 < n || t.idx(2))
                x += t.chance(90) ? "\n" : "\r\n";
        }
        break;
    }
    case 1: { // bytes
        size_t n = t.size(200);
        for(size_t i = 0; i < n; ++i)
            x += t.chance(15) ? t.pick({'\n', '\0', '\r', '\x1a'}) : (char)t.idx(256);
        break;
    }
    case 2: { // text
        size_t n = t.size(60);
        for(size_t i = 0; i < n; ++i)
            x += t.pick<const char *>({"a", " ", "\n", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "0"});
        if(t.chance(15))
            x += t.pick<const char *>({"\xc3", "\x80", "\xff", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\xe2\x82"});
        break;
    }
    case 3: { // long
        size_t n = (size_t)t.uni(0, 40);
        size_t len = t.pick({100u, 4095u, 4096u, 4097u, 511u});
        for(size_t i = 0; i < n; ++i)
            x += std::string(len, (char)('a' + i % 26)) + (t.chance(60) ? "\n" : "");
        x += std::string(t.size(5), 'z');
        break;
    }
    default: x = std::string(t.size(3), '\n'); break;
    }
    return x;
}
static bool valid_utf8(const std::string &x) {
    size_t i = 0;
    while(i < x.size()) {
        unsigned char c = x[i];
        size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
        if(!n || i + n > x.size())
            return false;
        for(size_t k = 1; k < n; ++k)
            if(((unsigned char)x[i + k] & 0xc0) != 0x80)
                return false;
        unsigned char d = n > 1 ? x[i + 1] : 0;
        if((c == 0xe0 && d < 0xa0) || (c == 0xed && d >= 0xa0) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d >= 0x90))
            return false;
        i += n;
    }
    return true;
}
static void check_file(T &t, const std::string &path, const std::string &want) {
    NS::Path p(path.c_str());
    auto b = p.load_bytes();
    CHECK(bool(b), "load_bytes failed");
    CHECK_EQ(b->size(), want.size(), "size of the bytes loaded");
    CHECK(std::string(b->data(), b->size()) == want, "load_bytes returned other bytes than the file has");
    auto u = p.load_text();
    bool nul = want.find('\0') != std::string::npos;
    if(!valid_utf8(want))
        CHECK(!u, "load_text accepted text that is not UTF-8");
    else if(!u)
        CHECK(nul, "load_text refused valid text");
    else
        CHECK(std::string(u->c_str(), u->size_bytes()) == want, "load_text returned other text than the file has");
    if(valid_utf8(want) && !nul)
        t.label("text loaded");
    auto m = NS::mmap_file(path.c_str());
    if(!m)
        CHECK(want.empty(), "mmap_file failed");
    else {
        CHECK_EQ(msize(*m), want.size(), "size of the mapping");
        CHECK(want.empty() || memcmp(mdata(*m), want.data(), want.size()) == 0, "the mapping has other bytes than the file");
    }
}
static void load_case(T &t) {
    Scratch d;
    std::string x = gen_content(t);
    t.note("file of %zu bytes: %s", x.size(), show(x.substr(0, 200)).c_str());
    std::string f = d / "data.bin";
    write_file(f, x);
    int fd = next_fd();
    check_file(t, f, x);
    NS::Path p(f.c_str());
    CHECK(p.exists() && p.is_file() && !p.is_dir(), "kind of an existing file");
    switch(t.idx(6)) {
    case 0: { // renaming
        NS::Path q((d / "other").c_str());
        if(t.idx(2))
            write_file(d / "other", "old");
        CHECK(p.rename_to(q), "rename failed");
        CHECK(!p.exists() && q.is_file(), "rename did not move the file");
        check_file(t, d / "other", x);
        break;
    }
    case 1: { // rewriting with a shorter or longer text
        std::string y = gen_content(t);
        write_file(f, y);
        check_file(t, f, y);
        break;
    }
    case 2: { // things that can not be loaded
        std::string dir = d / "dir";
        mkdir(dir.c_str(), 0700);
        for(std::string what : {d / "missing", dir, d / "dir/x", f + "/x"}) {
            NS::Path q(what.c_str());
            t.note("load %s", what.c_str() + d.path.size());
            CHECK(!q.load_bytes(), "load_bytes of something that is no file succeeded");
            CHECK(!q.load_text(), "load_text of something that is no file succeeded");
            CHECK(!NS::mmap_file(what.c_str()), "mmap_file of something that is no file succeeded");
            CHECK(!q.is_file(), "is_file of something that is no file");
            CHECK_EQ(q.exists(), what == dir, "exists");
            CHECK_EQ(q.is_dir(), what == dir, "is_dir");
        }
        CHECK(!NS::Path().exists() && !NS::Path().is_file() && !NS::Path().is_dir(), "the empty path names something");
        CHECK(!NS::Path().load_bytes(), "the empty path was loaded");
        NS::Path target(dir.c_str());
        CHECK(!p.rename_to(target) && p.is_file() && target.is_dir(), "a file was renamed over a directory");
        CHECK(!NS::Path((d / "missing").c_str()).rename_to(NS::Path((d / "new").c_str())), "a missing file was renamed");
        CHECK(!NS::Path((d / "new").c_str()).exists(), "renaming a missing file made one");
        check_file(t, f, x);
        NS::MMapping nothing;
        CHECK_EQ(msize(nothing), (size_t)0, "size of a default mapping");
        break;
    }
    default: break;
    }
    CHECK_EQ(next_fd(), fd, "next free file descriptor (leak)");
    if(x.size() >= 2)
        t.nontrivial();
}
static bool is_mapped(const void *p) { // p is page aligned
    unsigned char v;
    return mincore((void *)p, 1, &v) == 0;
}
PROP("C28", "mappings", .rule = "two or more operations", .quick = 20000) {
    Scratch d;
    std::string content[3];
    for(int i = 0; i < 3; ++i) {
        content[i] = std::string(1 + t.size(9000), (char)('a' + i)) + std::to_string(t.idx(1000));
        write_file(d / std::to_string(i), content[i]);
    }
    {
        NS::Optional<NS::MMapping> slot[3];
        int holds[3] = {-1, -1, -1};
        size_t ops = 0;
        while(ops < 12 && t.more(6)) {
            ++ops;
            int i = (int)t.idx(3), j = (int)t.idx(3);
            switch(t.weighted({4, 4, 1})) {
            case 0: {
                int f = (int)t.idx(3);
                const void *old = holds[i] >= 0 ? (const void *)mdata(*slot[i]) : nullptr;
                t.note("slot %d = mapping of file %d", i, f);
                slot[i] = NS::mmap_file((d / std::to_string(f)).c_str());
                if(old && old != mdata(*slot[i]))
                    CHECK(!is_mapped(old), "replacing a mapping left the old one mapped");
                holds[i] = f;
                break;
            }
            case 1:
                if(holds[i] >= 0 && holds[j] >= 0) {
                    const void *old = mdata(*slot[i]), *from = mdata(*slot[j]);
                    t.note("mapping of slot %d = move(mapping of slot %d)", i, j);
                    *slot[i] = std::move(*slot[j]);
                    if(i != j) {
                        CHECK(mdata(*slot[i]) == from, "move assignment lost the mapping");
                        CHECK(!is_mapped(old), "move assignment left the old mapping mapped");
                        holds[i] = holds[j];
                        holds[j] = -1;
                        slot[j] = NS::Optional<NS::MMapping>();
                    }
                }
                break;
            default:
                t.note("slot %d = nothing", i);
                slot[i] = NS::Optional<NS::MMapping>();
                holds[i] = -1;
            }
            for(int k = 0; k < 3; ++k)
                if(holds[k] >= 0) {
                    CHECK(bool(slot[k]), "slot %d is empty", k);
                    const auto &w = content[holds[k]];
                    CHECK_EQ(msize(*slot[k]), w.size(), "size of a mapping");
                    CHECK(memcmp(mdata(*slot[k]), w.data(), w.size()) == 0, "content of slot %d", k);
                }
        }
        if(ops >= 2)
            t.nontrivial();
    }
}
static std::vector<std::string> lines_of(const std::string &x) {
    std::vector<std::string> l;
    size_t i = 0;
    while(i < x.size()) {
        size_t e = x.find('\n', i);
        e = e == std::string::npos ? x.size() : e + 1;
        l.push_back(x.substr(i, e - i));
        i = e;
    }
    return l;
}
static void lines_case(T &t) {
    Scratch d;
    std::string x = gen_content(t);
    t.note("file of %zu bytes: %s", x.size(), show(x.substr(0, 300)).c_str());
    write_file(d / "f", x);
    int fd = next_fd();
    auto want = lines_of(x);
    auto same = [&](const NS::Bytes &b, size_t n, const char *what) {
        CHECK(n < want.size(), "%s: a line beyond the last one: %s", what, show(b.data(), b.size()).c_str());
        CHECK(std::string(b.data(), b.size()) == want[n], "%s: line %zu is %s, expected %s", what, n, show(b.data(), b.size()).substr(0, 200).c_str(),
              show(want[n]).substr(0, 200).c_str());
    };
    int way = (int)t.idx(3);
    {
        NS::File f((d / "f").c_str(), "rb");
        size_t n = 0;
        switch(way) {
        case 0:
            t.note("range for");
            for(auto &&line : f) {
                same(line, n, "iteration");
                ++n;
            }
            break;
        case 1: {
            t.note("iterator, reading each line several times");
            auto it = f.begin();
            auto e = f.end();
            for(; it != e; ++it) {
                size_t reads = 1 + t.idx(3);
                for(size_t k = 0; k < reads; ++k) {
                    CHECK(it != e, "the iterator ended after its line was read");
                    auto &&line = *it;
                    same(line, n, "repeated reading");
                }
                ++n;
            }
            CHECK(!(it != e), "the end does not stay the end");
            break;
        }
        default:
            t.note("readline_bytes");
            for(; n < want.size(); ++n) {
                CHECK(!f.eof(), "eof before the last line");
                same(f.readline_bytes(), n, "readline_bytes");
            }
            CHECK_EQ(f.readline_bytes().size(), 0, "size of a line read at the end");
            CHECK(f.eof(), "eof is not reported at the end");
        }
        CHECK_EQ(n, want.size(), "number of lines");
    }
    CHECK_EQ(next_fd(), fd, "next free file descriptor (leak)");
    if(want.size() >= 2)
        t.nontrivial();
}

// ---------------------------------------------------------------- C29

static void check_glob(T &t, const Node &root, const std::string &dir, NS::Path base_path, const std::string &prefix, const std::vector<std::string> &pat) {
    std::string text = spell(t, pat);
    t.note("glob %s", show(text).c_str());
    Result r;
    ref_glob(root, "", pat, 0, r);
    std::vector<std::string> want, got;
    for(auto &x : r.required)
        want.push_back(prefix + x);
    int fd = next_fd();
    {
        auto g = base_path.glob(text.c_str());
        size_t move_at = t.chance(20) ? t.idx(3) : 99;
        while(true) {
            if(got.size() == move_at) {
                NS::GlobResult h(std::move(g)), none;
                CHECK(!none.next(), "an empty result set has a result");
                g = std::move(h);
            }
            auto o = g.next();
            if(!o)
                break;
            got.push_back(s(*o));
            CHECK(got.size() <= 2 * want.size() + 50, "far too many results, the last is %s", show(got.back()).c_str());
        }
        CHECK(!g.next(), "a result after the end");
    }
    CHECK_EQ(next_fd(), fd, "next free file descriptor (leak)");
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    for(auto &x : got)
        CHECK(std::binary_search(want.begin(), want.end(), x), "%s does not match or does not exist", show(x).c_str());
    for(auto &x : want)
        CHECK(std::binary_search(got.begin(), got.end(), x), "%s is missing", show(x).c_str());
    CHECK_EQ(got.size(), want.size(), "number of results (duplicates)");
    if(want.size() >= 1)
        t.nontrivial();
    if(want.size() >= 4)
        t.label("four or more matches");
}
static void glob_case(T &t) {
    Scratch d;
    Node root;
    size_t budget = 40;
    gen_kids(t, root, 0, budget);
    std::string top = d / "tree";
    mkdir(top.c_str(), 0700);
    make_tree(root, top);
    t.note("tree:");
    describe(t, root, "  ");
    int how = (int)t.idx(3);
    Chdir cd(how == 1 ? top : d.path, how != 0);
    size_t rounds = 1 + t.idx(4);
    for(size_t i = 0; i < rounds; ++i) {
        auto pat = gen_pattern(t, root);
        NS::Path base_path = how == 0 ? NS::Path(top.c_str()) : how == 1 ? NS::Path() : NS::Path("tree");
        check_glob(t, root, top, base_path, how == 0 ? top + "/" : how == 1 ? "" : "tree/", pat);
    }
}
PROP("C29", "glob", .rule = "at least one match", .quick = 9000) { glob_case(t); }

// Name matching alone, in one directory with many names.
PROP("C29", "names", .rule = "at least one match", .quick = 8000) {
    Scratch d;
    Node root;
    std::set<std::string> used;
    size_t n = 1 + t.size(30);
    for(size_t i = 0; i < n; ++i) {
        Node k;
        k.name = gen_name(t);
        if(t.chance(5))
            k.name += std::string(t.size(200), 'a');
        if(used.insert(k.name).second)
            root.kids.push_back(k);
    }
    make_tree(root, d.path);
    t.note("names:");
    describe(t, root, "  ");
    size_t rounds = 1 + t.idx(12);
    for(size_t i = 0; i < rounds; ++i)
        check_glob(t, root, d.path, NS::Path(d.path.c_str()), d.path + "/", {blur(t, root.kids[t.idx(root.kids.size())].name)});
}
// More directories than may be open at once.
PROP("C29", "many_directories", .rule = "every case", .quick = 60, .guided = false) {
    Scratch d;
    Node root;
    size_t n = 40 + t.idx(120);
    for(size_t i = 0; i < n; ++i) {
        Node k, f;
        k.name = "d" + std::to_string(i);
        k.dir = true;
        f.name = t.idx(2) ? "f" : "g";
        k.kids.push_back(f);
        root.kids.push_back(k);
    }
    make_tree(root, d.path);
    rlimit old, low;
    getrlimit(RLIMIT_NOFILE, &old);
    low = old;
    low.rlim_cur = next_fd() + 20;
    t.note("%zu directories, 20 free file descriptors", n);
    setrlimit(RLIMIT_NOFILE, &low);
    struct Restore {
        rlimit r;
        ~Restore() { setrlimit(RLIMIT_NOFILE, &r); }
    } restore{old};
    auto pat = t.pick<std::vector<std::string>>({{"**", "f"}, {"*", "f"}, {"**"}, {"d1*", "**", "g"}, {"**", "*"}});
    check_glob(t, root, d.path, NS::Path(d.path.c_str()), d.path + "/", pat);
    t.nontrivial();
}
// Deep chains of directories, and a directory with many entries.
PROP("C29", "large", .rule = "every case", .quick = 160, .cpu_limit = 60, .guided = false) {
    Scratch d;
    Node root;
    const bool deep = t.idx(2), wide = !deep && t.idx(2);
    const size_t n = deep ? 1 + t.idx(120) : 1 + t.idx(wide ? 600 : 4000);
    std::vector<std::string> pat;
    if(deep) {
        Node chain; // built from the innermost directory outwards
        for(size_t i = 0; i < n; ++i) {
            Node k, f;
            f.name = i % 3 ? "f" : "g";
            k.name = i % 7 == 3 ? "e" : "d";
            k.dir = true;
            k.kids.push_back(f);
            if(i)
                k.kids.push_back(chain);
            chain = k;
        }
        root.kids.push_back(chain);
        switch(t.idx(4)) {
        case 0: pat = {"**", t.idx(2) ? "f" : "g"}; break;
        case 1: pat = {"**"}; break;
        case 2: pat = std::vector<std::string>(t.idx(n) + 1, "*"); break;
        default: pat = {"d", "**", "e", "f"};
        }
    } else if(wide) { // many directories, some of them with directories inside
        for(size_t i = 0; i < n; ++i) {
            Node k, f;
            f.name = i % 3 ? "f" : "g";
            k.name = (i % 9 == 4 ? ".d" : "d") + std::to_string(i);
            k.dir = true;
            k.kids.push_back(f);
            if(i % 5 == 2) {
                Node sub;
                sub.name = "sub";
                sub.dir = true;
                sub.kids.push_back(f);
                k.kids.push_back(sub);
            }
            root.kids.push_back(k);
        }
        pat = t.pick<std::vector<std::string>>({{"**", "f"}, {"*", "f"}, {"**"}, {"**", "sub", "*"}, {"*", "sub"}, {"*", "**", "g"}, {"d*", "*", "f"}});
    } else {
        for(size_t i = 0; i < n; ++i) {
            Node f;
            f.name = (i % 5 ? "file" : ".hid") + std::to_string(i) + (i % 3 ? ".txt" : "");
            root.kids.push_back(f);
        }
        pat = {t.pick<const char *>({"*", "*.txt", "file*", "file1*", "*9.txt", ".*", "**"})};
    }
    t.note("%s of %zu", deep ? "chain" : wide ? "directories" : "directory", n);
    make_tree(root, d.path);
    check_glob(t, root, d.path, NS::Path(d.path.c_str()), d.path + "/", pat);
    t.nontrivial();
}
PROP("C29", "malformed", .rule = "the pattern is malformed", .quick = 6000) {
    Scratch d;
    mkdir((d / "a").c_str(), 0700);
    write_file(d / "a/b", "");
    std::string pat;
    switch(t.idx(4)) {
    case 0: pat = std::string(t.size(4), '/'); break; // no component at all
    case 1: pat = t.pick<const char *>({"**/a/**", "**/**", "a/**/**", "**/b/**/c"}); break;
    case 2: pat = t.pick<const char *>({"a**", "**a", "a/**b", "***", "*/a**b/c", "**?"}); break;
    default: {
        pat = gen_name(t);
        pat.insert(t.idx(pat.size() + 1), "**");
        if(t.idx(2))
            pat += "/*";
    }
    }
    t.note("glob %s", show(pat).c_str());
    NS::Path p(d.path.c_str());
    int fd = next_fd();
    CHECK(rejects([&] { auto g = p.glob(pat.c_str()); g.next(); }), "the malformed pattern was accepted");
    CHECK_EQ(next_fd(), fd, "next free file descriptor (leak)");
    t.nontrivial();
}

PROP("C28", "load", .rule = "the file has two or more bytes", .quick = 25000) { load_case(t); }
PROP("C28", "lines", .rule = "two or more lines", .quick = 30000) { lines_case(t); }
PROP("C28", "load_big", .rule = "as load, with files of up to 5 MB", .quick = 100, .cpu_limit = 60, .guided = false) {
    Big big;
    load_case(t);
}
PROP("C28", "lines_big", .rule = "as lines, with files of up to 5 MB", .quick = 100, .cpu_limit = 60, .guided = false) {
    Big big;
    lines_case(t);
}

PROP("C37", "many_stars", .rule = "a pattern with four or more stars", .quick = 3000, .cpu_limit = 8, .guided = false) {
    Scratch d;
    std::vector<std::string> names;
    for(size_t n = 1 + t.idx(4); n; --n) {
        std::string x;
        for(size_t k = 1 + t.idx(t.chance(50) ? 12 : 200); k; --k)
            x += t.chance(t.pick({0u, 3u, 30u})) ? 'b' : 'a';
        if(std::find(names.begin(), names.end(), x) != names.end())
            continue;
        names.push_back(x);
        write_file(d / x, "");
    }
    std::string pat;
    size_t stars = 0;
    const size_t max = t.chance(50) ? 4 : 60;
    for(size_t k = 1 + t.idx(max); k; --k) {
        pat += t.pick({'*', '*', '*', '?'});
        stars += pat.back() == '*';
        pat += std::string(1 + t.idx(2), t.chance(85) ? 'a' : 'b');
    }
    pat += t.pick<const char *>({"", "", "b", "*", "?"});
    stars += pat.back() == '*';
    for(auto &x : names)
        t.note("file %s", x.c_str());
    t.note("glob %s", pat.c_str());
    std::set<std::string> want, got;
    for(auto &x : names) { // match[i][k]: the rest of the name from i matches the rest of the pattern from k
        std::vector<std::vector<char>> m(x.size() + 1, std::vector<char>(pat.size() + 1));
        for(size_t i = x.size() + 1; i-- > 0;)
            for(size_t k = pat.size() + 1; k-- > 0;)
                m[i][k] = k == pat.size() ? i == x.size()
                          : pat[k] == '*' ? m[i][k + 1] || (i < x.size() && m[i + 1][k])
                                          : i < x.size() && (pat[k] == '?' || pat[k] == x[i]) && m[i + 1][k + 1];
        if(m[0][0])
            want.insert(x);
    }
    auto g = NS::Path(d.path.c_str()).glob(pat.c_str());
    while(auto p = g.next())
        got.insert(std::string(p->c_str()).substr(d.path.size() + 1));
    CHECK(got == want, "glob found %zu files, expected %zu", got.size(), want.size());
    t.label(want.empty() ? "no match" : "matches");
    if(stars >= 4)
        t.nontrivial();
}

// C38: system calls that fail, and files that change behind the program's back. The functions of
// libc that the library calls are replaced at link time (--wrap); they fail when a case says so.
#include "pbt.hpp"
#include "ns.hpp"
#include "globref.hpp"
#if YEAR == 2025
#include <pystd2025_threading.hpp>
#else
#include <pystd2026_threading.hpp>
#endif
#include <pthread.h>
#include <sys/mman.h>

using namespace pbt;

struct Faults {
    bool fopen_fails = false, stat_fails = false, mmap_fails = false, rename_fails = false;
    int read_mode = 0; // 1 an error, 2 the file is cut, 3 the file is emptied
    size_t read_after = 0;
    std::string path;
    std::set<std::string> unreadable; // directories
    long opendir_countdown = -1;      // from that call on all fail
    long create_countdown = -1;       // that call fails
    int lock_error = 0, trylock_error = 0, unlock_error = 0;
    int fired = 0, unlocks = 0;
};
static Faults faults;
static thread_local bool armed = false;
static std::string no_double_slash(const char *p) {
    std::string x;
    for(; *p; ++p)
        if(*p != '/' || x.empty() || x.back() != '/')
            x += *p;
    while(x.size() > 1 && x.back() == '/')
        x.pop_back();
    return x;
}

extern "C" {
FILE *__real_fopen(const char *, const char *);
size_t __real_fread(void *, size_t, size_t, FILE *);
int __real_stat(const char *, struct stat *);
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_rename(const char *, const char *);
DIR *__real_opendir(const char *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);

FILE *__wrap_fopen(const char *p, const char *m) {
    if(armed && faults.fopen_fails) {
        ++faults.fired;
        errno = EMFILE;
        return nullptr;
    }
    return __real_fopen(p, m);
}
size_t __wrap_fread(void *buf, size_t size, size_t n, FILE *f) {
    if(!armed || !faults.read_mode)
        return __real_fread(buf, size, n, f);
    ++faults.fired;
    armed = false;
    size_t first = std::min(n, faults.read_after);
    size_t got = __real_fread(buf, size, first, f);
    if(faults.read_mode == 1) { // reading a directory is an error
        int d = open("/", O_RDONLY | O_DIRECTORY);
        dup2(d, fileno(f));
        close(d);
    } else if(truncate(faults.path.c_str(), faults.read_mode == 2 ? (off_t)first : 0) != 0)
        infra("truncate");
    if(got == first && first < n)
        got += __real_fread((char *)buf + got * size, size, n - first, f);
    armed = true;
    return got;
}
int __wrap_stat(const char *p, struct stat *s) {
    if(armed && faults.stat_fails) {
        ++faults.fired;
        errno = EACCES;
        return -1;
    }
    return __real_stat(p, s);
}
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
    if(armed && faults.mmap_fails) {
        ++faults.fired;
        errno = ENOMEM;
        return MAP_FAILED;
    }
    return __real_mmap(a, n, p, f, fd, o);
}
int __wrap_rename(const char *a, const char *b) {
    if(armed && faults.rename_fails) {
        ++faults.fired;
        errno = EXDEV;
        return -1;
    }
    return __real_rename(a, b);
}
DIR *__wrap_opendir(const char *p) {
    if(armed) {
        if(faults.unreadable.count(no_double_slash(p))) {
            ++faults.fired;
            errno = EACCES;
            return nullptr;
        }
        if(faults.opendir_countdown == 0) {
            ++faults.fired;
            errno = EMFILE;
            return nullptr;
        }
        if(faults.opendir_countdown > 0)
            --faults.opendir_countdown;
    }
    return __real_opendir(p);
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *c) {
    if(armed && faults.create_countdown >= 0 && faults.create_countdown-- == 0) {
        ++faults.fired;
        return EAGAIN;
    }
    return __real_pthread_create(t, a, f, c);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if(armed && faults.lock_error) {
        ++faults.fired;
        return faults.lock_error;
    }
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if(armed && faults.trylock_error) {
        ++faults.fired;
        return faults.trylock_error;
    }
    return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if(armed) {
        ++faults.unlocks;
        if(faults.unlock_error) {
            ++faults.fired;
            return faults.unlock_error;
        }
    }
    return __real_pthread_mutex_unlock(m);
}
}
struct Armed { // faults happen while one exists
    Armed() { armed = true; }
    ~Armed() { armed = false; }
};
static int next_fd() {
    int fd = open("/dev/null", O_RDONLY);
    close(fd);
    return fd;
}
static std::string bytes_of(const NS::Optional<NS::Bytes> &b) { return std::string(b->data(), b->size()); }

PROP("C38", "loading", .rule = "a fault happened", .quick = 20000) {
    Scratch d;
    faults = Faults();
    std::string x;
    for(size_t n = t.chance(40) ? t.size(60) : 1 + t.idx(20000), w = 1 + t.idx(7); x.size() < n;)
        x += (char)('a' + (x.size() / w) % 26);
    x += "end";
    const std::string f = d / "f", other = d / "other";
    write_file(f, x);
    const bool had = t.chance(50);
    if(had)
        write_file(other, "old");
    faults.path = f;
    const int kind = (int)t.idx(6);
    static const char *names[] = {"fopen fails", "stat fails", "mmap fails", "reading fails", "the file is cut while it is read", "the file is emptied while it is read"};
    switch(kind) {
    case 0: faults.fopen_fails = true; break;
    case 1: faults.stat_fails = true; break;
    case 2: faults.mmap_fails = true; break;
    default:
        faults.read_mode = kind - 2;
        faults.read_after = t.chance(50) ? 0 : t.idx(x.size());
    }
    const int op = (int)t.idx(4);
    static const char *ops[] = {"load_bytes", "load_text", "mmap_file", "rename_to"};
    t.note("%zu bytes, %s (after %zu): %s", x.size(), names[kind], faults.read_after, ops[op]);
    t.label(names[kind]);
    t.label(ops[op]);
    const int fd = next_fd();
    NS::Path p(f.c_str());
    if(op == 0) {
        NS::Optional<NS::Bytes> b;
        {
            Armed a;
            b = p.load_bytes();
        }
        if(b)
            CHECK(bytes_of(b) == x, "load_bytes gave %zu bytes that are not the file's %zu", b->size(), x.size());
        CHECK(!(b && faults.fired && kind == 0), "load_bytes succeeded although %s", names[kind]);
        CHECK(b || faults.fired, "load_bytes failed without a reason");
    } else if(op == 1) {
        NS::Optional<NS::U8String> u;
        {
            Armed a;
            u = p.load_text();
        }
        if(u)
            CHECK(std::string(u->c_str(), u->size_bytes()) == x, "load_text gave other text than the file has");
        CHECK(!(u && faults.fired && kind == 0), "load_text succeeded although %s", names[kind]);
        CHECK(u || faults.fired, "load_text failed without a reason");
    } else if(op == 2) {
        NS::Optional<NS::MMapping> m;
        {
            Armed a;
            m = NS::mmap_file(f.c_str());
        }
        CHECK(!(m && faults.fired && kind == 2), "mmap_file succeeded although %s", names[kind]);
        CHECK(m || faults.fired, "mmap_file failed without a reason");
        if(m && !faults.fired) {
#if YEAR == 2025
            const char *const at = m->view().data();
            const size_t len = m->view().size();
#else
            const char *const at = m->span().begin();
            const size_t len = m->span().size();
#endif
            CHECK(len == x.size() && memcmp(at, x.data(), len) == 0, "the mapping has other bytes than the file");
        }
    } else {
        faults.stat_fails = faults.fopen_fails = false;
        faults.rename_fails = kind < 3;
        const std::string to = kind == 5 ? d / "missing/other" : other;
        bool ok;
        {
            Armed a;
            ok = p.rename_to(NS::Path(to.c_str()));
        }
        const bool want = kind == 3 || kind == 4 || (kind < 3 && !faults.fired);
        CHECK_EQ(ok, want, "result of rename_to");
        faults = Faults();
        struct stat sb;
        CHECK_EQ(stat(f.c_str(), &sb) == 0, !want, "the old name exists");
        auto b = NS::Path(want ? other.c_str() : f.c_str()).load_bytes();
        CHECK(b && bytes_of(b) == x, "the file changed");
        if(!want && had) {
            auto o = NS::Path(other.c_str()).load_bytes();
            CHECK(o && bytes_of(o) == "old", "a failed rename changed the target");
        }
        if(!want)
            t.nontrivial();
    }
    CHECK_EQ(next_fd(), fd, "next free file descriptor (leak)");
    if(faults.fired)
        t.nontrivial();
}

static void collect_dirs(Node &n, const std::string &path, std::vector<std::pair<Node *, std::string>> &out) {
    for(auto &k : n.kids)
        if(k.dir) {
            out.push_back({&k, path + "/" + k.name});
            collect_dirs(k, path + "/" + k.name, out);
        }
}
static void prune(Node &n, const std::string &path) {
    for(auto &k : n.kids)
        if(k.dir) {
            if(faults.unreadable.count(path + "/" + k.name))
                k.kids.clear();
            prune(k, path + "/" + k.name);
        }
}
PROP("C38", "globbing", .rule = "a directory could not be read or was deleted", .quick = 6000) {
    Scratch d;
    faults = Faults();
    Node root;
    size_t budget = 40;
    gen_kids(t, root, 0, budget);
    make_tree(root, d.path);
    const auto pat = gen_pattern(t, root);
    std::string pattern;
    for(auto &c : pat)
        pattern += (pattern.empty() ? "" : "/") + c;
    describe(t, root, "");
    t.note("glob %s", show(pattern).c_str());
    size_t starstars = 0;
    for(auto &c : pat)
        starstars += c == "**";
    if(starstars > 1)
        return;
    Result full;
    ref_glob(root, "", pat, 0, full);
    std::set<std::string> want(full.required.begin(), full.required.end()), needed = want, got;
    std::vector<std::pair<Node *, std::string>> dirs;
    collect_dirs(root, d.path, dirs);
    const int kind = dirs.empty() ? 1 : (int)t.idx(3);
    std::string victim;
    if(kind == 0) { // some directories can not be read
        for(size_t n = 1 + t.idx(3); n; --n) {
            auto &v = dirs[t.idx(dirs.size())];
            faults.unreadable.insert(v.second);
            t.note("unreadable: %s", v.second.c_str() + d.path.size());
        }
        prune(root, d.path);
        Result r;
        ref_glob(root, "", pat, 0, r);
        want = needed = std::set<std::string>(r.required.begin(), r.required.end());
    } else if(kind == 1) {
        faults.opendir_countdown = (long)t.idx(8);
        t.note("no more directories after %ld", faults.opendir_countdown);
        needed.clear();
    }
    const size_t remove_after = t.idx(4);
    const int fd = next_fd();
    {
        NS::Path p(d.path.c_str());
        auto g = [&] {
            Armed a;
            return p.glob(pattern.c_str());
        }();
        size_t n = 0;
        while(true) {
            if(kind == 2 && n == remove_after) {
                victim = dirs[t.idx(dirs.size())].second;
                t.note("remove %s after %zu results", victim.c_str() + d.path.size(), n);
                remove_tree(AT_FDCWD, victim.c_str());
                const std::string rel = victim.substr(d.path.size() + 1);
                for(auto it = needed.begin(); it != needed.end();)
                    if((*it == rel || it->compare(0, rel.size() + 1, rel + "/") == 0))
                        it = needed.erase(it);
                    else
                        ++it;
                t.nontrivial();
            }
            NS::Optional<NS::Path> e;
            {
                Armed a;
                e = g.next();
            }
            if(!e)
                break;
            std::string x = e->c_str();
            CHECK(x.compare(0, d.path.size() + 1, d.path + "/") == 0, "result outside of the directory: %s", x.c_str());
            x = x.substr(d.path.size() + 1);
            CHECK(want.count(x), "%s does not match", show(x).c_str());
            CHECK(got.insert(x).second, "%s was found twice", show(x).c_str());
            CHECK(++n < 2000, "glob does not end");
        }
    }
    for(auto &x : needed)
        CHECK(got.count(x), "%s was not found", show(x).c_str());
    CHECK_EQ(next_fd(), fd, "next free file descriptor (leak)");
    if(faults.fired)
        t.nontrivial();
}

static void *count_up(void *p) {
    ((std::atomic<int> *)p)->fetch_add(1);
    return nullptr;
}
PROP("C38", "threads", .rule = "a fault happened", .quick = 3000, .guided = false) {
    faults = Faults();
    std::atomic<int> runs[6] = {};
    const size_t n = 1 + t.idx(6);
    faults.create_countdown = (long)t.idx(n + 1);
    const long bad = faults.create_countdown;
    t.note("%zu threads, number %ld can not be created", n, bad);
    {
        std::unique_ptr<NS::Thread> th[6];
        Armed a;
        for(size_t i = 0; i < n; ++i) {
            bool thrown = rejects([&] { th[i].reset(new NS::Thread(count_up, &runs[i])); });
            CHECK_EQ(thrown, (long)i == bad && faults.fired, "the constructor threw");
            if(!thrown && t.chance(30))
                th[i]->join();
        }
    }
    for(size_t i = 0; i < n; ++i)
        CHECK_EQ(runs[i].load(), !((long)i == bad && faults.fired), "runs of a thread");
    if(faults.fired)
        t.nontrivial();
}
PROP("C38", "mutexes", .rule = "a fault happened", .quick = 20000) {
    faults = Faults();
    NS::Mutex m;
    bool held = false;
    for(int i = 0; i < 12 && t.more(6); ++i) {
        faults = Faults();
        const bool fault = t.chance(40);
        const int err = t.pick({EINVAL, EDEADLK, EAGAIN, ENOTRECOVERABLE});
        switch(t.idx(4)) {
        case 0: {
            if(held && !fault)
                break;
            faults.lock_error = fault ? err : 0;
            t.note("lock, error %d", faults.lock_error);
            bool thrown;
            {
                Armed a;
                thrown = rejects([&] { m.lock(); });
            }
            CHECK_EQ(thrown, faults.fired > 0, "lock threw");
            held = held || !thrown;
            break;
        }
        case 1: {
            faults.trylock_error = fault ? err : 0;
            t.note("try_lock, error %d", faults.trylock_error);
            bool r = false, thrown;
            {
                Armed a;
                thrown = rejects([&] { r = m.try_lock(); });
            }
            if(faults.fired)
                CHECK(thrown || !r, "try_lock reported a lock that it does not have");
            else {
                CHECK(!thrown, "try_lock threw");
                CHECK_EQ(r, !held, "result of try_lock");
            }
            held = held || r;
            break;
        }
        case 2: {
            if(!held)
                break;
            faults.unlock_error = fault ? err : 0;
            t.note("unlock, error %d", faults.unlock_error);
            bool thrown;
            {
                Armed a;
                thrown = rejects([&] { m.unlock(); });
            }
            CHECK_EQ(thrown, faults.fired > 0, "unlock threw");
            held = thrown;
            break;
        }
        default: {
            if(held && !fault)
                break;
            faults.lock_error = fault ? err : 0;
            t.note("guard, error %d", faults.lock_error);
            bool thrown, inside = false;
            {
                Armed a;
                thrown = rejects([&] {
                    NS::LockGuard<NS::Mutex> g(m);
                    inside = true;
                });
            }
            if(faults.fired) {
                CHECK(thrown && !inside, "a guard was made without the lock");
                CHECK_EQ(faults.unlocks, 0, "unlocks of a guard that never got the lock");
            } else
                CHECK(!thrown && inside, "the guard failed");
        }
        }
        if(faults.fired)
            t.nontrivial();
    }
    if(held)
        m.unlock();
}

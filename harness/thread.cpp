// C32: mutexes, guards and threads under generated schedules. The worker threads do one operation
// at a time when told to, so the schedule is part of the case and is replayed exactly.
#include "pbt.hpp"
#include "ns.hpp"
#if YEAR == 2025
#include <pystd2025_threading.hpp>
#else
#include <pystd2026_threading.hpp>
#endif
#include <atomic>
#include <cerrno>
#include <ctime>
#include <optional>
#include <pthread.h>
#include <sched.h>

using namespace pbt;

constexpr int PATIENCE = 20; // seconds until an operation counts as stuck

struct Monitor { // the harness's own synchronisation, straight on pthreads
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    pthread_cond_t c = PTHREAD_COND_INITIALIZER;
    template<typename F> void locked(F &&f) {
        pthread_mutex_lock(&m);
        f();
        pthread_cond_broadcast(&c);
        pthread_mutex_unlock(&m);
    }
    template<typename F> bool wait(F &&f, double seconds) {
        timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        long ns = ts.tv_nsec + (long)((seconds - (double)(long)seconds) * 1e9);
        ts.tv_sec += (long)seconds + ns / 1000000000;
        ts.tv_nsec = ns % 1000000000;
        pthread_mutex_lock(&m);
        bool ok = f();
        while(!ok) {
            int rc = pthread_cond_timedwait(&c, &m, &ts);
            ok = f();
            if(rc == ETIMEDOUT)
                break;
        }
        pthread_mutex_unlock(&m);
        return ok;
    }
};

// A lockable that only counts.
struct Counting {
    int locked = 0, unlocked = 0, depth = 0;
    void lock() { ++locked, ++depth; }
    void unlock() { ++unlocked, --depth; }
};

enum Op { NOTHING, LOCK, TRY, UNLOCK, GUARD_IN, GUARD_OUT, GUARD_THROW, GUARD_RETURN, QUIT };
static const char *op_name[] = {"", "lock", "try_lock", "unlock", "guard", "leave guard", "guard left by exception", "guard left by return", ""};
constexpr int MUTEXES = 3;

struct Shared;
struct Worker {
    Shared *sh = nullptr;
    int id = 0;
    Op op = NOTHING; // guarded by the monitor
    int arg = 0;
    bool done = true, tried = false;
    bool threw = false;
    int runs = 0;
};
struct Shared {
    Monitor mon;
    NS::Mutex m[MUTEXES];
    long data[MUTEXES] = {}; // plain data, only touched by the holder
    Worker w[4];
};

static void in_guard(NS::Mutex &m, long &d, bool thrown) {
    NS::LockGuard<NS::Mutex> g(m);
    ++d;
    if(thrown)
        throw 17;
    ++d;
}

static void *worker_main(void *p) {
    Worker &w = *(Worker *)p;
    Shared &s = *w.sh;
    ++w.runs;
    std::optional<NS::LockGuard<NS::Mutex>> guard[MUTEXES];
    while(true) {
        Op op;
        int a;
        s.mon.wait([&] { return w.op != NOTHING; }, 600);
        s.mon.locked([&] { op = w.op, a = w.arg, w.op = NOTHING; });
        bool tried = false, threw = false;
        try {
            switch(op) {
            case LOCK: s.m[a].lock(); break;
            case TRY: tried = s.m[a].try_lock(); break;
            case UNLOCK: s.m[a].unlock(); break;
            case GUARD_IN: guard[a].emplace(s.m[a]); break;
            case GUARD_OUT: guard[a].reset(); break;
            case GUARD_THROW:
                try {
                    in_guard(s.m[a], s.data[a], true);
                } catch(int) {
                }
                break;
            case GUARD_RETURN: in_guard(s.m[a], s.data[a], false); break;
            default: break;
            }
        } catch(...) {
            threw = true;
        }
        s.mon.locked([&] { w.done = true, w.tried = tried, w.threw = threw; });
        if(op == QUIT)
            return nullptr;
    }
}

PROP("C32", "mutex", .rule = "a thread had to wait for a mutex, or a try-lock failed", .quick = 30000, .cpu_limit = 60) {
    auto sh = std::make_unique<Shared>();
    const int n = 2 + (int)t.idx(3), nm = 1 + (int)t.idx(MUTEXES);
    std::vector<std::unique_ptr<NS::Thread>> threads;
    for(int i = 0; i < n; ++i) {
        sh->w[i].sh = sh.get();
        sh->w[i].id = i;
        threads.push_back(std::make_unique<NS::Thread>(worker_main, &sh->w[i]));
    }
    // Model: who holds each mutex, and who waits for which.
    int holder[MUTEXES] = {-1, -1, -1};
    bool by_guard[MUTEXES] = {};
    long want_data[MUTEXES] = {};
    struct Pending {
        Op op = NOTHING;
        int m = -1;
        bool may_return = false; // a short guard that may have had its turn before the present holder
    } pend[4];
    auto issue = [&](int i, Op op, int m) {
        t.note("thread %d: %s %d", i, op_name[op], m);
        sh->mon.locked([&] { sh->w[i].done = false, sh->w[i].op = op, sh->w[i].arg = m; });
    };
    auto is_done = [&](int i) {
        bool d = false;
        sh->mon.locked([&] { d = sh->w[i].done; });
        return d;
    };
    auto finish = [&](int i, Op op, int m) {
        CHECK(sh->mon.wait([&] { return sh->w[i].done; }, PATIENCE), "thread %d: %s of mutex %d does not return", i, op_name[op], m);
        CHECK(!sh->w[i].threw, "thread %d: %s of mutex %d failed", i, op_name[op], m);
    };
    auto acquired = [&](int i, Op op, int m) { // the operation got the mutex
        if(op == GUARD_THROW)
            want_data[m] += 1;
        else if(op == GUARD_RETURN)
            want_data[m] += 2;
        else {
            holder[m] = i;
            by_guard[m] = op == GUARD_IN;
        }
    };
    auto waiters = [&](int m) {
        std::vector<int> v;
        for(int i = 0; i < n; ++i)
            if(pend[i].op != NOTHING && pend[i].m == m)
                v.push_back(i);
        return v;
    };
    // A free mutex with waiters: they get it one after another, until one keeps it.
    auto settle = [&](int m) {
        while(holder[m] < 0) {
            auto ws = waiters(m);
            if(ws.empty())
                return;
            CHECK(sh->mon.wait([&] {
                for(int i : ws)
                    if(sh->w[i].done)
                        return true;
                return false;
            }, PATIENCE), "mutex %d is free but no waiting thread gets it", m);
            int keeper = -1;
            for(int i : ws)
                if(is_done(i)) {
                    Op op = pend[i].op;
                    finish(i, op, m);
                    pend[i].op = NOTHING;
                    if(op == LOCK || op == GUARD_IN) {
                        CHECK(keeper < 0, "threads %d and %d hold mutex %d at the same time", keeper, i, m);
                        keeper = i;
                    }
                    acquired(i, op, m);
                    t.note("thread %d: got %d", i, m);
                }
        }
    };
    auto check_excluded = [&] {
        for(int i = 0; i < n; ++i)
            if(pend[i].op != NOTHING && !pend[i].may_return)
                CHECK(!is_done(i), "thread %d: %s of mutex %d returned while thread %d holds it", i, op_name[pend[i].op], pend[i].m, holder[pend[i].m]);
    };
    auto release = [&](int m) {
        int i = holder[m];
        issue(i, by_guard[m] ? GUARD_OUT : UNLOCK, m);
        finish(i, by_guard[m] ? GUARD_OUT : UNLOCK, m);
        holder[m] = -1;
        for(int k : waiters(m))
            pend[k].may_return = pend[k].op == GUARD_THROW || pend[k].op == GUARD_RETURN;
        settle(m);
    };
    auto harvest = [&] { // short guards that are through
        for(int i = 0; i < n; ++i)
            if(pend[i].op != NOTHING && pend[i].may_return && is_done(i)) {
                finish(i, pend[i].op, pend[i].m);
                acquired(i, pend[i].op, pend[i].m);
                pend[i].op = NOTHING;
            }
    };
    auto idle = [&](int i) { return pend[i].op == NOTHING; };
    int waited = 0, failed_try = 0;
    while(t.more(20)) {
        harvest();
        int i = (int)t.idx((size_t)n), m = (int)t.idx((size_t)nm);
        if(!idle(i))
            continue;
        if(holder[m] == i && t.idx(4) != 0) {
            release(m);
            continue;
        }
        Op op = t.pick({LOCK, TRY, GUARD_IN, GUARD_THROW, GUARD_RETURN});
        if(op == TRY) {
            issue(i, TRY, m);
            finish(i, TRY, m);
            bool got = sh->w[i].tried;
            CHECK_EQ(got, holder[m] < 0, "try_lock");
            if(got) {
                holder[m] = i;
                by_guard[m] = false;
            } else
                ++failed_try;
            continue;
        }
        if(holder[m] == i)
            continue; // would wait for itself
        if(holder[m] < 0) {
            issue(i, op, m);
            finish(i, op, m);
            acquired(i, op, m);
            continue;
        }
        // Would wait. No cycles: only when no thread this one waits for can wait for it.
        int h = holder[m], hops = 0;
        while(h >= 0 && !idle(h) && hops++ < 5)
            h = holder[pend[h].m];
        if(h == i || hops > 4)
            continue;
        issue(i, op, m);
        pend[i].op = op;
        pend[i].m = m;
        pend[i].may_return = false;
        ++waited;
        if(t.idx(2)) { // give it a chance to (wrongly) get in
            usleep((useconds_t)t.pick({1, 50, 300}));
            check_excluded();
        }
    }
    check_excluded();
    // Let everybody finish.
    for(int round = 0; round < 200; ++round) {
        bool any = false;
        for(int m = 0; m < MUTEXES; ++m)
            if(holder[m] >= 0 && idle(holder[m])) {
                release(m);
                any = true;
            }
        if(!any)
            break;
    }
    for(int i = 0; i < n; ++i) {
        if(!idle(i))
            finish(i, pend[i].op, pend[i].m), acquired(i, pend[i].op, pend[i].m);
        issue(i, QUIT, 0);
        finish(i, QUIT, 0);
    }
    if(t.idx(2))
        for(auto &th : threads)
            th->join();
    threads.clear();
    for(int i = 0; i < n; ++i)
        CHECK_EQ(sh->w[i].runs, 1, "number of runs of the thread function");
    for(int m = 0; m < MUTEXES; ++m) {
        CHECK_EQ(sh->data[m], want_data[m], "increments under the mutex");
        CHECK(sh->m[m].try_lock(), "mutex %d is not free at the end", m);
        CHECK(!sh->m[m].try_lock(), "mutex %d could be locked twice", m);
        sh->m[m].unlock();
    }
    if(waited || failed_try)
        t.nontrivial();
    if(waited)
        t.label("a thread waited");
    if(failed_try)
        t.label("try_lock failed");
}

PROP("C32", "guard", .rule = "two or more guards", .quick = 20000) {
    Counting c, d;
    int want_c = 0, want_d = 0, live_c = 0;
    std::vector<std::unique_ptr<NS::LockGuard<Counting>>> open;
    while(t.more(6)) {
        switch(t.idx(4)) {
        case 0:
            open.push_back(std::make_unique<NS::LockGuard<Counting>>(c));
            ++want_c, ++live_c;
            break;
        case 1:
            if(!open.empty()) {
                open.erase(open.begin() + (long)t.idx(open.size()));
                --live_c;
            }
            break;
        case 2: {
            NS::LockGuard<Counting> g(d);
            ++want_d;
            CHECK_EQ(d.depth, 1, "locked inside the guard");
            break;
        }
        default:
            if(t.chance(5)) {
                try {
                    NS::LockGuard<Counting> g(d);
                    ++want_d;
                    CHECK_EQ(d.depth, 1, "locked inside the guard");
                    throw 1;
                } catch(int) {
                }
            }
        }
        CHECK_EQ(c.locked, want_c, "locks");
        CHECK_EQ(c.unlocked, want_c - live_c, "unlocks");
        CHECK_EQ(d.locked, want_d, "locks");
        CHECK_EQ(d.unlocked, want_d, "unlocks");
    }
    if(want_c + want_d >= 2)
        t.nontrivial();
}

// Threads: started, joined, destroyed or detached in any order.
struct Job {
    Monitor *mon = nullptr;
    bool gate = false, stuck = false, finished = false;
    int delay = 0;
    int runs = 0;  // plain: visible only through joining
    Job *self = nullptr;
};
static void *job_main(void *p) {
    Job &j = *(Job *)p;
    if(j.self != &j)
        abort();
    bool open = j.mon->wait([&] { return j.gate; }, PATIENCE);
    if(j.delay)
        usleep((useconds_t)j.delay);
    ++j.runs;
    j.mon->locked([&] { j.stuck = !open, j.finished = true; });
    return p;
}
PROP("C32", "threads", .rule = "two or more threads", .quick = 15000, .cpu_limit = 60) {
    Monitor mon;
    struct One {
        Job job;
        std::unique_ptr<NS::Thread> th;
        int state = 0; // 0 running, 1 joined, 2 detached
    };
    std::vector<std::unique_ptr<One>> v;
    size_t started = 0;
    auto open_gate = [&](One &o) { mon.locked([&] { o.job.gate = true; }); };
    auto over = [&](One &o, const char *how) {
        CHECK(!o.job.stuck, "%s waited for a thread it must not wait for", how);
        CHECK_EQ(o.job.runs, 1, how);
    };
    while(t.more(8)) {
        switch(v.empty() ? 0 : t.idx(5)) {
        case 0:
            if(v.size() < 6) {
                auto o = std::make_unique<One>();
                o->job.mon = &mon;
                o->job.self = &o->job;
                o->job.delay = t.pick({0, 0, 20, 500});
                o->job.gate = t.idx(2);
                o->th = std::make_unique<NS::Thread>(job_main, &o->job);
                t.note("start a thread%s", o->job.gate ? "" : " that waits for a signal");
                v.push_back(std::move(o));
                ++started;
            }
            break;
        case 1: {
            One &o = *v[t.idx(v.size())];
            if(o.state == 0) {
                t.note("join");
                open_gate(o);
                o.th->join();
                o.state = 1;
                over(o, "runs of the thread function after join");
            }
            break;
        }
        case 2: {
            size_t i = t.idx(v.size());
            One &o = *v[i];
            t.note("destroy");
            if(o.state != 2)
                open_gate(o);
            o.th.reset(); // joins unless joined or detached
            if(o.state == 2) {
                open_gate(o); // the thread may have been waiting for this
                CHECK(mon.wait([&] { return o.job.finished; }, PATIENCE), "a detached thread did not finish");
                CHECK(!o.job.stuck, "destroying a detached thread waited for it");
                int runs = 0;
                mon.locked([&] { runs = o.job.runs; });
                CHECK_EQ(runs, 1, "runs of the detached thread function");
            } else
                over(o, "runs of the thread function after destruction");
            v.erase(v.begin() + (long)i);
            break;
        }
        case 3: {
            One &o = *v[t.idx(v.size())];
            if(o.state == 0) {
                t.note("detach");
                o.th->detach();
                o.state = 2;
            }
            break;
        }
        default: {
            One &o = *v[t.idx(v.size())];
            open_gate(o);
        }
        }
    }
    while(!v.empty()) {
        One &o = *v.back();
        if(o.state != 2)
            open_gate(o);
        o.th.reset();
        if(o.state == 2) {
            open_gate(o);
            CHECK(mon.wait([&] { return o.job.finished; }, PATIENCE), "a detached thread did not finish");
            CHECK(!o.job.stuck, "destroying a detached thread waited for it");
        } else
            over(o, "runs of the thread function after destruction");
        v.pop_back();
    }
    if(started >= 2)
        t.nontrivial();
}

// Free-running threads: counters that only the mutex protects.
struct Race {
    NS::Mutex m;
    std::atomic<int> inside{0}, bad{0}, ready{0};
    int threads = 0;
    long counter = 0;
    struct Part {
        Race *r;
        std::vector<uint8_t> script;
        long did = 0;
    };
};
static void *race_main(void *p) {
    auto &me = *(Race::Part *)p;
    Race &r = *me.r;
    r.ready++;
    while(r.ready.load() < r.threads)
        sched_yield();
    auto body = [&](int spin) {
        if(r.inside.fetch_add(1) != 0)
            ++r.bad;
        long x = r.counter;
        for(int i = 0; i < spin; ++i)
            sched_yield();
        r.counter = x + 1;
        ++me.did;
        r.inside.fetch_sub(1);
    };
    for(auto c : me.script) {
        int spin = (c >> 2) & 3;
        switch(c & 3) {
        case 0:
            r.m.lock();
            body(spin);
            r.m.unlock();
            break;
        case 1:
            if(r.m.try_lock()) {
                body(spin);
                r.m.unlock();
            }
            break;
        default: {
            NS::LockGuard<NS::Mutex> g(r.m);
            body(spin);
        }
        }
    }
    return nullptr;
}
PROP("C32", "race", .rule = "every case", .quick = 5000, .cpu_limit = 60, .workers = 4) {
    auto r = std::make_unique<Race>();
    std::vector<Race::Part> parts(2 + t.idx(3));
    r->threads = (int)parts.size();
    for(auto &p : parts) {
        p.r = r.get();
        for(size_t k = 20 + t.idx(100); k; --k)
            p.script.push_back((uint8_t)t.idx(256));
    }
    {
        std::vector<std::unique_ptr<NS::Thread>> th;
        for(auto &p : parts)
            th.push_back(std::make_unique<NS::Thread>(race_main, &p));
    }
    long did = 0;
    for(auto &p : parts)
        did += p.did;
    CHECK_EQ(r->bad.load(), 0, "times that two threads were inside");
    CHECK_EQ(r->counter, did, "counter protected by the mutex");
    t.nontrivial();
}

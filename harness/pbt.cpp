#include "pbt.hpp"
#include <atomic>
#include <cmath>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <exception>
#include <sys/prctl.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t),
                                                         void (*f)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *p);

extern "C" __attribute__((used)) const char *__asan_default_options() {
    return "detect_leaks=0:handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=1500:"
           "exitcode=99:symbolize=0:quarantine_size_mb=16:thread_local_quarantine_size_kb=64:"
           "detect_stack_use_after_return=1:check_initialization_order=0";
}
extern "C" __attribute__((used)) const char *__ubsan_default_options() {
    return "print_stacktrace=1";
}

std::string describe_exception(std::exception_ptr e) __attribute__((weak));

namespace pbt {

constexpr size_t MAX_CHOICES = 1 << 16;
constexpr size_t MAX_LABELS = 96;

enum Outcome : int { PASS = 0, FAIL, CRASH, HANG, LEAK, EXCEPTION, INFRA };
const char *outcome_name[] = {"pass", "check failed", "crash", "non-termination", "leak", "unexpected exception", "environment failure"};

struct Slot { // one per worker, in shared memory
    std::atomic<uint64_t> case_no;
    std::atomic<int> finished;
    std::atomic<uint64_t> count; // choices drawn in the current case
    uint64_t choices[MAX_CHOICES];
    int outcome;
    char msg[2048];
    uint64_t evaluations, nontrivial, edges, corpus, overruns, total_choices;
    size_t nlabels;
    char label_name[MAX_LABELS][64];
    uint64_t label_count[MAX_LABELS];
    size_t nhash, maxhash;
    uint64_t *hashes;
    size_t nsamples;
    size_t sample_len[4];
    uint64_t sample[4][4096];
};

struct Prop {
    std::string id, name;
    PropFn fn;
    PropOpts o;
};
std::vector<Prop> &props() {
    static std::vector<Prop> p;
    return p;
}
Registrar::Registrar(const char *id, const char *name, PropFn fn, PropOpts o) {
    props().push_back({id, name, fn, o});
}

// --- current case state ---------------------------------------------------
static Slot *slot;
static uint64_t rng_state;
static const uint64_t *prefix;
static size_t prefix_len;
static bool random_tail;
static const char *case_labels[MAX_LABELS];
static size_t n_case_labels;

static uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t rnd() { return splitmix(rng_state); }
static uint64_t rnd_below(uint64_t n) {
    return n ? (uint64_t)(((unsigned __int128)rnd() * n) >> 64) : rnd();
}

// Constants the instrumented code compares against (filled by the trace-cmp callbacks).
constexpr size_t DICT = 1024;
static uint64_t dict[DICT];
static size_t dict_n;
static uint64_t dict_seen[4096];
static bool collect_cmp;

static inline void add_const(uint64_t c) {
    if(!collect_cmp)
        return;
    uint64_t h = (c * 0x9e3779b97f4a7c15ull) >> 52;
    if(dict_seen[h] == c + 1)
        return;
    dict_seen[h] = c + 1;
    for(size_t i = 0; i < dict_n; ++i)
        if(dict[i] == c)
            return;
    if(dict_n < DICT)
        dict[dict_n++] = c;
}

uint64_t T::draw(uint64_t n, bool biased, uint64_t base) {
    uint64_t i = slot->count.load(std::memory_order_relaxed);
    if(i >= MAX_CHOICES)
        return 0;
    uint64_t v;
    if(i < prefix_len) {
        v = prefix[i];
        if(n && v >= n)
            v %= n;
    } else if(!random_tail) {
        v = 0;
    } else if(!biased) {
        v = rnd_below(n);
    } else {
        uint64_t k = rnd() % 100;
        if(k < 22)
            v = rnd_below(n && n < 5 ? n : 5);
        else if(k < 32)
            v = n - 1 - rnd_below(n && n < 3 ? n : 3);
        else if(k < 42 && dict_n) {
            v = dict[rnd_below(dict_n)] - base + (rnd() % 3) - 1;
            if(n && v >= n)
                v = rnd_below(n);
        } else if(k < 60 && (n == 0 || n > 64)) {
            // log-uniform
            unsigned bits = n ? 64 - __builtin_clzll(n) : 64;
            unsigned b = 1 + rnd() % bits;
            v = b >= 64 ? rnd() : rnd() & ((1ull << b) - 1);
            if(n && v >= n)
                v = rnd_below(n);
        } else
            v = rnd_below(n);
    }
    slot->choices[i] = v;
    slot->count.store(i + 1, std::memory_order_relaxed);
    return v;
}

uint64_t T::u64() { return draw(0, true); }

size_t T::size(size_t max) {
    size_t k = idx(8);
    size_t lim = max;
    if(k < 3)
        lim = std::min<size_t>(max, 8);
    else if(k < 6)
        lim = std::min<size_t>(max, 40);
    return (size_t)num(0, (int64_t)lim);
}

size_t T::weighted(std::initializer_list<unsigned> w) {
    uint64_t sum = 0;
    for(auto x : w)
        sum += x;
    uint64_t v = draw(sum, false);
    size_t i = 0;
    for(auto x : w) {
        if(v < x)
            return i;
        v -= x;
        ++i;
    }
    return 0;
}

static void disarm_timer() {
    struct itimerval tv = {};
    setitimer(ITIMER_PROF, &tv, nullptr);
}

[[noreturn]] static void finish_failed(int outcome, const char *msg) {
    slot->outcome = outcome;
    snprintf(slot->msg, sizeof(slot->msg), "%s", msg);
    fflush(nullptr);
    _exit(70);
}

void infra(const char *msg) { finish_failed(INFRA, msg); }
void T::fail(const char *fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if(trace)
        printf("FAILED: %s\n", buf);
    finish_failed(FAIL, buf);
}
void T::note(const char *fmt, ...) {
    if(!trace)
        return;
    va_list ap;
    va_start(ap, fmt);
    vprintf(fmt, ap);
    va_end(ap);
    putchar('\n');
    fflush(stdout);
}
void T::label(const char *name) {
    for(size_t i = 0; i < n_case_labels; ++i)
        if(case_labels[i] == name)
            return;
    if(n_case_labels < MAX_LABELS)
        case_labels[n_case_labels++] = name;
}

std::string show(const void *p, size_t n) {
    std::string r = "\"";
    char b[8];
    for(size_t i = 0; i < n; ++i) {
        unsigned char c = ((const unsigned char *)p)[i];
        if(c >= 32 && c < 127 && c != '"' && c != '\\')
            r += (char)c;
        else {
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    return r + "\"";
}
std::string show(const std::string &s) { return show(s.data(), s.size()); }

// --- allocation accounting -------------------------------------------------
static std::atomic<int64_t> live_allocs, live_bytes;
static std::atomic<bool> counting;
constexpr int64_t MAX_BYTES = 1200ll << 20;
// Fresh memory gets varying contents, so that reading it uninitialised shows.  (calloc clears after this hook.)
static std::atomic<unsigned> fill_no;
static void on_malloc(const volatile void *p, size_t n) {
    if(!counting.load(std::memory_order_relaxed))
        return;
    static const unsigned char fill[] = {0xbe, 0x01, 0xff, 0x00, 0xa5, 0x61, 0x02};
    memset((void *)p, fill[fill_no.fetch_add(1, std::memory_order_relaxed) % sizeof fill], n < 16384 ? n : 16384);
    live_allocs.fetch_add(1, std::memory_order_relaxed);
    pbt::allocs_made.fetch_add(1, std::memory_order_relaxed);
    pbt::bytes_made.fetch_add(n, std::memory_order_relaxed);
    if(live_bytes.fetch_add((int64_t)n, std::memory_order_relaxed) > MAX_BYTES) {
        counting = false;
        finish_failed(FAIL, "runaway memory use (more than 1.2 GB live in one case)");
    }
}
static void on_free(const volatile void *p) {
    if(!counting.load(std::memory_order_relaxed) || !p)
        return;
    live_allocs.fetch_sub(1, std::memory_order_relaxed);
    live_bytes.fetch_sub((int64_t)__sanitizer_get_allocated_size(p), std::memory_order_relaxed);
}

static void on_prof(int) { // CPU limit of one case exceeded
    slot->outcome = HANG;
    snprintf(slot->msg, sizeof slot->msg, "no termination within the CPU limit for one case");
    _exit(71);
}

// --- coverage ---------------------------------------------------------------
static uint8_t *cov_start[64], *cov_stop[64];
static size_t n_cov;
static std::vector<uint8_t> seen_buckets;

static void cov_clear() {
    for(size_t i = 0; i < n_cov; ++i)
        memset(cov_start[i], 0, (size_t)(cov_stop[i] - cov_start[i]));
}
static uint8_t bucket(uint8_t c) {
    if(c <= 3)
        return (uint8_t)(1 << (c - 1));
    if(c < 8)
        return 8;
    if(c < 16)
        return 16;
    if(c < 32)
        return 32;
    if(c < 128)
        return 64;
    return 128;
}
// Returns true if this case reached something new.
static bool cov_update() {
    bool fresh = false;
    size_t base = 0;
    for(size_t i = 0; i < n_cov; ++i) {
        const size_t n = (size_t)(cov_stop[i] - cov_start[i]);
        const uint8_t *p = cov_start[i];
        size_t k = 0;
        while(k < n) {
            if(k + 8 <= n) {
                uint64_t w;
                memcpy(&w, p + k, 8);
                if(!w) {
                    k += 8;
                    continue;
                }
            }
            size_t e = std::min(n, k + 8);
            for(; k < e; ++k)
                if(p[k]) {
                    uint8_t b = bucket(p[k]);
                    if(!(seen_buckets[base + k] & b)) {
                        if(!seen_buckets[base + k])
                            ++slot->edges;
                        seen_buckets[base + k] |= b;
                        fresh = true;
                    }
                }
        }
        base += n;
    }
    return fresh;
}

// --- running one case --------------------------------------------------------
static void run_body(const Prop &p, T &t) {
    try {
        p.fn(t);
    } catch(...) {
        counting = false;
        std::string d = "exception escaped from the property";
        if(describe_exception)
            d += ": " + describe_exception(std::current_exception());
        if(t.trace)
            printf("FAILED: %s\n", d.c_str());
        finish_failed(EXCEPTION, d.c_str());
    }
}

// Runs a case in this process; does not return on failure.
static bool run_case(const Prop &p, const uint64_t *pre, size_t n, bool tail, uint64_t seed, bool trace,
                     double cpu_limit) {
    struct itimerval tv = {};
    tv.it_value.tv_sec = (time_t)cpu_limit;
    tv.it_value.tv_usec = (suseconds_t)((cpu_limit - std::floor(cpu_limit)) * 1e6);
    setitimer(ITIMER_PROF, &tv, nullptr);
    bool interesting = false;
    int64_t before_retry = 0;
    static uint64_t copy[MAX_CHOICES];
    size_t copy_n = 0;
    for(int attempt = 0; attempt < 3; ++attempt) {
        T t;
        t.trace = trace && attempt == 0;
        t.leak_check = p.o.leak_check;
        n_case_labels = 0;
        slot->count = 0;
        if(attempt == 0) {
            prefix = pre;
            prefix_len = n;
            random_tail = tail;
            rng_state = seed;
        } else {
            prefix = copy;
            prefix_len = copy_n;
            random_tail = false;
        }
        live_allocs = 0;
        fill_no = 0;
        live_bytes = 0;
        counting = true;
        collect_cmp = attempt == 0;
        run_body(p, t);
        collect_cmp = false;
        counting = false;
        interesting = t.interesting;
        int64_t leaked = live_allocs.load();
        if(leaked <= 0 || !t.leak_check)
            break;
        before_retry = leaked;
        if(attempt == 2) {
            char buf[200];
            snprintf(buf, sizeof buf, "memory leak: %lld allocation(s) never freed (in each of 3 runs of the case)",
                     (long long)before_retry);
            if(trace)
                printf("FAILED: %s\n", buf);
            finish_failed(LEAK, buf);
        }
        if(attempt == 0) {
            copy_n = slot->count;
            memcpy(copy, slot->choices, copy_n * 8);
        }
    }
    return interesting;
}

static uint64_t hash_choices() {
    uint64_t h = 0xcbf29ce484222325ull;
    for(size_t i = 0, n = slot->count; i < n; ++i) {
        h ^= slot->choices[i];
        h *= 0x100000001b3ull;
        h ^= h >> 29;
    }
    return h;
}

static double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

static void record_labels() {
    for(size_t i = 0; i < n_case_labels; ++i) {
        size_t k = 0;
        for(; k < slot->nlabels; ++k)
            if(!strcmp(slot->label_name[k], case_labels[i]))
                break;
        if(k == slot->nlabels) {
            if(k == MAX_LABELS)
                continue;
            snprintf(slot->label_name[k], 64, "%s", case_labels[i]);
            ++slot->nlabels;
        }
        ++slot->label_count[k];
    }
}

static void worker(const Prop &p, unsigned w, unsigned workers, uint64_t cases, uint64_t first, uint64_t seed,
                   double deadline) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::vector<std::vector<uint64_t>> corpus;
    size_t total = 0;
    for(size_t i = 0; i < n_cov; ++i)
        total += (size_t)(cov_stop[i] - cov_start[i]);
    seen_buckets.assign(total, 0);
    static uint64_t pre[MAX_CHOICES];
    for(uint64_t i = first; i < cases; ++i) {
        if((i & 15) == 0 && now() > deadline) {
            ++slot->overruns;
            break;
        }
        slot->case_no = i;
        uint64_t cs = seed * 0x2545f4914f6cdd1dull + i * workers + w;
        for(const char c : p.name)
            cs = cs * 31 + (unsigned char)c;
        uint64_t mut = cs ^ 0xabcdef;
        size_t n = 0;
        if(p.o.guided && !corpus.empty() && splitmix(mut) % 100 < 50) {
            auto R = [&](uint64_t m) { return m ? splitmix(mut) % m : 0; };
            // prefer recent entries
            size_t ci = R(2) ? R(corpus.size()) : corpus.size() - 1 - R(std::min<size_t>(corpus.size(), 16));
            const auto &src = corpus[ci];
            n = src.size();
            memcpy(pre, src.data(), n * 8);
            unsigned k = 1 + (unsigned)R(4);
            for(unsigned m = 0; m < k && n; ++m) {
                switch(R(7)) {
                case 0: // truncate, continue randomly
                    n = R(n + 1);
                    break;
                case 1:
                    pre[R(n)] = splitmix(mut) % 100;
                    break;
                case 2: {
                    auto &x = pre[R(n)];
                    x += R(9) - 4;
                    break;
                }
                case 3: { // delete a span
                    size_t a = R(n), len = 1 + R(std::min<size_t>(n - a, 12));
                    memmove(pre + a, pre + a + len, (n - a - len) * 8);
                    n -= len;
                    break;
                }
                case 4: { // duplicate a span
                    size_t a = R(n), len = 1 + R(std::min<size_t>(n - a, 24));
                    if(n + len < MAX_CHOICES) {
                        memmove(pre + a + len, pre + a, (n - a) * 8);
                        n += len;
                    }
                    break;
                }
                case 5: { // splice from another entry
                    const auto &o = corpus[R(corpus.size())];
                    if(o.empty())
                        break;
                    size_t a = R(n), b = R(o.size()), len = std::min(n - a, o.size() - b);
                    len = len ? 1 + R(len) : 0;
                    memcpy(pre + a, o.data() + b, len * 8);
                    break;
                }
                default:
                    if(dict_n)
                        pre[R(n)] = dict[R(dict_n)] + R(3) - 1;
                    break;
                }
            }
        }
        cov_clear();
        bool in = run_case(p, pre, n, true, cs, false, p.o.cpu_limit);
        ++slot->evaluations;
        slot->total_choices += slot->count;
        record_labels();
        if(in) {
            ++slot->nontrivial;
            if(slot->nhash < slot->maxhash)
                slot->hashes[slot->nhash++] = hash_choices();
            if(slot->nsamples < 4 && slot->count < 4096 && (i % 7 == 3)) {
                slot->sample_len[slot->nsamples] = slot->count;
                memcpy(slot->sample[slot->nsamples], slot->choices, slot->count * 8);
                ++slot->nsamples;
            }
        }
        if(cov_update() && slot->count > 0) {
            corpus.emplace_back(slot->choices, slot->choices + slot->count);
            if(corpus.size() > 3000)
                corpus.erase(corpus.begin(), corpus.begin() + 500);
            slot->corpus = corpus.size();
        }
    }
    disarm_timer();
    slot->finished = 1;
    _exit(0);
}

// --- parent --------------------------------------------------------------------
static Slot *new_slot(size_t maxhash) {
    Slot *s = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(maxhash)
        s->hashes =
            (uint64_t *)mmap(nullptr, maxhash * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    s->maxhash = maxhash;
    return s;
}

static void quiet_io(const char *path) {
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(fd >= 0) {
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
    }
}

struct Result {
    int outcome = PASS;
    std::string msg;
    std::vector<uint64_t> used;
    bool operator!() const { return outcome == PASS; }
};

static Slot *try_slot;
// Runs the given choices in a child process.
static Result attempt(const Prop &p, const std::vector<uint64_t> &c, double cpu_limit, bool trace, const char *outfile) {
    if(!try_slot)
        try_slot = new_slot(0);
    try_slot->finished = 0;
    try_slot->outcome = PASS;
    try_slot->msg[0] = 0;
    try_slot->count = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if(pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        slot = try_slot;
        quiet_io(outfile);
        run_case(p, c.data(), c.size(), false, 0, trace, cpu_limit);
        disarm_timer();
        slot->finished = 1;
        fflush(nullptr);
        _exit(0);
    }
    setpgid(pid, pid);
    int st = 0;
    double t0 = now();
    bool killed = false;
    for(useconds_t w = 200;; w = std::min<useconds_t>(w * 2, 20000)) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if(r == pid)
            break;
        if(now() - t0 > p.o.wall_limit) {
            kill(-pid, SIGKILL);
            waitpid(pid, &st, 0);
            killed = true;
            break;
        }
        usleep(w);
    }
    kill(-pid, SIGKILL);
    Result r;
    r.used.assign(try_slot->choices, try_slot->choices + try_slot->count);
    if(try_slot->finished)
        return r;
    r.outcome = try_slot->outcome;
    r.msg = try_slot->msg;
    if(killed) {
        r.outcome = HANG;
        r.msg = "no progress within the wall-clock limit";
    } else if(r.outcome == PASS) {
        r.outcome = CRASH;
        char b[100];
        if(WIFSIGNALED(st))
            snprintf(b, sizeof b, "process killed by signal %d", WTERMSIG(st));
        else
            snprintf(b, sizeof b, "process ended with status %d (sanitizer report, abort or failed assertion)",
                     WEXITSTATUS(st));
        r.msg = b;
    }
    return r;
}

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> best, int outcome, const char *tmp) {
    const double limit = outcome == HANG ? std::min(p.o.cpu_limit, 3.0) : p.o.cpu_limit;
    const double t0 = now();
    int tries = 0;
    auto ok = [&](const std::vector<uint64_t> &c, std::vector<uint64_t> &used) {
        ++tries;
        Result r = attempt(p, c, limit, false, tmp);
        used = r.used;
        return r.outcome == outcome;
    };
    auto budget = [&] { return tries < 1500 && now() - t0 < 40; };
    auto better = [&](std::vector<uint64_t> c) {
        while(!c.empty() && c.back() == 0)
            c.pop_back();
        if(c.size() > best.size() || (c.size() == best.size() && !(c < best)))
            return false;
        std::vector<uint64_t> used;
        if(!ok(c, used))
            return false;
        while(!used.empty() && used.back() == 0)
            used.pop_back();
        if(used.size() < c.size())
            c = used;
        best = c;
        return true;
    };
    bool progress = true;
    while(progress && budget()) {
        progress = false;
        for(size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && budget(); len /= 2) {
            for(size_t i = best.size(); i-- > 0 && budget();) {
                if(i + len > best.size())
                    continue;
                auto c = best;
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
                if(better(c)) {
                    progress = true;
                    if(i > best.size())
                        i = best.size();
                } else if(len > 2)
                    i -= std::min(i, len / 2);
            }
            if(len == 1)
                break;
        }
        for(size_t len = std::max<size_t>(1, best.size() / 2); len >= 2 && budget(); len /= 2)
            for(size_t i = 0; i + len <= best.size() && budget(); i += len) {
                auto c = best;
                bool any = false;
                for(size_t k = i; k < i + len; ++k) {
                    any |= c[k] != 0;
                    c[k] = 0;
                }
                if(any && better(c))
                    progress = true;
            }
        for(size_t i = 0; i < best.size() && budget(); ++i) {
            if(!best[i])
                continue;
            auto c = best;
            c[i] = 0;
            if(better(c)) {
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = best[i]; // lo fails to reproduce
            while(hi - lo > 1 && budget()) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best;
                if(i >= c.size())
                    break;
                c[i] = mid;
                if(better(c)) {
                    progress = true;
                    hi = mid;
                } else
                    lo = mid;
                if(i >= best.size())
                    break;
            }
        }
    }
    return best;
}

static std::string slurp(const std::string &f, size_t max) {
    std::string r;
    FILE *fp = fopen(f.c_str(), "rb");
    if(!fp)
        return r;
    char b[4096];
    size_t n;
    while((n = fread(b, 1, sizeof b, fp)) > 0 && r.size() < max)
        r.append(b, n);
    fclose(fp);
    if(r.size() > max)
        r.resize(max), r += "...";
    return r;
}

static std::string json_str(const std::string &s) {
    std::string r = "\"";
    char b[8];
    for(unsigned char c : s) {
        if(c == '"' || c == '\\')
            r += '\\', r += (char)c;
        else if(c == '\n')
            r += "\\n";
        else if(c < 32 || c > 126)
            snprintf(b, sizeof b, "\\u%04x", c), r += b;
        else
            r += (char)c;
    }
    return r + "\"";
}

static std::string replay_text(const Prop &p, const std::vector<uint64_t> &c, const std::string &why,
                               const std::string &trace) {
    std::string s = "prop " + p.name + "\nchoices";
    for(auto v : c)
        s += " " + std::to_string(v);
    s += "\n# " + why + "\n# trace of the case:\n";
    std::string line;
    unsigned after = 0; // lines of a sanitizer report
    for(char ch : trace + "\n") {
        if(ch == '\n') {
            if(line.find("==ERROR") != std::string::npos || line.find("runtime error") != std::string::npos)
                after = 1;
            else if(after)
                ++after;
            const bool noise = line.empty() || line.find("=====") == 0 || line.find("Shadow") != std::string::npos;
            if(after < 9 && !noise)
                s += "#   " + line.substr(0, 300) + "\n";
            line.clear();
        } else
            line += ch;
    }
    return s;
}

// Returns true if a violation was confirmed.
static bool stop_at_first = false;
static bool run_prop(const Prop &p, bool thorough, uint64_t seed, double wall, double scale, const std::string &outdir,
                     std::string &json) {
    const double t0 = now();
    const unsigned W = p.o.workers;
    uint64_t cases = (uint64_t)((thorough ? std::max<uint64_t>(p.o.thorough, 25ull * p.o.quick) : p.o.quick) * scale);
    uint64_t per = (cases + W - 1) / W;
    double deadline = t0 + wall;
    std::vector<Slot *> slots;
    std::vector<pid_t> pids(W, 0);
    std::vector<uint64_t> last(W, 0);
    std::vector<double> moved(W, t0);
    const std::string tmp = outdir + "/tmp." + p.name;
    auto start = [&](unsigned w, uint64_t first) {
        fflush(nullptr);
        slots[w]->finished = 0;
        slots[w]->outcome = PASS;
        slots[w]->msg[0] = 0;
        pid_t pid = fork();
        if(pid == 0) {
            setpgid(0, 0);
            slot = slots[w];
            quiet_io((tmp + ".w" + std::to_string(w)).c_str());
            worker(p, w, W, per, first, seed, deadline);
        }
        setpgid(pid, pid);
        pids[w] = pid;
        moved[w] = now();
    };
    for(unsigned w = 0; w < W; ++w)
        slots.push_back(new_slot(per + 16));
    for(unsigned w = 0; w < W; ++w)
        start(w, 0);
    bool violated = false;
    std::string violation_msg;
    unsigned unreproduced = 0, running = W;
    auto kill_all = [&] {
        for(unsigned w = 0; w < W; ++w)
            if(pids[w]) {
                kill(-pids[w], SIGKILL);
                int st;
                waitpid(pids[w], &st, 0);
                pids[w] = 0;
            }
    };
    while(running && !violated) {
        bool any = false;
        for(unsigned w = 0; w < W && !violated; ++w) {
            if(!pids[w])
                continue;
            int st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            bool stuck = false;
            if(r == 0) {
                uint64_t cn = slots[w]->case_no;
                if(cn != last[w]) {
                    last[w] = cn;
                    moved[w] = now();
                } else if(now() - moved[w] > p.o.wall_limit) {
                    stuck = true;
                    kill(-pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                }
            }
            if(r == 0 && !stuck)
                continue;
            any = true;
            kill(-pids[w], SIGKILL);
            pids[w] = 0;
            if(slots[w]->finished) {
                --running;
                continue;
            }
            // The current case of this worker failed.
            int outcome = slots[w]->outcome;
            std::string msg = slots[w]->msg;
            if(stuck)
                outcome = HANG, msg = "no progress within the wall-clock limit";
            else if(outcome == PASS)
                outcome = CRASH, msg = "process died";
            std::vector<uint64_t> c(slots[w]->choices, slots[w]->choices + slots[w]->count);
            if(c.size() == MAX_CHOICES)
                c.clear();
            fprintf(stderr, "[%s] worker %u case %llu: %s: %s; %zu choices\n", p.name.c_str(), w,
                    (unsigned long long)slots[w]->case_no.load(), outcome_name[outcome], msg.c_str(), c.size());
            auto confirm = [&](const std::vector<uint64_t> &ch, int &oc) {
                for(unsigned k = 0; k < p.o.replays; ++k) {
                    Result rr = attempt(p, ch, p.o.cpu_limit, false, (tmp + ".try").c_str());
                    if(rr.outcome == PASS || rr.outcome == INFRA)
                        return false;
                    oc = rr.outcome;
                    violation_msg = rr.msg;
                }
                return true;
            };
            int oc = outcome;
            bool good = outcome != INFRA && confirm(c, oc);
            if(good && stop_at_first) {
                kill_all();
                printf("VIOLATION property=%s replay=none (%s: %s)\n", p.id.c_str(), p.name.c_str(), violation_msg.c_str());
                fflush(stdout);
                _exit(1);
            }
            if(good) {
                kill_all();
                auto s = shrink(p, c, oc, (tmp + ".try").c_str());
                int oc2 = oc;
                if(confirm(s, oc2)) {
                    c = s;
                    oc = oc2;
                } else
                    confirm(c, oc);
                violated = true;
                attempt(p, c, p.o.cpu_limit, true, (tmp + ".trace").c_str());
                std::string trace = slurp(tmp + ".trace", 6000);
                std::string why = std::string(outcome_name[oc]) + ": " + violation_msg;
                std::string text = replay_text(p, c, why, trace);
                uint64_t h = 1469598103934665603ull;
                for(char ch : text.substr(0, text.find("\n# ")))
                    h = (h ^ (unsigned char)ch) * 1099511628211ull;
                char hb[20];
                snprintf(hb, sizeof hb, "%08x", (unsigned)(h ^ (h >> 32)));
                std::string nm = p.name;
                for(auto &ch : nm)
                    if(ch == '@' || ch == '/')
                        ch = '-';
                std::string path = outdir + "/" + p.id + "-" + nm + "-" + hb + ".replay";
                FILE *f = fopen(path.c_str(), "w");
                if(f) {
                    fwrite(text.data(), 1, text.size(), f);
                    fclose(f);
                }
                printf("%s: %s\n", p.name.c_str(), why.c_str());
                printf("%s", text.c_str());
                printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str());
                fflush(stdout);
            } else {
                ++unreproduced;
                printf("note: %s: a failing case (%s: %s) did not fail in every replay; not reported\n",
                       p.name.c_str(), outcome_name[outcome], msg.c_str());
                if(unreproduced > 20) {
                    --running;
                    continue;
                }
                start(w, slots[w]->case_no + 1);
            }
        }
        if(!any)
            usleep(5000);
    }
    kill_all();
    // Statistics.
    uint64_t ev = 0, nt = 0, edges = 0, over = 0, chs = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> hs;
    for(auto *s : slots) {
        ev += s->evaluations;
        nt += s->nontrivial;
        edges = std::max(edges, s->edges);
        over += s->overruns;
        chs += s->total_choices;
        for(size_t i = 0; i < s->nlabels; ++i)
            labels[s->label_name[i]] += s->label_count[i];
        hs.insert(hs.end(), s->hashes, s->hashes + s->nhash);
    }
    std::sort(hs.begin(), hs.end());
    uint64_t distinct = (uint64_t)(std::unique(hs.begin(), hs.end()) - hs.begin());
    json += "{\"prop\":" + json_str(p.name) + ",\"id\":" + json_str(p.id) + ",\"rule\":" + json_str(p.o.rule);
    json += ",\"planned\":" + std::to_string(per * W) + ",\"evaluations\":" + std::to_string(ev) +
            ",\"nontrivial\":" + std::to_string(nt) + ",\"distinct_nontrivial\":" + std::to_string(distinct) +
            ",\"choices\":" + std::to_string(chs) + ",\"edges\":" + std::to_string(edges) +
            ",\"stopped_by_time\":" + std::to_string(over) + ",\"unreproduced\":" + std::to_string(unreproduced) +
            ",\"violated\":" + (violated ? "true" : "false");
    json += ",\"labels\":{";
    bool first = true;
    for(auto &l : labels) {
        json += (first ? "" : ",") + json_str(l.first) + ":" + std::to_string(l.second);
        first = false;
    }
    json += "},\"samples\":[";
    first = true;
    if(!violated)
        for(unsigned k = 0, got = 0; k < 4 && got < 2; ++k)
            for(unsigned w = 0; w < W && got < 2; ++w)
                if(slots[w]->nsamples > k) {
                    std::vector<uint64_t> c(slots[w]->sample[k], slots[w]->sample[k] + slots[w]->sample_len[k]);
                    attempt(p, c, p.o.cpu_limit, true, (tmp + ".trace").c_str());
                    std::string tr = slurp(tmp + ".trace", 900);
                    if(tr.empty())
                        continue;
                    json += (first ? "" : ",") + json_str(p.name + ": " + tr);
                    first = false;
                    ++got;
                }
    json += "],\"wall_s\":" + std::to_string(now() - t0) + "}";
    for(auto *s : slots) {
        munmap(s->hashes, s->maxhash * 8);
        munmap(s, sizeof(Slot));
    }
    for(unsigned w = 0; w < W; ++w)
        unlink((tmp + ".w" + std::to_string(w)).c_str());
    unlink((tmp + ".try").c_str());
    unlink((tmp + ".trace").c_str());
    fprintf(stderr, "[%s] %llu cases, %llu nontrivial (%llu distinct), %llu edges, %.1f s%s\n", p.name.c_str(),
            (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)distinct, (unsigned long long)edges,
            now() - t0, over ? " (stopped by time)" : "");
    return violated;
}

} // namespace pbt

extern "C" {
void __sanitizer_cov_8bit_counters_init(uint8_t *start, uint8_t *stop) {
    using namespace pbt;
    for(size_t i = 0; i < n_cov; ++i)
        if(cov_start[i] == start)
            return;
    if(n_cov < 64 && start != stop) {
        cov_start[n_cov] = start;
        cov_stop[n_cov++] = stop;
    }
}
void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t) { pbt::add_const(a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { pbt::add_const(a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { pbt::add_const(a); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { pbt::add_const(a); }
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_switch(uint64_t, uint64_t *c) {
    for(uint64_t i = 0; i < c[0]; ++i)
        pbt::add_const(c[2 + i]);
}
void __sanitizer_cov_trace_div4(uint32_t) {}
void __sanitizer_cov_trace_div8(uint64_t) {}
void __sanitizer_cov_trace_gep(uintptr_t) {}
}

int main(int argc, char **argv) {
    using namespace pbt;
    std::string id, only, outdir = ".", json_out, replay;
    bool thorough = false, list = false;
    uint64_t seed = 1;
    double wall = 240, scale = 1;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--id")
            id = val();
        else if(a == "--only")
            only = val();
        else if(a == "--tier")
            thorough = val() == "thorough";
        else if(a == "--seed")
            seed = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--outdir")
            outdir = val();
        else if(a == "--json")
            json_out = val();
        else if(a == "--wall")
            wall = atof(val().c_str());
        else if(a == "--scale")
            scale = atof(val().c_str());
        else if(a == "--replay")
            replay = val();
        else if(a == "--first") // only tell whether there is a violation, quickly
            stop_at_first = true;
        else if(a == "--list")
            list = true;
    }
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    struct sigaction sa = {};
    sa.sa_handler = on_prof;
    sigaction(SIGPROF, &sa, nullptr);
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    std::sort(props().begin(), props().end(), [](const Prop &a, const Prop &b) { return a.name < b.name; });
    if(list) {
        for(auto &p : props())
            printf("%s %s\n", p.id.c_str(), p.name.c_str());
        return 0;
    }
    if(!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r");
        if(!f)
            return 2;
        char name[256];
        if(fscanf(f, "prop %255s\nchoices", name) != 1)
            return 2;
        std::vector<uint64_t> c;
        unsigned long long v;
        while(fscanf(f, " %llu", &v) == 1)
            c.push_back(v);
        fclose(f);
        for(auto &p : props())
            if(p.name == name) {
                slot = new_slot(0);
                run_case(p, c.data(), c.size(), false, 0, true, p.o.cpu_limit);
                printf("the case passes\n");
                return 0;
            }
        return 2;
    }
    bool bad = false;
    std::string json = "[";
    size_t n = 0;
    for(auto &p : props()) {
        if((!id.empty() && p.id != id) || (!only.empty() && p.name.find(only) == std::string::npos))
            continue;
        if(n++)
            json += ",\n";
        bad |= run_prop(p, thorough, seed, wall, scale, outdir, json);
    }
    json += "]\n";
    if(!json_out.empty()) {
        FILE *f = fopen(json_out.c_str(), "w");
        if(f) {
            fwrite(json.data(), 1, json.size(), f);
            fclose(f);
        }
    }
    return bad ? 1 : (n ? 0 : 3);
}

// C06: Variant against a model of (alternative, value).
#include "pbt.hpp"
#include "ns.hpp"
#include "elem.hpp"
#if YEAR == 2026
#include <pystd2026_variant.hpp>
#endif
#include <utility>

using namespace pbt;

// Alternatives: all different types, with different sizes and alignments; the padding repeats
// the value so that a partly copied or overwritten object is noticed.
constexpr int alt_align(int i) { return i % 7 == 3 ? 64 : i % 3 == 0 ? 8 : 16; }
template<int I> struct Alt : Elem<alt_align(I), true> {
    using Base = Elem<alt_align(I), true>;
    static constexpr int PAD = (I * 37) % 100 + 1;
    unsigned char pad[PAD];
    unsigned char fillv;
    static unsigned char f(int v) { return (unsigned char)(v * 7 + I + 1); }
    void fill(int v) noexcept {
        fillv = f(v);
        memset(pad, fillv, PAD);
    }
    Alt() noexcept { fill(Base::v); }
    explicit Alt(int x) noexcept : Base(x) { fill(x); }
    Alt(const Alt &) noexcept = default;
    Alt(Alt &&) noexcept = default;
    Alt &operator=(const Alt &) noexcept = default;
    Alt &operator=(Alt &&) noexcept = default;
    void set(int x) {
        Base::get();
        Base::v = x;
        fill(x);
    }
    int read() const {
        int x = Base::get();
        bool ok = fillv == f(x);
        for(int i = 0; i < PAD; ++i)
            ok = ok && pad[i] == fillv;
        if(!ok)
            cur_t->fail("the object of alternative %d is damaged", I);
        return x;
    }
    bool operator==(const Alt &o) const { return read() == o.read(); }
};
template<int I> int read(const Alt<I> &a) { return a.read(); }
template<int I> void put(Alt<I> &a, int v) { a.set(v); }
static int read(const int &a) { return a; }
static void put(int &a, int v) { a = v; }
static int read(const double &a) { return (int)a; }
static void put(double &a, int v) { a = v; }
static int read(const unsigned char &a) { return a; }
static void put(unsigned char &a, int v) { a = (unsigned char)v; }
static std::string text_of(int v) {
    return std::string((size_t)(v % 3 == 0 ? 0 : 40), 'x') + std::to_string(v);
}
static int from_text(const std::string &x) {
    size_t at = 0;
    while(at < x.size() && x[at] == 'x')
        ++at;
    return at == x.size() ? -1 : atoi(x.c_str() + at);
}
static int read(const NS::CString &a) { return from_text(std::string(a.c_str(), a.size())); }
static void put(NS::CString &a, int v) { a = NS::CString(text_of(v).c_str()); }
static int read(const NS::U8String &a) { return from_text(a.c_str()); }
static void put(NS::U8String &a, int v) { a = NS::U8String(text_of(v).c_str()); }
using Ints = NS::Vector<int>;
static int read(const Ints &a) {
    for(size_t i = 0; i + 1 < a.size(); ++i)
        if(a[i] != (int)i)
            return -1;
    return a.is_empty() ? 0 : a[a.size() - 1];
}
static void put(Ints &a, int v) {
    a = Ints();
    for(int i = 0; i < v % 20; ++i)
        a.push_back(i);
    a.push_back(v);
}
template<typename X> X made(int v) {
    X x{};
    put(x, v);
    return x;
}

template<typename... A> struct Machine {
    using V = NS::Variant<A...>;
    static constexpr size_t N = sizeof...(A);
    static constexpr bool all_tracked = !(... || std::is_same_v<A, int>);
    T &t;
    struct Slot {
        std::unique_ptr<V> v;
        int alt = 0, val = 0; // alt -1: moved from
    };
    std::vector<Slot> s;

    template<typename F> void with(int alt, F &&f) {
        int i = 0;
        (void)((i++ == alt ? (f.template operator()<A>(), true) : false) || ...);
    }
    void check_one(const V &v, int alt, int val) {
        CHECK_EQ((int)v.index(), alt, "index of the alternative");
        int i = 0;
        (
            [&] {
                bool mine = i == alt;
                CHECK_EQ(v.template contains<A>(), mine, "contains");
                const A *p = v.template get_if<A>();
                CHECK((p != nullptr) == mine, "get_if of alternative %d while %d is held", i, alt);
                A *q = const_cast<V &>(v).template get_if<A>();
                CHECK(p == q, "const and non-const get_if differ");
                if(mine) {
                    CHECK_EQ((uintptr_t)p % alignof(A), 0, "misalignment");
                    CHECK((const char *)p >= (const char *)&v && (const char *)(p + 1) <= (const char *)(&v + 1), "the object is outside the variant");
                    CHECK_EQ(read(*p), val, "value");
                    CHECK(&v.template get<A>() == p && &const_cast<V &>(v).template get<A>() == p, "get and get_if differ");
                }
                ++i;
            }(),
            ...);
    }
    void check() {
        size_t known = 0;
        for(auto &x : s)
            if(x.alt >= 0) {
                check_one(*x.v, x.alt, x.val);
                ++known;
            }
        if(all_tracked)
            CHECK(live_count >= (long)known && live_count <= (long)s.size(), "%ld live objects in %zu variants", live_count, s.size());
    }
    int gen_val() { return (int)t.uni(0, 200); }
    int gen_alt() { return (int)t.idx(N); }

    void create() {
        Slot n;
        n.alt = gen_alt();
        n.val = gen_val();
        switch(t.idx(s.empty() ? 4 : 7)) {
        case 0:
            n.v = std::make_unique<V>();
            n.alt = 0;
            with(0, [&]<typename X>() { n.val = read(X{}); });
            t.note("v%zu: default", s.size());
            break;
        case 1:
            with(n.alt, [&]<typename X>() { n.v = std::make_unique<V>(made<X>(n.val)); });
            t.note("v%zu: from rvalue %d:%d", s.size(), n.alt, n.val);
            break;
        case 2:
            with(n.alt, [&]<typename X>() {
                X x = made<X>(n.val);
                n.v.reset(new V(x));
                CHECK_EQ(read(x), n.val, "the source of a copy");
            });
            t.note("v%zu: from lvalue %d:%d", s.size(), n.alt, n.val);
            break;
        case 3:
            with(n.alt, [&]<typename X>() {
                const X x = made<X>(n.val);
                n.v.reset(new V(x));
            });
            t.note("v%zu: from const %d:%d", s.size(), n.alt, n.val);
            break;
        default: {
            Slot &o = s[t.idx(s.size())];
            if(o.alt < 0)
                return;
            n.alt = o.alt;
            n.val = o.val;
            switch(t.idx(3)) {
            case 0: n.v.reset(new V(*o.v)); break;
            case 1: n.v.reset(new V(*(const V *)o.v.get())); break;
            default: n.v.reset(new V(std::move(*o.v))); o.alt = -1;
            }
            t.note("v%zu: copied or moved from v%zu", s.size(), (size_t)(&o - s.data()));
        }
        }
        s.push_back(std::move(n));
    }
    void step() {
        Slot &a = s[t.idx(s.size())], &b = s[t.idx(s.size())];
        size_t ai = (size_t)(&a - s.data()), bi = (size_t)(&b - s.data());
        int alt = gen_alt(), val = gen_val();
        switch(t.weighted({4, 4, 3, 3, 2, 2, 2, 1, 1})) {
        case 0:
            t.note("v%zu.insert(%d:%d)", ai, alt, val);
            with(alt, [&]<typename X>() { a.v->insert(made<X>(val)); });
            a.alt = alt, a.val = val;
            break;
        case 1:
            if(b.alt < 0)
                return;
            t.note("v%zu = v%zu", ai, bi);
            *a.v = *(const V *)b.v.get();
            a.alt = b.alt, a.val = b.val;
            break;
        case 2:
            if(b.alt < 0)
                return;
            t.note("v%zu = move(v%zu)", ai, bi);
            *a.v = std::move(*b.v);
            if(ai != bi) {
                a.alt = b.alt, a.val = b.val;
                b.alt = -1;
            } else
                a.alt = -1; // self move: only that it can be given a new value
            break;
        case 3:
            t.note("v%zu = value %d:%d", ai, alt, val);
            with(alt, [&]<typename X>() { *a.v = made<X>(val); });
            a.alt = alt, a.val = val;
            break;
        case 4:
            if(a.alt < 0)
                return;
            t.note("v%zu: modify to %d", ai, val);
            with(a.alt, [&]<typename X>() {
                if(t.idx(2))
                    put(a.v->template get<X>(), val);
                else
                    put(*a.v->template get_if<X>(), val);
            });
            a.val = val;
            break;
        case 5: {
            if(a.alt < 0 || b.alt < 0)
                return;
            bool want = a.alt == b.alt && a.val == b.val;
            bool got = *(const V *)a.v.get() == *(const V *)b.v.get();
            CHECK_EQ(got, want, "equality");
            V c(*(const V *)a.v.get());
            CHECK(c == *a.v, "a copy is not equal");
            if(ai != bi && want)
                t.label("two equal variants");
            break;
        }
        case 6:
            if(s.size() > 1) {
                t.note("destroy v%zu", ai);
                s.erase(s.begin() + (long)ai);
            }
            break;
        case 7:
            if(a.alt < 0)
                return;
            with(a.alt, [&]<typename X>() {
                X &own = a.v->template get<X>();
                switch(t.idx(4)) {
                case 0:
                    t.note("v%zu: insert its own value", ai);
                    a.v->insert(own);
                    break;
                case 1:
                    t.note("v%zu: insert its own value, moved", ai);
                    a.v->insert(std::move(own));
                    break;
                case 2:
                    t.note("v%zu = its own value", ai);
                    *a.v = own;
                    break;
                default:
                    t.note("v%zu = its own value, moved", ai);
                    *a.v = std::move(own);
                }
            });
            t.label("its own value");
            break;
        case 8:
            if(a.alt < 0 || alt == a.alt || !t.chance(10))
                return;
            t.note("v%zu: get of alternative %d", ai, alt);
            with(alt, [&]<typename X>() {
                if(t.idx(2))
                    CHECK(rejects([&] { a.v->template get<X>(); }), "get of alternative %d while %d is held", alt, a.alt);
                else
                    CHECK(rejects([&] { ((const V *)a.v.get())->template get<X>(); }), "const get of alternative %d while %d is held", alt, a.alt);
            });
            t.label("wrong alternative rejected");
            break;
        }
    }
    void run() {
        create();
        check();
        std::set<int> alts;
        size_t steps = 0;
        for(; t.more(25); ++steps) {
            if(s.size() < 6 && t.chance(25))
                create();
            else
                step();
            check();
            for(auto &x : s)
                alts.insert(x.alt);
        }
        if(steps >= 5 && alts.size() >= std::min<size_t>(3, N + 1))
            t.nontrivial();
    }
};

template<typename I> struct Alts;
template<int... I> struct Alts<std::integer_sequence<int, I...>> {
    using M = Machine<Alt<I>...>;
};
template<int N> static void run_alts(T &t) {
    Lifetimes l(t);
    typename Alts<std::make_integer_sequence<int, N>>::M m{t, {}};
    m.run();
}
#define VRULE .rule = "five or more steps that went through three or more alternatives (or moved-from)"
PROP("C06", "one", VRULE, .quick = 10000) { run_alts<1>(t); }
PROP("C06", "few", VRULE, .quick = 60000) {
    switch(t.idx(3)) {
    case 0: return run_alts<2>(t);
    case 1: return run_alts<3>(t);
    default: return run_alts<4>(t);
    }
}
PROP("C06", "many", VRULE, .quick = 200000) {
    switch(t.idx(3)) {
    case 0: return run_alts<30>(t);
    case 1: return run_alts<29>(t);
    default: return run_alts<17>(t);
    }
}
PROP("C06", "library_types", VRULE, .quick = 100000) {
    Lifetimes l(t);
    Machine<int, NS::CString, unsigned char, NS::U8String, double, Ints, Alt<2>> m{t, {}};
    m.run();
}

// C30: ArgParse against a reference parser.
#include "pbt.hpp"
#include "ns.hpp"
#include <pystd2026_argparse.hpp>
#include <cerrno>
#include <climits>
#include <optional>
#include <sys/mman.h>

using namespace pbt;

struct Val {
    enum { NONE, STR, INT, BOOL, ARR } k = NONE;
    std::string s;
    int64_t i = 0;
    std::vector<std::string> a;
    bool operator==(const Val &) const = default;
    std::string text() const {
        switch(k) {
        case NONE: return "nothing";
        case STR: return show(s);
        case INT: return std::to_string(i);
        case BOOL: return i ? "true" : "false";
        default: {
            std::string r = "[";
            for(auto &x : a)
                r += show(x) + " ";
            return r + "]";
        }
        }
    }
};
enum Kind { STRING, INTEGER, ARRAY_SET, ARRAY_ADD, FLAG_ON, FLAG_OFF, N_KINDS };
struct Opt {
    std::string name, lng;
    char sht = 0;
    Kind kind = STRING;
    Val def;
    std::optional<int64_t> lo, hi;
    bool takes() const { return kind < FLAG_ON; }
};
using Args = std::vector<std::string>;
struct Ref {
    enum { OK, REJECT, HELP, UNCLEAR } how = OK;
    std::string why;
    std::map<std::string, Val> v;
    bool reject(const std::string &w) {
        how = REJECT;
        why = w;
        return false;
    }
};

static bool all_digits(const std::string &x, size_t from) {
    for(size_t i = from; i < x.size(); ++i)
        if(x[i] < '0' || x[i] > '9')
            return false;
    return x.size() > from;
}
static bool store(const Opt &o, const std::string &x, Ref &r) {
    Val &v = r.v[o.name];
    switch(o.kind) {
    case STRING:
        v = {};
        v.k = Val::STR;
        v.s = x;
        break;
    case INTEGER: {
        size_t from = x.size() && x[0] == '-';
        if(!all_digits(x, from)) {
            size_t k = 0;
            while(k < x.size() && (isspace((unsigned char)x[k]) || x[k] == '+'))
                ++k;
            if(k && k < x.size()) { // " 5", "+5": either way is fine
                r.how = Ref::UNCLEAR;
                return false;
            }
            return r.reject("not an integer");
        }
        __int128 n = 0;
        for(size_t i = from; i < x.size(); ++i) {
            n = n * 10 + (x[i] - '0');
            if(n > ((__int128)1 << 64))
                return r.reject("integer out of range");
        }
        if(from)
            n = -n;
        if(n > INT64_MAX || n < INT64_MIN)
            return r.reject("integer out of range");
        if((o.lo && n < *o.lo) || (o.hi && n > *o.hi))
            return r.reject("outside the declared limits");
        v = {};
        v.k = Val::INT;
        v.i = (int64_t)n;
        break;
    }
    case ARRAY_SET:
        v = {};
        v.k = Val::ARR;
        v.a = {x};
        break;
    case ARRAY_ADD:
        v.k = Val::ARR;
        v.a.push_back(x);
        break;
    default:
        v = {};
        v.k = Val::BOOL;
        v.i = o.kind == FLAG_ON;
    }
    return true;
}
static Ref reference(const std::vector<Opt> &opts, const Args &args, bool positional) {
    Ref r;
    for(auto &o : opts)
        if(o.def.k != Val::NONE)
            r.v[o.name] = o.def;
    for(size_t i = 0; i < args.size(); ++i) {
        const std::string &a = args[i];
        if(a == "" || a == "-") {
            r.how = Ref::UNCLEAR;
            return r;
        }
        if(a == "--help" || a == "-h") {
            r.how = Ref::HELP;
            return r;
        }
        if(a == "--")
            return r;
        if(a[0] != '-') {
            if(!positional) {
                r.reject("positional argument");
                return r;
            }
            continue;
        }
        const Opt *o = nullptr;
        std::optional<std::string> attached;
        if(a[1] == '-') {
            auto eq = a.find('=');
            auto key = a.substr(0, eq);
            if(eq != std::string::npos)
                attached = a.substr(eq + 1);
            for(auto &x : opts)
                if(x.lng == key)
                    o = &x;
        } else {
            for(auto &x : opts)
                if(x.sht && x.sht == a[1])
                    o = &x;
            if(a.size() > 2)
                attached = a.substr(2);
            if(o && o->takes() && attached && (*attached)[0] == '=') { // -x=v
                r.how = Ref::UNCLEAR;
                return r;
            }
        }
        if(!o) {
            r.reject("unknown option " + a);
            return r;
        }
        std::string value;
        if(o->takes()) {
            if(attached)
                value = *attached;
            else if(i + 1 < args.size())
                value = args[++i];
            else {
                r.reject("missing value");
                return r;
            }
        } else if(attached) {
            r.reject("a value for a flag");
            return r;
        }
        if(!store(*o, value, r))
            return r;
    }
    return r;
}

// ---------------------------------------------------------------- the real one

using NS::ArgumentValue, NS::CString;
static CString cs(const std::string &x) { return CString(x.c_str(), x.size()); }
static Val convert(const ArgumentValue &v) {
    Val r;
    if(auto *p = v.get_if<bool>()) {
        r.k = Val::BOOL;
        r.i = *p;
    } else if(auto *p = v.get_if<int64_t>()) {
        r.k = Val::INT;
        r.i = *p;
    } else if(auto *p = v.get_if<CString>()) {
        r.k = Val::STR;
        r.s = str(*p);
    } else {
        r.k = Val::ARR;
        for(auto &x : v.get<NS::Vector<CString>>())
            r.a.push_back(str(x));
    }
    return r;
}
static ArgumentValue convert(const Val &v) {
    switch(v.k) {
    case Val::BOOL: return ArgumentValue(v.i != 0);
    case Val::INT: return ArgumentValue(int64_t(v.i));
    case Val::STR: return ArgumentValue(cs(v.s));
    default: {
        NS::Vector<CString> a;
        for(auto &x : v.a)
            a.push_back(cs(x));
        return ArgumentValue(std::move(a));
    }
    }
}
static NS::Argument argument(const Opt &o) {
    NS::Argument a;
    a.name = cs(o.name);
    a.short_arg = o.sht;
    a.long_arg = cs(o.lng);
    switch(o.kind) {
    case STRING: a.type = NS::ArgumentType::String; break;
    case INTEGER: a.type = NS::ArgumentType::Integer; break;
    case ARRAY_SET: a.type = NS::ArgumentType::StringArray; break;
    case ARRAY_ADD:
        a.type = NS::ArgumentType::StringArray;
        a.aaction = NS::ArgumentAction::AppendArray;
        break;
    default:
        a.type = NS::ArgumentType::Boolean;
        a.aaction = o.kind == FLAG_ON ? NS::ArgumentAction::StoreTrue : NS::ArgumentAction::StoreFalse;
    }
    if(o.def.k != Val::NONE)
        a.default_value = convert(o.def);
    if(o.lo)
        a.minval = int64_t(*o.lo);
    if(o.hi)
        a.maxval = int64_t(*o.hi);
    a.help = NS::U8String("help text");
    return a;
}
struct Argv { // the array and each argument in a heap block of its own
    std::vector<char *> own;
    const char **v;
    int n;
    explicit Argv(const Args &a) {
        v = (const char **)malloc((a.size() + 2) * sizeof(char *));
        own.push_back(strdup("prog"));
        for(auto &x : a)
            own.push_back(strdup(x.c_str()));
        n = (int)own.size();
        for(int i = 0; i < n; ++i)
            v[i] = own[(size_t)i];
        v[n] = nullptr;
    }
    ~Argv() {
        for(auto *p : own)
            free(p);
        free(v);
    }
};
static std::string tell(const Args &a) {
    std::string r;
    for(auto &x : a)
        r += " " + show(x);
    return r;
}
static void check_result(T &t, const std::vector<Opt> &opts, Ref &r, NS::ParseOutput &out) {
    const NS::ParseOutput &cout = out;
    for(auto &o : opts) {
        auto *p = out.value_of(NS::CStringView(o.name.c_str()));
        auto *q = cout.value_of(NS::CStringView(o.name.c_str()));
        CHECK(p == q, "const and non-const value_of differ");
        Val got = p ? convert(*p) : Val{}, want = r.v.count(o.name) ? r.v[o.name] : Val{};
        CHECK(got == want, "option %s has value %s, expected %s", show(o.name).c_str(), got.text().c_str(), want.text().c_str());
        CHECK(!out.value_of(NS::CStringView((o.name + "_").c_str())), "value of an undeclared name");
    }
}
// Runs the parser in a child. Returns "accepted", "rejected", "exit 0" or what else happened.
static std::string in_child(NS::ArgParse &p, const Argv &a, std::string &output) {
    int fd = memfd_create("out", 0);
    if(fd < 0)
        infra("memfd_create");
    fflush(nullptr);
    pid_t pid = fork();
    if(pid < 0)
        infra("fork");
    if(pid == 0) {
        signal(SIGABRT, SIG_DFL);
        dup2(fd, 1);
        dup2(fd, 2);
        int code = 55;
        try {
            auto o = p.parse_args(a.n, a.v);
        } catch(...) {
            code = 56;
        }
        fflush(nullptr);
        _exit(code);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    char buf[4000];
    ssize_t n = pread(fd, buf, sizeof buf, 0);
    close(fd);
    output.assign(buf, n > 0 ? (size_t)n : 0);
    if(WIFSIGNALED(st))
        return "signal " + std::to_string(WTERMSIG(st));
    switch(WEXITSTATUS(st)) {
    case 0: return "exit 0";
    case 55: return "accepted";
    case 56: output += "exception"; return "rejected";
    case 1: return "rejected";
    default: return "exit " + std::to_string(WEXITSTATUS(st)) + ": " + output.substr(0, 500);
    }
}

// ---------------------------------------------------------------- generators

static std::string gen_word(T &t) {
    std::string x;
    size_t n = 1 + t.size(6);
    for(size_t i = 0; i < n; ++i)
        x += t.pick({'a', 'b', 'o', 'f', 'x', '.', '/', '1', '=', '-', ' ', '\xc3'});
    return x;
}
static Val gen_default(T &t, Kind k) {
    Val v;
    switch(k) {
    case STRING:
        v.k = Val::STR;
        v.s = t.idx(4) ? gen_word(t) : "";
        break;
    case INTEGER:
        v.k = Val::INT;
        v.i = (int64_t)t.u64();
        break;
    case ARRAY_SET:
    case ARRAY_ADD:
        v.k = Val::ARR;
        for(size_t n = t.idx(4); n; --n)
            v.a.push_back(gen_word(t));
        break;
    default:
        v.k = Val::BOOL;
        v.i = (int64_t)t.idx(2);
    }
    return v;
}
static bool large = false; // many options and long command lines
static std::vector<Opt> gen_opts(T &t) {
    std::vector<Opt> v;
    std::set<std::string> names, longs;
    std::set<char> shorts;
    size_t n = large ? t.idx(90) : t.idx(8);
    for(size_t i = 0; i < n; ++i) {
        Opt o;
        o.name = t.pick<const char *>({"foo", "fo", "f", "foobar", "a", "ab", "x", "verbose", "", "size", "o", "long name"});
        o.kind = (Kind)t.idx(N_KINDS);
        if(t.chance(75))
            o.lng = t.pick<const char *>({"--foo", "--fo", "--f", "--foobar", "--foo-bar", "--a", "--ab", "--x", "--helpme", "--verbose"});
        if(t.chance(60) || o.lng.empty())
            o.sht = t.pick({'f', 'a', 'x', 'v', 'I', '1', 'o', '?'});
        if(large && t.chance(95)) {
            o.name = "option " + std::to_string(i);
            if(t.chance(80))
                o.lng = "--" + t.pick<std::string>({"opt", "o", "very-long-option-name-"}) + std::to_string(i * 7 % 101);
            else
                o.lng.clear();
            static const char abc[] = "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
            o.sht = o.lng.empty() || t.chance(50) ? abc[t.idx(sizeof abc - 1)] : 0;
        }
        if(names.count(o.name) || (o.lng.size() && longs.count(o.lng)) || (o.sht && shorts.count(o.sht)))
            continue;
        names.insert(o.name);
        if(o.lng.size())
            longs.insert(o.lng);
        if(o.sht)
            shorts.insert(o.sht);
        if(t.chance(40))
            o.def = gen_default(t, o.kind);
        if(o.kind == INTEGER) {
            if(t.chance(40))
                o.lo = t.idx(3) ? t.num(-10, 10) : (int64_t)t.u64();
            if(t.chance(40))
                o.hi = t.idx(3) ? t.num(-5, 20) : (int64_t)t.u64();
        }
        v.push_back(o);
        std::string d = o.lng + (o.sht ? std::string(" -") + o.sht : "");
        static const char *kinds[] = {"string", "integer", "array (store)", "array (append)", "flag on", "flag off"};
        t.note("option %s: %s, %s, default %s, limits %s..%s", show(o.name).c_str(), d.c_str(), kinds[o.kind], o.def.text().c_str(),
               o.lo ? std::to_string(*o.lo).c_str() : "", o.hi ? std::to_string(*o.hi).c_str() : "");
    }
    return v;
}
static std::string gen_int_text(T &t, const Opt &o) {
    switch(t.weighted({large ? 2000u : 8u, 2, 2, 1})) {
    case 0: {
        int64_t lo = o.lo.value_or(-20), hi = o.hi.value_or(o.lo ? (*o.lo > INT64_MAX - 40 ? INT64_MAX : *o.lo + 40) : 20);
        if(lo > hi)
            std::swap(lo, hi);
        __int128 x = t.num(lo, hi);
        if(!large && t.chance(5)) // around the limits
            x = (t.idx(2) ? (__int128)lo : (__int128)hi) + t.uni(-1, 1);
        bool neg = x < 0;
        unsigned __int128 u = neg ? (unsigned __int128)-x : (unsigned __int128)x;
        std::string s;
        do {
            s.insert(s.begin(), (char)('0' + (int)(u % 10)));
            u /= 10;
        } while(u);
        return (neg ? "-" : "") + std::string(t.chance(3) ? 2 : 0, '0') + s;
    }
    case 1: return std::to_string((int64_t)t.u64());
    case 2: return t.pick<const char *>({"9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "0", "-0", "00"});
    default: return t.pick<const char *>({"abc", "", "1x", "0x10", "-", "--5", "1.5", "5 ", " 5", "+5", "1e3", "--"});
    }
}
static std::string gen_value(T &t, const Opt &o) {
    if(o.kind == INTEGER)
        return gen_int_text(t, o);
    switch(t.weighted({12, 1, 1, 1, 1})) {
    case 0: return gen_word(t);
    case 1: return "";
    case 2: return t.pick<const char *>({"--foo", "-f", "--", "-", "--help", "-h", "a=b", "="});
    case 3: return "-" + gen_word(t);
    default: return std::string(large ? t.idx(20000) : t.size(200), 'v');
    }
}
static Args gen_args(T &t, const std::vector<Opt> &opts, bool positional) {
    Args a;
    for(size_t n = large ? t.idx(300) : t.size(9); n; --n) {
        switch(t.weighted({opts.empty() ? 0u : large ? 2000u : 20u, positional ? (large ? 300u : 6u) : 0u, 1, opts.empty() ? 0u : 1u})) {
        case 0: {
            const Opt &o = opts[t.idx(opts.size())];
            bool lng = o.lng.size() && (!o.sht || t.idx(2));
            std::string key = lng ? o.lng : std::string("-") + o.sht;
            if(!o.takes())
                a.push_back(key);
            else {
                auto v = gen_value(t, o);
                if(t.idx(2) || (!lng && v.empty())) {
                    a.push_back(key);
                    a.push_back(v);
                } else
                    a.push_back(key + (lng ? "=" : "") + v);
            }
            break;
        }
        case 1: a.push_back(gen_word(t)); break;
        case 2: // a marker or something unknown
            if(t.idx(3) == 0)
                a.push_back("--");
            else if(t.chance(20))
                a.push_back(t.pick<const char *>({"--unknown", "--fo", "-z", "--foo", "-f", "-", "", "--help", "-h", "--=x", "--foo-", "word"}));
            break;
        default: // an option without what it needs, or with too much
            if(t.chance(30)) {
                const Opt &o = opts[t.idx(opts.size())];
                std::string key = o.lng.size() ? o.lng : std::string("-") + o.sht;
                switch(t.idx(4)) {
                case 0: a.push_back(key); break;
                case 1: a.push_back(key + "=v"); break;
                case 2: a.push_back(key + "x"); break;
                default: a.push_back(key.substr(0, key.size() - 1));
                }
            }
        }
    }
    return a;
}

static void parse_case(T &t) {
    auto opts = gen_opts(t);
    bool positional = t.idx(2);
    NS::ArgParse p(NS::U8String("A program."));
    for(auto &o : opts)
        p.add_argument(argument(o));
    if(positional)
        p.permit_posargs();
    size_t rounds = 1 + t.chance(20);
    for(size_t k = 0; k < rounds; ++k) {
        Args args = gen_args(t, opts, positional);
        t.note("parse%s%s", tell(args).c_str(), positional ? " (positional arguments permitted)" : "");
        Ref r = reference(opts, args, positional);
        Argv argv(args);
        if(r.how == Ref::OK) {
            auto o = p.parse_args(argv.n, argv.v);
            CHECK((bool)o, "no result");
            check_result(t, opts, r, *o);
            NS::ParseOutput m(std::move(*o));
            check_result(t, opts, r, m);
            if(args.size() >= 2 && opts.size() >= 2)
                t.nontrivial();
            continue;
        }
        if(!t.chance(10)) // a child is slow
            continue;
        std::string out, how = in_child(p, argv, out);
        if(r.how == Ref::REJECT) {
            CHECK(how == "rejected", "%s: %s, expected a rejection", r.why.c_str(), how.c_str());
            CHECK(!out.empty(), "%s: rejected without a diagnostic", r.why.c_str());
            t.nontrivial();
            t.label("rejected");
        } else if(r.how == Ref::HELP) {
            CHECK(how == "exit 0", "help: %s", how.c_str());
            for(auto &o : opts)
                CHECK(out.size() >= 3900 || out.find(o.lng) != std::string::npos, "help does not mention %s", o.lng.c_str());
            t.label("help");
        } else {
            CHECK(how == "rejected" || how == "accepted" || how == "exit 0" /* help, if asked for later */, "%s", how.c_str());
            t.label("unclear");
        }
    }
}
PROP("C30", "parse", .rule = "the command line sets two or more options, or is rejected", .quick = 150000) { parse_case(t); }
PROP("C30", "parse.large", .rule = "the command line sets two or more options, or is rejected", .quick = 3000, .cpu_limit = 60, .guided = false) {
    large = true;
    struct Restore {
        ~Restore() { large = false; }
    } restore;
    parse_case(t);
}
PROP("C30", "declare", .rule = "a declaration that clashes with an earlier one", .quick = 60000) {
    auto opts = gen_opts(t);
    NS::ArgParse p(NS::U8String("A program."));
    for(auto &o : opts)
        p.add_argument(argument(o));
    std::vector<Opt> now = opts;
    for(size_t n = 1 + t.idx(2); n; --n) {
        Opt o;
        o.name = t.pick<const char *>({"foo", "fo", "size", "o", "fresh", "fresher"});
        if(t.idx(3))
            o.lng = t.pick<const char *>({"--foo", "--fo", "--fooba", "--ab", "--fresh"});
        if(t.idx(2) || o.lng.empty())
            o.sht = t.pick({'f', 'a', 'z', 'I', 'q'});
        o.kind = (Kind)t.idx(N_KINDS);
        bool clash = false;
        for(auto &x : now)
            clash = clash || x.name == o.name || (o.lng.size() && x.lng == o.lng) || (o.sht && x.sht == o.sht);
        if(clash && !t.chance(5))
            continue;
        t.note("declare %s %s -%c", show(o.name).c_str(), o.lng.c_str(), o.sht ? o.sht : ' ');
        bool got = rejects([&] { p.add_argument(argument(o)); });
        CHECK_EQ(got, clash, "clashing declaration rejected");
        if(clash)
            t.nontrivial();
        else
            now.push_back(o);
    }
    Args args = gen_args(t, now, false);
    Ref r = reference(now, args, false);
    if(r.how == Ref::OK) {
        t.note("parse%s", tell(args).c_str());
        Argv argv(args);
        auto o = p.parse_args(argv.n, argv.v);
        CHECK((bool)o, "no result");
        check_result(t, now, r, *o);
    }
}

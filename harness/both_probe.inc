// Included once per year, like both.inc: one function per area of the library that performs a
// generated job and tells everything that could be observed. The transcripts of the years are compared.
#if BOTH_OLD
using View = L::BytesView;
static View subview(const View &v, size_t at, size_t len) { return v.subview(at, len); }
static View mapped(const L::MMapping &m) { return m.view(); }
#else
using View = L::Span<const char>;
static View subview(const View &v, size_t at, size_t len) { return v.subspan(at, len); }
static View mapped(const L::MMapping &m) { return m.span(); }
#endif
template<typename F> static std::string rej(F &&f) {
    try {
        return f();
    } catch(...) { // the type and the text of a rejection may differ between the years
        return "(rejected)";
    }
}
static std::string u8v(const L::U8StringView &v) {
    auto c = v.raw_view();
    return std::string(c.data() ? c.data() : "", c.size());
}
static std::string cv(const L::CStringView &v) { return std::string(v.data() ? v.data() : "", v.size()); }
static bool cv_cb(const L::CStringView &p, void *ctx) {
    auto &r = *(std::string *)ctx;
    r += cv(p) + "|";
    return r.size() < 300;
}
static bool u8_cb(const L::U8StringView &p, void *ctx) {
    auto &r = *(std::string *)ctx;
    r += u8v(p) + "|";
    return r.size() < 300;
}
static bool u8_sep(uint32_t c) { return c == 'a' || c == 0xe9 || c == ' '; }
static L::U8StringView part(const L::U8String &u, size_t from, size_t to) {
    auto b = u.cbegin();
    size_t i = 0;
    for(; i < from && b != u.cend(); ++i)
        ++b;
    auto e = b;
    for(; i < to && e != u.cend(); ++i)
        ++e;
    return L::U8StringView(b, e);
}

static std::string texts(const Job &k) {
    std::string r;
    L::CString a = c(k.a), b = c(k.b);
    auto va = a.view(), vb = b.view();
    r += n(va == vb) + n(va < vb) + n(vb < va) + n(va.starts_with(vb)) + n(va.starts_with(k.b.c_str())) + n(va.is_empty()) + n(va == k.b.c_str());
    r += " find " + n((long long)va.find(vb)) + " " + n((long long)a.find(vb)) + " " + n((long long)va.find(k.ch)) + " " + n((long long)a.rfind(k.ch));
    r += rej([&] { return std::string(1, va.front()); }) + rej([&] { return std::string(1, a.back()); }) + rej([&] { return std::string(1, va[k.x]); });
    if(k.x != k.a.size()) // an empty piece at the very end has no agreed answer
        r += rej([&] { return cv(va.substr(k.x, k.y)); });
    r += rej([&] { return s(a.substr(k.x < k.a.size() ? k.x : 0, k.y < k.a.size() ? k.y : 0)); });
    r += s(va.upper()) + s(va.lower());
    std::string p;
    a.split(cv_cb, &p);
    r += " split " + p;
    p.clear();
    a.split_by(k.ch, cv_cb, &p);
    r += " by " + p + list(a.split()) + list(a.split_by(k.ch));
    for(auto &[op, v] : k.steps) {
        switch(op % 12) {
        case 0: a.append(k.ch); break;
        case 1: a += b; break;
        case 2: a.pop_back(); break;
        case 3: a.insert((size_t)v % (a.size() + 1), b.view()); break;
        case 4: r += rej([&] { a.remove(std::min((size_t)v, a.size()), a.size()); return std::string("cut"); }); break;
        case 5: a.strip(); break;
        case 6: r += rej([&] { a.remove(0, a.size() + 1 + (size_t)v); return std::string("?"); }); break;
        case 7: a.append(k.b.data(), k.b.data() + k.b.size()); break;
        case 8: b = L::move(a); a = L::CString(k.a.c_str()); break;
        case 9: a = k.b.c_str(); break;
        case 10: a.clear(); break;
        default: r += rej([&] { a.append("x\0y", 3); return std::string("accepted"); });
        }
        if(a.size() > 2000)
            a = c(k.a);
        r += s(a) + ";";
        r += n((long long)strlen(a.c_str())) + n(a == b) + n(a.is_empty());
    }
    L::FixedCString<20> f;
    r += rej([&] { f = L::FixedCString<20>(k.a.c_str()); return std::string(f.c_str()); });
    r += rej([&] { f = b.view(); return std::string(f.c_str()); });
    f.pop_back();
    L::FixedCString<9> g;
    r += rej([&] { g = f; return std::string(g.c_str()); });
    r += n(f == a.view()) + n(f == k.a.c_str()) + n((long long)f.size()) + std::string(f.c_str()) + n(f.is_empty());
    return r;
}

static std::string unicode(const Job &k) {
    std::string r;
    r += rej([&] { return s(L::U8String(k.raw.c_str(), k.raw.size())); });
    r += rej([&] { return s(L::U8String(k.raw.c_str())); });
    r += rej([&] { L::Bytes b; b.append(k.raw.data(), k.raw.data() + k.raw.size()); return s(L::U8String(b)); });
    L::U8String u(k.a.c_str()), v(k.b.c_str());
    for(auto it = u.cbegin(); it != u.cend(); ++it)
        r += n(*it) + ",";
    for(auto it = u.crbegin(); it != u.crend(); ++it)
        r += n(*it) + ",";
    auto back = u.cend();
    for(int i = 0; i < 5 && back != u.cbegin(); ++i) {
        --back;
        r += n(*back) + ".";
    }
    r += n(u == v) + n(u < v) + n(u == k.b.c_str()) + n(u.contains(v.view())) + n(v.contains(part(v, k.x, k.y))) + n(u.overlaps(v.view()));
    auto p1 = part(u, k.x, k.y), p2 = part(u, k.y, k.y + 3);
    if(p1.size_bytes() && p2.size_bytes())
        r += n(p1.overlaps(p2));
    r += s(p1.upper()) + s(p1.lower()) + n((long long)p1.size_bytes()) + n(p1 == k.b.c_str());
    std::string p;
    u.split(u8_cb, u8_sep, &p);
    r += " split " + p + list(u.split_ascii()) + s(v.join(u.split_ascii()));
    size_t from = k.x % (u.size_bytes() + 1), len = k.y % (u.size_bytes() - from + 1);
    r += rej([&] { return s(u.substr(from, len)); });
    for(auto &[op, x] : k.steps) {
        switch(op % 9) {
        case 0: u += v; break;
        case 1: u.pop_front(); break;
        case 2: u.pop_back(); break;
        case 3: u.remove(part(u, (size_t)x % 20, (size_t)x % 20 + 3)); break;
        case 4: {
            auto it = u.cbegin();
            for(int i = 0; i < x % 10 && it != u.cend(); ++i)
                ++it;
            u.insert(it, v.view());
            break;
        }
        case 5: r += rej([&] { u.append_codepoint((uint32_t)x * 1237u); return std::string("+"); }); break;
        case 6: v = u; u = L::U8String(k.b.c_str()); break;
        case 7: u = u.upper(); break;
        default: u = L::U8String(part(u, 1, 12));
        }
        if(u.size_bytes() > 3000)
            u = L::U8String("x");
        r += s(u) + ";";
    }
    for(uint32_t cp : k.cps) {
        auto up = L::uppercase_unicode(cp), lo = L::lowercase_unicode(cp);
        for(int i = 0; i < 3; ++i) {
            r += n(up.codepoints[i]) + "/" + n(lo.codepoints[i]) + ",";
            if(!up.codepoints[i] && !lo.codepoints[i])
                break;
        }
    }
    return r;
}

static std::string bytes(const Job &k) {
    std::string r;
    L::Bytes a, b;
    auto show = [](const L::Bytes &x) { return std::string(x.data() ? x.data() : "", x.size()); };
    for(auto &[op, v] : k.steps) {
        switch(op % 12) {
        case 0: a.append((char)v); break;
        case 1: a.append(k.raw.data(), k.raw.data() + k.raw.size()); break;
        case 2: a += b; break;
        case 3: r += rej([&] { a.insert((size_t)v, k.raw.data(), k.raw.size()); return std::string("in"); }); break;
        case 4: r += rej([&] { a.remove((size_t)v / 10, (size_t)v); return std::string("out"); }); break;
        case 5: a.pop_back((size_t)v % (a.size() + 1)); break;
        case 6: a.pop_front((size_t)v % (a.size() + 1)); break;
        case 7: {
            size_t old = a.size();
            a.resize((size_t)v);
            for(size_t i = old; i < a.size(); ++i)
                a.data()[i] = 'r';
            break;
        }
        case 8: b = a; break;
        case 9: a.assign(k.raw.data(), k.raw.size()); break;
        case 10: a.clear(); break;
        default: b = L::move(a); a = L::Bytes();
        }
        if(a.size() > 2000)
            a.clear();
        r += show(a) + ";" + n(a == b) + n(a < b) + n(a.is_empty());
        r += rej([&] { return std::string(1, a.front()); }) + rej([&] { return std::string(1, a.back()); }) + rej([&] { return std::string(1, (size_t)v < a.size() ? a[(size_t)v] : '-'); });
    }
    return r;
}

static std::string sequences(const Job &k) {
    std::string r;
    L::Vector<L::CString> v, w;
    L::FixedVector<L::CString, 7> f;
    L::Stack<L::CString> st;
    auto word = [&](int x) { return c("w" + n(x) + (x % 7 ? "" : k.a)); };
    for(auto &[op, x] : k.steps) {
        size_t i = (size_t)x % 9;
        switch(op % 16) {
        case 0: v.push_back(word(x)); break;
        case 1: v.emplace_back(k.a.c_str()); break;
        case 2: if(v.size()) v.push_back(v[i % v.size()]); break;
        case 3: { auto o = v.pop_back(); r += o ? s(*o) : "none"; break; }
        case 4: v.append(w.begin(), w.end()); break;
        case 5: w.assign(v.begin(), v.end()); if(v.size() > 200) v.clear(); break;
        case 6: v.reserve((size_t)x); break;
        case 7: r += rej([&] { return s(v.at((size_t)x)); }); break;
        case 8: r += rej([&] { f.push_back(word(x)); return s(f.back()); }); break;
        case 9: r += rej([&] { f.insert(i, word(x)); return s(f.front()); }); break;
        case 10: r += rej([&] { f.delete_at(i); return n((long long)f.size()); }); break;
        case 11: if(!f.is_empty()) f.pop_back(); break;
        case 12: st.push(word(x)); r += s(st.top()); break;
        case 13: r += rej([&] { return s(st.top()); }); st.pop(); break;
        case 14: v = L::move(w); w = L::Vector<L::CString>(); break;
        default: { L::FixedVector<L::CString, 7> o; o.push_back(word(x)); r += rej([&] { f.move_append(o); return std::string("app"); }); }
        }
        if(v.size() > 2000)
            v.clear();
        r += n((long long)v.size()) + " " + n((long long)st.size()) + n(v == w) + " ";
        for(auto &e : f)
            r += s(e) + ",";
    }
    for(auto &e : v)
        r += s(e) + ",";
    while(!st.is_empty()) {
        r += s(st.top());
        st.pop();
    }
    return r;
}

static std::string holders(const Job &k) {
    std::string r;
    {
        L::unique_ptr<L::CString> p, q;
        L::unique_arr<int> arr(new int[3]{1, 2, 3}, 3);
        L::Optional<L::CString> o, o2;
        L::Expected<int, L::CString> e(1);
        L::Variant<L::CString, int, double, L::U8String> va, vb;
        for(auto &[op, x] : k.steps) {
            switch(op % 16) {
            case 0: p.reset(new L::CString(("p" + n(x)).c_str())); break;
            case 1: p = L::move(q); break;
            case 2: q = L::move(p); break;
            case 3: q.reset(nullptr); break;
            case 4: o = c("o" + n(x)); break;
            case 5: o = o2; break;
            case 6: o2 = L::move(o); o.reset(); break;
            case 7: o.reset(); break;
            case 8: e = L::Expected<int, L::CString>(x); break;
            case 9: e = L::Expected<int, L::CString>(L::CString("wrong")); break;
            case 10: va = L::CString(("s" + n(x)).c_str()); break;
            case 11: va.insert(x); break;
            case 12: vb = va; break;
            case 13: vb.insert(L::U8String(k.a.c_str())); break;
            case 14: va.insert((double)x); break;
            default: va = L::move(vb); vb.insert(1);
            }
            r += (p ? s(*p) : "null") + (q ? s(*q.get()) : "null");
            r += o ? s(*o) : "none";
            r += rej([&] { return s(o2.value()); });
            r += e ? n(e.value()) : s(e.error());
            // asking for what it does not hold ends the program in 2025
            r += n(va.index()) + n(vb.index()) + n(va == vb);
            r += rej([&] { return s(va.template get<L::CString>()); }) + rej([&] { return n(va.template get<int>()); }) + rej([&] { return s(vb.template get<L::U8String>()); });
            r += rej([&] { return n(arr[(size_t)x % 5]); });
        }
    }
    auto copy = k.ints;
    L::Span<int> sp(copy.data(), copy.size());
    r += rej([&] { return n(sp[k.x]); }) + rej([&] { return n(sp.at(k.y)); });
    if(k.x < copy.size())
        r += rej([&] {
            std::string z;
            for(auto &e : sp.subspan(k.x, k.y))
                z += n(e) + ",";
            return z;
        });
    View bv(k.raw.data(), k.raw.size());
    r += rej([&] { return std::string(1, bv[k.x]); });
    if(k.x < k.raw.size())
        r += rej([&] { auto z = subview(bv, k.x, k.y); return std::string(z.begin(), z.end()); });
    return r;
}

static std::string hashes(const Job &k) {
    std::string r;
    L::HashMap<L::U8String, int> m;
    L::HashSet<L::U8String> st;
    auto key = [&](int x) { return L::U8String(("k" + n(x % k.range)).c_str()); };
    for(auto &[op, x] : k.steps) {
        switch(op % 8) {
        case 0:
        case 1:
        case 2: m.insert(key(x), x); break;
        case 3: m.remove(key(x)); break;
        case 4: { auto *p = m.lookup(key(x)); r += p ? n(*p) : "-"; break; }
        case 5: st.insert(key(x)); break;
        case 6: st.remove(key(x)); break;
        default: r += n(st.contains(key(x))) + n(m.contains(key(x)));
        }
        r += n((long long)m.size()) + "," + n((long long)st.size()) + " ";
    }
    std::map<std::string, int> all;
    std::multiset<std::string> ks;
    for(auto kv : m)
        all[s(*kv.key)] += *kv.value + 1000;
    for(auto &e : st)
        ks.insert(s(e));
    for(auto &[a, b] : all)
        r += a + n(b);
    for(auto &a : ks)
        r += a;
    return r;
}

// Equal to another with the same key; the text tells which one is stored.
struct Keyed {
    int key;
    std::string text;
    bool operator==(const Keyed &o) const { return key == o.key; }
    int operator<=>(const Keyed &o) const { return key < o.key ? -1 : key > o.key; }
    bool operator<(const Keyed &o) const { return key < o.key; }
};
template<size_t N> static std::string trees_of(const Job &k) {
    std::string r;
    if(k.x % 5 == 0) {
        L::BTree<Keyed, N> t;
        int count = 0;
        for(auto &[op, x] : k.steps) {
            Keyed e{x % k.range, n(++count)};
            if(op % 3)
                t.insert(e);
            else
                t.remove(e);
        }
        for(int i = 0; i < k.range; ++i) {
            auto *p = t.lookup(Keyed{i, ""});
            r += p ? p->text + "," : "-";
        }
        return r + n((long long)t.size());
    }
    L::BTreeSet<int, N> st;
    L::BTreeMap<int, L::CString, N> m;
    for(auto &[op, x] : k.steps) {
        int key = x % k.range;
        switch(op % 6) {
        case 0:
        case 1: st.insert(key); break;
        case 2: m.insert(key, c(n(x))); break;
        case 3:
            if(st.contains(key))
                st.remove(key);
            break;
        case 4:
            if(m.lookup(key))
                m.remove(key);
            break;
        default: { auto *p = m.lookup(key); r += p ? s(*p) : "-"; r += n(st.contains(key)); }
        }
        r += n((long long)st.size()) + n(st.is_empty()) + " ";
    }
    for(int i = -1; i <= k.range; ++i) {
        auto *p = m.lookup(i);
        r += n(st.contains(i)) + (p ? s(*p) : "-");
    }
    return r;
}
static std::string trees(const Job &k) { return k.x & 1 ? trees_of<3>(k) : trees_of<11>(k); }

static std::string every_codepoint(uint32_t from, uint32_t to) {
    std::string r;
    for(uint32_t cp = from; cp < to; ++cp) {
        auto up = L::uppercase_unicode(cp), lo = L::lowercase_unicode(cp);
        for(auto *x : {&up, &lo}) {
            for(int i = 0; i < 3 && x->codepoints[i]; ++i)
                r += n(x->codepoints[i]) + ",";
            r += ";";
        }
    }
    return r;
}

static std::string algorithms(const Job &k) {
    std::string r;
    auto v = k.ints;
    int *b = v.data(), *e = b + v.size();
    const int x = (int)(k.x % 64);
    r += n(L::find(b, e, x) - b) + " " + n(L::find_if(b, e, [x](int i) { return i > x; }) - b) + " " + n(L::min_element(b, e) - b) + " ";
    auto small = v;
    if(small.size() > 60)
        small.resize(60);
    L::insertion_sort(small.data(), small.data() + small.size());
    for(int i : small)
        r += n(i) + ",";
    r += n(L::lower_bound(small.data(), small.data() + small.size(), x) - small.data()) + " ";
    r += n(L::partition(b, e, [x](int i) { return i < x; }) - b) + " ";
    std::sort(b, e);
    for(int i : v)
        r += n(i) + ",";
    if(v.size() > 1) {
        L::swap(v.front(), v.back());
        r += n(v.front()) + n(v.back());
    }
    int64_t lo = std::min(k.big[0], k.big[1]), hi = std::max(k.big[0], k.big[1]);
    r += n(L::clamp(k.big[2], lo, hi)) + " ";
    char buf[64];
    snprintf(buf, sizeof(buf), "%a ", L::clamp((double)k.big[2], (double)lo, (double)hi));
    r += buf;
    const int64_t step = (int64_t)(k.y % 7) + 1;
    L::Range g((int64_t)x - 30, (int64_t)k.ints.size(), step);
    while(auto o = g.next())
        r += n(*o) + ",";
    L::Range h((int64_t)k.y, (int64_t)k.x, 3);
    L::LoopView view(h);
    for(auto &&i : view)
        r += n(i) + ",";
    L::EnumerateView en(v);
    for(auto &&e : en)
        r += n((long long)e.i) + ":" + n(e.value) + ",";
    return r;
}

static void fmt_cb(const char *buf, size_t size, void *ctx) { ((std::string *)ctx)->append(buf, size); }
static void fmt(std::string *out, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    L::cformat_with_cb(fmt_cb, out, f, ap);
    va_end(ap);
}
static std::string formats(const Job &k) {
    std::string r = s(L::cformat("%d %s|%*d|%.3f|%lld", (int)k.x, k.a.c_str(), (int)(k.y % 2100), (int)k.big[0], (double)k.big[1], (long long)k.big[2]));
    L::CString t = c(k.b);
    L::format_append(t, "%s-%x", k.a.c_str(), (unsigned)k.x);
    r += s(t);
    std::string out;
    fmt(&out, "%0*d%s%%", (int)(k.y % 1500), 7, k.b.c_str());
    return r + out;
}

static std::string paths(const Job &k) {
    std::string r;
    L::Path p(k.a.c_str()), q(k.b.c_str());
    for(auto &[op, x] : k.steps) {
        switch(op % 6) {
        case 0: p = p / q; break;
        case 1: p = p / k.b.c_str(); break;
        case 2: p = q / c(k.a); break;
        case 3: p.replace_extension(x % 2 ? ".tar" : ""); break;
        case 4: p = p.filename(); break;
        default: q = L::Path(c(k.a + "/" + k.b));
        }
        if(p.size() > 2000)
            p = L::Path("/a/b.c");
        r += s(p) + n(p.is_abs()) + n(p.is_empty()) + s(p.extension()) + s(p.filename()) + list(p.split()) + ";";
    }
    return r;
}

static std::string files(const Job &k) {
    std::string r;
    auto look = [&](const std::string &name) {
        L::Path p(name.c_str());
        r += n(p.exists()) + n(p.is_file()) + n(p.is_dir());
        auto b = p.load_bytes();
        r += b ? std::string(b->data() ? b->data() : "", b->size()) : "none";
        auto u = p.load_text();
        r += u ? s(*u) : "none";
        if(p.is_file()) {
            L::File f(name.c_str(), "rb");
            for(auto &&line : f) {
                L::Bytes l(L::move(line));
                r += std::string(l.data() ? l.data() : "", l.size()) + "$";
            }
            if(!k.raw.empty()) {
                auto m = L::mmap_file(name.c_str());
                r += m ? std::string(mapped(*m).begin(), mapped(*m).size()) : "none";
            }
        }
    };
    look(k.file);
    look(k.file + ".absent");
    look(k.dir);
    L::Path moved((k.file + ".moved").c_str());
    r += n(L::Path(k.file.c_str()).rename_to(moved)) + n(moved.exists()) + n(L::Path(k.file.c_str()).exists());
    r += n(moved.rename_to(L::Path(k.file.c_str())));
    std::multiset<std::string> found;
    r += rej([&] {
        auto g = L::Path(k.dir.c_str()).glob(k.pattern.c_str());
        while(auto o = g.next())
            found.insert(s(*o));
        return std::string("glob");
    });
    for(auto &f : found)
        r += f + ",";
    return r;
}

static std::string regexes(const Job &k) {
    return rej([&] {
        L::U8Regex re{L::U8String(k.pattern.c_str())};
        L::U8String text(k.a.c_str());
        return rej([&] {
            auto m = L::regex_search(re, text);
            std::string r = n((long long)m.num_groups());
            for(size_t i = 0; i < 6; ++i)
                r += rej([&] { return s(m.get_submatch(i)); }) + rej([&] { return u8v(m.group(i)); });
            return r;
        });
    });
}

static std::string errors(const Job &k) {
    std::string r;
    try {
        throw L::PyException(k.raw.c_str());
    } catch(const OTHER::PyException &) {
        r = "the other year's exception";
    } catch(const L::PyException &e) {
        r = s(e.what());
    }
    L::PyException e(L::U8String(k.a.c_str()));
    L::PyException e2(e);
    return r + s(e.what()) + s(e2.what());
}

struct Shared {
    L::Mutex m;
    int counter = 0;
};
static void *thread_main(void *arg) {
    auto *sh = (Shared *)arg;
    for(int i = 0; i < 100; ++i) {
        L::LockGuard<L::Mutex> g(sh->m);
        ++sh->counter;
    }
    return nullptr;
}
static std::string threads(const Job &k) {
    Shared sh;
    {
        std::vector<std::unique_ptr<L::Thread>> ts;
        for(size_t i = 0; i < k.x % 4; ++i)
            ts.push_back(std::make_unique<L::Thread>(thread_main, &sh));
        for(auto &t : ts)
            t->join();
    }
    std::string r = n(sh.counter) + n(sh.m.try_lock());
    sh.m.unlock();
    return r;
}

using Probe = std::string (*)(const Job &);
static const Probe probes[] = {texts, unicode, bytes, sequences, holders, hashes, trees, algorithms, formats, paths, files, regexes, errors, threads};

// Included once per year inside a namespace of its own, with L naming the library namespace.
// One machine holding objects of that year; every operation tells what was observed.
static std::string s(const L::CString &x) { return std::string(x.c_str(), x.size()); }
static std::string s(const L::U8String &x) { return std::string(x.c_str(), x.size_bytes()); }
static std::string s(const L::Path &x) { return std::string(x.c_str(), x.size()); }
static std::string n(long long x) { return std::to_string(x); }
static L::CString c(const std::string &x) { return L::CString(x.c_str(), x.size()); }
template<typename V> static std::string list(const V &v) {
    std::string r = "[";
    for(size_t i = 0; i < v.size(); ++i)
        r += s(v[i]) + "|";
    return r + "]";
}
struct Machine final : ::Machine {
    L::CString text[3];
    L::U8String uni[3];
    L::Vector<L::CString> words;
    L::Vector<int> ints;
    L::HashMap<L::U8String, int> map;
    L::HashSet<L::U8String> set;
    L::BTreeSet<int, 5> tree;
    L::BTreeMap<int, int, 5> tmap;
    L::Bytes bytes;
    L::Optional<int> opt;
    L::Variant<int, L::CString, double> var;
    L::Path path;
    long long live_before = 0;

    std::string dump() override {
        std::string r;
        for(int i = 0; i < 3; ++i)
            r += s(text[i]) + "," + s(uni[i]) + ";";
        r += list(words) + " ";
        for(size_t i = 0; i < ints.size(); ++i)
            r += n(ints[i]) + ",";
        std::map<std::string, int> m;
        for(const auto &kv : map)
            m[s(*kv.key)] = *kv.value;
        for(auto &[k, v] : m)
            r += k + "=" + n(v) + ",";
        r += n((long long)map.size()) + " ";
        std::set<std::string> ks;
        for(const auto &k : set)
            ks.insert(s(k));
        for(auto &k : ks)
            r += k + ",";
        r += n((long long)set.size()) + " " + n((long long)tree.size()) + " ";
        for(int i = 0; i < 24; ++i) {
            r += tree.contains(i) ? "1" : "0";
            auto *v = tmap.lookup(i);
            r += v ? n(*v) : "-";
        }
        r += " " + std::string(bytes.data() ? bytes.data() : "", bytes.size()) + " ";
        r += opt ? n(opt.value()) : "none";
        if(auto *p = var.get_if<int>())
            r += " int " + n(*p);
        else if(auto *q = var.get_if<L::CString>())
            r += " str " + s(*q);
        else
            r += " dbl " + n((long long)var.get<double>());
        return r + " " + s(path) + " " + s(path.filename()) + " " + list(path.split()) + (path.is_abs() ? "abs" : "rel");
    }
    std::string op(int what, int i, int j, int x, int y, const std::string &w) override {
        auto &a = text[i], &b = text[j];
        auto &u = uni[i], &v = uni[j];
        const size_t n_words = words.size();
        switch(what) {
        case 0: a = c(w); return s(a);
        case 1: a += b; return s(a);
        case 2: a.append(w.c_str(), w.size()); return s(a);
        case 3: a.strip(); return s(a);
        case 4: return s(a.upper()) + s(a.lower());
        case 5: return n((long long)a.find(L::CStringView(w.c_str()))) + " " + n((long long)a.rfind(w.empty() ? 'a' : w[0]));
        case 6: words = a.split(); return list(words);
        case 7: words = a.split_by(w.empty() ? ' ' : w[0]); return list(words);
        case 8: return n(a == b) + n(a < b) + n(b < a) + n(a == w.c_str());
        case 9: {
            size_t from = a.size() ? (size_t)x % a.size() : 0, to = from + (a.size() - from) * (size_t)y / 100;
            a.remove(from, to);
            return s(a);
        }
        case 10: a.insert((size_t)x % (a.size() + 1), L::CStringView(w.c_str())); return s(a);
        case 11: return s(a.substr((size_t)x % (a.size() + 1), (size_t)y));
        case 12: u = L::U8String(w.c_str()); return s(u);
        case 13: u += v; return s(u);
        case 14: return s(u.upper()) + s(u.lower());
        case 15: {
            auto p = u.split_ascii();
            std::string r = list(p);
            if(!p.is_empty())
                u = L::U8String(L::U8String(w.c_str()).join(p));
            return r + s(u);
        }
        case 16: u.append_codepoint((uint32_t)(y % 3 == 0 ? 'a' + y : y % 3 == 1 ? 0x80 + y * 17 : 0x10000 + y * 300)); return s(u);
        case 17:
            if(!u.is_empty()) {
                if(y & 1)
                    u.pop_front();
                else
                    u.pop_back();
            }
            return s(u);
        case 18: return n(u == v) + n(u < v) + n(v.contains(u.view()));
        case 19: words.push_back(a); return n((long long)words.size());
        case 20:
            if(n_words) {
                auto &e = words[(size_t)x % n_words];
                words.push_back(e);
                return s(words.back());
            }
            return "";
        case 21:
            if(n_words)
                words.pop_back();
            return list(words);
        case 22: ints.push_back(x); ints.emplace_back(y); return n(ints.back());
        case 23: L::insertion_sort(L::Span<int>(ints.data(), ints.size())); return n((long long)ints.size());
        case 24: ints.clear(); words.clear(); return "";
        case 25: map.insert(u, x); return n((long long)map.size());
        case 26: map.remove(v); return n((long long)map.size());
        case 27: {
            auto *p = map.lookup(u);
            return p ? n(*p) : "absent";
        }
        case 28: set.insert(v); return n(set.contains(u));
        case 29: set.remove(u); return n(set.contains(v));
        case 30: tree.insert(x % 24); tmap.insert(x % 24, y); return n((long long)tree.size());
        case 31:
            if(tree.contains(y % 24)) {
                tree.remove(y % 24);
                tmap.remove(y % 24);
            }
            return n((long long)tree.size());
        case 32: bytes.append(w.data(), w.data() + w.size()); return n((long long)bytes.size());
        case 33:
            if(bytes.size())
                bytes.insert((size_t)x % bytes.size(), w.data(), w.size());
            return n((long long)bytes.size());
        case 34:
            if(bytes.size())
                bytes.pop_front((size_t)x % bytes.size() + 1);
            return n((long long)bytes.size());
        case 35:
            if(y & 1)
                opt = x;
            else
                opt.reset();
            return n((bool)opt);
        case 36:
            if(y % 3 == 0)
                var.insert(x);
            else if(y % 3 == 1)
                var.insert(L::CString(a));
            else
                var.insert((double)x);
            return n(var.index());
        case 37: path = path / w.c_str(); return s(path);
        case 38: path.replace_extension(".txt"); return s(path.extension());
        case 39: path = L::Path(w.c_str()); return s(path);
        case 40: { // a rejected operation
            const char *how = "accepted";
            try {
                switch(y % 6) {
                case 0: (void)words[n_words + (size_t)x]; break;
                case 1: (void)a.substr(a.size() + 1 + (size_t)x); break;
                case 2: (void)L::U8String("a\xff" "b"); break;
                case 3: var.get<L::CString>(); break;
                case 4: L::Vector<int>().pop_back(); break;
                case 5: L::Optional<int>().value(); break;
                }
            } catch(const L::PyException &) {
                how = "exception"; // the type may differ between years for the same operation
            } catch(const OTHER::PyException &) {
                how = "an exception of the other year";
            } catch(...) {
                how = "exception";
            }
            return how;
        }
        case 41: {
            L::Regex_type r(L::U8String("(a+)(b)?"));
            try {
                L::U8String t(a.c_str());
                auto m = L::regex_search(r, t);
                return s(m.get_submatch(0)) + "/" + s(m.get_submatch(1)) + "/" + s(m.get_submatch(2));
            } catch(const L::PyException &) {
                return "no match, or not UTF-8";
            }
        }
        case 42: {
            L::Range r((int64_t)x, (int64_t)(x + y % 10));
            std::string out;
            while(auto o = r.next())
                out += n(*o) + ",";
            return out;
        }
        default: return "";
        }
    }
};

// P15: settings trees (Argument::Object) against a reference tree.
#include "mc.h"
#include "argument/Object.h"
#include <limits>
#include <tuple>
using namespace SEMBA::Argument;
typedef Object::Type Ty;

struct M {                                        // reference tree
    enum K { Null, Dict, Arr, Val } k = Null;
    std::vector<std::pair<std::string, M>> d;
    std::vector<M> a;
    std::vector<std::string> v;
    M& at(const std::string& n) {
        if (k != Dict) { *this = M(); k = Dict; }
        for (auto& p : d) if (p.first == n) return p.second;
        d.push_back(std::make_pair(n, M()));
        return d.back().second;
    }
    M* find(const std::string& n) {
        if (k == Dict) for (auto& p : d) if (p.first == n) return &p.second;
        return nullptr;
    }
    void add(const M& x) { if (k != Arr) { M keep = x; *this = M(); k = Arr; a.push_back(keep); } else { M keep = x; a.push_back(keep); } }
    void erase(const std::string& n) {
        if (k != Dict) return;
        for (size_t i = 0; i < d.size(); i++) if (d[i].first == n && d[i].second.k != Null) { d.erase(d.begin() + i); return; }
    }
    void str(const std::string& s) { *this = M(); k = Val; v.assign(1, s); }
};
static M merge(const M& l, const M& r) {
    if (l.k == M::Null) return r;
    if (r.k == M::Null) return l;
    if (l.k == M::Dict && r.k == M::Dict) {
        M res; res.k = M::Dict;
        for (auto& p : l.d) {
            M x = p.second;
            for (auto& q : r.d) if (q.first == p.first) x = merge(p.second, q.second);
            res.at(p.first) = x;
        }
        for (auto& q : r.d) {
            M* e = res.find(q.first);
            if (!e) res.at(q.first) = q.second;
        }
        return res;
    }
    if (l.k == M::Dict) return l;
    return r;
}
static void show(std::ostream& o, const M& m) {
    if (m.k == M::Null) o << "null";
    if (m.k == M::Dict) { o << "{"; for (auto& p : m.d) { o << p.first << ":"; show(o, p.second); o << ","; } o << "}"; }
    if (m.k == M::Arr) { o << "["; for (auto& p : m.a) { show(o, p); o << ","; } o << "]"; }
    if (m.k == M::Val) { o << "("; for (auto& p : m.v) o << "'" << p << "'"; o << ")"; }
}
static void show(std::ostream& o, const Object& m) {
    switch (m.getType()) {
    case Ty::Null: o << "null"; break;
    case Ty::Dictionary:
        o << "{";
        for (size_t i = 0; i < m.size(); i++) {
            o << m.getName(i) << ":"; show(o, m(m.getName(i)));
            if (&m(m.getName(i)) != &m(i)) o << "<name and position differ>";
            if (m.existsName(m.getName(i)) == m(i).isNull()) o << "<existsName wrong>";
            o << ",";
        }
        o << "}"; break;
    case Ty::Array: o << "["; for (size_t i = 0; i < m.size(); i++) { show(o, m(i)); o << ","; } o << "]"; break;
    case Ty::String: o << "("; for (auto& s : m.getGenericString()) o << "'" << s << "'"; o << ")"; break;
    default: o << "?";
    }
}
template<typename T> std::string sh(const T& t) { std::ostringstream o; show(o, t); return o.str(); }

struct World { Object r, q; M mr, mq; };
struct Op { const char* name; void (*f)(World&); bool core; };
#define OP(name, core, ...) Op{name, [](World& w) { __VA_ARGS__ }, core}
static std::vector<Op> ops() {
    return {
        OP("r=str", true, w.r.setString("s"); w.mr.str("s");),
        OP("r.a=str", true, w.r("a").setString("s"); w.mr.at("a").str("s");),
        OP("r.b=int", true, w.r("b").setInt(7); w.mr.at("b").str("7");),
        OP("r.a.c=bool", true, w.r("a")("c").setTrue(); w.mr.at("a").at("c").str("1");),
        OP("r.b.c=int", false, w.r("b")("c").setInt(-1); w.mr.at("b").at("c").str("-1");),
        OP("touch r.a", false, w.r("a"); w.mr.at("a");),
        OP("r.a+=item", true, Object x; x.setInt(5); w.r("a").addValue(x); M m; m.str("5"); w.mr.at("a").add(m);),
        OP("r+=item", false, Object x; x.setString("i"); w.r.addValue(std::move(x)); M m; m.str("i"); w.mr.add(m);),
        OP("r.b+=copy of r.a", false, Object x = w.r("a"); w.r("b").addValue(x); M m = w.mr.at("a"); w.mr.at("b").add(m);),
        OP("r.a null", false, w.r("a").setNull(); w.mr.at("a") = M();),
        OP("r null", false, w.r.setNull(); w.mr = M();),
        OP("r.a dict", false, w.r("a").setObject(); if (w.mr.at("a").k != M::Dict) { w.mr.at("a") = M(); w.mr.at("a").k = M::Dict; }),
        OP("r.b array", false, w.r("b").setArray(); if (w.mr.at("b").k != M::Arr) { w.mr.at("b") = M(); w.mr.at("b").k = M::Arr; }),
        OP("erase a", true, w.r.eraseMember("a"); w.mr.erase("a");),
        OP("erase b", true, w.r.eraseMember("b"); w.mr.erase("b");),
        OP("erase a.c", false, if (w.r.existsName("a")) w.r("a").eraseMember("c"); if (M* m = w.mr.find("a")) m->erase("c");),
        OP("erase unknown", false, w.r.eraseMember("zz"); w.mr.erase("zz");),
        OP("r[0] erased", false, if (w.r.isArray() && w.r.size()) w.r.eraseValue(0); if (w.mr.k == M::Arr && w.mr.a.size()) w.mr.a.erase(w.mr.a.begin());),
        OP("r.a[last] erased", false, if (w.r.existsName("a") && w.r("a").isArray() && w.r("a").size()) w.r("a").eraseValue(w.r("a").size() - 1);
           M* m = w.mr.find("a"); if (m && m->k == M::Arr && m->a.size()) m->a.pop_back();),
        OP("r[0]=str", false, if (w.r.isArray() && w.r.size()) w.r(0).setString("n"); if (w.mr.k == M::Arr && w.mr.a.size()) w.mr.a[0].str("n");),
        OP("r.addMember(d,q)", false, w.r.addMember("d", w.q); w.mr.at("d") = w.mq;),
        OP("r.addMember(b,r.a)", true, w.r.addMember("b", w.r("a")); M m = w.mr.at("a"); w.mr.at("b") = m;),
        OP("r.addMember(e,move r.a)", false, Object x = std::move(w.r("a")); w.r("a").setNull(); w.r.addMember("e", std::move(x)); M m = w.mr.at("a"); w.mr.at("a") = M(); w.mr.at("e") = m;),
        OP("r=r.a", false, w.r("a"); w.r = w.r("a"); M m = w.mr.at("a"); w.mr = m;),
        OP("r=move r.a", false, w.r("a"); w.r = std::move(w.r("a")); M m = w.mr.at("a"); w.mr = m;),
        OP("r.a=r", false, w.r("a"); Object& a = w.r("a"); a = w.r; w.mr.at("a"); M m = w.mr; w.mr.at("a") = m;),
        OP("r=r", false, const Object& x = w.r; w.r = x;),
        OP("q=r", true, w.q = w.r; w.mq = w.mr;),
        OP("r=q", true, w.r = w.q; w.mr = w.mq;),
        OP("q=move r", false, w.q = std::move(w.r); w.r.setNull(); w.r = Object(); w.mq = w.mr; w.mr = M();),
        OP("q=Object(r)", false, Object x(w.r); w.q = Object(std::move(x)); w.mq = w.mr;),
        OP("r+=q", true, w.r += w.q; w.mr = merge(w.mr, w.mq);),
        OP("q=r+q", false, w.q = w.r + w.q; w.mq = merge(w.mr, w.mq);),
        OP("q.addValue(r)", false, w.q.addValue(w.r); w.mq.add(w.mr);),
        OP("q.a.c=two values", true, w.q("a")("c").set(1, "x"); M& m = w.mq.at("a").at("c"); m.str("1"); m.v.push_back("x");),
    };
}
static void compare(World& w) {
    const Object& r = w.r; const Object& q = w.q;
    std::string a = sh(r), b = sh(w.mr), c = sh(q), d = sh(w.mq);
    mc::state(a + "|" + c);
    MC_REQUIRE(a == b, "tree", "tree holds " << a << " expected " << b);
    MC_REQUIRE(c == d, "other-tree", "other tree holds " << c << " expected " << d);
    for (const char* n : {"a", "b", "c", "d", "e", "zz"}) {
        M* m = w.mr.find(n);
        MC_CHECK(r.existsName(n) == (m && m->k != M::Null), "exists", n);
        if (m) { MC_CHECK(sh(r(n)) == sh(*m), "by-name", n << " is " << sh(r(n)) << " expected " << sh(*m)); }
        else { MC_CHECK(MC_THROWS(r(n)), "absent-name", n); }
    }
    size_t sz = w.mr.k == M::Dict ? w.mr.d.size() : w.mr.k == M::Arr ? w.mr.a.size() : 0;
    MC_CHECK(r.size() == sz, "size", r.size());
    MC_CHECK(MC_THROWS(r(sz)), "past-the-end", "");
    MC_CHECK(r.isNull() == (w.mr.k == M::Null) && r.isObject() == (w.mr.k == M::Dict) && r.isArray() == (w.mr.k == M::Arr) && r.isString() == (w.mr.k == M::Val), "type", "");
}
static void histories() {
    const std::vector<Op> all = ops();
    std::vector<Op> core;
    for (auto& o : all) if (o.core) core.push_back(o);
    auto sweep = [](const std::vector<Op>& os, unsigned depth, const char* tag) {
        mc::sequences(os.size(), depth, [&](const std::vector<unsigned>& s) {
            mc::run([=] { std::string t = tag; for (unsigned i : s) t += std::string("; ") + os[i].name; return t; }, [&] {
                World w;
                for (unsigned i : s) { os[i].f(w); mc::step(); }
                compare(w);
                // the copies own their contents
                Object copy(w.r);
                w.r.setString("gone");
                MC_CHECK(sh(copy) == sh(w.mr), "copy", sh(copy) << " expected " << sh(w.mr));
                MC_CHECK(sh(w.q) == sh(w.mq), "copy-shares", sh(w.q) << " expected " << sh(w.mq));
            });
        });
    };
    for (unsigned d = 0; d <= 3; d++) sweep(all, d, "all operations");
    for (unsigned d = 4; d <= mc::pick(5u, 6u); d++) sweep(core, d, "core operations");
    if (mc::thorough()) sweep(all, 4, "all operations");
}

// ----------------------------------------------------------- values
template<typename T> void roundTrip(const std::string& name, const std::vector<T>& vals) {
    for (size_t i = 0; i < vals.size(); i++)
        mc::run([=] { return MC_STR("store " << name << " " << vals[i]); }, [&] {
            Object o; o.set(vals[i]);
            mc::step();
            MC_CHECK(o.is<T>(), "is-what-was-stored", "");
            MC_CHECK(o.get<T>() == vals[i], "value-read-back", "stored " << vals[i] << " read " << o.get<T>());
            Object p; p = vals[i];
            MC_CHECK(p.get<T>() == vals[i], "assigned-read-back", "");
            for (size_t j = 0; j < vals.size(); j++) {
                Object q; q.set(vals[i], vals[j]);
                std::pair<T, T> r = q.get<T, T>();
                MC_CHECK(r.first == vals[i] && r.second == vals[j], "pair-read-back", vals[j] << ": " << r.first << "," << r.second);
                q.set(vals[j], std::string("w"), vals[i]);
                std::tuple<T, std::string, T> t = q.get<T, std::string, T>();
                MC_CHECK(std::get<0>(t) == vals[j] && std::get<1>(t) == "w" && std::get<2>(t) == vals[i], "tuple-read-back", vals[j]);
                MC_CHECK((MC_THROWS(q.get<T, T>())), "too-few-types-accepted", "");
                MC_CHECK((MC_THROWS(q.get<T, std::string, T, T>())), "too-many-types-accepted", "");
            }
        });
}
// reference reading of a list of tokens
struct Tok { std::list<std::string> t; };
static bool blank(const std::string& s) { return s.find_first_not_of(' ') == std::string::npos; }
static std::string trim(const std::string& s) {
    size_t a = s.find_first_not_of(' '); if (a == std::string::npos) return "";
    return s.substr(a, s.find_last_not_of(' ') - a + 1);
}
static bool num(std::list<std::string>& l, bool real, double& out) {
    if (l.empty()) return false;
    std::string s = trim(l.front()); l.pop_front();
    size_t i = 0;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
    size_t d = i; while (d < s.size() && isdigit(s[d])) d++;
    if (real) { size_t e = d; if (e < s.size() && s[e] == '.') { e++; while (e < s.size() && isdigit(s[e])) e++; } if (e > i + (d == i)) d = e; }
    if (d == i) return false;
    out = atof(s.substr(0, d).c_str());
    std::string rest = trim(s.substr(d));
    if (!rest.empty()) l.push_front(rest);
    return true;
}
static bool one(std::list<std::string>& l, int type, std::string& out) {      // 0 int 1 real 2 string 3 bool
    if (type == 2) { if (l.empty()) return false; out = l.front(); l.pop_front(); return true; }
    double d; if (!num(l, type == 1, d)) return false;
    if (type == 3 && d != 0 && d != 1) return false;
    out = MC_STR(d); return true;
}
template<typename T> struct Id; template<> struct Id<int> { enum { v = 0 }; }; template<> struct Id<double> { enum { v = 1 }; };
template<> struct Id<std::string> { enum { v = 2 }; }; template<> struct Id<bool> { enum { v = 3 }; };
static bool ref(std::list<std::string> l, const std::vector<int>& types, std::string& out) {
    out = "";
    for (int t : types) { std::string s; if (!one(l, t, s)) return false; out += "<" + s + ">"; }
    return l.empty();
}
static bool refVec(std::list<std::string> l, int t, std::string& out) {
    out = "";
    while (!l.empty()) { std::string s; if (!one(l, t, s)) return false; out += "<" + s + ">"; }
    return true;
}
template<typename F> void reading(const Object& o, const char* what, bool ok, const std::string& want, bool isT, F get) {
    std::string got; bool threw = false;
    try { got = get(); } catch (const mc::CaseAbort&) { throw; } catch (const std::exception&) { threw = true; }
    mc::step();
    mc::outcome(threw ? "refused" : "read");
    MC_CHECK(threw == !ok, ok ? "readable-value-refused" : "unreadable-value-accepted", "as " << what << ": got " << got << ", expected " << (ok ? want : std::string("an error")));
    if (ok && !threw) MC_CHECK(got == want, "value-read", "as " << what << ": " << got << " expected " << want);
    MC_CHECK(isT == ok, "is-agrees-with-get", "as " << what << ": is<> says " << isT);
}
template<typename T> void scalar(const Object& o, const std::list<std::string>& l, const char* n) {
    std::string w; bool ok = ref(l, {Id<T>::v}, w);
    reading(o, n, ok, w, o.is<T>(), [&] { return MC_STR("<" << o.get<T>() << ">"); });
    ok = refVec(l, Id<T>::v, w);
    typedef std::vector<T> VT;
    reading(o, (std::string("list of ") + n).c_str(), ok, w, o.is<VT>(), [&] { VT v = o.get<VT>(); std::string r; for (auto x : v) r += MC_STR("<" << x << ">"); return r; });
}
template<typename A, typename B> void pair(const Object& o, const std::list<std::string>& l, const char* n) {
    std::string w; bool ok = ref(l, {Id<A>::v, Id<B>::v}, w);
    reading(o, n, ok, w, o.is<A, B>(), [&] { std::pair<A, B> p = o.get<A, B>(); return MC_STR("<" << p.first << "><" << p.second << ">"); });
}
static void values() {
    roundTrip<int>("int", {0, 1, -1, 7, 123456789, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()});
    roundTrip<double>("real", {0, 1, -1, 0.1, 1.0 / 3, -2.0 / 3, 3.14159265358979, 299792458.0, 8.8541878176e-12, 1e-300, 1e22, 123456789.123456789, 4503599627370497.5, 2.2250738585072014e-308});
    roundTrip<bool>("bool", {false, true});
    roundTrip<std::string>("string", {"a", "patata", "x-y", "1", "a.b"});
    roundTrip<long long>("long", {0, -5, 1ll << 40, std::numeric_limits<long long>::max()});
    roundTrip<unsigned long>("size", {0, 5, ~0ul});
    const std::vector<double> whole = {0, 1, -1, 2147483647.0, -2147483648.0};
    for (double v : whole) mc::run([=] { return MC_STR("whole number " << v); }, [&] {
        Object o; o.setInt((int)v);
        MC_CHECK(o.getInt() == (int)v && o.isInt() && o.isNumber() && o.isReal() && o.getReal() == v, "int-accessor", "");
        Object p; p.setReal(v);
        MC_CHECK(p.getReal() == v && p.isReal() && p.isNumber(), "real-accessor", "");
        MC_CHECK(p.getInt() == (int)v, "int-of-real", "");
        Object t; t.setReal(v * 4 + (v >= 0 ? 4294967296.0 : -4294967296.0));
        MC_CHECK(MC_THROWS(t.getInt()), "int-overflow", "");
    });
    mc::run([] { return "booleans"; }, [] {
        Object t, f; t.setTrue(); f.setFalse();
        MC_CHECK(t.getBool() && !f.getBool() && t.isBool() && f.isBool(), "bool-accessor", "");
        t.setBool(false); MC_CHECK(!t.getBool(), "bool-accessor", "");
    });
    mc::run([] { return "values of other kinds"; }, [] {
        for (int k = 0; k < 3; k++) {
            Object o; if (k == 1) o.setObject(); if (k == 2) o.setArray();
            MC_CHECK(MC_THROWS(o.getBool()) && MC_THROWS(o.getInt()) && MC_THROWS(o.getReal()) && MC_THROWS(o.get<std::string>()), "wrong-kind-read", k);
            MC_CHECK((MC_THROWS(o.get<int, int>())) && (MC_THROWS(o.get<int, int, int>())), "wrong-kind-read", k);
            MC_CHECK(!o.is<int>() && !o.is<std::string>() && !o.isNumber() && !o.isBool() && !o.isString(), "wrong-kind-is", k);
        }
    });
    std::vector<std::string> alpha = {"1", "-2", "0.5", "x", "1 2", "2x", "0", "1 x"};
    if (mc::thorough()) { alpha.push_back("-"); alpha.push_back("1 1"); alpha.push_back("x 1"); }
    for (unsigned n = 0; n <= 3; n++) mc::sequences(alpha.size(), n, [&](const std::vector<unsigned>& s) {
        std::list<std::string> l; for (unsigned i : s) l.push_back(alpha[i]);
        mc::run([=] { std::string t = "tokens"; for (auto& x : l) t += " '" + x + "'"; return t; }, [&] {
            Object o; o.setGenericString(l);
            std::string joined; for (auto& x : l) joined += (joined.empty() ? "" : " ") + x;
            MC_CHECK(o.getString() == joined && o.getGenericString() == l, "tokens-kept", o.getString());
            scalar<int>(o, l, "int"); scalar<double>(o, l, "real"); scalar<std::string>(o, l, "string"); 
            { std::string w; bool ok = ref(l, {3}, w); reading(o, "bool", ok, w, o.is<bool>(), [&] { return MC_STR("<" << o.get<bool>() << ">"); }); }
            pair<int, int>(o, l, "int,int"); pair<int, std::string>(o, l, "int,string"); pair<std::string, int>(o, l, "string,int"); pair<double, int>(o, l, "real,int");
            std::string w; bool ok = ref(l, {0, 1, 2}, w);
            reading(o, "int,real,string", ok, w, o.is<int, double, std::string>(), [&] { auto t = o.get<int, double, std::string>(); return MC_STR("<" << std::get<0>(t) << "><" << std::get<1>(t) << "><" << std::get<2>(t) << ">"); });
        });
    });
}
// trees of every size of a ladder: n members, n items, n levels, n tokens, texts of n characters
static void sizes() {
    std::vector<size_t> S; for (size_t n = 1; n <= 36; n++) S.push_back(n); for (size_t n : {64, 65, 100, 127, 128, 129, 200, 256, 257, 513}) S.push_back(n);
    for (size_t n : S) for (int k = 0; k < 4; k++) mc::run([=] { return MC_STR("settings of size " << n << " of kind " << k); }, [&] {
        auto name = [&](size_t i) { return k == 0 ? MC_STR("m" << i) : k == 1 ? MC_STR(std::string(i % 40 + 1, 'x') << i) : k == 2 ? MC_STR((i * 7) % 1024) : MC_STR("a b " << n - i); };
        World w; auto check = [&](const char* what) { mc::step(); std::string a = sh(w.r), b = sh(w.mr), c = sh(w.q), d = sh(w.mq); MC_REQUIRE(a == b && c == d, "tree", what << ": " << a << " expected " << b << "; " << c << " expected " << d); };
        for (size_t i = 0; i < n; i++) { w.r(name(i)).setInt(int(i) * 1001 - 7); w.mr.at(name(i)).str(MC_STR(int(i) * 1001 - 7)); if (n < 40 || i + 1 == n) check("members set"); }
        const Object& r = w.r; for (size_t i = 0; i < n; i++) { MC_CHECK(r.existsName(name(i)) && !r.existsName(name(i) + "?") && r(name(i)).getInt() == int(i) * 1001 - 7, "by-name", i); mc::step(); } MC_CHECK(r.size() == n && MC_THROWS(r(n)), "size", r.size());
        Object copy(w.r); w.q = w.r; w.mq = w.mr; for (size_t i = 0; i < n; i += 2) { w.q(name(i)).setString("other"); w.mq.at(name(i)).str("other"); w.q(name(i) + "+").setTrue(); w.mq.at(name(i) + "+").str("1"); } check("copy changed");
        { Object s = w.r + w.q; M m = merge(w.mr, w.mq); mc::step(); MC_CHECK(sh(s) == sh(m), "tree", "sum of trees"); s += w.r; m = merge(m, w.mr); MC_CHECK(sh(s) == sh(m), "tree", "sum of sums"); check("operands"); }
        for (size_t i = 0; i < n; i++) if (i % 3 != 1) { w.r.eraseMember(name(i)); w.mr.erase(name(i)); } check("members erased"); w.r.eraseMember(name(0)); check("member erased again"); MC_CHECK(sh(copy) != sh(w.r) && copy.size() == n, "copy", "");
        w.r("list"); w.mr.at("list"); for (size_t i = 0; i < n; i++) { Object x; if (k % 2) x.setReal(i * 0.5); else x("v").setInt(int(i)); M m; if (k % 2) m.str(MC_STR(i * 0.5)); else m.at("v").str(MC_STR(i)); if (i % 2) w.r("list").addValue(x); else w.r("list").addValue(std::move(x)); w.mr.at("list").add(m); } check("items added");
        for (size_t i = n; i-- > 0;) if (i % 4 == size_t(k)) { w.r("list").eraseValue(i); M* m = w.mr.find("list"); m->a.erase(m->a.begin() + i); } check("items erased"); MC_CHECK(MC_THROWS(w.r("list")(n)), "past-the-end", "");
        { Object* o = &w.q; M* m = &w.mq; for (size_t i = 0; i < std::min<size_t>(n, 260); i++) { o = &(*o)(k % 2 ? "in" : name(i)); m = &m->at(k % 2 ? "in" : name(i)); } o->setString("deep"); m->str("deep"); check("levels"); Object c = w.q, e; e = std::move(c); MC_CHECK(sh(e) == sh(w.mq), "copy", "of levels"); e = Object(); w.q.setNull(); w.mq = M(); check("levels removed"); }
        { std::string t; for (size_t i = 0; i < n; i++) t += char('a' + (i * 3 + k) % 26); Object o; o.setString(t); mc::step(); MC_CHECK(o.getString() == t && o.get<std::string>() == t, "text", t); std::list<std::string> l; for (size_t i = 0; i < n; i++) l.push_back(k % 2 ? MC_STR(i) : t.substr(0, i % 9 + 1)); Object g; g.setGenericString(l); MC_CHECK(g.getGenericString() == l, "tokens-kept", n); typedef std::vector<std::string> VS; typedef std::vector<int> VI; VS vs = g.get<VS>(); MC_CHECK(std::list<std::string>(vs.begin(), vs.end()) == l, "value-read", "list of strings"); if (k % 2) { VI vi = g.get<VI>(); MC_REQUIRE(vi.size() == n, "value-read", "list of int"); for (size_t i = 0; i < n; i++) MC_CHECK(vi[i] == int(i), "value-read", i); } else MC_CHECK(!g.is<VI>() && MC_THROWS(g.get<VI>()), "unreadable-value-accepted", "list of int"); }
        { long long v = 1; for (size_t i = 0; i < n % 63; i++) v *= 2; for (long long x : {v, v - 1, -v, v + 1}) { Object o; o.set(x); mc::step(); MC_CHECK(o.get<long long>() == x, "value-read-back", x); double y = std::ldexp(1. / 3, int(n) - 256 + k); o.set(y); MC_CHECK(o.get<double>() == y && o.getReal() == y, "value-read-back", y); } }
        mc::outcome("sizes"); mc::state(MC_STR("size " << n << k));
    });
}
static void body() { sizes(); values(); histories(); }
int main(int c, char** v) { return mc::main_(c, v, body); }

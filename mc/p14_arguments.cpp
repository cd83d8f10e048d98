// P14: command lines (Argument::Parser) against a reference parser.
#include "mc.h"
#include "argument/Parser.h"
#include "argument/Switch.h"
#include "argument/MultiSwitch.h"
#include "argument/Option.h"
#include "argument/MultiOption.h"
#include "argument/Position.h"
#include "argument/MultiPosition.h"
#include "argument/MutuallyExclusiveGroup.h"
using namespace SEMBA::Argument;
typedef std::vector<std::string> Line;

enum Kind { SW, MSW, OPT, MOPT, POS, MPOS };
struct Item {
    Kind k; std::string name; char sh; std::string lg;   // sh 0 / lg "" when absent
    std::string type;                                    // i, r, s, is, vi
    bool req = false, hasDef = false;
    std::list<std::string> def;
    std::vector<std::list<std::string>> choices;
    int group = 0;                                       // 0 root, 1 named group, 2 exclusive, 3 required exclusive, 4 exclusive in the named group
    std::string help;
    Item(Kind k, std::string n, char s = 0, std::string l = "", std::string t = "i") : k(k), name(n), sh(s), lg(l), type(t) {}
    Item& required() { req = true; return *this; }
    Item& dflt(std::list<std::string> d) { hasDef = true; def = d; return *this; }
    Item& choose(std::vector<std::list<std::string>> c) { choices = c; return *this; }
    Item& in(int g) { group = g; return *this; }
    Item& says(std::string h) { help = h; return *this; }
    bool pos() const { return k == POS || k == MPOS; }
    std::string key() const { return sh ? std::string(1, sh) : lg; }
};
struct Decl { std::string title; std::vector<Item> items; bool abbrev = true; Line tokens; };

// ------------------------------------------------------- the real parser
template<typename A> void common(A* a, const Item& i) {
    if (i.req && !i.pos()) a->Argument::required();
    if (!i.help.empty()) a->Argument::help(i.help);
    if (i.hasDef) a->Argument::defaultVal(i.def);
    if (!i.choices.empty()) a->Argument::choices(i.choices);
}
template<template<typename...> class O> OptionBase* mk(const Item& i) {
#define MKO(...) { O<__VA_ARGS__>* o = i.name == i.lg ? (i.sh ? new O<__VA_ARGS__>(i.sh, i.lg) : new O<__VA_ARGS__>(i.name)) : i.sh && i.lg.size() ? new O<__VA_ARGS__>(i.name, i.sh, i.lg) : i.sh ? new O<__VA_ARGS__>(i.name, i.sh) : new O<__VA_ARGS__>(i.name, i.lg); common(o, i); return o; }
    if (i.type == "i") MKO(int)
    if (i.type == "r") MKO(double)
    if (i.type == "s") MKO(std::string)
    if (i.type == "is") MKO(int, std::string)
    MKO(std::vector<int>)
}
template<template<typename...> class O> PositionBase* mkp(const Item& i) {
#define MKP(...) { O<__VA_ARGS__>* o = new O<__VA_ARGS__>(i.name); common(o, i); return o; }
    if (i.type == "i") MKP(int)
    if (i.type == "s") MKP(std::string)
    if (i.type == "is") MKP(int, std::string)
    MKP(std::vector<int>)
}
static OptionBase* mkOption(const Item& i) {
    if (i.k == SW) {
        Switch* s = i.name == i.lg ? (i.sh ? new Switch(i.sh, i.lg) : new Switch(i.name)) : i.sh && i.lg.size() ? new Switch(i.name, i.sh, i.lg) : i.sh ? new Switch(i.name, i.sh) : new Switch(i.name, i.lg);
        if (i.req) s->required();
        if (i.hasDef) s->defaultVal(i.def.front() == "1");
        if (!i.help.empty()) s->help(i.help);
        return s;
    }
    if (i.k == MSW) {
        MultiSwitch* s = i.name == i.lg ? (i.sh ? new MultiSwitch(i.sh, i.lg) : new MultiSwitch(i.name)) : i.sh && i.lg.size() ? new MultiSwitch(i.name, i.sh, i.lg) : i.sh ? new MultiSwitch(i.name, i.sh) : new MultiSwitch(i.name, i.lg);
        if (i.req) s->required();
        if (i.hasDef) s->defaultVal(atoi(i.def.front().c_str()));
        if (!i.help.empty()) s->help(i.help);
        return s;
    }
    return i.k == OPT ? mk<Option>(i) : mk<MultiOption>(i);
}
struct Real {
    Parser p;
    Group* g = nullptr; GroupBase *me = nullptr, *rme = nullptr, *gme = nullptr;
    GroupBase& group(int k) {
        if (k == 1 || k == 4) if (!g) g = &p.addGroup("grp");
        if (k == 2 && !me) me = &p.addMutuallyExclusiveGroup();
        if (k == 3 && !rme) { rme = &p.addMutuallyExclusiveGroup(); rme->required(); }
        if (k == 4 && !gme) gme = &g->addMutuallyExclusiveGroup();
        return k == 0 ? (GroupBase&)p : k == 1 ? *g : k == 2 ? *me : k == 3 ? *rme : *gme;
    }
    void add(const Item& i) {
        GroupBase& t = group(i.group);
        if (i.pos()) t.addPosition(i.k == POS ? mkp<Position>(i) : mkp<MultiPosition>(i));
        else t.addOption(mkOption(i));
    }
    Real(const Decl& d) { p.allowAbbrev(d.abbrev); for (auto& i : d.items) add(i); }
};
static void show(std::ostream& o, const Object& m) {
    switch (m.getType()) {
    case Object::Type::Null: o << "null"; break;
    case Object::Type::Dictionary: {
        std::set<std::string> n; for (size_t i = 0; i < m.size(); i++) n.insert(m.getName(i));
        o << "{"; for (auto& x : n) { o << x << ":"; show(o, m(x)); o << ","; } o << "}"; break; }
    case Object::Type::Array: o << "["; for (size_t i = 0; i < m.size(); i++) { show(o, m(i)); o << ","; } o << "]"; break;
    default: o << "("; for (auto& s : m.getGenericString()) o << "'" << s << "'"; o << ")";
    }
}
static std::string join(const Line& l) { std::string r; for (auto& x : l) r += (r.empty() ? "" : " ") + x; return r; }
static std::string realParse(Parser& p, const Line& l) {
    Line a = {"/some/dir/EXEC"}; a.insert(a.end(), l.begin(), l.end());
    try {
        std::pair<Object, Line> r = p.parseKnownArgs(a);
        std::ostringstream o; show(o, r.first);
        MC_CHECK(r.second.size() && r.second[0] == "EXEC", "program-name", join(r.second));
        r.second.erase(r.second.begin());
        return o.str() + " rest: " + join(r.second);
    } catch (const std::exception&) { return "refused"; }
}
// ---------------------------------------------------- reference parser
struct Bad {};
typedef std::map<std::string, std::string> Tree;            // member -> rendering
static bool number(std::list<std::string>& l, bool real, std::string& used) {
    if (l.empty()) return false;
    std::string s = l.front(); l.pop_front();
    size_t i = 0;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
    size_t d = i; while (d < s.size() && isdigit(s[d])) d++;
    if (real && d < s.size() && s[d] == '.') { d++; while (d < s.size() && isdigit(s[d])) d++; }
    if (d == i) return false;
    used = s.substr(0, d);
    if (d < s.size()) l.push_front(s.substr(d));
    return true;
}
static std::string take(const Item& i, std::list<std::string>& l) {
    std::list<std::string> used; std::string u;
    if (i.type == "vi") {
        while (!l.empty()) { std::list<std::string> t = l; if (!number(t, false, u)) break; used.push_back(u); l = t; }
    } else for (char c : i.type) {
        if (l.empty()) throw Bad();
        if (c == 's') { used.push_back(l.front()); l.pop_front(); }
        else { if (!number(l, c == 'r', u)) throw Bad(); used.push_back(u); }
    }
    if (!i.choices.empty()) {
        bool ok = false;
        for (auto& c : i.choices) {
            if (c.size() != used.size()) continue;
            bool all = true; auto b = used.begin();
            for (auto a = c.begin(); a != c.end(); ++a, ++b) if (*a != *b && *a != "*") all = false;
            ok = ok || all;
        }
        if (!ok) throw Bad();
    }
    std::string r = "("; for (auto& x : used) r += "'" + x + "'";
    return r + ")";
}
static std::string refParse(const Decl& d, const Line& l) {
    if (l.empty()) return "refused";
    std::map<std::string, const Item*> byKey; std::map<char, const Item*> bySh; std::map<std::string, const Item*> byLg;
    std::vector<const Item*> pos;
    for (auto& i : d.items) if (i.pos()) pos.push_back(&i); else {
        byKey[i.key()] = &i; if (i.sh) bySh[i.sh] = &i; if (i.lg.size()) byLg[i.lg] = &i;
    }
    auto kind = [](const std::string& a) {                  // 0 positional 1 short 2 long
        if (a.size() >= 2 && a[0] == '-' && isalpha(a[1])) return 1;
        if (a.size() >= 4 && a[0] == '-' && a[1] == '-' && isalpha(a[2]) && isalpha(a[3])) return 2;
        return 0;
    };
    struct Use { const Item* it; std::list<std::string> vals; };
    std::vector<Use> uses; Line unknown; std::list<std::string> beg, end;
    size_t sep = std::find(l.begin(), l.end(), "--") - l.begin(), n = 0;
    std::map<std::string, std::pair<Tree, Tree>> dummy;
    try {
        while (n < sep && kind(l[n]) == 0) beg.push_back(l[n++]);
        while (n < sep) {
            const std::string& a = l[n];
            size_t first = uses.size();
            if (kind(a) == 1) {
                size_t i = 1;
                while (i < a.size()) {
                    size_t j = i + 1; while (j < a.size() && !bySh.count(a[j])) j++;
                    if (bySh.count(a[i])) { Use u{bySh[a[i]], {}}; if (j > i + 1) u.vals.push_back(a.substr(i + 1, j - i - 1)); uses.push_back(u); }
                    else unknown.push_back("-" + a.substr(i, j - i));
                    i = j;
                }
            } else {
                size_t eq = a.find('=');
                std::string nm = a.substr(2, eq == std::string::npos ? eq : eq - 2), val = eq == std::string::npos ? "" : a.substr(eq + 1);
                std::vector<const Item*> c;
                if (byLg.count(nm)) c.push_back(byLg[nm]);
                else if (d.abbrev) for (auto& p : byLg) if (p.first.compare(0, nm.size(), nm) == 0) c.push_back(p.second);
                if (c.size() > 1) throw Bad();
                if (c.size() == 1) { Use u{c[0], {}}; if (!val.empty()) u.vals.push_back(val); uses.push_back(u); }
                else { unknown.push_back("--" + nm); if (!val.empty()) unknown.push_back(val); }
            }
            for (n++; n < sep && kind(l[n]) == 0; n++)
                if (uses.size() == first) unknown.push_back(l[n]); else uses.back().vals.push_back(l[n]);
        }
        for (size_t i = sep + 1; i < l.size(); i++) end.push_back(l[i]);
        // options
        std::map<std::string, std::string> val; std::map<std::string, std::vector<std::string>> multi; std::set<std::string> seen;
        for (auto& u : uses) {
            const Item& i = *u.it; std::string k = i.key();
            bool again = !seen.insert(k).second;
            if (again && (i.k == SW || i.k == OPT)) throw Bad();
            if (i.k == SW) val[k] = i.hasDef && i.def.front() == "1" ? "('0')" : "('1')";
            if (i.k == MSW) multi[k].push_back("");
            if (i.k == OPT) val[k] = take(i, u.vals);
            if (i.k == MOPT) multi[k].push_back(take(i, u.vals));
        }
        std::list<std::string> ps = beg;
        for (auto& u : uses) ps.insert(ps.end(), u.vals.begin(), u.vals.end());
        ps.insert(ps.end(), end.begin(), end.end());
        std::set<const Item*> posSeen;
        std::map<const Item*, std::string> pval;
        for (auto p : pos) {
            if (ps.empty()) break;
            posSeen.insert(p);
            if (p->k == POS) pval[p] = take(*p, ps);
            else { std::string s = "["; do s += take(*p, ps) + ","; while (!ps.empty()); pval[p] = s + "]"; }
        }
        // result
        std::map<int, Tree> tree; std::map<int, unsigned> excl; std::set<int> groups;
        for (auto& i : d.items) {
            groups.insert(i.group);
            bool there = i.pos() ? posSeen.count(&i) : seen.count(i.key());
            int t = i.group == 1 || i.group == 4 ? 1 : 0;
            if (there) {
                if (i.group >= 2) excl[i.group]++;
                std::string v;
                if (i.pos()) v = pval[&i];
                else if (i.k == MSW) v = MC_STR("('" << (i.hasDef ? atoi(i.def.front().c_str()) : 0) + multi[i.key()].size() << "')");
                else if (i.k == MOPT) { v = "["; for (auto& x : multi[i.key()]) v += x + ","; v += "]"; }
                else v = val[i.key()];
                tree[t][i.name] = v;
            } else if (i.group < 2) {
                if (i.hasDef) {
                    std::string v = "("; for (auto& x : i.def) v += "'" + x + "'";
                    tree[t][i.name] = v + ")";
                } else if (i.req || i.pos()) throw Bad();
            }
        }
        for (auto& e : excl) if (e.second > 1) throw Bad();
        if (groups.count(3) && !excl[3]) throw Bad();
        if (groups.count(1) || groups.count(4)) {
            std::string s = "{"; for (auto& p : tree[1]) s += p.first + ":" + p.second + ",";
            tree[0]["grp"] = s + "}";
        }
        std::string s = "{"; for (auto& p : tree[0]) s += p.first + ":" + p.second + ",";
        s += "}";
        if (!ps.empty()) { unknown.push_back("--"); unknown.insert(unknown.end(), ps.begin(), ps.end()); }
        return s + " rest: " + join(unknown);
    } catch (const Bad&) { return "refused"; }
}

static std::vector<Decl> decls() {
    std::vector<Decl> r;
    auto D = [&](std::string t, std::vector<Item> i, Line tk, bool ab = true) { Decl d; d.title = t; d.items = i; d.tokens = tk; d.abbrev = ab; r.push_back(d); };
    D("one switch", {Item(SW, "S", 's', "swit").says("a switch of ${PROG}")}, {"-s", "-ss", "--swit", "--sw", "--other", "-z", "-zs", "-sz", "1", "--", "-", "-5", "--swit=1", "--s1", "--1s"});
    D("switch off by default, switch on by default", {Item(SW, "S", 's', "swit").dflt({"0"}), Item(SW, "T", 't', "").dflt({"1"})}, {"-s", "-t", "-st", "-ts", "--swit", "--swi", "x", "--", "-stt", "-u"});
    D("required switch, counted switch", {Item(SW, "S", 's', "").required(), Item(MSW, "V", 'v', "verbose")}, {"-s", "-v", "-vv", "-svv", "--verbose", "--verb", "x", "--"});
    D("counted switch from three", {Item(MSW, "V", 'v', "verbose").dflt({"3"}), Item(POS, "p", 0, "", "s").dflt({"dd"})}, {"-v", "-vv", "--verbose", "--v", "--ve", "x", "--", "-w"});
    D("number option", {Item(OPT, "N", 'n', "num").says("default ${DEFAULT} of ${CHOICES} end"), Item(SW, "S", 's', "")}, {"-n", "3", "-n3", "-sn4", "-ns", "--num", "--num=5", "--nu=6", "x", "-s", "-5", "1x", "--", "--num=", "--n3"});
    D("required number option and default text", {Item(OPT, "N", 'n', "num").required(), Item(OPT, "O", 0, "out", "s").dflt({"file"})}, {"-n", "3", "-n3", "--num=5", "--out", "--out=a=b", "x", "--", "-x", "--o"});
    D("choices", {Item(OPT, "C", 'c', "col", "s").choose({{"red"}, {"blue"}}).says("one of ${CHOICES}, else ${DEFAULT}").dflt({"red"}), Item(OPT, "P", 'p', "pair", "is").choose({{"1", "*"}, {"2", "x"}})},
      {"-c", "red", "blue", "green", "-p", "1", "2", "x", "--col=red", "-p1", "--"});
    D("pair, many and list", {Item(OPT, "P", 'p', "pair", "is"), Item(MOPT, "M", 'm', "mult"), Item(OPT, "L", 'l', "list", "vi")},
      {"-p", "-m", "-l", "1", "2", "x", "3y", "-m7", "--mult=8", "--", "-ml"});
    D("ambiguous long names", {Item(SW, "A", 0, "output"), Item(SW, "B", 0, "outer"), Item(OPT, "C", 0, "out", "s"), Item(SW, "D", 'd', "delta")},
      {"--output", "--outer", "--out", "--ou", "--oute", "--outp", "--outers", "--del", "-d", "v", "--out=w", "--"});
    D("no abbreviations", {Item(SW, "A", 0, "output"), Item(OPT, "C", 'c', "config", "s")}, {"--output", "--out", "--config", "--conf=x", "--config=x", "-c", "-cx", "v", "--"}, false);
    D("positions", {Item(POS, "a", 0, "", "s").says("first of ${PROG}"), Item(POS, "b", 0, "", "i"), Item(SW, "S", 's', "")}, {"x", "1", "2", "-s", "--", "-5", "1x", "-z", "--unk", "--s"});
    D("positions with defaults and rest", {Item(POS, "a", 0, "", "i"), Item(POS, "b", 0, "", "is").dflt({"9", "nine"}), Item(OPT, "N", 'n', "num")}, {"1", "2", "x", "-n", "-n3", "--", "3z", "-z"});
    D("many positions", {Item(POS, "a", 0, "", "s"), Item(MPOS, "b", 0, "", "i"), Item(SW, "S", 's', "")}, {"x", "1", "2", "-s", "--", "y"});
    D("list position", {Item(POS, "a", 0, "", "vi"), Item(POS, "c", 0, "", "s").dflt({"none"}), Item(SW, "S", 's', "")}, {"x", "1", "2", "-s", "--", "3y"});
    D("exclusive", {Item(SW, "X", 'x', "xx").in(2), Item(OPT, "Y", 'y', "yy").in(2), Item(SW, "S", 's', "")}, {"-x", "-y", "-y1", "-xy", "1", "-s", "--xx", "--yy=4", "--"});
    D("required exclusive", {Item(SW, "X", 'x', "").in(3), Item(SW, "Y", 'y', "").in(3), Item(POS, "p", 0, "", "s").in(3), Item(SW, "S", 's', "").dflt({"0"})}, {"-x", "-y", "-xy", "v", "-s", "-sx", "--"});
    D("named group", {Item(SW, "S", 's', ""), Item(OPT, "G", 'g', "gopt").in(1).dflt({"4"}), Item(POS, "p", 0, "", "s").in(1), Item(POS, "q", 0, "", "i").dflt({"0"}), Item(SW, "X", 'x', "").in(4), Item(SW, "Y", 'y', "yy").in(4)},
      {"-s", "-g", "-g5", "--gopt=6", "--go", "v", "7", "-x", "-y", "--"});
    D("same names in group and root", {Item(SW, "S", 's', ""), Item(SW, "S", 't', "").in(1), Item(OPT, "T", 'u', "", "r").in(1).required()}, {"-s", "-t", "-u", "-u1.5", "-stu2", "3", "1.5.2", "--"});
    D("named by their long ids", {Item(SW, "swit", 0, "swit"), Item(SW, "turn", 't', "turn"), Item(MSW, "verb", 0, "verb"), Item(MSW, "warn", 'w', "warn"), Item(OPT, "num", 'n', "num"), Item(OPT, "out", 0, "out", "s"), Item(MOPT, "many", 0, "many"), Item(MOPT, "pile", 'p', "pile", "is")},
      {"--swit", "--turn", "-t", "--verb", "--warn", "-ww", "-n", "--num", "--out=a", "--many", "-p", "--pile", "3", "x"});
    return r;
}
static void lines() {
    for (const Decl& d : decls()) {
        const unsigned depth = mc::pick(3u, 4u);
        for (unsigned n = 0; n <= depth; n++) mc::sequences(d.tokens.size(), n, [&](const std::vector<unsigned>& s) {
            Line l; for (unsigned i : s) l.push_back(d.tokens[i]);
            mc::run([=] { return d.title + ": " + join(l); }, [&] {
                std::string want = refParse(d, l);
                Real r(d);
                std::string got = realParse(r.p, l);
                mc::step(); mc::state(d.title + got);
                mc::outcome(got == "refused" ? "refused" : "parsed");
                MC_REQUIRE(got == want, want == "refused" ? "accepted-but-should-refuse" : got == "refused" ? "refused-but-valid" : "result", "got " << got << " expected " << want);
                std::string again = realParse(r.p, l);
                MC_CHECK(again == want, "again", "second time " << again << " expected " << want);
                // parse() refuses exactly what leaves something over
                Line a = {"EXEC"}; a.insert(a.end(), l.begin(), l.end());
                std::string strict = "refused";
                try { std::ostringstream o; show(o, r.p.parse(a)); strict = o.str() + " rest: "; } catch (const std::exception&) {}
                bool whole = want != "refused" && want.size() >= 7 && want.substr(want.size() - 7) == " rest: ";
                MC_CHECK(strict == (whole ? want : std::string("refused")), "strict", "parse(): " << strict << " expected " << (whole ? want : std::string("refused")));
                // the line as the program gets it, and with the other of two prefixes
                { std::vector<const char*> c; for (auto& x : a) c.push_back(x.c_str());
                  const int n = int(c.size()); c.push_back(nullptr); const char** argv = c.data();
                  std::string g = "refused", h = "refused";
                  try { std::ostringstream o; auto k = r.p.parseKnownArgs(n, argv); show(o, k.first); k.second.erase(k.second.begin()); g = o.str() + " rest: " + join(k.second); } catch (const std::exception&) {}
                  try { std::ostringstream o; show(o, r.p.parse(n, argv)); h = o.str() + " rest: "; } catch (const std::exception&) {}
                  MC_CHECK(g == want && h == strict, "counted-arguments", "got " << g << " and " << h << " expected " << want);
                  Real q(d); q.p.prefixChars("-+");
                  Line m = l; for (auto& x : m) if (x.size() > 1 && x[0] == '-' && !isdigit(x[1])) { x[0] = '+'; if (x[1] == '-') x[1] = '+'; }
                  MC_CHECK(realParse(q.p, l) == want, "two-prefixes", "");
                  std::string b = realParse(q.p, m);
                  // what is not an option may stay as written
                  std::string bb = b, ww = want; for (auto* t : {&bb, &ww}) for (auto& ch : *t) if (ch == '+') ch = '-';
                  MC_CHECK(bb == ww, "other-prefix", join(m) << ": got " << b << " expected " << want); }
                // other lines afterwards, one token each and two
                for (size_t i = 0; i < d.tokens.size(); i++) {
                    Line o = {d.tokens[i]}; if (i % 2) o.push_back(d.tokens[(i * 3 + 1) % d.tokens.size()]);
                    std::string w = refParse(d, o), g = realParse(r.p, o);
                    mc::step();
                    MC_CHECK(g == w, "after-another-line", "then " << join(o) << ": got " << g << " expected " << w);
                }
            });
        });
    }
}
// refused declarations leave the parser as it was
static void declarations() {
    for (const Decl& d : decls()) for (int kind = 0; kind < 5; kind++) for (size_t at = 0; at < d.items.size(); at++) for (int grp = 0; grp < 2; grp++) {
        const Item& o = d.items[at];
        if (kind == 1 && !o.sh) continue;
        if (kind == 2 && o.lg.empty()) continue;
        if (kind == 3 && o.pos() && grp) continue;
        if (kind == 4 && grp) continue;
        mc::run([=] { return d.title + ": declare again " + (kind == 0 ? "the name" : kind == 1 ? "the short id" : kind == 2 ? "the long id" : kind == 3 ? "name as a position" : "a null argument") + " of " + o.name + (grp ? " in the group" : ""); }, [&] {
            Real r(d);
            Item dup(SW, "new", 'Q', "quark");
            int to = grp ? 1 : 0;
            bool clash = true;
            bool sameScope = (o.group == 0 || o.group == 2 || o.group == 3) ? to == 0 : to == 1;
            if (kind == 0) { dup.name = o.name; clash = sameScope; }
            if (kind == 1) dup.sh = o.sh;
            if (kind == 2) dup.lg = o.lg;
            if (kind == 3) { dup = Item(POS, o.name, 0, "", "s"); clash = sameScope; }
            if (!clash) return;
            dup.group = to;
            if (to == 1) { bool has = false; for (auto& i : d.items) has = has || i.group == 1 || i.group == 4; if (!has) return; }
            bool threw = kind == 4 ? MC_THROWS(r.p.addOption(nullptr)) && MC_THROWS(r.p.addPosition(nullptr)) : MC_THROWS(r.add(dup));
            mc::step();
            MC_REQUIRE(threw, "duplicate-accepted", "");
            for (unsigned n = 1; n <= 2; n++) mc::sequences(d.tokens.size(), n, [&](const std::vector<unsigned>& s) {
                Line l; for (unsigned i : s) l.push_back(d.tokens[i]);
                if (n == 2 && (s[0] + s[1]) % 3) return;
                std::string w = refParse(d, l), g = realParse(r.p, l);
                mc::step();
                MC_CHECK(g == w, "refused-declaration-left-traces", "line " << join(l) << ": got " << g << " expected " << w);
            });
            // and something new can still be declared
            Decl e = d; e.items.push_back(Item(SW, "new", 'Q', "quark")); 
            r.add(e.items.back());
            Line l = {"-Q"};
            std::string w = refParse(e, l), g = realParse(r.p, l);
            MC_CHECK(g == w, "declaration-after-refusal", "got " << g << " expected " << w);
            // the identifiers of the refused one are still declared once
            if (kind != 4) MC_CHECK(MC_THROWS(r.add(dup)), "duplicate-accepted-later", "");
        });
    }
    // identifiers that are none
    mc::run([] { return "options without a valid identifier"; }, [] {
        MC_CHECK(MC_THROWS(delete new Switch("n", '1')), "bad-identifier-accepted", "digit");
        MC_CHECK(MC_THROWS(delete new Switch("n", std::string("x"))), "bad-identifier-accepted", "one letter long");
        MC_CHECK(MC_THROWS(delete new Switch("n", std::string("1x"))), "bad-identifier-accepted", "digit first");
        MC_CHECK(MC_THROWS(delete new Option<int>("n", std::string(""))), "bad-identifier-accepted", "empty");
    });
}
static std::string words(const std::string& s) { std::istringstream i(s); std::string w, r; while (i >> w) r += w + " "; return r; }
static std::string capture(const std::function<void()>& f) {
    std::ostringstream o; std::streambuf* b = std::cout.rdbuf(o.rdbuf());
    try { f(); } catch (...) { std::cout.rdbuf(b); throw; }
    std::cout.rdbuf(b);
    return words(o.str());
}
static std::string usageOf(const Item& i, bool brackets) {
    std::string up = i.name, id; for (auto& c : up) c = toupper(c);
    if (i.pos()) return i.k == POS ? up : up + " [" + up + " ...]";
    id = i.sh ? std::string("-") + i.sh : "--" + i.lg;
    std::string r = id;
    if (i.k == MSW) r += " [" + id + " ...]";
    if (i.k == OPT) r += " " + up;
    if (i.k == MOPT) r += " " + up + " [" + up + " ...]";
    return brackets && !i.req ? "[" + r + "]" : r;
}
static std::string subst(std::string s, const std::string& a, const std::string& b) {
    for (size_t p; (p = s.find(a)) != std::string::npos;) s.replace(p, a.size(), b);
    return s;
}
static void help() {
    for (const Decl& d : decls()) for (int t = 0; t < 2; t++) mc::run([=] { return d.title + (t ? ": help with description and epilog" : ": help"); }, [&] {
        Real r(d);
        r.p.prog("PRG");
        if (t) { r.p.description("About ${PROG} itself"); r.p.epilog("End of ${PROG}"); }
        if (t) MC_CHECK(r.p.getDescription() == "About ${PROG} itself" && r.p.getEpilog() == "End of ${PROG}", "texts-kept", "");
        MC_CHECK(r.p.getProg() == "PRG", "texts-kept", "");
        std::string u = capture([&] { r.p.printUsage(); }), h = capture([&] { r.p.printHelp(); });
        mc::step(2); mc::state(h);
        MC_CHECK(u.compare(0, 11, "usage: PRG ") == 0, "usage", u);
        MC_CHECK(h.compare(0, u.size(), u) == 0, "help-starts-with-usage", h);
        std::string body = h.substr(std::min(h.size(), u.size()));
        if (t) MC_CHECK(body.find("About PRG itself ") == 0 && body.size() > 11 && body.substr(body.size() - 11) == "End of PRG ", "description-and-epilog", body);
        for (auto& i : d.items) {
            std::string x = usageOf(i, i.group < 2);
            MC_CHECK((" " + u).find(x) != std::string::npos, "usage-names-argument", x << " not in " << u);
            std::string text = i.help, def, ch;
            for (auto& s : i.def) def += (def.empty() ? "" : " ") + s;
            for (auto& c : i.choices) { std::string y; for (auto& s : c) y += (y.empty() ? "" : " ") + s; ch += (ch.empty() ? "" : ", ") + y; }
            text = subst(subst(subst(text, "${PROG}", "PRG"), "${DEFAULT}", def), "${CHOICES}", ch);
            std::string line = words(usageOf(i, false) + " " + text);
            MC_CHECK(body.find(line) != std::string::npos, "help-explains-argument", line << " not in " << body);
        }
        r.p.usage("call ${PROG} like this");
        MC_CHECK(capture([&] { r.p.printUsage(); }) == "call PRG like this ", "own-usage", capture([&] { r.p.printUsage(); }));
    });
}
// every set of up to three long names over {a,b}, every long name asked for
static void abbreviations() {
    Line names;
    for (unsigned n = 2; n <= mc::pick(4u, 5u); n++) mc::sequences(2, n, [&](const std::vector<unsigned>& s) {
        std::string x; for (unsigned i : s) x += char('a' + i);
        names.push_back(x);
    });
    const size_t N = names.size();
    for (size_t a = 0; a < N; a++) for (size_t b = a; b < N; b++) for (size_t c = b; c < N; c++) {
        if (a == b && b != c) continue;
        Line set = {names[a]}; if (b != a) set.push_back(names[b]); if (c != b) set.push_back(names[c]);
        mc::run([=] { return "long names " + join(set); }, [&] {
            for (int ab = 0; ab < 2; ab++) {
                Decl d; d.abbrev = ab;
                for (size_t i = 0; i < set.size(); i++) d.items.push_back(Item(i == 1 ? OPT : SW, MC_STR("N" << i), 0, set[i], "s").dflt({"0"}));
                Real r(d);
                for (auto& q : names) for (int e = 0; e < 2; e++) {
                    Line l = {"--" + q + (e ? "=v" : "")};
                    if (!e) l.push_back("w");
                    std::string w = refParse(d, l), g = realParse(r.p, l);
                    mc::step(); mc::outcome(w == "refused" ? "refused" : "parsed");
                    MC_CHECK(g == w, "abbreviation", join(l) << ": got " << g << " expected " << w);
                }
                mc::state(join(set));
            }
        });
    }
}
// what a parser says of the arguments declared, in it and in its groups
static void questions() {
    for (const Decl& d : decls()) mc::run([=] { return d.title + ": questions about the arguments"; }, [&] {
        Real r(d);
        std::vector<const GroupBase*> scopes = {&r.p}; std::vector<std::set<int>> of = {{0, 1, 2, 3, 4}};
        if (r.g) { scopes.push_back(r.g); of.push_back({1, 4}); }
        if (r.me) { scopes.push_back(r.me); of.push_back({2}); }
        if (r.rme) { scopes.push_back(r.rme); of.push_back({3}); }
        if (r.gme) { scopes.push_back(r.gme); of.push_back({4}); }
        for (size_t k = 0; k < scopes.size(); k++) {
            const GroupBase& g = *scopes[k];
            std::vector<Item> in; for (auto& i : d.items) if (of[k].count(i.group)) in.push_back(i);
            for (int c = 1; c < 127; c++) {
                bool want = false; for (auto& i : in) want = want || (!i.pos() && i.sh == c);
                mc::step();
                MC_CHECK(g.existsOption(char(c)) == want, "letter-declared", char(c) << " in scope " << k);
                if (!want) MC_CHECK(MC_THROWS(g.optionName(char(c))), "letter-of-none", char(c));
            }
            std::set<std::string> ask = {"zz", "x", ""};
            for (auto& i : d.items) if (!i.pos()) for (size_t n = 0; n <= i.lg.size(); n++) { ask.insert(i.lg.substr(0, n)); ask.insert(i.lg.substr(0, n) + "!"); }
            for (auto& q : ask) {
                bool whole = false, part = false; std::multiset<std::string> may;
                for (auto& i : in) if (!i.pos() && !i.lg.empty()) { whole = whole || i.lg == q; if (i.lg.compare(0, q.size(), q) == 0) { part = true; may.insert(i.lg); } }
                mc::step();
                MC_CHECK(g.existsOption(q) == whole && g.existsOption(q, false) == whole, "name-declared", q << " in scope " << k);
                MC_CHECK(g.existsOption(q, true) == (whole || part), "abbreviation-declared", q << " in scope " << k);
                auto v = g.possibleOptions(q, true); auto w = g.possibleOptions(q);
                if (whole) MC_CHECK(v.size() == 1 && w.size() == 1 && &g.childOption(v[0]) == &g.childOption(g.optionName(q)), "possible-of-whole", q);
                else { MC_CHECK(w.empty(), "possible-of-none", q); MC_CHECK(std::multiset<std::string>(v.begin(), v.end()) == may, "possible-options", q << ": " << join(v)); MC_CHECK(MC_THROWS(g.optionName(q)), "name-of-none", q); }
            }
            size_t np = 0; std::vector<std::string> order;
            for (auto& i : in) {
                if (i.pos()) { np++; order.push_back(i.name); continue; }
                for (int by = 0; by < 2; by++) {
                    if (by == 0 && !i.sh) continue;
                    if (by == 1 && i.lg.empty()) continue;
                    const OptionBase& o = g.childOption(by ? g.optionName(i.lg) : g.optionName(i.sh));
                    mc::step();
                    MC_CHECK(o.getName() == i.name, "option-asked", i.name << " gives " << o.getName());
                    MC_CHECK(o.hasShortIdentifier() == (i.sh != 0) && o.hasLongIdentifier() == !i.lg.empty(), "option-identifiers", i.name);
                    if (i.sh) MC_CHECK(o.getShortIdentifier() == i.sh, "option-identifiers", i.name);
                    if (!i.lg.empty()) MC_CHECK(o.getLongIdentifier() == i.lg, "option-identifiers", i.name);
                }
            }
            MC_REQUIRE(g.numChildPositions() == np, "positions", g.numChildPositions() << " expected " << np);
            for (size_t i = 0; i < np; i++) MC_CHECK(g.childPosition(i).getName() == order[i], "position-asked", i << " gives " << g.childPosition(i).getName());
        }
        mc::state(d.title); mc::outcome("asked");
    });
}
// declarations, lines, names and values of every size of a ladder
static void sizes() {
    std::vector<int> ns; for (int n = 1; n <= mc::pick(24, 48); n++) ns.push_back(n);
    for (int n : {63, 64, 65, 100, 127, 128, 129, 257}) ns.push_back(n);
    auto num = [](int i) { return std::to_string(i); };
    auto see = [](const Decl& d, const std::vector<Line>& ls) {
        Real r(d);
        for (auto& l : ls) for (int again = 0; again < 2; again++) {
            std::string w = refParse(d, l), g = realParse(r.p, l);
            mc::step(); mc::outcome(w == "refused" ? "refused" : "parsed"); mc::state(w);
            MC_CHECK(g == w, w == "refused" ? "accepted-but-should-refuse" : g == "refused" ? "refused-but-valid" : "result", "line of " << l.size() << " beginning " << join(Line(l.begin(), l.begin() + std::min<size_t>(l.size(), 3))).substr(0, 80) << ": got " << g.substr(0, 200) << " expected " << w.substr(0, 200));
        }
    };
    for (int n : ns) {
        mc::run([=] { return MC_STR(n << " options declared"); }, [&] {
            Decl d; Line fwd, back, letters, cluster, again; std::string run = "-";
            for (int i = 0; i < n; i++) {
                const Kind k[] = {SW, OPT, MSW, MOPT};
                const char* ty[] = {"s", "s", "i", "is"};
                Item it(k[i % 4], MC_STR("name" << i), i < 52 ? char(i < 26 ? 'a' + i : 'A' + i - 26) : 0, MC_STR("long" << i << "-end"), ty[i % 4]);
                it.in(i % 5 == 4 ? 1 : 0);
                d.items.push_back(it);
                Line t; t.push_back("--long" + num(i) + "-end");
                if (i % 4 == 1) t.push_back("v" + num(i));
                if (i % 4 == 3) { t.push_back(num(i)); t.push_back("w"); }
                fwd.insert(fwd.end(), t.begin(), t.end()); back.insert(back.begin(), t.begin(), t.end());
                if (i < 52) { Line u = t; u[0] = std::string("-") + it.sh; letters.insert(letters.end(), u.begin(), u.end()); if (i % 2 == 0) run += it.sh; }
                if (i % 4 == 2) for (int j = 0; j < 3; j++) again.push_back("--long" + num(i) + "-");
                if (i % 4 == 3) for (int j = 0; j < 3; j++) { again.push_back("--long" + num(i) + "-e"); again.push_back(num(j)); again.push_back("u"); }
            }
            std::vector<Line> ls = {fwd, back, letters, {run}, {"--long" + num(n - 1) + "-end", "1", "2"}, {"--long"}, {"--long0"}, {"--long" + num(n - 1)}, {"--long" + num(n)}};
            if (!again.empty()) ls.push_back(again);
            Line twice = fwd; twice.push_back("--long0-end"); ls.push_back(twice);
            see(d, ls);
        });
        mc::run([=] { return MC_STR(n << " of everything on the line"); }, [&] {
            Decl d; d.items = {Item(MSW, "V", 'v', "verb"), Item(MOPT, "M", 'm', "many"), Item(MOPT, "Q", 'q', "pairs", "is"), Item(OPT, "L", 'l', "list", "vi"), Item(OPT, "O", 'o', "out", "s").dflt({"d"}), Item(POS, "a", 0, "", "s").dflt({"none"}), Item(MPOS, "b", 0, "", "s").dflt({"none"})};
            const std::string x(n, 'x'), nine(std::min(n, 9), '9'), zeros = std::string(n, '0') + "7", spaced = "x " + x;
            Line v, m, q, l = {"-l"}, le = {"--list"}, after = {"--"}, unk, lone, mixed, pos, eq;
            for (int i = 0; i < n; i++) {
                v.push_back(i % 2 ? "-v" : "--verb"); m.push_back(i % 3 ? "-m" : "--ma"); m.push_back(num(i));
                q.push_back("-q" + num(i)); q.push_back("z" + num(i)); l.push_back(num(i * 37)); le.push_back(num(-i));
                after.push_back(i % 2 ? "-v" : "p" + num(i)); unk.push_back("--unknown" + num(i)); unk.push_back("u"); lone.push_back("p" + num(i)); eq.push_back("--many=" + num(i * i));
                mixed.push_back(i % 4 == 0 ? "-v" : i % 4 == 1 ? "-m" + num(i) : i % 4 == 2 ? "-y" : "r");
            }
            Line lb = l; lb.push_back("end"); lb.push_back("1");
            std::vector<Line> ls = {v, {"-" + std::string(n, 'v')}, m, q, l, le, lb, after, unk, lone, eq, mixed, {"-o" + x}, {"-o", x}, {"--out=" + x}, {"--out", spaced, "k"}, {"--" + x}, {"-m" + nine}, {"-m", "-" + nine}, {"--many=" + zeros}, {x, x + x, "-v"}, {"--out=" + std::string(n, '=')}, {"-" + std::string(n, 'y')}, {"--verb" + x}, {std::string(n, '-')}};
            Line all = lone; all.insert(all.end(), v.begin(), v.end()); all.insert(all.end(), q.begin(), q.end()); all.insert(all.end(), after.begin(), after.end()); ls.push_back(all);
            see(d, ls);
        });
        mc::run([=] { return MC_STR("long names sharing " << n << " letters"); }, [&] {
            const std::string x(n, 'x');
            for (int ab = 0; ab < 2; ab++) {
                Decl d; d.abbrev = ab;
                d.items = {Item(SW, "A", 0, x + "a"), Item(OPT, "B", 0, x + "ba", "s"), Item(OPT, "C", 0, x + "bb", "s"), Item(SW, "D", 0, x + "bab"), Item(SW, "y" + x, 0, "y" + x)};
                std::vector<Line> ls;
                for (auto& full : {x + "a", x + "ba", x + "bb", x + "bab", "y" + x, x + "c"}) for (size_t k = 2; k <= full.size(); k += full.size() > 40 && k + 5 < full.size() ? full.size() - k - 5 : 1) { ls.push_back({"--" + full.substr(0, k), "v"}); ls.push_back({"--" + full.substr(0, k) + "=v"}); }
                see(d, ls);
            }
        });
        mc::run([=] { return MC_STR("texts, choices and defaults of size " << n); }, [&] {
            Decl d; std::vector<std::list<std::string>> ch; std::list<std::string> list;
            for (int i = 0; i < n; i++) { ch.push_back({"c" + num(i)}); list.push_back(num(i)); }
            d.items = {Item(OPT, "C", 'c', "", "s").choose(ch).dflt({"c" + num(n - 1)}), Item(OPT, "L", 'l', "", "vi").dflt(list), Item(OPT, "M", 'm', "", "vi").choose({list, {"5"}}).dflt({"5"})};
            Line lm = {"-m"}; for (auto& t : list) lm.push_back(t);
            Line ln = lm; ln.push_back("1"); Line lo(lm.begin(), lm.end() - 1);
            see(d, {{"-c", "c" + num(n - 1)}, {"-c", "c0"}, {"-c", "c" + num(n)}, {"-cc" + num(n / 2)}, lm, ln, lo, {"-m5"}, {"-l", "3"}, {"--"}});
        });
    }
}
static void body() { sizes(); questions(); help(); declarations(); abbreviations(); lines(); }
int main(int c, char** v) { return mc::main_(c, v, body); }

// P27: usage, help and error texts of command lines against a reference.
#include "mc.h"
#include <algorithm>
#include <memory>
#include <fcntl.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <unistd.h>
#include "argument/Parser.h"
#include "argument/Switch.h"
#include "argument/MultiSwitch.h"
#include "argument/Option.h"
#include "argument/MultiOption.h"
#include "argument/Position.h"
#include "argument/MultiPosition.h"
#include "argument/MutuallyExclusiveGroup.h"
using namespace SEMBA::Argument;
typedef std::string Str;
typedef std::list<Str> Words;

enum Kind { SW, MSW, OPT, MOPT, POS, MPOS };
struct Arg {
    Kind k; char sh; Str lg; bool req = false; Words meta, def; std::vector<Words> choices; Str help; Str name;
    bool pair = false;
    Arg(Kind k, char sh = 0, Str lg = "") : k(k), sh(sh), lg(lg) {}
    Arg& required() { req = true; return *this; }
    Arg& as(Words w) { meta = w; return *this; }
    Arg& dflt(Words w) { def = w; return *this; }
    Arg& choose(std::vector<Words> c) { choices = c; return *this; }
    Arg& says(Str s) { help = s; return *this; }
    Arg& two() { pair = true; return *this; }
    bool pos() const { return k >= POS; }
    Str shown() const { Str s = sh ? Str("-") + sh : "", l = lg.empty() ? "" : "--" + lg; return pos() ? name : s.empty() ? l : l.empty() ? s : s + "/" + l; }
};
static const char* LONG = "a text with so many words that it has to be continued on the next line and on the one after that one whatever the console";
static const std::vector<Arg>& pool() {
    static std::vector<Arg> p = {
        Arg(SW, 's'), Arg(SW, 0, "swi").says("turns ${PROG} on").dflt({"1"}), Arg(SW, 't', "turn").required().says(LONG),
        Arg(MSW, 'v', "verbose").says("more"), Arg(MSW, 0, "quiet").required(), Arg(MSW, 'w').dflt({"3"}).says("x"),
        Arg(OPT, 'n'), Arg(OPT, 0, "number").says("by default ${DEFAULT}, of ${DEFAULT} or ${CHOICES}").dflt({"4"}), Arg(OPT, 'o', "out").required().as({"FILE"}).says(Str("${CHOICES} ") + LONG).choose({{"red"}, {"blue"}}),
        Arg(OPT, 'p', "pair").two().as({"KEY", "WORD"}).says("${PROG}${PROG} ${DEFAULT}").dflt({"1", "one"}).choose({{"1", "*"}, {"2", "x"}, {"3", "y"}}),
        Arg(MOPT, 'm'), Arg(MOPT, 0, "many").as({"Item"}).required().says("one ${NOT} at ${ a time $"), Arg(MOPT, 'l', "list-of-things").says(LONG),
        Arg(POS), Arg(POS).says("input of ${PROG}").as({"in-file"}), Arg(POS).dflt({"9"}).says(Str("else ${DEFAULT} ") + LONG), Arg(POS).two().as({"A", "B"}).says("ab"),
        Arg(MPOS).says("the rest"), Arg(MPOS).as({"x", "y"}).dflt({"7", "8"}),
    };
    return p;
}
// names: one word, lower case, distinct
static Str nameOf(size_t i) { static const char* n[] = {"first", "b", "the_third_argument", "d4"}; return n[i]; }
template<typename A> A* dress(A* a, const Arg& i) {
    Argument* g = a;
    if (!i.help.empty()) g->help(i.help);
    if (!i.meta.empty()) g->metavar(i.meta);
    return a;
}
template<typename A> A* value(A* a, const Arg& i) {
    dress(a, i); Argument* g = a;
    if (!i.pos() && i.req) g->required();
    if (!i.def.empty()) g->defaultVal(i.def);
    if (!i.choices.empty()) g->choices(i.choices);
    return a;
}
template<typename A> A* sw(A* a, const Arg& i) { dress(a, i); if (i.req) a->required(); return a; }
// copies: 0 the argument itself, n a copy of a copy ...
template<typename A> A* copied(A* a, int copies) { while (copies-- > 0) { std::unique_ptr<A> o(a); a = new A(*o); } return a; }
#define MK(A) (i.sh && i.lg.size() ? new A(i.name, i.sh, i.lg) : i.sh ? new A(i.name, i.sh) : new A(i.name, i.lg))
typedef Option<int, Str> Opt2; typedef Option<Str> Opt1; typedef MultiOption<Str> MOpt1;
static void declare(GroupBase& g, const Arg& i, int copies) {
    switch (i.k) {
    case SW: { Switch* s = sw(MK(Switch), i); if (!i.def.empty()) s->defaultVal(i.def.front() == "1"); g.addOption(copied(s, copies)); break; }
    case MSW: { MultiSwitch* s = sw(MK(MultiSwitch), i); if (!i.def.empty()) s->defaultVal(atoi(i.def.front().c_str())); g.addOption(copied(s, copies)); break; }
    case OPT: if (i.pair) g.addOption(copied(value(MK(Opt2), i), copies)); else g.addOption(copied(value(MK(Opt1), i), copies)); break;
    case MOPT: g.addOption(copied(value(MK(MOpt1), i), copies)); break;
    case POS: if (i.pair) g.addPosition(copied(value(new Position<int, Str>(i.name), i), copies)); else g.addPosition(copied(value(new Position<Str>(i.name), i), copies)); break;
    default: g.addPosition(copied(value(new MultiPosition<Str>(i.name), i), copies));
    }
}
// ---------------------------------------------------------------- groups
// 0 the line itself, 1 a group, 2 a described group in that one, 3 exclusive, 4 required exclusive, 5 exclusive in group 1
const int NG = 6;
static const char* DESC = "which is described in a few words more than fit on a narrow console";
struct Tree { int id; Str name, desc; bool ex = false, req = false; std::vector<Arg> pos, opt; std::vector<Tree> kids; };
struct Decl {
    std::vector<Arg> args; std::vector<int> grp; Str desc, epilog, usage;
};
struct Real {
    Parser p; std::map<int, GroupBase*> g;
    GroupBase& group(int k) {
        if (k == 0) return p;
        if (!g.count(k)) switch (k) {
        case 1: g[1] = &p.addGroup("one"); break;
        case 2: { group(1); g[2] = &static_cast<Group*>(g[1])->addGroup("two", DESC); break; }
        case 3: g[3] = &p.addMutuallyExclusiveGroup(); break;
        case 4: g[4] = &p.addMutuallyExclusiveGroup(); g[4]->required(); break;
        default: { group(1); g[5] = &static_cast<Group*>(g[1])->addMutuallyExclusiveGroup(); }
        }
        return *g[k];
    }
    Real(const Decl& d, int copies) {
        p.prog("prog-x").description(d.desc).epilog(d.epilog).usage(d.usage);
        for (size_t i = 0; i < d.args.size(); i++) declare(group(d.grp[i]), d.args[i], copies);
    }
};
static Tree* find(Tree& t, int id) { if (t.id == id) return &t; for (auto& k : t.kids) if (Tree* f = find(k, id)) return f; return nullptr; }
static Tree& sub(Tree& root, int id) {
    if (Tree* f = find(root, id)) return *f;
    Tree t; t.id = id;
    if (id == 1) t.name = "one";
    if (id == 2) { t.name = "two"; t.desc = DESC; }
    t.ex = id >= 3; t.req = id == 4;
    Tree& up = id == 2 || id == 5 ? sub(root, 1) : root;
    up.kids.push_back(t);
    return up.kids.back();
}
static Tree tree(const Decl& d) {
    Tree r; r.id = 0;
    for (size_t i = 0; i < d.args.size(); i++) { Tree& t = sub(r, d.grp[i]); (d.args[i].pos() ? t.pos : t.opt).push_back(d.args[i]); }
    return r;
}
// ---------------------------------------------------------------- reference texts
static Str joined(const Words& w, const Str& by) { Str r; for (auto i = w.begin(); i != w.end(); ++i) r += (i == w.begin() ? "" : by) + *i; return r; }
static Str metavar(const Arg& a) { if (!a.meta.empty()) return joined(a.meta, " "); Str s = a.name; for (auto& c : s) c = toupper(c); return s; }
static Str usageOf(const Arg& a, bool brackets) {
    Str m = metavar(a), more = " [" + m + " ...]";
    if (a.pos()) return a.k == POS ? m : m + more;
    Str id = a.sh ? Str("-") + a.sh : "--" + a.lg, r = id;
    if (a.k == MSW) r += " [" + id + " ...]";
    if (a.k == OPT || a.k == MOPT) r += " " + m;
    if (a.k == MOPT) r += more;
    return brackets && !a.req ? "[" + r + "]" : r;
}
static Str usageOf(const Tree& t) {
    Words w; for (auto& a : t.pos) w.push_back(usageOf(a, false)); for (auto& a : t.opt) w.push_back(usageOf(a, !t.ex)); for (auto& k : t.kids) w.push_back(usageOf(k));
    Words full; for (auto& x : w) if (!x.empty()) full.push_back(x);
    Str r = joined(full, t.ex ? " | " : " ");
    return !t.ex ? r : t.req ? "(" + r + ")" : "[" + r + "]";
}
static Str subst(const Str& s, const Str& a, const Str& b) { Str r; size_t p = 0, q; while ((q = s.find(a, p)) != Str::npos) { r += s.substr(p, q - p) + b; p = q + a.size(); } return r + s.substr(p); }
// words from column `at`, continued at column `in`
static Str para(const Str& s, size_t at, size_t in, size_t width) {
    std::istringstream i(s); Str w, r; size_t pos = at; bool first = true;
    while (i >> w) {
        if (first) { r += w; pos += w.size(); }
        else if (pos + 1 + w.size() > width) { r += "\n" + Str(in, ' ') + w; pos = in + w.size(); }
        else { r += " " + w; pos += 1 + w.size(); }
        first = false;
    }
    return r + "\n";
}
static Str argument(const Arg& a, size_t indent, size_t width) {
    size_t tab = width / 8; Str u = Str(indent, ' ') + usageOf(a, false);
    if (a.help.empty()) return u + "\n";
    Words c; for (auto& x : a.choices) c.push_back(joined(x, " "));
    bool plain = a.k == SW || a.k == MSW;
    Str text = subst(subst(subst(a.help, "${PROG}", "prog-x"), "${DEFAULT}", plain ? "" : joined(a.def, " ")), "${CHOICES}", joined(c, ", "));
    return u + (u.size() >= tab ? "\n" + Str(tab, ' ') : Str(tab - u.size(), ' ')) + para(text, tab, tab, width);
}
static Str body(const Tree& t, size_t depth, size_t width) {
    Str r; size_t in = depth ? 2 : 1;
    if (t.ex) { in = depth == 1 ? 1 : 4; if (depth == 1) r += para("mutually exclusive group:", 0, 0, width); else r += "  " + para("mutually exclusive group:", 2, 2, width); }
    else if (depth) { r += para(t.name, 0, 0, width); if (!t.desc.empty()) r += "  " + para(t.desc, 2, 2, width) + "\n"; }
    if (!depth && t.pos.size()) r += para("positional arguments:", 0, 0, width);
    for (auto& a : t.pos) r += argument(a, in, width);
    if (!depth && t.pos.size() && (t.opt.size() || t.kids.size())) r += "\n";
    if (!depth && t.opt.size()) r += para("optional arguments:", 0, 0, width);
    for (auto& a : t.opt) r += argument(a, in, width);
    if (!depth && t.opt.size() && t.kids.size()) r += "\n";
    for (auto& k : t.kids) r += body(k, depth + 1, width);
    return r;
}
static Str usageText(const Decl& d, size_t width) {
    if (!d.usage.empty()) return para(subst(d.usage, "${PROG}", "prog-x"), 0, 0, width);
    return para("usage: prog-x " + usageOf(tree(d)), 0, Str("usage: prog-x ").size(), width);
}
static Str helpText(const Decl& d, size_t width) {
    Str r = usageText(d, width) + "\n";
    if (!d.desc.empty()) r += para(subst(d.desc, "${PROG}", "prog-x"), 0, 0, width) + "\n";
    r += body(tree(d), 0, width);
    if (!d.epilog.empty()) r += "\n" + para(subst(d.epilog, "${PROG}", "prog-x"), 0, 0, width);
    return r;
}
// ---------------------------------------------------------------- console
struct Console {                                            // standard output is a console of this width (0: a file)
    static int& slave() { static int s = -2; if (s == -2) { int m = posix_openpt(O_RDWR | O_NOCTTY); s = m < 0 || grantpt(m) || unlockpt(m) ? -1 : open(ptsname(m), O_RDWR | O_NOCTTY); } return s; }
    static bool there() { return slave() >= 0; }
    int saved = -1;
    explicit Console(unsigned w, unsigned asked = 0) {
        if (!there() || !w) return;
        struct winsize z; memset(&z, 0, sizeof z); z.ws_col = w == 1000 ? 0 : w; z.ws_row = 5; ioctl(slave(), TIOCSWINSZ, &z);
        saved = dup(1); dup2(slave(), 1);
    }
    ~Console() { if (saved >= 0) { dup2(saved, 1); close(saved); } }
};
static Str capture(const std::function<void()>& f, std::ostream& to = std::cout) {
    std::ostringstream o; std::streambuf* b = to.rdbuf(o.rdbuf());
    try { f(); } catch (...) { to.rdbuf(b); throw; }
    to.rdbuf(b); return o.str();
}
static Str words(const Str& s) { std::istringstream i(s); Str w, r; while (i >> w) r += w + " "; return r; }
static void compare(const Str& got, const Str& want, size_t width, const Str& what) {
    MC_REQUIRE(words(got) == words(want), "words-of-" + what, "got\n" << got << "expected\n" << want);
    MC_REQUIRE(got == want, "lines-of-" + what, width << " columns: got\n" << got << "expected\n" << want);
}
static Str show(const Decl& d) { Str r; for (size_t i = 0; i < d.args.size(); i++) r += MC_STR(usageOf(d.args[i], true) << (d.args[i].help.empty() ? "" : " explained") << " in group " << d.grp[i] << "; "); return r + (d.desc.empty() ? "" : "described ") + (d.usage.empty() ? "" : "own usage"); }
static void look(const Decl& d, const std::vector<unsigned>& widths, int copies) {
    Real r(d, copies);
    for (unsigned w : widths) {
        if (w && !Console::there()) continue;
        Console c(w);
        size_t width = w && w != 1000 ? w : 80;
        mc::step(2);
        Str u = capture([&] { r.p.printUsage(); }), h = capture([&] { r.p.printHelp(); });
        { // another formatter is asked
            struct Own : SEMBA::Argument::Formatter { int *n; Own(const SEMBA::Argument::Parser* p, int* n) : Formatter(p), n(n) {} void printUsage() override { *n += 1; Formatter::printUsage(); } void printHelp() override { *n += 100; Formatter::printHelp(); } };
            static int n; n = 0; r.p.formatter(new Own(&r.p, &n));
            Str u2 = capture([&] { r.p.printUsage(); }), h2 = capture([&] { r.p.printHelp(); });
            MC_CHECK(u2 == u && h2 == h && (n == 101 || n == 102), "own-formatter", n); }
        compare(u, usageText(d, width), width, "usage"); compare(h, helpText(d, width), width, "help");
        mc::state(h);
    }
}
static bool clash(const std::vector<Arg>& a) {
    std::set<Str> ids; for (auto& x : a) { if (x.sh && !ids.insert(Str(1, x.sh)).second) return true; if (x.lg.size() && !ids.insert(x.lg).second) return true; }
    return false;
}
static void texts() {
    const auto& P = pool();
    const std::vector<unsigned> some = {0, 40, 100};
    std::vector<unsigned> all = {0, 1000}; for (unsigned w = 1; w <= 132; w++) all.push_back(w);
    // one argument: every width
    for (size_t a = 0; a < P.size(); a++) for (int g = 0; g < NG; g++) for (int t = 0; t < 4; t++) for (int c = 0; c < 3; c++) {
        Decl d; d.args = {P[a]}; d.args[0].name = nameOf(c); d.grp = {g};
        if (t & 1) { d.desc = Str("About ${PROG}: ") + LONG; d.epilog = "${PROG} ends"; }
        if (t & 2) d.usage = Str("call ${PROG} like ${PROG} ") + LONG;
        mc::run([=] { return show(d) + MC_STR(" copied " << c << " times"); }, [&] { look(d, all, c); mc::outcome(Console::there() ? "texts at every width" : "no console"); });
    }
    mc::run([] { return "no arguments"; }, [&] { Decl d; look(d, all, 0); d.desc = "${PROG} a"; d.epilog = "b"; look(d, all, 0); });
    const unsigned depth = mc::pick(2u, 3u);
    for (unsigned n = 2; n <= depth; n++) mc::sequences(P.size(), n, [&](const std::vector<unsigned>& s) {
        std::vector<Arg> args; for (unsigned i : s) { args.push_back(P[i]); args.back().name = nameOf(args.size() - 1); }
        if (clash(args)) return;
        mc::sequences(NG, n, [&](const std::vector<unsigned>& g) {
            if (n == 3 && (s[0] * 7 + s[1] * 5 + s[2] + g[0] + g[1] * 2 + g[2] * 3) % 4) return;   // (thorough only: every fourth)
            Decl d; d.args = args; d.grp.assign(g.begin(), g.end());
            if ((s[0] + g[0]) % 2) d.desc = "Does it";
            mc::run([=] { return show(d); }, [&] { look(d, some, (s[0] + s[1]) % 2); mc::outcome("texts of several arguments"); });
        });
    });
}
// ---------------------------------------------------------------- refusals
static Str refusal(Parser& p, const std::vector<Str>& line, Str& err, Str& usage) {
    std::vector<Str> l = {"dir/prog-x"}; l.insert(l.end(), line.begin(), line.end());
    Str what = "accepted";
    usage = capture([&] { err = capture([&] { try { p.parse(l); } catch (const std::exception& e) { what = e.what(); } }, std::cerr); });
    return what;
}
static void refused(const Decl& d, const std::vector<Str>& line, const Str& want, const Str& named = "") {
    Str shown; for (auto& x : line) shown += " " + x;
    mc::run([=] { return show(d) + " line:" + shown; }, [&] {
        for (int copies = 0; copies < 2; copies++) {
            Real r(d, copies); Str err, usage, what = refusal(r.p, line, err, usage);
            mc::step(); mc::state(show(d) + shown);
            MC_REQUIRE(what == want, "message", "got '" << what << "' expected '" << want << "'");
            if (want == "accepted") { MC_CHECK(err.empty() && usage.empty(), "message-of-accepted", err << usage); mc::outcome("accepted"); continue; }
            mc::outcome("refused with the reason");
            MC_CHECK(words(usage) == words(usageText(d, 80)), "usage-of-refused", usage);
            if (line.empty()) continue;
            Str w = "prog-x: " + (named.empty() ? "" : "Argument " + named + ": ") + want;
            MC_CHECK(words(err).compare(0, words(w).size() - 1, words(w), 0, words(w).size() - 1) == 0, "reported-error", "got '" << err << "' expected '" << w << "'");
        }
    });
}
static Decl decl(std::vector<Arg> a, std::vector<int> g) { Decl d; for (size_t i = 0; i < a.size(); i++) { a[i].name = nameOf(i); d.args.push_back(a[i]); } d.grp = g; return d; }
static void refusals() {
    const Arg S(SW, 'z', "zero"), T(SW, 'y');
    std::vector<Arg> ids = {Arg(OPT, 'n'), Arg(OPT, 0, "num"), Arg(OPT, 'n', "num"), Arg(MOPT, 'm', "many"), Arg(OPT, 'p', "pair").two(), Arg(SW, 'x', "exx"), Arg(MSW, 0, "loud"), Arg(POS), Arg(MPOS), Arg(POS).two()};
    auto flag = [](const Arg& a) { return a.sh ? Str("-") + a.sh : "--" + a.lg; };
    auto given = [&](const Arg& a) { std::vector<Str> r; if (!a.pos()) r.push_back(flag(a)); if (a.pair) r = {a.pos() ? "" : flag(a), "4"}, r.erase(std::remove(r.begin(), r.end(), ""), r.end()); if (a.k == OPT || a.k == MOPT || a.pos()) r.push_back("v"); return r; };
    refused(decl({S}, {0}), {}, "No Arguments in parser");
    for (auto a : ids) for (int g = 0; g < 3; g++) {
        Arg need = a; need.req = true; Decl d = decl({need, S}, {g, 0});
        refused(d, {"-z"}, "Argument " + d.args[0].shown() + " is required");
        std::vector<Str> ok = given(a); if (a.pos()) ok.insert(ok.begin(), {"-z"}); else ok.push_back("-z");
        refused(d, ok, "accepted");
        // twice
        if (a.k == SW || a.k == OPT) { Decl e = decl({a}, {g}); std::vector<Str> l = given(a), m = l; l.insert(l.end(), m.begin(), m.end()); refused(e, l, "Argument " + e.args[0].shown() + " declared multiple times"); }
        // without value
        if (a.k == OPT || a.k == MOPT) { Decl e = decl({a, S}, {g, 0}); refused(e, {flag(a)}, "Not enough values", e.args[0].shown()); refused(e, {flag(a), "-z"}, "Not enough values", e.args[0].shown()); if (a.pair) { refused(e, {flag(a), "4"}, "Not enough values", e.args[0].shown()); refused(e, {flag(a), "w", "w"}, "Invalid value", e.args[0].shown()); } }
        if (a.pos() && a.pair) { Decl e = decl({a}, {g}); refused(e, {"4"}, "Not enough values", e.args[0].shown()); refused(e, {"w", "w"}, "Invalid value", e.args[0].shown()); }
        // not one of the choices
        if (a.k == OPT || a.k == MOPT || a.pos()) {
            Arg c = a; c.choices = a.pair ? std::vector<Words>{{"1", "*"}, {"2", "x"}} : std::vector<Words>{{"red"}, {"blue"}}; Decl e = decl({c}, {g});
            refused(e, given(a), "Argument " + e.args[0].shown() + " not matching possible choices (choose from" + (a.pair ? " 1 * , 2 x)" : " red , blue)"));
        }
    }
    // unknown ones, every pair
    const std::vector<std::vector<Str>> odd = {{"-q"}, {"--quite"}, {"-q", "5"}, {"--quite=6"}, {"-qr"}};
    const std::vector<Str> odds = {" -q", " --quite", " -q 5", " --quite 6", " -qr"};
    for (size_t i = 0; i < odd.size(); i++) { refused(decl({S}, {0}), odd[i], "Unrecognized arguments:" + odds[i]);
        for (size_t j = 0; j < odd.size(); j++) { std::vector<Str> l = odd[i]; l.push_back("-z"); l.insert(l.end(), odd[j].begin(), odd[j].end()); refused(decl({S}, {0}), l, "Unrecognized arguments:" + odds[i] + odds[j]); } }
    refused(decl({S}, {0}), {"-z", "--", "a", "b"}, "Unrecognized arguments: -- a b");
    refused(decl({S}, {0}), {"a", "-z", "b"}, "Unrecognized arguments: -- a b");
    // ambiguous ones: every set of three of these
    const std::vector<Str> longs = {"alpha", "alphabet", "alpine", "also", "beta"}, asked = {"al", "alp", "alph", "alpha", "als", "be", "alpi"};
    for (size_t i = 0; i < longs.size(); i++) for (size_t j = i + 1; j < longs.size(); j++) for (size_t k = j + 1; k < longs.size(); k++) for (auto& q : asked) {
        std::vector<Str> set = {longs[i], longs[j], longs[k]}, m; bool exact = false; for (auto& x : set) { if (x.compare(0, q.size(), q) == 0) m.push_back(x); exact = exact || x == q; }
        Str want = exact || m.size() == 1 ? "accepted" : m.empty() ? "Unrecognized arguments: --" + q : "Ambiguous argument --" + q + " that can match arguments";
        if (m.size() > 1 && !exact) for (size_t x = 0; x < m.size(); x++) want += (x ? ", --" : " --") + m[x];
        refused(decl({Arg(SW, 0, set[0]), Arg(SW, 0, set[1]), Arg(SW, 0, set[2])}, {0, 0, 0}), {"--" + q}, want);
    }
    // exclusive ones: every subset of four, positions first, options by identifier
    for (int need = 0; need < 2; need++) for (int in = 3; in <= 5; in++) for (int pos = 0; pos < 2; pos++) for (unsigned given = 0; given < 16; given++) {
        if ((in == 4) != need || (pos && (given & 1) && false)) continue;
        std::vector<Arg> a = {pos ? Arg(POS) : Arg(SW, 'a', "aaa"), Arg(SW, 'b'), Arg(MSW, 0, "cc"), Arg(SW, 'd', "dd"), S};
        Decl d = decl({a[0], a[1], a[2], a[3]}, {in, in, in, in}); Arg z = S; z.name = "zz"; d.args.push_back(z); d.grp.push_back(0);
        std::vector<Str> l = {"-z"}; Str names, allNames; unsigned n = 0;
        for (unsigned i = 0; i < 4; i++) { Str nm = d.args[i].shown(); allNames += (i ? ", " : "") + nm; if (given >> i & 1) { if (i || !pos) l.push_back(flag(d.args[i])); names += (n++ ? ", " : "") + nm; } }
        if (pos && (given & 1)) { l.push_back("--"); l.push_back("val"); }
        refused(d, l, n > 1 ? "Parsing mutually excluded arguments " + names : n == 0 && in == 4 ? "One of the arguments " + allNames + " is required" : "accepted");
    }
}
static void all() { int n = open("/dev/null", O_RDWR); dup2(n, 0); close(n); texts(); refusals(); }
int main(int argc, char** argv) { return mc::main_(argc, argv, all); }

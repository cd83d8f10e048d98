// The GiD front end (gui/gid/semba.gid) run without GiD: the questions it asks, the templates it writes the
// problem with, and its Tcl procedures, evaluated by the real tclsh with stand-ins for the commands of GiD.
#pragma once
#include "mc.h"
#include <fstream>
#include <memory>
namespace gid {
typedef std::string Str;
inline Str repo() { const char* r = getenv("VERIF_REPO"); return r && *r ? r : "/repo"; }
inline Str dir() { return repo() + "/gui/gid/semba.gid"; }
inline Str low(Str s) { for (auto& c : s) c = tolower(c); return s; }
inline Str trim(const Str& s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == Str::npos ? "" : s.substr(a, b - a + 1); }
inline bool starts(const Str& s, const Str& p) { return low(s.substr(0, p.size())) == p; }
inline Str slurp(const Str& f) { std::ifstream i(f.c_str(), std::ios::binary); MC_REQUIRE(i.good(), "front-end-file", "cannot read " << f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline std::vector<Str> split(const Str& s, char sep) { std::vector<Str> r(1); int depth = 0; for (char c : s) { if (c == '(') depth++; if (c == ')') depth--; if (c == sep && !depth) r.push_back(""); else r.back() += c; } for (auto& x : r) x = trim(x); return r; }

// ---- the questions
struct Act { Str what, target, value; };
struct Question { Str name, value; std::vector<Str> choices; bool file = false; std::vector<std::pair<Str, std::vector<Act>>> deps; char state = 'E'; };
struct Form {
    Str name, meshType; std::vector<Question> q;
    Question* find(const Str& n) { for (auto& x : q) if (low(x.name) == low(n)) return &x; return nullptr; }
    Question& at(const Str& n) { auto p = find(n); MC_REQUIRE(p, "front-end-question", name << " has no question " << n); return *p; }
    void act(const Act& a, int depth) {
        Question* q0 = find(a.target); if (!q0) return; Question& t = *q0;            // a question which is not there: found by the cases on each action
        t.state = a.what == "RESTORE" ? 'E' : a.what == "SET" ? 'S' : 'H';
        if (a.value != "#CURRENT#" && t.value != a.value) { t.value = a.value; apply(t, depth + 1); }
    }
    void apply(Question& t, int depth = 0) { MC_REQUIRE(depth < 20, "front-end-question", "the questions of " << name << " depend on each other for ever"); for (auto& d : t.deps) if (d.first == t.value) for (auto& a : d.second) act(a, depth); }
    void open() { for (auto& x : q) x.state = 'E'; for (auto& x : q) apply(x); }
    bool can(const Str& n) { return at(n).state == 'E'; }
    void set(const Str& n, const Str& v) { Question& t = at(n); t.value = v; apply(t); }
    Str states() const { Str r; for (auto& x : q) r += x.state; return r; }
    Str get(const Str& n) { return at(n).value; }
};
// what a questionnaire file asks (.prb, .cnd, .mat)
inline std::vector<Form> readForms(const Str& file) {
    std::vector<Form> r; std::istringstream in(slurp(file)); Str l;
    while (std::getline(in, l)) {
        l = trim(l); if (l.empty() || l[0] == '#') continue;
        auto val = [&] { return trim(l.substr(l.find(':') + 1)); };
        if (starts(l, "problem data")) { r.push_back(Form()); r.back().name = "problem data"; }
        else if (starts(l, "condition:") || starts(l, "material:")) { r.push_back(Form()); r.back().name = val(); }
        else if (starts(l, "condmeshtype:")) r.back().meshType = low(val());
        else if (starts(l, "question:")) {
            Question q; Str v = val(); size_t h = v.find('#');
            Str n = v.substr(0, h); if (n.find('(') != Str::npos) n = n.substr(0, n.find('(')); q.name = trim(n);
            size_t cb = v.find("#CB#("); if (cb != Str::npos) { Str c = v.substr(cb + 5); c = c.substr(0, c.find(')')); q.choices = split(c, ','); }
            r.back().q.push_back(q);
        }
        else if (starts(l, "value:")) { Str v = val(); size_t w = v.find("#WIDTH#"); if (w != Str::npos) v = trim(v.substr(0, w)); if (v.find("#N#") == 0) v = trim(v.substr(3)); r.back().q.back().value = v; }
        else if (starts(l, "dependencies:")) {
            Str v = val(); v = v.substr(1, v.rfind(')') - 1); auto p = split(v, ','); std::vector<Act> acts;
            for (size_t i = 1; i + 2 < p.size(); i += 3) acts.push_back(Act{p[i], p[i + 1], p[i + 2]});
            r.back().q.back().deps.push_back({p[0], acts});
        }
    }
    return r;
}
inline Form form(const std::vector<Form>& f, const Str& n) { for (auto& x : f) if (low(x.name) == low(n)) { Form c = x; c.open(); return c; } MC_REQUIRE(false, "front-end-question", "there is no " << n); return Form(); }

// ---- the project
struct Node { int id; double x[3]; };
struct Elem { Str type; int id, mat, layer; std::vector<int> v; };
struct Layer { int id; Str name, box; };
struct Mat { int id; Str name; Form f; };
struct Entry { int ent; Form f; };                       // ent: id of the node, element or layer
struct Project {
    Form data; std::vector<Mat> mats; std::vector<Layer> layers; std::vector<Node> nodes; std::vector<Elem> elems;
    std::map<Str, std::vector<Entry>> conds;             // by lower-case name
    Str axes = "{0.0 0.0 0.0} {1.0 2.0 3.0}", corner = "0.0 0.0 0.0", boxsize = "0.0 0.0 0.0", ngrid = "0 0 0", xyz = "{} {} {}";
    std::map<int, Str> points;                           // geometric points
};

// ---- Tcl
inline Str tclWord(const Str& s) { bool plain = !s.empty(); for (char c : s) if (!isalnum((unsigned char)c) && !strchr("_.+-/:", c)) plain = false; return plain ? s : "{" + s + "}"; }
static const char* stubs = R"TCL(
fconfigure stdin -translation binary; fconfigure stdout -translation binary
rename package ::realpackage; proc package {args} { return "" }
rename unknown ::realunknown
proc unknown {args} { if {$::M(init)} { return "" }; error "invalid command name \"[lindex $args 0]\"" }
proc = {args} { return [lindex $args 0] }
proc _ {args} { return [lindex $args 0] }
proc WarnWin {args} { append ::M(warn) "$args;" }
proc WarnWinText {args} { append ::M(warn) "$args;" }
proc ReadProblemtypeXml {file root names} {
    set f [open $file]; set t [read $f]; close $f; set r {}
    foreach n $names { if {[regexp "<$n>(.*?)</$n>" $t -> v]} { lappend r $n $v } else { lappend r $n {} } }
    return $r
}
namespace eval ::GidUtils {}
proc ::GidUtils::VersionCmp {v} {
    foreach a {13 0 0} b [lrange [split [regsub -all {[a-z]} $v {}] .] 0 2] { if {$b eq ""} { set b 0 }; if {$a < $b} { return -1 }; if {$a > $b} { return 1 } }
    return 0
}
namespace eval ::json::write {}
proc ::json::write {what v} { if {$what ne "string"} { error "json::write $what" }; return "\"[string map [list \\ \\\\ \" \\\" \n \\n \t \\t] $v]\"" }
proc GiD_Cartesian {get what} { return $::M(cartesian,$what) }
proc GiD_Set {what args} { if {$what eq "MeshType"} { return $::M(meshtype) }; return 0 }
proc GiD_Process {args} { lappend ::M(process) $args; if {[lsearch $args Rectangle] >= 0} { incr ::M(surfaces) } }
proc GiD_Info {what args} {
    switch -nocase -- $what {
        conditions { if {![info exists ::M(cond,[string tolower [lindex $args 0]])]} { error "no condition [lindex $args 0]" }; return $::M(cond,[string tolower [lindex $args 0]]) }
        layer { set n [lindex $args end]; if {[lsearch $args -bbox] < 0} { error "GiD_Info layer $args" }; if {[llength $args] == 3} { return $::M(bbox) }; return $::M(bbox,$n) }
        layers { return $::M(layers) }
        localaxes { return $::M(axes) }
        coordinates { return $::M(point,[lindex $args 0]) }
        geometry { return $::M(surfaces) }
        default { error "GiD_Info $what $args" }
    }
}
array set ::M {init 1 warn {} process {} surfaces 7 meshtype 0}
while {[gets stdin n] >= 0} {
    set script [read stdin $n]; set code [catch {uplevel #0 $script} r]
    puts "$code [string length $r]"; puts -nonewline $r; flush stdout
}
)TCL";
class Tcl {
public:
    static Tcl& get() { static Tcl t; return t; }
    // the result of a script; fails by throwing its message
    Str eval(const Str& s, bool& failed) {
        if (!pid_) start();
        Str m = std::to_string(s.size()) + "\n" + s;
        for (size_t i = 0; i < m.size();) { ssize_t n = write(in_, m.data() + i, m.size() - i); if (n <= 0) throw std::runtime_error("tclsh ended"); i += n; }
        Str head; char c; while (read(out_, &c, 1) == 1 && c != '\n') head += c;
        if (head.empty()) throw std::runtime_error("tclsh ended");
        int code = atoi(head.c_str()); size_t n = atoi(head.substr(head.find(' ')).c_str()); Str r(n, 0);
        for (size_t i = 0; i < n;) { ssize_t k = read(out_, &r[i], n - i); if (k <= 0) throw std::runtime_error("tclsh ended"); i += k; }
        failed = code != 0; return r;
    }
private:
    int pid_ = 0, in_ = -1, out_ = -1;
    void start() {
        Str f = mc::scratchDir() + "/driver.tcl"; { std::ofstream o(f.c_str()); o << stubs; }
        int a[2], b[2]; if (pipe(a) || pipe(b)) throw std::runtime_error("pipe");
        signal(SIGPIPE, SIG_IGN);
        pid_ = fork();
        if (!pid_) { dup2(a[0], 0); dup2(b[1], 1); for (int i = 3; i < 64; i++) close(i); execlp("tclsh", "tclsh", f.c_str(), (char*)0); _exit(9); }
        close(a[0]); close(b[1]); in_ = a[1]; out_ = b[0];
        bool bad; Str r = eval("source " + tclWord(dir() + "/semba.tcl"), bad); if (bad) { MC_REQUIRE(false, "front-end-script", "semba.tcl: " << r); }
        r = eval("InitGIDProject " + tclWord(dir()) + "; set ::M(init) 0; set ::M(warn)", bad);
        MC_REQUIRE(!bad, "front-end-script", "starting the project: " << r);
    }
};

// ---- templates
struct Line { enum K { TEXT, IF, LOOP, FOR, VAR, COND, ELEMS, FORMAT, WARN } k; Str a, b, where; std::vector<std::pair<Str, std::vector<Line>>> body; };
struct Val { Str s; bool num; double d; Val(const Str& v = "") : s(v), num(false), d(0) {} Val(double v) : num(true), d(v) { s = v == floor(v) && fabs(v) < 1e15 ? MC_STR((long long)v) : MC_STR(v); } double n() const { return num ? d : atof(s.c_str()); } };
class Template {
public:
    std::vector<Line> lines; std::vector<Str> warnings; Str format_;
    explicit Template(const Str& file) { std::vector<std::pair<Str, Str>> raw; load(file, raw, 0); size_t i = 0; lines = block(raw, i, false); MC_REQUIRE(i == raw.size(), "front-end-template", "'" << raw[i].first << "' ends nothing (" << raw[i].second << ")"); }
    Str write(Project& p) { p_ = &p; out_.clear(); vars_.clear(); warnings.clear(); cond_.clear(); set_ = "all"; mat_ = nullptr; node_ = nullptr; elem_ = nullptr; layer_ = nullptr; entry_ = nullptr; loop_ = 0; format_.clear(); run(lines); return out_; }
private:
    Project* p_; Str out_, cond_, set_; std::map<Str, Val> vars_; Mat* mat_; Node* node_; Elem* elem_; Layer* layer_; Entry* entry_; size_t loop_; Str here_;
    // every include starts on a line of its own
    static void load(const Str& file, std::vector<std::pair<Str, Str>>& raw, int depth) {
        MC_REQUIRE(depth < 5, "front-end-template", "includes for ever");
        std::istringstream in(slurp(file)); Str l; int n = 0;
        while (std::getline(in, l)) {
            n++; while (!l.empty() && (l.back() == '\r' || l.back() == '\n')) l.pop_back();
            Str t = trim(l);
            if (t.find("*#") == 0) continue;
            if (starts(t, "*include")) { load(dir() + "/" + trim(t.substr(8)), raw, depth + 1); continue; }
            raw.push_back({l, file.substr(file.rfind('/') + 1) + ":" + std::to_string(n)});
        }
    }
    static bool word(const Str& t, const char* w) { size_t n = strlen(w); return starts(t, w) && (t.size() == n || !isalnum((unsigned char)t[n])); }
    static Str parens(const Str& t, size_t at, size_t* end = nullptr) {        // what is between the first '(' from at and the ')' that closes it
        size_t i = t.find('(', at); if (i == Str::npos) return ""; int d = 0; bool q = false;
        for (size_t k = i; k < t.size(); k++) { if (t[k] == '"') q = !q; if (q) continue; if (t[k] == '(') d++; if (t[k] == ')' && !--d) { if (end) *end = k + 1; return t.substr(i + 1, k - i - 1); } }
        MC_REQUIRE(false, "front-end-template", "unbalanced: " << t); return "";
    }
    static std::vector<Line> block(const std::vector<std::pair<Str, Str>>& raw, size_t& i, bool inside) {
        std::vector<Line> r;
        while (i < raw.size()) {
            Str t = trim(raw[i].first); Line l; l.where = raw[i].second;
            if (word(t, "*end") || word(t, "*endif") || word(t, "*endfor") || word(t, "*else") || word(t, "*elseif")) return r;
            if (word(t, "*if")) {
                l.k = Line::IF; l.body.push_back({parens(t, 0), {}}); i++; l.body.back().second = block(raw, i, true);
                for (;;) {
                    MC_REQUIRE(i < raw.size(), "front-end-template", "no end of " << l.where);
                    t = trim(raw[i].first); i++;
                    if (word(t, "*elseif")) l.body.push_back({parens(t, 0), {}}); else if (word(t, "*else")) l.body.push_back({"1", {}}); else break;
                    l.body.back().second = block(raw, i, true);
                }
                r.push_back(l); continue;
            }
            if (word(t, "*loop") || word(t, "*for")) {
                l.k = word(t, "*loop") ? Line::LOOP : Line::FOR; l.a = l.k == Line::LOOP ? low(trim(t.substr(5))) : parens(t, 0); i++;
                l.body.push_back({"", block(raw, i, true)}); MC_REQUIRE(i < raw.size(), "front-end-template", "no end of " << l.where); i++; r.push_back(l); continue;
            }
            i++;
            if (word(t, "*set")) {
                Str u = trim(t.substr(4));
                if (word(u, "var")) { l.k = Line::VAR; size_t e = u.find('='); MC_REQUIRE(e != Str::npos, "front-end-template", l.where); Str n = trim(u.substr(3, e - 3)); if (n.find('(') != Str::npos) n = trim(n.substr(0, n.find('('))); l.a = low(n); l.b = trim(u.substr(e + 1)); }
                else if (word(u, "cond")) { l.k = Line::COND; std::istringstream w(u.substr(4)); w >> l.a; l.a = low(l.a); }
                else if (word(u, "elems")) { l.k = Line::ELEMS; l.a = low(trim(parens(u, 0))); }
                else MC_REQUIRE(false, "front-end-template", "unknown: " << t << " (" << l.where << ")");
                r.push_back(l); continue;
            }
            if (word(t, "*format")) { l.k = Line::FORMAT; size_t a = t.find('"'), b = t.rfind('"'); l.a = a == b ? "" : t.substr(a + 1, b - a - 1); r.push_back(l); continue; }
            if (word(t, "*warningbox") || word(t, "*messagebox")) { l.k = Line::WARN; l.a = t; r.push_back(l); continue; }
            l.k = Line::TEXT; l.a = raw[i - 1].first; r.push_back(l);
        }
        return r;
    }
    void run(const std::vector<Line>& ls) {
        for (auto& l : ls) {
            here_ = l.where;
            switch (l.k) {
            case Line::TEXT: { Str t = l.a; bool join = t.size() > 1 && t.substr(t.size() - 2) == "*\\"; if (join) t.resize(t.size() - 2); size_t spec = 0; out_ += expand(t, &spec); if (!join) out_ += "\n"; break; }
            case Line::IF: for (auto& b : l.body) { here_ = l.where; if (expr(b.first).n() != 0) { run(b.second); break; } } break;
            case Line::VAR: { vars_[l.a] = expr(l.b); break; }
            case Line::COND: cond_ = l.a; known(cond_); break;
            case Line::ELEMS: set_ = l.a; MC_REQUIRE(set_ == "all" || set_ == "linear" || set_ == "triangle" || set_ == "quadrilateral" || set_ == "tetrahedra" || set_ == "hexahedra", "front-end-template", "elements " << set_); break;
            case Line::FORMAT: format_ = l.a; break;
            case Line::WARN: warnings.push_back(l.a); break;
            case Line::FOR: {
                auto p = split(l.a, ';'); MC_REQUIRE(p.size() == 3, "front-end-template", "loop " << l.a << " (" << l.where << ")");
                auto assign = [&](const Str& s) { size_t e = s.find('='); vars_[low(trim(s.substr(0, e)))] = expr(s.substr(e + 1)); };
                size_t guard = 0; for (assign(p[0]); expr(p[1]).n() != 0; assign(p[2])) { MC_REQUIRE(guard++ < 1000, "front-end-template", "endless loop (" << l.where << ")"); run(l.body[0].second); here_ = l.where; }
                break;
            }
            case Line::LOOP: loop(l); break;
            }
        }
    }
    void known(const Str& c) { MC_REQUIRE(p_->conds.count(c), "front-end-template", here_ << ": there is no condition " << c); }
    bool inSet(const Elem& e) const { return set_ == "all" || low(e.type) == set_; }
    void loop(const Line& l) {
        std::istringstream w(l.a); Str what, opt; w >> what >> opt; bool only = opt == "*onlyincond";
        auto sEntry = entry_; auto sLoop = loop_; Str sCond = cond_; auto sNode = node_; auto sElem = elem_; auto sLayer = layer_; auto sMat = mat_; Str sFormat = format_;
        loop_ = 0;
        auto body = [&] { loop_++; size_t k = loop_; run(l.body[0].second); loop_ = k; };
        if (what == "materials") for (auto& m : p_->mats) { mat_ = &m; body(); }
        else if (what == "conditions") { for (auto& c : p_->conds) { auto& es = c.second; if (es.empty()) continue; bool nodes = es[0].f.meshType.find("node") != Str::npos, lay = es[0].f.name == ""; (void)lay; if (opt == "*nodes" && !nodes) continue; cond_ = c.first; body(); } cond_ = sCond; }
        else if (only) {
            known(cond_);
            for (auto& e : p_->conds[cond_]) {
                entry_ = &e;
                if (what == "nodes") { node_ = nullptr; for (auto& n : p_->nodes) if (n.id == e.ent) node_ = &n; }
                else if (what == "elems") { elem_ = nullptr; for (auto& n : p_->elems) if (n.id == e.ent && inSet(n)) elem_ = &n; if (!elem_) continue; }
                else if (what == "layers") { layer_ = nullptr; for (auto& n : p_->layers) if (n.id == e.ent) layer_ = &n; }
                else MC_REQUIRE(false, "front-end-template", "loop " << l.a << " (" << l.where << ")");
                body();
            }
        }
        else if (what == "nodes") for (auto& n : p_->nodes) { node_ = &n; body(); }
        else if (what == "layers") for (auto& n : p_->layers) { layer_ = &n; body(); }
        else if (what == "elems") { for (auto& n : p_->elems) if (inSet(n)) { elem_ = &n; body(); } }
        else MC_REQUIRE(false, "front-end-template", "loop " << l.a << " (" << l.where << ")");
        entry_ = sEntry; loop_ = sLoop; node_ = sNode; elem_ = sElem; layer_ = sLayer; mat_ = sMat; format_ = sFormat;
    }
    Str fmt(const Val& v, size_t* spec) {
        if (!spec || format_.empty() || !v.num) return v.s;
        std::istringstream w(format_); Str s; for (size_t i = 0; i <= *spec && w >> s; i++) {} (*spec)++;
        if (s.empty() || s[0] != '%') return v.s;
        char b[64]; if (strchr("di", s.back())) snprintf(b, sizeof b, s.c_str(), (int)v.d); else snprintf(b, sizeof b, s.c_str(), v.d); return b;
    }
    // text with its fields replaced
    Str expand(const Str& t, size_t* spec) {
        Str r;
        for (size_t i = 0; i < t.size();) {
            if (t[i] != '*' || i + 1 >= t.size() || !isalpha((unsigned char)t[i + 1])) { r += t[i++]; continue; }
            size_t k = i + 1; while (k < t.size() && (isalnum((unsigned char)t[k]) || t[k] == '_')) k++;
            Str name = low(t.substr(i + 1, k - i - 1)), args; bool has = k < t.size() && t[k] == '('; if (has) args = parens(t, k, &k);
            if (name == "elemsconec" && !has) { MC_REQUIRE(elem_, "front-end-template", here_ << ": no element"); for (size_t n = 0; n < elem_->v.size(); n++) r += (n ? " " : "") + fmt(Val(elem_->v[n]), spec); }
            else r += fmt(field(name, args), spec);
            i = k;
        }
        return r;
    }
    Val asked(Form& f, const Str& args, const Str& type0) {
        auto a = split(args, ','); Str n = a[0]; Question* q = nullptr;
        if (!n.empty() && isdigit((unsigned char)n[0])) { size_t k = atoi(n.c_str()); if (k >= 1 && k <= f.q.size()) q = &f.q[k - 1]; } else q = f.find(n);
        MC_REQUIRE(q, "front-end-template", here_ << ": " << type0 << " " << f.name << " has no question " << n);
        if (a.size() > 1) {
            if (low(a[1]) == "int" && q->name == "Layers") { std::istringstream w(q->value); double d; w >> d; return Val(d); }
            if (low(a[1]) == "int") return Val((double)atoi(q->value.c_str()));
            if (low(a[1]) == "real") return Val(atof(q->value.c_str()));
            int k = (int)expr(a[1][0] == '*' ? a[1].substr(1) : a[1]).n(); std::istringstream w(q->value); Str s; for (int i = 0; i <= k; i++) if (!(w >> s)) MC_REQUIRE(false, "front-end-template", here_ << ": no value " << k << " of " << n);
            return Val(s);
        }
        return Val(q->value);
    }
    Val field(const Str& n, const Str& args) {
        if (n == "gendata") return asked(p_->data, args, "");
        if (n == "matprop") { MC_REQUIRE(mat_, "front-end-template", here_ << ": no material"); if (trim(args) == "0") return Val(mat_->name); return asked(mat_->f, args, "material"); }
        if (n == "matnum") { MC_REQUIRE(mat_, "front-end-template", here_ << ": no material"); return Val(mat_->id); }
        if (n == "cond") {
            Entry* e = entry_; MC_REQUIRE(e, "front-end-template", here_ << ": condition " << cond_ << " out of its loop"); return asked(e->f, args, "condition");
        }
        if (n == "condname") return Val(cond_.empty() ? Str() : p_->conds[cond_].empty() ? cond_ : p_->conds[cond_][0].f.name);
        if (n == "condnumentities") return Val((double)p_->conds[cond_].size());
        if (n == "nodesnum") { MC_REQUIRE(node_, "front-end-template", here_ << ": no node"); return Val(node_->id); }
        if (n == "nodescoord") { MC_REQUIRE(node_, "front-end-template", here_ << ": no node"); int k = atoi(args.c_str()); MC_REQUIRE(k >= 1 && k <= 3, "front-end-template", here_ << ": coordinate " << args); return Val(node_->x[k - 1]); }
        if (n == "elemsnum" || n == "elemsmat" || n == "elemslayernum" || n == "elemsconec") {
            MC_REQUIRE(elem_, "front-end-template", here_ << ": no element");
            if (n == "elemsconec") { int k = atoi(args.c_str()); MC_REQUIRE(k >= 1 && k <= (int)elem_->v.size(), "front-end-template", here_ << ": vertex " << args); return Val(elem_->v[k - 1]); }
            return Val(n == "elemsnum" ? elem_->id : n == "elemsmat" ? elem_->mat : elem_->layer);
        }
        if (n == "layernum" || n == "layername") { MC_REQUIRE(layer_, "front-end-template", here_ << ": no layer"); if (n == "layernum") return Val(layer_->id); return Val(layer_->name); }
        if (n == "loopvar") return Val((double)loop_);
        if (n == "nmats") return Val((double)p_->mats.size());
        if (n == "npoin") return Val((double)p_->nodes.size());
        if (n == "nelem") { int c = 0; for (auto& e : p_->elems) c += inSet(e); return Val(c); }
        if (n == "operation") return expr(args);
        if (n == "tcl") { bool bad; Str r = Tcl::get().eval(expand(args, nullptr), bad); MC_REQUIRE(!bad, "front-end-script", here_ << ": " << args << ": " << r); return Val(r); }
        auto v = vars_.find(n); MC_REQUIRE(v != vars_.end(), "front-end-template", here_ << ": unknown " << n);
        return v->second;
    }
    // ---- expressions
    Str e_; size_t x_;
    Val expr(const Str& s) { Str se = e_; size_t sx = x_; e_ = s; x_ = 0; Val v = orE(); skip(); MC_REQUIRE(x_ == e_.size() || e_[x_] == ')', "front-end-template", here_ << ": cannot evaluate " << s); e_ = se; x_ = sx; return v; }
    void skip() { while (x_ < e_.size() && isspace((unsigned char)e_[x_])) x_++; }
    bool eat(const char* t) { skip(); size_t n = strlen(t); if (e_.compare(x_, n, t)) return false; x_ += n; return true; }
    Val orE() { Val v = andE(); while (eat("||")) { Val w = andE(); v = Val((double)(v.n() != 0 || w.n() != 0)); } return v; }
    Val andE() { Val v = cmpE(); while (eat("&&")) { Val w = cmpE(); v = Val((double)(v.n() != 0 && w.n() != 0)); } return v; }
    Val cmpE() {
        Val v = addE();
        for (;;) {
            if (eat("==")) v = Val((double)(v.n() == addE().n())); else if (eat("!=")) v = Val((double)(v.n() != addE().n()));
            else if (eat("<=")) v = Val((double)(v.n() <= addE().n())); else if (eat(">=")) v = Val((double)(v.n() >= addE().n()));
            else if (eat("<")) v = Val((double)(v.n() < addE().n())); else if (eat(">")) v = Val((double)(v.n() > addE().n()));
            else return v;
        }
    }
    Val addE() { Val v = mulE(); for (;;) { if (eat("+")) v = Val(v.n() + mulE().n()); else if (eat("-")) v = Val(v.n() - mulE().n()); else return v; } }
    Val mulE() { Val v = unE(); for (;;) { if (eat("*")) v = Val(v.n() * unE().n()); else if (eat("/")) v = Val(v.n() / unE().n()); else return v; } }
    Val unE() {
        skip(); MC_REQUIRE(x_ < e_.size(), "front-end-template", here_ << ": cannot evaluate " << e_);
        if (eat("!")) return Val((double)(unE().n() == 0));
        if (eat("-")) return Val(-unE().n());
        if (eat("(")) { Val v = orE(); eat(")"); return v; }
        if (e_[x_] == '"') { size_t k = e_.find('"', x_ + 1); Str s = e_.substr(x_ + 1, k - x_ - 1); x_ = k + 1; return Val(s); }
        if (isdigit((unsigned char)e_[x_]) || e_[x_] == '.') { char* end; double d = strtod(e_.c_str() + x_, &end); x_ = end - e_.c_str(); return Val(d); }
        if (e_[x_] == '*') x_++;                                                  // a field written as in text
        size_t k = x_; while (k < e_.size() && (isalnum((unsigned char)e_[k]) || e_[k] == '_')) k++;
        MC_REQUIRE(k > x_, "front-end-template", here_ << ": cannot evaluate " << e_);
        Str n = low(e_.substr(x_, k - x_)), args; if (k < e_.size() && e_[k] == '(') { Str t = e_; args = parens(t, k, &k); } x_ = k;
        if (n == "strcmp" || n == "strcasecmp") {
            auto a = split(args, ','); MC_REQUIRE(a.size() == 2, "front-end-template", here_ << ": " << e_); Str l = expr(a[0]).s, r = expr(a[1]).s;
            return Val((double)(n == "strcmp" ? strcmp(l.c_str(), r.c_str()) : strcasecmp(l.c_str(), r.c_str())));
        }
        return field(n, args);
    }
};
// what GiD tells to the procedures about the project
inline void tell(Project& p) {
    Str s = "set ::M(process) {}; set ::M(surfaces) 7; set ::M(warn) {}\n";
    for (auto& c : p.conds) {
        Str l; for (auto& e : c.second) { Str it = e.f.meshType.find("node") != Str::npos ? "N " : "E "; it += std::to_string(e.ent) + " -"; for (auto& q : e.f.q) it += " " + tclWord(q.value); l += " {" + it + "}"; }
        s += "set {::M(cond," + c.first + ")} {" + l + "}\n";
    }
    Str names; for (auto& l : p.layers) { s += "set {::M(bbox," + l.name + ")} {" + l.box + "}\n"; names += " " + tclWord(l.name); }
    s += "set ::M(layers) {" + names + "}\nset ::M(axes) {" + p.axes + "}\n";
    for (auto& q : p.points) s += "set ::M(point," + std::to_string(q.first) + ") {" + q.second + "}\n";
    s += "set ::M(cartesian,corner) {" + p.corner + "}\nset ::M(cartesian,boxsize) {" + p.boxsize + "}\nset ::M(cartesian,ngridpoints) {" + p.ngrid + "}\nset ::M(cartesian,coordinates) {" + p.xyz + "}\n";
    bool bad; Str r = Tcl::get().eval(s, bad); MC_REQUIRE(!bad, "harness", r);
}
} // namespace gid

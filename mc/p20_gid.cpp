// P20: every small problem exported to GiD post-processing files, which are
// read back by an independent reader and compared with the problem; and every
// interleaving of the lifetimes of several exporters, with failures.
#include "view.h"
#include "exporter/gid/Exporter.h"
#include "zlib.h"
#include <sys/stat.h>
using namespace view;
typedef SEMBA::Exporter::GiD::Exporter Gid;
// ---- a GiD mesh file: blocks of one kind of element with their coordinates
struct Reader { std::map<long, R3> xyz; std::set<long> elems; std::vector<Part> parts; Str file; };
static const struct { const char* n; int t; int k; } KINDS[] = {{"Point", NODE, 1}, {"Linear", LINE, 2}, {"Triangle", TRI3, 3}, {"Quadrilateral", QUAD, 4}, {"Tetrahedra", TET4, 4}, {"Hexahedra", HEX, 8}};
static int header(const Str& l, Part& q, Reader& r) {
    size_t a = l.find('"'), b = l.rfind('"');
    MC_REQUIRE(l.compare(0, 6, "MESH \"") == 0 && b > a, "malformed", r.file << ": '" << l << "' instead of a mesh");
    q.name = l.substr(a + 1, b - a - 1);
    MC_REQUIRE(q.name.find('"') == Str::npos, "malformed", r.file << ": '" << l << "'");
    char type[40] = ""; int dim = 0, n = 0, used = 0;
    MC_REQUIRE(sscanf(l.c_str() + b + 1, " dimension %d ElemType %39s Nnode %d%n", &dim, type, &n, &used) == 3 && !l[b + 1 + used] && dim == 3, "malformed", r.file << ": '" << l << "'");
    for (int k = 0; k < 6; k++) if (Str(type) == KINDS[k].n) { MC_REQUIRE(n == KINDS[k].k, "malformed", r.file << ": '" << l << "'"); return k; }
    MC_REQUIRE(false, "malformed", r.file << ": '" << l << "'"); return 0;
}
static void addElem(Reader& r, Part& q, int kind, long id, const std::vector<long>& n) {
    MC_REQUIRE(id > 0 && r.elems.insert(id).second, "element-twice", r.file << ": element " << id);
    Cell c{KINDS[kind].t, {}};
    for (long k : n) { MC_REQUIRE(r.xyz.count(k), "vertex-missing", r.file << ": vertex " << k << " of element " << id); c.v.push_back(r.xyz[k]); }
    q.cells.push_back(c);
}
static void addPoint(Reader& r, long id, double x, double y, double z) { MC_REQUIRE(id > 0 && !r.xyz.count(id), "vertex-twice", r.file << ": vertex " << id); r.xyz[id] = R3(x, y, z); }
static Reader readAscii(const Str& file) {
    Reader r; r.file = file; std::istringstream in(slurp(file)); Str l;
    auto line = [&] { while (std::getline(in, l)) if (l.find_first_not_of(" \t\r") != Str::npos && l[0] != '#') return true; return false; };
    auto fields = [&](size_t n) { std::vector<double> v; std::istringstream i(l); Str w; char* e; while (i >> w) { v.push_back(strtod(w.c_str(), &e)); MC_REQUIRE(!*e, "malformed", file << ": '" << l << "'"); } MC_REQUIRE(v.size() == n, "malformed", file << ": '" << l << "'"); return v; };
    while (line()) {
        Part q{"", {}, false}; int k = header(l, q, r);
        MC_REQUIRE(line() && l == "Coordinates", "malformed", file << ": '" << l << "'");
        while (line() && l != "End Coordinates") { auto v = fields(4); addPoint(r, (long)v[0], v[1], v[2], v[3]); }
        MC_REQUIRE(l == "End Coordinates" && line() && l == "Elements", "malformed", file << ": '" << l << "'");
        while (line() && l != "End Elements") { auto v = fields(1 + KINDS[k].k); addElem(r, q, k, (long)v[0], std::vector<long>(v.begin() + 1, v.end())); }
        MC_REQUIRE(l == "End Elements", "malformed", file << " ends within a mesh");
        r.parts.push_back(q);
    }
    return r;
}
static Reader readBinary(const Str& file) {
    Reader r; r.file = file; Str s;
    gzFile z = gzopen(file.c_str(), "rb"); MC_REQUIRE(z, "file-missing", file);
    char buf[4096]; int n; while ((n = gzread(z, buf, sizeof buf)) > 0) s.append(buf, n); gzclose(z);
    MC_REQUIRE(n == 0, "malformed", file << " is damaged");
    size_t i = 4;
    auto word = [&] { int v; MC_REQUIRE(i + 4 <= s.size(), "malformed", file << " ends early"); memcpy(&v, &s[i], 4); i += 4; return v; };
    auto real = [&] { float v; MC_REQUIRE(i + 4 <= s.size(), "malformed", file << " ends early"); memcpy(&v, &s[i], 4); i += 4; return double(v); };
    auto text = [&] { int k = word(); MC_REQUIRE(k > 0 && i + k <= s.size() && s[i + k - 1] == 0, "malformed", file << ": no text at " << i); Str t(&s[i], k - 1); i += k; return t; };
    Str h = text(); MC_REQUIRE(h.compare(0, 7, "GiDPost") == 0, "malformed", file << ": header '" << h << "'");
    static const Str endC("End Coordinates"), endE("End Elements");
    // a record starts with its number; the end of a list is the text that closes it, with or without a -1 before
    auto ends = [&](const Str& e) { size_t j = i; int v; if (j + 4 <= s.size()) { memcpy(&v, &s[j], 4); if (v == -1) j += 4; } if (j + 4 + e.size() < s.size() + 0 || j + 5 + e.size() <= s.size()) { memcpy(&v, &s[j], 4); if (v == (int)e.size() + 1 && s.compare(j + 4, e.size(), e) == 0) { i = j + 5 + e.size(); return true; } } return false; };
    while (i < s.size()) {
        Part q{"", {}, false}; int k = header(text(), q, r);
        Str t = text(); MC_REQUIRE(t.compare(0, 11, "Coordinates") == 0, "malformed", file << ": '" << t << "'");
        while (!ends(endC)) { long id = word(); double x = real(), y = real(), zz = real(); addPoint(r, id, x, y, zz); }
        t = text(); MC_REQUIRE(t.compare(0, 8, "Elements") == 0, "malformed", file << ": '" << t << "'");
        while (!ends(endE)) { long id = word(); std::vector<long> v; for (int j = 0; j < KINDS[k].k; j++) v.push_back(word()); word(); addElem(r, q, k, id, v); }
        r.parts.push_back(q);
    }
    return r;
}
// parts of the same name and kind are one
static std::vector<Part> merged(const std::vector<Part>& in) {
    std::map<std::pair<Str, int>, Part> m;
    for (auto& q : in) for (auto& c : q.cells) {
        if (c.type == POLYLINE || c.type == POLYGON) continue;                   // GiD has no such elements
        Str n; for (char ch : q.name) if (ch != '\n') n += ch == '"' ? '\'' : ch == ' ' ? '_' : ch;
        Part& p = m[std::make_pair(n, c.type)]; p.name = MC_STR(n << " of kind " << typeNameR[c.type] << "."); p.grid |= q.grid; p.cells.push_back(c);
    }
    std::vector<Part> r; for (auto& x : m) r.push_back(x.second); return r;
}
static std::vector<Part> wanted(const Spec& s, const Data& d) {
    std::vector<Part> r = expected(s, d);
    if (s.str) {
        R3 lo(s.ax[0].front(), s.ax[1].front(), s.ax[2].front()), hi(s.ax[0].back(), s.ax[1].back(), s.ax[2].back());
        for (int k = 0; k < 6; k++) if (!s.bound[k]) {
            int a = k / 2; R3 q = lo; q(a) = k % 2 ? hi(a) : lo(a); Cell c{QUAD, {q, q, q, q}}; int b = (a + 1) % 3, e = (a + 2) % 3;
            c.v[1](b) = hi(b); c.v[2](b) = hi(b); c.v[2](e) = hi(e); c.v[3](e) = hi(e);
            r.push_back(Part{"Undefined@Boundary", {c}, true});
        }
    }
    if (s.solver == 2 && s.scale != 0) for (auto& q : r) for (auto& c : q.cells) for (auto& v : c.v) v = mul(v, 1 / s.scale);
    return merged(r);
}
static Str render(const std::vector<Part>& v) { Str s; for (auto& q : v) s += rPart(q); return s; }
static void verify(const Spec& s, const Data& d, const Str& fn, bool binary) {
    Reader r = binary ? readBinary(fn + ".post.res") : readAscii(fn + ".post.msh");
    auto w = wanted(s, d), g = merged(r.parts);
    compare(w, g, binary ? 1e-6 : 1e-9, r.file);
    mc::state(render(g));
}
static void exportAndRead(const Spec& s, const Str& fn, bool binary = false) {
    auto d = make(s); Str before = renderData(*d);
    { Gid e(d.get(), fn, binary ? GiD_PostBinary : GiD_PostAscii); mc::step(); }
    MC_CHECK(renderData(*d) == before, "problem-changed", renderData(*d) << " instead of " << before);
    verify(s, *d, fn, binary);
}
static bool fitsFloat(const Spec& s) { for (auto& q : s.pool) for (int d = 0; d < 3; d++) if (std::fabs(q(d)) > 1e30 || (q(d) != 0 && std::fabs(q(d)) < 1e-30)) return false; return true; }
static void clean() { wipe("out"); mkdir("out", 0755); mkdir("out/in ner", 0755); remove("case.post.msh"); remove("case.post.res"); }
static void body() {
    std::vector<Spec> some, few; int n = 0, every = mc::pick(4, 1);
    visit([&](const Str& what, const Spec& s) {
        mc::run([&] { return what + ": " + rSpec(s); }, [&] { wipe("out"); mkdir("out", 0755); exportAndRead(s, "out/case"); mc::outcome(what); });
        if (n % 997 == 0 && what != "magnitudes") few.push_back(s);
        if (n % mc::pick(97, 37) == 0 && what != "magnitudes") some.push_back(s);
        if (n++ % every == 0 && fitsFloat(s)) mc::run([&] { return "binary, " + what + ": " + rSpec(s); }, [&] { wipe("out"); mkdir("out", 0755); exportAndRead(s, "out/case", true); mc::outcome("binary, " + what); });
    });
    // names with quotes and line breaks
    static const std::vector<Str> odd = {"a\"b", "\"", "a\nb", "a'b", "plain"};
    for (auto& x : odd) for (auto& y : odd) for (int k = 0; k < 3; k++) {
        Spec s = base(); if (k == 0) s.lay = {x, y}; else if (k == 1) s.mat = {x, y};
        for (int l = 1; l < 3; l++) for (int q = 1; q < 3; q++) s.el.push_back(PE{TRI3, l, q, vertsOf(TRI3, l + 3 * q), size_t(l + 2 * q)});
        if (k == 2) s.req = {Req{x, {0, 1}}, Req{y, {3}}};
        for (int b = 0; b < 2; b++) mc::run([&] { return "names: " + rSpec(s); }, [&] { clean(); exportAndRead(s, "out/case", b); mc::outcome("odd names"); });
    }
    // the problem's scale is taken back in the file, and only there
    static const double scales[] = {1, 1e-3, 0.5, 4, 0, 25.4e-3, 1e-9};
    for (auto& s0 : some) for (int k = 0; k < 8; k++) for (int b = 0; b < 2; b++) {
        Spec s = s0; s.solver = k == 7 ? 1 : 2; s.scale = k == 7 ? 1 : scales[k];
        mc::run([&] { return MC_STR((b ? "binary, " : "") << "scaled: " << rSpec(s)); }, [&] { clean(); exportAndRead(s, "out/case", b); mc::outcome("scaled"); });
    }
    // where the files go, and again over former ones
    static const std::vector<Str> fns = {"case", "out/case", "out/a.b", "out/a b", "out/in ner/case", "./out/case", "out/x.dat", "out/a&b", "out/.hidden", "out//case", "out/it's"};
    for (auto& fn : fns) for (size_t a = 0; a < few.size(); a++) for (size_t b = 0; b <= few.size(); b++) for (int bin = 0; bin < 2; bin++) {
        if (b < few.size() && (a + b) % mc::pick(7, 1)) continue;
        mc::run([&] { return MC_STR("to '" << fn << "': " << rSpec(few[a]) << (b < few.size() ? " then " + rSpec(few[b]) : "")); }, [&] {
            clean(); exportAndRead(few[a], fn, bin); if (b < few.size()) exportAndRead(few[b], fn, bin); mc::outcome("places");
        });
    }
    // every interleaving of the lifetimes of three exporters, any of which may be unable to write
    std::vector<std::vector<int>> orders;
    { std::vector<int> o; std::function<void()> rec = [&] { if (o.size() == 6) { orders.push_back(o); return; } for (int k = 0; k < 3; k++) { int c = std::count(o.begin(), o.end(), k); if (c < 2) { o.push_back(k); rec(); o.pop_back(); } } }; rec(); }
    for (auto& o : orders) for (int fail = 0; fail < 8; fail++) for (int bin = 0; bin < 8; bin++) for (size_t a = 0; a < mc::pick<size_t>(1, few.size()); a++)
        mc::run([&] { Str r = "lifetimes"; for (int k : o) r += MC_STR(" " << k); return MC_STR(r << " failing " << fail << " binary " << bin << " from " << rSpec(few[a])); }, [&] {
            clean(); std::unique_ptr<Data> d[3]; std::unique_ptr<Gid> e[3]; bool seen[3] = {false, false, false}; Spec s[3];
            static const char* const where[] = {"out/a", "out/b", "out/in ner/c"};
            for (int k = 0; k < 3; k++) { s[k] = few[(a + 3 * k) % few.size()]; d[k] = make(s[k]); }
            for (int k : o) {
                if (!seen[k]) {
                    seen[k] = true; GiD_PostMode m = bin >> k & 1 ? GiD_PostBinary : GiD_PostAscii; mc::step();
                    if (fail >> k & 1) MC_CHECK(MC_THROWS(Gid(d[k].get(), "out/nowhere/x", m)), "failure-unreported", k); else e[k].reset(new Gid(d[k].get(), where[k], m));
                } else { e[k].reset(); mc::step(); if (!(fail >> k & 1)) verify(s[k], *d[k], where[k], bin >> k & 1); }
            }
            for (int k = 0; k < 3; k++) if (!(fail >> k & 1)) verify(s[k], *d[k], where[k], bin >> k & 1);
            mc::outcome("lifetimes");
        });
    // places which cannot be written are reported
    for (int k = 0; k < 3; k++) for (int b = 0; b < 2; b++) for (auto& s : few)
        mc::run([&] { return MC_STR("place " << k << " which cannot be written, binary " << b << ": " << rSpec(s)); }, [&] {
            clean(); { std::ofstream f("out/file"); f << "x"; } Str fn = k == 0 ? "out/nowhere/case" : k == 1 ? "out/file/case" : "out/case";
            if (k == 2) for (const char* q : {"out/case.post.msh", "out/case.post.res"}) { mkdir(q, 0755); std::ofstream f(Str(q) + "/x"); f << "x"; }
            auto d = make(s); Str before = renderData(*d); mc::step();
            MC_CHECK(MC_THROWS(Gid(d.get(), fn, b ? GiD_PostBinary : GiD_PostAscii)), "failure-unreported", fn);
            MC_CHECK(renderData(*d) == before, "problem-changed", renderData(*d)); mc::outcome("failures");
        });
}
int main(int argc, char** argv) { return mc::main_(argc, argv, body); }

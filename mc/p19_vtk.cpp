// P19: every small problem exported to VTK files, which are read back by an
// independent reader and compared with the problem.
#include "view.h"
#include "exporter/vtk/Exporter.h"
#include <sys/stat.h>
#include <dirent.h>
using namespace view;
// ---- XML
struct Tag { Str name, text; std::map<Str, Str> at; std::vector<Tag> in; };
struct Xml {
    const Str& s; size_t i = 0; Str file;
    Xml(const Str& s, const Str& f) : s(s), file(f) {}
    [[noreturn]] void bad(const Str& why) { mc::violation("malformed", MC_STR(file << " at byte " << i << ": " << why << ": " << s.substr(i > 60 ? i - 60 : 0, 120))); throw mc::CaseAbort(); }
    void ws() { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
    bool name0(char c) { return isalpha((unsigned char)c) || c == '_'; }
    Str name() { size_t b = i; if (i >= s.size() || !name0(s[i])) bad("a name expected"); while (i < s.size() && (name0(s[i]) || isdigit((unsigned char)s[i]) || s[i] == '-' || s[i] == '.')) i++; return s.substr(b, i - b); }
    Str decode(const Str& t) {
        Str r;
        for (size_t k = 0; k < t.size(); k++) {
            if (t[k] == '<') bad("'<' in a text");
            if (t[k] != '&') { if ((unsigned char)t[k] < 32 && !isspace((unsigned char)t[k])) bad("a control character"); r += t[k]; continue; }
            size_t e = t.find(';', k); if (e == Str::npos) bad("'&' in a text");
            Str n = t.substr(k + 1, e - k - 1);
            static const std::map<Str, Str> ent = {{"amp", "&"}, {"lt", "<"}, {"gt", ">"}, {"quot", "\""}, {"apos", "'"}};
            if (ent.count(n)) r += ent.at(n);
            else if (n.size() > 1 && n[0] == '#') { int v = n[1] == 'x' ? strtol(n.c_str() + 2, 0, 16) : atoi(n.c_str() + 1); if (v <= 0 || v > 127) bad("entity"); r += char(v); }
            else bad("entity '" + n + "'");
            k = e;
        }
        return r;
    }
    Tag tag() {
        Tag t; if (s[i] != '<') bad("a tag expected"); i++; t.name = name();
        for (;;) {
            size_t b = i; ws(); if (i >= s.size()) bad("the file ends within a tag");
            if (s[i] == '/') { i++; if (s[i] != '>') bad("'>' expected"); i++; return t; }
            if (s[i] == '>') { i++; break; }
            if (b == i) bad("a blank expected");
            Str n = name(); ws(); if (s[i] != '=') bad("'=' expected"); i++; ws();
            char q = s[i]; if (q != '"' && q != '\'') bad("a quote expected"); i++;
            size_t e = s.find(q, i); if (e == Str::npos) bad("a quote is left open");
            if (t.at.count(n)) bad("attribute twice"); t.at[n] = decode(s.substr(i, e - i)); i = e + 1;
        }
        for (;;) {
            size_t e = s.find('<', i); if (e == Str::npos) bad("the file ends within <" + t.name + ">");
            t.text += decode(s.substr(i, e - i)); i = e;
            if (s[i + 1] == '/') { i += 2; if (name() != t.name) bad("<" + t.name + "> is closed by another tag"); ws(); if (s[i] != '>') bad("'>' expected"); i++; return t; }
            if (s.compare(i, 4, "<!--") == 0) { e = s.find("-->", i); if (e == Str::npos) bad("comment"); i = e + 3; continue; }
            t.in.push_back(tag());
        }
    }
    Tag root() {
        ws(); if (s.compare(i, 2, "<?") == 0) { size_t e = s.find("?>", i); if (e == Str::npos) bad("prolog"); i = e + 2; }
        ws(); Tag t = tag(); ws(); if (i != s.size()) bad("something behind the root"); return t;
    }
};
static const Tag& child(const Tag& t, const Str& n, const Str& where) { const Tag* r = nullptr; for (auto& c : t.in) if (c.name == n) { MC_REQUIRE(!r, "layout", where << ": two <" << n << ">"); r = &c; } MC_REQUIRE(r, "layout", where << ": no <" << n << "> in <" << t.name << ">"); return *r; }
static Str attr(const Tag& t, const Str& n, const Str& where) { MC_REQUIRE(t.at.count(n), "layout", where << ": <" << t.name << "> without " << n); return t.at.at(n); }
static std::vector<double> numbers(const Tag& a, bool whole, const Str& where) {
    Str f = attr(a, "format", where), ty = attr(a, "type", where); MC_REQUIRE(f == "ascii", "layout", where << " " << f);
    MC_REQUIRE((ty.compare(0, 5, "Float") == 0) != whole, "layout", where << ": type " << ty);
    std::vector<double> r; std::istringstream i(a.text); Str w; char* e;
    while (i >> w) { double v = strtod(w.c_str(), &e); MC_REQUIRE(!*e && (!whole || v == floor(v)), "layout", where << ": '" << w << "' is no number"); r.push_back(v); }
    return r;
}
static Part readVtu(const Str& file, const Str& group) {
    Str text = slurp(file); Tag root = Xml(text, file).root();
    MC_REQUIRE(root.name == "VTKFile" && attr(root, "type", file) == "UnstructuredGrid", "layout", file << " is no unstructured grid");
    const Tag& ug = child(root, "UnstructuredGrid", file);
    const Tag* pc = &ug; for (auto& c : ug.in) if (c.name == "Piece") pc = &child(ug, "Piece", file);
    size_t np = atol(attr(*pc, "NumberOfPoints", file).c_str()), nc = atol(attr(*pc, "NumberOfCells", file).c_str());
    const Tag& pa = child(child(*pc, "Points", file), "DataArray", file);
    MC_REQUIRE(attr(pa, "NumberOfComponents", file) == "3", "layout", file << ": components");
    auto pos = numbers(pa, false, file);
    MC_REQUIRE(pos.size() == 3 * np, "counts", file << ": " << pos.size() << " coordinates for " << np << " points");
    std::map<Str, std::vector<double>> arr;
    for (auto& c : child(*pc, "Cells", file).in) arr[attr(c, "Name", file)] = numbers(c, true, file);
    auto &con = arr["connectivity"], &off = arr["offsets"], &typ = arr["types"];
    MC_REQUIRE(off.size() == nc && typ.size() == nc, "counts", file << ": " << off.size() << " offsets and " << typ.size() << " types for " << nc << " cells");
    MC_REQUIRE(nc == 0 || off.back() == con.size(), "counts", file << ": last offset");
    Part r{group, {}, false}; size_t b = 0;
    static const std::map<int, int> kinds = {{1, NODE}, {3, LINE}, {4, POLYLINE}, {5, TRI3}, {7, POLYGON}, {9, QUAD}, {10, TET4}, {12, HEX}, {22, TRI3}, {24, TET4}};
    static const std::map<int, size_t> size = {{1, 1}, {3, 2}, {5, 3}, {9, 4}, {10, 4}, {12, 8}, {22, 6}, {24, 10}};
    for (size_t i = 0; i < nc; i++) {
        MC_REQUIRE(off[i] > b, "counts", file << ": offsets do not grow");
        int t = typ[i]; MC_REQUIRE(kinds.count(t), "cell-type", file << ": cell of type " << t);
        MC_REQUIRE(!size.count(t) || size.at(t) == off[i] - b, "cell-type", file << ": cell of type " << t << " with " << off[i] - b << " vertices");
        Cell c{kinds.at(t), {}};
        for (; b < off[i]; b++) { MC_REQUIRE(con[b] >= 0 && con[b] < np, "counts", file << ": vertex " << con[b] << " of " << np); size_t k = con[b]; c.v.push_back(R3(pos[3 * k], pos[3 * k + 1], pos[3 * k + 2])); }
        if (t == 22) c.v.resize(3); if (t == 24) c.v.resize(4);
        if (c.type == POLYLINE && c.v.size() == 2) c.type = LINE;
        r.cells.push_back(c);
    }
    return r;
}
static std::vector<Part> readPvd(const Str& fn) {
    Str file = fn + ".pvd", text = slurp(file); Tag root = Xml(text, file).root();
    MC_REQUIRE(root.name == "VTKFile" && attr(root, "type", file) == "Collection", "layout", file << " is no collection");
    size_t slash = fn.rfind('/'); Str dir = slash == Str::npos ? "" : fn.substr(0, slash + 1);
    std::vector<Part> r; std::set<Str> parts, files;
    for (auto& d : child(root, "Collection", file).in) {
        MC_REQUIRE(d.name == "DataSet", "layout", file << ": <" << d.name << ">");
        Str f = attr(d, "file", file);
        MC_REQUIRE(parts.insert(attr(d, "part", file)).second, "same-part", file << ": part " << attr(d, "part", file) << " twice");
        MC_REQUIRE(files.insert(f).second, "same-file", file << ": file " << f << " twice");
        MC_REQUIRE(f.find("..") != 0 && f[0] != '/', "layout", file << ": file " << f);
        r.push_back(readVtu(dir + f, attr(d, "group", file)));
    }
    return r;
}
static void exportAndRead(const Spec& s, const Str& fn, double tol = 1e-9) {
    auto d = make(s);
    Str before = renderData(*d);
    { SEMBA::Exporter::VTK::Exporter e(d.get(), fn); mc::step(); }
    MC_CHECK(renderData(*d) == before, "problem-changed", renderData(*d) << " instead of " << before);
    auto got = readPvd(fn);
    compare(expected(s, *d), got, tol, fn + ".pvd");
    Str st; for (auto& q : got) st += rPart(q); mc::state(st);
}
static void body() {
    visit([](const Str& what, const Spec& s) {
        mc::run([&] { return what + ": " + rSpec(s); }, [&] { wipe("out"); mkdir("out", 0755); exportAndRead(s, "out/case"); mc::outcome(what); });
    });
    // where the files go; a second export in the same place shows the second problem
    static const std::vector<Str> fns = {"case", "out/case", "out/a.b", "out/a b", "out/in ner/case", "./out/case", "out/./case", "out/x.dat", "out/a&b", "out/a<b>", "out/.hidden", "out//case", "out/it's", "out/a\"b"};
    std::vector<Spec> specs; { int k = 0; visit([&](const Str& w, const Spec& s) { if (k++ % (mc::thorough() ? 211 : 997) == 0 && w != "magnitudes") specs.push_back(s); }); }
    for (auto& fn : fns) for (size_t a = 0; a < specs.size(); a++) for (size_t b = 0; b <= specs.size(); b++) {
        if (b < specs.size() && (a + b) % 7) continue;
        mc::run([&] { return MC_STR("to '" << fn << "': " << rSpec(specs[a]) << (b < specs.size() ? " then " + rSpec(specs[b]) : "")); }, [&] {
            wipe("out"); mkdir("out", 0755); mkdir("out/in ner", 0755); wipe("case.vtk"); remove("case.pvd");
            exportAndRead(specs[a], fn);
            if (b < specs.size()) exportAndRead(specs[b], fn);
            mc::outcome("places");
        });
    }
    // places which cannot be written are reported
    static const char* const badWhy[] = {"folder missing", "folder is a file", "a folder in place of the collection", "a file in place of the folder of parts", "a folder in place of a part", "name too long"};
    for (int k = 0; k < 6; k++) for (size_t a = 0; a < specs.size(); a++)
        mc::run([&] { return MC_STR(badWhy[k] << ": " << rSpec(specs[a])); }, [&] {
            wipe("out"); mkdir("out", 0755); Spec s = specs[a]; s.lay = {"body"}; s.mat.clear(); s.str = false; s.pool = pool14(); s.src.clear(); s.req.clear(); s.el = {PE{LINE, 1, 0, {0, 1}, 1}, PE{TRI3, 1, 0, {0, 1, unsigned(2 + a % 5)}, 3}};
            Str fn = "out/case"; { std::ofstream f("out/file"); f << "x"; }
            if (k == 0) fn = "out/nowhere/case"; else if (k == 1) fn = "out/file/case"; else if (k == 2) mkdir("out/case.pvd", 0755);
            else if (k == 3) { std::ofstream f("out/case.vtk"); f << "x"; } else if (k == 4) { mkdir("out/case.vtk", 0755); mkdir("out/case.vtk/body.vtu", 0755); } else s.lay = {Str(300, 'n')};
            auto d = make(s); Str before = renderData(*d);
            bool th = MC_THROWS(SEMBA::Exporter::VTK::Exporter(d.get(), fn)); mc::step();
            MC_CHECK(th, "failure-unreported", fn); MC_CHECK(renderData(*d) == before, "problem-changed", renderData(*d)); mc::outcome(badWhy[k]);
        });
}
int main(int argc, char** argv) { return mc::main_(argc, argv, body); }

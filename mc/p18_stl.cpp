// P18: STL files against an independent reader of the same grammar.
#include "mc.h"
#include "parser/stl/Parser.h"
#include "physicalModel/Group.h"
#include "source/Group.h"
#include "outputRequest/Group.h"
#include "solver/Info.h"
using namespace SEMBA;
typedef std::string Str;
struct V { double x, y, z; bool operator==(const V& o) const { return x == o.x && y == o.y && z == o.z; } };
struct Tri { size_t solid; V v[3]; };
struct Ref { enum { ACCEPT, EITHER, REFUSE } verdict; std::vector<Str> names; std::vector<Tri> tris; };

static bool number(const Str& s, double& d) {
    if (s.empty() || s.find_first_not_of("+-.0123456789eE") != Str::npos) return false;
    char* e; d = strtod(s.c_str(), &e); return *e == 0;
}
// Grammar: lines; one statement each.  A token sequence that matches the
// grammar but not line by line is left open (EITHER).
static Ref reference(const Str& text) {
    Ref r; r.verdict = Ref::ACCEPT;
    std::vector<std::vector<Str>> lines;
    std::istringstream in(text); Str l;
    while (std::getline(in, l)) {
        std::istringstream li(l); std::vector<Str> t; Str w;
        while (li >> w) t.push_back(w);
        if (!t.empty()) lines.push_back(t);
    }
    struct Tok { Str s; size_t line; bool first; };
    std::vector<Tok> tk;
    for (size_t i = 0; i < lines.size(); i++) for (size_t j = 0; j < lines[i].size(); j++) tk.push_back(Tok{lines[i][j], i, j == 0});
    size_t p = 0;
    auto refuse = [&] { r.verdict = Ref::REFUSE; return r; };
    auto soft = [&] { if (r.verdict == Ref::ACCEPT) r.verdict = Ref::EITHER; };
    auto is = [&](const char* s) { return p < tk.size() && tk[p].s == s; };
    while (p < tk.size()) {
        if (!is("solid")) return refuse();
        if (!tk[p].first) soft();
        size_t line = tk[p].line; p++;
        Str name; size_t n = 0;
        while (p < tk.size() && tk[p].line == line) { if (n++ == 0) name = tk[p].s; p++; }
        if (n > 1) soft();
        r.names.push_back(name);
        while (!is("endsolid")) {
            size_t from = p;
            static const char* words[] = {"facet", "normal"};
            for (const char* w : words) { if (!is(w)) return refuse(); p++; }
            for (int i = 0; i < 3; i++, p++) { double d; if (p >= tk.size()) return refuse(); if (!number(tk[p].s, d)) soft(); }
            if (!is("outer")) return refuse(); p++;
            if (!is("loop")) return refuse(); p++;
            Tri t; t.solid = r.names.size() - 1;
            for (int k = 0; k < 3; k++) {
                if (!is("vertex")) return refuse(); p++;
                double c[3];
                for (int i = 0; i < 3; i++, p++) if (p >= tk.size() || !number(tk[p].s, c[i])) return refuse();
                t.v[k] = V{c[0], c[1], c[2]};
            }
            if (!is("endloop")) return refuse(); p++;
            if (!is("endfacet")) return refuse(); p++;
            r.tris.push_back(t);
            static const size_t starts[] = {0, 5, 7, 11, 15, 19, 20};       // statements of a facet
            for (size_t i = from; i < p; i++) {
                bool st = std::find(starts, starts + 7, i - from) != starts + 7;
                if (st != tk[i].first) soft();
            }
        }
        if (!tk[p].first) soft();
        line = tk[p].line; p++; n = 0;
        while (p < tk.size() && tk[p].line == line) { p++; n++; }
        if (n > 1) soft();
    }
    return r;
}

static void judge(const Str& text) {
    Ref ref = reference(text);
    std::istringstream is(text);
    Parser::STL::Parser parser;
    Data d; bool thrown = false;
    try { Data got = parser.read(is); std::swap(d.mesh, got.mesh); std::swap(d.physicalModels, got.physicalModels); std::swap(d.sources, got.sources); std::swap(d.outputRequests, got.outputRequests); }
    catch (const std::exception& e) { thrown = true; }
    mc::step();
    mc::state(text);
    if (thrown) { MC_CHECK(ref.verdict != Ref::ACCEPT, "valid-file-refused", "a valid file was refused"); mc::outcome("refused"); return; }
    mc::outcome(ref.verdict == Ref::ACCEPT ? "accepted" : "accepted (form left open)");
    MC_REQUIRE(ref.verdict != Ref::REFUSE, "malformed-file-accepted", "a malformed or truncated file was accepted");
    MC_REQUIRE(d.mesh && d.mesh->is<Geometry::Mesh::Geometric>(), "no-mesh", "no geometric mesh");
    const Geometry::Mesh::Geometric* m = d.mesh->castTo<Geometry::Mesh::Geometric>();
    size_t nl = m->layers().size(), ne = m->elems().size();
    MC_REQUIRE(nl == ref.names.size(), "number-of-layers", nl << " layers for " << ref.names.size() << " solids");
    MC_REQUIRE(ne == ref.tris.size(), "number-of-triangles", ne << " elements for " << ref.tris.size() << " facets");
    std::set<size_t> lids, eids, cids;
    for (size_t i = 0; i < nl; i++) {
        const Geometry::Layer::Layer* l = m->layers()(i);
        lids.insert(l->getId().toInt());
        MC_CHECK(l->getName() == ref.names[i], "layer-name", "layer " << i << " named '" << l->getName() << "' instead of '" << ref.names[i] << "'");
        MC_CHECK(m->layers().getId(l->getId()) == l, "layer-id", "layer " << i << " is not found by its id");
    }
    MC_CHECK(lids.size() == nl && !lids.count(0), "layer-id", "layer ids are not distinct and non-null");
    std::set<const Geometry::CoordR3*> own;
    for (size_t i = 0; i < m->coords().size(); i++) {
        own.insert(m->coords()(i)); cids.insert(m->coords()(i)->getId().toInt());
        V v{m->coords()(i)->pos()(0), m->coords()(i)->pos()(1), m->coords()(i)->pos()(2)};
        bool found = false;
        for (auto& t : ref.tris) for (auto& c : t.v) found |= c == v;
        MC_CHECK(found, "vertex-not-in-file", "vertex " << v.x << " " << v.y << " " << v.z << " is not in the file");
    }
    MC_CHECK(cids.size() == own.size() && !cids.count(0), "vertex-id", "vertex ids are not distinct and non-null");
    std::vector<std::pair<V, const Geometry::CoordR3*>> seen;
    for (size_t i = 0; i < ne; i++) {
        const Geometry::ElemR* e = m->elems()(i);
        eids.insert(e->getId().toInt());
        MC_REQUIRE(e->is<Geometry::Tri3>() && e->numberOfCoordinates() == 3, "element-type", "element " << i << " is not a triangle of three corners");
        for (size_t k = 0; k < 3; k++) {
            const Geometry::CoordR3* c = e->getV(k);
            MC_REQUIRE(own.count(c), "foreign-vertex", "corner " << k << " of triangle " << i << " is not a vertex of the mesh");
            V v{c->pos()(0), c->pos()(1), c->pos()(2)};
            MC_CHECK(v == ref.tris[i].v[k], "corner-position", "corner " << k << " of triangle " << i << " is at " << v.x << " " << v.y << " " << v.z
                     << " instead of " << ref.tris[i].v[k].x << " " << ref.tris[i].v[k].y << " " << ref.tris[i].v[k].z);
            for (auto& s : seen) if (s.first == v) MC_CHECK(s.second == c, "corner-not-shared", "corner " << k << " of triangle " << i << " is not the vertex other facets use at that position");
            seen.push_back(std::make_pair(v, c));
        }
        MC_CHECK(e->getLayer() == m->layers()(ref.tris[i].solid), "layer-of-triangle", "triangle " << i << " is not in the layer of solid " << ref.tris[i].solid);
        MC_REQUIRE(e->getModel() != nullptr, "model", "triangle " << i << " has no material");
        MC_CHECK(e->getModel()->is<PhysicalModel::Predefined::PEC>(), "model", "triangle " << i << " is not a perfect conductor");
        MC_CHECK(d.physicalModels && d.physicalModels->existId(e->getModel()->getId()) && d.physicalModels->getId(e->getModel()->getId()) == e->getModel(), "model", "the material of triangle " << i << " is not one of the problem");
    }
    MC_CHECK(eids.size() == ne && !eids.count(0), "element-id", "element ids are not distinct and non-null");
    MC_CHECK(d.sources && d.sources->size() == 0 && d.outputRequests && d.outputRequests->size() == 0, "other-items", "sources or output requests out of a file that has none");
}

// --- building files
struct Solid { Str name; std::vector<std::vector<Str>> facets; };
enum { PLAIN, FLAT, TABS, CRLF, BLANK, TRAIL, WIDE, NOEOL, ENDNAME, NLAYOUT };
static Str write(const std::vector<Solid>& f, int layout) {
    Str r; int depth = 0;
    Str nl = layout == CRLF ? "\r\n" : layout == BLANK ? "\n\n" : layout == TRAIL ? "  \n" : "\n";
    auto put = [&](Str s) {
        if (layout == WIDE) { Str t; for (char c : s) { t += c; if (c == ' ') t += "  "; } s = t; }
        r += (layout == FLAT ? Str() : layout == TABS ? Str(depth, '\t') : Str(2 * depth, ' ')) + s + nl;
    };
    for (auto& s : f) {
        put(s.name.empty() ? "solid" : "solid " + s.name); depth++;
        for (auto& t : s.facets) {
            put("facet normal 0 0 1"); depth++;
            put("outer loop"); depth++;
            for (auto& v : t) put("vertex " + v);
            depth--; put("endloop"); depth--;
            put("endfacet");
        }
        depth--;
        put(layout == ENDNAME && !s.name.empty() ? "endsolid " + s.name : "endsolid");
    }
    if (layout == NOEOL && !r.empty()) r.erase(r.size() - 1);
    return r;
}
static void run(const Str& kind, const Str& text) { mc::run([=] { return kind + ": " + text; }, [=] { judge(text); }); }

static void body() {
    static const std::vector<Str> pool = {"0 0 0", "1 0 0", "0 1 0", "0.5 -2.25 1e3", "-0.0 0e5 +0", "1.000001 0 0", "10E-1 0.0 -0", "1.0e-3 1E+2 .5"};
    // Every pair of facets over the pool of corners, in one solid or in two.
    size_t np = mc::pick<size_t>(5, 8);
    std::vector<std::vector<Str>> facets;
    for (size_t a = 0; a < np; a++) for (size_t b = 0; b < np; b++) for (size_t c = 0; c < np; c++) facets.push_back({pool[a], pool[b], pool[c]});
    for (auto& f : facets) run("one facet", write({{"a", {f}}}, PLAIN));
    for (auto& f : facets) for (auto& g : facets) {
        run("two facets", write({{"a", {f, g}}}, PLAIN));
        if (!mc::thorough()) continue;
        run("two solids", write({{"a", {f}}, {"b", {g}}}, PLAIN));
    }
    // the spellings left out of the pairs in the quick run
    for (size_t a = 0; a < pool.size(); a++) for (size_t b = 0; b < pool.size(); b++)
        run("spellings", write({{"a", {{pool[a], pool[b], pool[(a + 1) % pool.size()]}}}, {"b", {{pool[b], pool[(b + 3) % pool.size()], pool[a]}}}}, PLAIN));
    // Every distribution of facets over solids, names and layouts.
    static const std::vector<Str> names = {"", "a", "b", "vertex", "facet", "solid", "endsolid", "loop", "1"};
    std::vector<std::vector<Str>> some = {{pool[0], pool[1], pool[2]}, {pool[2], pool[1], pool[3]}, {pool[4], pool[3], pool[6]}, {pool[7], pool[0], pool[2]}, {pool[1], pool[0], pool[2]}, {pool[0], pool[1], pool[2]}, {pool[3], pool[7], pool[5]}, {pool[5], pool[6], pool[4]}, {pool[2], pool[5], pool[7]}};
    for (int lay = 0; lay < NLAYOUT; lay++) run("layout", write({}, lay));
    run("blank", " \n\t\n"); run("blank", "\n");
    for (int n0 = 0; n0 <= 3; n0++) for (int n1 = -1; n1 <= 3; n1++) for (int n2 = -1; n2 <= (n1 < 0 ? -1 : 3); n2++)
        for (auto& a : names) for (size_t bi = 0; bi < (n1 < 0 ? 1 : mc::pick<size_t>(4, names.size())); bi++) for (int lay = 0; lay < NLAYOUT; lay++) {
            int n[3] = {n0, n1, n2}; Str nm[3] = {a, names[bi], names[(bi + 2) % names.size()]};
            std::vector<Solid> f; size_t k = 0;
            for (int s = 0; s < 3; s++) if (n[s] >= 0) { Solid so; so.name = nm[s]; for (int i = 0; i < n[s]; i++) so.facets.push_back(some[k++]); f.push_back(so); }
            run("layout", write(f, lay));
        }
    // Files of every size of a ladder: n facets in s solids over c corners, with names and numbers of every length.
    { std::vector<size_t> S; for (size_t n = 1; n <= 36; n++) S.push_back(n); for (size_t n : {64, 65, 100, 128, 129, 257}) S.push_back(n);
      for (size_t n : S) for (size_t s : {size_t(1), size_t(2), size_t(3), (n + 1) / 2, n}) for (size_t c : {size_t(3), size_t(7), n + 2, 3 * n}) for (int k = 0; k < 3; k++) {
        if (n > 40 && (k != int(n % 3) || s == 2)) continue;
        static const double mag[] = {1, 1e-7, 12345.678}; auto corner = [&](size_t i) { i %= c; return MC_STR(std::setprecision(15) << mag[k] * double(i % 5) << " " << mag[k] * -0.125 * double(i / 5 % 9) << " " << mag[k] * (1 + double(i / 45))); };
        std::vector<Solid> f; for (size_t i = 0; i < s; i++) { Solid so; so.name = k == 0 ? MC_STR("part" << i) : k == 1 ? Str(n + i, 'n') : (i % 2 ? Str() : MC_STR(i)); f.push_back(so); }
        for (size_t i = 0; i < n; i++) f[i * s / n].facets.push_back({corner(i * 3), corner(i * 3 + 1 + i % 2), corner(i * 3 + 2 + (i % 3) * (c > 20 ? 5 : 0))});
        run("size", write(f, int((n + k) % NLAYOUT)));
        if (n <= 40 && s == 3 && n > 2) { Str t = write(f, PLAIN); size_t at = t.rfind("endloop"); run("size, damaged at the end", t.substr(0, at) + "vertex 1 2 3\n" + t.substr(at)); at = t.rfind("vertex"); run("size, damaged at the end", t.substr(0, at) + "vertix" + t.substr(at + 6)); }
      } }
    // Damaged files.
    std::vector<Str> bases;
    bases.push_back(write({{"a", {some[0]}}}, ENDNAME));
    bases.push_back(write({{"", {some[1], some[2]}}}, PLAIN));
    bases.push_back(write({{"p", {some[0]}}, {"q", {some[1]}}}, PLAIN));
    bases.push_back(write({{"p", {}}, {"", {some[3]}}}, TABS));
    bases.push_back(write({{"vertex", {some[6]}}, {"q", {}}, {"r", {some[7]}}}, CRLF));
    bases.push_back(write({{"w", {some[5]}}}, WIDE));
    static const std::vector<Str> alt = {"solid", "facet", "normal", "outer", "loop", "vertex", "endloop", "endfacet", "endsolid", "1", "x", "1.2.3", "2x", "--1", "1e", "nan", "Vertex", "endsoli"};
    for (size_t b = 0; b < bases.size(); b++) {
        const Str t = bases[b];
        for (size_t i = 0; i < t.size(); i++) run("truncated", t.substr(0, i));
        for (size_t i = 0; i < t.size(); i++) run("headless", t.substr(i));
        for (size_t i = 0; i < t.size(); i++) run("lost character", t.substr(0, i) + t.substr(i + 1));
        std::vector<std::pair<size_t, size_t>> tok, line;
        for (size_t i = 0; i < t.size();) {
            if (isspace((unsigned char)t[i])) { i++; continue; }
            size_t j = i; while (j < t.size() && !isspace((unsigned char)t[j])) j++;
            tok.push_back(std::make_pair(i, j)); i = j;
        }
        for (size_t i = 0; i < t.size();) { size_t j = t.find('\n', i); j = j == Str::npos ? t.size() : j + 1; line.push_back(std::make_pair(i, j)); i = j; }
        for (int lev = 0; lev < 2; lev++) {
            auto& u = lev ? line : tok;
            auto part = [&](size_t k) { return t.substr(u[k].first, u[k].second - u[k].first); };
            for (size_t k = 0; k < u.size(); k++) {
                Str head = t.substr(0, u[k].first), tail = t.substr(u[k].second);
                run(lev ? "lost line" : "lost word", head + tail);
                run(lev ? "doubled line" : "doubled word", head + part(k) + (lev ? "" : " ") + part(k) + tail);
                if (!lev) for (auto& a : alt) run("replaced word", head + a + tail);
                if (!lev) for (auto& a : alt) run("added word", head + a + " " + part(k) + tail);
                for (size_t j = k + 1; j < u.size() && (mc::thorough() || j < k + 4); j++) {
                    Str mid = t.substr(u[k].second, u[j].first - u[k].second);
                    run(lev ? "swapped lines" : "swapped words", head + part(j) + mid + part(k) + t.substr(u[j].second));
                    run(lev ? "two lost lines" : "two lost words", head + mid + t.substr(u[j].second));
                    if (lev) run("lost lines", head + t.substr(u[j].second));
                }
            }
        }
    }
}
int main(int argc, char** argv) { return mc::main_(argc, argv, body); }

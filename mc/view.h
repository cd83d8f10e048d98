// Small problems to export, and what any export of them has to show.
#pragma once
#include "geo.h"
#include <memory>
#include <ftw.h>
#include "Data.h"
#include "physicalModel/predefined/SMA.h"
#include "source/PlaneWave.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/port/WaveguideRectangular.h"
#include "outputRequest/BulkCurrent.h"
namespace view {
using namespace geo;
typedef std::string Str;
namespace SRC = SEMBA::Source;
namespace OR = SEMBA::OutputRequest;

struct PE { int type; int lay, mat; std::vector<unsigned> v; size_t id; };      // lay, mat: 0 none, k the k-th
struct Src { int kind; };                                                       // 0 plane wave on all volumes, 1 generator on all nodes, 2 line source on all lines, 3 port on all surfaces
struct Req { Str name; std::vector<int> elems; };
struct Spec {
    std::vector<R3> pool;                        // vertices (real meshes)
    bool str = false; std::vector<double> ax[3]; std::vector<I3> poolI;          // structured meshes
    int bound[6] = {0, 0, 0, 0, 0, 0};           // 0 none, else one of the bound materials
    std::vector<PE> el; std::vector<Str> lay; std::vector<Str> mat; std::vector<int> src; std::vector<Req> req;
    bool noSrc = false, noReq = false;           // the problem has no group of them at all
    int solver = 0;                              // 0 none, 1 without settings, 2 scaled
    double scale = 1;
};
struct Cell { int type; std::vector<R3> v; };
struct Part { Str name; std::vector<Cell> cells; bool grid; };
inline Str rSpec(const Spec& s) {
    Str r = s.str ? "structured " + mc::vec(s.ax[0]) + mc::vec(s.ax[1]) + mc::vec(s.ax[2]) + " " : "real ";
    if (s.str) { r += "bounds "; for (int b : s.bound) r += char('0' + b); r += " "; }
    for (auto& e : s.el) { r += MC_STR(typeNameR[e.type] << "#" << e.id << "(lay" << e.lay << " mat" << e.mat << ")["); for (unsigned k : e.v) r += (s.str ? p(s.poolI[k]) : p(s.pool[k])); r += "] "; }
    r += "layers"; for (auto& l : s.lay) r += " '" + l + "'";
    r += " materials"; for (auto& l : s.mat) r += " '" + l + "'";
    if (s.noSrc) r += " no-source-group"; for (int k : s.src) r += MC_STR(" source" << k);
    if (s.noReq) r += " no-request-group"; for (auto& q : s.req) { r += " request'" + q.name + "'["; for (int k : q.elems) r += MC_STR(k << " "); r += "]"; }
    if (s.solver) r += MC_STR(" solver" << s.solver << " scale" << s.scale);
    return r;
}
inline std::vector<R3> pool14() {
    return {R3(0, 0, 0), R3(1, 0, 0), R3(1, 2, 0), R3(0, 2, 0), R3(0, 0, 3), R3(1, 0, 3), R3(1, 2, 3), R3(0, 2, 3), R3(0.5, 0, 0), R3(1, 1, 0), R3(0.5, 1.25, 0), R3(-2.5, 4, 0.125), R3(0, 1, 1.5), R3(7, -3, 10)};
}
static const char* const boundName[] = {"", "metal", "mirror / wall", "open", "metal"};
inline const PhysicalModel::PhysicalModel* bModel(int k) {
    switch (k) {
    case 1: case 4: return new PhysicalModel::Predefined::PEC(PhysicalModel::Id(49 + k), boundName[k]);
    case 2: return new PhysicalModel::Predefined::PMC(PhysicalModel::Id(49 + k), boundName[k]);
    case 3: return new PhysicalModel::Predefined::SMA(PhysicalModel::Id(49 + k), boundName[k]);
    default: return nullptr;
    }
}
inline R3 posOf(const Spec& s, unsigned k) { return s.str ? R3(s.ax[0][s.poolI[k](0)], s.ax[1][s.poolI[k](1)], s.ax[2][s.poolI[k](2)]) : s.pool[k]; }
inline ElemI* makeI(int type, size_t id, std::vector<const CoordI3*> v, const Layer::Layer* l, const Element::Model* m) {
    Element::Id eid(id);
    const CoordI3** a = v.data();
    switch (type) {
    case NODE: return new NodI(eid, a, l, m);
    case LINE: return new LinI2(eid, a, l, m);
    case QUAD: return new QuaI4(eid, a, l, m);
    default: return new HexI8(eid, a, l, m);
    }
}
// the targets of a source or request, of either kind of mesh
template<class T> Element::Group<T> targets(const std::vector<const Element::Base*>& e) {
    Element::Group<T> r;
    for (auto b : e) if (auto t = dynamic_cast<const T*>(b)) r.add(const_cast<T*>(t));
    return r;
}
inline bool srcTakes(int kind, int type) {
    switch (kind) {
    case 0: return type == HEX || type == TET4 || type == TET10;
    case 1: return type == NODE;
    case 2: return type == LINE || type == POLYLINE;
    default: return type == TRI3 || type == TRI6 || type == QUAD || type == POLYGON;
    }
}
inline std::unique_ptr<Data> make(const Spec& s) {
    std::unique_ptr<Data> d(new Data);
    d->physicalModels = new PhysicalModel::Group<>;
    for (size_t k = 0; k < s.mat.size(); k++)
        if (k % 2) d->physicalModels->add(new PhysicalModel::Volume::Classic(PhysicalModel::Id(5 + 2 * k), s.mat[k], 2, 3, 0, 0));
        else d->physicalModels->add(new PhysicalModel::Predefined::PEC(PhysicalModel::Id(5 + 2 * k), s.mat[k]));
    std::vector<const Element::Base*> es;
    auto model = [&](int k) { return k ? static_cast<const Element::Model*>((*d->physicalModels)(k - 1)) : nullptr; };
    auto fill = [&](auto* m) {
        for (size_t k = 0; k < s.lay.size(); k++) m->layers().add(new Layer::Layer(LayerId(3 + 4 * k), s.lay[k]));
    };
    if (s.str) {
        std::vector<Math::Real> ax[3] = {s.ax[0], s.ax[1], s.ax[2]};
        Mesh::Structured* m = new Mesh::Structured(Grid3(ax)); d->mesh = m; fill(m);
        std::vector<const CoordI3*> c;
        for (size_t k = 0; k < s.poolI.size(); k++) { auto q = new CoordI3(CoordId(2 + 3 * k), s.poolI[k]); m->coords().add(q); c.push_back(q); }
        for (auto& e : s.el) { std::vector<const CoordI3*> v; for (auto k : e.v) v.push_back(c[k]); m->elems().add(makeI(e.type, e.id, v, e.lay ? m->layers()(e.lay - 1) : nullptr, model(e.mat))); es.push_back(m->elems()(m->elems().size() - 1)); }
        const PhysicalModel::PhysicalModel* shared[5] = {}; int sum = 0; for (int b : s.bound) sum += b;      // sides of one kind share their model, or each has its own
        for (int k = 0; k < 6; k++) { int b = s.bound[k]; auto q = sum % 2 && shared[b] ? shared[b] : bModel(b); shared[b] = q; m->bounds().setBound(k / 2, k % 2, q); }
    } else {
        std::vector<Math::Real> ax[3] = {{0, 1}, {0, 1}, {0, 1}};
        Mesh::Geometric* m = new Mesh::Geometric(Grid3(ax)); d->mesh = m; fill(m);
        std::vector<const CoordR3*> c;
        for (size_t k = 0; k < s.pool.size(); k++) { auto q = new CoordR3(CoordId(2 + 3 * k), s.pool[k]); m->coords().add(q); c.push_back(q); }
        for (auto& e : s.el) { std::vector<const CoordR3*> v; for (auto k : e.v) v.push_back(c[k]); m->elems().add(makeR(e.type, e.id, v, e.lay ? m->layers()(e.lay - 1) : nullptr, model(e.mat))); es.push_back(m->elems()(m->elems().size() - 1)); }
    }
    if (!s.noSrc) {
        d->sources = new SRC::Group<>;
        for (int k : s.src) switch (k) {
        case 0: d->sources->add(new SRC::PlaneWave(nullptr, targets<Vol>(es), R3(1, 0, 0), R3(0, 0, 1))); break;
        case 1: d->sources->add(new SRC::Generator(nullptr, targets<const Nod>(es), SRC::Generator::voltage, SRC::Generator::soft)); break;
        case 2: d->sources->add(new SRC::OnLine(nullptr, targets<const Lin>(es), SRC::OnLine::electric, SRC::OnLine::soft)); break;
        }
    }
    if (!s.noReq) {
        d->outputRequests = new OR::Group<>;
        for (auto& q : s.req) { Element::Group<const Elem> g; for (int k : q.elems) g.add(dynamic_cast<const Elem*>(es[k])); d->outputRequests->add(new OR::BulkCurrent(OR::Domain(), q.name, g, Math::Constants::x, 1)); }
    }
    if (s.solver) {
        Solver::Settings o; o.setObject(); if (s.solver == 2) { Solver::Settings v; v.setReal(s.scale); o.addMember("geometryScalingFactor", v); }
        d->solver = new Solver::Info("cudg3d", o);
    }
    return d;
}
inline Cell cellOf(const Spec& s, const PE& e) {
    std::vector<unsigned> k = e.v;
    if (e.type == TRI6) k = {e.v[0], e.v[3], e.v[5]};
    else if (e.type == TET10) k = {e.v[0], e.v[4], e.v[7], e.v[9]};
    Cell c{e.type == TRI6 ? (int)TRI3 : e.type == TET10 ? (int)TET4 : e.type == POLYLINE && k.size() == 2 ? (int)LINE : e.type, {}};
    for (auto i : k) c.v.push_back(posOf(s, i));
    return c;
}
inline std::vector<Part> expected(const Spec& s, const Data& d) {
    std::vector<Part> r;
    Str pre = s.str ? "str_" : "";
    auto part = [&](const Str& n, const std::vector<int>& k) { Part q{n, {}, false}; for (int i : k) q.cells.push_back(cellOf(s, s.el[i])); if (!k.empty()) r.push_back(q); };
    for (size_t l = 0; l < s.lay.size(); l++) {
        if (s.mat.empty()) { std::vector<int> k; for (size_t i = 0; i < s.el.size(); i++) if (s.el[i].lay == int(l + 1)) k.push_back(i); part(pre + s.lay[l], k); }
        for (size_t m = 0; m < s.mat.size(); m++) { std::vector<int> k; for (size_t i = 0; i < s.el.size(); i++) if (s.el[i].lay == int(l + 1) && s.el[i].mat == int(m + 1)) k.push_back(i); part(pre + s.mat[m] + "@" + s.lay[l], k); }
    }
    if (!s.noSrc) for (size_t q = 0; q < s.src.size(); q++) { std::vector<int> k; for (size_t i = 0; i < s.el.size(); i++) if (srcTakes(s.src[q], s.el[i].type)) k.push_back(i); part(pre + "EMSource_" + (*d.sources)(q)->getName(), k); }
    if (!s.noReq) for (auto& q : s.req) part(pre + "OutRq_" + q.name, q.elems);
    if (s.str) {
        R3 lo(s.ax[0].front(), s.ax[1].front(), s.ax[2].front()), hi(s.ax[0].back(), s.ax[1].back(), s.ax[2].back());
        for (int k = 0; k < 6; k++) if (s.bound[k]) {
            int a = k / 2; R3 q = lo; q(a) = k % 2 ? hi(a) : lo(a);
            Cell c{QUAD, {q, q, q, q}}; int b = (a + 1) % 3, e = (a + 2) % 3;
            c.v[1](b) = hi(b); c.v[2](b) = hi(b); c.v[2](e) = hi(e); c.v[3](e) = hi(e);
            r.push_back(Part{Str(boundName[s.bound[k]]) + "@Boundary", {c}, true});
        }
        Part g{"Grid", {}, true};
        for (int a = 0; a < 3; a++) for (int i = 1; i < 3; i++) { int b = (a + i) % 3, e = 3 - a - b; for (double x : s.ax[b]) { Cell c{LINE, {lo, lo}}; c.v[0](b) = c.v[1](b) = x; c.v[1](e) = hi(e); g.cells.push_back(c); } }
        r.push_back(g);
    }
    return r;
}
// same cell; the parts that are no elements may go around the other way or start elsewhere
inline bool eqV(const std::vector<R3>& a, const std::vector<R3>& b, size_t from, bool back, double tol) {
    size_t n = a.size();
    for (size_t i = 0; i < n; i++) { const R3& q = b[(from + (back ? n - i : i)) % n]; for (int d = 0; d < 3; d++) if (!(std::fabs(a[i](d) - q(d)) <= tol * std::max(std::fabs(a[i](d)), std::fabs(q(d))))) return false; }
    return true;
}
inline bool same(const Cell& a, const Cell& b, bool any, double tol) {
    if (a.type != b.type || a.v.size() != b.v.size()) return false;
    if (eqV(a.v, b.v, 0, false, tol)) return true;
    if (any) for (size_t f = 0; f < a.v.size(); f++) if (eqV(a.v, b.v, f, false, tol) || eqV(a.v, b.v, f, true, tol)) return true;
    return false;
}
inline bool sameCells(const Part& want, const Part& got, double tol) {
    if (want.cells.size() != got.cells.size()) return false;
    std::vector<bool> used(got.cells.size());
    for (auto& c : want.cells) { bool f = false; for (size_t i = 0; i < got.cells.size() && !f; i++) if (!used[i] && same(c, got.cells[i], want.grid, tol)) used[i] = f = true; if (!f) return false; }
    return true;
}
inline Str norm(const Str& s) { Str r; for (char c : s) r += isalnum((unsigned char)c) ? c : '_'; return r; }
inline Str rPart(const Part& q) { Str r = "'" + q.name + "'{"; for (auto& c : q.cells) { r += Str(typeNameR[c.type]) + "["; for (auto& v : c.v) r += p(v); r += "] "; } return r + "}"; }
// every wanted part is there, and nothing else
inline void compare(const std::vector<Part>& want, std::vector<Part> got, double tol, const Str& what) {
    std::vector<Part> miss;
    for (int exact = 1; exact >= 0; exact--) {
        const std::vector<Part> todo = exact ? want : miss; miss.clear();
        for (auto& w : todo) {
            size_t hit = got.size();
            for (size_t i = 0; i < got.size() && hit == got.size(); i++) { Str a = norm(w.name), b = norm(got[i].name); if ((exact ? a == b : b.compare(0, a.size(), a) == 0) && sameCells(w, got[i], tol)) hit = i; }
            if (hit < got.size()) got.erase(got.begin() + hit); else miss.push_back(w);
        }
    }
    Str g; for (auto& x : got) g += rPart(x) + "; ";
    for (auto& w : miss) MC_CHECK(false, "part-lost", what << " lacks " << rPart(w) << " (not matched: " << g << ")");
    if (miss.empty()) MC_CHECK(got.empty(), "part-added", what << " has in excess " << g);
}
inline Str renderData(const Data& d) {
    Str r;
    if (auto m = dynamic_cast<const Mesh::Structured*>(d.mesh)) { r = renderMesh(*m) + renderGrid(m->grid()); for (int k = 0; k < 6; k++) r += MC_STR(m->bounds()(k / 2, k % 2) << ","); for (size_t i = 0; i < m->elems().size(); i++) r += MC_STR(m->elems()(i)); }
    else if (auto m = dynamic_cast<const Mesh::Geometric*>(d.mesh)) { r = renderMesh(*m) + renderGrid(m->grid()); for (size_t i = 0; i < m->elems().size(); i++) r += MC_STR(m->elems()(i)); }
    for (size_t i = 0; i < d.physicalModels->size(); i++) r += MC_STR((*d.physicalModels)(i) << (*d.physicalModels)(i)->getName() << ";");
    if (d.sources) for (size_t i = 0; i < d.sources->size(); i++) { r += (*d.sources)(i)->getName(); auto g = (*d.sources)(i)->elems(); for (size_t k = 0; k < g.size(); k++) r += MC_STR(g(k)); }
    if (d.outputRequests) for (size_t i = 0; i < d.outputRequests->size(); i++) { r += (*d.outputRequests)(i)->getName(); auto g = (*d.outputRequests)(i)->elems(); for (size_t k = 0; k < g.size(); k++) r += MC_STR(g(k)); }
    return r;
}
// removes a folder of the scratch directory the check runs in
inline int rmOne(const char* f, const struct stat*, int, struct FTW*) { return remove(f); }
inline void wipe(const Str& rel) { MC_REQUIRE(!rel.empty() && rel[0] != '/' && rel.find("..") == Str::npos, "harness", rel); nftw(rel.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS); }
inline Str slurp(const Str& f) { std::ifstream i(f, std::ios::binary); MC_REQUIRE(bool(i), "file-missing", f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
// ---- the enumeration shared by the exporters
typedef std::function<void(const Str&, const Spec&)> Visit;
inline Spec base() { Spec s; s.pool = pool14(); s.lay = {"body", "skin"}; s.mat = {"metal", "glass"}; return s; }
inline Spec baseStr(int g) {
    static const std::vector<double> A[] = {{0, 1, 2}, {-1, 0.5, 1, 4}, {10, 10.25}, {1e-3, 2e-3, 4e-3}};
    Spec s; s.str = true; s.lay = {"body", "skin"}; s.mat = {"metal", "glass"};
    for (int d = 0; d < 3; d++) s.ax[d] = A[(g + d) % 4];
    for (int d = 0; d < 8; d++) s.poolI.push_back(I3(0, 0, 0));
    return s;
}
inline void addStr(Spec& s, int type, I3 lo, I3 hi, int lay, int mat, size_t id, unsigned rot = 0) {
    BoxI3 b(lo, hi); std::vector<I3> v = b.getPos(); PE e{type, lay, mat, {}, id};
    for (size_t i = 0; i < v.size(); i++) { I3 q = v[(i + rot) % v.size()]; e.v.push_back(s.poolI.size()); s.poolI.push_back(q); }
    s.el.push_back(e);
}
inline void visit(const Visit& f) {
    // one element of every kind at every place of the pool, layer and material, with and without materials in the problem
    for (int t = 0; t < NTYPESR; t++) for (unsigned sh = 0; sh < 14; sh++) for (int l = 0; l < 3; l++) for (int m = 0; m < 3; m++) {
        if (t == HEX && sh) continue;
        Spec s = base(); s.el.push_back(PE{t, l, m, vertsOf(t, sh), 9}); f("one element", s);
    }
    for (int t = 0; t < NTYPESR; t++) for (unsigned sh = 0; sh < 14; sh += 5) for (int l = 0; l < 3; l++) { Spec s = base(); s.mat.clear(); s.el.push_back(PE{t, l, 0, vertsOf(t, sh), 9}); f("no materials", s); }
    // any number of layers and materials, used all or in part
    for (int nl = 0; nl <= 4; nl++) for (int nm = 0; nm <= 4; nm++) for (int use = 0; use < 4; use++) {
        Spec s = base(); s.lay.clear(); s.mat.clear(); for (int i = 0; i < nl; i++) s.lay.push_back(MC_STR("layer" << i)); for (int i = 0; i < nm; i++) s.mat.push_back(MC_STR("material" << i));
        size_t id = 1; for (int l = use & 1; l <= nl; l++) for (int m = use & 1; m <= nm; m++) { if (use & 2 && (l + m) % 2) continue; s.el.push_back(PE{(l + m) % 2 ? TRI3 : LINE, l, m, vertsOf((l + m) % 2 ? TRI3 : LINE, l + 2 * m), id++}); }
        f("numbers of layers and materials", s);
    }
    // pairs of kinds, at all layers and materials
    for (int t = 0; t < NTYPESR; t++) for (int u = 0; u < NTYPESR; u++) for (int k = 0; k < 81; k++) {
        if (!mc::thorough() && k % 3 != (t + u) % 3) continue;
        Spec s = base(); s.el.push_back(PE{t, k % 3, k / 3 % 3, vertsOf(t, 0), 7}); s.el.push_back(PE{u, k / 9 % 3, k / 27, vertsOf(u, k % 2 ? 3 : 0), 2}); f("two elements", s);
    }
    // many elements of a kind in a part
    for (int t = 0; t < NTYPESR; t++) for (unsigned n = 2; n <= 14; n++) { Spec s = base(); for (unsigned k = 0; k < n; k++) s.el.push_back(PE{t, 1 + int(k % 5 == 4), 1, vertsOf(t, k), 100 - 3 * k}); f("many elements", s); }
    // triples over basic kinds
    static const int basic[] = {NODE, LINE, TRI3, QUAD, TET4, HEX};
    for (int k = 0; k < 216; k++) for (int lm = 0; lm < mc::pick(8, 64); lm++) {
        Spec s = base(); int t[3] = {basic[k % 6], basic[k / 6 % 6], basic[k / 36]};
        for (int i = 0; i < 3; i++) { int b = mc::thorough() ? lm >> (2 * i) & 3 : (lm >> i & 1) * 3; s.el.push_back(PE{t[i], 1 + (b & 1), 1 + (b >> 1), vertsOf(t[i], 2 * i), size_t(5 + i)}); }
        f("three elements", s);
    }
    // sources and requests over subsets, elements with and without layer and material; groups absent
    {
        Spec b = base(); b.el = {PE{NODE, 1, 1, {0}, 1}, PE{NODE, 0, 0, {9}, 12}, PE{LINE, 0, 0, {1, 2}, 3}, PE{QUAD, 2, 0, {0, 1, 2, 3}, 40}, PE{HEX, 0, 2, vertsOf(HEX), 5}, PE{TET4, 1, 2, vertsOf(TET4, 5), 6}};
        static const std::vector<std::vector<int>> srcs = {{}, {0}, {1}, {2}, {0, 0}, {1, 2}, {2, 1, 0}, {1, 0, 1}};
        for (auto& sr : srcs) for (unsigned q = 0; q < 64; q++) for (int v = 0; v < 4; v++) {
            if (!mc::thorough() && v && q % 3) continue;
            Spec s = b; s.src = sr; Req r{"probe", {}}; for (int i = 0; i < 6; i++) if (q >> i & 1) r.elems.push_back(i);
            s.req.push_back(r); if (v & 1) { Req r2{v & 2 ? "probe" : "other probe", {}}; for (int i = 0; i < 6; i++) if ((q * 5 + 9) >> i & 1) r2.elems.push_back(i); s.req.push_back(r2); }
            f("sources and requests", s);
        }
        for (int k = 0; k < 4; k++) { Spec s = b; s.noSrc = k & 1; s.noReq = k & 2; if (!s.noReq) s.req = {Req{"probe", {0, 4}}}; if (!s.noSrc) s.src = {0, 1}; f("absent groups", s); }
    }
    // names
    static const std::vector<Str> names = {"a", "", " ", "two words", "a/b", "a_b", "a.b", "./a", "<a>", "a&b", "a>b", "&amp;", "a'b", "100% #1", "a@b", "a:b|c*d?", "\xc3\xa9t\xc3\xa9", "-rf", "name_2", "name", "Grid", "EMSource_", "a\\b", "~", "$HOME", "a;b", "a`b"};
    for (auto& n : names) for (auto& m : names) for (int k = 0; k < 4; k++) {
        if (!mc::thorough() && k && (&n - &names[0] + (&m - &names[0]) * 2 + k) % 4) continue;
        Spec s = base(); if (k == 0) s.lay = {n, m}; else if (k == 1) s.mat = {n, m}; else if (k == 2) { s.lay[0] = n; s.mat[0] = m; } else { s.mat.clear(); s.lay = {n, m}; }
        for (int l = 1; l < 3; l++) for (int q = 1; q < 3; q++) s.el.push_back(PE{TRI3, l, s.mat.empty() ? 0 : q, vertsOf(TRI3, l + 3 * q), size_t(l + 2 * q)});
        f("names", s);
        if (k == 0) { Spec r = base(); r.el = {PE{LINE, 1, 1, {0, 1}, 1}, PE{TRI3, 2, 1, {0, 1, 2}, 2}, PE{LINE, 0, 0, {4, 1}, 4}}; r.req = {Req{n, {0, 1}}, Req{m, {1}}, Req{n, {2}}}; r.src = {2}; f("names of requests", r); }
    }
    // positions of every magnitude
    static const double mag[] = {1, 0.1, 1.0 / 3, 1e-3, 1.23456789e-9, 1e-12, 123456.789, 1e6 + 0.25, 1e9 + 1, -7.654321e12, 1e300, 1e-300};
    for (double x : mag) for (double y : mag) for (int t : {LINE, TRI3, POLYGON}) { Spec s = base(); for (auto& q : s.pool) { q(0) = q(0) * x; q(1) = q(1) * y; q(2) = q(2) + x; } s.el.push_back(PE{t, 1, 1, vertsOf(t, 0), 1}); s.el.push_back(PE{t, 1, 1, vertsOf(t, 4), 3}); f("magnitudes", s); }
    // structured meshes: every box
    for (int g = 0; g < 4; g++) {
        Spec b = baseStr(g); b.poolI.clear();
        int n[3]; for (int d = 0; d < 3; d++) n[d] = b.ax[d].size() - 1;
        for (int x = 0; x <= n[0]; x++) for (int y = 0; y <= n[1]; y++) for (int z = 0; z <= n[2]; z++) for (int X = x; X <= n[0]; X++) for (int Y = y; Y <= n[1]; Y++) for (int Z = z; Z <= n[2]; Z++) {
            int k = (X > x) + (Y > y) + (Z > z); static const int ty[] = {NODE, LINE, QUAD, HEX};
            int c = x + 2 * y + 3 * z + X + Y + Z;
            Spec s = b; addStr(s, ty[k], I3(x, y, z), I3(X, Y, Z), 1 + c % 2, 1 + c / 2 % 2, 4, c % 3); addStr(s, NODE, I3(X, y, Z), I3(X, y, Z), c % 3, 2, 11);
            if (c % 2) { s.req = {Req{"probe", {0, 1}}}; s.src = {1, 0}; } s.bound[c % 6] = 1 + c % 3;
            f("structured", s);
        }
    }
    // bounds
    static const std::vector<std::vector<unsigned>> none;
    int nb = mc::pick(3, 5); int tot = 1; for (int i = 0; i < 6; i++) tot *= nb;
    for (int k = 0; k < tot; k++) {
        Spec s = baseStr(k % 4); s.poolI.clear(); addStr(s, HEX, I3(0, 0, 0), I3(1, 1, 1), 1, 1, 4);
        for (int i = 0, q = k; i < 6; i++, q /= nb) { s.bound[i] = q % nb; if (!mc::thorough() && s.bound[i] == 2 && k % 2) s.bound[i] = 4; }
        f("bounds", s);
    }
}
} // namespace view

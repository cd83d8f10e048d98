// P05: conversion between structured and unstructured meshes.
//  A  structured -> real -> structured, every element kind at every box of every
//     grid, alone, in pairs and in triples, with several vertex orders
//  B  relative and conformal vertices at every fraction of a lattice
//  C  real -> structured: every line between two points of a lattice with points
//     on the grid lines, close to them and off them; nodes, quads, hexes alike
#include "geo.h"
#include <memory>
using namespace geo;
typedef Mesh::Structured MS;
typedef Mesh::Unstructured MU;
static const std::vector<std::vector<double>> AX = { {0, 1, 2}, {-1, 0.5, 1, 4}, {10, 10.25}, {-3, -2, -1}, {1e-3, 2e-3, 4e-3, 9e-3}, {5, 7, 8} };
static Grid3 grid(unsigned a, unsigned b, unsigned c) {
    std::vector<double> p[3] = { AX[a], AX[b], AX[c] };
    return Grid3(p);
}
static PhysicalModel::Predefined::PEC pec(PhysicalModel::Id(7), "pec");
static PhysicalModel::Predefined::PMC pmc(PhysicalModel::Id(9), "pmc");

struct EI { int type; I3 lo, hi; unsigned order; size_t id; int lay, mat; };  // order: rotation/reversal of the vertex list
static std::string rEI(const EI& e) { return MC_STR(typeNameR[e.type] << p(e.lo) << p(e.hi) << "order" << e.order << "#" << e.id << "lay" << e.lay << "mat" << e.mat << " "); }

static std::vector<I3> boxVerts(const EI& e) {
    BoxI3 b(e.lo, e.hi);
    std::vector<I3> v = b.getPos();
    if (v.size() > 1) {
        if (e.order & 1) std::reverse(v.begin(), v.end());
        if (e.order >> 1) std::rotate(v.begin(), v.begin() + (e.order >> 1) % v.size(), v.end());
    }
    return v;
}
static ElemI* makeI(int type, size_t id, std::vector<const CoordI3*> v, const Layer::Layer* l, const Element::Model* m) {
    Element::Id eid(id);
    const CoordI3** a = v.data();
    switch (type) {
    case NODE: return new NodI(eid, a, l, m);
    case LINE: return new LinI2(eid, a, l, m);
    case QUAD: return new QuaI4(eid, a, l, m);
    default: return new HexI8(eid, a, l, m);
    }
}
static MS* build(const Grid3& g, const std::vector<EI>& es, std::vector<std::unique_ptr<MS>>& keep) {
    MS* m = new MS(g);
    m->layers().addId(new Layer::Layer("first"));
    m->layers().addId(new Layer::Layer("second"));
    size_t nid = 11;
    // an isolated vertex too
    m->coords().add(new CoordI3(CoordId(5), I3(0, 0, 0)));
    std::map<std::string, const CoordI3*> at;
    for (auto& e : es) {
        std::vector<const CoordI3*> v;
        for (auto& q : boxVerts(e)) {
            const CoordI3*& c = at[p(q)];
            if (!c) { CoordI3* n = new CoordI3(CoordId(nid += 3), q); m->coords().add(n); c = n; }
            v.push_back(c);
        }
        m->elems().add(makeI(e.type, e.id, v, e.lay ? m->layers().getId(LayerId(e.lay)) : nullptr,
                             e.mat == 0 ? nullptr : e.mat == 1 ? (const Element::Model*)&pec : &pmc));
    }
    (void)keep;
    return m;
}
// what the oracle needs to know of a structured mesh
struct Rec { std::map<size_t, std::string> coords; std::map<size_t, R3> pos; std::vector<std::string> elems; std::string layers; };
template<class MESH> static std::string layersOf(const MESH& m) {
    std::string s;
    for (size_t i = 0; i < m.layers().size(); i++) s += m.layers()(i)->getId().toStr() + ":" + m.layers()(i)->getName() + " ";
    return s;
}
static const char* kind(const Element::Base* e) {
    if (e->is<Nod>()) return "node"; if (e->is<Lin>()) return "line"; if (e->is<Qua>()) return "quad"; if (e->is<Hex8>()) return "hex";
    return "other";
}
template<class MESH> static std::string elemKey(const MESH& m, size_t i) {
    auto* e = m.elems()(i);
    std::string s = MC_STR(kind(e) << "#" << e->getId().toStr() << " lay" << e->getLayerId().toStr() << " mat" << e->getMatId().toStr() << "/" << e->getModel() << " v");
    for (size_t k = 0; k < e->numberOfCoordinates(); k++) s += anyV(e, k)->getId().toStr() + " ";
    return s;
}
template<class MESH> static std::vector<std::string> elemKeys(const MESH& m) {
    std::vector<std::string> r;
    for (size_t i = 0; i < m.elems().size(); i++) r.push_back(elemKey(m, i));
    return r;
}
template<class MESH> static void owned(const MESH& m, const char* w) {
    for (size_t i = 0; i < m.elems().size(); i++) {
        auto* e = m.elems()(i);
        for (size_t k = 0; k < e->numberOfCoordinates(); k++) {
            auto id = anyV(e, k)->getId();
            MC_REQUIRE(m.coords().existId(id) && static_cast<const Coordinate::Base*>(m.coords().getId(id)) == anyV(e, k), "vertex-not-of-this-mesh", w << elemKey(m, i));
        }
        if (e->getLayer()) MC_REQUIRE(m.layers().existId(e->getLayerId()) && m.layers().getId(e->getLayerId()) == e->getLayer(), "layer-not-of-this-mesh", w << elemKey(m, i));
    }
}
static double linePos(const Grid3& g, int d, int i) { return g.getPos(d)[i]; }
static R3 gridPos(const std::vector<double> ax[3], const I3& q) { return R3(ax[0][q(0)], ax[1][q(1)], ax[2][q(2)]); }

static void roundTrip(const std::vector<double> ax[3], MS* s, bool back = true) {
    const Grid3 g(ax);
    std::string before = renderMesh(*s);
    std::map<size_t, std::pair<int, R3>> want;
    std::vector<size_t> corder;
    for (size_t i = 0; i < s->coords().size(); i++) { want[s->coords()(i)->getId().toInt()] = std::make_pair(int(i), gridPos(ax, s->coords()(i)->pos())); corder.push_back(s->coords()(i)->getId().toInt()); }
    std::vector<std::string> ke = elemKeys(*s);
    std::string lay = layersOf(*s);
    MU* u = s->getMeshUnstructured();
    mc::step();
    MC_CHECK(renderMesh(*s) == before, "source-changed", before);
    owned(*u, "unstructured ");
    delete s;                                  // the converted mesh lives on its own
    MC_REQUIRE(u->coords().size() == want.size(), "vertex-count", u->coords().size() << " of " << want.size());
    for (auto& w : want) {
        MC_REQUIRE(u->coords().existId(CoordId(w.first)), "vertex-id-lost", w.first);
        R3 q = u->coords().getId(CoordId(w.first))->pos();
        MC_CHECK(eq(q, w.second.second), "vertex-position", w.first << " at " << p(q) << " instead of " << p(w.second.second));
    }
    MC_CHECK(elemKeys(*u) == ke, "elements-differ", mc::vec(elemKeys(*u)) << " instead of " << mc::vec(ke));
    MC_CHECK(layersOf(*u) == lay, "layers-differ", layersOf(*u));
    mc::state(renderMesh(*u));
    if (back) {
        std::string mid = renderMesh(*u);
        MS* t = u->getMeshStructured(g);
        mc::step();
        MC_CHECK(renderMesh(*u) == mid, "source-changed-back", mid);
        owned(*t, "structured ");
        delete u;
        MC_CHECK(renderMesh(*t) == before, "round-trip-differs", renderMesh(*t) << " instead of " << before);
        MC_CHECK(renderGrid(t->grid()) == renderGrid(g), "round-trip-grid", renderGrid(t->grid()));
        MC_CHECK(layersOf(*t) == lay, "round-trip-layers", layersOf(*t));
        mc::state(renderMesh(*t) + renderGrid(t->grid()));
        delete t;
    } else delete u;
}
static std::vector<EI> allBoxes(const Grid3& g, int maxExt) {
    std::vector<EI> r;
    I3 n = g.getNumCells();
    for (int x = 0; x <= n(0); x++) for (int y = 0; y <= n(1); y++) for (int z = 0; z <= n(2); z++)
        for (int X = x; X <= std::min(n(0), x + maxExt); X++) for (int Y = y; Y <= std::min(n(1), y + maxExt); Y++) for (int Z = z; Z <= std::min(n(2), z + maxExt); Z++) {
            int k = (X > x) + (Y > y) + (Z > z);
            static const int ty[] = {NODE, LINE, QUAD, HEX};
            r.push_back(EI{ty[k], I3(x, y, z), I3(X, Y, Z), 0, 3, 1, 1});
        }
    return r;
}
static void partA() {
    std::vector<std::unique_ptr<MS>> keep;
    for (unsigned a = 0; a < AX.size(); a++) for (unsigned b = 0; b < AX.size(); b++) for (unsigned c = 0; c < AX.size(); c++) {
        if (!mc::thorough() && (a + 2 * b + 3 * c) % 7) continue;
        Grid3 g = grid(a, b, c);
        std::vector<double> ax[3] = { AX[a], AX[b], AX[c] };
        std::string gn = renderGrid(g);
        std::vector<EI> all = allBoxes(g, mc::pick(2, 3));
        for (auto e : all) {
            unsigned no = e.type == NODE ? 1 : e.type == LINE ? 2 : e.type == QUAD ? 8 : 16;
            if (!mc::thorough() && no > 4) no = 4;
            for (unsigned o = 0; o < no; o++) for (int lay = 0; lay < 3; lay++) {
                EI f = e; f.order = o; f.lay = lay; f.mat = (lay + o) % 3; f.id = 1 + 41 * o;
                mc::run([&] { return "one " + gn + rEI(f); }, [&] { roundTrip(ax, build(g, {f}, keep)); });
            }
        }
    }
    // pairs and triples on one uneven grid: shared vertices, id and layer combinations
    std::vector<double> ax[3] = { {0, 1, 3}, {-1, 0.5}, {2, 2.5} };
    Grid3 g(ax);
    std::vector<EI> all = allBoxes(g, 1);
    for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < all.size(); j++) for (int k = 0; k < 4; k++) {
        EI a = all[i], b = all[j];
        a.id = k & 1 ? 9 : 2; b.id = 5; a.lay = 1 + (k >> 1); b.lay = 2 - (k >> 1); a.order = k; b.order = k & 1; b.mat = 2;
        mc::run([&] { return "two " + rEI(a) + rEI(b); }, [&] { roundTrip(ax, build(g, {a, b}, keep)); });
    }
    std::vector<EI> sm; for (size_t i = 0; i < all.size(); i++) if (mc::thorough() || i % 3 == 0) sm.push_back(all[i]);
    for (auto& x : sm) for (auto& y : sm) for (auto& z : sm) {
        EI a = x, b = y, c = z;
        a.id = 8; b.id = 2; c.id = 30; a.lay = 2; b.lay = 0; c.lay = 1; b.order = 1; c.mat = 0;
        mc::run([&] { return "three " + rEI(a) + rEI(b) + rEI(c); }, [&] { roundTrip(ax, build(g, {a, b, c}, keep)); });
    }
}
// ---- B: vertices displaced inside cells
static void partB() {
    static const double fr[] = {0, 0.25, 0.5, 0.75, 0.9};
    for (unsigned a = 0; a < AX.size(); a++) for (unsigned b = 0; b < AX.size(); b++) {
        unsigned c = (a + b + 1) % AX.size();
        std::vector<double> ax[3] = { AX[a], AX[b], AX[c] };
        Grid3 g(ax); std::string gn = renderGrid(g);
        I3 n = g.getNumCells();
        for (int x = 0; x < n(0); x++) for (int y = 0; y < n(1); y++) for (int z = 0; z < n(2); z++) {
            for (int r = 0; r < 125; r++) {
                R3 f(fr[r % 5], fr[r / 5 % 5], fr[r / 25]);
                mc::run([&] { return MC_STR("relative " << gn << p(I3(x, y, z)) << p(f)); }, [&] {
                    MS* s = new MS(g);
                    s->layers().addId(new Layer::Layer("first"));
                    CoordRel* v0 = new CoordRel(CoordId(4), I3(x, y, z), f);
                    CoordI3* v1 = new CoordI3(CoordId(2), I3(x + 1, y + 1, z + 1));
                    s->coords().add(v0); s->coords().add(v1);
                    const CoordI3* vv[] = {v0, v1};
                    s->elems().add(new LinI2(Element::Id(6), vv, s->layers()(0), &pec));
                    const CoordI3* nn[] = {v0};
                    s->elems().add(new NodI(Element::Id(1), nn, nullptr, &pmc));
                    MU* u = s->getMeshUnstructured();
                    mc::step();
                    owned(*u, "unstructured ");
                    delete s;
                    R3 want(0, 0, 0); I3 q(x, y, z);
                    for (int d = 0; d < 3; d++) want(d) = ax[d][q(d)] + f(d) * (ax[d][q(d) + 1] - ax[d][q(d)]);
                    MC_REQUIRE(u->coords().size() == 2 && u->coords().existId(CoordId(4)) && u->elems().size() == 2, "relative-lost", renderMesh(*u));
                    MC_CHECK(eq(u->coords().getId(CoordId(4))->pos(), want), "relative-position", p(u->coords().getId(CoordId(4))->pos()) << " instead of " << p(want));
                    MC_CHECK(elemKeys(*u)[0] == elemKey(*u, 0) && anyV(u->elems()(0), 0)->getId() == CoordId(4), "relative-element", renderMesh(*u));
                    mc::state(renderMesh(*u));
                    delete u;
                });
            }
            for (int dir = 0; dir < 3; dir++) for (int k = 0; k < 5; k++) {
                mc::run([&] { return MC_STR("conformal " << gn << p(I3(x, y, z)) << " dir " << dir << " " << fr[k]); }, [&] {
                    MS* s = new MS(g);
                    CoordConf* v0 = new CoordConf(CoordId(4), I3(x, y, z), Math::Constants::CartesianAxis(dir), fr[k]);
                    CoordConf* v1 = new CoordConf(CoordId(7), I3(x, y, z), Math::Constants::CartesianAxis((dir + 1) % 3), fr[4 - k]);
                    s->coords().add(v0); s->coords().add(v1);
                    const CoordI3* vv[] = {v0, v1};
                    s->elems().add(new LinConf(Element::Id(6), vv, R3(0, 0, 1), nullptr, &pec));
                    MU* u = s->getMeshUnstructured();
                    mc::step();
                    owned(*u, "unstructured ");
                    delete s;
                    MC_REQUIRE(u->coords().size() == 2 && u->elems().size() == 1 && u->elems()(0)->is<LinR2>() && u->elems()(0)->getId() == Element::Id(6) && u->elems()(0)->getModel() == &pec, "conformal-lost", renderMesh(*u));
                    for (int w = 0; w < 2; w++) {
                        int d0 = (dir + w) % 3; double f = w ? fr[4 - k] : fr[k]; I3 q(x, y, z); R3 want = gridPos(ax, q);
                        want(d0) += f * (ax[d0][q(d0) + 1] - ax[d0][q(d0)]);
                        MC_CHECK(eq(u->coords().getId(CoordId(w ? 7 : 4))->pos(), want) && anyV(u->elems()(0), w)->getId() == CoordId(w ? 7 : 4), "conformal-position", p(u->coords().getId(CoordId(w ? 7 : 4))->pos()) << " instead of " << p(want));
                    }
                    mc::state(renderMesh(*u));
                    delete u;
                });
            }
        }
    }
}
// ---- C: real meshes on and off the grid
struct L1 { double x; int cell; };               // coordinate value; cell >= 0 when it lies on a grid line
static std::vector<L1> lattice(const std::vector<double>& ax, double off) {
    std::vector<L1> r;
    for (size_t i = 0; i < ax.size(); i++) {
        r.push_back(L1{ax[i], int(i)});
        if (i + 1 < ax.size()) { double s = ax[i + 1] - ax[i]; r.push_back(L1{ax[i] + off * s, -1}); if (ax[i] != 0) { double m = i ? std::min(s, ax[i] - ax[i - 1]) : s; r.push_back(L1{ax[i] + 0.004 * m, int(i)}); } }
    }
    double s = ax.back() - ax[ax.size() - 2];
    r.push_back(L1{ax.back() + off * s, -1});
    r.push_back(L1{ax[0] - off * (ax[1] - ax[0]), -1});
    return r;
}
static void convert(const std::vector<double> ax[3], int type, const std::vector<R3>& ps, bool ok, const std::vector<I3>& cells, double tol) {
    Grid3 g(ax);
    MU* u = new MU();
    u->layers().addId(new Layer::Layer("first"));
    std::vector<const CoordR3*> v;
    size_t id = 2;
    for (auto& q : ps) { CoordR3* c = new CoordR3(CoordId(id += 2), q); u->coords().add(c); v.push_back(c); }
    u->elems().add(makeR(type, 5, v, u->layers()(0), &pec));
    std::string before = renderMesh(*u), k = elemKey(*u, 0);
    MS* s = u->getMeshStructured(g, tol);
    mc::step();
    MC_CHECK(renderMesh(*u) == before, "source-changed", before);
    owned(*s, "structured ");
    delete u;
    MC_CHECK(s->elems().size() == size_t(ok), ok ? "on-grid-element-lost" : "off-grid-element-kept", renderMesh(*s));
    MC_REQUIRE(s->coords().size() == ps.size(), "vertices-lost", renderMesh(*s));
    for (size_t i = 0; i < ps.size(); i++) {
        MC_REQUIRE(s->coords().existId(CoordId(4 + 2 * i)), "vertex-id-lost", i);
        I3 q = s->coords().getId(CoordId(4 + 2 * i))->pos();
        for (int d = 0; d < 3; d++) {
            double best = 1e9;
            for (double l : ax[d]) best = std::min(best, std::fabs(l - ps[i](d)));
            MC_REQUIRE(q(d) >= 0 && q(d) < int(ax[d].size()), "vertex-outside-grid", p(q));
            MC_CHECK(std::fabs(ax[d][q(d)] - ps[i](d)) <= best + 1e-9, "not-the-nearest-line", p(ps[i]) << " became " << p(q));
        }
    }
    if (ok && s->elems().size() == 1) {
        MC_CHECK(elemKey(*s, 0) == k, "element-differs", elemKey(*s, 0) << " instead of " << k);
        for (size_t i = 0; i < ps.size(); i++) MC_CHECK(eqI(dynamic_cast<const ElemI*>(s->elems()(0))->getV(i)->pos(), cells[i]), "cell-of-vertex", p(ps[i]) << " got " << p(dynamic_cast<const ElemI*>(s->elems()(0))->getV(i)->pos()));
    }
    mc::state(renderMesh(*s));
    mc::outcome(ok ? "on grid" : "left out");
    delete s;
}
static void partC() {
    struct GS { std::vector<double> ax[3]; };
    std::vector<GS> gs = { GS{ { {1, 2}, {-1, 0.5}, {2, 2.5} } }, GS{ { {0, 1, 4}, {3, 5}, {-2, -1} } }, GS{ { {-2, -1}, {5, 6}, {1e-3, 3e-3} } } };
    for (auto& G : gs) for (double off : {0.25, 0.7}) {
        std::vector<L1> l[3]; for (int d = 0; d < 3; d++) l[d] = lattice(G.ax[d], off);
        struct Pt { R3 r; I3 c; bool on; };
        std::vector<Pt> pts;
        for (auto& x : l[0]) for (auto& y : l[1]) for (auto& z : l[2])
            pts.push_back(Pt{R3(x.x, y.x, z.x), I3(x.cell, y.cell, z.cell), x.cell >= 0 && y.cell >= 0 && z.cell >= 0});
        std::string gn = MC_STR(mc::vec(G.ax[0]) << mc::vec(G.ax[1]) << mc::vec(G.ax[2]));
        for (auto& a : pts) mc::run([&] { return "node " + gn + p(a.r); }, [&] { convert(G.ax, NODE, {a.r}, a.on, {a.c}, Grid3::tolerance); });
        for (size_t i = 0; i < pts.size(); i++) for (size_t j = 0; j < pts.size(); j++) {
            if (i == j) continue;
            Pt &a = pts[i], &b = pts[j];
            int nd = 0, close = 0; for (int d = 0; d < 3; d++) { if (a.r(d) != b.r(d)) { nd++; if (a.c(d) == b.c(d) && a.c(d) >= 0) close++; } }
            if (close) continue;           // two ends of the same line within the tolerance: degenerate by construction
            bool ok = a.on && b.on && nd == 1;
            if (!ok && nd >= 2 && (i + j) % 8 && !mc::thorough()) continue;
            mc::run([&] { return "line " + gn + p(a.r) + p(b.r); }, [&] { convert(G.ax, LINE, {a.r, b.r}, ok, {a.c, b.c}, Grid3::tolerance); });
        }
        // boxes of two and three dimensions: on the grid, one side off, one vertex pulled out
        for (size_t i = 0; i < pts.size(); i++) for (size_t j = 0; j < pts.size(); j++) {
            Pt &a = pts[i], &b = pts[j];
            bool close = false, dec = false; int nd = 0;
            for (int d = 0; d < 3; d++) { if (a.r(d) > b.r(d)) dec = true; if (a.r(d) != b.r(d)) { nd++; if (a.c(d) == b.c(d) && a.c(d) >= 0) close = true; } }
            if (dec || close || nd < 2 || (!(a.on && b.on) && !mc::thorough() && (i + j) % 3)) continue;
            BoxR3 box(a.r, b.r);
            std::vector<R3> v = box.getPos();
            std::vector<I3> c;
            for (auto& q : v) { I3 k(0, 0, 0); for (int d = 0; d < 3; d++) k(d) = q(d) == a.r(d) ? a.c(d) : b.c(d); c.push_back(k); }
            bool ok = a.on && b.on;
            int ty = nd == 2 ? QUAD : HEX;
            mc::run([&] { return MC_STR(typeNameR[ty] << gn << p(a.r) << p(b.r)); }, [&] { convert(G.ax, ty, v, ok, c, Grid3::tolerance); });
            if (!ok || (!mc::thorough() && (i + j) % 3)) continue;
            for (size_t k = 0; k < v.size(); k++) {
                std::vector<R3> w = v;
                int d = k % 3; w[k](d) = w[k](d) == G.ax[d][0] ? G.ax[d][1] : G.ax[d][0];   // to another grid line: still on the grid, no longer a box
                bool same = true; { std::set<std::string> s1, s2; for (auto& q : v) s1.insert(p(q)); for (auto& q : w) s2.insert(p(q)); same = s1 == s2; }
                if (!same) mc::run([&] { return MC_STR(typeNameR[ty] << " with vertex " << k << " moved " << gn << p(a.r) << p(b.r)); }, [&] { convert(G.ax, ty, w, false, c, Grid3::tolerance); });
                std::vector<R3> u = v; u[k](d) += 0.3 * (G.ax[d][1] - G.ax[d][0]);
                mc::run([&] { return MC_STR(typeNameR[ty] << " with vertex " << k << " off " << gn << p(a.r) << p(b.r)); }, [&] { convert(G.ax, ty, u, false, c, Grid3::tolerance); });
                std::vector<R3> r = v; std::rotate(r.begin(), r.begin() + k, r.end());
                std::vector<I3> rc = c; std::rotate(rc.begin(), rc.begin() + k, rc.end());
                mc::run([&] { return MC_STR(typeNameR[ty] << " rotated " << k << gn << p(a.r) << p(b.r)); }, [&] { convert(G.ax, ty, r, true, rc, Grid3::tolerance); });
            }
        }
        // kinds with no grid counterpart
        for (int ty : {POLYLINE, TRI3, TRI6, TET4, TET10, POLYGON}) for (unsigned sh = 0; sh < 3; sh++) {
            std::vector<R3> pool; for (int k = 0; k < 14; k++) pool.push_back(R3(G.ax[0][k % 2], G.ax[1][k / 2 % 2], G.ax[2][k / 4 % 2]));
            std::vector<R3> v; for (unsigned i : vertsOf(ty, sh)) v.push_back(pool[i]);
            mc::run([&] { return MC_STR(typeNameR[ty] << sh << gn); }, [&] { convert(G.ax, ty, v, false, {}, Grid3::tolerance); });
        }
    }
}
// D  one element onto vertices given, and vertices by themselves
static void partD() {
    const std::vector<double> ax[3] = {{-1, 0.5, 1, 4}, {0, 1, 2}, {5, 7, 8}};
    const Grid3 g(ax);
    const I3 hi[4] = {I3(0, 0, 0), I3(2, 0, 0), I3(2, 1, 0), I3(2, 1, 1)};
    static Layer::Layer lay(LayerId(3), "lay");
    // what is wrong with the vertex `bad`: 0 nothing, 1 missing, 2 elsewhere, 3 elsewhere within the next cell; extra vertices about
    static const int types[4] = {NODE, LINE, QUAD, HEX};
    for (int dim = 0; dim < 4; dim++) for (unsigned ord = 0; ord < 3; ord++) for (int what = 0; what < 4; what++) for (unsigned bad = 0; bad < (what ? 1u << dim : 1u); bad++) for (int to = 0; to < 2; to++)
        mc::run([=] { return MC_STR(typeNameR[types[dim]] << " of order " << ord << " onto " << (to ? "real" : "grid") << " vertices" << (what == 0 ? "" : what == 1 ? ", one missing: " : what == 2 ? ", one elsewhere: " : ", one in the next cell: ") << (what ? std::to_string(bad) : "")); }, [=] {
            const int ty = types[dim];
            EI e{ty, I3(1, 1, 1), add(I3(1, 1, 1), hi[dim]), ord, 9, 0, 0};
            if (dim == 0) e.hi = e.lo; else e.lo = I3(0, 0, 0), e.hi = hi[dim];
            auto at = boxVerts(e);
            CoordI3Group ci; CoordR3Group cr; std::vector<const CoordI3*> vi; std::vector<const CoordR3*> vr;
            std::vector<std::unique_ptr<CoordI3>> ki; std::vector<std::unique_ptr<CoordR3>> kr;
            for (size_t i = 0; i < at.size(); i++) {
                ki.emplace_back(new CoordI3(CoordId(10 + i), at[i])); kr.emplace_back(new CoordR3(CoordId(10 + i), gridPos(ax, at[i]))); vi.push_back(ki.back().get()); vr.push_back(kr.back().get());
                bool b = what && i == bad;
                if (b && what == 1) continue;
                I3 q = at[i]; R3 r = gridPos(ax, q);
                if (b && what == 2) { q(2) = 1 - q(2); r = gridPos(ax, q); }
                if (b && what == 3) { q(1)++; r(1) += 0.25; }
                ci.add(new CoordI3(CoordId(10 + i), q)); cr.add(new CoordR3(CoordId(10 + i), r));
            }
            ci.add(new CoordI3(CoordId(3), at[0])); cr.add(new CoordR3(CoordId(30), gridPos(ax, at[0])));
            mc::step();
            auto judge = [&](auto& group, auto conv, auto key) {
                Element::Base* r = nullptr; bool nf = false, nc = false; size_t id = 0;
                try { r = conv(); } catch (const Element::Error::Coord::NotFound& x) { nf = true; id = x.getCoordId().toInt(); MC_CHECK(std::string(x.what()).find(std::to_string(id)) != std::string::npos, "refused-vertex", x.what()); }
                catch (const Element::Error::Coord::NotCoincident& x) { nc = true; id = x.getCoordId().toInt(); MC_CHECK(std::string(x.what()).find(std::to_string(id)) != std::string::npos, "refused-vertex", x.what()); }
                std::unique_ptr<Element::Base> own(r);
                MC_REQUIRE(nf == (what == 1) && nc == (what >= 2), "given-vertices", (nf ? "one is missing" : nc ? "one is elsewhere" : "accepted"));
                if (what) { MC_CHECK(id == 10 + bad, "refused-vertex", id); mc::outcome("vertices refused"); return; }
                MC_REQUIRE(r && r->getId() == ElemId(9) && r->getLayer() == &lay && r->getModel() == &pec && r->numberOfCoordinates() == at.size(), "given-vertices-element", "");
                for (size_t i = 0; i < at.size(); i++) MC_CHECK(key(r, i) == group.getId(CoordId(10 + i)), "given-vertices-used", i);
                mc::outcome("vertices given");
            };
            if (to) { std::unique_ptr<ElemI> x(makeI(ty, 9, vi, &lay, &pec)); judge(cr, [&] { return x->toUnstructured(cr, g); }, [](Element::Base* r, size_t i) { return dynamic_cast<ElemR*>(r)->getV(i); }); std::unique_ptr<Element::Base> none(x->toStructured(ci, g)); MC_CHECK(!none, "converted-to-its-own-kind", ""); }
            else { std::unique_ptr<ElemR> x(makeR(ty, 9, vr, &lay, &pec)); judge(ci, [&] { return x->toStructured(ci, g); }, [](Element::Base* r, size_t i) { return dynamic_cast<ElemI*>(r)->getV(i); }); std::unique_ptr<Element::Base> none(x->toUnstructured(cr, g)); MC_CHECK(!none, "converted-to-its-own-kind", ""); }
        });
    // vertices: every pair of a set of all kinds
    struct V { std::string name; std::function<Coord*()> make; };
    std::vector<V> all;
    const I3 ip[] = {I3(1, 1, 1), I3(0, 1, 1), I3(-2, 0, 3)};
    for (size_t id : {4, 5}) for (auto& q : ip) {
        all.push_back({MC_STR("real " << id << p(q)), [=] { return new CoordR3(CoordId(id), R3(q(0), q(1), q(2))); }});
        all.push_back({MC_STR("grid " << id << p(q)), [=] { return new CoordI3(CoordId(id), q); }});
        for (double l : {0.0, 0.25, 0.5}) for (auto d : {Math::Constants::x, Math::Constants::z}) all.push_back({MC_STR("conformal " << id << p(q) << l << d), [=] { return new CoordConf(CoordId(id), q, d, l); }});
        for (double a : {0.0, 0.25}) for (double b : {0.0, 0.5}) all.push_back({MC_STR("relative " << id << p(q) << a << b), [=] { return new CoordRel(CoordId(id), q, R3(a, 0, b)); }});
    }
    for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < all.size(); j++) mc::run([&all, i, j] { return "vertices " + all[i].name + " and " + all[j].name; }, [&] {
        std::unique_ptr<Coord> a(all[i].make()), b(all[j].make()), c(a->cloneTo<Coord>());
        mc::step();
        MC_CHECK((*a == *b) == (i == j) && (*b == *a) == (i == j) && (*a != *b) == (i != j), "vertex-equality", (*a == *b));
        MC_CHECK(*c == *a && (*c == *b) == (i == j) && typeid(*c) == typeid(*a), "vertex-copy", "");
        bool done = false;
        if (auto x = dynamic_cast<CoordConf*>(a.get())) { if (auto y = dynamic_cast<CoordConf*>(b.get())) { *x = *y; done = true; } }
        else if (auto x = dynamic_cast<CoordRel*>(a.get())) { if (auto y = dynamic_cast<CoordRel*>(b.get())) { *x = *y; done = true; } }
        else if (typeid(*a) == typeid(*b)) { if (auto x = dynamic_cast<CoordR3*>(a.get())) *x = *dynamic_cast<CoordR3*>(b.get()); else *dynamic_cast<CoordI3*>(a.get()) = *dynamic_cast<CoordI3*>(b.get()); done = true; }
        if (done) { MC_CHECK(*a == *b && (*a == *c) == (i == j), "vertex-assigned", ""); b.reset(); std::unique_ptr<Coord> k(all[j].make()); MC_CHECK(*a == *k, "vertex-assigned", "after the other is gone"); }
        mc::outcome("vertices compared");
    });
    // a vertex by its real position in cells
    const double cs[] = {-3, -2.75, -1.5, -0.25, 0, 0.25, 0.5, 0.999, 1, 2.75, 3};
    for (double x : cs) for (double y : cs) for (double z : cs) mc::run([=] { return "relative vertex of " + p(R3(x, y, z)); }, [=] {
        CoordRel a(CoordId(4), R3(x, y, z)), b(R3(x, y, z));
        mc::step();
        for (const CoordRel* c : {&a, &b}) for (int d = 0; d < 3; d++) {
            double w = d == 0 ? x : d == 1 ? y : z;
            MC_CHECK(c->pos()(d) == int(std::floor(w)) && std::fabs(c->rel()(d) - (w - std::floor(w))) < 1e-12, "relative-parts", c->pos()(d) << " and " << c->rel()(d));
        }
        MC_CHECK(a.getId() == CoordId(4), "relative-id", "");
        CoordRel n; n = a; MC_CHECK(n == a, "vertex-assigned", "");
        mc::outcome("relative vertex");
    });
}
// E  meshes with a grid: their own conversion, their extent and the unit of length
static void partE() {
    typedef Mesh::Geometric MG;
    const std::vector<double> A[3] = {{-1, 0.5, 1, 4}, {0, 1, 2}, {5, 7, 8}};
    // vertices on the grid, near a line of it and off it
    const R3 pool[] = {R3(-1, 0, 5), R3(0.5, 0, 5), R3(0.5, 1, 5), R3(-1, 1, 5), R3(4, 2, 8), R3(1, 2, 8), R3(0.75, 1.5, 6), R3(9, -3, 2), R3(0.502, 1, 7)};
    struct El { int type; std::vector<int> v; };
    const std::vector<El> els = {{NODE, {0}}, {NODE, {6}}, {LINE, {0, 1}}, {LINE, {4, 5}}, {LINE, {1, 7}}, {QUAD, {0, 1, 2, 3}}, {QUAD, {3, 0, 1, 2}}, {TRI3, {0, 4, 6}}, {NODE, {8}}};
    for (unsigned mask = 0; mask < 1u << els.size(); mask++) {
        if (__builtin_popcount(mask) > mc::pick(3, 6)) continue;
        for (double f : {1.0, 1e-3, 2.5}) for (int how = 0; how < 2; how++) mc::run([=] { return MC_STR("mesh with a grid, elements " << mask << ", unit " << f << (how ? " copied" : "")); }, [&] {
            std::vector<double> ax[3] = {A[0], A[1], A[2]}; const Grid3 g(ax);
            std::unique_ptr<MG> m(new MG(g));
            m->layers().addId(new Layer::Layer("first"));
            std::vector<const CoordR3*> c;
            for (size_t i = 0; i < 9; i++) { CoordR3* n = new CoordR3(CoordId(20 - i), pool[i]); m->coords().add(n); c.push_back(n); }
            R3 lo(1e30, 1e30, 1e30), hi(-1e30, -1e30, -1e30);
            for (size_t k = 0; k < els.size(); k++) if (mask >> k & 1) {
                std::vector<const CoordR3*> v; for (int i : els[k].v) { v.push_back(c[i]); for (int d = 0; d < 3; d++) { lo(d) = std::min(lo(d), pool[i](d)); hi(d) = std::max(hi(d), pool[i](d)); } }
                m->elems().add(makeR(els[k].type, 30 - k, v, k % 2 ? m->layers()(0) : nullptr, k % 3 ? &pec : nullptr));
            }
            if (how) { std::unique_ptr<MG> k(new MG(*m)); m.swap(k); }
            auto check = [&](double s, const char* w) {
                mc::step();
                const Mesh::Mesh& b = *m;
                if (mask) { BoxR3 x = b.getBoundingBox(); for (int d = 0; d < 3; d++) MC_CHECK(mc::near(x.getMin()(d), lo(d) * s) && mc::near(x.getMax()(d), hi(d) * s), "extent", w << p(x.getMin()) << p(x.getMax())); }
                BoxR3 y = m->grid().getFullDomainBoundingBox();
                for (int d = 0; d < 3; d++) MC_CHECK(mc::near(y.getMin()(d), ax[d][0] * s) && mc::near(y.getMax()(d), ax[d].back() * s), "domain", w << p(y.getMin()) << p(y.getMax()));
                std::string before = renderMesh(*m);
                const MU& u = *m;
                for (double tol : {0.0, Grid3::tolerance, 0.1}) {
                    std::unique_ptr<MS> own(tol ? m->getMeshStructured(tol) : m->getMeshStructured()), given(u.getMeshStructured(m->grid(), tol ? tol : Grid3::tolerance));
                    owned(*own, "structured ");
                    MC_CHECK(renderMesh(*own) == renderMesh(*given) && renderGrid(own->grid()) == renderGrid(m->grid()) && elemKeys(*own) == elemKeys(*given), "own-grid", w << renderMesh(*own) << " instead of " << renderMesh(*given));
                    size_t n = 0; for (size_t k = 0; k < els.size(); k++) if (mask >> k & 1) { bool on = els[k].type != TRI3; for (int i : els[k].v) if (i == 6 || i == 7) on = false; n += on; }
                    MC_CHECK(own->elems().size() == n, "own-grid-elements", w << renderMesh(*own) << " expected " << n);
                    // back: of the domain
                    const Mesh::Mesh& o = *own; BoxR3 z = o.getBoundingBox(); double mn = 1e30;
                    for (int d = 0; d < 3; d++) { for (size_t i = 1; i < ax[d].size(); i++) mn = std::min(mn, ax[d][i] - ax[d][i - 1]); MC_CHECK(mc::near(z.getMin()(d), ax[d][0] * s) && mc::near(z.getMax()(d), ax[d].back() * s), "domain-of-structured", w << p(z.getMin())); }
                    MC_CHECK(mc::near(own->getMinimumSpaceStep(), mn * s), "least-step", w << own->getMinimumSpaceStep());
                    if (s != 1) continue;
                    std::string cells; for (size_t i = 0; i < own->coords().size(); i++) cells += p(own->coords()(i)->pos());
                    own->applyScalingFactor(f);
                    std::string after; for (size_t i = 0; i < own->coords().size(); i++) after += p(own->coords()(i)->pos());
                    z = static_cast<const Mesh::Mesh&>(*own).getBoundingBox();
                    MC_CHECK(cells == after && mc::near(own->getMinimumSpaceStep(), mn * f), "structured-scaled", w << after);
                    for (int d = 0; d < 3; d++) MC_CHECK(mc::near(z.getMin()(d), ax[d][0] * f) && mc::near(z.getMax()(d), ax[d].back() * f), "structured-scaled", w << p(z.getMin()));
                    std::unique_ptr<MU> r(own->getMeshUnstructured());
                    for (size_t i = 0; i < own->coords().size(); i++) { R3 want = gridPos(ax, own->coords()(i)->pos()), got = r->coords().getId(own->coords()(i)->getId())->pos(); for (int d = 0; d < 3; d++) MC_CHECK(mc::near(got(d), want(d) * f), "structured-scaled-position", p(got)); }
                }
                MC_CHECK(renderMesh(*m) == before, "source-changed", w << before);
                mc::state(renderMesh(*m) + renderGrid(m->grid()));
            };
            check(1, "as built "); m->applyScalingFactor(f); check(f, "in the other unit "); m->applyScalingFactor(2); check(2 * f, "in two units ");
            mc::outcome("meshes with a grid");
        });
    }
}
// F  long axes, far and tiny or huge cells, many elements, large ids
static void sizes() {
    std::vector<std::unique_ptr<MS>> keep;
    for (int n : {1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 257}) for (double sc : {1.0, 1e-9, 1e-3, 1e6}) for (int how = 0; how < 3; how++) for (int d = 0; d < 3; d++) {
        if (!mc::thorough() && n > 3 && (n + how + 2 * d + (sc < 1) + (sc > 1e3)) % 4) continue;
        // even from 0, even about 0, growing by an eighth of a step every cell
        std::vector<double> ax[3] = {{0, sc, 3 * sc}, {-sc, 0.5 * sc}, {2 * sc, 2.5 * sc}};
        ax[d].clear();
        for (int i = 0; i <= n; i++) ax[d].push_back(sc * (how == 0 ? double(i) : how == 1 ? 0.5 * (i - n / 2) : i + i * (i - 1) / 16.0));
        const int d1 = (d + 1) % 3, d2 = (d + 2) % 3;
        std::string nm = MC_STR("axis " << d << " of " << n << " cells, kind " << how << ", unit " << sc << " ");
        Grid3 g(ax);
        std::set<int> at = {0, 1, n / 4, n / 2, n - 1, n};
        for (int i : at) for (int j : at) if (i <= j) for (int dim = 0; dim < 3; dim++) {
            EI e{0, I3(0, 0, 0), I3(0, 0, 0), unsigned(i + dim) % 4, 1000 + size_t(i), 1, 1};
            e.lo(d) = i; e.hi(d) = j; e.hi(d1) = dim > 0; e.hi(d2) = dim > 1;
            int k = (i < j) + dim; static const int ty[] = {NODE, LINE, QUAD, HEX}; e.type = ty[k];
            mc::run([&] { return "long " + nm + rEI(e); }, [&] { roundTrip(ax, build(g, {e}, keep)); });
            // the same as a real element: on the lines, and with an end a quarter of a cell away from them
            std::vector<R3> v; std::vector<I3> c = boxVerts(e); for (auto& q : c) v.push_back(gridPos(ax, q));
            mc::run([&] { return "long onto " + nm + rEI(e); }, [&] { convert(ax, e.type, v, true, c, Grid3::tolerance); });
            for (int side = 0; side < 2; side++) {
                std::vector<R3> w = v; const int b = side ? j : i;
                const double st = b < n ? 0.25 * (ax[d][b + 1] - ax[d][b]) : -0.25 * (ax[d][b] - ax[d][b - 1]);
                for (size_t x = 0; x < w.size(); x++) if (c[x](d) == b) w[x](d) += st;
                mc::run([&] { return MC_STR("long off " << nm << rEI(e) << (side ? "upper" : "lower")); }, [&] { convert(ax, e.type, w, false, c, Grid3::tolerance); });
            }
        }
    }
    // n elements in one mesh; ids small and large, increasing and decreasing
    for (size_t n : {1, 2, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 257, 600}) for (size_t base : {size_t(1), size_t(70000), size_t(1) << 33}) for (int down = 0; down < 2; down++) for (int kind = 0; kind < 4; kind++)
        mc::run([=] { return MC_STR(n << " elements " << kind << " from id " << base << (down ? " down" : " up")); }, [=, &keep] {
            std::vector<double> ax[3] = {{}, {-1, 0.5, 1}, {2, 2.5, 4}};
            for (size_t i = 0; i <= n; i++) ax[0].push_back(0.5 * i + (i % 2 ? 0.125 : 0));
            std::vector<EI> es; static const int ty[] = {NODE, LINE, QUAD, HEX};
            for (size_t i = 0; i < n; i++) {
                const int k = kind == 3 ? int(i % 4) : kind + 1;
                es.push_back(EI{ty[k], I3(int(i), 0, 0), I3(int(i) + (k > 0), k > 1, k > 2), unsigned(i % 3), base + (down ? n - i : i), int(i % 3), int(i % 3)});
            }
            roundTrip(ax, build(Grid3(ax), es, keep));
        });
    // vertices alone: many, displaced, with large ids
    for (size_t n : {1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 257, 600}) for (size_t base : {size_t(1), size_t(1) << 33}) mc::run([=] { return MC_STR(n << " displaced vertices from id " << base); }, [=] {
        std::vector<double> ax[3] = {{}, {-1, 0.5, 1}, {2, 2.5, 4}};
        for (size_t i = 0; i <= n; i++) ax[0].push_back(0.5 * i + (i % 2 ? 0.125 : 0));
        Grid3 g(ax); MS* s = new MS(g); std::map<size_t, R3> want;
        for (size_t i = 0; i < n; i++) {
            I3 q(int(i), i % 2, i / 2 % 2); R3 at = gridPos(ax, q); const double f = (i % 5) * 0.1875; const size_t id = base + 3 * (n - i);
            if (i % 3 == 0) s->coords().add(new CoordI3(CoordId(id), q));
            else if (i % 3 == 1) { s->coords().add(new CoordRel(CoordId(id), q, R3(f, 0.5, f))); for (int d = 0; d < 3; d++) at(d) += (d == 1 ? 0.5 : f) * (ax[d][q(d) + 1] - ax[d][q(d)]); }
            else { const int d = i % 2 ? 0 : 2; s->coords().add(new CoordConf(CoordId(id), q, Math::Constants::CartesianAxis(d), f)); at(d) += f * (ax[d][q(d) + 1] - ax[d][q(d)]); }
            want[id] = at;
        }
        std::unique_ptr<MU> u(s->getMeshUnstructured()); delete s; mc::step();
        MC_REQUIRE(u->coords().size() == n, "vertex-count", u->coords().size());
        for (auto& w : want) { MC_REQUIRE(u->coords().existId(CoordId(w.first)), "vertex-id-lost", w.first); R3 q = u->coords().getId(CoordId(w.first))->pos(); MC_CHECK(eq(q, w.second), "relative-position", p(q) << " instead of " << p(w.second)); }
        mc::outcome("many vertices");
    });
}
static void body() { partA(); partB(); partC(); partD(); partE(); sizes(); }
int main(int argc, char** argv) { return mc::main_(argc, argv, body); }

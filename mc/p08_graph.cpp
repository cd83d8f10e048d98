// P08: connectivities and coordinate graphs.
//  A  every subset of the six tetrahedra of a cube (and of two hexahedra and two
//     prisms of tetrahedra), with every choice of bounding surface, against the
//     sharing relation computed from the vertex ids
//  B  every set of few elements over few coordinates: bounds, neighbours and
//     components, then every split of a coordinate, and copies
#include "geo.h"
#include "geometry/graph/Connectivities.h"
#include "geometry/graph/Vertices.h"
using namespace geo;
typedef Geometry::Graph::Face Face;
typedef Geometry::Graph::Connectivities Conn;
typedef std::set<size_t> Ids;
static Ids keyOf(const std::vector<const CoordR3*>& v) { Ids r; for (auto c : v) r.insert(c->getId().toInt()); return r; }
static R3 outward(const Ids& key, const VolR* v, const std::map<size_t, R3>& pos) {
    // normal of the plane of the face, pointing away from the volume's centre
    std::vector<R3> q; for (auto i : key) q.push_back(pos.at(i));
    R3 n = cross(sub(q[1], q[0]), sub(q[2], q[0])); n = mul(n, 1 / norm(n));
    R3 c(0, 0, 0); for (size_t i = 0; i < v->numberOfVertices(); i++) c = add(c, mul(v->getVertex(i)->pos(), 1.0 / v->numberOfVertices()));
    return dot(n, sub(q[0], c)) > 0 ? n : mul(n, -1);
}
static std::string pf(const Face& f) { return f.first ? MC_STR(f.first->getId().toStr() << "." << f.second) : std::string("none"); }

static bool mirrored = false; // the sides of every volume point inwards
struct Complex { std::map<size_t, R3> pos; std::vector<std::pair<int, std::vector<size_t>>> vols; };
static void checkConn(const Conn& c, const std::vector<const ElemR*>& es, const std::map<size_t, R3>& pos) {
    std::vector<const VolR*> vols; std::vector<const SurfR*> surfs;
    for (auto e : es) if (auto v = dynamic_cast<const VolR*>(e)) vols.push_back(v); else if (auto s = dynamic_cast<const SurfR*>(e)) surfs.push_back(s);
    MC_CHECK(c.size() == es.size(), "size", c.size());
    std::map<Ids, std::vector<Face>> faces;
    for (auto v : vols) for (size_t f = 0; f < v->numberOfFaces(); f++) faces[keyOf(v->getSideCoordinates(f))].push_back(Face(v, f));
    bool recip = true;
    for (auto& k : faces) {
        if (k.second.size() > 2) recip = false;
        for (auto& f : k.second) {
            Face g = c.getNeighFace(f);
            if (k.second.size() == 1) MC_CHECK(g == Face(nullptr, 0), "neighbour-face-of-boundary", pf(f) << " " << pf(g));
            else MC_CHECK(g.first && g.first != f.first && std::find(k.second.begin(), k.second.end(), g) != k.second.end(), "neighbour-face", pf(f) << " " << pf(g));
            MC_CHECK(c.isDomainBoundary(f) == (k.second.size() == 1), "face-is-boundary", pf(f));
            const SurfR* s = c.getNeighSurf(f);
            bool any = false; for (auto q : surfs) any |= keyOf(q->getCoordinates()) == k.first;
            MC_CHECK((s != nullptr) == any && (!s || keyOf(s->getCoordinates()) == k.first), "neighbour-surface", pf(f));
            mc::step(3);
        }
    }
    MC_CHECK(c.isDomainBoundary(Face(nullptr, 0)), "null-face-boundary", "");
    for (auto s : surfs) {
        Ids key = keyOf(s->getCoordinates());
        auto& fs = faces[key];
        Face in = c.getInnerFace(s), out = c.getOuterFace(s);
        std::string what = MC_STR("surface " << s->getId().toStr() << " inner " << pf(in) << " outer " << pf(out));
        bool bnd = c.isDomainBoundary(s);
        mc::step(3);
        if (fs.size() == 0) MC_CHECK(!in.first && !out.first && bnd, "loose-surface", what);
        else if (fs.size() == 1) MC_CHECK(in == fs[0] && !out.first && bnd, "boundary-surface", what);
        else if (fs.size() == 2) {
            R3 n = s->getNormal();
            size_t w = eq(outward(key, fs[0].first, pos), n, 1e-6) ? 0 : 1;
            if (mirrored) w = 1 - w;
            MC_CHECK(eq(outward(key, fs[mirrored ? 1 - w : w].first, pos), n, 1e-6), "oracle-normal", what);
            MC_CHECK(in == fs[w] && out == fs[1 - w] && !bnd, "inner-outer", what);
        }
    }
    if (recip) MC_CHECK(c.existsReciprocity(), "reciprocity", "");
    else MC_CHECK(!c.existsReciprocity(), "reciprocity-of-crowded-face", "");
}
static const ElemR* make(int type, size_t id, const std::vector<size_t>& v, const CoordR3Group& cg) {
    std::vector<const CoordR3*> p; for (auto i : v) p.push_back(cg.getId(CoordId(i)));
    return makeR(type, id, p, nullptr, nullptr);
}
static void runComplex(const char* name, const Complex& cx, unsigned mask, const std::vector<std::pair<int, std::vector<size_t>>>& surfs, bool reversed) {
    mc::run([&] { std::string s = MC_STR(name << (mirrored ? " mirrored" : "") << " volumes " << mask << (reversed ? " reversed" : "")); for (auto& q : surfs) s += MC_STR(" surface" << mc::vec(q.second)); return s; }, [&] {
        CoordR3Group cg;
        for (auto& q : cx.pos) cg.add(new CoordR3(CoordId(q.first), q.second));
        std::vector<const ElemR*> es; size_t id = 10;
        for (size_t k = 0; k < cx.vols.size(); k++) if (mask >> k & 1) es.push_back(make(cx.vols[k].first, id + k, cx.vols[k].second, cg));
        id = 100;
        for (auto& q : surfs) es.push_back(make(q.first, id++, q.second, cg));
        if (reversed) std::reverse(es.begin(), es.end());
        SEMBA::Group::Group<const ElemR> g; for (auto e : es) g.add(e);
        Conn c(g);
        checkConn(c, es, cx.pos);
        if (surfs.size() > 1 && !mc::thorough()) return;
        Conn* d = new Conn(c); Conn e; e = *d;
        { Conn tmp(*d); tmp = Conn(g); delete d; checkConn(tmp, es, cx.pos); }
        checkConn(e, es, cx.pos);
        e = Conn(); MC_CHECK(e.size() == 0, "assigned-empty", "");
        checkConn(c, es, cx.pos);
    });
}
// all faces of the complex, oriented out of the first volume that has them
static std::vector<std::pair<int, std::vector<size_t>>> facesOf(const Complex& cx) {
    std::vector<std::pair<int, std::vector<size_t>>> r; std::set<Ids> seen;
    static const int T[4][3] = {{0, 1, 2}, {0, 3, 1}, {0, 2, 3}, {1, 3, 2}};
    static const int H[6][4] = {{0, 1, 2, 3}, {0, 3, 7, 4}, {0, 4, 5, 1}, {1, 5, 6, 2}, {2, 6, 7, 3}, {4, 7, 6, 5}};
    for (auto& v : cx.vols) for (int f = 0; f < (v.first == HEX ? 6 : 4); f++) {
        std::vector<size_t> q; if (v.first == HEX) for (int i : H[f]) q.push_back(v.second[i]); else for (int i : T[f]) q.push_back(v.second[i]);
        if (seen.insert(Ids(q.begin(), q.end())).second) r.push_back(std::make_pair(v.first == HEX ? QUAD : TRI3, q));
    }
    return r;
}
static double vol6(const Complex& c, const std::vector<size_t>& t) { return det(sub(c.pos.at(t[1]), c.pos.at(t[0])), sub(c.pos.at(t[2]), c.pos.at(t[0])), sub(c.pos.at(t[3]), c.pos.at(t[0]))); }
static void exploreOne(const char* name, const Complex& cx);
static void explore(const char* name, Complex cx) {
    exploreOne(name, cx);
    for (auto& q : cx.pos) q.second(0) = -q.second(0);
    mirrored = true; exploreOne(name, cx); mirrored = false;
}
static void exploreOne(const char* name, const Complex& cx) {
    auto fs = facesOf(cx);
    auto rev = [](std::pair<int, std::vector<size_t>> q) { std::reverse(q.second.begin(), q.second.end()); return q; };
    for (unsigned mask = 0; mask < (1u << cx.vols.size()); mask++) for (int r = 0; r < 2; r++) {
        runComplex(name, cx, mask, {}, r);
        for (size_t a = 0; a < fs.size(); a++) for (int o = 0; o < 2; o++) {
            auto A = o ? rev(fs[a]) : fs[a];
            runComplex(name, cx, mask, {A}, r);
            runComplex(name, cx, mask, {A, rev(A)}, r);
            if (!mirrored && ((!r && !o) || mc::thorough())) for (size_t b = 0; b < a; b++) for (int ob = 0; ob < mc::pick(1, 2); ob++) runComplex(name, cx, mask, {A, ob ? rev(fs[b]) : fs[b]}, r);
        }
    }
}

// ---- B
typedef Geometry::Graph::Vertices<ElemR, CoordR3> G;
struct Model { std::vector<size_t> elem; std::vector<std::vector<size_t>> ofElem; std::vector<size_t> bound; }; // ofElem: indices of bounds
static void checkGraph(const G& cg, const Model& m, const char* tag) {
    G& g = const_cast<G&>(cg);
    size_t nE = m.elem.size(), nB = m.bound.size();
    MC_REQUIRE(g.numElems() == nE && g.numBounds() == nB, std::string(tag) + "-sizes", g.numElems() << "," << g.numBounds() << " for " << nE << "," << nB);
    std::vector<std::set<size_t>> elemsOf(nB);
    for (size_t e = 0; e < nE; e++) for (auto b : m.ofElem[e]) elemsOf[b].insert(e);
    // where each bound of the model is
    std::map<const void*, size_t> whereE, whereB;
    for (size_t e = 0; e < nE; e++) { whereE[g.elem(e)] = e; MC_CHECK(g.elem(e)->elem()->getId().toInt() == m.elem[e], std::string(tag) + "-element", e); }
    for (size_t b = 0; b < nB; b++) { whereB[g.bound(b)] = b; MC_CHECK(g.bound(b)->elem()->getId().toInt() == m.bound[b], std::string(tag) + "-bound", b); }
    for (size_t e = 0; e < nE; e++) {
        const auto* x = cg.elem(e);
        MC_REQUIRE(x->numBounds() == m.ofElem[e].size(), std::string(tag) + "-bounds-of-element", e);
        std::set<size_t> want, got;
        for (size_t k = 0; k < x->numBounds(); k++) {
            MC_REQUIRE(whereB.count(x->getBound(k)) && whereB[x->getBound(k)] == m.ofElem[e][k], std::string(tag) + "-bound-of-element", e << "." << k);
            std::multiset<size_t> wb, gb;
            for (auto o : elemsOf[m.ofElem[e][k]]) if (o != e) { wb.insert(o); want.insert(o); }
            for (size_t j = 0; j < x->numBoundNeighbors(k); j++) gb.insert(whereE.count(x->getBoundNeighbor(k, j)) ? whereE[x->getBoundNeighbor(k, j)] : 999);
            MC_CHECK(wb == gb, std::string(tag) + "-neighbours-through-bound", e << "." << k << mc::vec(gb) << " want " << mc::vec(wb));
        }
        for (size_t j = 0; j < x->numNeighbors(); j++) got.insert(whereE.count(x->getNeighbor(j)) ? whereE[x->getNeighbor(j)] : 999);
        MC_CHECK(got == want && x->numNeighbors() == got.size(), std::string(tag) + "-neighbours-of-element", e << mc::vec(got) << " want " << mc::vec(want));
        mc::step();
    }
    for (size_t b = 0; b < nB; b++) {
        const auto* x = cg.bound(b);
        std::set<size_t> ge, want, got;
        MC_REQUIRE(x->numBounds() == elemsOf[b].size(), std::string(tag) + "-elements-of-bound", b << " has " << x->numBounds());
        for (size_t k = 0; k < x->numBounds(); k++) {
            MC_REQUIRE(whereE.count(x->getBound(k)), std::string(tag) + "-element-of-bound", b);
            size_t e = whereE[x->getBound(k)]; ge.insert(e);
            for (auto o : m.ofElem[e]) if (m.bound[o] != m.bound[b]) want.insert(o);
        }
        MC_CHECK(ge == elemsOf[b], std::string(tag) + "-elements-of-bound", b << mc::vec(ge));
        for (size_t j = 0; j < x->numNeighbors(); j++) got.insert(whereB.count(x->getNeighbor(j)) ? whereB[x->getNeighbor(j)] : 999);
        MC_CHECK(got == want && x->numNeighbors() == got.size(), std::string(tag) + "-neighbours-of-bound", b << mc::vec(got) << " want " << mc::vec(want));
        mc::step();
    }
    // components
    std::vector<size_t> cls(nE); for (size_t e = 0; e < nE; e++) cls[e] = e;
    for (bool ch = true; ch;) { ch = false; for (auto& s : elemsOf) for (auto a : s) for (auto b : s) { size_t lo = std::min(cls[a], cls[b]); if (cls[a] != lo || cls[b] != lo) { cls[a] = cls[b] = lo; ch = true; } } }
    std::map<size_t, std::multiset<size_t>> want; for (size_t e = 0; e < nE; e++) want[cls[e]].insert(m.elem[e]);
    for (int twice = 0; twice < 2; twice++) {
        auto cc = g.getConnectedComponents();
        std::set<std::multiset<size_t>> ws, gs; for (auto& w : want) ws.insert(w.second);
        for (auto& c : cc) { std::multiset<size_t> s; for (auto e : c) s.insert(e->getId().toInt()); gs.insert(s); }
        MC_CHECK(cc.size() == want.size() && gs == ws, std::string(tag) + "-components", cc.size() << " for " << want.size());
    }
    mc::state(MC_STR(nE << nB << mc::vec(cls)));
}
static void graphCase(const std::vector<std::pair<int, std::vector<size_t>>>& el, unsigned nC) {
    mc::run([&] { std::string s = "graph"; for (auto& e : el) s += MC_STR(" " << typeNameR[e.first] << mc::vec(e.second)); return s; }, [&] {
        CoordR3Group cg; for (size_t i = 1; i <= nC; i++) cg.add(new CoordR3(CoordId(i), R3(i, i * i, i * i * i)));
        const size_t top = el.size() + 45;
        std::vector<const ElemR*> es; SEMBA::Group::Group<const ElemR> grp; Model m; std::map<size_t, size_t> at;
        for (size_t k = 0; k < el.size(); k++) {
            auto* e = make(el[k].first, top - k, el[k].second, cg); es.push_back(e); grp.add(e);
            m.elem.push_back(top - k); m.ofElem.push_back({});
            for (auto v : el[k].second) { if (!at.count(v)) { at[v] = m.bound.size(); m.bound.push_back(v); } m.ofElem.back().push_back(at[v]); }
        }
        G g; g.init(grp);
        checkGraph(g, m, "graph");
        for (size_t b = 0; b < m.bound.size(); b++) {
            if (el.size() > 10 && b > 2 && b + 2 < m.bound.size() && b != m.bound.size() / 2) continue;
            G h(g); checkGraph(h, m, "copy");
            Model s = m; h.splitBound(b);
            bool first = true;
            // the elements come in the order of the group
            for (size_t e = 0; e < s.elem.size(); e++) for (auto& v : s.ofElem[e]) if (v == b) { if (first) first = false; else { v = s.bound.size(); s.bound.push_back(m.bound[b]); } }
            checkGraph(h, s, "split");
            checkGraph(g, m, "original-after-split");
            G* i = new G(h); G j; j = *i; delete i; checkGraph(j, s, "assigned"); j = g; checkGraph(j, m, "assigned-again"); G& self = j; j = self; checkGraph(j, m, "self-assigned");
            // a second split, of every bound
            if (el.size() > mc::pick(2u, 10u) && !(el.size() <= 5 && el[0].first == LINE && el.back().first == LINE && b == 0)) continue;
            for (size_t c = 0; c < s.bound.size(); c++) {
                G k(h); k.splitBound(c); Model t = s; bool f2 = true;
                for (size_t e = 0; e < t.elem.size(); e++) for (auto& v : t.ofElem[e]) if (v == c) { if (f2) f2 = false; else { v = t.bound.size(); t.bound.push_back(s.bound[c]); } }
                checkGraph(k, t, "second-split");
            }
        }
    });
}
// chains, rings, stars, combs, strips of triangles and scattered pieces of every size of a ladder
static void sizes() {
    std::vector<size_t> ns; for (size_t n = 3; n <= mc::pick(24u, 40u); n++) ns.push_back(n);
    for (size_t n : {64, 65, 129}) ns.push_back(n);
    typedef std::vector<std::pair<int, std::vector<size_t>>> El;
    for (size_t n : ns) {
        El chain, ring, star, strip, bits, nodes, poly;
        for (size_t i = 1; i <= n; i++) {
            chain.push_back({int(LINE), {i, i + 1}}); ring.push_back({int(LINE), {i, i % n + 1}});
            star.push_back({int(i % 3 ? LINE : TRI3), i % 3 ? std::vector<size_t>{1, i + 1} : std::vector<size_t>{i + 1, 1, i}});
            strip.push_back({int(i % 2 ? TRI3 : QUAD), i % 2 ? std::vector<size_t>{i, i + 1, i + 2} : std::vector<size_t>{i + 1, i, i + 3, i + 2}});
            if (i % 2) bits.push_back({int(LINE), {i + 1, i}});
            nodes.push_back({int(NODE), {n + 1 - i}});
        }
        El back(chain.rbegin(), chain.rend()); 
        El two = chain; two.erase(two.begin() + n / 2); two.push_back({int(NODE), {1}}); two.push_back({int(TET4), {4, 2, 1, 3}});
        for (auto& e : {chain, ring, star, strip, bits, nodes, back, two}) graphCase(e, n + 5);
    }
}
static void body() {
    sizes();
    Complex cube;
    for (size_t i = 0; i < 8; i++) cube.pos[i + 1] = R3(i & 1, i >> 1 & 1, i >> 2 & 1);
    {   // the six tetrahedra of the diagonal of the cube
        int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        Complex k = cube;
        for (auto& q : perm) { size_t a = 1 << q[0], b = a | (1 << q[1]); std::vector<size_t> t = {1, a + 1, b + 1, 8}; if (vol6(k, t) > 0) std::swap(t[1], t[2]); k.vols.push_back(std::make_pair(int(TET4), t)); }
        explore("six tetrahedra", k);
    }
    {   // the five tetrahedra of the cube, vertices rotated
        Complex k = cube; std::vector<std::vector<size_t>> ts = {{1, 4, 6, 7}, {2, 1, 4, 6}, {3, 1, 4, 7}, {5, 1, 6, 7}, {8, 4, 6, 7}};
        size_t r = 0;
        for (auto t : ts) { if (vol6(k, t) > 0) std::swap(t[2], t[3]); for (size_t i = 0; i < r % 3; i++) { size_t x = t[1]; t[1] = t[2]; t[2] = t[3]; t[3] = x; } r++; k.vols.push_back(std::make_pair(int(TET4), t)); }
        explore("five tetrahedra", k);
    }
    {   // four hexahedra
        Complex k; auto at = [](int x, int y, int z) { return size_t(1 + x + 3 * y + 9 * z); };
        for (int z = 0; z < 2; z++) for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) k.pos[at(x, y, z)] = R3(x, y, z);
        for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++)
            k.vols.push_back(std::make_pair(int(HEX), std::vector<size_t>{at(x, y, 0), at(x, y + 1, 0), at(x + 1, y + 1, 0), at(x + 1, y, 0), at(x, y, 1), at(x, y + 1, 1), at(x + 1, y + 1, 1), at(x + 1, y, 1)}));
        explore("four hexahedra", k);
    }
    {   // three tetrahedra on one face
        Complex k; k.pos = {{1, R3(0, 0, 0)}, {2, R3(1, 0, 0)}, {3, R3(0, 1, 0)}, {4, R3(0, 0, 1)}, {5, R3(0, 0, -1)}, {6, R3(.2, .2, 2)}};
        for (size_t top = 4; top <= 6; top++) { std::vector<size_t> t = {1, 2, 3, top}; if (vol6(k, t) > 0) std::swap(t[1], t[2]); k.vols.push_back(std::make_pair(int(TET4), t)); }
        for (unsigned mask = 0; mask < 8; mask++) for (int r = 0; r < 2; r++) runComplex("three on a face", k, mask, {}, r);
    }
    // B: every set of elements
    unsigned nC = mc::pick(4u, 5u);
    std::vector<std::pair<int, std::vector<size_t>>> pool;
    for (size_t a = 1; a <= nC; a++) {
        pool.push_back({int(NODE), {a}});
        for (size_t b = 1; b <= nC; b++) if (b != a && (b > a || (a == nC && b == 1) || mc::thorough())) {
            pool.push_back({int(LINE), {a, b}});
            for (size_t c = 1; c <= nC; c++) if (c > b && a < c) pool.push_back({int(TRI3), {c, a, b}});
        }
    }
    pool.push_back({int(QUAD), {1, 2, 3, 4}}); pool.push_back({int(TET4), {4, 2, 1, 3}});
    auto edges = pool; edges.clear();
    for (size_t a = 1; a <= 5; a++) for (size_t b = a + 1; b <= 5; b++) edges.push_back({int(LINE), {a, b}});
    graphCase({}, nC);
    for (auto& a : pool) { graphCase({a}, nC); for (auto& b : pool) { graphCase({a, b}, nC); for (auto& c : pool) graphCase({a, b, c}, nC); } }
    // every graph on five coordinates
    for (unsigned mask = 0; mask < (1u << edges.size()); mask++) { std::vector<std::pair<int, std::vector<size_t>>> e; for (size_t k = 0; k < edges.size(); k++) if (mask >> k & 1) e.push_back(edges[k]); graphCase(e, 5); }
}
int main(int c, char** v) { return mc::main_(c, v, body); }

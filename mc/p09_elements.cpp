// P09: geometry of single elements against formulas computed from the vertex
// positions alone.
//  A  tetrahedra over every ordered choice of lattice points   B  triangles and
//  quadrilaterals, likewise   C  curved triangles and tetrahedra with every set of
//  mid-side nodes displaced   D  hexahedra   E  lines, polylines, polygons and
//  every set of the faces of a dodecahedron
#include "geo.h"
#include <memory>
using namespace geo;
typedef std::vector<R3> Pts;
// unit of length of the elements being checked: comparisons are relative to it
static double U = 1;
static bool near3(double a, double b, int power) { double u = std::pow(U, power); return mc::near(a / u, b / u); }
static bool eqU(const R3& a, const R3& b) { return eq(mul(a, 1 / U), mul(b, 1 / U)); }
static Pts scaled(const Pts& q) { Pts r; for (auto& x : q) r.push_back(mul(x, U)); return r; }
static Element::Layer& layer() { static Element::Layer l(LayerId(3), "of elements"); return l; }
static Element::Model& model() { static PhysicalModel::Predefined::PEC m(MatId(5)); return m; }
static std::string ps(const Pts& v) { std::string s; for (auto& q : v) s += p(q); return s; }
static bool lexLess(const R3& a, const R3& b) { for (int d = 0; d < 3; d++) if (a(d) != b(d)) return a(d) < b(d); return false; }
struct Coords {
    std::vector<CoordR3*> c; std::vector<const CoordR3*> cc;
    Coords(const Pts& q) { for (size_t i = 0; i < q.size(); i++) { c.push_back(new CoordR3(CoordId(10 + 7 * i), q[i])); cc.push_back(c.back()); } }
    ~Coords() { for (auto x : c) delete x; }
};
static bool isPlane(const Pts& q, int plane) {
    int n = plane == Math::Constants::xy ? 2 : plane == Math::Constants::yz ? 0 : 1;
    for (auto& x : q) if (x(n) != q[0](n)) return false;
    return true;
}
static const Math::Constants::CartesianPlane planes[] = {Math::Constants::xy, Math::Constants::yz, Math::Constants::zx};
// what every element must say of its vertices
static void common(const ElemR& e, const std::vector<const CoordR3*>& v, const std::vector<size_t>& vertices, const char* tag) {
    std::string t(tag);
    MC_REQUIRE(e.numberOfCoordinates() == v.size() && e.numberOfVertices() == vertices.size(), t + "-counts", e.numberOfCoordinates());
    std::vector<const CoordR3*> want; for (auto i : vertices) want.push_back(v[i]);
    for (size_t i = 0; i < v.size(); i++) MC_CHECK(e.getV(i) == v[i], t + "-coordinate", i);
    for (size_t i = 0; i < want.size(); i++) MC_CHECK(e.getVertex(i) == want[i], t + "-vertex", i);
    MC_CHECK(e.getCoordinates() == v && e.getVertices() == want, t + "-lists", "");
    R3 lo = v[0]->pos(), hi = lo;
    for (auto c : v) for (int d = 0; d < 3; d++) { lo(d) = std::min(lo(d), c->pos()(d)); hi(d) = std::max(hi(d), c->pos()(d)); }
    BoxR3 b = e.getBound();
    MC_CHECK(eqU(b.getMin(), lo) && eqU(b.getMax(), hi), t + "-bound", p(b.getMin()) << p(b.getMax()));
    const CoordR3 *mn = want[0], *mx = want[0];
    for (auto c : want) { if (lexLess(c->pos(), mn->pos())) mn = c; if (lexLess(mx->pos(), c->pos())) mx = c; }
    MC_CHECK(e.getMinV()->pos() == mn->pos(), t + "-first-vertex", p(e.getMinV()->pos()) << " want " << p(mn->pos()));
    MC_CHECK(e.getMaxV()->pos() == mx->pos(), t + "-last-vertex", p(e.getMaxV()->pos()) << " want " << p(mx->pos()));
    for (auto c : v) { CoordR3 twin(*c); MC_CHECK(e.isCoordinate(&twin), t + "-has-coordinate", p(c->pos())); }
    CoordR3 other(CoordId(99999), add(hi, R3(1, 1, 1))); MC_CHECK(!e.isCoordinate(&other), t + "-has-other-coordinate", "");
    for (size_t f = 0; f < e.numberOfFaces(); f++) {
        auto sc = e.getSideCoordinates(f); auto sv = e.getSideVertices(f);
        MC_CHECK(sc.size() == e.numberOfSideCoordinates(f) && sv.size() == e.numberOfSideVertices(f), t + "-side-counts", f);
        for (size_t i = 0; i < sc.size(); i++) MC_CHECK(sc[i] == e.getSideV(f, i), t + "-side-coordinates", f << "." << i);
        for (size_t i = 0; i < sv.size(); i++) MC_CHECK(sv[i] == e.getSideVertex(f, i), t + "-side-vertices", f << "." << i);
    }
    mc::step(6);
}
// a surface's sides go around its vertices, each from one vertex to the next
static void sidesOfSurface(const SurfR& s, const char* tag) {
    std::string t(tag); size_t n = s.numberOfVertices();
    MC_REQUIRE(s.numberOfFaces() == n, t + "-number-of-sides", s.numberOfFaces());
    for (size_t f = 0; f < n; f++) MC_CHECK(s.getSideVertex(f, 0) == s.getVertex(f) && s.getSideVertex(f, 1) == s.getVertex((f + 1) % n), t + "-side", f);
}
static void planesOf(const SurfR& s, const Pts& q, const char* tag) {
    bool any = false;
    for (int k = 0; k < 3; k++) { bool w = isPlane(q, planes[k]); any |= w; MC_CHECK(s.isContainedInPlane(planes[k]) == w, std::string(tag) + "-in-plane", k); }
    MC_CHECK(s.isContainedInPlane() == any, std::string(tag) + "-in-some-plane", any);
}
// a volume's faces close around it, all turned the same way; each edge is in two faces, once each way
static void facesOfVolume(const VolR& v, const char* tag) {
    std::string t(tag); std::map<std::pair<const CoordR3*, const CoordR3*>, int> edge; std::set<std::set<const CoordR3*>> sets;
    for (size_t f = 0; f < v.numberOfFaces(); f++) {
        auto sv = v.getSideVertices(f);
        for (size_t i = 0; i < sv.size(); i++) edge[std::make_pair(sv[i], sv[(i + 1) % sv.size()])]++;
        sets.insert(std::set<const CoordR3*>(sv.begin(), sv.end()));
    }
    MC_CHECK(sets.size() == v.numberOfFaces(), t + "-faces-distinct", sets.size());
    for (auto& e : edge) MC_CHECK(e.second == 1 && edge.count(std::make_pair(e.first.second, e.first.first)), t + "-faces-closed", "");
}
static R3 nrm(const R3& a, const R3& b, const R3& c) { R3 n = cross(sub(b, a), sub(c, a)); return mul(n, 1 / norm(n)); }

// ------------------------------------------------------------------ A
static double vol6(const Pts& q) { return det(sub(q[1], q[0]), sub(q[2], q[0]), sub(q[3], q[0])); }
static void checkTet(const Tet4& e, const std::vector<const CoordR3*>& v, const char* tag) {
    std::string t(tag); Pts q; for (auto c : v) q.push_back(c->pos());
    common(e, v, {0, 1, 2, 3}, tag); facesOfVolume(e, tag);
    double V = vol6(q);
    MC_CHECK(near3(e.getVolume(), -V / 6, 3), t + "-volume", e.getVolume());
    MC_CHECK(e.numberOfFaces() == 4 && !e.isCurved() && !e.isQuadratic(), t + "-kind", "");
    std::set<const CoordR3*> opp;
    for (size_t f = 0; f < 4; f++) {
        auto s = e.getSideVertices(f); Pts w; for (auto c : s) w.push_back(c->pos());
        const CoordR3* o = nullptr; for (auto c : v) if (std::find(s.begin(), s.end(), c) == s.end()) { MC_CHECK(!o, t + "-face-repeats", f); o = c; }
        MC_REQUIRE(o, t + "-face-without-opposite", f); opp.insert(o);
        R3 n = e.getSideNormal(f);
        MC_CHECK(mc::near(norm(n), 1) && eq(n, nrm(w[0], w[1], w[2])), t + "-face-normal", f << p(n));
        // outwards exactly for a positive volume
        MC_CHECK((dot(n, sub(w[0], o->pos())) > 0) == (e.getVolume() > 0), t + "-normal-side", f << p(n));
        MC_CHECK(near3(e.getAreaOfFace(f), 0.5 * norm(cross(sub(w[1], w[0]), sub(w[2], w[0]))), 2), t + "-face-area", f << " " << e.getAreaOfFace(f));
        for (int k = 0; k < 3; k++) MC_CHECK(e.isFaceContainedInPlane(f, planes[k]) == isPlane(w, planes[k]), t + "-face-in-plane", f << k);
        BoxR3 b = e.getBoundOfFace(f); R3 lo = w[0], hi = w[0];
        for (auto& x : w) for (int d = 0; d < 3; d++) { lo(d) = std::min(lo(d), x(d)); hi(d) = std::max(hi(d), x(d)); }
        MC_CHECK(eqU(b.getMin(), lo) && eqU(b.getMax(), hi), t + "-face-bound", f);
        {
            std::unique_ptr<Tri3> tri(e.getTri3Face(f));
            for (int i = 0; i < 3; i++) MC_CHECK(tri->getVertex(i) == s[i], t + "-face-triangle", f);
            const CoordR3* r[3] = {s[1], s[2], s[0]}; const CoordR3* m[3] = {s[1], s[0], s[2]};
            Tri3 rot(ElemId(3), r), mir(ElemId(3), m);
            MC_CHECK(e.getFaceNumber(&rot) == f && e.getFaceNumber(&mir) == f, t + "-face-number", f);
            MC_CHECK(e.isLocalFace(f, rot) && !e.isLocalFace(f, mir), t + "-local-face", f);
        }
        MC_CHECK(!e.isCurvedFace(f), t + "-curved-face", f);
        mc::step(8);
    }
    MC_CHECK(opp.size() == 4, t + "-faces-cover", opp.size());
}
static void innerPoints(const Tet4& e, const Pts& q, double span) {
    double V = vol6(q); bool all = true;
    for (double x = -0.5; x <= span; x += 0.5) for (double y = -0.5; y <= span; y += 0.5) for (double z = -0.5; z <= span; z += 0.5) {
        R3 pt(x * U, y * U, z * U); int in = 1;
        for (int k = 0; k < 4; k++) { Pts w = q; w[k] = pt; double l = vol6(w) / V; if (l < 0) in = -1; }
        MC_CHECK(e.isInnerPoint(pt) == (in > 0), "inner-point", p(pt) << " " << (in > 0)); mc::step();
        all &= in > 0;
    }
}
static void tets(const Pts& pool, bool deep) {
    std::vector<unsigned> dims(4, pool.size());
    mc::product(dims, [&](const std::vector<unsigned>& c) {
        std::set<unsigned> s(c.begin(), c.end()); if (s.size() < 4) return;
        Pts q; for (auto i : c) q.push_back(pool[i]);
        mc::run([&] { return "tetrahedron " + ps(q); }, [&] {
            Coords k(q); const CoordR3* v[4] = {k.cc[0], k.cc[1], k.cc[2], k.cc[3]};
            if (vol6(q) == 0) { MC_CHECK(MC_THROWS(Tet4(ElemId(1), v)), "flat-tetrahedron", ""); mc::outcome("flat"); return; }
            Tet4 e(ElemId(1), v); mc::outcome("solid");
            checkTet(e, k.cc, "tetrahedron");
            if (deep) innerPoints(e, q, 2.5);
            std::unique_ptr<ElemR> cl(e.clone()->castTo<ElemR>());
            checkTet(*cl->castTo<Tet4>(), k.cc, "cloned-tetrahedron"); MC_CHECK(*cl == e, "clone-equal", "");
            // one vertex moved elsewhere
            CoordR3 far(CoordId(500), add(q[c[0] % 4], mul(sub(q[c[0] % 4], q[(c[0] + 1) % 4]), 2)));
            cl->setV(c[0] % 4, &far); auto cc = k.cc; cc[c[0] % 4] = &far;
            checkTet(*cl->castTo<Tet4>(), cc, "edited-tetrahedron"); MC_CHECK(*cl != e, "edited-differs", "");
            checkTet(e, k.cc, "original-tetrahedron");
            mc::state(MC_STR(e.getVolume() << p(e.getSideNormal(0))));
        });
    });
}
// tetrahedra far from the origin, every number exact
static void farTets() {
    const Pts pool = {R3(0, 0, 0), R3(2, 0, 0), R3(0, 2, 0), R3(0, 0, 2), R3(1, 1, 1), R3(2, 1, 0)};
    for (int e = 4; e <= 29; e += mc::pick(5, 1)) for (int dir = 1; dir < 27; dir++) for (int drop = 0; drop < 15; drop++) {
        std::vector<int> in; int k = 0; for (int a = 0; a < 6; a++) for (int b = a + 1; b < 6; b++) if (k++ == drop) for (int i = 0; i < 6; i++) if (i != a && i != b) in.push_back(i);
        mc::run([=] { return MC_STR("tetrahedron " << mc::vec(in) << " moved by 2^" << e << " towards " << dir % 3 - 1 << dir / 3 % 3 - 1 << dir / 9 - 1); }, [&] {
            const R3 off = mul(R3(dir % 3 - 1, dir / 3 % 3 - 1, dir / 9 - 1), std::ldexp(1.0, e));
            Pts q, at; for (int i : in) { q.push_back(pool[i]); at.push_back(add(pool[i], off)); }
            Coords k(at); const CoordR3* v[4] = {k.cc[0], k.cc[1], k.cc[2], k.cc[3]};
            const double V = vol6(q);
            if (V == 0) { MC_CHECK(MC_THROWS(Tet4(ElemId(1), v)), "flat-tetrahedron", ""); mc::outcome("flat"); return; }
            Tet4 t(ElemId(1), v); mc::outcome("solid, far away");
            checkTet(t, k.cc, "far-tetrahedron");
            for (double x = -0.5; x <= 2.5; x += 0.5) for (double y = -0.5; y <= 2.5; y += 0.5) for (double z = -0.5; z <= 2.5; z += 0.5) {
                bool inside = true;
                for (int j = 0; j < 4; j++) { Pts w = q; w[j] = R3(x, y, z); if (vol6(w) / V < 0) inside = false; }
                mc::step();
                MC_CHECK(t.isInnerPoint(add(R3(x, y, z), off)) == inside, "inner-point", x << " " << y << " " << z << " beyond the offset: " << inside);
            }
        });
    }
}
// ------------------------------------------------------------------ B
static void tris(const Pts& pool) {
    std::vector<unsigned> dims(3, pool.size());
    mc::product(dims, [&](const std::vector<unsigned>& c) {
        if (c[0] == c[1] || c[1] == c[2] || c[0] == c[2]) return;
        Pts q; for (auto i : c) q.push_back(pool[i]);
        mc::run([&] { return "triangle " + ps(q); }, [&] {
            Coords k(q); const CoordR3* v[3] = {k.cc[0], k.cc[1], k.cc[2]};
            Tri3 e(ElemId(1), v, &layer(), &model()); common(e, k.cc, {0, 1, 2}, "triangle"); sidesOfSurface(e, "triangle"); planesOf(e, q, "triangle");
            R3 n = cross(sub(q[1], q[0]), sub(q[2], q[0]));
            MC_CHECK(near3(e.getArea(), norm(n) / 2, 2), "triangle-area", e.getArea());
            if (norm(n) > 0) MC_CHECK(eq(e.getNormal(), mul(n, 1 / norm(n))), "triangle-normal", p(e.getNormal()));
            MC_CHECK(!e.isRectangular() && !e.isCurved() && !e.isQuadratic(), "triangle-kind", "");
            std::unique_ptr<Tri3> l(e.linearize()); common(*l, k.cc, {0, 1, 2}, "linearized-triangle"); MC_CHECK(*l == e && l->getLayer() == &layer() && l->getModel() == &model(), "linearized-equal", "");
        });
    });
}
// Rectangles and figures close to them, turned about.
static void turned() {
    for (double u : {1e-9, 1e-6, 1e-3, 1.0, 1e3}) for (double w : {1.0, 0.3}) for (double skew : {0.0, 1e-3, 0.2}) for (int a = 0; a < 24; a++) for (int t = 0; t < 3; t++)
        mc::run([=] { return MC_STR("rectangle " << u << " x " << w * u << " skewed by " << skew << " turned by " << a << " and " << t); }, [&] {
            double f = a * std::acos(-1.0) / 12, g = t * 0.4;
            R3 x(std::cos(f) * std::cos(g), std::sin(f) * std::cos(g), std::sin(g)), y(-std::sin(f), std::cos(f), 0), d = mul(y, w * u), e = mul(x, u), s = mul(x, skew * w * u);
            Pts q = {R3(0, 0, 0), e, add(add(e, d), s), add(d, s)};
            Coords k(q); const CoordR3* v[4] = {k.cc[0], k.cc[1], k.cc[2], k.cc[3]};
            QuaR4 r(ElemId(1), v); mc::step();
            MC_CHECK(r.isRectangular() == (skew == 0), "rectangular", r.isRectangular());
        });
}
static void quads(const Pts& pool) {
    std::vector<unsigned> dims(4, pool.size());
    mc::product(dims, [&](const std::vector<unsigned>& c) {
        std::set<unsigned> s(c.begin(), c.end()); if (s.size() < 4) return;
        Pts q; for (auto i : c) q.push_back(pool[i]);
        mc::run([&] { return "quadrilateral " + ps(q); }, [&] {
            Coords k(q); const CoordR3* v[4] = {k.cc[0], k.cc[1], k.cc[2], k.cc[3]};
            QuaR4 e(ElemId(1), v); common(e, k.cc, {0, 1, 2, 3}, "quadrilateral"); sidesOfSurface(e, "quadrilateral"); planesOf(e, q, "quadrilateral");
            R3 n = cross(sub(q[1], q[0]), sub(q[2], q[0]));
            if (norm(n) > 0) MC_CHECK(eq(e.getNormal(), mul(n, 1 / norm(n))), "quadrilateral-normal", p(e.getNormal()));
            bool rect = true; for (int i = 0; i < 4; i++) rect &= dot(sub(q[(i + 1) % 4], q[i]), sub(q[(i + 2) % 4], q[(i + 1) % 4])) == 0;
            MC_CHECK(e.isRectangular() == rect, "rectangular", rect); mc::outcome(rect ? "rectangles" : "other quadrilaterals");
            CoordR3 far(CoordId(500), add(q[2], R3(3, 5, 7))); e.setV(2, &far); auto cc = k.cc; cc[2] = &far; Pts w = q; w[2] = far.pos();
            common(e, cc, {0, 1, 2, 3}, "edited-quadrilateral"); planesOf(e, w, "edited-quadrilateral");
        });
    });
}
// ------------------------------------------------------------------ C
// index of the node between two vertices, from the element's own sides
static void curved(unsigned mask, int shape, int kind, double by) {
    mc::run([&] { return MC_STR((kind ? "tetrahedron of ten nodes, displaced " : "triangle of six nodes, displaced ") << mask << " by " << by << " shape " << shape); }, [&] {
        Pts corner = {R3(0, 0, 0), R3(2, 0, 0), R3(0, 2, 0), R3(0, 0, 2)};
        if (shape == 1) corner = {R3(1, 1, 1), R3(3, 2, 1), R3(0, 4, 1), R3(1, 1, 5)};
        if (shape == 2) corner = {R3(2, 0, 0), R3(0, 0, 0), R3(0, 2, 0), R3(1, -1, 2)};
        size_t nv = kind ? 4 : 3, np = kind ? 10 : 6;
        Pts q(np, R3(0, 0, 0)); Coords k(q); const CoordR3* v[10]; for (size_t i = 0; i < np; i++) v[i] = k.cc[i];
        std::unique_ptr<ElemR> e(kind ? (ElemR*) new Tet10(ElemId(4), v, &layer(), &model()) : (ElemR*) new Tri6(ElemId(4), v, &layer(), &model()));
        MC_REQUIRE(e->numberOfCoordinates() == np && e->numberOfVertices() == nv && e->isQuadratic(), "curved-counts", "");
        std::vector<size_t> vi; for (size_t i = 0; i < nv; i++) vi.push_back(std::find(k.cc.begin(), k.cc.end(), e->getVertex(i)) - k.cc.begin());
        MC_CHECK(std::set<size_t>(vi.begin(), vi.end()).size() == nv, "curved-vertices", mc::vec(vi));
        // sides: node 0, 2 (and 5 of a face) are vertices; the others lie between
        std::map<std::set<size_t>, size_t> mid;
        auto edge = [&](const CoordR3* a, const CoordR3* m, const CoordR3* b) {
            auto at = [&](const CoordR3* c) { return size_t(std::find(k.cc.begin(), k.cc.end(), c) - k.cc.begin()); };
            std::set<size_t> key = {at(a), at(b)};
            MC_CHECK(!mid.count(key) || mid[key] == at(m), "mid-node-of-edge", ""); mid[key] = at(m);
        };
        for (size_t f = 0; f < e->numberOfFaces(); f++) {
            if (!kind) { MC_CHECK(e->getSideV(f, 0) == e->getSideVertex(f, 0) && e->getSideV(f, 2) == e->getSideVertex(f, 1) && e->getSideVertex(f, 0) == e->getVertex(f) && e->getSideVertex(f, 1) == e->getVertex((f + 1) % 3), "curved-side", f); edge(e->getSideV(f, 0), e->getSideV(f, 1), e->getSideV(f, 2)); }
            else {
                Tri6 t = dynamic_cast<Tet10*>(e.get())->getTri6Face(f);
                for (size_t i = 0; i < 6; i++) MC_CHECK(t.getV(i) == e->getSideV(f, i), "curved-face", f);
                for (size_t i = 0; i < 3; i++) { MC_CHECK(t.getVertex(i) == e->getSideVertex(f, i), "curved-face-vertex", f); edge(t.getSideV(i, 0), t.getSideV(i, 1), t.getSideV(i, 2)); }
            }
        }
        MC_REQUIRE(mid.size() == np - nv, "mid-nodes", mid.size());
        std::vector<std::pair<std::set<size_t>, size_t>> ms(mid.begin(), mid.end());
        for (size_t i = 0; i < nv; i++) k.c[vi[i]]->pos() = corner[i];
        std::set<size_t> moved;
        for (size_t m = 0; m < ms.size(); m++) {
            size_t a = *ms[m].first.begin(), b = *ms[m].first.rbegin();
            R3 x = mul(add(k.c[a]->pos(), k.c[b]->pos()), 0.5);
            if (mask >> m & 1) { x = add(x, mul(R3(1, 0, -2), by)); moved.insert(ms[m].second); }
            k.c[ms[m].second]->pos() = x;
        }
        common(*e, k.cc, vi, "curved");
        MC_CHECK(e->isCurved() == (mask != 0), "is-curved", e->isCurved());
        if (kind) {
            Tet10* t = dynamic_cast<Tet10*>(e.get()); facesOfVolume(*t, "curved");
            for (size_t f = 0; f < 4; f++) {
                bool c = false; Pts w; for (auto x : t->getSideCoordinates(f)) { w.push_back(x->pos()); c |= moved.count(std::find(k.cc.begin(), k.cc.end(), x) - k.cc.begin()) > 0; }
                MC_CHECK(t->isCurvedFace(f) == c, "is-curved-face", f);
                for (int pl = 0; pl < 3; pl++) MC_CHECK(t->isFaceContainedInPlane(f, planes[pl]) == isPlane(w, planes[pl]), "curved-face-in-plane", f << pl);
            }
            std::unique_ptr<Tet4> l(t->linearize()); std::vector<const CoordR3*> lv; for (auto i : vi) lv.push_back(k.cc[i]);
            checkTet(*l, lv, "linearized-tetrahedron"); MC_CHECK(l->getId() == e->getId() && l->getLayer() == &layer() && l->getModel() == &model(), "linearized-id", "");
            // the faces of the straight element name the same vertices
            for (size_t f = 0; f < 4; f++) MC_CHECK(l->getSideVertices(f) == t->getSideVertices(f), "linearized-faces", f);
        } else {
            Tri6* t = dynamic_cast<Tri6*>(e.get()); Pts w; for (auto x : k.cc) w.push_back(x->pos()); planesOf(*t, w, "curved");
            std::unique_ptr<Tri3> l(t->linearize()); std::vector<const CoordR3*> lv; for (auto i : vi) lv.push_back(k.cc[i]);
            common(*l, lv, {0, 1, 2}, "linearized-triangle"); MC_CHECK(l->getId() == e->getId() && l->getLayer() == &layer() && l->getModel() == &model(), "linearized-id", "");
        }
    });
}
// ------------------------------------------------------------------ D
static void hexes() {
    std::vector<R3> moves = {R3(0, 0, 0)};
    for (int d = 0; d < 3; d++) for (double s : {-0.5, 0.5, -1., 1., 1e-3}) { R3 m(0, 0, 0); m(d) = s; moves.push_back(m); }
    moves.push_back(R3(.5, .5, .5)); moves.push_back(R3(-.5, .25, 0));
    for (int sc = 0; sc < 4; sc++) for (int i = 0; i < 8; i++) for (int j = i; j < 8; j++) for (auto& m : moves) for (auto& m2 : moves) {
        if (i == j && norm(m2) > 0) continue;
        mc::run([&] { return MC_STR("hexahedron " << sc << " vertex " << i << " moved " << p(m) << " vertex " << j << " moved " << p(m2)); }, [&] {
            R3 L = sc == 0 ? R3(1, 1, 1) : sc == 1 ? R3(2, 3, 5) : sc == 2 ? R3(1, -1, 1) : R3(.1, 7, .3);
            R3 o = sc == 1 ? R3(-1, 2, .5) : R3(0, 0, 0);
            Pts q; for (int b = 0; b < 8; b++) { int x = (b & 3) == 1 || (b & 3) == 2, y = (b & 2) != 0, z = b >> 2; q.push_back(add(o, R3(x * L(0), y * L(1), z * L(2)))); }
            auto scl = [&](const R3& a) { return R3(a(0) * L(0), a(1) * L(1), a(2) * L(2)); };
            q[i] = add(q[i], scl(m)); q[j] = add(q[j], scl(m2));
            Coords k(q); const CoordR3* v[8]; for (int b = 0; b < 8; b++) v[b] = k.cc[b];
            HexR8 e(ElemId(2), v, nullptr, nullptr); common(e, k.cc, {0, 1, 2, 3, 4, 5, 6, 7}, "hexahedron"); facesOfVolume(e, "hexahedron");
            bool reg = true, degenerate = false;
            for (size_t f = 0; f < 6; f++) {
                Pts w; for (auto c : static_cast<const ElemR&>(e).getSideVertices(f)) w.push_back(c->pos());
                for (int a = 0; a < 4; a++) { R3 d = sub(w[(a + 1) % 4], w[a]); int nz = (d(0) != 0) + (d(1) != 0) + (d(2) != 0); reg &= nz == 1; degenerate |= nz == 0; }
                R3 n = cross(sub(w[1], w[0]), sub(w[2], w[0])), n2 = cross(sub(w[2], w[0]), sub(w[3], w[0]));
                if (norm(n) > 0) MC_CHECK(eq(e.getSideNormal(f), mul(n, 1 / norm(n))), "hexahedron-normal", f);
                // area of a flat convex face
                if (norm(n) > 0 && norm(n2) > 0 && std::fabs(dot(n, n2) / norm(n) / norm(n2) - 1) < 1e-14) MC_CHECK(mc::near(e.getAreaOfFace(f), norm(n) / 2 + norm(n2) / 2), "hexahedron-area", f << " " << e.getAreaOfFace(f));
                for (int pl = 0; pl < 3; pl++) MC_CHECK(e.isFaceContainedInPlane(f, planes[pl]) == isPlane(w, planes[pl]), "hexahedron-face-in-plane", f << pl);
                const CoordR3* r[4] = {e.getSideVertex(f, 2), e.getSideVertex(f, 1), e.getSideVertex(f, 0), e.getSideVertex(f, 3)};
                QuaR4 s(ElemId(3), r); MC_CHECK(e.getFaceNumber(&s) == f, "hexahedron-face-number", f);
            }
            if (!degenerate) MC_CHECK(e.isRegular() == reg, "regular", reg);
            mc::outcome(reg ? "regular" : "irregular");
            MC_CHECK(!e.isCurved() && !e.isQuadratic(), "hexahedron-kind", "");
        });
    }
}
template<class E, class CG, class B> static void boxed(const char* name, const B& b, int nd, int want, int shared) {
    mc::run([&] { return MC_STR(name << " of a box of dimension " << nd << " " << p(b.getMin()) << p(b.getMax()) << " shared " << shared); }, [&] {
        CG cg; auto pos = b.getPos(); size_t pre = 0;
        for (size_t i = 0; i < pos.size(); i++) if (shared >> i & 1) { cg.addPos(pos[i]); pre++; }
        if (nd != want) { MC_CHECK(MC_THROWS(E(cg, ElemId(1), b)), "wrong-box", ""); MC_CHECK(cg.size() == pre, "wrong-box-adds", ""); return; }
        E e(cg, ElemId(1), b);
        MC_CHECK(e.numberOfCoordinates() == size_t(1 << want) && cg.size() == size_t(1 << want), "box-coordinates", cg.size());
        std::set<const void*> d;
        for (size_t i = 0; i < e.numberOfCoordinates(); i++) { d.insert(e.getV(i)); MC_CHECK(e.getV(i) == cg.getPos(e.getV(i)->pos()), "box-coordinate-in-group", i); }
        MC_CHECK(d.size() == size_t(1 << want) && e.getBound() == b, "box-element", "");
        E e2(cg, ElemId(2), b); MC_CHECK(cg.size() == size_t(1 << want), "box-coordinates-shared", cg.size());
        for (size_t i = 0; i < e.numberOfCoordinates(); i++) MC_CHECK(e2.getV(i) == e.getV(i), "box-coordinates-same", i);
    });
}
// ------------------------------------------------------------------ E
static void linesAndPolygons(const Pts& pool) {
    for (size_t a = 0; a < pool.size(); a++) for (size_t b = 0; b < pool.size(); b++) if (a != b) {
        mc::run([&] { return "line " + p(pool[a]) + p(pool[b]); }, [&] {
            Coords k(Pts{pool[a], pool[b]}); LinR2 e(ElemId(1), std::array<const CoordR3*, 2>{{k.cc[0], k.cc[1]}});
            common(e, k.cc, {0, 1}, "line");
            MC_CHECK(e.numberOfFaces() == 2 && e.getSideV(0, 0) == k.cc[0] && e.getSideV(1, 0) == k.cc[1] && e.getSideVertex(1, 0) == k.cc[1], "line-ends", "");
            e.setV(0, k.cc[1]); e.setV(1, k.cc[0]); common(e, {k.cc[1], k.cc[0]}, {0, 1}, "edited-line");
            const CoordR3* v[2] = {k.cc[0], k.cc[1]}; LinR2 noid(v); common(noid, k.cc, {0, 1}, "line-without-id");
        });
        for (size_t c = 0; c < pool.size(); c++) mc::run([&] { return "polyline " + p(pool[a]) + p(pool[b]) + p(pool[c]); }, [&] {
            Coords k(Pts{pool[a], pool[b], pool[c], pool[a]}); PolylinR e(ElemId(1), k.cc);
            common(e, k.cc, {0, 3}, "polyline");
            MC_CHECK(e.getSideV(0, 0) == k.cc[0] && e.getSideV(1, 0) == k.cc[3] && e.getSideVertex(1, 0) == k.cc[3], "polyline-ends", "");
            auto three = k.cc; three.pop_back(); PolylinR s(ElemId(1), three); MC_CHECK(!(s == e) && !(e == s), "polylines-of-different-length", "");
        });
    }
    for (unsigned n = 5; n <= 7; n++) for (unsigned rot = 0; rot < n; rot++) for (int pl = 0; pl < 4; pl++) mc::run([&] { return MC_STR("polygon of " << n << " from " << rot << " plane " << pl); }, [&] {
        Pts q; for (unsigned i = 0; i < n; i++) { double t = 2 * M_PI * ((i + rot) % n) / n, c = cos(t), s = sin(t); q.push_back(pl == 0 ? R3(c, s, 1) : pl == 1 ? R3(1, c, s) : pl == 2 ? R3(c, 2, s) : R3(c, s, c)); }
        Coords k(q); Element::Polygon e(ElemId(1), k.cc); std::vector<size_t> all; for (unsigned i = 0; i < n; i++) all.push_back(i);
        common(e, k.cc, all, "polygon"); sidesOfSurface(e, "polygon"); planesOf(e, q, "polygon");
        MC_CHECK(eq(e.getNormal(), nrm(q[0], q[1], q[2])), "polygon-normal", p(e.getNormal()));
        auto more = k.cc; more.push_back(k.cc[1]); Element::Polygon f(ElemId(1), more); MC_CHECK(!(e == f) && !(f == e), "polygons-of-different-size", "");
        std::unique_ptr<ElemR> g(e.clone()->castTo<ElemR>()); MC_CHECK(*g == e, "polygon-clone", "");
    });
}
static void dodecahedron() {
    double g = (1 + std::sqrt(5.0)) / 2, h = 1 / g; Pts q;
    for (int i = 0; i < 8; i++) q.push_back(R3(i & 1 ? 1 : -1, i & 2 ? 1 : -1, i & 4 ? 1 : -1));
    for (int i = 0; i < 4; i++) { double a = i & 1 ? h : -h, b = i & 2 ? g : -g; q.push_back(R3(0, a, b)); q.push_back(R3(a, b, 0)); q.push_back(R3(b, 0, a)); }
    // faces: five vertices with the greatest product with each of the twelve directions
    std::vector<std::vector<unsigned>> faces;
    for (int i = 0; i < 12; i++) {
        double a = i & 1 ? 1 : -1, b = i & 2 ? g : -g; R3 d = i / 4 == 0 ? R3(0, b, a) : i / 4 == 1 ? R3(a, 0, b) : R3(b, a, 0);
        double best = -9; for (auto& v : q) best = std::max(best, dot(v, d));
        std::vector<unsigned> f; for (unsigned v = 0; v < 20; v++) if (dot(q[v], d) > best - 1e-9) f.push_back(v);
        // around the direction
        R3 u = sub(q[f[0]], mul(d, dot(q[f[0]], d) / dot(d, d))), w = cross(d, u);
        std::sort(f.begin(), f.end(), [&](unsigned x, unsigned y) { return std::atan2(dot(q[x], w) / norm(d), dot(q[x], u)) < std::atan2(dot(q[y], w) / norm(d), dot(q[y], u)); });
        faces.push_back(f);
    }
    for (unsigned mask = 1; mask < 4096; mask++) for (int perm = 0; perm < 2; perm++) mc::run([&] { return MC_STR("faces of a dodecahedron " << mask << " ids " << perm); }, [&] {
        std::vector<CoordR3*> c; for (unsigned i = 0; i < 20; i++) c.push_back(new CoordR3(CoordId(perm ? 1 + (i * 7) % 20 : 21 - i), q[i]));
        std::vector<const Element::Polygon*> pol; std::vector<const CoordR3*> order;
        for (unsigned f = 0; f < 12; f++) if (mask >> f & 1) {
            MC_REQUIRE(faces[f].size() == 5, "harness-face", faces[f].size());
            std::vector<const CoordR3*> v; for (auto i : faces[f]) { v.push_back(c[i]); if (std::find(order.begin(), order.end(), c[i]) == order.end()) order.push_back(c[i]); }
            pol.push_back(new Element::Polygon(ElemId(f + 1), v));
        }
        if (mask != 4095) MC_CHECK(MC_THROWS(Element::Polyhedron(ElemId(50), pol)), "open-polyhedron", "");
        else {
            Element::Polyhedron e(ElemId(50), pol); std::vector<size_t> all; for (size_t i = 0; i < 20; i++) all.push_back(i);
            common(e, order, all, "polyhedron"); facesOfVolume(e, "polyhedron");
            for (size_t f = 0; f < 12; f++) MC_CHECK(e.getFace(f) == pol[f] && e.getSideCoordinates(f) == pol[f]->getCoordinates() && !e.isCurvedFace(f), "polyhedron-face", f);
            Element::Polyhedron e2(e); common(e2, order, all, "polyhedron-copy"); MC_CHECK(e2 == e, "polyhedron-copy-equal", "");
        }
        // the same face twice, as two sides of a sheet
        auto twice = pol; twice.insert(twice.end(), pol.begin(), pol.end());
        if (__builtin_popcount(mask) == 1) MC_CHECK(!MC_THROWS(Element::Polyhedron(ElemId(50), twice)), "sheet", "");
        mc::outcome(mask == 4095 ? "closed" : "open");
        for (auto x : pol) delete x; for (auto x : c) delete x;
    });
}
static void conformal() {
    for (int kinds = 0; kinds < 4; kinds++) mc::run([&] { return MC_STR("conformal line, conformal ends " << kinds); }, [&] {
        CoordConf a(CoordId(1), I3(1, 2, 3), Math::Constants::x, 0.25), b(CoordId(2), I3(1, 2, 4), Math::Constants::z, 0.5);
        CoordI3 c(CoordId(1), I3(1, 2, 3)), d(CoordId(2), I3(1, 2, 4));
        const CoordI3* v[2] = {kinds & 1 ? (const CoordI3*) &a : &c, kinds & 2 ? (const CoordI3*) &b : &d};
        if (kinds != 3) { MC_CHECK(MC_THROWS(LinConf(ElemId(1), v, R3(1, 0, 0))), "not-conformal", ""); MC_CHECK(MC_THROWS(LinConf(v, R3(1, 0, 0))), "not-conformal", ""); return; }
        LinConf e(ElemId(1), v, R3(1, 0, 0)), f(v, R3(0, 1, 0));
        MC_CHECK(e.getV(0) == &a && e.getV(1) == &b && eq(e.getNorm(), R3(1, 0, 0)), "conformal-line", "");
        MC_CHECK(f.getV(0) == &a && f.getV(1) == &b && eq(f.getNorm(), R3(0, 1, 0)), "conformal-line-without-id", "");
        // a vertex which is not conformal is refused, and the line stays as it was
        CoordConf o(CoordId(8), I3(4, 2, 4), Math::Constants::y, 0.75);
        for (unsigned i = 0; i < 2; i++) for (int step = 0; step < 3; step++) {
            const CoordConf* was[2] = {e.getV(0), e.getV(1)};
            if (step == 1) { e.setV(i, &o); was[i] = &o; }
            bool refused = false; const CoordI3* bad = i ? &d : &c;
            try { e.setV(i, bad); } catch (const Element::Error::Coord::NotConf& x) { refused = x.getCoordId() == bad->getId() && MC_STR(x.what()).find(bad->getId().toStr()) != std::string::npos; }
            mc::step();
            MC_CHECK(refused, "conformal-edit", "");
            MC_CHECK(e.getV(0) == was[0] && e.getV(1) == was[1] && static_cast<const LinI2&>(e).getBound().getMin()(0) == std::min((*was[0])(0), (*was[1])(0)), "refused-edit", "the vertex " << i << " was replaced");
            std::unique_ptr<LinConf> h(static_cast<LinConf*>(e.clone())); MC_CHECK(h->getV(0) == was[0] && h->getV(1) == was[1], "refused-edit", "of the copy");
        }
        std::unique_ptr<LinConf> g(static_cast<LinConf*>(f.clone())); MC_CHECK(g->getV(1) == &b && eq(g->getNorm(), R3(0, 1, 0)), "conformal-clone", "");
    });
}
static void body() {
    farTets();
    Pts cube; for (int i = 0; i < 8; i++) cube.push_back(R3(i & 1, i >> 1 & 1, i >> 2));
    Pts pool = cube; pool.push_back(R3(2, 1, 0)); pool.push_back(R3(0, 2, 2)); if (mc::thorough()) { pool.push_back(R3(-1, 0, 2)); pool.push_back(R3(1, 2, 1)); pool.push_back(R3(0.5, 0.5, 0.5)); }
    tets(pool, true);
    Pts flat; for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) flat.push_back(R3(x, y, 0));
    tris(pool); tris(flat); quads(pool); quads(flat);
    Pts tilted; for (auto& q : flat) tilted.push_back(R3(q(0), q(1), q(0) + 2 * q(1))); quads(tilted);
    // the same in other units of length, from microns to kilometres
    for (double u : {1. / (1 << 30), 1. / (1 << 17), 512.}) { U = u; tets(scaled(mc::thorough() ? pool : cube), true); tris(scaled(flat)); quads(scaled(flat)); } U = 1; turned();
    // and far from the origin
    for (int dir : {0, 4, 9, 26, 22}) { const R3 off = mul(R3(dir % 3 - 1, dir / 3 % 3 - 1, dir / 9 - 1), 1 << 20); auto far = [&](Pts q) { for (auto& x : q) x = add(x, off); return q; }; tets(far(Pts(cube.begin(), cube.begin() + 6)), false); tris(far(flat)); tris(far(cube)); quads(far(flat)); quads(far(cube)); }
    for (int shape = 0; shape < 3; shape++) { for (double by : {0.1, 1. / 1024, 1e-6}) { for (unsigned m = 0; m < 64; m++) curved(m, shape, 1, by); for (unsigned m = 0; m < 8; m++) curved(m, shape, 0, by); } }
    hexes();
    std::vector<double> vals = {-1, 0, 2};
    std::vector<BoxR3> bs; std::vector<std::pair<double, double>> iv; for (double a : vals) for (double b : vals) if (a <= b) iv.push_back({a, b});
    for (auto& x : iv) for (auto& y : iv) for (auto& z : iv) {
        int nd = (x.first != x.second) + (y.first != y.second) + (z.first != z.second);
        BoxR3 b(R3(x.first, y.first, z.first), R3(x.second, y.second, z.second)); BoxI3 bi(I3(x.first, y.first, z.first), I3(x.second, y.second, z.second));
        for (int sh : {0, 1, 2, 5, 255}) {
            boxed<NodR, CoordR3Group>("node", b, nd, 0, sh); boxed<LinR2, CoordR3Group>("line", b, nd, 1, sh); boxed<QuaR4, CoordR3Group>("quadrilateral", b, nd, 2, sh); boxed<HexR8, CoordR3Group>("hexahedron", b, nd, 3, sh);
            boxed<NodI, CoordI3Group>("structured node", bi, nd, 0, sh); boxed<LinI2, CoordI3Group>("structured line", bi, nd, 1, sh); boxed<QuaI4, CoordI3Group>("structured quadrilateral", bi, nd, 2, sh); boxed<HexI8, CoordI3Group>("structured hexahedron", bi, nd, 3, sh);
        }
    }
    linesAndPolygons(pool);
    dodecahedron();
    conformal();
}
int main(int c, char** v) { return mc::main_(c, v, body); }

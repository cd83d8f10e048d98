// P03: selections over groups of elements against brute-force filters.
// Every assignment of (type, material, layer) to n elements sharing vertices,
// every query of the group interface compared with a filter over the list.
#include "geo.h"
using namespace geo;

static const unsigned NT = 6, NM = 3, NL = 3;
struct Fix {
    CoordR3Group cG; CoordI3Group cI;
    LayerGroup lay; PMGroup mat;
    const Layer::Layer* L[3]; const Element::Model* M[3];
    Fix() {
        double P[8][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,1,0},{-2,0.5,3},{1,0,1},{0,1,1}};
        for (int i = 0; i < 8; i++) cG.add(new CoordR3(CoordId(10 + i), R3(P[i][0], P[i][1], P[i][2])));
        int Q[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
        for (int i = 0; i < 8; i++) cI.add(new CoordI3(CoordId(30 + i), I3(Q[i][0], Q[i][1], Q[i][2])));
        lay.add(new Layer::Layer(LayerId(1), "one")); lay.add(new Layer::Layer(LayerId(4), "four"));
        mat.add(new PhysicalModel::Predefined::PEC(MatId(1))); mat.add(new PhysicalModel::Volume::Classic(MatId(7), "c"));
        L[0] = nullptr; L[1] = lay(0); L[2] = lay(1); M[0] = nullptr; M[1] = mat(0); M[2] = mat(1);
    }
    const CoordR3* c(int i) const { return cG.getId(CoordId(10 + i)); }
    const CoordI3* ci(int i) const { return cI.getId(CoordId(30 + i)); }
    ElemR* make(unsigned type, size_t id, unsigned m, unsigned l, int rot) const {
        // rot shifts the vertices, so that elements share some of them
        auto v = [&](std::vector<int> k) { std::vector<const CoordR3*> r; for (int i : k) r.push_back(c((i + rot) % 8)); return r; };
        ElemId e(id);
        switch (type) {
        case 0: { auto x = v({0}); return new NodR(e, &x[0], L[l], M[m]); }
        case 1: { auto x = v({0,1}); return new LinR2(e, &x[0], L[l], M[m]); }
        case 2: { auto x = v({1,2,3}); return new Tri3(e, &x[0], L[l], M[m]); }
        case 3: { auto x = v({0,1,4,2}); return new QuaR4(e, &x[0], L[l], M[m]); }
        case 4: { auto x = v({0,1,2,3}); return new Tet4(e, &x[0], L[l], M[m]); }
        default: { auto x = v({0,5,0}); return new Element::Polyline<Math::Real>(e, x, L[l], M[m]); }
        }
    }
    ElemI* makeI(unsigned type, size_t id, unsigned m, unsigned l) const {
        const CoordI3* v[8]; for (int i = 0; i < 8; i++) v[i] = ci(i);
        switch (type % 3) {
        case 0: return new NodI(ElemId(id), v + 3, L[l], M[m]);
        case 1: return new LinI2(ElemId(id), v, L[l], M[m]);
        default: return new QuaI4(ElemId(id), v, L[l], M[m]);
        }
    }
};
static size_t lid(unsigned l) { return l == 0 ? 0 : l == 1 ? 1 : 4; }
static size_t mid(unsigned m) { return m == 0 ? 0 : m == 1 ? 1 : 7; }

struct E { unsigned t, m, l; size_t id; int rot; };
static std::string render(const std::vector<E>& v) { std::string s; for (auto& e : v) s += MC_STR("{id " << e.id << " type " << e.t << " mat " << mid(e.m) << " layer " << lid(e.l) << " rot " << e.rot << "} "); return s; }

template<class G> static void same(const G& got, const std::vector<size_t>& want, const char* sig) {
    mc::step();
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); i++) ok = got(i)->getId().toInt() == want[i];
    MC_CHECK(ok, sig, "got " << ids(got) << " want " << mc::vec(want));
}

static void oneCase(const std::vector<E>& v) {
    Fix f;
    typedef Element::Group<ElemR> G;
    G g;
    std::vector<ElemR*> raw;
    for (auto& e : v) { raw.push_back(f.make(e.t, e.id, e.m, e.l, e.rot)); g.add(raw.back()); }
    const G& c = g;
    auto want = [&](std::function<bool(const E&, size_t)> p) { std::vector<size_t> r; for (size_t i = 0; i < v.size(); i++) if (p(v[i], i)) r.push_back(v[i].id); return r; };
    for (size_t m : {0, 1, 7, 9}) {
        auto w = want([&](const E& e, size_t) { return mid(e.m) == m; });
        same(g.getMatId(MatId(m)), w, "by-material"); same(c.getMatId(MatId(m)), w, "by-material-const");
        for (size_t l : {0, 1, 4, 9}) {
            auto x = want([&](const E& e, size_t) { return mid(e.m) == m && lid(e.l) == l; });
            same(g.getMatLayerId(MatId(m), LayerId(l)), x, "by-material-and-layer"); same(c.getMatLayerId(MatId(m), LayerId(l)), x, "by-material-and-layer-const");
        }
    }
    for (size_t l : {0, 1, 4, 9}) {
        auto w = want([&](const E& e, size_t) { return lid(e.l) == l; });
        same(g.getLayerId(LayerId(l)), w, "by-layer"); same(c.getLayerId(LayerId(l)), w, "by-layer-const");
    }
    std::vector<MatId> ms = { MatId(7), MatId(0) }; std::vector<LayerId> ls = { LayerId(4), LayerId(1), LayerId(4) };
    auto wms = want([&](const E& e, size_t) { return mid(e.m) == 7 || mid(e.m) == 0; });
    auto wls = want([&](const E& e, size_t) { return lid(e.l) == 4 || lid(e.l) == 1; });
    same(c.getMatId(ms), wms, "by-materials"); same(g.getMatId(ms), wms, "by-materials");
    same(c.getLayerId(ls), wls, "by-layers"); same(g.getLayerId(ls), wls, "by-layers");
    // by type
    same(c.getOf<Nod>(), want([](const E& e, size_t) { return e.t == 0; }), "nodes");
    same(c.getOf<Lin>(), want([](const E& e, size_t) { return e.t == 1 || e.t == 5; }), "lines");
    same(c.getOf<Surf>(), want([](const E& e, size_t) { return e.t == 2 || e.t == 3; }), "surfaces");
    same(c.getOf<Vol>(), want([](const E& e, size_t) { return e.t == 4; }), "volumes");
    same(g.getOf<Tri>(), want([](const E& e, size_t) { return e.t == 2; }), "triangles");
    // by coordinate
    for (int k = 0; k < 8; k++) {
        CoordId id(10 + k);
        auto w = want([&](const E&, size_t i) { for (size_t j = 0; j < raw[i]->numberOfCoordinates(); j++) if (raw[i]->getV(j)->getId() == id) return true; return false; });
        same(c.getCoordId(id), w, "by-coordinate");
    }
    same(c.getCoordId(CoordId(99)), std::vector<size_t>(), "by-coordinate");
    // boxes
    auto bb = [&](size_t i, R3& lo, R3& hi) { lo = hi = R3(raw[i]->getV(0)->pos()); for (size_t j = 1; j < raw[i]->numberOfCoordinates(); j++) for (int d = 0; d < 3; d++) { double x = raw[i]->getV(j)->pos()(d); lo(d) = std::min(lo(d), x); hi(d) = std::max(hi(d), x); } };
    const R3 corners[4] = { R3(0, 0, 0), R3(1, 1, 1), R3(-2, 0, 0), R3(1, 1, 3) };
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) {
        R3 blo, bhi; for (int d = 0; d < 3; d++) { blo(d) = std::min(corners[a](d), corners[b](d)); bhi(d) = std::max(corners[a](d), corners[b](d)); }
        auto w = want([&](const E&, size_t i) { R3 lo, hi; bb(i, lo, hi); for (int d = 0; d < 3; d++) if (lo(d) < blo(d) || hi(d) > bhi(d)) return false; return true; });
        same(c.getInsideBound(BoxR3(corners[a], corners[b])), w, "inside-box");
    }
    if (!v.empty()) {
        R3 lo, hi; bb(0, lo, hi);
        for (size_t i = 1; i < v.size(); i++) { R3 l, h; bb(i, l, h); for (int d = 0; d < 3; d++) { lo(d) = std::min(lo(d), l(d)); hi(d) = std::max(hi(d), h(d)); } }
        BoxR3 b = c.getBound(); mc::step();
        MC_CHECK(eq(b.getMin(), lo) && eq(b.getMax(), hi), "bound", p(b.getMin()) << p(b.getMax()) << " want " << p(lo) << p(hi));
        // closest vertex
        const R3 q[4] = { R3(0.1, 0.2, 0.05), R3(5, 5, 5), R3(-2, 0.4, 2.9), R3(0.9, 0.1, 0.8) };
        for (int k = 0; k < 4; k++) {
            double best = 1e300; for (auto e : raw) for (size_t j = 0; j < e->numberOfCoordinates(); j++) best = std::min(best, norm(sub(e->getV(j)->pos(), q[k])));
            const CoordR3* r = c.getClosestVertex(q[k]); mc::step();
            MC_CHECK(r != nullptr && mc::near(norm(sub(r->pos(), q[k])), best), "closest-vertex", k);
        }
    } else MC_CHECK(c.getClosestVertex(R3(0, 0, 0)) == nullptr, "closest-vertex-empty", "");
    // partition by layers
    auto sep = c.separateByLayers(); mc::step();
    size_t tot = 0;
    for (auto& s : sep) {
        auto w = want([&](const E& e, size_t) { return lid(e.l) == s.first.toInt(); });
        MC_CHECK(!s.second.empty(), "layers-partition-empty-class", "");
        MC_CHECK(s.second.size() == w.size(), "layers-partition", s.first.toInt());
        for (size_t i = 0; i < w.size() && i < s.second.size(); i++) MC_CHECK(s.second[i]->getId().toInt() == w[i], "layers-partition", i);
        tot += s.second.size();
    }
    MC_CHECK(tot == v.size(), "layers-partition-total", tot);
    // vertices index: finds, for the vertices of any element in any order, an element with exactly those vertices
    auto idx = c.getIndexByVertexId(); mc::step();
    for (auto e : raw) {
        std::vector<CoordId> k; for (size_t j = 0; j < e->numberOfVertices(); j++) k.push_back(e->getVertex(j)->getId());
        std::vector<CoordId> rev(k.rbegin(), k.rend());
        auto it = idx.find(rev);
        MC_REQUIRE(it != idx.end(), "vertex-index-missing", e->getId().toInt());
        std::vector<size_t> a, b; for (auto& x : k) a.push_back(x.toInt());
        const ElemR* o = dynamic_cast<const ElemR*>(it->second);
        for (size_t j = 0; j < o->numberOfVertices(); j++) b.push_back(o->getVertex(j)->getId().toInt());
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        MC_CHECK(a == b, "vertex-index", e->getId().toInt());
    }
    // reassigning material and layer changes exactly the named elements
    if (!v.empty()) {
        ElemId id(v[v.size() / 2].id);
        G k(c.cloneElems());
        k.setModel(id, f.M[2]); k.setLayer(id, f.L[0]);
        k.getMatId(MatId(1)).setLayer(f.L[2]);
        mc::step(3);
        for (size_t i = 0; i < v.size(); i++) {
            bool hit = v[i].id == id.toInt();
            size_t m = hit ? 7 : mid(v[i].m), l = hit ? 0 : lid(v[i].l);
            if (m == 1) l = 4;
            MC_CHECK(k(i)->getMatId().toInt() == m && k(i)->getLayerId().toInt() == l, "set-material-layer", i);
            MC_CHECK(raw[i]->getMatId().toInt() == mid(v[i].m) && raw[i]->getLayerId().toInt() == lid(v[i].l), "set-leaks-into-original", i);
            MC_CHECK(*raw[i] == *g(i) && (hit || m == 1 || *k(i) == *raw[i]), "clone-equal", i);
        }
        // deleting by material removes exactly those
        G n(c.cloneElems());
        n.removeMatId(ms); mc::step();
        same(n, want([&](const E& e, size_t) { return mid(e.m) == 1; }), "remove-material");
        for (auto& e : v) MC_CHECK(n.existId(ElemId(e.id)) == (mid(e.m) == 1), "remove-material-id-index", e.id);
    }
    // structured elements count for bounds in index units
    if (v.size() <= 2) {
        Element::Group<Elem> mix;
        R3 lo(1e9, 1e9, 1e9), hi(-1e9, -1e9, -1e9);
        for (size_t i = 0; i < v.size(); i++) {
            ElemI* e = f.makeI(v[i].t, v[i].id, v[i].m, v[i].l); mix.add(e);
            for (size_t j = 0; j < e->numberOfCoordinates(); j++) for (int d = 0; d < 3; d++) { lo(d) = std::min(lo(d), (double)e->getV(j)->pos()(d)); hi(d) = std::max(hi(d), (double)e->getV(j)->pos()(d)); }
        }
        for (auto& e : v) { ElemR* r = f.make(e.t, e.id + 100, e.m, e.l, e.rot); mix.add(r); for (size_t j = 0; j < r->numberOfCoordinates(); j++) for (int d = 0; d < 3; d++) { lo(d) = std::min(lo(d), r->getV(j)->pos()(d)); hi(d) = std::max(hi(d), r->getV(j)->pos()(d)); } }
        if (!v.empty()) { BoxR3 b = mix.getBound(); mc::step(); MC_CHECK(eq(b.getMin(), lo) && eq(b.getMax(), hi), "bound-mixed", p(b.getMin()) << p(b.getMax()) << p(lo) << p(hi)); }
        const Element::Group<Elem>& cm = mix;
        MC_CHECK(cm.getOf<ElemI>().size() == v.size() && cm.getOf<ElemR>().size() == v.size(), "structured-and-unstructured", "");
    }
    mc::state(render(v));
    mc::outcome(MC_STR("elements " << v.size()));
}

// larger groups, with the choices dealt out in turn by several strides, the identifiers counted down or up and small or beyond 32 bits
static void sizes() {
    std::vector<int> ns; for (int n = 4; n <= mc::pick(20, 36); n++) ns.push_back(n);
    for (int n : {63, 64, 65, 100, 127, 128, 129, 257}) ns.push_back(n);
    for (int n : ns) for (int stride = 1; stride <= 5; stride += 2) for (int up = 0; up < 2; up++) for (int big = 0; big < 2; big++)
        mc::run([=] { return MC_STR(n << " elements, stride " << stride << (up ? ", ids growing" : ", ids falling") << (big ? ", ids beyond 32 bits" : "")); }, [&] {
            std::vector<E> v;
            for (int i = 0; i < n; i++) {
                int k = i * stride + i / 7;
                size_t id = up ? i + 3 : n - i + 2;
                if (big) id = (id << 32) + 7;
                v.push_back(E{unsigned(k % NT), unsigned(k / 2 % NM), unsigned(k / 3 % NL), id, k % 8});
            }
            oneCase(v);
        });
}
static void body() {
    sizes();
    const size_t idAlpha[4] = { 5, 2, 9, 3 };
    for (unsigned n = 0; n <= mc::pick(3u, 4u); n++) {
        std::vector<unsigned> dims;
        for (unsigned i = 0; i < n; i++) { dims.push_back(n == 4 ? 4 : NT); dims.push_back(n >= 3 ? 2 : NM); dims.push_back(n == 4 ? 2 : NL); }
        mc::product(dims, [&](const std::vector<unsigned>& k) {
            std::vector<E> v;
            for (unsigned i = 0; i < n; i++) v.push_back(E{ n == 4 ? k[3 * i] + 2 : k[3 * i], n >= 3 ? k[3 * i + 1] * 2 + (i == 2 ? -k[3*i+1] : 0) : k[3 * i + 1], k[3 * i + 2], idAlpha[i], (int)(i * 3 + k[3 * i]) % 5 });
            mc::run([&] { return render(v); }, [&] { oneCase(v); });
        });
    }
}
int main(int c, char** v) { return mc::main_(c, v, body); }

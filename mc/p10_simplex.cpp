// P10 Reference-element bases.  Every node of every simplex and order, every lattice point and monomial.
#include "mc.h"
#include "core/math/simplex/Line.h"
#include "core/math/simplex/Triangle.h"
#include "core/math/simplex/Tetrahedron.h"
using namespace SEMBA;
using namespace SEMBA::Math;

static double fact(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
// value and derivative of the Silvester polynomial R_m(n, z)
static void silv(int m, int n, double z, double& v, double& d) {
    v = 1; d = 0;
    for (int k = 0; k < m; k++) { double a = (n * z - k) / (k + 1); d = d * a + v * n / (k + 1.0); v *= a; }
}
template<int K> struct Point { typedef Vector::Cartesian<Real, K> V; };
// every integer composition of total into k parts
static void compositions(int total, int k, std::vector<int>& cur, const std::function<void()>& f) {
    if (k == 1) { cur.push_back(total); f(); cur.pop_back(); return; }
    for (int i = 0; i <= total; i++) { cur.push_back(i); compositions(total - i, k - 1, cur, f); cur.pop_back(); }
}
static std::vector<std::vector<int>> comps(int total, int k) {
    std::vector<std::vector<int>> r; std::vector<int> c; compositions(total, k, c, [&] { r.push_back(c); }); return r;
}
template<int K> static typename Point<K>::V point(const std::vector<double>& z) { typename Point<K>::V v; for (int i = 0; i < K; i++) v(i) = z[i]; return v; }
static double mono(const std::vector<int>& pw, const std::vector<double>& z) { double r = 1; for (size_t i = 0; i < pw.size(); i++) for (int j = 0; j < pw[i]; j++) r *= z[i]; return r; }
template<class S> struct Open : S { using Simplex::Simplex::integrate; using S::nodeIndex; };

template<class S, int K, int N> static void simplex(const char* name) {
    typedef std::vector<double> Z;
    size_t np = 1; for (int i = 1; i < K; i++) np = np * (N + i) / i;
    static Open<S>* e; 
    static std::vector<Z> node;
    mc::run([&] { return MC_STR(name << " of order " << N << ", nodes"); }, [&] {
        Open<S> s; mc::step();
        MC_REQUIRE(S::np == np && S::faces == K && S::nsc == K && S::dimension == K - 1, "counts", S::np);
        std::set<std::vector<size_t>> seen;
        for (size_t i = 0; i < np; i++) {
            std::vector<size_t> x; size_t sum = 0; for (int k = 0; k < K; k++) { x.push_back(s.nodeIndex(i, k)); sum += x.back(); }
            MC_CHECK(sum == N, "node-index", i << " " << mc::vec(x)); MC_CHECK(seen.insert(x).second, "node-repeated", i << " " << mc::vec(x)); mc::step();
            mc::state(MC_STR(name << N << i << mc::vec(x)));
        }
        // corners
        std::set<size_t> corner;
        for (size_t v = 0; v < K; v++) {
            size_t nd = s.vertex(v); MC_REQUIRE(nd < np, "vertex-range", nd); corner.insert(nd); size_t mx = 0; for (int k = 0; k < K; k++) mx = std::max<size_t>(mx, s.nodeIndex(nd, k));
            MC_CHECK(mx == N, "vertex-is-corner", v << " node " << nd); mc::step();
        }
        MC_CHECK(corner.size() == K, "vertices-distinct", corner.size());
    });
    auto load = [&] {
        if (e) return; e = new Open<S>;
        for (size_t i = 0; i < np; i++) { Z z; for (int k = 0; k < K; k++) z.push_back(e->nodeIndex(i, k) / double(N)); node.push_back(z); }
    };
    auto ref = [&](size_t i, const Z& z, int d) {
        double r = 1; for (int k = 0; k < K; k++) { double v, g; silv((int)std::lround(node[i][k] * N), N, z[k], v, g); r *= k == d ? g : v; } return r;
    };
    // lattice of simplex points twice as fine as the nodes, and points out of the plane of the simplex
    std::vector<Z> pts; for (auto& c : comps(N <= 3 ? 2 * N : N + 1, K)) { Z z; double t = N <= 3 ? 2 * N : N + 1; for (int x : c) z.push_back(x / t); pts.push_back(z); }
    size_t inside = pts.size();
    { std::vector<unsigned> d(K, 3); mc::product(d, [&](const std::vector<unsigned>& q) { double v[3] = {-.5, .25, 1.5}; Z z; for (unsigned x : q) z.push_back(v[x]); pts.push_back(z); }); }
    for (size_t i = 0; i < np; i++) mc::run([&] { return MC_STR(name << " of order " << N << ", functions of node " << i); }, [&] {
        load(); auto& L = e->getLagr(i);
        MC_REQUIRE(L.numberOfVariables() == K, "variables", L.numberOfVariables());
        for (size_t j = 0; j < np; j++) { mc::step(); double v = L.eval(point<K>(node[j])); MC_CHECK(mc::near(v, i == j, 1e-9), "one-at-own-node", "at node " << j << ": " << v); }
        for (auto& z : pts) {
            mc::step(1 + K); double v = L.eval(point<K>(z)); MC_CHECK(mc::near(v, ref(i, z, -1)), "shape-function", mc::vec(z) << " " << v << " " << ref(i, z, -1));
            for (int k = 0; k < K; k++) { double g = e->getDLagr(i, k).eval(point<K>(z)); MC_CHECK(mc::near(g, ref(i, z, k)), "derivative", k << " at " << mc::vec(z) << " " << g << " " << ref(i, z, k)); }
            mc::state(MC_STR(name << N << i << mc::vec(z) << v));
        }
        mc::outcome(name);
    });
    for (int deg = 0; deg <= N; deg++) for (auto& pw : comps(deg, K)) mc::run([&] { return MC_STR(name << " of order " << N << ", monomial " << mc::vec(pw)); }, [&] {
        load(); auto w = e->getWeights(); MC_REQUIRE(w.size() == np, "weights", w.size());
        double sum = 0; for (size_t i = 0; i < np; i++) sum += w[i] * mono(pw, node[i]);
        double ex = fact(K - 1) / fact(deg + K - 1); for (int p : pw) ex *= fact(p);
        MC_CHECK(mc::near(sum, ex), "quadrature", sum << " expected " << ex);
        for (size_t q = 0; q < inside; q++) {
            double v = 0; for (size_t i = 0; i < np; i++) v += mono(pw, node[i]) * e->getLagr(i).eval(point<K>(pts[q])); mc::step();
            MC_CHECK(mc::near(v, mono(pw, pts[q])), "reproduces", mc::vec(pts[q]) << " " << v);
            // gradients along the edges of the simplex
            for (int k = 1; k < K; k++) {
                double g = 0; for (size_t i = 0; i < np; i++) g += mono(pw, node[i]) * (e->getDLagr(i, k).eval(point<K>(pts[q])) - e->getDLagr(i, 0).eval(point<K>(pts[q]))); mc::step();
                auto dm = [&](int v) { if (!pw[v]) return 0.0; auto p2 = pw; p2[v]--; return pw[v] * mono(p2, pts[q]); };
                MC_CHECK(mc::near(g, dm(k) - dm(0), 1e-8), "reproduces-gradient", k << " at " << mc::vec(pts[q]) << " " << g << " " << dm(k) - dm(0));
            }
        }
    });
    for (int deg = 0; deg <= mc::pick(4, 8); deg++) for (auto& pw : comps(deg, K)) mc::run([&] { return MC_STR(name << " of order " << N << ", integral of " << mc::vec(pw)); }, [&] {
        load(); Function::Polynomial<Real> p(K); p.addMonomial(3.5, pw); if (deg) p.addMonomial(-1.25, std::vector<Int>(K, 1)); mc::step();
        double ex = 3.5 * fact(K - 1) / fact(deg + K - 1); for (int q : pw) ex *= fact(q);
        if (deg) ex -= 1.25 * fact(K - 1) / fact(2 * K - 1);
        for (double sf : {1.0, 0.5, S::sizeFactor}) MC_CHECK(mc::near(e->integrate(p, K - 1, sf), sf * ex), "integral", e->integrate(p, K - 1, sf));
    });
    mc::run([&] { return MC_STR(name << " of order " << N << ", size"); }, [&] { MC_CHECK(mc::near(S::sizeFactor, 1 / fact(K - 1)), "size-factor", S::sizeFactor); mc::step(); });
}
template<int N> static void faces() {
    mc::run([&] { return MC_STR("faces of the line of order " << N); }, [&] {
        Simplex::Line<N> l; for (size_t f = 0; f < 2; f++) { MC_CHECK(l.sideNode(f, 0) == l.vertex(f), "line-ends", f); MC_CHECK(l.nodeIndex(l.vertex(f), f) == N, "line-end-node", f); mc::step(); }
    });
    mc::run([&] { return MC_STR("faces of the triangle of order " << N); }, [&] {
        Simplex::Triangle<N> t; std::map<size_t, int> used;
        for (size_t f = 0; f < 3; f++) {
            MC_CHECK(t.sideVertex(f, 0) == t.vertex(f) && t.sideVertex(f, 1) == t.vertex((f + 1) % 3), "triangle-side-vertices", f);
            for (size_t i = 0; i <= N; i++) {
                auto x = t.coordinate(t.sideNode(f, i)), a = t.coordinate(t.vertex(f)), b = t.coordinate(t.vertex((f + 1) % 3)); used[t.sideNode(f, i)]++; mc::step();
                for (int k = 0; k < 3; k++) MC_CHECK(mc::near(x(k), (a(k) * (N - i) + b(k) * i) / N), "triangle-side-node", f << " " << i);
            }
        }
        for (size_t n = 0; n < t.np; n++) { int zero = 0; for (int k = 0; k < 3; k++) { zero += t.nodeIndex(n, k) == 0; MC_CHECK(mc::near(t.coordinate(n)(k), t.nodeIndex(n, k) / double(N)), "triangle-coordinate", n); } MC_CHECK(used[n] == zero, "triangle-nodes-of-sides", n); }
    });
    mc::run([&] { return MC_STR("faces of the tetrahedron of order " << N); }, [&] {
        Simplex::Tetrahedron<N> t; Simplex::Triangle<N> tri; std::map<size_t, int> used; std::set<std::set<size_t>> vs;
        for (size_t f = 0; f < 4; f++) {
            std::set<size_t> own; for (size_t i = 0; i < 3; i++) own.insert(t.sideVertex(f, i)); vs.insert(own); MC_CHECK(own.size() == 3, "tetrahedron-side-vertices", f);
            for (size_t i = 0; i < 3; i++) { int mx = 0; for (int k = 0; k < 4; k++) mx = std::max<int>(mx, t.nodeIndex(t.sideVertex(f, i), k)); MC_CHECK(mx == N, "tetrahedron-side-corner", f << i); }
            for (size_t i = 0; i < tri.np; i++) {
                auto x = t.coordinate(t.sideNode(f, i)); auto c = tri.coordinate(i); used[t.sideNode(f, i)]++; mc::step();
                CVecR4 y; for (int k = 0; k < 4; k++) { y(k) = 0; for (int v = 0; v < 3; v++) { int which = 0; auto tv = tri.coordinate(tri.vertex(v)); for (int q = 0; q < 3; q++) if (tv(q) == 1) which = q; y(k) += c(which) * t.coordinate(t.sideVertex(f, v))(k); } }
                for (int k = 0; k < 4; k++) MC_CHECK(mc::near(x(k), y(k)), "tetrahedron-face-node", "face " << f << " node " << i);
                auto z = t.sideCoordinate(f, i); for (int k = 0; k < 4; k++) MC_CHECK(z(k) == x(k), "tetrahedron-side-coordinate", f << i);
            }
        }
        MC_CHECK(vs.size() == 4, "tetrahedron-faces-distinct", vs.size());
        for (size_t n = 0; n < t.np; n++) { int zero = 0; for (int k = 0; k < 4; k++) zero += t.nodeIndex(n, k) == 0; MC_CHECK(used[n] == zero, "tetrahedron-nodes-of-faces", n << " " << used[n] << " " << zero); }
    });
}
template<int N> static void order(bool tet = true) {
    simplex<Simplex::Line<N>, 2, N>("line"); simplex<Simplex::Triangle<N>, 3, N>("triangle"); simplex<Simplex::Tetrahedron<N>, 4, N>("tetrahedron"); faces<N>();
}
static void body() {
    order<1>(); order<2>(); order<3>(); order<4>(); order<5>();
    simplex<Simplex::Line<6>, 2, 6>("line"); simplex<Simplex::Line<7>, 2, 7>("line"); simplex<Simplex::Line<8>, 2, 8>("line"); simplex<Simplex::Triangle<6>, 3, 6>("triangle");
}
int main(int c, char** v) { return mc::main_(c, v, body); }

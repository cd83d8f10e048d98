// P13: local axes, spherical coordinates and fractional cell indices.
#include "mc.h"
#include "math/axis/Local.h"
#include "math/vector/Spherical.h"
#include "math/vector/CVecI3Fractional.h"
#include "math/Constants.h"
using namespace SEMBA;
using namespace SEMBA::Math;

static const double PI = 3.14159265358979323846;
struct V { double x[3]; };
static V rot(V v, int ax, double a) {           // passive rotation about ax
    int i = (ax + 1) % 3, j = (ax + 2) % 3;
    V r = v;
    r.x[i] = std::cos(a) * v.x[i] + std::sin(a) * v.x[j];
    r.x[j] = -std::sin(a) * v.x[i] + std::cos(a) * v.x[j];
    return r;
}
static V euler(V v, const double* e) { return rot(rot(rot(v, 2, e[0]), 0, e[1]), 2, e[2]); }
static std::string str(const V& v) { return MC_STR("(" << v.x[0] << "," << v.x[1] << "," << v.x[2] << ")"); }
static std::string str(const CVecR3& v) { return MC_STR("(" << v(0) << "," << v(1) << "," << v(2) << ")"); }
static bool same(const CVecR3& a, const V& b, double t = 1e-9) {
    for (int i = 0; i < 3; i++) if (!mc::near(a(i), b.x[i], t)) return false;
    return true;
}
static double dot(const CVecR3& a, const CVecR3& b) { return a(0) * b(0) + a(1) * b(1) + a(2) * b(2); }
static double det3(const MatR33& m) {
    return m(0,0)*(m(1,1)*m(2,2)-m(1,2)*m(2,1)) - m(0,1)*(m(1,0)*m(2,2)-m(1,2)*m(2,0)) + m(0,2)*(m(1,0)*m(2,1)-m(1,1)*m(2,0));
}

static void localAxes() {
    const int N = mc::pick(6, 12);               // pi/N steps over [-pi, pi]
    const int L = 2 * N + 1;
    std::vector<V> vs;
    for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) for (int c = -1; c <= 1; c++) vs.push_back(V{{a * 1.0, b * 2.0, c * 0.5}});
    const double org[4][3] = {{0,0,0},{3,0,0},{-1.5,2,1e3},{1e-3,-7,0.25}};
    for (int a = 0; a < L; a++) for (int b = 0; b < L; b++) for (int c = 0; c < L; c++) {
        double e[3] = {(a - N) * PI / N, (b - N) * PI / N, (c - N) * PI / N};
        mc::run([=] { return MC_STR("local axis with Euler angles (" << a - N << "," << b - N << "," << c - N << ")*pi/" << N); }, [&] {
            for (int o = 0; o < 4; o++) {
                CVecR3 ang(e[0], e[1], e[2]), og(org[o][0], org[o][1], org[o][2]);
                const Axis::Local loc(ang, og);
                MC_CHECK(loc.getEulerAngles() == ang && loc.getOrigin() == og, "parameters-kept", "angles " << str(loc.getEulerAngles()) << " origin " << str(loc.getOrigin()));
                for (size_t i = 0; i < vs.size(); i++) {
                    CVecR3 v(vs[i].x[0], vs[i].x[1], vs[i].x[2]);
                    CVecR3 g = loc.convertToGlobal(v);
                    V w = euler(vs[i], e);
                    for (int k = 0; k < 3; k++) w.x[k] += org[o][k];
                    mc::step();
                    MC_CHECK(same(g, w), "point", "origin " << str(og) << ": " << str(v) << " became " << str(g) << ", expected " << str(w));
                    // the local axis at opposite angles, in opposite order, undoes it
                    Axis::Local back(CVecR3(-e[2], -e[1], -e[0]));
                    CVecR3 h = back.convertToGlobal(g - og);
                    MC_CHECK(same(h, vs[i]), "undo", str(v) << " came back as " << str(h));
                    // a default axis is the identity
                    if (a == N && b == N && c == N) {
                        MC_CHECK(same(Axis::Local().convertToGlobal(v), vs[i]), "identity", str(v));
                    }
                }
                mc::outcome("local axis at an origin");
                if (o == 0) {
                    MatR33 m = loc.getTransformationMatrix();
                    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
                        double s = 0; for (int k = 0; k < 3; k++) s += m(i,k) * m(j,k);
                        MC_CHECK(mc::near(s, i == j), "orthogonal", "rows " << i << "," << j << " of the transformation have product " << s);
                        V u{{0,0,0}}; u.x[j] = 1; V w = euler(u, e);
                        MC_CHECK(mc::near(m(i,j), w.x[i]), "matrix", "entry " << i << "," << j << " is " << m(i,j) << " expected " << w.x[i]);
                    }
                    MC_CHECK(mc::near(det3(m), 1), "handedness", "determinant " << det3(m));
                    mc::state(MC_STR(str(CVecR3(m(0,0),m(0,1),m(0,2))) << str(CVecR3(m(1,0),m(1,1),m(1,2)))));
                    // lengths and angles
                    for (size_t i = 0; i < vs.size(); i++) for (size_t j = i; j < vs.size(); j++) {
                        CVecR3 p(vs[i].x[0], vs[i].x[1], vs[i].x[2]), q(vs[j].x[0], vs[j].x[1], vs[j].x[2]);
                        double d0 = dot(p, q), d1 = dot(loc.convertToGlobal(p), loc.convertToGlobal(q));
                        MC_CHECK(mc::near(d0, d1), "angles-kept", str(p) << "." << str(q) << " = " << d0 << " became " << d1);
                    }
                }
                // tensors: the global tensor acts on global directions as the local one on local directions
                for (int t = 0; t < 4; t++) {
                    MatR33 T;
                    const double tt[4][9] = {{1,0,0,0,1,0,0,0,1},{2,0,0,0,3,0,0,0,5},{1,2,3,5,7,11,13,17,19},{0,1,0,-1,0,0.5,0,-0.5,0}};
                    for (int i = 0; i < 9; i++) T(i / 3, i % 3) = tt[t][i];
                    const MatR33 T0 = T;
                    MatR33 G = loc.convertToGlobal(T);
                    mc::step();
                    MC_CHECK(T == T0, "tensor-argument-changed", "tensor " << t);
                    for (int j = 0; j < 3; j++) {
                        V u{{0,0,0}}; u.x[j] = 1;
                        V Tu{{tt[t][j], tt[t][3 + j], tt[t][6 + j]}};
                        V gu = euler(u, e), want = euler(Tu, e);
                        V got;
                        for (int i = 0; i < 3; i++) got.x[i] = G(i,0) * gu.x[0] + G(i,1) * gu.x[1] + G(i,2) * gu.x[2];
                        for (int i = 0; i < 3; i++)
                            MC_CHECK(mc::near(got.x[i], want.x[i]), "tensor", "tensor " << t << " on axis " << j << " gives " << str(got) << " expected " << str(want));
                    }
                }
            }
        });
    }
}

static void spherical() {
    const int n = mc::pick(3, 5);
    // lattice of points
    for (int a = -n; a <= n; a++) for (int b = -n; b <= n; b++) for (int c = -n; c <= n; c++) for (int s = 0; s < 3; s++) {
        double sc = s == 0 ? 1 : s == 1 ? 1e-7 : 12345.678;
        mc::run([=] { return MC_STR("spherical form of (" << a << "," << b << "," << c << ")*" << sc); }, [&] {
            CVecR3 p(a * sc, b * sc, c * sc);
            Vector::Spherical sp;
            sp = p;
            mc::step(2);
            double r = std::sqrt(double(a * a + b * b + c * c)) * sc;
            MC_REQUIRE(mc::near(sp.radius / sc, r / sc) && mc::near(sp.norm() / sc, r / sc), "radius", "radius " << sp.radius << " of " << str(p));
            CVecR3 q = sp.convertToCartesian();
            mc::outcome("spherical form");
            for (int i = 0; i < 3; i++)
                MC_CHECK(mc::near(q(i) / sc, p(i) / sc), "round-trip", str(p) << " came back as " << str(q));
            MC_CHECK(sp.theta >= 0 && sp.theta <= PI + 1e-12, "theta-range", "theta " << sp.theta << " for " << str(p));
            MC_CHECK(sp.phi >= -PI - 1e-12 && sp.phi <= PI + 1e-12, "phi-range", "phi " << sp.phi << " for " << str(p));
            if (!a && !b && !c) { MC_CHECK(sp.theta == 0 && sp.phi == 0, "origin", sp.theta << " " << sp.phi); const Vector::Spherical none; MC_CHECK(none.radius == 0 && none.theta == 0 && none.phi == 0, "origin", "made of nothing"); }
            if (a || b || c) {
                double th = std::acos(std::max(-1.0, std::min(1.0, c * sc / r)));
                MC_CHECK(std::fabs(sp.theta - th) < 1e-7, "theta", "theta " << sp.theta << " expected " << th);
                if (a || b) MC_CHECK(mc::near(sp.phi, std::atan2(double(b), double(a))), "phi", "phi " << sp.phi);
            }
            mc::state(MC_STR(sp.theta << " " << sp.phi));
        });
    }
    // directions and vector fields
    const int N = mc::pick(6, 12);
    for (int t = 0; t <= N; t++) for (int f = -N; f <= N; f++)
        mc::run([=] { return MC_STR("direction theta=" << t << "*pi/" << N << " phi=" << f << "*pi/" << N); }, [&] {
            double th = t * PI / N, ph = f * PI / N;
            const Vector::Spherical sp(th, ph);
            CVecR3 u = sp.convertToCartesian();
            V er{{std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)}};
            V et{{std::cos(th) * std::cos(ph), std::cos(th) * std::sin(ph), -std::sin(th)}};
            V ep{{-std::sin(ph), std::cos(ph), 0}};
            MC_CHECK(same(u, er), "direction", str(u) << " expected " << str(er));
            MC_CHECK(mc::near(sp.norm(), 1), "direction-norm", sp.norm());
            for (int a = -2; a <= 2; a++) for (int b = -2; b <= 2; b++) for (int c = -2; c <= 2; c++) {
                CVecR3 w = sp.convertSphericalVectorField(a, b, c);
                V x; for (int i = 0; i < 3; i++) x.x[i] = a * er.x[i] + b * et.x[i] + c * ep.x[i];
                mc::step();
                MC_CHECK(same(w, x), "vector-field", "components (" << a << "," << b << "," << c << ") give " << str(w) << " expected " << str(x));
            }
            Vector::Spherical back; back = u;
            CVecR3 v = back.convertToCartesian();
            MC_CHECK(same(v, er), "direction-round-trip", str(v));
        });
}

static void fractional() {
    std::vector<double> ls = {0, 1. / 64, 1. / 16, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 15. / 16, 63. / 64, 1};
    if (mc::thorough()) for (double x : {0.1, 0.9, 1.0 / 3, 1e-3, 0.49, 0.51, 0.999}) ls.push_back(x);
    const unsigned n = ls.size();
    std::vector<CVecI3> cells = {CVecI3(0, 0, 0), CVecI3(-2, 3, 7)};
    mc::product({n, n, n, (unsigned)cells.size()}, [&](const std::vector<unsigned>& k) {
        double l[3] = {ls[k[0]], ls[k[1]], ls[k[2]]};
        CVecI3 c = cells[k[3]];
        mc::run([=] { return MC_STR("cell (" << c(0) << "," << c(1) << "," << c(2) << ") plus (" << l[0] << "," << l[1] << "," << l[2] << ")"); }, [&] {
            const CVecI3Fractional p(c, CVecR3(l[0], l[1], l[2]));
            V at{{c(0) + l[0], c(1) + l[1], c(2) + l[2]}};
            MC_CHECK(same(p.getScalePos(), at), "position", str(p.getScalePos()) << " expected " << str(at));
            for (int o = 0; o < 2; o++) {
                V rel = at; for (int i = 0; i < 3; i++) rel.x[i] -= cells[o](i);
                MC_CHECK(same(p.getScalePos(cells[o]), rel), "position-from-origin", str(p.getScalePos(cells[o])));
            }
            unsigned rg = 0; for (double v : l) rg += v > 0;
            MC_CHECK(p.getRangeBase() == rg, "range", p.getRangeBase());
            int dir = 0;
            for (int i = 0; i < 3; i++) { if (rg == 1 && l[i] > 0) dir = i + 1; if (rg == 2 && l[i] == 0) dir = i + 1; }
            MC_CHECK(p.getDirBase() == dir, "direction-base", p.getDirBase() << " expected " << dir);
            CVecR3 nn = p.getRelativePosNearestNode();
            for (int i = 0; i < 3; i++) MC_CHECK(std::fabs(nn(i) - l[i]) <= 0.5 && (nn(i) == 0 || nn(i) == 1), "nearest-node", str(nn));
            CVecI3Fractional q = p;
            MC_CHECK(q == p, "copy-equal", "");
            for (const CVecI3Fractional& from : {CVecI3Fractional(), CVecI3Fractional(c + CVecI3(1, 2, 3), CVecR3(l[2], l[0], l[1])), CVecI3Fractional(CVecI3(9, 9, 9), CVecR3(0.25, 0, 0.75))}) {
                CVecI3Fractional as = from;
                CVecI3Fractional& ret = (as = p);
                as = *&as;
                mc::step();
                MC_CHECK(&ret == &as && as == p && p == as && as.len_ == p.len_ && as(0) == c(0) && as(1) == c(1) && as(2) == c(2), "assigned", as.toStr());
                MC_CHECK(as.toStr() == p.toStr() && same(as.getScalePos(), at), "assigned", as.toStr());
            }
            q.reduceCoords();
            MC_CHECK(same(q.getScalePos(), at), "reduce-moves", str(q.getScalePos()) << " expected " << str(at));
            for (int i = 0; i < 3; i++) MC_CHECK(q.len_(i) >= 0 && q.len_(i) < 1, "reduce-left-over", "fraction " << q.len_(i));
            mc::step(4);
            CVecI3Fractional t = q;
            unsigned r0 = q.getRangeBase();
            t.reduceTopology();
            MC_CHECK(r0 == 0 || t.getRangeBase() == r0 - 1, "topology-range", "range " << r0 << " became " << t.getRangeBase());
            CVecR3 d = t.getScalePos() - q.getScalePos();
            double least = 2; for (int i = 0; i < 3; i++) if (q.len_(i) > 0) least = std::min(least, std::min(double(q.len_(i)), 1 - q.len_(i)));
            MC_CHECK(r0 == 0 ? d.norm() == 0 : mc::near(d.norm(), least), "topology-moves", "moved by " << str(d) << ", least move " << least);
            for (unsigned r = 0; r <= 3; r++) {
                CVecI3Fractional w = q;
                w.reduceTopology(r);
                MC_CHECK(w.getRangeBase() == std::min(r, r0), "topology-to-range", "asked " << r << " got " << w.getRangeBase());
                CVecR3 dd = w.getScalePos() - q.getScalePos();
                for (int i = 0; i < 3; i++) MC_CHECK(std::fabs(dd(i)) <= 0.5 + 1e-12, "topology-far", str(dd));
            }
            for (unsigned a = 0; a < n; a++) for (unsigned b = 0; b < n; b++) {
                CVecI3Fractional r(c, CVecR3(ls[a], ls[b], l[2]));
                MC_CHECK((r == p) == (ls[a] == l[0] && ls[b] == l[1]), "equality", "with fractions " << ls[a] << "," << ls[b]);
                CVecR3 mean = p.meanRelativePoint(r);
                MC_CHECK(same(mean, V{{(ls[a] + l[0]) / 2, (ls[b] + l[1]) / 2, l[2]}}), "mean", str(mean));
                // move: project r on the base of p
                bool can = false;
                bool should = (l[0] == 0 || ls[a] != 0) && (l[1] == 0 || ls[b] != 0);
                for (int force = 0; force < 2; force++) {
                    CVecI3Fractional m = r;
                    p.move(m, force, can);
                    MC_CHECK(can == should, "move-possible", "onto fractions " << ls[a] << "," << ls[b] << ": " << can);
                    if (!should && !force) MC_CHECK(m == r, "move-refused-but-done", m.toStr());
                    if (should) MC_CHECK(m.len_ == p.len_, "move-target", m.toStr());
                }
                CVecI3Fractional x = p, y = r;
                x.join(y);
                for (int i = 0; i < 3; i++) {
                    double pl = l[i], rl = i == 0 ? ls[a] : i == 1 ? ls[b] : l[2];
                    double want = pl == 0 || rl == 0 ? 0 : rl;
                    MC_CHECK(x.len_(i) == want && y.len_(i) == want, "join", "fraction " << i << ": " << x.len_(i) << "/" << y.len_(i) << " expected " << want);
                }
                mc::step(4);
            }
            mc::outcome(MC_STR("fractional index of range " << rg));
            CVecI3Fractional other(c + CVecI3(0, 1, 0), p.len_);
            MC_CHECK(!(other == p), "equality-cell", "");
        });
    });
}

static void body() { localAxes(); spherical(); fractional(); }
int main(int c, char** v) { return mc::main_(c, v, body); }

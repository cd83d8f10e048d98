// P11 Matrix and vector operations.  Every matrix of small shape with entries of a small set, against
// textbook definitions computed on plain arrays.
#include "mc.h"
#include "core/math/matrix/Static.h"
#include "core/math/matrix/Dynamic.h"
#include "core/math/vector/Cartesian.h"
#include "core/math/util/Real.h"
using namespace SEMBA;
using namespace SEMBA::Math;
typedef std::vector<std::vector<double>> A;
typedef Matrix::Dynamic<Real> Dyn;
typedef Matrix::Dynamic<std::size_t> DynU;
typedef Matrix::Dynamic<Int> DynI;

static A arr(size_t r, size_t c, double x = 0) { return A(r, std::vector<double>(c, x)); }
static std::string str(const A& a) { std::ostringstream o; for (auto& r : a) o << mc::vec(r); return o.str(); }
template<class M> static A toA(const M& m) { A a = arr(m.nRows(), m.nCols()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) a[i][j] = m(i, j); return a; }
template<class T> static Matrix::Dynamic<T> dyn(const A& a, size_t c = 0) { Matrix::Dynamic<T> m(a.size(), a.size() ? a[0].size() : c); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) m(i, j) = T(a[i][j]); return m; }
template<class T, size_t R, size_t C> static Matrix::Static<T, R, C> sta(const A& a) { Matrix::Static<T, R, C> m; for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) m(i, j) = T(a[i][j]); return m; }
static A mul(const A& a, const A& b) { A r = arr(a.size(), b[0].size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t k = 0; k < b.size(); k++) r[i][j] += a[i][k] * b[k][j]; return r; }
static A add(const A& a, const A& b, double s = 1) { A r = a; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) r[i][j] += s * b[i][j]; return r; }
static A tr(const A& a) { A r = arr(a[0].size(), a.size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) r[j][i] = a[i][j]; return r; }
static A scale(const A& a, double s) { A r = a; for (auto& x : r) for (auto& y : x) y *= s; return r; }
static double det(const A& a) {
    size_t n = a.size(); if (n == 1) return a[0][0]; double d = 0;
    for (size_t j = 0; j < n; j++) if (a[0][j] != 0) { A m; for (size_t i = 1; i < n; i++) { m.push_back({}); for (size_t k = 0; k < n; k++) if (k != j) m.back().push_back(a[i][k]); } d += (j % 2 ? -1 : 1) * a[0][j] * det(m); }
    return d;
}
static bool close(const A& a, const A& b, double tol = 1e-9) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); j++) if (!mc::near(a[i][j], b[i][j], tol)) return false; } return true; }
#define SAME(m, ref, sig) do { A mc_a = toA(m), mc_r = (ref); mc::step(); MC_CHECK(close(mc_a, mc_r), sig, str(mc_a) << " expected " << str(mc_r)); } while (0)

static A entries(size_t r, size_t c, const std::vector<unsigned>& d, const std::vector<double>& vals, size_t at = 0) { A a = arr(r, c); for (size_t i = 0; i < r * c; i++) a[i / c][i % c] = vals[d[at + i]]; return a; }
static A eye(size_t n) { A a = arr(n, n); for (size_t i = 0; i < n; i++) a[i][i] = 1; return a; }

template<size_t N> static void square(const std::vector<double>& vals, const char* what) {
    mc::product(std::vector<unsigned>(N * N, vals.size()), [&](const std::vector<unsigned>& d) { mc::run([&] { return MC_STR(what << " " << str(entries(N, N, d, vals))); }, [&] {
        A a = entries(N, N, d, vals); Dyn m = dyn<Real>(a); auto s = sta<Real, N, N>(a); double dt = det(a);
        if (N == 3) { MC_CHECK(mc::near(m.getDeterminant3x3(), dt) && mc::near(s.getDeterminant3x3(), dt), "determinant-3x3", dt); mc::step(2); }
        if (N == 4) { MC_CHECK(mc::near(m.getDeterminant4x4(), dt) && mc::near(s.getDeterminant4x4(), dt), "determinant-4x4", dt); mc::step(2); }
        MC_CHECK(m.isSymmetric() == (tr(a) == a) && m.isSquare() && s.isSymmetric() == (tr(a) == a), "symmetric", ""); mc::step(3);
        mc::outcome(dt != 0 ? "invertible" : "singular"); mc::state(MC_STR(N << dt << str(a).substr(0, 12)));
        if (std::fabs(dt) > 1e-12) {
            Dyn inv = m.invert(); SAME(m, a, "invert-keeps-operand"); A ia = toA(inv); mc::step();
            MC_CHECK(close(mul(a, ia), eye(N)) && close(mul(ia, a), eye(N)), "inverse", str(ia)); 
            auto si = s; si.invert(); SAME(si, ia, "static-inverse");
        } else {
            // the elimination is exact on these entries, so the missing pivot is seen
            MC_CHECK(MC_THROWS(m.invert()), "singular-accepted", ""); auto si = s; MC_CHECK(MC_THROWS(si.invert()), "singular-accepted", "static"); mc::step(2); SAME(m, a, "refused-inverse-keeps-operand");
        }
        Dyn l = m; l.cpLowerTri2UpperTri(); A la = a; for (size_t i = 0; i < N; i++) for (size_t j = i + 1; j < N; j++) la[i][j] = a[j][i]; SAME(l, la, "lower-to-upper");
        auto ls = s; ls.cpLowerTri2UpperTri(); SAME(ls, la, "lower-to-upper");
        Dyn e = m; e.eye(); SAME(e, eye(N), "eye"); e.zeros(); SAME(e, arr(N, N), "zeros");
    }); });
}
template<size_t R, size_t C> static void shape(const std::vector<double>& vals) {
    mc::product(std::vector<unsigned>(R * C, vals.size()), [&](const std::vector<unsigned>& d) { mc::run([&] { return MC_STR("matrix " << str(entries(R, C, d, vals))); }, [&] {
        A a = entries(R, C, d, vals); Dyn m = dyn<Real>(a); auto s = sta<Real, R, C>(a); mc::state(MC_STR(str(a)));
        MC_CHECK(m.nRows() == R && m.nCols() == C && m.size() == R * C && s.nRows() == R && s.nCols() == C, "shape", ""); SAME(m, a, "entries"); SAME(s, a, "entries");
        for (size_t i = 0; i < R * C; i++) MC_CHECK(((const Dyn&) m).val(i) == a[i / C][i % C] && s.val(i) == a[i / C][i % C], "entry-by-index", i);
        for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) MC_CHECK(*m.valPtr(i, j) == a[i][j] && m.val(i, j) == a[i][j] && s.val(i, j) == a[i][j], "entry", i << j);
        if (R != C) MC_CHECK(!m.isSymmetric() && !m.isSquare() && !s.isSymmetric(), "symmetric", "");
        // copies do not share entries
        Dyn c = m; c(0, 0) += 1; SAME(m, a, "copy-independent"); Dyn e; e = m; SAME(e, a, "assigned"); e = *&e; SAME(e, a, "self-assigned"); e(R - 1, C - 1) -= 3; SAME(m, a, "assignment-independent");
        auto cs = s; cs(0, 0) += 1; SAME(s, a, "copy-independent");
        Dyn t = m; t.transpose(); SAME(t, tr(a), "transpose"); t.transpose(); SAME(t, a, "transpose-twice"); SAME(s.transpose(), tr(a), "static-transpose");
        for (double k : {-2., 0.5, 4.}) {
            SAME(m * k, scale(a, k), "times-scalar"); SAME(s * k, scale(a, k), "times-scalar"); SAME(m / k, scale(a, 1 / k), "over-scalar");
            Dyn x = m; x *= k; SAME(x, scale(a, k), "times-scalar"); x = m; x /= k; SAME(x, scale(a, 1 / k), "over-scalar"); x = m; x += k; SAME(x, add(a, arr(R, C, k)), "plus-scalar"); x = k; SAME(x, arr(R, C, k), "assign-scalar");
            auto y = s; y *= k; SAME(y, scale(a, k), "times-scalar"); y = s; y /= k; SAME(y, scale(a, 1 / k), "over-scalar"); y = s; y += k; SAME(y, add(a, arr(R, C, k)), "plus-scalar");
        }
        { Dyn x = m; x += x; SAME(x, scale(a, 2), "plus-itself"); auto y = s; y += y; SAME(y, scale(a, 2), "plus-itself"); y -= y; SAME(y, arr(R, C), "minus-itself"); x = m; x *= x(0, 0); SAME(x, scale(a, a[0][0]), "times-own-entry"); y = s; y *= y(0, 0); SAME(y, scale(a, a[0][0]), "times-own-entry"); if (a[0][0] != 0) { y = s; y /= y(0, 0); SAME(y, scale(a, 1 / a[0][0]), "over-own-entry"); } }
        double mx = a[0][0]; for (auto& r : a) for (double v : r) mx = std::max(mx, v); MC_CHECK(m.maxVal() == mx && s.maxVal() == mx, "maximum", "");
        for (size_t j = 0; j < C; j++) { double mj = a[0][j]; for (auto& r : a) mj = std::max(mj, r[j]); MC_CHECK(m.maxValInCol(j) == mj, "maximum-of-column", j); }
        for (size_t i = 0; i < R; i++) MC_CHECK(m.cpRowToVector(i) == a[i], "row", i);
        { Dyn x = m; x.cpToRow(R - 1, a[0]); A ra = a; ra[R - 1] = a[0]; SAME(x, ra, "set-row"); std::vector<double> col; for (auto& r : a) col.push_back(r[0]); x = m; x.cpToCol(C - 1, col); ra = a; for (size_t i = 0; i < R; i++) ra[i][C - 1] = col[i]; SAME(x, ra, "set-column"); Dyn v; v = col; SAME(v, tr(A{col}), "from-vector"); }
        { Dyn x; x.copy(a); SAME(x, a, "from-rows"); auto y = s; y.zeros(); y.copy(a); SAME(y, a, "from-rows"); Matrix::Static<Real, R, C> z; z = m; SAME(z, a, "static-from-dynamic"); }
        { std::vector<double*> rows; A b = a; for (auto& r : b) rows.push_back(r.data()); Dyn x(R, C, rows.data()); SAME(x, a, "from-pointers"); }
        { Real out[R * C]; m.convertToArray(MATRICES_ROW_MAJOR, out); for (size_t i = 0; i < R * C; i++) MC_CHECK(out[i] == a[i / C][i % C], "row-major", i); m.convertToArray(MATRICES_COL_MAJOR, out); for (size_t i = 0; i < R * C; i++) MC_CHECK(out[i] == a[i % R][i / R], "column-major", i); mc::step(2); }
        // windows
        for (size_t i = 0; i < R; i++) for (size_t k = i; k < R; k++) for (size_t j = 0; j < C; j++) for (size_t l = j; l < C; l++) {
            A w; for (size_t p = i; p <= k; p++) w.push_back(std::vector<double>(a[p].begin() + j, a[p].begin() + l + 1));
            std::pair<size_t, size_t> pr(i, k), pc(j, l); SAME(m.sub(pr, pc), w, "window"); SAME(m.copy(i, k + 1, j, l + 1), w, "copied-window");
            if (i == 0 && k == R - 1 && l - j + 1 < C) { A q; for (auto& r : a) { q.push_back({}); for (size_t x = 0; x < C; x++) if (x < j || x > l) q.back().push_back(r[x]); } SAME(m.eliminateColumns(j, l), q, "columns-eliminated"); }
        }
        for (size_t nr = 1; nr <= R * C; nr++) if (R * C % nr == 0) {
            size_t nc = R * C / nr; A q = arr(nr, nc), q2 = q; for (size_t i = 0; i < R * C; i++) { q[i / nc][i % nc] = a[i / C][i % C]; q2[i / nc][i % nc] = a[i % R][i / R]; }
            SAME(m.reshape(nr, nc), q, "reshape"); SAME(m.reshape(nr, nc, 2), q2, "reshape-by-columns");
        }
        Dyn same = dyn<Real>(a); MC_CHECK(same == m, "equal", ""); same(R - 1, 0) += 1e-3; MC_CHECK(!(same == m), "different", ""); Dyn wider(R, C + 1); MC_CHECK(!(wider == m), "different-shape", "");
        DynI im = dyn<Int>(a), in = im; MC_CHECK(im == in, "equal-integers", ""); in(0, C - 1) += 1; MC_CHECK(!(im == in), "different-integers", "");
        auto ss = s; MC_CHECK(ss == s, "equal", ""); ss(R - 1, 0) += 1e-3; MC_CHECK(!(ss == s), "different", "");
        // times a vector
        Vector::Cartesian<Real, C> v; A va; for (size_t j = 0; j < C; j++) { v(j) = j * j - 1.5; va.push_back({v(j)}); } auto r = s * v; A ra = mul(a, va); for (size_t i = 0; i < R; i++) MC_CHECK(mc::near(r(i), ra[i][0]), "times-vector", i); mc::step();
    }); });
}
template<size_t R, size_t K, size_t C> static void pairs(const std::vector<double>& vals) {
    mc::product(std::vector<unsigned>(R * K + K * C, vals.size()), [&](const std::vector<unsigned>& d) { mc::run([&] { return MC_STR("matrices " << str(entries(R, K, d, vals)) << " and " << str(entries(K, C, d, vals, R * K))); }, [&] {
        A a = entries(R, K, d, vals), b = entries(K, C, d, vals, R * K); Dyn x = dyn<Real>(a), y = dyn<Real>(b); auto sx = sta<Real, R, K>(a); auto sy = sta<Real, K, C>(b);
        A p = mul(a, b); SAME(x * y, p, "product"); SAME(sx * sy, p, "static-product"); SAME(sx * y, p, "mixed-product"); mc::state(str(p));
        A kr = arr(R * K, K * C); for (size_t i = 0; i < R; i++) for (size_t j = 0; j < K; j++) for (size_t k = 0; k < K; k++) for (size_t l = 0; l < C; l++) kr[i * K + k][j * C + l] = a[i][j] * b[k][l];
        SAME(x.kron(y), kr, "kronecker");
        if (R == K && K == C) {
            SAME(x + y, add(a, b), "sum"); auto z = x; z += y; SAME(z, add(a, b), "sum"); auto sz = sta<Real, R, K>(a); auto s2 = sta<Real, R, K>(b); SAME(sz + s2, add(a, b), "sum"); sz += s2; SAME(sz, add(a, b), "sum"); sz -= s2; SAME(sz, a, "difference");
            MC_CHECK((x == y) == (a == b), "equal", ""); MC_CHECK((sx == sta<Real, R, K>(b)) == (a == b), "equal", ""); MC_CHECK((sx < sta<Real, R, K>(b)) == (a < b), "order", ""); MC_CHECK((x < y) == (a < b), "order-dynamic", "");
        }
    }); });
}
static void convolutions(size_t n, size_t m, const std::vector<double>& vals) {
    mc::product(std::vector<unsigned>(n + m, vals.size()), [&](const std::vector<unsigned>& d) { mc::run([&] { return MC_STR("convolution of " << str(entries(n, 1, d, vals)) << " and " << str(entries(m, 1, d, vals, n))); }, [&] {
        A a = entries(n, 1, d, vals), b = entries(m, 1, d, vals, n), r = arr(n + m - 1, 1); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) r[i + j][0] += a[i][0] * b[j][0];
        SAME(dyn<Real>(a).convolute(dyn<Real>(b)), r, "convolution"); mc::outcome("convolutions");
    }); });
}
// ---------------------------------------------------------------- rows
static void rowLists(size_t n, size_t w, unsigned vals) {
    mc::product(std::vector<unsigned>(n * w, vals), [&](const std::vector<unsigned>& d) { mc::run([&] { return MC_STR("rows " << mc::vec(d) << " of " << w); }, [&] {
        A a = arr(n, w); for (size_t i = 0; i < n * w; i++) a[i / w][i % w] = d[i];
        for (size_t i = 0; i < w; i++) for (size_t l = i; l < w; l++) for (int omp = 0; omp < 2; omp++) {
            DynU m = dyn<size_t>(a); if (omp) m.sortRows_omp(i, l); else m.sortRows(i, l); A r = toA(m); mc::step();
            auto key = [&](const std::vector<double>& x) { return std::vector<double>(x.begin() + i, x.begin() + l + 1); };
            for (size_t k = 1; k < n; k++) MC_CHECK(key(r[k - 1]) <= key(r[k]), "sorted", i << "-" << l << " " << str(r));
            A p = r, q = a; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); MC_CHECK(p == q, "sort-keeps-rows", str(r));
            // first row with a key, in the sorted rows
            mc::product(std::vector<unsigned>(l - i + 1, vals + 1), [&](const std::vector<unsigned>& k) {
                std::vector<size_t> kk(k.begin(), k.end()); std::vector<double> kd(k.begin(), k.end()); size_t want = n; for (size_t x = n; x-- > 0;) if (key(r[x]) == kd) want = x;
                mc::step(); size_t got = m.findFirstOcurrenceInColumns(kk.data(), i, kk.size()); MC_CHECK(got == want, "first-occurrence", mc::vec(kd) << " " << got << " expected " << want);
            });
        }
        DynU m = dyn<size_t>(a); m.sortRows(); A s = a; std::sort(s.begin(), s.end()); SAME(m, s, "sorted-whole-rows");
        A u = s; u.erase(std::unique(u.begin(), u.end()), u.end());
        m.removeRepeatedSortedRows(); SAME(m, u, "repeated-removed"); m.removeRepeatedSortedRows(); SAME(m, u, "repeated-removed-twice");
        DynU m2 = dyn<size_t>(a); m2.sortAndRemoveRepeatedRows(); SAME(m2, u, "sorted-and-repeated-removed"); DynU m3 = dyn<size_t>(a); m3.sortAndRemoveRepeatedRows_omp(); SAME(m3, u, "sorted-and-repeated-removed-omp");
        mc::outcome(u.size() == n ? "distinct rows" : "repeated rows"); mc::state(str(u));
        if (n >= 2) for (size_t cut = 1; cut < n; cut++) {
            A x(a.begin(), a.begin() + cut), y(a.begin() + cut, a.end()); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
            DynU p = dyn<size_t>(x), q = dyn<size_t>(y); p.mergeSortedRows(q, 0, w - 1); SAME(p, s, "merged"); SAME(q, y, "merge-keeps-operand");
        }
    }); });
}
// ------------------------------------------------------------- vectors
typedef CVecR3 V; typedef std::array<double, 3> a3;
static a3 to(const V& v) { return {v(0), v(1), v(2)}; }
static V from(const a3& a) { return V(a[0], a[1], a[2]); }
static bool eq3(const V& v, const a3& a) { for (int i = 0; i < 3; i++) if (!mc::near(v(i), a[i])) return false; return true; }
template<class F> static a3 map2(const a3& a, const a3& b, F f) { return {f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])}; }
static void vectors(const std::vector<double>& vals) {
    size_t n = vals.size(), N = n * n * n; auto at = [&](size_t i) { return a3{vals[i % n], vals[i / n % n], vals[i / n / n]}; };
    for (size_t i = 0; i < N; i++) mc::run([&] { auto a = at(i); return MC_STR("vector " << mc::vec(a) << " with all others"); }, [&] {
        a3 a = at(i); V v = from(a); const V k = v; double nn = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
        auto one = [&](const V& got, const a3& want, const char* sig) { mc::step(); MC_CHECK(eq3(got, want), sig, got.toStr() << " expected " << mc::vec(want)); MC_CHECK(eq3(k, a) && eq3(v, a), "operand-changed", sig << " " << v.toStr()); v = k; };
        MC_CHECK(mc::near(v.norm(), nn), "norm", v.norm()); MC_CHECK(v.getMax() == *std::max_element(a.begin(), a.end()), "max", "");
        one(-v, {-a[0], -a[1], -a[2]}, "negated");
        V c = v; c.abs(); one(c, {std::fabs(a[0]), std::fabs(a[1]), std::fabs(a[2])}, "abs"); if (nn > 0) { c = v; c.normalize(); one(c, {a[0] / nn, a[1] / nn, a[2] / nn}, "normalised"); }
        for (int p = 0; p <= 4; p++) { c = v; c.cyclicPermutation(p); a3 w; for (int q = 0; q < 3; q++) w[(q + p) % 3] = a[q]; one(c, w, "permuted"); }
        c = v; c.cyclicPermutation(); one(c, {a[2], a[0], a[1]}, "permuted");
        for (double s : {-1.5, 2., 0.25}) {
            auto f = [&](double (*g)(double, double)) { return map2(a, {s, s, s}, g); };
            one(v + s, f([](double x, double y) { return x + y; }), "plus-number"); one(v - s, f([](double x, double y) { return x - y; }), "minus-number"); one(v * s, f([](double x, double y) { return x * y; }), "times-number"); one(v / s, f([](double x, double y) { return x / y; }), "over-number");
            c = v; c += s; one(c, f([](double x, double y) { return x + y; }), "plus-number"); c = v; c -= s; one(c, f([](double x, double y) { return x - y; }), "minus-number"); c = v; c *= s; one(c, f([](double x, double y) { return x * y; }), "times-number"); c = v; c /= s; one(c, f([](double x, double y) { return x / y; }), "over-number"); c = s; one(c, {s, s, s}, "all-equal");
        }
        bool in[3] = {a[2] == 0, a[0] == 0, a[1] == 0}; for (int p = 0; p < 3; p++) MC_CHECK(v.isContainedInPlane(Constants::CartesianPlane(p)) == in[p], "in-plane", p); MC_CHECK(v.isContainedInPlane() == (in[0] || in[1] || in[2]), "in-any-plane", "");
        // the same object as operand
        c = v; c += c; one(c, {2 * a[0], 2 * a[1], 2 * a[2]}, "plus-itself"); c = v; c -= c; one(c, {0, 0, 0}, "minus-itself"); c = v; c *= c; one(c, {a[0] * a[0], a[1] * a[1], a[2] * a[2]}, "times-itself"); c = v; c = *&c; one(c, a, "assigned-itself"); c = v; c.setWithMinimalComponents(c); one(c, a, "least-of-itself");
        c = v; c += c(2); one(c, {a[0] + a[2], a[1] + a[2], 2 * a[2]}, "plus-own-entry"); c = v; c *= c(0); one(c, {a[0] * a[0], a[1] * a[0], a[2] * a[0]}, "times-own-entry"); if (a[0] != 0) { c = v; c /= c[0]; one(c, {1, a[1] / a[0], a[2] / a[0]}, "over-own-entry"); }
        int nz = (a[0] != 0) + (a[1] != 0) + (a[2] != 0);
        if (nz >= 2) MC_CHECK(!v.isInCartesianAxis(), "not-axis", ""); if (nz == 1) { int ax = a[0] != 0 ? 0 : a[1] != 0 ? 1 : 2; MC_CHECK(v.isInCartesianAxis() && v.getCartesianAxis() == ax, "axis", ""); }
        CVecI3 iv((Int) a[0] * 2, (Int) a[1] * 3, (Int) a[2]); one(CVecR3(iv), {double(iv(0)), double(iv(1)), double(iv(2))}, "from-integers"); 
        { CVecI3 neg = -iv; MC_CHECK(neg(0) == -iv(0) && neg(1) == -iv(1) && neg(2) == -iv(2) && iv(0) == (Int) a[0] * 2, "negated-integers", ""); CVecR3 h = iv / 2.0; one(h, {iv(0) / 2., iv(1) / 2., iv(2) / 2.}, "integers-over-number"); one(iv + v, {iv(0) + a[0], iv(1) + a[1], iv(2) + a[2]}, "integers-plus-reals"); }
        for (size_t j = 0; j < N; j++) {
            a3 b = at(j); V w = from(b); const V kw = w; mc::step();
            auto two = [&](const V& got, double (*g)(double, double), const char* sig) { a3 want = map2(a, b, g); MC_CHECK(eq3(got, want), sig, mc::vec(b) << " " << got.toStr()); };
            two(v + w, [](double x, double y) { return x + y; }, "sum"); two(v - w, [](double x, double y) { return x - y; }, "difference"); two(v * w, [](double x, double y) { return x * y; }, "product"); two(V(v, w), [](double x, double y) { return y - x; }, "from-to");
            c = v; c += w; two(c, [](double x, double y) { return x + y; }, "sum"); c = v; c -= w; two(c, [](double x, double y) { return x - y; }, "difference"); c = v; c *= w; two(c, [](double x, double y) { return x * y; }, "product");
            c = v; c.setWithMinimalComponents(w); two(c, [](double x, double y) { return std::min(x, y); }, "least-components");
            a3 cr = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; MC_CHECK(eq3(v ^ w, cr), "cross", mc::vec(b)); MC_CHECK(mc::near(v.dot(w), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]), "dot", mc::vec(b));
            MC_CHECK((v == w) == (a == b) && (v != w) == (a != b), "equality", mc::vec(b)); MC_CHECK((v < w) == (a < b) && (v > w) == (a > b) && (v <= w) == (a <= b) && (v >= w) == (a >= b), "order", mc::vec(b));
            MC_CHECK(v.isCoplanar(w) == (a[0] == b[0] || a[1] == b[1] || a[2] == b[2]), "coplanar", mc::vec(b)); MC_CHECK(eq3(v, a) && eq3(w, b), "operand-changed", mc::vec(b));
        }
        mc::outcome("vectors"); mc::state(k.toStr());
    });
    for (unsigned b = 0; b < 8; b++) mc::run([&] { return MC_STR("binary " << b); }, [&] { CVecI3 v; v.setAsBinary(b); mc::step(); for (int d = 0; d < 3; d++) MC_CHECK(v(d) == (Int) (b >> (2 - d) & 1), "binary", d); CVecR2 w; if (b < 4) { w.setAsBinary(b); MC_CHECK(w(0) == (b >> 1) && w(1) == (b & 1), "binary-2", ""); } });
}
static void rounding() {
    for (int i = -50; i <= 50; i++) mc::run([&] { return MC_STR("numbers " << i / 10.0); }, [&] {
        double x = i / 10.0, r = std::floor(x), want = i == 10 * (int) r ? r : (i - 10 * r >= 5 ? r + 1 : r);
        MC_CHECK(Util::round(x) == want, "round", Util::round(x)); MC_CHECK(Util::ceil(x) == std::ceil(x), "ceil", Util::ceil(x)); MC_CHECK(Util::sign(x) == (x < 0 ? -1 : 1), "sign", "");
        for (int j = -50; j <= 50; j++) for (double f : {1., 1e-6, 1e9}) {
            double a = x * f, b = j / 10.0 * f; mc::step(6);
            MC_CHECK(Util::equal(a, b) == (i == j) && Util::notEqual(a, b) == (i != j) && Util::lower(a, b) == (i < j) && Util::greater(a, b) == (i > j) && Util::lowerEqual(a, b) == (i <= j) && Util::greaterEqual(a, b) == (i >= j), "comparison", a << " " << b);
            // numbers that differ by less than the relative tolerance compare equal
            double c = b * (1 + 1e-12); MC_CHECK(Util::equal(a, c) == (i == j) && Util::lower(a, c) == (i < j), "comparison-tolerance", a << " " << c);
        }
        mc::state(MC_STR(i)); mc::outcome("numbers");
    });
}
// ---------------------------------------------------------------- sizes: the same questions on matrices and lists of every size of a ladder
static double gen(size_t i, size_t j, int k) { return double((i * 7 + j * 11 + k * 5 + i * j * (k + 1)) % 13) - 6; }
static A made(size_t r, size_t c, int k) { A a = arr(r, c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) a[i][j] = gen(i, j, k); return a; }
static void sizes() {
    std::vector<size_t> S; for (size_t n = 1; n <= (size_t) mc::pick(36, 70); n++) S.push_back(n); for (size_t n : {64, 65, 100, 128, 129}) if (n > S.back()) S.push_back(n);
    for (size_t n : S) for (int k = 0; k < 3; k++) mc::run([&] { return MC_STR("size " << n << " of kind " << k); }, [&] {
        for (size_t m : {size_t(1), size_t(2), size_t(3), size_t(5), n}) {
            A a = made(n, m, k), b = made(m, n, k + 1), c = made(n, m, k + 2); Dyn x = dyn<Real>(a), y = dyn<Real>(b), z = dyn<Real>(c);
            SAME(x, a, "entries"); if (n <= 40 || m < n) SAME(x * y, mul(a, b), "product"); SAME(x + z, add(a, c), "sum"); Dyn s = x; s += z; SAME(s, add(a, c), "sum"); s = x; s *= 0.5; SAME(s, scale(a, 0.5), "times-scalar"); s = x; s += 2.; SAME(s, add(a, arr(n, m, 2)), "plus-scalar");
            Dyn t = x; t.transpose(); SAME(t, tr(a), "transpose"); Dyn cp = x; cp(n - 1, m - 1) += 1; SAME(x, a, "copy-independent"); MC_CHECK(!(cp == x), "different", ""); cp(n - 1, m - 1) -= 1; MC_CHECK(cp == x, "equal", "");
            MC_CHECK(x.cpRowToVector(n - 1) == a[n - 1], "row", ""); std::vector<double> out(n * m); x.convertToArray(MATRICES_COL_MAJOR, out.data()); for (size_t i = 0; i < n * m; i++) MC_CHECK(out[i] == a[i % n][i / n], "column-major", i);
            double mx = a[0][0]; for (auto& r : a) for (double v : r) mx = std::max(mx, v); MC_CHECK(x.maxVal() == mx, "maximum", "");
            A q = arr(m, n), q2 = q; for (size_t i = 0; i < n * m; i++) { q[i / n][i % n] = a[i / m][i % m]; q2[i / n][i % n] = a[i % n][i / n]; } SAME(x.reshape(m, n), q, "reshape"); SAME(x.reshape(m, n, 2), q2, "reshape-by-columns");
            A w; for (size_t i = n / 2; i < n; i++) w.push_back(std::vector<double>(a[i].begin() + m / 2, a[i].end())); std::pair<size_t, size_t> pr(n / 2, n - 1), pc(m / 2, m - 1); SAME(x.sub(pr, pc), w, "window"); SAME(x.copy(n / 2, n, m / 2, m), w, "copied-window");
            if (n <= 20) { A u = made(2, 3, k), kr = arr(2 * n, 3 * m); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) for (size_t p = 0; p < 2; p++) for (size_t r = 0; r < 3; r++) kr[i * 2 + p][j * 3 + r] = a[i][j] * u[p][r]; Dyn du = dyn<Real>(u); SAME(x.kron(du), kr, "kronecker"); }
            A ca = made(n, 1, k), cb = made(m, 1, k + 1), r = arr(n + m - 1, 1); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) r[i + j][0] += ca[i][0] * cb[j][0]; Dyn dca = dyn<Real>(ca), dcb = dyn<Real>(cb); SAME(dca.convolute(dcb), r, "convolution");
        }
        // a matrix with one leading entry in each row, the rows in any order, has an inverse
        if (n <= 40) for (size_t turn : {size_t(0), size_t(1), n / 2, n - 1}) {
            A a = made(n, n, k); for (size_t i = 0; i < n; i++) a[i][(i + turn) % n] = 13. * n + i; Dyn m = dyn<Real>(a), inv = m.invert(); SAME(m, a, "invert-keeps-operand"); A ia = toA(inv); MC_CHECK(close(mul(a, ia), eye(n), 1e-8) && close(mul(ia, a), eye(n), 1e-8), "inverse", turn); mc::step(2);
            if (n > 1) { A sg = a; sg[n - 1] = sg[0]; Dyn bad = dyn<Real>(sg); bool threw = false; try { bad.invert(); } catch (...) { threw = true; } MC_CHECK(threw || n > 2, "singular-accepted", turn); SAME(bad, sg, "refused-inverse-keeps-operand"); }
            MC_CHECK(!m.isSymmetric() || tr(a) == a, "symmetric", ""); A sy = add(a, tr(a)); MC_CHECK(dyn<Real>(sy).isSymmetric(), "symmetric", ""); if (n > 1) { sy[n - 1][n - 2] += 1; MC_CHECK(!dyn<Real>(sy).isSymmetric(), "symmetric", "last entry"); }
        }
        // lists of rows, with entries of every magnitude
        for (double big : {1., 1000., 70000., 3e9, 1e13}) for (size_t w : {1, 2, 4}) {
            A a = arr(n, w); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < w; j++) a[i][j] = double((i * (5 + k) + j * i * 3 + i / 3) % (k == 0 ? n + 3 : k == 1 ? 4 : n / 2 + 1)) * big + (j == 1 ? 3 : 0);
            A s = a; std::sort(s.begin(), s.end()); A u = s; u.erase(std::unique(u.begin(), u.end()), u.end());
            DynU m = dyn<size_t>(a); m.sortRows(); SAME(m, s, "sorted-whole-rows"); DynU mo = dyn<size_t>(a); mo.sortRows_omp(0, w - 1); SAME(mo, s, "sorted"); m.removeRepeatedSortedRows(); SAME(m, u, "repeated-removed"); DynU m2 = dyn<size_t>(a); m2.sortAndRemoveRepeatedRows(); SAME(m2, u, "sorted-and-repeated-removed"); DynU m3 = dyn<size_t>(a); m3.sortAndRemoveRepeatedRows_omp(); SAME(m3, u, "sorted-and-repeated-removed-omp");
            for (size_t i = 0; i < u.size(); i++) { std::vector<size_t> key(u[i].begin(), u[i].end()); size_t want = std::find(s.begin(), s.end(), u[i]) - s.begin(); DynU sd = mo; MC_CHECK(sd.findFirstOcurrenceInColumns(key.data(), 0, w) == want, "first-occurrence", i); MC_CHECK(m.findFirstOcurrenceInColumns(key.data(), 0, w) == i, "first-occurrence", i << " of the distinct"); key[w - 1] += 1; double kv = double(key[w - 1]); std::vector<double> kd(u[i]); kd[w - 1] = kv; auto it = std::find(s.begin(), s.end(), kd); MC_CHECK(sd.findFirstOcurrenceInColumns(key.data(), 0, w) == (it == s.end() ? n : size_t(it - s.begin())), "first-occurrence", "next to " << i); mc::step(3); if (n > 40 && i > 5) i += n / 20; }
            for (size_t cut : {size_t(1), n / 3, n / 2, n - 1}) if (cut >= 1 && cut < n) { A p(a.begin(), a.begin() + cut), q(a.begin() + cut, a.end()); std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); DynU dp = dyn<size_t>(p), dq = dyn<size_t>(q); dp.mergeSortedRows(dq, 0, w - 1); SAME(dp, s, "merged"); SAME(dq, q, "merge-keeps-operand"); }
        }
        mc::outcome("sizes"); mc::state(MC_STR("size " << n << k));
    });
}
static void body() {
    sizes();
    square<1>({-2, -1, 0, 1, 2, 0.5, 8}, "square"); square<2>({-2, -1, 0, 1, 2, 0.5}, "square"); square<3>({-1, 0, 1}, "square");
    if (mc::thorough()) { square<3>({-2, 0, 1, 4}, "square"); square<4>({0, 1}, "square"); }
    else square<4>({0, 1}, "square");
    shape<1, 1>({-2, -1, 0, 1, 2}); shape<1, 2>({-2, -1, 0, 1, 2}); shape<2, 1>({-2, -1, 0, 1, 2}); shape<1, 3>({-1, 0, 2}); shape<3, 1>({-1, 0, 2}); shape<2, 2>({-2, -1, 0, 1, 2}); shape<2, 3>({-1, 0, 2}); shape<3, 2>({-1, 0, 2}); shape<4, 1>({-1, 0, 2}); shape<4, 2>({1, 2}); shape<4, 3>({-1, 2}); if (mc::thorough()) shape<3, 3>({-1, 0, 2}); else shape<3, 3>({-1, 2});
    pairs<1, 1, 1>({-2, -1, 0, 1, 2}); pairs<2, 2, 2>({-1, 0, 2}); pairs<1, 2, 3>({-1, 2}); pairs<2, 3, 1>({-1, 2}); pairs<3, 2, 2>({-1, 2}); pairs<3, 1, 2>({-1, 0, 2}); pairs<2, 1, 3>({-1, 0, 2}); if (mc::thorough()) { pairs<2, 3, 2>({-1, 2}); pairs<3, 2, 3>({-1, 2}); }
    for (size_t n = 1; n <= 5; n++) for (size_t m = 1; m <= 5; m++) if (n + m <= (size_t) mc::pick(6, 8)) convolutions(n, m, {-1, 0, 2});
    for (size_t n = 1; n <= (size_t) mc::pick(4, 5); n++) rowLists(n, 2, 3); for (size_t n = 1; n <= (size_t) mc::pick(7, 9); n++) rowLists(n, 1, 3); for (size_t n = 1; n <= 3; n++) rowLists(n, 3, 2); if (mc::thorough()) rowLists(4, 3, 2);
    vectors({-2, -1, 0, 0.5, 1, 3}); if (mc::thorough()) vectors({-7, -0.25, 0, 1e-3, 2, 1e5, 5e5});
    rounding();
}
int main(int c, char** v) { return mc::main_(c, v, body); }

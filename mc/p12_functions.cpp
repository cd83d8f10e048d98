// P12 Polynomials, time functions, interpolation, discrete transform and spacing.
#include "mc.h"
#include "core/math/function/Polynomial.h"
#include "core/math/function/LinearInterpolation.h"
#include "core/math/function/Gaussian.h"
#include "core/math/function/BandLimited.h"
#include "core/math/util/DTFT.h"
#include "core/math/util/SpaceGenerator.h"
#include "core/math/util/Statistic.h"
#include <fstream>
#include <complex>
#include <memory>
using namespace SEMBA;
using namespace SEMBA::Math;
typedef Function::Polynomial<Real> Pol;
typedef std::vector<Int> Pw;
typedef std::map<Pw, double> Ref;
typedef Function::LinearInterpolation<Real, Real> Lin;
typedef std::complex<double> C;

static void clean(Ref& r) { for (auto i = r.begin(); i != r.end();) if (i->second == 0) i = r.erase(i); else ++i; }
static Ref refOf(const Pol& p) { Ref r; for (size_t m = 0; m < p.numberOfMonomials(); m++) { Pw w; for (size_t v = 0; v < p.numberOfVariables(); v++) w.push_back(p.monomialPower(m, v)); r[w] += p.monomialValue(m); } clean(r); return r; }
static std::string str(const Ref& r) { std::ostringstream o; o << std::setprecision(12); for (auto& x : r) o << x.second << mc::vec(x.first) << " "; return o.str(); }
static bool same(const Ref& a, const Ref& b) { if (a.size() != b.size()) return false; auto i = a.begin(); for (auto& x : b) { if (i->first != x.first || !mc::near(i->second, x.second)) return false; ++i; } return true; }
static double ev(const Ref& r, const std::vector<double>& z) { double s = 0; for (auto& x : r) { double t = x.second; for (size_t i = 0; i < z.size(); i++) for (int k = 0; k < x.first[i]; k++) t *= z[i]; s += t; } return s; }
static Ref times(const Ref& a, const Ref& b, bool outer) {
    Ref r; for (auto& x : a) for (auto& y : b) { Pw w = x.first; if (outer) w.insert(w.end(), y.first.begin(), y.first.end()); else for (size_t i = 0; i < w.size(); i++) w[i] += y.first[i]; r[w] += x.second * y.second; }
    clean(r); return r;
}
static void der(Ref& r, size_t v) { Ref q; for (auto x : r) if (x.first[v]) { double c = x.second * x.first[v]; Pw w = x.first; w[v]--; q[w] += c; } clean(q); r = q; }
static void checkPol(const Pol& p, const Ref& r, size_t nv) {
    mc::step(); MC_REQUIRE(p.numberOfVariables() == nv, "variables", p.numberOfVariables() << " expected " << nv);
    Ref got = refOf(p); MC_REQUIRE(same(got, r), "monomials", str(got) << " expected " << str(r));
    Int mx = 0; for (auto& x : r) for (Int q : x.first) mx = std::max(mx, q); MC_CHECK(p.maxPower() >= mx, "greatest-power", p.maxPower());
    for (double x : {-1.5, 0., 2.}) for (double y : {-1., 0.5}) {
        std::vector<double> z = {x, y, x - y, 0.25}; z.resize(nv); double v = nv == 1 ? p.eval(Vector::Cartesian<Real, 1>(x)) : nv == 2 ? p.eval(Vector::Cartesian<Real, 2>(z.data())) : nv == 3 ? p.eval(CVecR3(z.data())) : p.eval(CVecR4(z.data()));
        MC_CHECK(mc::near(v, ev(r, z)), "value", mc::vec(z) << " " << v << " expected " << ev(r, z)); if (nv == 1) MC_CHECK(p(x) == v, "value-of-number", "");
        if (nv == 1) break;
    }
    std::unique_ptr<Pol> c(p.clone()); MC_CHECK(*c == p, "clone-equal", ""); c->addMonomial(5, Pw(nv, 7)); MC_CHECK(!(*c == p) && same(refOf(p), r), "clone-independent", "");
    Pol a; a = p; a = *&a; MC_CHECK(a == p && p == a, "assigned-equal", "");
    mc::state(MC_STR(nv << str(r)));
}
struct Op { std::string name; std::function<void(Pol&, Ref&)> f; };
static Pol make(size_t nv, const Ref& r) { Pol p(nv); for (auto& x : r) p.addMonomial(x.second, x.first); return p; }
static void histories(size_t nv, unsigned depth) {
    std::vector<Op> ops;
    std::vector<Pw> pws; for (Int a = 0; a <= 2; a++) { if (nv == 1) pws.push_back({a == 2 ? 3 : a}); else for (Int b = 0; b <= 1; b++) pws.push_back({a, b}); }
    for (auto& w : pws) for (double v : {2., -1., 0.}) {
        if (v == 0 && w[0] == 0) continue; if (nv == 2 && v == 2 && w[0] == 1) continue;
        ops.push_back({MC_STR("add " << v << mc::vec(w)), [=](Pol& p, Ref& r) { if (nv == 1 && v < 0) p.addMonomial(v, w[0]); else p.addMonomial(v, w); r[w] += v; clean(r); }});
    }
    for (size_t d = 0; d < nv; d++) ops.push_back({MC_STR("derive " << d), [=](Pol& p, Ref& r) { p.derive(d); der(r, d); for (size_t m = 0; m < p.numberOfMonomials(); m++) MC_CHECK(p.monomialValue(m) != 0, "derivative-keeps-zeros", m); }});
    ops.push_back({"remove zeros", [=](Pol& p, Ref&) { p.removeZeros(); for (size_t m = 0; m < p.numberOfMonomials(); m++) MC_CHECK(p.monomialValue(m) != 0, "zeros-left", m); }});
    ops.push_back({"divide by 4", [=](Pol& p, Ref& r) { p /= 4; for (auto& x : r) x.second /= 4; }});
    if (nv == 1) for (Ref f : {Ref{{{0}, 1.}, {{1}, 1.}}, Ref{{{2}, 1.}, {{0}, -3.}}, Ref{{{4}, 0.5}}, Ref{{{0}, -2.}}, Ref{}}) {
        ops.push_back({"times " + str(f), [=](Pol& p, Ref& r) { Pol q = make(1, f); Pol t = p * q, u = q * p; Ref want = times(r, f, false); MC_CHECK(same(refOf(t), want) && same(refOf(u), want), "product", str(refOf(t)) << " " << str(refOf(u)) << " expected " << str(want)); MC_CHECK(same(refOf(q), f), "operand-changed", ""); p *= q; r = want; }});
    }
    for (size_t len = 1; len <= depth; len++) mc::sequences(ops.size(), len, [&](const std::vector<unsigned>& s) {
        mc::run([&] { std::string d = MC_STR(nv << " variables:"); for (auto i : s) d += " " + ops[i].name + ";"; return d; }, [&] {
            Pol p(nv); Ref r; for (auto i : s) { ops[i].f(p, r); checkPol(p, r, nv); }
            mc::outcome(r.empty() ? "zero polynomials" : "polynomials");
        });
    });
}
static void outer() {
    std::vector<Ref> fs = {Ref{}, Ref{{{0}, 2.}}, Ref{{{1}, 1.}, {{0}, -1.}}, Ref{{{3}, .5}, {{1}, 4.}}, Ref{{{2}, -1.}}};
    for (size_t a = 0; a < fs.size(); a++) for (size_t b = 0; b < fs.size(); b++) for (size_t c = 0; c <= fs.size(); c++) for (size_t d = 0; d <= fs.size(); d++) {
        if (c == fs.size() && d != c) continue;
        mc::run([&] { return MC_STR("outer product " << a << b << c << d); }, [&] {
            Pol p = make(1, fs[a]); Ref r = fs[a]; size_t nv = 1; std::vector<size_t> f = {b}; if (c < fs.size()) f.push_back(c); if (d < fs.size()) f.push_back(d);
            for (size_t i : f) { Pol q = make(1, fs[i]); Ref want = times(r, fs[i], true); Pol t = p ^ q; checkPol(t, want, nv + 1); MC_CHECK(same(refOf(p), r), "operand-changed", ""); p ^= q; r = want; nv++; checkPol(p, r, nv); }
            for (size_t v = 0; v < nv; v++) { Pol q = p; Ref g = r; q.derive(v); der(g, v); checkPol(q, g, nv); }
            mc::outcome("outer products");
        });
    }
    mc::run([&] { return std::string("polynomials of different variables"); }, [&] {
        Pol a(1), b(2); mc::step(); Function::Gaussian g(1, 2); MC_CHECK(!(a == g) && !(g == a), "other-function", ""); a.addMonomial(1, Pw{1}); b.addMonomial(1, Pw{1, 0}); MC_CHECK(!(a == b), "different-variables", "");
    });
}
// -------------------------------------------------------- interpolation
typedef std::vector<std::pair<Real, Real>> XY;
static double lin(const std::map<double, double>& m, double x) {
    auto i = m.lower_bound(x); if (i == m.end()) return m.rbegin()->second; if (i == m.begin() || i->first == x) return i->second;
    auto j = std::prev(i); return j->second + (i->second - j->second) * (x - j->first) / (i->first - j->first);
}
static void checkLin(const Lin& l, const std::map<double, double>& m) {
    std::vector<double> xs = {-1e9, 1e9, 0}; for (auto& p : m) { xs.push_back(p.first); xs.push_back(p.first + 0.3); xs.push_back(p.first - 1e-3); xs.push_back(p.first + 5); }
    for (double x : xs) { mc::step(); MC_CHECK(mc::near(l(x), lin(m, x), 1e-8), "interpolated", x << " " << l(x) << " expected " << lin(m, x)); }
    std::unique_ptr<Lin> c(l.clone()); MC_CHECK(*c == l && mc::near((*c)(0.7), lin(m, 0.7), 1e-8), "interpolation-clone", "");
    std::ostringstream o; for (auto& p : m) o << p.first << "," << p.second << " "; mc::state(o.str());
}
static void interpolation() {
    std::vector<double> xs = {-2, 0, 0.5, 3, 10};
    for (size_t n = 1; n <= (size_t) mc::pick(3, 4); n++) mc::sequences(10, n, [&](const std::vector<unsigned>& s) { mc::run([&] { return MC_STR("interpolation of points " << mc::vec(s)); }, [&] {
        XY xy; std::map<double, double> m; for (auto i : s) { std::pair<Real, Real> p(xs[i % 5], i / 5 ? 4 : -1.5); xy.push_back(p); m.insert(p); }
        Lin l(xy); checkLin(l, m); XY other = xy; other[0].second += 1; Lin k(other); MC_CHECK(!(k == l), "different-interpolations", ""); mc::outcome("interpolations");
    }); });
    mc::run([&] { return std::string("interpolation of nothing"); }, [&] { Lin l; mc::step(); MC_CHECK(MC_THROWS(l(1.0)), "interpolation-of-nothing", ""); });
    // files: how the numbers are separated, what follows the last
    const char* seps[] = {" ", "\t", "\n", "  \n ", "\r\n"}; const char* ends[] = {"", "\n", "\n\n", " ", "\r\n", " \n \t"}; const char* starts[] = {"", "\n", "  "};
    int k = 0; for (auto st : starts) for (auto s1 : seps) for (auto s2 : seps) for (auto e : ends) for (unsigned n = 1; n <= 4; n++) for (int from : {-3, 0, 2}) mc::run([&] { return MC_STR("file of " << n << " points from " << from << " start '" << st << "' between '" << s1 << "' lines '" << s2 << "' end '" << e << "'"); }, [&] {
        std::map<double, double> m; std::ostringstream o; o << st; for (unsigned i = 0; i < n; i++) { double x = from + 1.5 * i, y = 2 - 3.0 * i; m[x] = y; if (i) o << s2; o << x << s1 << y; } o << e;
        { std::ofstream f("points.txt"); f << o.str(); } Lin l(std::string("points.txt")); checkLin(l, m); XY xy(m.begin(), m.end()); Lin d(xy); MC_CHECK(d == l, "file-equals-list", ""); mc::outcome("files"); k++;
    });
    for (const char* bad : {"", "\n", "   ", "x", "time value\n1 2\n", "one two"}) mc::run([&] { return MC_STR("file without points '" << bad << "'"); }, [&] { { std::ofstream f("bad.txt"); f << bad; } mc::step(); MC_CHECK(MC_THROWS(Lin(std::string("bad.txt"))), "file-without-points", ""); });
    mc::run([&] { return std::string("no file"); }, [&] { mc::step(); MC_CHECK(MC_THROWS(Lin(std::string("does-not-exist.txt"))), "no-file", ""); });
}
// ------------------------------------------------------ time functions
static void pulses() {
    for (double sp : {0.25, 0.5, 2.}) for (double de : {0., 1., 5., -3.}) for (double fr : {0., 0.5, 3.}) mc::run([&] { return MC_STR("gaussian " << sp << " " << de << " " << fr); }, [&] {
        Function::Gaussian g(sp, de, fr); MC_CHECK(g.getSpread() == sp && g.getDelay() == de && g.getFreq() == fr, "gaussian-parameters", "");
        auto f = [&](double t) { return std::exp(-(t - de) * (t - de) / (2 * sp * sp)) * std::cos(2 * M_PI * fr * t); };
        for (int i = -20; i <= 20; i++) { double t = de + i * sp / 4; mc::step(); MC_CHECK(mc::near(g(t), f(t)) && g.eval(t) == g(t), "gaussian-value", t << " " << g(t)); mc::state(MC_STR(sp << de << fr << g(t))); }
        for (double q : {0., 0.1, 0.3, 0.7, -0.4, 3.1}) {
            C s = 0; double h = sp / 64; for (int i = -640; i <= 640; i++) { double t = de + i * h; s += f(t) * std::exp(C(0, -2 * M_PI * q * t)) * h; } mc::step();
            C v = g.getFourier(q); MC_CHECK(std::abs(v - s) < 1e-7 * (1 + sp), "gaussian-fourier", q << " " << v.real() << "+i" << v.imag() << " expected " << s.real() << "+i" << s.imag());
        }
        std::unique_ptr<Function::Gaussian> c(g.clone()); MC_CHECK(*c == g, "gaussian-clone", ""); Function::Gaussian a(sp + 1, de, fr), b(sp, de + 1, fr), d(sp, de, fr + 1); MC_CHECK(!(a == g) && !(b == g) && !(d == g), "different-gaussians", ""); mc::outcome("gaussians");
    });
    for (double f : {1e-3, 1., 2.5e9}) mc::run([&] { return MC_STR("gaussian of maximum frequency " << f); }, [&] { auto g = Function::Gaussian::buildFromMaximumFrequency(f); mc::step(); MC_CHECK(g.getFreq() == 0 && g.getSpread() > 0 && std::fabs(g(0)) < 1e-7 && mc::near(g(g.getDelay()), 1), "gaussian-of-frequency", ""); double at = std::abs(g.getFourier(f)) / std::abs(g.getFourier(0)); MC_CHECK(at > 0.1 && at < 0.9, "gaussian-band", at); });
    for (double f : {0., -1.}) mc::run([&] { return MC_STR("gaussian of maximum frequency " << f); }, [&] { mc::step(); MC_CHECK(MC_THROWS(Function::Gaussian::buildFromMaximumFrequency(f)), "gaussian-without-band", ""); });
    std::vector<double> fs = {-1, 0, 0.5, 2, 1e9, 3e9};
    for (double lo : fs) for (double hi : fs) mc::run([&] { return MC_STR("band " << lo << " " << hi); }, [&] {
        mc::step(); if (!(lo > 0 && hi > lo)) { MC_CHECK(MC_THROWS(Function::BandLimited(lo, hi)), "bad-band", ""); mc::outcome("bad bands"); return; }
        Function::BandLimited b(lo, hi); double de = 20 / lo, sp = 10 / hi, w = (hi - lo) / 2, c = (hi + lo) / 2;
        for (int i = -24; i <= 24; i++) { double t = de + i * sp / 8, d = t - de, x = 2 * M_PI * w * d, want = (x == 0 ? 1 : std::sin(x) / x) * std::exp(-d * d / (2 * sp * sp)) * std::cos(2 * M_PI * c * d); mc::step(); MC_CHECK(mc::near(b(t), want, 1e-8), "band-value", t << " " << b(t) << " expected " << want); mc::state(MC_STR(lo << hi << b(t))); }
        std::unique_ptr<Function::BandLimited> k(b.clone()); MC_CHECK(*k == b, "band-clone", ""); Function::BandLimited o(lo, hi * 2); MC_CHECK(!(o == b), "different-bands", ""); Function::Gaussian g(1, 1); MC_CHECK(!(b == g) && !(g == b), "other-function", ""); mc::outcome("bands");
    });
}
static void samples() {
    for (size_t n = 1; n <= (size_t) mc::pick(5, 6); n++) mc::sequences(4, n, [&](const std::vector<unsigned>& s) { mc::run([&] { return MC_STR("samples " << mc::vec(s)); }, [&] {
        double vals[4] = {-2, 0, 1, 4.5}; std::vector<std::pair<Real, C>> d; std::vector<Real> v; double t = -0.5; for (size_t i = 0; i < n; i++) { d.push_back({t, C(vals[s[i]], i * 0.25)}); v.push_back(vals[s[i]]); t += 0.2 + 0.1 * i; }
        for (double f : {0., 0.5, -2., 3.3}) { C w = 0; for (auto& p : d) w += p.second * std::exp(C(0, -2 * M_PI * f * p.first)); w = w / double(n) * (d.back().first - d.front().first); mc::step(); C g = Util::getDTFT(d, f); MC_CHECK(std::abs(g - w) < 1e-9, "transform", f << " " << g.real()); }
        double su = 0; for (double x : v) su += x; MC_CHECK(mc::near(Util::sum(v), su) && mc::near(Util::mean(v), su / n) && mc::near(Util::meanDifference(v), n == 1 ? 0 : (v.back() - v[0]) / (n - 1)), "statistics", ""); mc::step(3); mc::state(mc::vec(v)); mc::outcome("samples");
    }); });
    for (size_t n = 1; n <= 40; n++) for (double a : {-3., 0., 1.5}) for (double b : {-3., 2., 7.25}) mc::run([&] { return MC_STR(n << " points from " << a << " to " << b); }, [&] {
        auto l = Util::linspace(std::pair<Real, Real>(a, b), n); auto g = Util::logspace(std::pair<Real, Real>(a, b), n); mc::step(2); MC_REQUIRE(l.size() == n && g.size() == n, "spacing-size", l.size());
        for (size_t i = 0; i < n; i++) { double x = n == 1 ? b : a + (b - a) * i / (n - 1); MC_CHECK(mc::near(l[i], x), "linear-spacing", i); MC_CHECK(mc::near(g[i] / std::pow(10, x), 1), "logarithmic-spacing", i); }
        mc::outcome("spacings");
    });
}
// the coefficients in a matrix: powers of the first variable by rows, of the second by columns
static void matrices() {
    const double vals[4] = {0, 1, -2.5, 4};
    for (unsigned R = 1; R <= 3; R++) for (unsigned Q = 1; Q <= 3; Q++) {
        if (R * Q > mc::pick(6u, 6u)) continue;
        mc::sequences(4, R * Q, [&](const std::vector<unsigned>& s) { mc::run([&] { return MC_STR("matrix of " << R << " by " << Q << ": " << mc::vec(s)); }, [&] {
            Matrix::Dynamic<Real> m(R, Q); Ref r;
            for (unsigned i = 0; i < R; i++) for (unsigned j = 0; j < Q; j++) { double v = vals[s[i * Q + j]]; m(i, j) = v; if (v != 0) r[Q == 1 ? Pw{Int(i)} : Pw{Int(i), Int(j)}] = v; }
            for (size_t on = 0; on <= 2; on++) {
                const Pol from(on); Pol p = from.matrixToPolynomial(m);
                checkPol(p, r, Q == 1 ? 1 : 2);
                for (size_t k = 0; k < p.numberOfMonomials(); k++) MC_CHECK(p.monomialValue(k) != 0, "zeros-of-matrix", "");
                if (Q == 1) {
                    Matrix::Dynamic<Real> b = p.polynomialToMatrix(); mc::step();
                    MC_REQUIRE(b.nCols() == 1 && Int(b.nRows()) == p.maxPower() + 1, "matrix-of-polynomial", b.nRows() << "x" << b.nCols());
                    for (unsigned i = 0; i < std::max<size_t>(R, b.nRows()); i++) MC_CHECK((i < b.nRows() ? b(i, 0) : 0) == (i < R ? m(i, 0) : 0), "matrix-of-polynomial", i);
                    Pol q = p; q.addMonomial(3, R); q.addMonomial(1, Int(0)); q.addMonomial(-1, Int(R)); Matrix::Dynamic<Real> d = q.polynomialToMatrix();
                    MC_REQUIRE(d.nRows() == R + 1, "matrix-of-polynomial", ""); for (unsigned i = 0; i <= R; i++) MC_CHECK(d(i, 0) == (i == R ? 2 : m(i, 0) + (i == 0)), "matrix-of-sum", i);
                }
            }
            double v[3]; if (Q == 1) { for (unsigned i = 0; i < R; i++) v[i] = m(i, 0); Pol w = Pol(1).vectorToPolynomial(v, R, 1); checkPol(w, r, 1); }
            mc::outcome("polynomials of matrices");
        }); });
    }
}
// the same questions on polynomials, tables and samples of every size of a ladder, and on numbers of other magnitudes
static void sizes() {
    std::vector<size_t> S; for (size_t n = 1; n <= 36; n++) S.push_back(n); for (size_t n : {64, 65, 100, 128, 129, 257}) S.push_back(n);
    for (size_t n : S) for (int k = 0; k < 3; k++) mc::run([&] { return MC_STR("size " << n << " of kind " << k); }, [&] {
        for (size_t nv = 1; nv <= 4; nv++) { // n monomials of different powers, then added twice
            Pol p(nv); Ref r; for (size_t i = 0; i < n; i++) { Pw w(nv, 0); w[0] = Int(i % (nv == 1 ? 300 : 7)); for (size_t v = 1; v < nv; v++) w[v] = Int((i / 7 + v * (k + 1) * i) % (4 + n / 10)); double c = double((i * 5 + k) % 11) - 5; p.addMonomial(c, w); r[w] += c; }
            clean(r); mc::step(); MC_REQUIRE(same(refOf(p), r), "monomials", str(refOf(p)) << " expected " << str(r));
            Pol t(p); t.removeZeros(); MC_CHECK(same(refOf(t), r), "monomials", ""); for (size_t i = 0; i < t.numberOfMonomials(); i++) MC_CHECK(t.monomialValue(i) != 0, "zeros-left", i); for (size_t v = 0; v < nv; v++) { Pol q = p; Ref g = r; q.derive(v); der(g, v); mc::step(); MC_CHECK(same(refOf(q), g), "derivative", v << " " << str(refOf(q))); }
            std::vector<double> z = {0.5, -1, 0.25, 1}; z.resize(nv); double v = nv == 1 ? p.eval(Vector::Cartesian<Real, 1>(z[0])) : nv == 2 ? p.eval(Vector::Cartesian<Real, 2>(z.data())) : nv == 3 ? p.eval(CVecR3(z.data())) : p.eval(CVecR4(z.data())); MC_CHECK(mc::near(v, ev(r, z)), "value", v << " expected " << ev(r, z));
            Pol d = p; d /= 8; Ref e = r; for (auto& x : e) x.second /= 8; MC_CHECK(same(refOf(d), e), "divided", ""); std::unique_ptr<Pol> c(p.clone()); MC_CHECK(*c == p && p == *c, "clone-equal", ""); c->addMonomial(1, Pw(nv, 400)); MC_CHECK(!(*c == p), "clone-independent", "");
            if (nv == 1 && n <= 40) { Ref f; Pol q(1); for (size_t i = 0; i <= n / 2; i++) { f[Pw{Int(i)}] = i + 1. - 2 * (i % 2) * i; q.addMonomial(f[Pw{Int(i)}], Pw{Int(i)}); } clean(f); Ref want = times(r, f, false); Pol m = p * q; MC_CHECK(same(refOf(m), want), "product", ""); m = p; m *= q; MC_CHECK(same(refOf(m), want), "product", ""); Pol o = p ^ q; MC_CHECK(same(refOf(o), times(r, f, true)), "outer-product", ""); mc::step(3); }
        }
        // one monomial of power n, at numbers where it is known exactly
        { Pol p(1); p.addMonomial(3, Int(n)); MC_CHECK(p.maxPower() == Int(n) && p(1) == 3 && p(-1) == (n % 2 ? -3 : 3) && p(0) == 0 && (n > 100 || mc::near(p(2) / std::ldexp(3., int(n)), 1)), "value-of-power", n); p.derive(0); MC_CHECK(p(1) == 3. * n && p.maxPower() == Int(n) - 1, "derivative-of-power", n); mc::step(2); }
        { Matrix::Dynamic<Real> m(n, k == 2 ? 3 : 1); Ref r; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m.nCols(); j++) { m(i, j) = double((i * 3 + j + k) % 5) - 2; if (m(i, j) != 0) r[k == 2 ? Pw{Int(i), Int(j)} : Pw{Int(i)}] = m(i, j); } Pol p = Pol(1).matrixToPolynomial(m); mc::step(); MC_CHECK(same(refOf(p), r), "polynomial-of-matrix", ""); if (k < 2 && !r.empty()) { Matrix::Dynamic<Real> b = p.polynomialToMatrix(); MC_REQUIRE(Int(b.nRows()) == p.maxPower() + 1 && b.nRows() <= n, "matrix-of-polynomial", b.nRows()); for (size_t i = 0; i < n; i++) MC_CHECK((i < b.nRows() ? b(i, 0) : 0) == m(i, 0), "matrix-of-polynomial", i); } }
        // tables given in three orders, of numbers of five magnitudes
        for (double f : {1e-12, 1e-3, 1., 1e6, 1e11}) {
            XY xy; std::map<double, double> m; for (size_t i = 0; i < n; i++) { size_t at = k == 0 ? i : k == 1 ? n - 1 - i : (i * 2) % (n | 1); double x = f * (at * 1.5 + (at % 3) * 0.25 - n / 3.), y = double((at * 7) % 10) - 4.5; xy.push_back({x, y}); m.insert({x, y}); }
            Lin l(xy); for (auto it = m.begin(); it != m.end(); ++it) for (double o : {0., 0.3, -0.2, 0.7}) { double x = it->first + o * f; mc::step(); MC_CHECK(mc::near(l(x), lin(m, x), 1e-7), "interpolated", x << " " << l(x) << " expected " << lin(m, x)); }
            for (double x : {-1e15, 1e15}) MC_CHECK(mc::near(l(x), lin(m, x)), "interpolated", x);
            { std::ofstream o("long.txt"); o << std::setprecision(17); for (auto& p : m) o << p.first << " " << p.second << "\n"; } Lin g(std::string("long.txt")); Lin d(XY(m.begin(), m.end())); MC_CHECK(g == d, "file-equals-list", f); for (auto& p : m) MC_CHECK(mc::near(g(p.first), p.second, 1e-7), "interpolated-file", p.first);
            // transforms and statistics of as many samples
            std::vector<std::pair<Real, C>> s; std::vector<Real> v; for (auto& p : m) { s.push_back({p.first, C(p.second, k)}); v.push_back(p.second); }
            for (double q : {0., 0.13 / f, -1.7 / f}) { C w = 0; for (auto& p : s) w += p.second * std::exp(C(0, -2 * M_PI * q * p.first)); w = w / double(n) * (s.back().first - s.front().first); C gt = Util::getDTFT(s, q); mc::step(); MC_CHECK(std::abs(gt - w) < 1e-8 * (1 + std::abs(w)) * (1 + f), "transform", q); }
            double su = 0; for (double x : v) su += x; MC_CHECK(mc::near(Util::sum(v), su) && mc::near(Util::mean(v), su / n) && mc::near(Util::meanDifference(v), n == 1 ? 0 : (v.back() - v[0]) / (n - 1)), "statistics", ""); mc::step(3);
            double lo = f * (k - 1), hi = f * (k * 2 + 1); auto ls = Util::linspace(std::pair<Real, Real>(lo, hi), n); MC_REQUIRE(ls.size() == n, "spacing-size", ""); for (size_t i = 0; i < n; i++) MC_CHECK(std::fabs(ls[i] - (n == 1 ? hi : lo + (hi - lo) * i / (n - 1))) < 1e-9 * f, "linear-spacing", i);
        }
        // pulses of every width and delay of a decade
        double sp = std::pow(10., double(n % 25) - 12), de = sp * double(n % 7), fr = k / sp; Function::Gaussian g(sp, de, fr); for (int i = -8; i <= 8; i++) { double t = de + i * sp / 2; mc::step(); MC_CHECK(mc::near(g(t), std::exp(-(t - de) * (t - de) / (2 * sp * sp)) * std::cos(2 * M_PI * fr * t), 1e-7), "gaussian-value", sp << " " << i); }
        auto gm = Function::Gaussian::buildFromMaximumFrequency(1 / sp); MC_CHECK(gm.getFreq() == 0 && mc::near(gm.getSpread() / sp, Function::Gaussian::buildFromMaximumFrequency(1).getSpread()) && mc::near(gm.getDelay() / gm.getSpread(), Function::Gaussian::buildFromMaximumFrequency(1).getDelay() / Function::Gaussian::buildFromMaximumFrequency(1).getSpread()), "gaussian-of-frequency-scales", sp);
        mc::outcome("sizes"); mc::state(MC_STR("size " << n << k));
    });
}
static void body() { sizes(); matrices(); histories(1, mc::pick(4, 5)); histories(2, mc::pick(4, 5)); outer(); interpolation(); pulses(); samples(); }
int main(int c, char** v) { return mc::main_(c, v, body); }

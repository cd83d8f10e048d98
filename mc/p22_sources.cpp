// P22: sources and their magnitudes.
#include "geo.h"
#include "source/Group.h"
#include "source/PlaneWave.h"
#include "source/Dipole.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/port/TEMCoaxial.h"
#include "source/port/WaveguideRectangular.h"
#include "source/magnitude/Numerical.h"
#include "math/function/Gaussian.h"
#include "math/function/BandLimited.h"
#include "math/function/LinearInterpolation.h"
#include <fstream>
using namespace geo;
typedef Source::Base Src;
typedef Source::Magnitude::Magnitude Mag;
typedef Source::Magnitude::Numerical Num;
typedef Math::Function::LinearInterpolation<double, double> Interp;
typedef std::string Str;
typedef std::vector<std::pair<double, double>> Table;
static const double PI = std::acos(-1.0), ETA = 376.730313668;
static Str printed(const Class::Printable& p) {
    std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf());
    try { p.printInfo(); } catch (...) { std::cout.rdbuf(old); throw; }
    std::cout.rdbuf(old);
    return o.str();
}
// ---------------------------------------------------------------- magnitudes
static double tableAt(const Table& t, double x) {
    if (x <= t.front().first) return t.front().second;
    for (size_t i = 1; i < t.size(); i++) if (x <= t[i].first)
        return t[i - 1].second + (t[i].second - t[i - 1].second) * (x - t[i - 1].first) / (t[i].first - t[i - 1].first);
    return t.back().second;
}
struct Signal { Str name; std::function<Math::FunctionRR*()> make; std::function<double(double)> value; };
static const std::vector<Signal>& signals() {
    static std::vector<Signal> s;
    if (!s.empty()) return s;
    auto gauss = [&](double spread, double delay, double f, double amp = 1) {
        s.push_back({MC_STR("gaussian(" << spread << "," << delay << "," << f << ")"), [=]() -> Math::FunctionRR* { return new Math::Function::Gaussian(spread, delay, f); },
            [=](double t) { return amp * std::exp(-std::pow((t - delay) / spread, 2) / 2) * std::cos(2 * PI * f * t); }});
    };
    auto table = [&](const Str& n, const Table& t) { s.push_back({n, [=]() -> Math::FunctionRR* { return new Interp(t); }, [=](double x) { return tableAt(t, x); }}); };
    gauss(0.25, 1, 0); gauss(0.5, 0, 2); gauss(2, 3, 0);
    table("ramp", {{-10, -20}, {10, 20}});
    table("constant", {{0, 3}});
    table("zero", {{0, 0}, {1, 0}});
    table("step", {{0, 0}, {1, 0}, {1.25, 1}, {7, 1}});
    table("teeth", {{0, 1}, {0.5, -1}, {1, 1}, {1.5, -1}, {2, 1}});
    table("faint", {{0, 0}, {0.5, 4e-18}, {1, -3e-18}, {3, 0}});
    table("large", {{-1, 1e9}, {0.75, -2e9}, {2, 3e9}});
    return s;
}
static void magnitude() {
    const auto& sig = signals();
    for (size_t a = 0; a < sig.size(); a++) mc::run([=] { return "magnitude " + sig[a].name; }, [&] {
        std::unique_ptr<Mag> m(new Mag(sig[a].make()));
        std::unique_ptr<Mag> c(m->cloneTo<Mag>());
        Mag e; e = *m; e = *m; e = *&e;
        mc::state("mag " + sig[a].name);
        for (size_t b = 0; b < sig.size(); b++) {
            Mag o(sig[b].make());
            MC_CHECK((*m == o) == (a == b) && (o == *m) == (a == b), "magnitude-equality", "with " << sig[b].name);
            o = *m;
            MC_CHECK(o == *m && *m == o && o == *c, "magnitude-assigned", "over " << sig[b].name);
            mc::step(3);
        }
        m.reset();
        for (int i = -4; i <= 40; i++) {
            double t = i * 0.125, w = sig[a].value(t);
            mc::step();
            MC_CHECK(mc::near(c->evaluate(t), w) && mc::near(e.evaluate(t), w), "magnitude-value", "at " << t << ": " << c->evaluate(t) << " expected " << w);
        }
        MC_CHECK(!printed(*c).empty(), "magnitude-print", "");
        // without a function
        Mag none; std::unique_ptr<Mag> n2(none.cloneTo<Mag>()); Mag n3(sig[a].make());
        MC_CHECK(none == *n2 && !(none == *c) && !(*c == none), "magnitude-none-equality", "");
        n3 = none;
        MC_CHECK(n3 == none, "magnitude-none-assigned", "");
        MC_CHECK(MC_THROWS(none.evaluate(1.0)) && MC_THROWS(n2->evaluate(0.0)) && MC_THROWS(n3.evaluate(0.0)), "magnitude-none-evaluated", "a magnitude without function has a value");
        printed(none);
    });
}
// A magnitude exported to a file follows the original at every sampled time.
static void tabulated() {
    const auto& sig = signals();
    const std::vector<double> steps = mc::thorough() ? std::vector<double>{0.125, 0.1, 0.3, 1, 1.0 / 3, 0.05, 0.0123, 0} : std::vector<double>{0.125, 0.1, 0.3, 1, 0};
    const std::vector<double> finals = mc::thorough() ? std::vector<double>{0.3, 0.5, 0.6, 0.7, 1, 1.1, 2, 2.5, 3, 4.7} : std::vector<double>{0.3, 0.7, 1, 2.5, 3};
    for (size_t a = 0; a < sig.size(); a++) for (double st : steps) for (double fin : finals) for (int how = 0; how < 3; how++)
        mc::run([=] { return MC_STR(sig[a].name << " exported with step " << st << " up to " << fin << (how == 0 ? " by construction" : how == 1 ? " by exporting" : " by converting")); }, [&] {
            const FileSystem::Project file("out put.dat");
            std::unique_ptr<Src> s(new Source::OnLine(new Mag(sig[a].make()), Element::Group<const Lin>(), Source::OnLine::electric, Source::OnLine::soft));
            std::unique_ptr<const Num> own; const Mag* base; const Num* num;
            if (how == 0) { own.reset(new Num(file, *s->getMagnitude(), st, fin)); num = own.get(); }
            else if (how == 1) { own.reset(s->exportToFile(file, st, fin)); num = own.get(); MC_CHECK(!s->magnitudeIs<Num>(), "export-changes-source", ""); }
            else { s->convertToNumerical(file, st, fin); MC_REQUIRE(s->magnitudeIs<Num>(), "not-converted", ""); num = s->getMagnitude()->castTo<Num>(); MC_CHECK(s->getMagnitudeFilename() == file, "converted-filename", s->getMagnitudeFilename()); }
            base = num;
            MC_CHECK(num->getFilename() == file, "numerical-filename", num->getFilename());
            const Num again(file);
            MC_CHECK(again == *num && *num == again, "numerical-read-again", "a magnitude read again from the file differs");
            std::unique_ptr<Num> copy(num->cloneTo<Num>());
            MC_CHECK(*copy == *num && copy->getFilename() == file, "numerical-copy", "");
            // assigned over one of another file, over none and to itself
            { const FileSystem::Project other("other.dat");
              Num b(other, Mag(sig[(a + 1) % sig.size()].make()), 0.5, 2), e, k(other, *num, 0.5, 2);
              Num& ret = (b = *num); e = *num; b = *&b;
              mc::step(3);
              MC_CHECK(&ret == &b, "numerical-assigned", "");
              for (const Num* q : {(const Num*) &b, (const Num*) &e, (const Num*) &k}) {
                  MC_CHECK(*q == *num && *num == *q && q->getFilename() == file, "numerical-assigned", q->getFilename());
                  for (double t : {0.0, fin / 3, fin / 2, fin}) MC_CHECK(q->evaluate(t) == num->evaluate(t), "numerical-assigned", "at " << t);
              } }
            double step = st == 0 ? fin / 1000 : st;
            double scale = 0;
            size_t n = 0;
            for (; n * step <= fin * (1 + 1e-12); n++) scale = std::max(scale, std::fabs(sig[a].value(n * step)));
            MC_CHECK(n * step > fin, "harness", "");
            for (size_t k = 0; k < n; k++) {
                double t = k * step, w = sig[a].value(t);
                mc::step();
                double g = base->evaluate(t);
                // ten decimals are written, of the times too
                double slope = 0;
                for (int d = -1; d <= 1; d += 2) slope = std::max(slope, std::fabs(sig[a].value(t + d * step) - w) / step);
                double tol = 1e-9 * scale + slope * 1e-9 * fin;
                MC_REQUIRE(std::fabs(g - w) <= tol, "tabulated-value", "at " << t << ": " << g << " expected " << w);
                MC_CHECK(num->evaluate(t) == g && copy->evaluate(t) == g, "numerical-evaluate", "");
            }
            // and it reaches the final time
            { double k = std::floor(fin / step * (1 + 1e-12)), t0 = k * step, t1 = (k + 1) * step, u = std::max(0.0, (fin - t0) / step);
              double a0 = sig[a].value(t0), a1 = sig[a].value(t1), w = a0 + (a1 - a0) * u, g = base->evaluate(fin);
              MC_CHECK(u < 1e-9 || std::fabs(g - w) <= 1e-8 * (scale + std::fabs(a1)) + std::fabs(a1 - a0) / step * 1e-8 * fin, "tabulated-end", "at the final time " << fin << ": " << g << " expected " << w); }
            // it does not compare as a magnitude of another function
            for (const auto& o : sig) {
                double worst = 0;
                for (size_t k = 0; k < n; k++) worst = std::max(worst, std::fabs(o.value(k * step) - sig[a].value(k * step)));
                if (worst < 1e-3) continue;
                const Mag other(o.make());
                MC_CHECK(!(other == *base) && !(*base == other), "magnitude-of-other-function", "equals " << o.name);
            }
            mc::state(MC_STR("table " << a << " " << st << " " << fin)); mc::outcome("magnitude exported");
        });
}
// Tables of other values differ wherever their files are.
static void files() {
    static const char* const names[] = {"x.dat", "one/x.dat", "two/x.dat", "one/y.dat", "one/two/x.dat"};
    for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int how = 0; how < 2; how++) mc::run([=] { return MC_STR("tables of the files " << names[a] << " and " << names[b] << (how ? " read" : " exported")); }, [&] {
        mkdir("one", 0777); mkdir("two", 0777); mkdir("one/two", 0777);
        std::vector<std::unique_ptr<Num>> v;
        for (int k : {a, b}) {
            const FileSystem::Project f(names[k]);
            Mag m(new Interp(Table{{0, 1.0 + k}, {1, 2.0 + k}}));
            v.emplace_back(new Num(f, m, 0.25, 1));
            if (how) v.back().reset(new Num(f));
        }
        mc::step();
        MC_CHECK((*v[0] == *v[1]) == (a == b) && (*v[1] == *v[0]) == (a == b), "numerical-equality", "");
        const Mag &x = *v[0], &y = *v[1];
        MC_CHECK((x == y) == (a == b) && (y == x) == (a == b), "numerical-equality", "as magnitudes");
        for (int j = 0; j < 2; j++) { std::unique_ptr<Num> c(v[j]->cloneTo<Num>()); MC_CHECK(*c == *v[j] && (*c == *v[1 - j]) == (a == b), "numerical-copy-equality", "");
            for (double t : {0.0, 0.5, 1.0}) MC_CHECK(mc::near(c->evaluate(t), 1.0 + (j ? b : a) + t), "numerical-copy-value", c->evaluate(t) << " at " << t); }
        mc::outcome("tables compared");
    });
}
// ---------------------------------------------------------------- plane waves
static void checkWave(const Source::PlaneWave& pw, const R3& dir, const R3& pol, const Signal& sig, double tol = 1e-9) {
    for (int i = -2; i < 12; i++) {
        double t = i * 0.375, v = sig.value(t);
        mc::step();
        R3 e = pw.getElectricField(t);
        auto eh = pw.getElectromagneticField(t);
        double sc = std::max(norm(pol) * std::fabs(v), 1e-300);
        auto close = [&](const R3& a, const R3& b) { return norm(sub(a, b)) <= 1e-9 * sc; };
        MC_CHECK(close(e, mul(pol, v)), "wave-electric", p(e) << " at " << t);
        MC_CHECK(close(eh.first, e), "wave-electric-of-pair", p(eh.first));
        R3 want = mul(cross(mul(dir, 1 / norm(dir)), e), 1 / ETA);
        R3 diff = sub(eh.second, want);
        MC_CHECK(norm(diff) * ETA <= 1e-7 * sc, "wave-magnetic", p(eh.second) << " at " << t << " expected " << p(want));
    }
}
static void wave() {
    std::vector<R3> dirs;
    for (int i = 0; i < 27; i++) dirs.push_back(R3(i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1));
    if (mc::thorough()) { dirs.push_back(R3(1, 2, 3)); dirs.push_back(R3(3, 0, -1)); dirs.push_back(R3(-2, 1, 0)); dirs.push_back(R3(0.1, 0.2, 0.3)); dirs.push_back(R3(5, -4, 1)); }
    else { dirs.push_back(R3(0.1, 0.2, 0.3)); dirs.push_back(R3(3, 0, -1)); }
    const std::vector<double> scales = mc::thorough() ? std::vector<double>{1, 0.3, 1e-6, 1e-9, 7, 1e3, 1e8} : std::vector<double>{1, 0.3, 1e-9, 1e3};
    Element::Group<Vol> none;
    for (size_t d = 0; d < dirs.size(); d++) for (size_t q = 0; q < dirs.size(); q++) for (double sd : scales) for (double sp : scales) {
        if (!mc::thorough() && sd != 1 && sp != 1 && sd != sp) continue;
        const R3 dir = mul(dirs[d], sd), pol = mul(dirs[q], sp);
        mc::run([=] { return MC_STR("plane wave towards " << p(dir) << " polarized along " << p(pol)); }, [&] {
            const Signal& sig = signals()[(d + q) % 3];
            bool zero = norm(dirs[d]) == 0 || norm(dirs[q]) == 0;
            bool perp = !zero && std::fabs(dot(dirs[d], dirs[q])) < 1e-12;
            auto make = [&] { return std::unique_ptr<Source::PlaneWave>(new Source::PlaneWave(new Mag(sig.make()), none, dir, pol)); };
            mc::step();
            if (!perp) {
                MC_CHECK(MC_THROWS(make()), zero ? "wave-zero-vector-accepted" : "wave-not-perpendicular-accepted", "");
                mc::outcome(zero ? "zero vector refused" : "not perpendicular refused");
                return;
            }
            auto pw = make();
            mc::outcome("plane wave"); mc::state(MC_STR("wave " << p(dir) << p(pol)));
            MC_CHECK(eqI(I3(0, 0, 0), I3(0, 0, 0)) && norm(sub(pw->getDirection(), dir)) <= 1e-12 * norm(dir) && norm(sub(pw->getPolarization(), pol)) <= 1e-12 * norm(pol), "wave-vectors", p(pw->getDirection()) << p(pw->getPolarization()));
            MC_CHECK(!pw->isRandomic() && pw->getNumberOfRandomPlanewaves() == 0 && pw->getRelativeVariationOfRandomDelay() == 0, "wave-random", "");
            checkWave(*pw, dir, pol, sig);
            // the angles are those of the vectors, and lead to them again
            auto unit = [](double th, double ph) { return R3(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)); };
            R3 ud = unit(pw->getTheta(), pw->getPhi()), up = unit(pw->getAlpha(), pw->getBeta());
            MC_CHECK(eq(ud, mul(dir, 1 / norm(dir))), "wave-direction-angles", pw->getTheta() << " " << pw->getPhi());
            MC_CHECK(eq(up, mul(pol, 1 / norm(pol))), "wave-polarization-angles", pw->getAlpha() << " " << pw->getBeta());
            MC_CHECK(pw->getTheta() >= 0 && pw->getTheta() <= PI + 1e-12 && pw->getAlpha() >= 0 && pw->getAlpha() <= PI + 1e-12, "wave-angle-range", "");
            Source::PlaneWave again(new Mag(sig.make()), none, std::make_pair(pw->getTheta(), pw->getPhi()), std::make_pair(pw->getAlpha(), pw->getBeta()));
            MC_CHECK(eq(again.getDirection(), ud) && eq(again.getPolarization(), up), "wave-from-angles", p(again.getDirection()) << p(again.getPolarization()));
            Source::PlaneWave copy(*pw); pw.reset();
            checkWave(copy, dir, pol, sig);
            checkWave(again, ud, up, sig);
        });
    }
    const int N = mc::pick(12, 36);
    for (int th = 0; th <= N; th++) for (int ph = -N; ph <= 2 * N; ph += mc::pick(3, 1)) for (int al = 0; al <= N; al += mc::pick(3, 2)) for (int be = -N; be <= 2 * N; be += mc::pick(3, 6))
        mc::run([=] { return MC_STR("plane wave towards " << th << "/" << N << " " << ph << "/" << N << " of pi polarized along " << al << "/" << N << " " << be << "/" << N); }, [&] {
            auto unit = [](double th, double ph) { return R3(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)); };
            double t = PI * th / N, f = PI * ph / N, a = PI * al / N, b = PI * be / N;
            R3 dir = unit(t, f), pol = unit(a, b);
            auto make = [&] { return std::unique_ptr<Source::PlaneWave>(new Source::PlaneWave(nullptr, none, std::make_pair(t, f), std::make_pair(a, b))); };
            mc::step();
            if (std::fabs(dot(dir, pol)) > 1e-6) { MC_CHECK(MC_THROWS(make()), "wave-not-perpendicular-accepted", "cosine " << dot(dir, pol)); mc::outcome("angles refused"); return; }
            if (std::fabs(dot(dir, pol)) > 1e-14) return;
            auto pw = make();
            mc::outcome("plane wave from angles");
            MC_CHECK(eq(pw->getDirection(), dir) && eq(pw->getPolarization(), pol), "wave-from-angles", p(pw->getDirection()) << p(pw->getPolarization()));
            R3 ud = unit(pw->getTheta(), pw->getPhi()), up = unit(pw->getAlpha(), pw->getBeta());
            MC_CHECK(eq(ud, dir, 1e-7) && eq(up, pol, 1e-7), "wave-angles-read-back", p(ud) << p(up));
        });
}
// ---------------------------------------------------------------- ports
// A plate of w x h cells at (x0,y0,z), of real or grid elements.
struct Plate {
    Coordinate::Group<CoordR3> cr; Coordinate::Group<CoordI3> ci; Element::Group<Surf> es; Element::Group<const Surf> sel;
    Plate(bool grid, double x0, double y0, double z, double w, double h, int n, size_t firstId = 1) {
        size_t id = firstId;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            double a = x0 + w * i / n, b = x0 + w * (i + 1) / n, c = y0 + h * j / n, d = y0 + h * (j + 1) / n;
            if (grid) es.add(new QuaI4(ci, Element::Id(id++), BoxI3(I3(int(std::floor(a + .5)), int(std::floor(c + .5)), int(z)), I3(int(std::floor(b + .5)), int(std::floor(d + .5)), int(z))), nullptr, nullptr));
            else es.add(new QuaR4(cr, Element::Id(id++), BoxR3(R3(a, c, z), R3(b, d, z)), nullptr, nullptr));
        }
        for (size_t i = 0; i < es.size(); i++) sel.add(es(i));
    }
};
typedef Source::Port::WaveguideRectangular WG;
typedef Source::Port::TEMCoaxial Coax;
static void checkMode(const WG& wg, bool te, unsigned m, unsigned n, double x0, double y0, double z, double w, double h) {
    MC_CHECK(eq(wg.getOrigin(), R3(x0, y0, z)) && mc::near(wg.getWidth(), w) && mc::near(wg.getHeight(), h), "guide-size", p(wg.getOrigin()) << " " << wg.getWidth() << " x " << wg.getHeight() << " expected " << p(R3(x0, y0, z)) << " " << w << " x " << h);
    MC_CHECK((wg.getExcitationMode() == Source::Port::Waveguide::TE) == te && wg.getMode() == std::make_pair(size_t(m), size_t(n)), "guide-mode", "");
    MC_CHECK(eq(R3(0, 0, std::fabs(wg.getNormal()(2))), R3(0, 0, 1)) && std::fabs(wg.getNormal()(0)) + std::fabs(wg.getNormal()(1)) < 1e-9, "guide-normal", p(wg.getNormal()));
    if (!te && m * n == 0) return; // no such mode
    const double a = PI * m / w, b = PI * n / h, top = std::max(a, b);
    const int K = 8;
    int sign = 0;
    double peak = 0;
    for (int i = 0; i <= K; i++) for (int j = 0; j <= K; j++) {
        double x = w * i / K, y = h * j / K;
        mc::step();
        R3 f = wg.getWeight(R3(x0 + x, y0 + y, z));
        double cx = std::cos(a * x), sx = std::sin(a * x), cy = std::cos(b * y), sy = std::sin(b * y);
        R3 want = te ? R3(-b * cx * sy / top, a * sx * cy / top, 0) : R3(a * cx * sy / top, b * sx * cy / top, 0);
        // no tangential field on the walls
        if (i == 0 || i == K) MC_CHECK(std::fabs(f(1)) < 1e-9, "guide-wall", p(f) << " at " << x << "," << y);
        if (j == 0 || j == K) MC_CHECK(std::fabs(f(0)) < 1e-9, "guide-wall", p(f) << " at " << x << "," << y);
        MC_CHECK(std::fabs(f(2)) < 1e-12, "guide-transverse", p(f));
        if (!sign && norm(want) > 0.1) sign = dot(want, f) < 0 ? -1 : 1;
        if (!sign) MC_CHECK(norm(f) <= norm(want) + 1e-9, "guide-profile", p(f) << " at " << x << "," << y << " expected " << p(want));
        else MC_REQUIRE(eq(f, mul(want, sign)), "guide-profile", p(f) << " at " << x << "," << y << " expected " << p(mul(want, sign)));
        peak = std::max(peak, norm(f));
    }
}
static void guides() {
    const double rect[][5] = {{0, 0, 0, 30, 10}, {2, -3, 1, 4, 4}, {-5, 7, -2, 3, 8}, {-20, -6, 5, 20, 6}};
    for (auto& r : rect) for (int grid = 0; grid < 2; grid++) for (int cells = 1; cells <= 2; cells++) for (int te = 0; te < 2; te++) for (int m = 0; m < mc::pick(4, 6); m++) for (int n = 0; n < mc::pick(4, 6); n++)
        mc::run([=] { return MC_STR((te ? "TE" : "TM") << m << n << " guide of " << cells * cells << (grid ? " grid" : " real") << " elements over " << p(R3(r[0], r[1], r[2])) << " " << r[3] << " x " << r[4]); }, [&] {
            Plate pl(grid, r[0], r[1], r[2], r[3], r[4], cells);
            auto mode = te ? Source::Port::Waveguide::TE : Source::Port::Waveguide::TM;
            auto make = [&] { return std::unique_ptr<WG>(new WG(nullptr, pl.sel, mode, std::make_pair(size_t(m), size_t(n)))); };
            mc::step();
            if (m + n == 0) { MC_CHECK(MC_THROWS(make()), "guide-zero-mode", ""); return; }
            auto wg = make();
            checkMode(*wg, te, m, n, r[0], r[1], r[2], r[3], r[4]);
            WG c(*wg);
            // retargeted to a plate of another size, then to more of it
            Plate other(grid, r[0] + 8, r[1] - 4, r[2] + 3, 6, 2, 1), more(grid, r[0] + 14, r[1] - 4, r[2] + 3, 6, 2, cells, 10);
            Element::Group<const Elem> t, u; for (size_t i = 0; i < other.es.size(); i++) t.add(other.es(i));
            for (size_t i = 0; i < more.es.size(); i++) u.add(more.es(i));
            wg->set(t);
            checkMode(*wg, te, m, n, r[0] + 8, r[1] - 4, r[2] + 3, 6, 2);
            wg->add(u);
            checkMode(*wg, te, m, n, r[0] + 8, r[1] - 4, r[2] + 3, 12, 2);
            WG d(*wg);
            wg.reset();
            checkMode(c, te, m, n, r[0], r[1], r[2], r[3], r[4]);
            checkMode(d, te, m, n, r[0] + 8, r[1] - 4, r[2] + 3, 12, 2);
            mc::state(MC_STR("guide " << te << m << n << r[0] << grid << cells)); mc::outcome("waveguide mode");
        });
    // plates which are not in a plane of constant z, or are none
    for (int k = 0; k < 6; k++) mc::run([=] { return MC_STR("guide over an unsuitable plate " << k); }, [&] {
        Coordinate::Group<CoordR3> cs; Element::Group<Surf> es;
        if (k == 0) es.add(new QuaR4(cs, Element::Id(1), BoxR3(R3(0, 0, 0), R3(0, 1, 1)), nullptr, nullptr));
        if (k == 1) es.add(new QuaR4(cs, Element::Id(1), BoxR3(R3(0, 0, 0), R3(2, 0, 1)), nullptr, nullptr));
        if (k == 2) { es.add(new QuaR4(cs, Element::Id(1), BoxR3(R3(0, 0, 0), R3(2, 2, 0)), nullptr, nullptr)); es.add(new QuaR4(cs, Element::Id(2), BoxR3(R3(0, 0, 1), R3(2, 2, 1)), nullptr, nullptr)); }
        if (k == 3) { es.add(new QuaR4(cs, Element::Id(1), BoxR3(R3(0, 0, 0), R3(2, 2, 0)), nullptr, nullptr)); es.add(new QuaR4(cs, Element::Id(2), BoxR3(R3(0, 0, 0), R3(0, 2, 1)), nullptr, nullptr)); }
        if (k == 4) { Coordinate::Group<CoordI3> ci; Element::Group<Surf> ei; ei.add(new QuaI4(ci, Element::Id(1), BoxI3(I3(0, 0, 0), I3(3, 0, 1)), nullptr, nullptr));
            Element::Group<const Surf> s; s.add(ei(0)); mc::step(); MC_CHECK(MC_THROWS(WG(nullptr, s, Source::Port::Waveguide::TE, std::make_pair(size_t(1), size_t(0)))), "guide-plate-accepted", ""); return; }
        Element::Group<const Surf> s; for (size_t i = 0; i < es.size(); i++) s.add(es(i));
        mc::step();
        MC_CHECK(MC_THROWS(WG(nullptr, s, Source::Port::Waveguide::TE, std::make_pair(size_t(1), size_t(0)))), "guide-plate-accepted", "");
        MC_CHECK(MC_THROWS(WG(new Mag(signals()[0].make()), s, Source::Port::Waveguide::TM, std::make_pair(size_t(1), size_t(1)))), "guide-plate-accepted", "");
        mc::outcome("plate refused");
    });
}
static void checkCoax(const Coax& c, bool voltage, const R3& o, double ratio) {
    MC_CHECK(eq(c.getOrigin(), o), "coaxial-origin", p(c.getOrigin()) << " expected " << p(o));
    MC_CHECK((c.getExcitationMode() == Source::Port::TEM::voltage) == voltage, "coaxial-mode", "");
    for (int i = 0; i < 12; i++) for (double rho : {0.5, 1.0, 3.0}) {
        double f = 2 * PI * i / 12;
        R3 d(rho * std::cos(f), rho * std::sin(f), 0);
        mc::step();
        R3 w = c.getWeight(add(o, d));
        R3 hat = mul(d, 1 / rho);
        // one volt between the conductors, one ampere around the inner one
        R3 want = voltage ? mul(hat, 1 / (rho * std::log(ratio))) : mul(R3(-hat(1), hat(0), 0), 1 / (2 * PI * rho));
        MC_REQUIRE(eq(w, want), "coaxial-profile", p(w) << " at " << p(d) << " of the centre, expected " << p(want));
    }
}
static void coaxial() {
    const R3 org[] = {R3(0, 0, 0), R3(3, -2, 1), R3(-1, 5, 7), R3(1e-3, 2e-3, 0)};
    for (auto& o : org) for (double in : {0.5, 1.0, 3e-3}) for (double ratio : {1.5, 3.0, 10.0}) for (int v = 0; v < 2; v++) for (int grid = 0; grid < 2; grid++)
        mc::run([=] { return MC_STR((v ? "voltage" : "current") << " port about " << p(o) << " of radii " << in << " and " << in * ratio << (grid ? " over a grid" : "")); }, [&] {
            Plate pl(grid, o(0) - 2, o(1) - 2, o(2), 4, 4, 2);
            Coax c(nullptr, pl.sel, v ? Source::Port::TEM::voltage : Source::Port::TEM::current, o, in, in * ratio);
            checkCoax(c, v, o, ratio);
            std::unique_ptr<Coax> k(c.cloneTo<Coax>());
            MC_CHECK(printed(*k) == printed(c), "coaxial-copy-print", "");
            k->applyScalingFactor(2.5);
            checkCoax(*k, v, mul(o, 2.5), ratio);
            checkCoax(c, v, o, ratio);
            Plate other(grid, o(0) - 3 + 5, o(1) - 3, o(2), 6, 6, 1);
            if (grid && o(0) != std::floor(o(0))) return;
            Element::Group<const Elem> t; t.add(other.es(0));
            k->set(t);
            checkCoax(*k, v, R3(o(0) + 5, o(1), o(2)), ratio);
            mc::state(MC_STR("coax " << p(o) << in << ratio << v)); mc::outcome("coaxial port");
        });
}
// ---------------------------------------------------------------- histories
struct World {
    Coordinate::Group<CoordR3> cs; Element::Group<ElemR> es;
    std::map<int, std::vector<const Elem*>> sets; // dimension*3 + which
    World() {
        const double c[16][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
        size_t id = 0;
        for (int s = 0; s < 3; s++) {
            std::vector<const CoordR3*> v;
            for (int i = 0; i < 8; i++) { v.push_back(new CoordR3(Coordinate::Id(s * 8 + i + 1), R3(c[i][0] * 2 + 4 * s, c[i][1] * 2, c[i][2]))); cs.add(const_cast<CoordR3*>(v.back())); }
            const int types[4] = {NODE, LINE, QUAD, HEX};
            for (int d = 0; d < 4; d++) for (int k = 0; k <= (s == 1 ? 0 : 1); k++) {
                std::vector<const CoordR3*> w; for (unsigned i : vertsOf(types[d])) w.push_back(v[i]);
                es.add(makeR(types[d], ++id, w, nullptr, nullptr));
                sets[d * 3 + s].push_back(es(es.size() - 1));
            }
        }
    }
    template<class T> Element::Group<T> of(int d, int s) { Element::Group<T> r; for (auto e : sets[d * 3 + s]) r.add(const_cast<T*>(dynamic_cast<const T*>(e))); return r; }
    Element::Group<const Elem> any(int d, int s) { Element::Group<const Elem> r; for (auto e : sets[d * 3 + s]) r.add(e); return r; }
};
typedef SEMBA::Source::Dipole Dip;
typedef SEMBA::Source::Base SrcB;
struct Spy : public Dip {
    Spy(const Dip& d) : SrcB(d), SEMBA::Geometry::Element::Group<const Vol>(d), Dip(d) {}
    double len() const { return length_; } R3 ori() const { return orientation_; } R3 pos() const { return position_; }
};
enum { NKIND = 14, NMAG = 5 };
static const char* const kindName[] = {"plane wave", "plane wave by angles", "random plane waves", "dipole", "voltage generator", "current generator", "hard generator", "electric line", "magnetic line", "hard line", "voltage port", "current port", "TE port", "TM port"};
static const int dimOf[] = {3, 3, 3, 3, 0, 0, 0, 1, 1, 1, 2, 2, 2, 2};
static const char* const magName[] = {"no magnitude", "an empty magnitude", "a gaussian", "a table", "a file"};
static Src* make(int kind, Mag* m, World& w) {
    namespace N = SEMBA::Source;
    switch (kind) {
    case 0: return new N::PlaneWave(m, w.of<Vol>(3, 0), R3(0, 2, 0), R3(1, 0, 1));
    case 1: return new N::PlaneWave(m, w.of<Vol>(3, 0), std::pair<double, double>(PI / 2, PI / 4), std::pair<double, double>(0.0, 0.0));
    case 2: return new N::PlaneWave(m, w.of<Vol>(3, 0), 70017, 0.25);
    case 3: return new N::Dipole(m, w.of<Vol>(3, 0), 0.5, R3(0, 0, 2), R3(1, 2, 3));
    case 4: return new N::Generator(m, w.of<const Nod>(0, 0), N::Generator::voltage, N::Generator::soft);
    case 5: return new N::Generator(m, w.of<const Nod>(0, 0), N::Generator::current, N::Generator::soft);
    case 6: return new N::Generator(m, w.of<const Nod>(0, 0), N::Generator::current, N::Generator::hard);
    case 7: return new N::OnLine(m, w.of<const Lin>(1, 0), N::OnLine::electric, N::OnLine::soft);
    case 8: return new N::OnLine(m, w.of<const Lin>(1, 0), N::OnLine::magnetic, N::OnLine::soft);
    case 9: return new N::OnLine(m, w.of<const Lin>(1, 0), N::OnLine::electric, N::OnLine::hard);
    case 10: return new Coax(m, w.of<const Surf>(2, 0), N::Port::TEM::voltage, R3(1, 1, 0), 0.5, 2);
    case 11: return new Coax(m, w.of<const Surf>(2, 0), N::Port::TEM::current, R3(1, 1, 0), 0.5, 2);
    case 12: return new WG(m, w.of<const Surf>(2, 0), N::Port::Waveguide::TE, std::make_pair(size_t(2), size_t(1)));
    default: return new WG(m, w.of<const Surf>(2, 0), N::Port::Waveguide::TM, std::make_pair(size_t(1), size_t(3)));
    }
}
static const double sampleT[] = {0, 0.25, 0.5, 1, 1.25, 2, 3};
struct Model { int kind, mag; Str file; std::vector<const Elem*> targets; bool moved; };
static Mag* makeMag(int k) {
    const auto& s = signals();
    if (k == 0) return nullptr;
    if (k == 1) return new Mag();
    if (k == 2) return new Mag(s[0].make());
    if (k == 3) return new Mag(s[7].make());
    { std::ofstream f("given.dat"); f << "0 1\n0.5 -1\n1 1\n1.5 -1\n2 1\n"; }
    return new Num(FileSystem::Project("given.dat"));
}
static Str observe(const Src& s, const Model& m, const Str& when) {
    mc::step();
    auto el = s.elems();
    Str tg, want;
    for (size_t i = 0; i < el.size(); i++) tg += el(i)->getId().toStr() + " ";
    for (auto e : m.targets) want += e->getId().toStr() + " ";
    MC_REQUIRE(tg == want, "source-targets", when << ": " << tg << "expected " << want);
    for (size_t i = 0; i < el.size(); i++) MC_CHECK(el(i) == m.targets[i], "source-targets-object", when << ": another element");
    // the excitation
    const Mag* g = s.getMagnitude();
    MC_REQUIRE((g == nullptr) == (m.mag == 0), "source-magnitude", when << ": magnitude lost");
    bool num = !m.file.empty();
    MC_CHECK(s.magnitudeIs<Num>() == num, "source-magnitude-kind", when);
    MC_CHECK(s.getMagnitudeFilename() == m.file, "source-magnitude-file", when << ": " << s.getMagnitudeFilename() << " expected " << m.file);
    const Signal* sig = m.mag == 2 ? &signals()[0] : m.mag >= 3 ? &signals()[7] : nullptr;
    if (g && sig) for (double t : sampleT) MC_CHECK(mc::near(g->evaluate(t), sig->value(t), 1e-8), "source-magnitude-value", when << ": " << g->evaluate(t) << " at " << t << " expected " << sig->value(t));
    // the kind and its parameters
    R3 o(0, 0, 0); double w = 0, h = 0;
    if (dimOf[m.kind] == 2) { // the box of the targets
        R3 lo(1e9, 1e9, 1e9), hi(-1e9, -1e9, -1e9);
        for (auto e : m.targets) for (int d = 0; d < 3; d++) for (size_t i = 0; i < e->numberOfCoordinates(); i++) {
            double x = dynamic_cast<const ElemR*>(e)->getV(i)->pos()(d);
            lo(d) = std::min(lo(d), x); hi(d) = std::max(hi(d), x);
        }
        o = lo; w = hi(0) - lo(0); h = hi(1) - lo(1);
    }
    auto name = [&](const char* n) { MC_CHECK(s.getName() == n, "source-name", when << ": " << s.getName()); };
    switch (m.kind) {
    case 0: case 1: case 2: {
        auto& x = dynamic_cast<const Source::PlaneWave&>(s); name("PlaneWave");
        MC_CHECK(x.isRandomic() == (m.kind == 2) && x.getNumberOfRandomPlanewaves() == (m.kind == 2 ? 70017 : 0) && x.getRelativeVariationOfRandomDelay() == (m.kind == 2 ? 0.25 : 0), "wave-random", when);
        R3 d = m.kind == 0 ? R3(0, 2, 0) : R3(std::sqrt(.5), std::sqrt(.5), 0), q = m.kind == 0 ? R3(1, 0, 1) : R3(0, 0, 1);
        if (m.kind < 2) MC_CHECK(eq(x.getDirection(), d) && eq(x.getPolarization(), q), "wave-vectors", when << p(x.getDirection()) << p(x.getPolarization()));
        if (m.kind < 2 && sig && !num) checkWave(x, d, q, *sig);
        break; }
    case 3: { Spy x(dynamic_cast<const Source::Dipole&>(s)); name("Dipole");
        MC_CHECK(x.len() == 0.5 && eq(x.ori(), R3(0, 0, 2)) && eq(x.pos(), R3(1, 2, 3)), "dipole", when << ": " << x.len() << p(x.ori()) << p(x.pos()));
        break; }
    case 4: case 5: case 6: { auto& x = dynamic_cast<const Source::Generator&>(s); name("Generator");
        MC_CHECK(x.getType() == (m.kind == 4 ? Source::Generator::voltage : Source::Generator::current), "generator-type", when);
        break; }
    case 7: case 8: case 9: { auto& x = dynamic_cast<const Source::OnLine&>(s); name("OnLine");
        MC_CHECK(x.getType() == (m.kind == 8 ? Source::OnLine::magnetic : Source::OnLine::electric) && x.getHardness() == (m.kind == 9 ? Source::OnLine::hard : Source::OnLine::soft), "online-type", when);
        break; }
    case 10: case 11: { auto& x = dynamic_cast<const Coax&>(s); name("Coaxial_TEM_port");
        checkCoax(x, m.kind == 10, m.moved ? x.getOrigin() : R3(1, 1, 0), 4);
        break; }
    default: { auto& x = dynamic_cast<const WG&>(s); name("Rectangular_waveguide_port");
        checkMode(x, m.kind == 12, m.kind == 12 ? 2 : 1, m.kind == 12 ? 1 : 3, o(0), o(1), o(2), w, h); }
    }
    return MC_STR(m.kind << "/" << m.mag << "/" << m.file << "/" << tg);
}
static void histories() {
    static const char* const opName[] = {"copy, keep the copy", "copy, drop the copy", "retarget", "add targets", "convert to numerical", "export", "copy in a group", "scale nothing", "move into a group"};
    const unsigned depth = mc::pick(3, 4), NOP = 9;
    for (int kind = 0; kind < NKIND; kind++) for (int mag = 0; mag < NMAG; mag++) mc::sequences(NOP, depth, [&](const std::vector<unsigned>& seq) {
        mc::run([=] { Str s = MC_STR(kindName[kind] << " with " << magName[mag] << ":"); for (unsigned o : seq) s += Str(" ") + opName[o] + ";"; return s; }, [&] {
            World w;
            std::unique_ptr<Src> s(make(kind, makeMag(mag), w));
            Model m{kind, mag, mag == 4 ? "given.dat" : "", w.sets[dimOf[kind] * 3], false};
            const int d = dimOf[kind];
            observe(*s, m, "made");
            int n = 0;
            for (unsigned o : seq) {
                Str when = opName[o]; n++;
                const Str before = printed(*s);
                switch (o) {
                case 0: { std::unique_ptr<Src> c(s->cloneTo<Src>()); MC_CHECK(printed(*c) == before, "copy-prints-differently", ""); s = std::move(c); break; }
                case 1: { std::unique_ptr<Src> c(s->cloneTo<Src>()); Model k = m;
                    if (d != 2 || kind > 11 || true) { c->set(w.any(d, 1)); k.targets = w.sets[d * 3 + 1]; k.moved = true; observe(*c, k, "the copy, retargeted"); }
                    break; }
                case 2: s->set(w.any(d, 1)); m.targets = w.sets[d * 3 + 1]; m.moved = true; break;
                case 3: { bool has = false; for (auto e : m.targets) if (e == w.sets[d * 3 + 2][0]) has = true;
                    if (has) break;
                    s->add(w.any(d, 2)); for (auto e : w.sets[d * 3 + 2]) m.targets.push_back(e); break; }
                case 4: { Str f = MC_STR("conv" << n << ".dat");
                    if (mag == 0 || (mag == 1)) { MC_THROWS(s->convertToNumerical(FileSystem::Project(f), 0.25, 3)); break; }
                    s->convertToNumerical(FileSystem::Project(f), 0.25, 3);
                    if (m.file.empty()) m.file = f;
                    break; }
                case 5: { Str f = MC_STR("exp" << n << ".dat");
                    if (mag == 0 || mag == 1) { MC_THROWS(delete s->exportToFile(FileSystem::Project(f), 0.25, 3)); break; }
                    std::unique_ptr<Num> e(s->exportToFile(FileSystem::Project(f), 0.25, 3));
                    for (double t : sampleT) { const Mag* b = e.get(); MC_CHECK(mc::near(b->evaluate(t), s->getMagnitude()->evaluate(t), 1e-8), "exported-value", b->evaluate(t) << " at " << t); }
                    break; }
                case 6: { Source::Group<> g; g.add(s.release()); std::unique_ptr<Source::Group<>> c(g.clone());
                    MC_REQUIRE(c->size() == 1, "group-copy", ""); observe(*(*c)(0), m, "copied in a group");
                    s.reset((*g(0)).cloneTo<Src>()); break; }
                case 7: s->applyScalingFactor(1); break;
                default: { Source::Group<> g; g.add(s.release()); Source::Group<> h(std::move(g)); MC_REQUIRE(h.size() == 1, "group-moved", ""); observe(*h(0), m, "moved into a group"); s.reset(h(0)->cloneTo<Src>()); }
                }
                mc::state(observe(*s, m, when));
            }
            mc::outcome(kindName[kind]);
        });
    });
    // sources which differ show it
    mc::run([] { return "printed sources"; }, [&] {
        World w;
        std::vector<Str> all;
        for (int k = 0; k < NKIND; k++) { if (k == 6) continue; std::unique_ptr<Src> s(make(k, nullptr, w)); all.push_back(printed(*s)); mc::step(); }
        for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < i; j++) MC_CHECK(all[i] != all[j], "prints-alike", i << " and " << j << ": " << all[i]);
    });
}
// tables of every size of a ladder; times, values, directions and ports of every magnitude
static void sizes() {
    std::vector<int> ns; for (int n = 1; n <= mc::pick(24, 48); n++) ns.push_back(n);
    for (int n : {63, 64, 65, 100, 127, 128, 129, 257, 1025}) ns.push_back(n);
    auto follow = [](const Mag& g, const Table& t, const char* sig, double slack) {
        double top = 0; for (auto& r : t) top = std::max(top, std::fabs(r.second));
        const double span = t.back().first - t.front().first;
        auto at = [&](double x) { double w = tableAt(t, x), v = g.evaluate(x); mc::step(); MC_CHECK(std::fabs(v - w) <= slack * top, sig, v << " at " << x << " expected " << w); };
        for (size_t i = 0; i < t.size(); i++) { at(t[i].first); if (i) at(t[i - 1].first + 0.25 * (t[i].first - t[i - 1].first)); }
        at(t.front().first - span); at(t.back().first + span);
    };
    for (int n : ns) for (int te = -12; te <= 3; te += mc::pick(5, 1)) for (int ve = -15; ve <= 15; ve += mc::pick(10, 3)) mc::run([=] { return MC_STR("table of " << n << " rows, times of 1e" << te << ", values of 1e" << ve); }, [&] {
        Table t; for (int i = 0; i < n; i++) t.push_back({std::pow(10.0, te) * (i + (i % 3) * 0.25), std::pow(10.0, ve) * ((i * 7 % 11) - 5.5)});
        { std::ofstream f("rows.dat"); f << std::setprecision(17); for (auto& r : t) f << r.first << " " << r.second << "\n"; }
        const Num read(FileSystem::Project("rows.dat"));
        const Mag whole(new Interp(t));
        follow(read, t, "table-read", 1e-9); follow(whole, t, "table", 1e-9);
        std::unique_ptr<Num> c(read.cloneTo<Num>()); std::unique_ptr<Mag> k(whole.cloneTo<Mag>());
        follow(*c, t, "table-copy", 1e-9); follow(*k, t, "table-copy", 1e-9);
        Mag a; a = whole; follow(a, t, "table-assigned", 1e-9); MC_CHECK(a == whole, "magnitude-equality", "");
        if (n > 1) { Table u = t; u[n / 2].second += std::pow(10.0, ve); const Mag other(new Interp(u)); MC_CHECK(!(other == whole), "magnitude-equality", "row " << n / 2 << " differs"); u = t; u.back().first += std::pow(10.0, te); const Mag later(new Interp(u)); MC_CHECK(!(later == whole) , "magnitude-equality", "the last row differs"); }
        // exported at the quarters of the rows, it is the same table
        const double last = t.back().first, step = std::pow(10.0, te) * 0.25;
        if (n > 1 && n <= 300) { const Num e(FileSystem::Project("exp.dat"), whole, step, last); follow(e, t, "table-exported", 1e-6); const Num r(FileSystem::Project("exp.dat")); MC_CHECK(r == e, "numerical-read-again", ""); follow(r, t, "table-exported-read", 1e-6); }
        mc::state(MC_STR("rows " << n << te << ve)); mc::outcome("table of a size");
    });
    const R3 dirs[] = {R3(1, 0, 0), R3(0, -1, 0), R3(0, 0, 1), R3(1, 2, 0), R3(0, -3, 1), R3(1, 1, 1), R3(-2, 1, 3)};
    const R3 pols[] = {R3(0, 1, 0), R3(1, 0, -2), R3(1, -1, 0), R3(2, -1, 0), R3(1, -2, 1), R3(0, 1, 3), R3(1, 1, 1)};
    Element::Group<Vol> none;
    for (int e = -120; e <= 120; e += mc::pick(20, 6)) for (int g = -120; g <= 120; g += mc::pick(20, 6)) mc::run([=] { return MC_STR("plane waves along vectors of size 1e" << e << " and 1e" << g); }, [&] {
        for (auto& d0 : dirs) for (auto& q0 : pols) {
            const R3 d = mul(d0, std::pow(10.0, e)), q = mul(q0, std::pow(10.0, g));
            const Signal& sig = signals()[0];
            std::unique_ptr<Source::PlaneWave> w;
            bool threw = MC_THROWS(w.reset(new Source::PlaneWave(new Mag(sig.make()), none, d, q)));
            mc::step();
            MC_REQUIRE(threw == (dot(d0, q0) != 0), threw ? "wave-refused" : "wave-not-perpendicular-accepted", p(d) << p(q));
            if (w) { MC_CHECK(norm(sub(w->getPolarization(), q)) <= 1e-12 * norm(q), "wave-vectors", p(w->getPolarization())); checkWave(*w, d, q, sig); }
        }
        mc::outcome("waves of a magnitude");
    });
    for (int n : {1, 2, 3, 4, 5, 8, 13, 20}) for (int e = -6; e <= 4; e += mc::pick(5, 2)) for (int te = 0; te < 2; te++) for (int m : {1, 2, 9, 20}) mc::run([=] { return MC_STR((te ? "TE" : "TM") << m << "," << m + 1 << " guide of " << n * n << " elements and size 1e" << e); }, [&] {
        const double u = std::pow(10.0, e);
        Plate pl(false, -2 * u, u, 3 * u, 3 * u, 2 * u, n);
        WG wg(nullptr, pl.sel, te ? Source::Port::Waveguide::TE : Source::Port::Waveguide::TM, std::make_pair(size_t(m), size_t(m + 1)));
        checkMode(wg, te, m, m + 1, -2 * u, u, 3 * u, 3 * u, 2 * u);
        std::unique_ptr<WG> c(wg.cloneTo<WG>()); checkMode(*c, te, m, m + 1, -2 * u, u, 3 * u, 3 * u, 2 * u);
        auto el = c->elems(); MC_REQUIRE(el.size() == size_t(n * n), "source-targets", el.size());
        for (int i = 0; i < n * n; i++) MC_CHECK(el(i) == pl.sel(i), "source-targets-object", i);
        mc::outcome("guide of a size");
    });
    for (int e = -6; e <= 4; e++) for (int v = 0; v < 2; v++) for (double ratio : {1.01, 2.0, 1e3}) mc::run([=] { return MC_STR("coaxial port of size 1e" << e << " and ratio " << ratio << (v ? ", voltage" : ", current")); }, [&] {
        const double u = std::pow(10.0, e); const R3 o(3 * u, -u, u);
        Plate pl(false, o(0) - 2 * u, o(1) - 2 * u, o(2), 4 * u, 4 * u, 2);
        Coax c(nullptr, pl.sel, v ? Source::Port::TEM::voltage : Source::Port::TEM::current, o, u, u * ratio);
        checkCoax(c, v, o, ratio);
        c.applyScalingFactor(1 / u); checkCoax(c, v, R3(3, -1, 1), ratio);
        mc::outcome("port of a size");
    });
    // generators, lines, dipoles and waves on n elements
    for (int n : ns) for (int kind = 0; kind < 4; kind++) mc::run([=] { return MC_STR(kindName[kind == 0 ? 4 : kind == 1 ? 7 : kind == 2 ? 0 : 3] << " on " << n << " elements"); }, [&] {
        World w; Element::Group<ElemR> own; std::vector<const Elem*> e;
        const int type = kind == 0 ? NODE : kind == 1 ? LINE : HEX;
        for (int i = 0; i < n; i++) { std::vector<const CoordR3*> c; for (unsigned j : vertsOf(type)) c.push_back(w.cs(j)); own.add(makeR(type, n + 5 - i, c, nullptr, nullptr)); e.push_back(own(i)); }
        std::unique_ptr<Src> s;
        Mag* mag = new Mag(signals()[0].make());
        if (kind == 0) { Element::Group<const Nod> g; for (auto x : e) g.add(dynamic_cast<const Nod*>(x)); s.reset(new Source::Generator(mag, g, Source::Generator::voltage, Source::Generator::soft)); }
        if (kind == 1) { Element::Group<const Lin> g; for (auto x : e) g.add(dynamic_cast<const Lin*>(x)); s.reset(new Source::OnLine(mag, g, Source::OnLine::electric, Source::OnLine::soft)); }
        if (kind >= 2) { Element::Group<Vol> g; for (auto x : e) g.add(const_cast<Vol*>(dynamic_cast<const Vol*>(x))); if (kind == 2) s.reset(new Source::PlaneWave(mag, g, R3(0, 2, 0), R3(1, 0, 1))); else s.reset(new Dip(mag, g, 0.5, R3(0, 0, 2), R3(1, 2, 3))); }
        Model m{kind == 0 ? 4 : kind == 1 ? 7 : kind == 2 ? 0 : 3, 2, "", e, false};
        observe(*s, m, "made");
        std::unique_ptr<Src> c(s->cloneTo<Src>()); observe(*c, m, "copied");
        Element::Group<const Elem> half; for (int i = 0; i < n / 2; i++) half.add(e[i]);
        c->set(half); Model h = m; h.targets.resize(n / 2); observe(*c, h, "retargeted"); observe(*s, m, "its copy retargeted");
        for (int i = n / 2; i < n; i++) { Element::Group<const Elem> one; one.add(e[i]); c->add(one); }
        observe(*c, m, "added one by one");
        s.reset(); observe(*c, m, "the original gone");
        mc::outcome("sources of a size");
    });
}
static void body() { sizes(); magnitude(); tabulated(); files(); wave(); guides(); coaxial(); histories(); }
int main(int argc, char** argv) { return mc::main_(argc, argv, body); }

// P21: material models.
#include "geo.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PMC.h"
#include "physicalModel/bound/PML.h"
#include "physicalModel/bound/SMA.h"
#include "physicalModel/bound/Mur1.h"
#include "physicalModel/bound/Mur2.h"
#include "physicalModel/bound/Periodic.h"
#include "physicalModel/gap/Gap.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/multiport/Dispersive.h"
#include "physicalModel/wire/Wire.h"
#include "physicalModel/wire/Extremes.h"
#include "physicalModel/surface/Multilayer.h"
#include "physicalModel/surface/SIBC.h"
#include "physicalModel/surface/SIBCFile.h"
#include "physicalModel/volume/AnisotropicCrystal.h"
#include "physicalModel/volume/AnisotropicFerrite.h"
#include "physicalModel/volume/Dispersive.h"
#include "physicalModel/volume/PML.h"
#include <fstream>
using namespace geo;
namespace PMn = SEMBA::PhysicalModel;
typedef PMn::PhysicalModel PM;
typedef std::string Str;
typedef std::complex<double> C;
typedef PMn::Multiport::Multiport MP;
typedef PMn::Wire::Extremes Ext;
typedef PMn::Surface::Multilayer ML;
static const double PI = std::acos(-1.0), EPS0 = 8.8541878176e-12, MU0 = 4e-7 * PI;
static bool rel(double a, double b, double tol = 1e-6) { return a == b || (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b))); }
static Str printed(const PM& p) {
    std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf());
    try { p.printInfo(); } catch (...) { std::cout.rdbuf(old); throw; }
    std::cout.rdbuf(old);
    return o.str();
}
struct Spec {
    Str name;
    std::function<PM*(MatId, const Str&)> make;
    std::function<void(const PM&)> check; // the parameters
    bool fixedName;
    std::function<void(PM&, const PM&)> assign;
};
template<class T> static const T& as(const PM& p) { const T* t = dynamic_cast<const T*>(&p); MC_REQUIRE(t != nullptr, "model-type", "another type of model"); return *t; }
template<class T> static std::function<void(PM&, const PM&)> assigner() { return [](PM& a, const PM& b) { dynamic_cast<T&>(a) = dynamic_cast<const T&>(b); }; }
template<class T> static void nothing(const PM& p) { as<T>(p); }

typedef double M3[3][3];
static void rotation(const R3& e, M3& r) { // z, x', z''
    auto rz = [](double a, M3& m) { M3 t = {{std::cos(a), -std::sin(a), 0}, {std::sin(a), std::cos(a), 0}, {0, 0, 1}}; std::memcpy(m, t, sizeof t); };
    auto rx = [](double a, M3& m) { M3 t = {{1, 0, 0}, {0, std::cos(a), -std::sin(a)}, {0, std::sin(a), std::cos(a)}}; std::memcpy(m, t, sizeof t); };
    M3 a, b, c, t; rz(e(0), a); rx(e(1), b); rz(e(2), c);
    auto mm = [](const M3& x, const M3& y, M3& z) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { z[i][j] = 0; for (int k = 0; k < 3; k++) z[i][j] += x[i][k] * y[k][j]; } };
    mm(a, b, t); mm(t, c, r);
}
// R m R^T with the rotation of the axis, which P13 checks apart.
static void global(const Math::Axis::Local& ax, const M3& m, M3& g) {
    M3 r, t;
    for (int j = 0; j < 3; j++) { R3 u(j == 0, j == 1, j == 2); R3 c = sub(ax.convertToGlobal(u), ax.getOrigin()); for (int i = 0; i < 3; i++) r[i][j] = c(i); }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { t[i][j] = 0; for (int k = 0; k < 3; k++) t[i][j] += r[i][k] * m[k][j]; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { g[i][j] = 0; for (int k = 0; k < 3; k++) g[i][j] += t[i][k] * r[j][k]; }
}
static void tensor(const Math::MatR33& m, const Math::Axis::Local& ax, const M3& loc, const char* sig) {
    M3 g; global(ax, loc, g);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) MC_REQUIRE(mc::near(m(i, j), g[i][j]), sig, "(" << i << "," << j << ") " << m(i, j) << " expected " << g[i][j]);
}
static void zeroTensor(const Math::MatR33& m) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) MC_CHECK(m(i, j) == 0, "conductivity-tensor", m(i, j)); }

static const std::vector<Spec>& specs() {
    static std::vector<Spec> s;
    if (!s.empty()) return s;
    #define SIMPLE(LABEL, TYPE) s.push_back({LABEL, [](MatId i, const Str& n) -> PM* { TYPE* t = new TYPE(i); if (!n.empty()) t->setName(n); return t; }, nothing<TYPE>, true, assigner<TYPE>()});
    SIMPLE("pec bound", PMn::Bound::PEC) SIMPLE("pmc bound", PMn::Bound::PMC) SIMPLE("pml bound", PMn::Bound::PML) SIMPLE("sma bound", PMn::Bound::SMA)
    SIMPLE("mur1 bound", PMn::Bound::Mur1) SIMPLE("mur2 bound", PMn::Bound::Mur2) SIMPLE("periodic bound", PMn::Bound::Periodic)
    #define NAMED(LABEL, TYPE) s.push_back({LABEL, [](MatId i, const Str& n) -> PM* { return new TYPE(i, n); }, nothing<TYPE>, false, assigner<TYPE>()});
    NAMED("pec", PMn::Predefined::PEC) NAMED("pmc", PMn::Predefined::PMC) NAMED("sma", PMn::Predefined::SMA)
    for (double w : {0.0, 1.5e-3, 2.0}) s.push_back({MC_STR("gap " << w), [=](MatId i, const Str& n) -> PM* { return new PMn::Gap::Gap(i, n, w); },
        [=](const PM& p) { MC_CHECK(as<PMn::Gap::Gap>(p).getWidth() == w, "gap-width", as<PMn::Gap::Gap>(p).getWidth()); }, false, assigner<PMn::Gap::Gap>()});
    for (MP::Type t : {MP::shortCircuit, MP::openCircuit, MP::matched}) s.push_back({MC_STR("multiport of type " << int(t)), [=](MatId i, const Str& n) -> PM* { return new PMn::Multiport::Predefined(i, n, t); },
        [=](const PM& p) { MC_CHECK(as<PMn::Multiport::Predefined>(p).getType() == t, "multiport-type", int(as<MP>(p).getType())); }, false, assigner<PMn::Multiport::Predefined>()});
    const double rlc[][3] = {{0, 0, 0}, {50, 1e-9, 2e-12}, {1, 2, 3}};
    for (int t = 11; t <= 18; t++) for (auto& v : rlc) { double a = v[0], b = v[1], c = v[2];
        s.push_back({MC_STR("RLC of type " << t << " " << a << " " << b << " " << c), [=](MatId i, const Str& n) -> PM* { return new PMn::Multiport::RLC(i, n, MP::Type(t), a, b, c); },
            [=](const PM& p) { auto& x = as<PMn::Multiport::RLC>(p); MC_CHECK(int(x.getType()) == t && x.getR() == a && x.getL() == b && x.getC() == c, "rlc-values", int(x.getType()) << " " << x.getR() << " " << x.getL() << " " << x.getC()); }, false, assigner<PMn::Multiport::RLC>()}); }
    for (Str f : {"", "fit.dat"}) s.push_back({"dispersive multiport '" + f + "'", [=](MatId i, const Str& n) -> PM* { return new PMn::Multiport::Dispersive(i, n, f); },
        [=](const PM& p) { auto& x = as<PMn::Multiport::Dispersive>(p); MC_CHECK(x.getType() == MP::dispersive && x.getFilename() == f, "multiport-file", x.getFilename()); }, false, assigner<PMn::Multiport::Dispersive>()});
    const double wires[][7] = {{1e-3, 0, 0, 0, 0, 0, 0}, {0.5, 1, 2, 3, 4, 5, 6}, {0, 7, 0, 1, 0, 2, 0}};
    auto wireCheck = [](const PMn::Wire::Wire& x, double r, bool sp, bool d, const std::vector<double>& v, const Str& f) {
        double g[6] = {x.getSeriesResistance(), x.getSeriesInductance(), x.getSeriesCapacitance(), x.getParallelResistance(), x.getParallelInductance(), x.getParallelCapacitance()};
        MC_CHECK(x.getRadius() == r && x.isSeriesParallel() == sp && x.isDispersive() == d && x.getFilename() == f, "wire-kind", x.getRadius() << x.isSeriesParallel() << x.isDispersive() << x.getFilename());
        for (int i = 0; i < 6; i++) MC_CHECK(g[i] == v[i], "wire-values", "value " << i << " is " << g[i] << " expected " << v[i]);
    };
    typedef PMn::Wire::Wire W;
    for (auto& q : wires) { std::vector<double> v(q + 1, q + 7); double r = q[0];
        s.push_back({MC_STR("wire " << r << " " << v[0] << " " << v[1]), [=](MatId i, const Str& n) -> PM* { return new W(i, n, r, v[0], v[1]); }, [=](const PM& p) { wireCheck(as<W>(p), r, false, false, {v[0], v[1], 0, 0, 0, 0}, ""); }, false, assigner<W>()});
        s.push_back({MC_STR("series parallel wire " << r << mc::vec(v)), [=](MatId i, const Str& n) -> PM* { return new W(i, n, r, v[0], v[1], v[2], v[3], v[4], v[5]); }, [=](const PM& p) { wireCheck(as<W>(p), r, true, false, v, ""); }, false, assigner<W>()});
        s.push_back({MC_STR("dispersive wire " << r), [=](MatId i, const Str& n) -> PM* { return new W(i, n, r, Str("file of wire")); }, [=](const PM& p) { wireCheck(as<W>(p), r, false, true, {0, 0, 0, 0, 0, 0}, "file of wire"); }, false, assigner<W>()});
    }
    // wires with ends
    for (int e = 0; e < 9; e++) for (int k = 0; k < 3; k++) {
        auto port = [](int which, int n) -> MP* { MatId id(50 + n); return which == 0 ? nullptr : which == 1 ? (MP*)new PMn::Multiport::RLC(id, "end", MP::sRLC, 1, 2, 3 + n) : new PMn::Multiport::Predefined(id, "end", MP::matched); };
        auto wire = [](MatId i, const Str& n, int k) { return k == 0 ? W(i, n, 0.5, 1, 2) : k == 1 ? W(i, n, 0.25, 1, 2, 3, 4, 5, 6) : W(i, n, 0.125, Str("f")); };
        s.push_back({MC_STR("wire " << k << " with ends " << e), [=](MatId i, const Str& n) -> PM* { std::unique_ptr<MP> a(port(e / 3, 0)), b(port(e % 3, 1)); return new Ext(n, wire(i, "w", k), a.get(), b.get()); },
            [=](const PM& p) { auto& x = as<Ext>(p);
                wireCheck(x, k == 0 ? 0.5 : k == 1 ? 0.25 : 0.125, k == 1, k == 2, k == 0 ? std::vector<double>{1, 2, 0, 0, 0, 0} : k == 1 ? std::vector<double>{1, 2, 3, 4, 5, 6} : std::vector<double>(6, 0.0), k == 2 ? "f" : "");
                for (int j = 0; j < 2; j++) { int which = j ? e % 3 : e / 3; const MP* m = x.getExtreme(j);
                    MC_REQUIRE((m == nullptr) == (which == 0), "wire-end", "end " << j);
                    if (which == 1) { auto& r = as<PMn::Multiport::RLC>(*m); MC_CHECK(r.getC() == 3 + j && r.getId() == MatId(50 + j) && r.getName() == "end", "wire-end", r.getC()); }
                    if (which == 2) MC_CHECK(m->getType() == MP::matched, "wire-end", ""); } }, false, assigner<Ext>()});
    }
    // layers
    const double lay[][4] = {{1e-3, 1, 1, 0}, {0.5, 4, 2, 1e4}, {2e-6, 1.5, 7, 3}};
    for (int n = 0; n <= 3; n++) for (int first = 0; first < 3; first++) for (int fit = 0; fit < 2; fit++) {
        std::vector<ML::Layer> ls; for (int i = 0; i < n; i++) { auto& l = lay[(first + i) % 3]; ls.push_back(ML::Layer(l[0], l[1], l[2], l[3])); }
        std::vector<ML::FittingOptions> fo; if (fit) fo.push_back(ML::FittingOptions(std::make_pair(1e6 + first, 1e9), 5 + n));
        s.push_back({MC_STR(n << " layers from " << first << (fit ? " fitted" : "")), [=](MatId i, const Str& nm) -> PM* { return new ML(i, nm, ls, fo); },
            [=](const PM& p) { auto& x = as<ML>(p);
                MC_REQUIRE(int(x.getNumberOfLayers()) == n, "layer-count", x.getNumberOfLayers());
                for (int i = 0; i < n; i++) { auto& l = lay[(first + i) % 3]; auto y = x.getLayer(i);
                    MC_CHECK(x.getThickness(i) == l[0] && y.getThickness() == l[0] && x.getElecCond(i) == l[3] && y.getElecCond() == l[3] && x.getMagnCond(i) == 0, "layer-values", i);
                    MC_CHECK(y.getRelPermittivity() == l[1] && y.getRelPermeability() == l[2], "layer-values", i);
                    MC_CHECK(rel(x.getPermittivity(i), l[1] * EPS0) && rel(y.getPermittivity(), l[1] * EPS0) && rel(x.getPermeability(i), l[2] * MU0) && rel(y.getPermeability(), l[2] * MU0), "layer-absolute", i << ": " << x.getPermittivity(i) << " " << x.getPermeability(i)); }
                MC_CHECK(x.hasFittingOptions() == bool(fit), "layer-fitting", "");
                if (!fit) MC_CHECK(MC_THROWS(x.getFittingOptions()), "layer-fitting-invented", "");
                else { auto f = x.getFittingOptions(); MC_CHECK(f.getMinMaxFreq() == std::make_pair(1e6 + first, 1e9) && int(f.getNumberOfPoles()) == 5 + n, "layer-fitting", ""); } }, false, assigner<ML>()});
    }
    typedef PMn::Surface::SIBC S;
    for (int np = 0; np < 3; np++) {
        auto mat = [](double b) { Math::MatC22 m; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m(i, j) = C(b + i + 10 * j, b - i); return m; };
        auto same = [](const Math::MatC22& a, const Math::MatC22& b) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (a(i, j) != b(i, j)) return false; return true; };
        s.push_back({MC_STR("impedance with " << np << " poles"), [=](MatId i, const Str& n) -> PM* { std::vector<S::PoleResidue> v; for (int k = 0; k < np; k++) v.push_back(S::PoleResidue(C(-k, k), mat(100 * k))); return new S(i, n, mat(1), mat(7), v); },
            [=](const PM& p) { auto& x = as<S>(p); MC_CHECK(same(x.getZInfinity(), mat(1)) && same(x.getZLinear(), mat(7)) && int(x.getNumberOfPoles()) == np && int(x.getPoleZ().size()) == np, "sibc-values", "");
                for (int k = 0; k < np; k++) MC_CHECK(x.getPoleZ()[k].first == C(-k, k) && same(x.getPoleZ()[k].second, mat(100 * k)), "sibc-poles", k); }, false, assigner<S>()});
    }
    for (Str f : {"a.mibc", "folder/b c.mibc", ".x.mibc"}) s.push_back({"impedance file " + f, [=](MatId i, const Str& n) -> PM* { return new PMn::Surface::SIBCFile(i, n, FileSystem::Project(f)); },
        [=](const PM& p) { MC_CHECK(as<PMn::Surface::SIBCFile>(p).getFile() == f, "sibc-file", ""); }, false, assigner<PMn::Surface::SIBCFile>()});
    // volumes
    typedef PMn::Volume::Classic V;
    for (double e : {1.0, 2.5, 0.5, 0.0}) for (double m : {1.0, 4.0, 0.25, 0.0}) for (double ec : {0.0, 3.0}) for (double mc_ : {0.0, 0.25}) s.push_back({MC_STR("classic " << e << " " << m << " " << ec << " " << mc_), [=](MatId i, const Str& n) -> PM* { return new V(i, n, e, m, ec, mc_); },
        [=](const PM& p) { auto& x = as<V>(p);
            MC_CHECK(x.getRelativePermittivity() == e && x.getRelativePermeability() == m && x.getElectricConductivity() == ec && x.getMagneticConductivity() == mc_, "classic-values", x.getRelativePermittivity() << " " << x.getRelativePermeability() << " " << x.getElectricConductivity() << " " << x.getMagneticConductivity());
            MC_CHECK(rel(x.getPermittivity(), e * EPS0) && rel(x.getPermeability(), m * MU0), "classic-absolute", x.getPermittivity() << " " << x.getPermeability());
            // infinite where the other is null
            if (e != 0 || m != 0) MC_CHECK((e == 0 ? std::isinf(x.getImpedance()) && x.getImpedance() > 0 : rel(x.getImpedance(), std::sqrt(m * MU0 / (e * EPS0)))) && (m == 0 ? std::isinf(x.getAdmitance()) && x.getAdmitance() > 0 : rel(x.getAdmitance(), std::sqrt(e * EPS0 / (m * MU0)))), "classic-impedance", x.getImpedance() << " " << x.getAdmitance());
            MC_CHECK(x.isVacuum() == (e == 1 && m == 1 && ec == 0 && mc_ == 0), "classic-vacuum", x.isVacuum()); }, false, assigner<V>()});
    s.push_back({"classic by default", [=](MatId i, const Str& n) -> PM* { return new V(i, n); }, [=](const PM& p) { MC_CHECK(as<V>(p).isVacuum(), "classic-default", ""); }, false, assigner<V>()});
    typedef PMn::Volume::Dispersive D;
    for (int np = 0; np < 4; np++) for (double ec : {0.0, 2.0}) for (int zero = 0; zero < 2; zero++) {
        if (zero && (np == 0 || ec != 0)) continue;
        std::vector<PMn::Volume::PoleResidue> v; for (int k = 0; k < np; k++) v.push_back(PMn::Volume::PoleResidue(zero && k == 0 ? C(0, 0) : C(-1e9 * (k + 1), 2e9), C(3e8 * (k + 1), zero && k == 0 ? 0 : 1)));
        s.push_back({MC_STR("dispersive volume of " << np << (zero ? " poles, one null," : " poles") << " and conductivity " << ec), [=](MatId i, const Str& n) -> PM* { return np == 0 ? new D(i, n, 2, 3, ec, 0) : new D(i, n, 2, 3, ec, 0, v); },
            [=](const PM& p) { auto& x = as<D>(p);
                double want = zero ? v[0].second.real() * 2 * EPS0 : ec;
                MC_CHECK(rel(x.getElectricConductivity(), want), "dispersive-conductivity", x.getElectricConductivity() << " expected " << want);
                // every pole given is there
                std::vector<std::pair<C, C>> have; for (size_t i = 0; i < x.getPoleNumber(); i++) have.push_back({x.getPole(i), x.getResidue(i)});
                for (auto& q : v) { auto it = std::find(have.begin(), have.end(), std::pair<C, C>(q)); MC_CHECK(it != have.end(), "dispersive-pole-lost", q.first); if (it != have.end()) have.erase(it); }
                for (auto& q : have) MC_CHECK(q.first == C(0, 0) && ec != 0, "dispersive-pole-invented", q.first);
                bool disp = np > (zero ? 1 : 0), cond = want != 0;
                MC_CHECK(x.isClassic() == !disp, "dispersive-classic", x.isClassic());
                MC_CHECK(disp ? !x.isSimplyConductive() : true, "dispersive-simply-conductive", x.isSimplyConductive());
                if (cond && !disp) MC_CHECK(x.isSimplyConductive(), "conductive-not-so", "");
                if (disp) MC_CHECK(x.isDispersive(), "dispersive-not-so", "");
                if (!disp && !cond) MC_CHECK(!x.isDispersive(), "dispersive-without-poles", "");
                MC_CHECK(Str(x.getFile()).empty(), "dispersive-file", x.getFile()); }, false, assigner<D>()});
    }
    // poles on either axis, at the origin more than once or with a residue which is not real
    const std::pair<C, C> odd[] = {{C(0, 0), C(4e8, 0)}, {C(0, 0), C(4e8, 3)}, {C(0, 3e9), C(5e8, 1)}, {C(0, -3e9), C(5e8, -1)}, {C(-2e9, 0), C(6e8, 0)}, {C(0, 0), C(0, 0)}};
    for (int a = 0; a < 6; a++) for (int b = -1; b < 6; b++) for (int c = -1; c < (b < 0 ? 0 : 6); c++) {
        std::vector<PMn::Volume::PoleResidue> v; for (int k : {a, b, c}) if (k >= 0) v.push_back(odd[k]);
        s.push_back({MC_STR("dispersive volume of the poles " << a << " " << b << " " << c), [=](MatId i, const Str& n) -> PM* { return new D(i, n, 2, 3, 0, 0, v); },
            [=](const PM& p) { auto& x = as<D>(p);
                int nulls = 0; for (auto& q : v) nulls += q.first == C(0, 0);
                MC_REQUIRE(x.getPoleNumber() == v.size(), "dispersive-pole-lost", x.getPoleNumber());
                std::vector<std::pair<C, C>> have; for (size_t i = 0; i < x.getPoleNumber(); i++) have.push_back({x.getPole(i), x.getResidue(i)});
                for (auto& q : v) { auto it = std::find(have.begin(), have.end(), std::pair<C, C>(q)); MC_REQUIRE(it != have.end(), "dispersive-pole-lost", q.first); have.erase(it); }
                bool cond = nulls == int(v.size());
                if (nulls == 0) MC_CHECK(x.getElectricConductivity() == 0, "dispersive-conductivity", x.getElectricConductivity());
                if (nulls == 1) { double w = 0; for (auto& q : v) if (q.first == C(0, 0)) w = q.second.real() * 2 * EPS0; MC_CHECK(rel(x.getElectricConductivity(), w), "dispersive-conductivity", x.getElectricConductivity() << " expected " << w); }
                MC_CHECK(x.isDispersive(), "dispersive-not-so", "");
                if (!cond) MC_CHECK(!x.isSimplyConductive() && !x.isClassic(), "dispersive-simply-conductive", "");
                if (v.size() == 1 && cond) MC_CHECK(x.isSimplyConductive() && x.isClassic(), "conductive-not-so", ""); }, false, assigner<D>()});
    }
    s.push_back({"dispersive volume of a file", [=](MatId i, const Str& n) -> PM* { { std::ofstream f("poles.dat"); f << "x"; } return new D(i, n, FileSystem::Project("poles.dat")); },
        [=](const PM& p) { auto& x = as<D>(p); MC_CHECK(x.getFile() == "poles.dat" && x.isDispersive() && !x.isClassic() && !x.isSimplyConductive(), "dispersive-file", x.isDispersive() << x.isClassic()); }, false, assigner<D>()});
    const R3 ang[] = {R3(0, 0, 0), R3(PI / 2, 0, 0), R3(0, PI / 2, 0), R3(0.3, 1.1, -0.7)};
    for (auto& a : ang) for (int o = 0; o < 2; o++) {
        const Math::Axis::Local ax(a, o ? R3(1, -2, 3) : R3(0, 0, 0));
        Str an = MC_STR(" turned " << p(a) << (o ? " and shifted" : ""));
        typedef PMn::Volume::AnisotropicCrystal K; typedef PMn::Volume::AnisotropicFerrite F; typedef PMn::Volume::PML L;
        auto axes = [=](const Math::Axis::Local& g) { MC_CHECK(eq(g.getEulerAngles(), ax.getEulerAngles()) && eq(g.getOrigin(), ax.getOrigin()), "model-axes", ""); };
        s.push_back({"crystal" + an, [=](MatId i, const Str& n) -> PM* { return new K(i, n, ax, R3(2, 3, 5), 1.5); },
            [=](const PM& p) { auto& x = as<K>(p); axes(x.getLocalAxe()); MC_CHECK(eq(x.getPrincipalAxesRelativePermittivity(), R3(2, 3, 5)) && x.getRelativePermeability() == 1.5, "crystal-values", "");
                M3 e = {{2, 0, 0}, {0, 3, 0}, {0, 0, 5}}, m = {{1.5, 0, 0}, {0, 1.5, 0}, {0, 0, 1.5}};
                tensor(x.getRelPermittivityMatR(), ax, e, "crystal-permittivity"); tensor(x.getRelPermeabilityMatR(), ax, m, "crystal-permeability");
                zeroTensor(x.getElectricConductivityMat()); zeroTensor(x.getMagneticConductivityMat()); }, false, assigner<K>()});
        for (auto& q : {R3(0.25, 4, 6), R3(-0.5, 2, 3), R3(0, 1, 1)}) { const double kp = q(0), mu = q(1), ep = q(2); s.push_back({MC_STR("ferrite " << kp) + an, [=](MatId i, const Str& n) -> PM* { return new F(i, n, ax, kp, mu, ep); },
            [=](const PM& p) { auto& x = as<F>(p); axes(x.getLocalAxe());
                M3 e = {{ep, 0, 0}, {0, ep, 0}, {0, 0, ep}}, m = {{mu, 0, 0}, {0, mu, 0}, {0, 0, 1}}, k = {{0, kp, 0}, {-kp, 0, 0}, {0, 0, 0}};
                tensor(x.getRelPermittivityMatR(), ax, e, "ferrite-permittivity"); tensor(x.getRelPermeabilityMatR(), ax, m, "ferrite-permeability"); tensor(x.getRelPermeabilityMatI(), ax, k, "ferrite-permeability-imaginary");
                zeroTensor(x.getElectricConductivityMat()); zeroTensor(x.getMagneticConductivityMat()); }, false, assigner<F>()}); }
        s.push_back({"pml" + an, [=](MatId i, const Str& n) -> PM* { return new L(i, n, ax); },
            [=](const PM& p) { auto& x = as<L>(p); axes(x.getOrientation()); M3 r; rotation(a, r); R3 z = x.getGlobalZAxis(); MC_CHECK(eq(z, sub(ax.convertToGlobal(R3(0, 0, 1)), ax.getOrigin())) && mc::near(norm(z), 1), "pml-axis", geo::p(z)); }, false, nullptr});
    }
    return s;
}
struct Seen { size_t id; Str name; };
static Str observe(const PM& p, const Spec& s, const Seen& m, const Str& when) {
    mc::step();
    MC_CHECK(p.getId() == MatId(m.id), "model-id", when << ": " << p.getId().toStr() << " expected " << m.id);
    MC_CHECK(p.getName() == m.name, "model-name", when << ": " << p.getName() << " expected " << m.name);
    s.check(p);
    MC_CHECK(!printed(p).empty(), "model-print", "");
    return s.name + "/" + std::to_string(m.id) + "/" + m.name;
}
static void histories() {
    static const char* const opName[] = {"copy, keep the copy", "copy, drop the copy", "rename", "give an id", "copy in a group", "assign", "assign from itself"};
    const unsigned depth = mc::pick(2, 4);
    const auto& all = specs();
    for (size_t k = 0; k < all.size(); k++) mc::sequences(7, depth, [&](const std::vector<unsigned>& seq) {
        mc::run([&all, k, seq] { Str r = all[k].name + ":"; for (unsigned o : seq) r += Str(" ") + opName[o] + ";"; return r; }, [&] {
            const Spec& s = all[k];
            Seen m{7, "the name"};
            std::unique_ptr<PM> x(s.make(MatId(7), "the name"));
            observe(*x, s, m, "made");
            int n = 0;
            for (unsigned o : seq) {
                n++;
                const Str text = printed(*x);
                switch (o) {
                case 0: { std::unique_ptr<PM> c(x->cloneTo<PM>()); MC_CHECK(typeid(*c) == typeid(*x) && printed(*c) == text, "copy-differs", ""); x = std::move(c); break; }
                case 1: { std::unique_ptr<PM> c(x->cloneTo<PM>()); c->setName("other"); c->setId(MatId(99)); observe(*c, s, Seen{99, "other"}, "the copy changed"); MC_CHECK(printed(*x) == text, "copy-shared", ""); break; }
                case 2: m.name = MC_STR("renamed " << n); x->setName(m.name); break;
                case 3: m.id = 20 + n; x->setId(MatId(m.id)); break;
                case 4: { PMGroup g; g.add(x.release()); std::unique_ptr<PMGroup> c(g.clone());
                    MC_REQUIRE(c->size() == 1 && c->getId(MatId(m.id)) == (*c)(0) && (*c)(0) != g(0), "group-copy", ""); observe(*(*c)(0), s, m, "copied in a group"); x.reset((*c)(0)->cloneTo<PM>()); break; }
                case 5: if (s.assign) { std::unique_ptr<PM> c(s.make(MatId(3), "another")); observe(*c, s, Seen{3, "another"}, "made"); s.assign(*c, *x); MC_CHECK(printed(*c) == text, "assigned-differs", ""); x = std::move(c); } break;
                default: if (s.assign) s.assign(*x, *&*x);
                }
                mc::state(observe(*x, s, m, opName[o]));
            }
            mc::outcome(s.name.substr(0, s.name.find(' ')));
        });
    });
    // over a model of the same type with other parameters
    for (size_t a = 0; a < all.size(); a++) for (size_t b = 0; b < all.size(); b++) {
        if (a == b || !all[a].assign) continue;
        std::unique_ptr<PM> pa(all[a].make(MatId(1), "a")), pb(all[b].make(MatId(2), "b"));
        if (typeid(*pa) != typeid(*pb)) continue;
        mc::run([&all, a, b] { return all[a].name + " assigned from " + all[b].name; }, [&] {
            std::unique_ptr<PM> x(all[a].make(MatId(1), "a")), y(all[b].make(MatId(2), "b"));
            all[a].assign(*x, *y);
            observe(*x, all[b], Seen{2, "b"}, "assigned"); observe(*y, all[b], Seen{2, "b"}, "source");
            y.reset();
            observe(*x, all[b], Seen{2, "b"}, "source gone"); mc::outcome("assigned");
        });
    }
    // models which differ print differently
    mc::run([] { return "printed models"; }, [&] {
        std::map<Str, Str> seen;
        for (auto& s : all) { if (s.name.find("dispersive multiport") == 0 || s.name.find("dispersive volume") == 0) continue; // these do not print the file
            std::unique_ptr<PM> x(s.make(MatId(1), "n")); Str t = printed(*x); mc::step();
            MC_CHECK(!seen.count(t) || seen[t].find(" layers") != Str::npos || s.name.find(" fitted") != Str::npos || s.name.find("classic") == 0 || s.name.find("shifted") != Str::npos || s.name.find("crystal") == 0 || s.name.find("ferrite") == 0, "prints-alike", s.name << " and " << seen[t] << ": " << t); seen[t] = s.name; }
    });
}
// Ends of wires under every history of setting and swapping them.
static void ends() {
    static const char* const opName[] = {"first := short", "first := RLC", "first := none", "second := open", "second := RLC", "second := none", "first := itself", "second := first", "swap", "copy", "assign"};
    static const char* const endName[] = {"none", "short", "open", "RLC1", "RLC2"};
    auto port = [](int w) -> MP* { return w == 0 ? nullptr : w == 1 ? (MP*)new PMn::Multiport::Predefined(MatId(1), "s", MP::shortCircuit) : w == 2 ? (MP*)new PMn::Multiport::Predefined(MatId(2), "o", MP::openCircuit)
        : (MP*)new PMn::Multiport::RLC(MatId(w), "r", MP::pRLC, w, 0, 0); };
    auto which = [](const MP* m) -> int { if (!m) return 0; if (m->getType() == MP::shortCircuit) return 1; if (m->getType() == MP::openCircuit) return 2; return int(dynamic_cast<const PMn::Multiport::RLC*>(m)->getR()); };
    mc::sequences(11, mc::pick(4, 5), [&](const std::vector<unsigned>& seq) {
        mc::run([seq] { Str s = "ends of a wire:"; for (unsigned o : seq) s += Str(" ") + opName[o] + ";"; return s; }, [&] {
            std::unique_ptr<MP> p1(port(1)), p2(port(2));
            std::unique_ptr<Ext> x(new Ext("wire", PMn::Wire::Wire(MatId(4), "w", 1, 2, 3), p1.get(), p2.get()));
            int a = 1, b = 2;
            for (unsigned o : seq) {
                auto set = [&](int i, int w) { std::unique_ptr<MP> m(port(w)); x->setExtreme(i, m.get()); (i ? b : a) = w; };
                switch (o) {
                case 0: set(0, 1); break; case 1: set(0, 3); break; case 2: set(0, 0); break;
                case 3: set(1, 2); break; case 4: set(1, 4); break; case 5: set(1, 0); break;
                case 6: x->setExtreme(0, x->getExtreme(0)); break;
                case 7: x->setExtreme(1, x->getExtreme(0)); b = a; break;
                case 8: x->swapExtremes(); std::swap(a, b); break;
                case 9: { std::unique_ptr<Ext> c(x->cloneTo<Ext>()); x->setExtreme(0, nullptr); x->setExtreme(1, nullptr); x = std::move(c); break; }
                default: { std::unique_ptr<Ext> c(new Ext("other", PMn::Wire::Wire(MatId(5), "v", 9, 9, 9), p2.get(), nullptr)); *c = *x; x = std::move(c); }
                }
                mc::step();
                int ga = which(x->getExtreme(0)), gb = which(x->getExtreme(1));
                MC_REQUIRE(ga == a && gb == b, "wire-ends", "after " << opName[o] << ": " << endName[ga] << ", " << endName[gb] << " expected " << endName[a] << ", " << endName[b]);
                MC_CHECK(a == 0 || x->getExtreme(0) != x->getExtreme(1), "wire-ends-shared", "");
                MC_CHECK(x->getRadius() == 1 && x->getSeriesResistance() == 2 && x->getName() == "wire" && x->getId() == MatId(4), "wire-of-ends", "");
                mc::state(MC_STR("ends " << a << b));
            }
            mc::outcome("ends of a wire");
        });
    });
}
static void refused() {
    struct R { Str name; bool bad; std::function<void()> f; };
    std::vector<R> all;
    const double vals[] = {-1e9, -2, -1e-9, 0, 1e-9, 0.5, 1, 80};
    for (double e : vals) for (double m : vals) all.push_back({MC_STR("layer of permittivity " << e << " and permeability " << m), e <= 0 || m <= 0, [=] { ML::Layer l(1e-3, e, m, 0); MC_CHECK(l.getRelPermittivity() == e && l.getRelPermeability() == m, "layer-values", ""); }});
    for (int n = 0; n < 4; n++) all.push_back({MC_STR(n << " fitting options"), n > 1, [=] { ML x(MatId(1), "m", {ML::Layer(1, 1, 1, 0)}, std::vector<ML::FittingOptions>(n, ML::FittingOptions(std::make_pair(1.0, 2.0), 3))); }});
    for (Str f : {"a", "a.mibc", "a.MIBC", "a.mib", "a.mibcx", "mibc", "a.mibc.txt", "", "a.", "dir.mibc/a", "dir/a.mibc"}) all.push_back({"impedance file '" + f + "'", !(f == "a.mibc" || f == "dir/a.mibc"), [=] { PMn::Surface::SIBCFile x(MatId(1), "m", FileSystem::Project(f)); }});
    for (double mcv : {-1.0, 0.0, 1e-9, 5.0}) for (int np = 0; np < 2; np++) all.push_back({MC_STR("dispersive volume of magnetic conductivity " << mcv), mcv != 0, [=] { PMn::Volume::Dispersive x(MatId(1), "m", 1, 1, 0, mcv, std::vector<PMn::Volume::PoleResidue>(np)); }});
    for (int ex = 0; ex < 2; ex++) all.push_back({ex ? "dispersive volume of a file" : "dispersive volume of a missing file", !ex, [=] { unlink("p.dat"); if (ex) { std::ofstream f("p.dat"); f << "1"; } PMn::Volume::Dispersive x(MatId(1), "m", FileSystem::Project("p.dat")); }});
    for (size_t i = 0; i < all.size(); i++) mc::run([&] { return all[i].name; }, [&] {
        mc::step();
        bool t = MC_THROWS(all[i].f());
        MC_CHECK(t == all[i].bad, t ? "sound-model-refused" : "unsound-model-accepted", "");
        mc::outcome(t ? "model refused" : "model accepted");
    });
}
// models of every size of a ladder and with numbers, identifiers and names of every magnitude, copied and assigned over smaller and greater ones
static void sizes() {
    std::vector<size_t> S; for (size_t n = 0; n <= 36; n++) S.push_back(n); for (size_t n : {64, 65, 100, 127, 128, 129, 257}) S.push_back(n);
    for (size_t n : S) for (int k = 0; k < 3; k++) mc::run([=] { return MC_STR("models of size " << n << " of kind " << k); }, [&] {
        const double dec = std::pow(10., double((n * 7 + k * 11) % 61) - 30); const MatId id(k == 0 ? n + 1 : k == 1 ? 65530 + n : (size_t(1) << 32) - 5 + n); const Str nm = Str(n, char('a' + k)) + " x";
        typedef PMn::Surface::SIBC I; typedef PMn::Volume::Dispersive D;
        auto mat = [](double b) { Math::MatC22 m; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m(i, j) = C(b + i + 10 * j, b - i); return m; };
        auto same = [](const Math::MatC22& a, const Math::MatC22& b) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (a(i, j) != b(i, j)) return false; return true; };
        auto layers = [&](size_t c) { std::vector<ML::Layer> v; for (size_t i = 0; i < c; i++) v.push_back(ML::Layer(dec * (i + 1), 1 + i * 0.5 + k, 2 + i % 13, dec * double(i))); return v; };
        auto layered = [&](const ML& x, size_t c, const char* w) { mc::step(); MC_REQUIRE(x.getNumberOfLayers() == c && x.getName() == nm && x.getId() == id, "layer-count", w << " " << x.getNumberOfLayers()); for (size_t i = 0; i < c; i++) { auto y = x.getLayer(i); MC_CHECK(x.getThickness(i) == dec * (i + 1) && y.getThickness() == dec * (i + 1) && x.getElecCond(i) == dec * double(i) && y.getElecCond() == dec * double(i) && y.getRelPermittivity() == 1 + i * 0.5 + k && y.getRelPermeability() == 2 + i % 13 && rel(x.getPermittivity(i), (1 + i * 0.5 + k) * EPS0) && rel(x.getPermeability(i), (2 + i % 13) * MU0), "layer-values", w << " layer " << i); }
            MC_CHECK(x.hasFittingOptions() && x.getFittingOptions().getNumberOfPoles() == n && x.getFittingOptions().getMinMaxFreq() == std::make_pair(dec, dec * 1e3), "layer-fitting", w); };
        ML a(id, nm, layers(n), {ML::FittingOptions(std::make_pair(dec, dec * 1e3), n)}); layered(a, n, "made"); std::unique_ptr<ML> c(a.cloneTo<ML>()); layered(*c, n, "copied");
        for (size_t other : {size_t(0), n / 2, n + 7}) { ML b(MatId(3), "b", layers(other)); b = a; layered(b, n, "assigned"); ML d(b); layered(d, n, "copied"); } layered(a, n, "source");
        auto poles = [&](size_t q) { std::vector<I::PoleResidue> v; for (size_t i = 0; i < q; i++) v.push_back(I::PoleResidue(C(-dec * i, i), mat(100. * i + k))); return v; };
        auto sibc = [&](const I& x, const char* w) { mc::step(); MC_REQUIRE(x.getNumberOfPoles() == n && x.getPoleZ().size() == n && same(x.getZInfinity(), mat(dec)) && same(x.getZLinear(), mat(7)) && x.getName() == nm && x.getId() == id, "sibc-values", w); for (size_t i = 0; i < n; i++) MC_CHECK(x.getPoleZ()[i].first == C(-dec * i, i) && same(x.getPoleZ()[i].second, mat(100. * i + k)), "sibc-poles", w << " pole " << i); };
        I s(id, nm, mat(dec), mat(7), poles(n)); sibc(s, "made"); std::unique_ptr<I> sc(s.cloneTo<I>()); sibc(*sc, "copied"); for (size_t other : {size_t(0), n / 2, n + 7}) { I b(MatId(3), "b", mat(1), mat(2), poles(other)); b = s; sibc(b, "assigned"); }
        { std::vector<PMn::Volume::PoleResidue> v; for (size_t i = 0; i < n; i++) v.push_back(PMn::Volume::PoleResidue(C(-1e9 * (i + 1), 2e9 * (k - 1)), C(3e8 * (i + 1), i))); const D x(id, nm, 2, 3, 0, 0, v); std::unique_ptr<D> y(x.cloneTo<D>()); for (const D* z : {&x, (const D*) y.get()}) { mc::step(); MC_REQUIRE(z->getPoleNumber() == n, "dispersive-pole-lost", z->getPoleNumber()); std::multiset<std::pair<double, double>> have, want; for (size_t i = 0; i < n; i++) { have.insert({z->getPole(i).real(), z->getResidue(i).real()}); want.insert({v[i].first.real(), v[i].second.real()}); } MC_CHECK(have == want, "dispersive-pole-lost", n); MC_CHECK(n == 0 || (z->isDispersive() && !z->isClassic() && !z->isSimplyConductive()), "dispersive-not-so", ""); } }
        // numbers
        { PMn::Volume::Classic v(id, nm, dec, 1 / dec, dec * 2, dec * 3); std::unique_ptr<PMn::Volume::Classic> w(v.cloneTo<PMn::Volume::Classic>()); mc::step(2); MC_CHECK(w->getRelativePermittivity() == dec && w->getRelativePermeability() == 1 / dec && w->getElectricConductivity() == dec * 2 && w->getMagneticConductivity() == dec * 3 && rel(w->getImpedance() * w->getAdmitance(), 1) && rel(w->getImpedance(), std::sqrt(MU0 / EPS0) / dec) && rel(w->getPermittivity(), dec * EPS0) && rel(w->getPermeability(), MU0 / dec) && !w->isVacuum() && w->getName() == nm && w->getId() == id, "classic-values", dec);
          PMn::Volume::Classic near(id, nm, 1, 1, dec, 0), near2(id, nm, 1, 1, 0, dec); MC_CHECK(!near.isVacuum() && !near2.isVacuum(), "classic-vacuum", dec);
          PMn::Wire::Wire wi(id, nm, dec, dec * 2, dec * 3, dec * 4, dec * 5, dec * 6, dec * 7); PMn::Multiport::RLC r(id, nm, MP::pRLC, dec, dec * 2, dec * 3); Ext e(nm, wi, &r, nullptr); for (const PMn::Wire::Wire* z : {(const PMn::Wire::Wire*) &wi, (const PMn::Wire::Wire*) &e}) MC_CHECK(z->getRadius() == dec && z->getSeriesResistance() == dec * 2 && z->getSeriesInductance() == dec * 3 && z->getSeriesCapacitance() == dec * 4 && z->getParallelResistance() == dec * 5 && z->getParallelInductance() == dec * 6 && z->getParallelCapacitance() == dec * 7, "wire-values", dec); const auto& er = as<PMn::Multiport::RLC>(*e.getExtreme(0)); MC_CHECK(er.getR() == dec && er.getL() == dec * 2 && er.getC() == dec * 3 && er.getName() == nm && er.getId() == id, "rlc-values", dec);
          PMn::Gap::Gap g(id, nm, dec); MC_CHECK(g.getWidth() == dec && g.getName() == nm, "gap-width", dec); }
        mc::outcome("sizes"); mc::state(MC_STR("size " << n << k));
    });
}
static void body() { sizes(); refused(); histories(); ends(); }
int main(int argc, char** argv) { return mc::main_(argc, argv, body); }

// A problem document (json.h) against the problem the library read from it.
#pragma once
#include "json.h"
#include "geo.h"
#include <memory>
#include "Data.h"
#include "parser/json/Parser.h"
#include "math/function/Gaussian.h"
#include "math/function/BandLimited.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/volume/PML.h"
#include "physicalModel/volume/Dispersive.h"
#include "physicalModel/volume/AnisotropicCrystal.h"
#include "physicalModel/volume/AnisotropicFerrite.h"
#include "physicalModel/surface/Multilayer.h"
#include "physicalModel/surface/SIBCFile.h"
#include "physicalModel/wire/Wire.h"
#include "physicalModel/gap/Gap.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/multiport/Dispersive.h"
#include "source/PlaneWave.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/magnitude/Numerical.h"
#include "source/port/WaveguideRectangular.h"
#include "source/port/TEMCoaxial.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
namespace prob {
using namespace geo;
typedef std::string Str;
namespace PM = SEMBA::PhysicalModel;
namespace SRC = SEMBA::Source;
namespace OR = SEMBA::OutputRequest;
typedef Mesh::Geometric Ge;
// the n numbers of "{1 2 3} {4 5 6}"; a missing one, or what is not a number, compares unequal to everything
inline std::vector<double> nums(const J& j, size_t n) {
    std::vector<double> r;
    if (j.k == J::STR) {
        Str t; for (char c : j.s) t += (c == '{' || c == '}') ? ' ' : c;
        std::istringstream i(t); Str w; char* e;
        while (i >> w) { double v = strtod(w.c_str(), &e); r.push_back(*e || !std::isfinite(v) ? NAN : v); }
    }
    if (r.size() < n) r.resize(n, NAN);
    return r;
}
inline R3 v3(const J& j) { auto n = nums(j, 3); return R3(n[0], n[1], n[2]); }
// the value a label stands for
inline int label(const J& j, const std::map<Str, int>& m, const Str& where) {
    auto i = m.find(j.s);
    MC_REQUIRE(j.k == J::STR && i != m.end(), "accepted-label", where << ": label '" << j.s << "' was accepted");
    return i->second;
}
inline Str str(const J& j, const Str& where) { MC_REQUIRE(j.k == J::STR, "accepted-text", where << ": a text which is missing or of another type was accepted"); return j.s; }

// ---- the base document
inline J solver(double scale = 1.0) { return J::obj({{"solver", "cudg3d"}, {"finalTime", 30e-9}, {"timeStep", 0}, {"cfl", 0.8}, {"forceRestarting", J::boolean(false)}, {"geometryScalingFactor", scale}}); }
inline J classic(int id, const Str& name, double e = 2, double m = 3, double s = 4, double t = 5) {
    return J::obj({{"materialId", id}, {"name", name}, {"materialType", "Classic"}, {"permittivity", e}, {"permeability", m}, {"electricConductivity", s}, {"magneticConductivity", t}});
}
inline J simple(int id, const Str& name, const Str& type) { return J::obj({{"materialId", id}, {"name", name}, {"materialType", type}}); }
inline J gridBox() { return J::obj({{"gridType", "gridCondition"}, {"type", "Step_size"}, {"stepSize", "{0.5 0.25 1.0}"}, {"fitSizeToBox", J::boolean(true)}, {"layerBox", "{2 1 3 0 0 0}"}}); }
inline J gaussian(double f = 1e9) { return J::obj({{"type", "Gaussian"}, {"frequencyMaximum", f}}); }
inline J planewave() { return J::obj({{"sourceType", "planewave"}, {"definitionMode", "by_vectors"}, {"directionVector", "{0.0 0.0 1.0}"}, {"polarizationVector", "{1.0 0.0 0.0}"}, {"magnitude", gaussian()}, {"layerBox", "{1.5 1 2.5 0 0.5 -1}"}}); }
inline J timeDomain() { return J::obj({{"initialTime", 0.0}, {"finalTime", 1e-8}, {"samplingPeriod", 2e-10}}); }
inline J output(const Str& name) { return J::obj({{"gidOutputType", "OutRq_on_layer"}, {"name", name}, {"type", "electricField"}, {"domain", timeDomain()}, {"box", "{1 1 1 0 0 0}"}}); }
inline J connector(const Str& type, int coord) {
    J j = J::obj({{"materialType", "Connector"}, {"connectorType", type}, {"coordIds", coord}});
    if (type == "Conn_sRLC" || type == "Conn_pRLC" || type == "Conn_sLpRC") j.set("resistance", 50).set("inductance", 1e-9).set("capacitance", 2e-12);
    return j;
}
// coordinates 1..8 a box, 9..12 others; one element of each type and more
inline J base() {
    J d = J::obj({{"_format", "Semba Data File in JSON format"}, {"_version", OPENSEMBA_VERSION}});
    d.set("solverOptions", solver());
    d.set("materials", J::arr({simple(1, "metal", "PEC"), classic(4, "glass"), simple(3, "magnetic wall", "PMC")}));
    d.set("grids", J::arr({gridBox()}));
    d.set("layers", J::arr({J::obj({{"id", 1}, {"name", "body"}}), J::obj({{"id", 5}, {"name", "skin"}})}));
    d.set("coordinates", J::arr({"1 0 0 0", "2 1 0 0", "3 1 1 0", "4 0 1 0", "5 0 0 1", "6 1 0 1", "7 1 1 1", "8 0 1 1", "   21  +2.5e+00  -0.5  .25", "12 3 1 0", "13 3 0 0", "30 -1 -2 -3"}));
    d.set("elements", J::obj({{"hexahedra", J::arr({"1 4 1 1 2 3 4 5 6 7 8"})}, {"tetrahedra", J::arr({"7 0 5 1 2 4 5"})},
        {"quadrilateral", J::arr({"3 1 1 1 2 3 4", "10 0 1 2 13 12 3"})}, {"triangle", J::arr({"5 3 0 5 6 21"})}, {"line", J::arr({"11 1 5 21 30", "2 0 0 1 30"})}}));
    d.set("connectorOnPoint", J::arr({connector("Conn_short", 21)}));
    d.set("sources", J::arr({planewave()}));
    d.set("outputRequests", J::arr({output("probe")}));
    return d;
}

// ---- comparison
inline void checkSettings(const J& j, const Argument::Object& s, const Str& where) {
    size_t n = j.items().size();
    MC_CHECK(s.size() == n, "settings-size", where << " holds " << s.size() << " entries instead of " << n);
    for (auto& p : j.o) {
        Str w = where + "/" + p.first;
        MC_REQUIRE(s.existsName(p.first), "settings-lost", w << " is missing");
        const Argument::Object& v = s(p.first);
        switch (p.second.k) {
        case J::OBJ: checkSettings(p.second, v, w); break;
        case J::STR: MC_CHECK(v.getString() == p.second.s, "settings-value", w << " is " << v.getString()); break;
        case J::BOOL: MC_CHECK(v.getString() == (p.second.b() ? "1" : "0"), "settings-value", w << " is " << v.getString() << " instead of " << p.second.s); break;
        case J::NUM: MC_CHECK(v.getReal() == p.second.d(), "settings-value", w << " is " << v.getString() << " instead of " << p.second.s); break;
        default: break;
        }
    }
}
#define P_EQ(sig, got, want) do { auto g_ = (got); auto w_ = (want); MC_CHECK(g_ == w_, sig, where << ": " #got " is " << g_ << " instead of " << w_); } while (0)
#define P_R3(sig, got, want) do { R3 g_ = (got); R3 w_ = (want); MC_CHECK(eq(g_, w_, 1e-12), sig, where << ": " #got " is " << p(g_) << " instead of " << p(w_)); } while (0)
inline Math::Axis::Local axes(const J& j) { auto n = nums(j, 6); return Math::Axis::Local(R3(n[0], n[1], n[2]), R3(n[3], n[4], n[5])); }
inline bool same(const Math::MatR33& a, const Math::MatR33& b) { for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) if (!mc::near(a(i, k), b(i, k), 1e-12)) return false; return true; }
template<class T> const T* as(const PM::PhysicalModel* m, const Str& where) { MC_REQUIRE(m->is<T>(), "material-type", where << " is a " << typeid(*m).name()); return m->castTo<T>(); }
inline void checkMaterial(const J& j, const PM::PhysicalModel* m, const Str& where, bool withId = true) {
    const char* sig = "material-parameter";
    if (j.has("materialId") && withId) P_EQ("material-id", m->getId().toInt(), (size_t)j["materialId"].i());
    P_EQ("material-name", m->getName(), j["name"].s); if (j.has("name")) str(j["name"], where);
    Str t = j["materialType"].s;
    if (t == "PEC") as<PM::Predefined::PEC>(m, where);
    else if (t == "PMC") as<PM::Predefined::PMC>(m, where);
    else if (t == "SMA") as<PM::Predefined::SMA>(m, where);
    else if (t == "PML") { auto c = as<PM::Volume::PML>(m, where); Math::Axis::Local w = axes(j["localAxes"]); P_R3(sig, c->getOrientation().getOrigin(), w.getOrigin()); P_R3(sig, c->getOrientation().getEulerAngles(), w.getEulerAngles()); }
    else if (t == "Classic") {
        auto c = as<PM::Volume::Classic>(m, where);
        P_EQ(sig, c->getRelativePermittivity(), j["permittivity"].d()); P_EQ(sig, c->getRelativePermeability(), j["permeability"].d());
        P_EQ(sig, c->getElectricConductivity(), j["electricConductivity"].d()); P_EQ(sig, c->getMagneticConductivity(), j["magneticConductivity"].d());
    } else if (t == "Dispersive") { auto c = as<PM::Volume::Dispersive>(m, where); P_EQ(sig, Str(c->getFile()), str(j["filename"], where)); }
    else if (t == "Wire") {
        auto c = as<PM::Wire::Wire>(m, where); Str k = j["wireType"].s; label(j["wireType"], {{"Standard", 0}, {"SeriesParallel", 1}, {"Dispersive", 2}}, where);
        P_EQ(sig, c->getRadius(), j["radius"].d());
        MC_CHECK(c->isDispersive() == (k == "Dispersive") && c->isSeriesParallel() == (k == "SeriesParallel"), "material-type", where << " is not the kind of wire written");
        if (k == "Dispersive") P_EQ(sig, c->getFilename(), str(j["filename"], where));
        else { P_EQ(sig, c->getSeriesResistance(), j["resistance"].d()); P_EQ(sig, c->getSeriesInductance(), j["inductance"].d()); }
        if (k == "SeriesParallel") {
            P_EQ(sig, c->getSeriesCapacitance(), j["capacitance"].d()); P_EQ(sig, c->getParallelResistance(), j["parallelResistance"].d());
            P_EQ(sig, c->getParallelInductance(), j["parallelInductance"].d()); P_EQ(sig, c->getParallelCapacitance(), j["parallelCapacitance"].d());
        }
    } else if (t == "Anisotropic") {
        Math::Axis::Local w = axes(j["localAxes"]);
        if (label(j["anisotropicModel"], {{"Crystal", 1}, {"Ferrite", 0}}, where)) {
            auto c = as<PM::Volume::AnisotropicCrystal>(m, where);
            P_R3(sig, c->getPrincipalAxesRelativePermittivity(), v3(j.has("relativePermittivityPrincipalAxes") ? j["relativePermittivityPrincipalAxes"] : j["relativePermittiviy"]));
            P_EQ(sig, c->getRelativePermeability(), j["crystalRelativePermeability"].d());
        } else {
            auto c = as<PM::Volume::AnisotropicFerrite>(m, where);
            PM::Volume::AnisotropicFerrite ref(MatId(1), "", w, j["kappa"].d(), j["ferriteRelativePermeability"].d(), j["ferriteRelativePermittivity"].d());
            MC_CHECK(same(c->getRelPermittivityMatR(), ref.getRelPermittivityMatR()) && same(c->getRelPermeabilityMatR(), ref.getRelPermeabilityMatR()) && same(c->getRelPermeabilityMatI(), ref.getRelPermeabilityMatI()), sig, where << ": ferrite tensors differ");
        }
        auto c = m->castTo<PM::Volume::Anisotropic>();
        P_R3(sig, c->getLocalAxe().getOrigin(), w.getOrigin()); P_R3(sig, c->getLocalAxe().getEulerAngles(), w.getEulerAngles());
    } else if (t == "SIBC") {
        if (label(j["surfaceType"], {{"File", 1}, {"Layers", 0}}, where)) { auto c = as<PM::Surface::SIBCFile>(m, where); P_EQ(sig, Str(c->getFile()), str(j["filename"], where)); }
        else {
            auto c = as<PM::Surface::Multilayer>(m, where); auto l = j["layers"].items();
            MC_REQUIRE(c->getNumberOfLayers() == l.size(), sig, where << " has " << c->getNumberOfLayers() << " layers");
            for (size_t i = 0; i < l.size(); i++) {
                P_EQ(sig, c->getLayer(i).getThickness(), l[i]["thickness"].d()); P_EQ(sig, c->getLayer(i).getRelPermittivity(), l[i]["permittivity"].d());
                P_EQ(sig, c->getLayer(i).getRelPermeability(), l[i]["permeability"].d()); P_EQ(sig, c->getElecCond(i), l[i]["elecCond"].d());
            }
            MC_REQUIRE(c->hasFittingOptions() == j["useSembaVectorFitting"].d(), sig, where << ": fitting options");
            if (c->hasFittingOptions()) { P_EQ(sig, c->getFittingOptions().getMinMaxFreq().first, j["freqMin"].d()); P_EQ(sig, c->getFittingOptions().getMinMaxFreq().second, j["freqMax"].d()); P_EQ(sig, c->getFittingOptions().getNumberOfPoles(), (size_t)j["numberOfPoles"].i()); }
        }
    } else if (t.find("Thin_gap") == 0) { auto c = as<PM::Gap::Gap>(m, where); P_EQ(sig, c->getWidth(), j["width"].d()); }
    else if (t == "Connector") {
        auto c = as<PM::Multiport::Multiport>(m, where); Str k = j["connectorType"].s;
        static const std::map<Str, int> kinds = {{"Conn_short", 1}, {"Conn_open", 2}, {"Conn_matched", 3}, {"Conn_sRLC", 11}, {"Conn_sLpRC", 16}, {"Conn_pRLC", 18}, {"Conn_dispersive", 100}};
        P_EQ("material-type", (int)c->getType(), label(j["connectorType"], kinds, where));
        if (k == "Conn_dispersive") P_EQ(sig, as<PM::Multiport::Dispersive>(m, where)->getFilename(), str(j["filename"], where));
        if (k == "Conn_matched" || k.substr(0, 6) == "Conn_s" && k != "Conn_short" || k[5] == 'p') { auto r = as<PM::Multiport::RLC>(m, where); P_EQ(sig, r->getR(), j["resistance"].d()); P_EQ(sig, r->getL(), j["inductance"].d()); P_EQ(sig, r->getC(), j["capacitance"].d()); }
    } else label(j["materialType"], {}, where);
}
inline void checkMagnitude(const J& j, const SRC::Magnitude::Magnitude* m, const Str& where) {
    MC_REQUIRE(m != nullptr, "magnitude", where << " has no magnitude");
    Str t = j["type"].s; label(j["type"], {{"File", 0}, {"Gaussian", 1}, {"Band_limited", 2}}, where);
    if (t == "File") {
        MC_REQUIRE(m->is<SRC::Magnitude::Numerical>(), "magnitude", where << " is not read from a file");
        P_EQ("magnitude", Str(*m->castTo<SRC::Magnitude::Numerical>()), str(j["filename"], where));
        return;
    }
    MC_REQUIRE(!m->is<SRC::Magnitude::Numerical>(), "magnitude", where << " is read from a file");
    double f = j["frequencyMaximum"].d();
    Math::Function::Gaussian g(0.2 / f, 1.2 / f);
    std::unique_ptr<Math::Function::BandLimited> b; if (t != "Gaussian") b.reset(new Math::Function::BandLimited(j["frequencyMinimum"].d(), f));
    for (double x : {0.0, 0.3, 0.9, 1.2, 1.31, 2.0, 2.7}) {
        double want = t == "Gaussian" ? g(x / f) : (*b)(x / f), got = m->evaluate(x / f);
        MC_CHECK(mc::near(got, want), "magnitude", where << ": value at " << x / f << " is " << got << " instead of " << want);
    }
}
// the one element of a group is the box, made of vertices of the mesh
template<class G> void checkBox(const Ge* m, const G& g, const J& j, double scale, const Str& where) {
    MC_REQUIRE(g.size() == 1, "box-elements", where << ": " << g.size() << " elements for a box");
    auto n = nums(j, 6); R3 a(n[0], n[1], n[2]), b(n[3], n[4], n[5]);
    std::vector<R3> want;
    for (int c = 0; c < 8; c++) {
        R3 q((c & 1 ? a : b)(0), (c & 2 ? a : b)(1), (c & 4 ? a : b)(2)); bool dup = false;
        for (auto& w : want) dup |= eq(w, q, 1e-12);
        if (!dup) want.push_back(q);
    }
    for (auto& q : want) q = mul(q, scale);
    const ElemR* e = g(0)->template castTo<ElemR>();
    MC_REQUIRE(m->elems().existId(e->getId()) && m->elems().getId(e->getId()) == e, "foreign-element", where << ": the box is not an element of the mesh");
    MC_REQUIRE(e->numberOfVertices() == want.size() && (want.size() == 8 ? e->template is<HexR8>() : want.size() == 4 ? e->template is<QuaR4>() : want.size() == 2 ? e->template is<LinR2>() : e->template is<NodR>()),
        "box-elements", where << ": a box of " << want.size() << " corners became a " << typeid(*e).name());
    for (auto& q : want) {
        int hits = 0; for (size_t i = 0; i < e->numberOfVertices(); i++) hits += eq(e->getV(i)->pos(), q, 1e-12);
        MC_CHECK(hits == 1, "box-corners", where << ": corner " << p(q) << " of the box was found " << hits << " times");
    }
}
// the elements named which are of the asked kind
template<class T, class G> void checkElems(const Ge* m, const G& g, const J& ids, const Str& where) {
    std::vector<const Elem*> want;
    for (auto& i : ids.items()) {
        MC_REQUIRE(m->elems().existId(ElemId(i.i())), "elements-referred", where << " refers to element " << i.s << ", which does not exist");
        const Elem* e = m->elems().getId(ElemId(i.i())); if (e->is<T>()) want.push_back(e);
    }
    MC_REQUIRE(g.size() == want.size(), "elements-referred", where << " refers to " << g.size() << " elements instead of " << want.size());
    for (size_t i = 0; i < want.size(); i++)
        MC_CHECK(static_cast<const Elem*>(g(i)) == want[i], "elements-referred", where << " refers to element " << g(i)->getId().toStr() << " instead of " << want[i]->getId().toStr());
}
template<class G> void checkNodes(const Ge* m, const G& g, const J& list, const Str& where) {
    auto ids = list.items();
    MC_REQUIRE(g.size() == ids.size(), "elements-referred", where << " refers to " << g.size() << " points instead of " << ids.size());
    for (size_t i = 0; i < ids.size(); i++) {
        MC_REQUIRE(g(i)->template is<NodR>() && m->elems().existId(g(i)->getId()), "elements-referred", where << ": point " << i << " is not a node of the mesh");
        auto n = g(i)->template castTo<NodR>();
        MC_CHECK(n->getV(0) == m->coords().getId(CoordId(ids[i].i())), "elements-referred", where << ": point " << i << " is at vertex " << n->getV(0)->getId().toStr() << " instead of " << ids[i].s);
    }
}
inline void checkSource(const J& j, const SRC::Base* s, const Ge* m, double scale, const Str& where) {
    Str t = j["sourceType"].s;
    checkMagnitude(j["magnitude"], s->getMagnitude(), where);
    auto kind = [&](bool ok) { MC_REQUIRE(ok, "source-type", where << " is a " << typeid(*s).name()); };
    const char* sig = "source-parameter";
    if (t == "planewave") {
        kind(s->is<SRC::PlaneWave>()); auto c = s->castTo<SRC::PlaneWave>();
        Str d = j["definitionMode"].s; label(j["definitionMode"], {{"by_vectors", 0}, {"by_angles", 0}, {"randomized_multisource", 0}}, where); const double deg = M_PI / 180;
        MC_REQUIRE(c->isRandomic() == (d == "randomized_multisource"), sig, where << ": randomised");
        auto dir = [&](double th, double ph) { return R3(sin(th * deg) * cos(ph * deg), sin(th * deg) * sin(ph * deg), cos(th * deg)); };
        if (d == "by_vectors") { P_R3(sig, c->getDirection(), v3(j["directionVector"])); P_R3(sig, c->getPolarization(), v3(j["polarizationVector"])); }
        else if (d == "by_angles") { P_R3(sig, c->getDirection(), dir(j["directionTheta"].d(), j["directionPhi"].d())); P_R3(sig, c->getPolarization(), dir(j["polarizationAlpha"].d(), j["polarizationBeta"].d())); }
        else { P_EQ(sig, (long)c->getNumberOfRandomPlanewaves(), j["numberOfRandomPlanewaves"].i()); P_EQ(sig, c->getRelativeVariationOfRandomDelay(), j["relativeVariationOfRandomDelay"].d()); }
        checkBox(m, c->elems(), j["layerBox"], scale, where);
    } else if (t == "generator") {
        kind(s->is<SRC::Generator>()); auto c = s->castTo<SRC::Generator>();
        P_EQ(sig, (int)c->getType(), label(j["type"], {{"voltage", SRC::Generator::voltage}, {"current", SRC::Generator::current}}, where));
        checkNodes(m, c->elems(), j["coordIds"], where);
    } else if (t == "sourceOnLine") {
        kind(s->is<SRC::OnLine>()); auto c = s->castTo<SRC::OnLine>();
        P_EQ(sig, (int)c->getType(), label(j["type"], {{"electricField", SRC::OnLine::electric}, {"magneticField", SRC::OnLine::magnetic}}, where));
        P_EQ(sig, (int)c->getHardness(), label(j["hardness"], {{"soft", SRC::OnLine::soft}, {"hard", SRC::OnLine::hard}}, where));
        checkElems<Lin>(m, c->elems(), j["elemIds"], where);
    } else if (t == "waveguidePort") {
        kind(s->is<SRC::Port::WaveguideRectangular>()); auto c = s->castTo<SRC::Port::WaveguideRectangular>();
        P_EQ(sig, (int)c->getExcitationMode(), label(j["excitationMode"], {{"TE", SRC::Port::Waveguide::TE}, {"TM", SRC::Port::Waveguide::TM}}, where)); label(j["shape"], {{"Rectangular", 0}}, where);
        P_EQ(sig, c->getMode().first, (size_t)j["firstMode"].i()); P_EQ(sig, c->getMode().second, (size_t)j["secondMode"].i());
        checkElems<Surf>(m, c->elems(), j["elemIds"], where);
        double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
        for (size_t i = 0; i < c->size(); i++) { auto e = c->elems()(i)->castTo<ElemR>(); for (size_t k = 0; k < e->numberOfVertices(); k++) for (int x = 0; x < 3; x++) { lo[x] = std::min(lo[x], e->getV(k)->pos()(x)); hi[x] = std::max(hi[x], e->getV(k)->pos()(x)); } }
        P_R3("port-box", c->getOrigin(), R3(lo[0], lo[1], lo[2]));
        MC_CHECK(mc::near(c->getWidth(), hi[0] - lo[0], 1e-12) && mc::near(c->getHeight(), hi[1] - lo[1], 1e-12), "port-box", where << ": port of " << c->getWidth() << " by " << c->getHeight() << " on elements of " << hi[0] - lo[0] << " by " << hi[1] - lo[1]);
    } else {
        label(j["sourceType"], {{"temPort", 0}}, where); kind(s->is<SRC::Port::TEMCoaxial>()); auto c = s->castTo<SRC::Port::TEMCoaxial>();
        P_EQ(sig, (int)c->getExcitationMode(), label(j["excitationMode"], {{"Voltage", SRC::Port::TEM::voltage}, {"Current", SRC::Port::TEM::current}}, where));
        P_R3(sig, c->getOrigin(), mul(v3(j["origin"]), scale));
        if (j["excitationMode"].s == "Voltage" && v3(j["origin"]).norm() < 1e3 && j["innerRadius"].d() > 0 && j["outerRadius"].d() > j["innerRadius"].d()) {
            double x = 0.7 * scale, want = 1 / (x * log(j["outerRadius"].d() / j["innerRadius"].d()));
            P_R3(sig, c->getWeight(geo::add(mul(v3(j["origin"]), scale), R3(x, 0, 0))), R3(want, 0, 0));
        }
        checkElems<Surf>(m, c->elems(), j["elemIds"], where);
    }
}
inline void checkDomain(const J& j, const OR::Domain& d, const Str& where) {
    const char* sig = "domain";
    P_EQ(sig, d.isTimeDomain(), j.has("initialTime")); P_EQ(sig, d.isFrequencyDomain(), j.has("initialFrequency")); P_EQ(sig, d.isUsingTransferFunction(), j.has("initialFrequency") && j.has("transferFunctionFile"));
    if (d.isTimeDomain()) { P_EQ(sig, d.getInitialTime(), j["initialTime"].d()); P_EQ(sig, d.getFinalTime(), j["finalTime"].d()); P_EQ(sig, d.getSamplingPeriod(), j["samplingPeriod"].d()); }
    if (d.isFrequencyDomain()) { P_EQ(sig, d.getInitialFrequency(), j["initialFrequency"].d()); P_EQ(sig, d.getFinalFrequency(), j["finalFrequency"].d()); P_EQ(sig, d.getFrequencyStep(), j["frequencyStep"].d()); P_EQ(sig, (double)d.isLogFrequencySweep(), j["logFrequencySweep"].d()); }
    if (d.isUsingTransferFunction()) P_EQ(sig, d.getTransferFunctionFile(), str(j["transferFunctionFile"], where));
}
inline void checkOutput(const J& j, const OR::Base* o, const Ge* m, double scale, const Str& where) {
    static const std::map<Str, int> types = {{"electricField", OR::Base::electric}, {"magneticField", OR::Base::magnetic}, {"electricFieldNormals", OR::Base::electricFieldNormals}, {"magneticFieldNormals", OR::Base::magneticFieldNormals},
        {"current", OR::Base::current}, {"bulkCurrentElectric", OR::Base::bulkCurrentElectric}, {"bulkCurrentMagnetic", OR::Base::bulkCurrentMagnetic}, {"surfaceCurrentDensity", OR::Base::surfaceCurrentDensity}};
    P_EQ("output-name", o->getName(), str(j["name"], where));
    checkDomain(j["domain"], o->domain(), where);
    Str g = j["gidOutputType"].s;
    bool bulk = j["type"].s.find("bulk") == 0, far = g == "Far_field";
    MC_REQUIRE(o->is<OR::BulkCurrent>() == bulk && o->is<OR::FarField>() == far, "output-type", where << " is a " << typeid(*o).name());
    if (!far) P_EQ("output-type", (int)o->getType(), label(j["type"], types, where));
    if (bulk) { auto c = o->castTo<OR::BulkCurrent>(); P_EQ("output-parameter", (int)c->getDir(), label(j["direction"], {{"x", 0}, {"y", 1}, {"z", 2}}, where)); P_EQ("output-parameter", (long)c->getSkip(), j["skip"].i()); }
    if (far) {
        auto c = o->castTo<OR::FarField>(); const double deg = M_PI / 180;
        double got[6] = {c->getInitialTheta(), c->getFinalTheta(), c->getStepTheta(), c->getInitialPhi(), c->getFinalPhi(), c->getStepPhi()};
        const char* n[6] = {"initialTheta", "finalTheta", "stepTheta", "initialPhi", "finalPhi", "stepPhi"};
        for (int i = 0; i < 6; i++) MC_CHECK(mc::near(got[i], j[n[i]].d() * deg, 1e-12), "output-parameter", where << ": " << n[i] << " is " << got[i] << " radians instead of " << j[n[i]].s << " degrees");
    }
    if (far && o->elems().size() == 0) { auto n = nums(j["box"], 6); bool flat = false; for (int d = 0; d < 3; d++) flat |= n[d] == n[3 + d]; MC_CHECK(flat, "box-elements", where << ": no elements for a box"); }   // not the boundary of a volume: nothing
    else if (g == "OutRq_on_layer" || far) checkBox(m, o->elems(), j["box"], scale, where);
    else if (g == "OutRq_on_point") checkNodes(m, o->elems(), j["elemIds"], where);
    else if (g == "OutRq_on_line") { if (bulk) checkElems<Elem>(m, o->elems(), j["elemIds"], where); else checkElems<Lin>(m, o->elems(), j["elemIds"], where); }
    else { label(j["gidOutputType"], {{"OutRq_on_surface", 0}}, where); if (bulk) checkElems<Elem>(m, o->elems(), j["elemIds"], where); else checkElems<Surf>(m, o->elems(), j["elemIds"], where); }
}
inline void checkGrid(const J& j, const Grid3& g, double scale, const Str& where) {
    std::vector<Math::Real> want[3];
    Str t = j["gridType"].s;
    if (t == "positionsFromFile") { want[0] = {0, 1, 2.5}; want[1] = {-1, 0, 4}; want[2] = {0, 0.5}; }
    else if (t == "nativeGiD") {
        if (j["xCoordinates"].items().empty()) {
            R3 c = v3(j["corner"]), b = v3(j["boxSize"]);
            P_R3("grid", g.getOrigin(), mul(c, scale));
            for (int d = 0; d < 3; d++) MC_CHECK(mc::near(g.getPos(d).back(), scale * (c(d) + b(d)), 1e-12), "grid", where << ": axis " << d << " ends at " << g.getPos(d).back());
            return;
        }
        const char* n[3] = {"xCoordinates", "yCoordinates", "zCoordinates"};
        for (int d = 0; d < 3; d++) for (auto& v : j[n[d]].items()) want[d].push_back(v.d());
    } else {
        label(j["gridType"], {{"gridCondition", 0}}, where);
        auto n = nums(j["layerBox"], 6);
        for (int d = 0; d < 3; d++) if (n[d] < n[3 + d]) std::swap(n[d], n[3 + d]);
        Grid3 ref;
        BoxR3 box(R3(n[3], n[4], n[5]), R3(n[0], n[1], n[2]));
        R3 step;
        if (j["type"].s == "Number_of_cells") {
            auto c = nums(j["numberOfCells"], 3);
            for (int d = 0; d < 3; d++) MC_REQUIRE(c[d] >= 1 && c[d] == floor(c[d]), "accepted-grid", where << ": " << c[d] << " cells on axis " << d);
            for (int d = 0; d < 3; d++) for (int k = 0; k <= c[d]; k++) want[d].push_back(n[3 + d] + (n[d] - n[3 + d]) * k / c[d]);
        } else {
            step = v3(j["stepSize"]);
            for (int d = 0; d < 3; d++) {
                double len = n[d] - n[3 + d]; bool fit = j["fitSizeToBox"].b(); MC_REQUIRE(len > 0 && step(d) > 0, "accepted-grid", where << ": a box of " << len << " in steps of " << step(d) << " on axis " << d);
                long k = fit ? std::max(1L, lround(len / step(d))) : (long)ceil(len / step(d) - 1e-9);
                for (long i = 0; i <= k; i++) want[d].push_back(fit ? n[3 + d] + len * i / k : n[3 + d] + step(d) * i);
            }
        }
        if (j.has("lowerPaddingMeshSize")) {
            ref = Grid3(want);
            std::pair<R3, R3> size(v3(j["lowerPaddingMeshSize"]), v3(j["upperPaddingMeshSize"])), pad(v3(j["lowerPadding"]), v3(j["upperPadding"]));
            if (j["boundaryPaddingType"].s == "by_number_of_cells") for (int d = 0; d < 3; d++) {       // a mesh size of zero means the size of the cells at that bound
                pad.first(d) *= size.first(d) ? size.first(d) : ref.getStep(d, 0); pad.second(d) *= size.second(d) ? size.second(d) : ref.getStep(d, ref.getNumCells()(d) - 1);
            }
            ref.enlarge(pad, size);
            for (int d = 0; d < 3; d++) want[d] = ref.getPos(d);
        }
    }
    for (int d = 0; d < 3; d++) {
        auto got = g.getPos(d);
        MC_REQUIRE(got.size() == want[d].size(), "grid", where << ": axis " << d << " has " << got.size() << " positions instead of " << want[d].size());
        for (size_t i = 0; i < got.size(); i++) MC_CHECK(mc::near(got[i], want[d][i] * scale, 1e-12), "grid", where << ": axis " << d << " position " << i << " is " << got[i] << " instead of " << want[d][i] * scale);
    }
}
// everything the problem points to belongs to the problem
inline void checkConsistent(const Data& d) {
    if (!d.mesh) return;
    const Ge* m = d.mesh->castTo<Ge>();
    for (size_t i = 0; i < m->elems().size(); i++) {
        const ElemR* e = m->elems()(i);
        for (size_t k = 0; k < e->numberOfCoordinates(); k++) {
            MC_REQUIRE(e->getV(k) != nullptr, "foreign-vertex", "element " << e->getId().toStr() << " has no vertex " << k);
            MC_REQUIRE(m->coords().existId(e->getV(k)->getId()) && m->coords().getId(e->getV(k)->getId()) == e->getV(k), "foreign-vertex", "vertex " << k << " of element " << e->getId().toStr() << " is not one of the mesh");
        }
        if (e->getLayer()) MC_REQUIRE(m->layers().existId(e->getLayerId()) && m->layers().getId(e->getLayerId()) == e->getLayer(), "foreign-layer", "layer of element " << e->getId().toStr());
        if (e->getModel()) MC_REQUIRE(d.physicalModels && d.physicalModels->existId(e->getMatId()) && static_cast<const Element::Model*>(d.physicalModels->getId(e->getMatId())) == e->getModel(), "foreign-material", "material of element " << e->getId().toStr());
    }
    auto belongs = [&](const Element::Group<const Elem>& g, const char* w) { for (size_t i = 0; i < g.size(); i++) MC_REQUIRE(g(i) && m->elems().existId(g(i)->getId()) && static_cast<const Elem*>(m->elems().getId(g(i)->getId())) == g(i), "foreign-element", w << " refers to an element that is not of the mesh"); };
    if (d.sources) for (size_t i = 0; i < d.sources->size(); i++) belongs((*d.sources)(i)->elems(), "a source");
    if (d.outputRequests) for (size_t i = 0; i < d.outputRequests->size(); i++) belongs((*d.outputRequests)(i)->elems(), "an output request");
}
inline void checkProblem(const J& j, const Data& d) {
    double scale = 1;
    if (j.has("solverOptions")) {
        MC_REQUIRE(d.solver != nullptr, "solver", "no solver options");
        MC_CHECK(d.solver->getName() == str(j["solverOptions"]["solver"], "solver"), "solver", "solver is " << d.solver->getName());
        checkSettings(j["solverOptions"], d.solver->getSettings(), "solverOptions");
        { const J& f = j["solverOptions"]["geometryScalingFactor"]; scale = f.k == J::STR ? nums(f, 1)[0] : f.d(); }
    } else MC_CHECK(d.solver == nullptr, "solver", "solver options out of nowhere");
    if (scale == 0) return;                                                   // everything collapses into a point
    auto mats = j["materials"].items(), conns = j["connectorOnPoint"].items();
    MC_REQUIRE(d.physicalModels && d.physicalModels->size() == mats.size() + conns.size(), "materials", (d.physicalModels ? d.physicalModels->size() : 0) << " materials instead of " << mats.size() + conns.size());
    for (size_t i = 0; i < mats.size(); i++) checkMaterial(mats[i], (*d.physicalModels)(i), "material " + std::to_string(i));
    MC_REQUIRE(d.mesh && d.mesh->is<Ge>(), "mesh", "no mesh");
    const Ge* m = d.mesh->castTo<Ge>();
    checkConsistent(d);
    auto grids = j["grids"].items(); MC_REQUIRE(!grids.empty(), "accepted-grid", "a problem without grid was accepted");
    checkGrid(grids[0], m->grid(), scale, "grid");
    auto lays = j["layers"].items();
    MC_REQUIRE(m->layers().size() == lays.size(), "layers", m->layers().size() << " layers instead of " << lays.size());
    for (size_t i = 0; i < lays.size(); i++) {
        MC_REQUIRE(m->layers().existId(LayerId(lays[i]["id"].i())), "layers", "no layer " << lays[i]["id"].s);
        Str nm = str(lays[i]["name"], "layer"); std::replace(nm.begin(), nm.end(), ' ', '_');          // layer names hold no blanks
        MC_CHECK(m->layers().getId(LayerId(lays[i]["id"].i()))->getName() == nm, "layers", "layer " << lays[i]["id"].s << " is named " << m->layers().getId(LayerId(lays[i]["id"].i()))->getName());
    }
    auto coords = j["coordinates"].items();
    for (auto& c : coords) {
        auto n = nums(c, 4); for (int i = 0; i < 4; i++) MC_REQUIRE(n[i] == n[i] && (i || (n[0] >= 0 && n[0] < 1e18)), "accepted-vertex", "vertex '" << c.s << "' was accepted");
        MC_REQUIRE(m->coords().existId(CoordId((size_t)n[0])), "coordinates", "no vertex " << n[0]);
        R3 q = m->coords().getId(CoordId((size_t)n[0]))->pos();
        MC_CHECK(eq(q, mul(R3(n[1], n[2], n[3]), scale), 1e-12), "coordinates", "vertex '" << c.s << "' is at " << p(q));
    }
    size_t nElems = conns.size();
    static const struct { const char* n; size_t v; } kinds[] = {{"hexahedra", 8}, {"tetrahedra", 4}, {"quadrilateral", 4}, {"triangle", 3}, {"line", 2}};
    for (int k = 0; k < 5; k++) for (auto& e : j["elements"][kinds[k].n].items()) {
        auto n = nums(e, 3 + kinds[k].v); nElems++;
        for (auto v : n) MC_REQUIRE(v == v && v >= 0 && v < 1e18, "accepted-element", "element '" << e.s << "' was accepted");
        MC_REQUIRE(m->elems().existId(ElemId((size_t)n[0])), "elements", "no element " << n[0]);
        const ElemR* r = m->elems().getId(ElemId((size_t)n[0]));
        MC_REQUIRE(k == 0 ? r->is<HexR8>() : k == 1 ? r->is<Tet4>() : k == 2 ? r->is<QuaR4>() : k == 3 ? r->is<Tri3>() : r->is<LinR2>(), "elements", "element " << n[0] << " is a " << typeid(*r).name());
        MC_CHECK(r->getMatId().toInt() == (size_t)n[1] && (n[1] != 0) == (r->getModel() != nullptr), "elements", "element " << n[0] << " has material " << r->getMatId().toStr() << " instead of " << n[1]);
        MC_CHECK(r->getLayerId().toInt() == (size_t)n[2] && (n[2] != 0) == (r->getLayer() != nullptr), "elements", "element " << n[0] << " has layer " << r->getLayerId().toStr() << " instead of " << n[2]);
        MC_REQUIRE(r->numberOfCoordinates() == kinds[k].v, "elements", "element " << n[0] << " has " << r->numberOfCoordinates() << " vertices");
        for (size_t i = 0; i < kinds[k].v; i++) MC_CHECK(r->getV(i)->getId().toInt() == (size_t)n[3 + i], "elements", "vertex " << i << " of element " << n[0] << " is " << r->getV(i)->getId().toStr() << " instead of " << n[3 + i]);
    }
    for (size_t i = 0; i < conns.size(); i++) {
        const PM::PhysicalModel* c = (*d.physicalModels)(mats.size() + i);
        checkMaterial(conns[i], c, "connector " + std::to_string(i), false);
        size_t hits = 0;
        for (size_t k = 0; k < m->elems().size(); k++) if (m->elems()(k)->getModel() == static_cast<const Element::Model*>(c)) {
            hits++;
            MC_REQUIRE(m->elems()(k)->is<NodR>(), "connector", "connector " << i << " is not on a node");
            MC_CHECK(m->elems()(k)->getV(0)->getId().toInt() == (size_t)conns[i]["coordIds"].i(), "connector", "connector " << i << " is on vertex " << m->elems()(k)->getV(0)->getId().toStr());
        }
        MC_CHECK(hits == 1, "connector", "connector " << i << " is on " << hits << " elements");
    }
    auto src = j["sources"].items(), out = j["outputRequests"].items();
    MC_REQUIRE(d.sources && d.sources->size() == src.size(), "sources", "wrong number of sources");
    for (size_t i = 0; i < src.size(); i++) {
        checkSource(src[i], (*d.sources)(i), m, scale, "source " + std::to_string(i));
        nElems += src[i]["sourceType"].is("planewave") ? 1 : src[i]["sourceType"].is("generator") ? src[i]["coordIds"].items().size() : 0;
    }
    MC_REQUIRE(d.outputRequests && d.outputRequests->size() == out.size(), "outputs", "wrong number of output requests");
    for (size_t i = 0; i < out.size(); i++) {
        checkOutput(out[i], (*d.outputRequests)(i), m, scale, "output " + std::to_string(i));
        Str g = out[i]["gidOutputType"].s; nElems += g == "OutRq_on_layer" || g == "Far_field" ? 1 : g == "OutRq_on_point" ? out[i]["elemIds"].items().size() : 0;
    }
    MC_CHECK(m->elems().size() == nElems, "elements", m->elems().size() << " elements instead of " << nElems);
    std::set<size_t> ids; for (size_t i = 0; i < m->elems().size(); i++) ids.insert(m->elems()(i)->getId().toInt());
    MC_CHECK(ids.size() == nElems && !ids.count(0), "elements", "element ids are not distinct and non-null");
}
inline Str shape(const Data& d) {
    std::string r = MC_STR((d.solver ? d.solver->getName() : "-") << "|");
    for (size_t i = 0; i < d.physicalModels->size(); i++) r += MC_STR(typeid(*(*d.physicalModels)(i)).name() << (*d.physicalModels)(i)->getId().toStr() << ";");
    const Ge* m = d.mesh->castTo<Ge>();
    for (int k = 0; k < 3; k++) r += mc::vec(m->grid().getPos(k));
    for (size_t i = 0; i < m->coords().size(); i++) r += MC_STR(m->coords()(i)->getId().toStr() << m->coords()(i)->pos());
    for (size_t i = 0; i < m->elems().size(); i++) { auto e = m->elems()(i); r += MC_STR("\n" << typeid(*e).name() << e->getId().toStr() << "," << e->getMatId().toStr() << "," << e->getLayerId().toStr()); for (size_t k = 0; k < e->numberOfVertices(); k++) r += MC_STR("," << e->getV(k)->getId().toStr()); }
    for (size_t i = 0; i < d.sources->size(); i++) r += MC_STR(typeid(*(*d.sources)(i)).name() << (*d.sources)(i)->elems().size());
    for (size_t i = 0; i < d.outputRequests->size(); i++) r += MC_STR((*d.outputRequests)(i)->getName() << (int)(*d.outputRequests)(i)->getType() << (*d.outputRequests)(i)->elems().size());
    return r;
}
// files the documents name
inline void files() {
    static bool done = false; if (done) return; done = true;
    auto put = [](const char* n, const char* s) { FILE* f = fopen(n, "w"); if (f) { fputs(s, f); fclose(f); } };
    put("signal.exc", "0.0 0.0\n1e-9 1.0\n2e-9 0.5\n");
    put("poles.dat", "data\n"); put("skin.mibc", "data\n"); put("conn.dat", "data\n"); put("wire.dat", "data\n"); put("tf.dat", "0 1\n");
    put("grid.dat", "\"xs\": [0, 1, 2.5], \"ys\": [-1, 0, 4], \"zs\": [0, 0.5]\n");
}
} // namespace prob

// P04: copies of meshes and of whole problems are complete and independent.
// Every mesh content of the bound x every way of copying x every order of
// changing and destroying the two sides; the same for whole problems with every
// kind of source and output request.  Oracle: canonical rendering through the
// public getters, plus membership of every referenced item in the copy's groups.
#include "geo.h"
#include "Data.h"
#include "math/function/Gaussian.h"
#include "source/PlaneWave.h"
#include "source/Dipole.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/port/WaveguideRectangular.h"
#include "source/port/TEMCoaxial.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/volume/Classic.h"
using namespace geo;
namespace SRC = SEMBA::Source;
namespace OR = SEMBA::OutputRequest;
typedef Mesh::Unstructured U; typedef Mesh::Structured S; typedef Mesh::Geometric Ge;

static const size_t coordIds[14] = {20, 7, 31, 4, 9, 40, 2, 15, 33, 8, 27, 5, 50, 11};
static const size_t layIds[2] = {6, 3};
static const size_t matIds[2] = {8, 2};
static const double R[14][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1},
                                {.5,.1,0},{.5,.5,.2},{.1,.4,0},{0,0,.5},{.5,0,.5},{.1,.6,.6}};
enum { I_NODE, I_LINE, I_POLYLINE, I_QUAD, I_HEX, I_CONF, NTYPESI };
static const char* const typeNameI[] = {"node", "line", "polyline", "quad", "hex", "conformal line"};

static Grid3 grid1() { std::vector<Math::Real> p[3] = {{-1, 0, 1, 3}, {0, 1, 2}, {0, 0.5, 1}}; return Grid3(p); }
static Grid3 grid2() { std::vector<Math::Real> p[3] = {{0, 7}, {0, 1, 9}, {2, 5}}; return Grid3(p); }

struct Models {
    PMGroup g;
    Models() {
        g.add(new PhysicalModel::Predefined::PEC(MatId(matIds[0]), "metal"));
        g.add(new PhysicalModel::Volume::Classic(MatId(matIds[1]), "stuff", 2.0, 1.0, 0.0, 0.0));
    }
};
struct Spec { int type, lay, mat; };      // lay, mat: 0 none, 1, 2

static ElemI* makeI(int t, size_t id, const Coordinate::Group<CoordI3>& cg, const Layer::Layer* lay, const Element::Model* mod, unsigned shift) {
    const CoordI3* v[8];
    Element::Id e(id);
    auto at = [&](unsigned k) { return cg.getId(CoordId(coordIds[k])); };
    switch (t) {
    case I_NODE: v[0] = at(shift ? 3 : 12); return new NodI(e, v, lay, mod);
    case I_LINE: return new LinI2(e, std::array<const CoordI3*, 2>{{at(shift), at(1 + shift)}}, lay, mod);
    case I_POLYLINE: return new PolylinI(e, std::vector<const CoordI3*>{at(0), at(1), at(2 + shift)}, lay, mod);
    case I_QUAD: return new QuaI4(e, std::array<const CoordI3*, 4>{{at(0), at(1), at(2), at(3)}}, lay, mod);
    case I_HEX: for (int i = 0; i < 8; i++) v[i] = at(i); return new HexI8(e, v, lay, mod);
    default: v[0] = at(10); v[1] = at(11); return new LinConf(e, v, R3(0, 0.6, 0.8), lay, mod);
    }
}
static void fill(U& m, const std::vector<Spec>& sp, const PMGroup& mods) {
    std::vector<CoordR3*> cs;
    for (int i = 0; i < 14; i++) cs.push_back(new CoordR3(CoordId(coordIds[i]), R3(R[i][0], R[i][1], R[i][2])));
    m.coords().add(cs);
    for (int i = 0; i < 2; i++) m.layers().add(new Layer::Layer(LayerId(layIds[i]), i ? "skin" : "body"));
    std::vector<ElemR*> es;
    for (size_t k = 0; k < sp.size(); k++) {
        std::vector<const CoordR3*> v;
        for (unsigned i : vertsOf(sp[k].type, k)) v.push_back(m.coords().getId(CoordId(coordIds[i])));
        es.push_back(makeR(sp[k].type, 30 - 9 * k, v, sp[k].lay ? m.layers().getId(LayerId(layIds[sp[k].lay - 1])) : nullptr,
                           sp[k].mat ? mods.getId(MatId(matIds[sp[k].mat - 1])) : nullptr));
    }
    m.elems().add(es);
}
static void fill(S& m, const std::vector<Spec>& sp, const PMGroup& mods) {
    std::vector<CoordI3*> cs;
    for (int i = 0; i < 10; i++) cs.push_back(new CoordI3(CoordId(coordIds[i]), I3(R[i][0], R[i][1], R[i][2] + (i > 7 ? 2 : 0))));
    cs.push_back(new CoordConf(CoordId(coordIds[10]), I3(0, 0, 0), Math::Constants::y, 0.25));
    cs.push_back(new CoordConf(CoordId(coordIds[11]), I3(1, 0, 1), Math::Constants::x, 0.5));
    cs.push_back(new CoordRel(CoordId(coordIds[12]), I3(1, 1, 0), R3(0.25, 0, 0.75)));
    m.coords().add(cs);
    for (int i = 0; i < 2; i++) m.layers().add(new Layer::Layer(LayerId(layIds[i]), i ? "skin" : "body"));
    std::vector<ElemI*> es;
    for (size_t k = 0; k < sp.size(); k++)
        es.push_back(makeI(sp[k].type, 30 - 9 * k, m.coords(), sp[k].lay ? m.layers().getId(LayerId(layIds[sp[k].lay - 1])) : nullptr,
                           sp[k].mat ? mods.getId(MatId(matIds[sp[k].mat - 1])) : nullptr, k));
    m.elems().add(es);
}
static std::string extra(const U&) { return ""; }
static std::string extra(const Ge& g) { return renderGrid(g.grid()); }
static std::string extra(const S& s) {
    std::string r = renderGrid(s.grid()) + " bounds";
    for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) { auto b = s.bounds()(d, p); r += b ? MC_STR(typeid(*b).name() << b->getId().toStr() << ",") : "-,"; }
    return r;
}
template<class M> std::string render(const M& m) { return renderMesh(m) + extra(m); }

// Everything reached from m belongs to m; it shares no item with other.
template<class M> void owns(const M& m, const char* which) {
    for (size_t i = 0; i < m.elems().size(); i++) {
        auto e = m.elems()(i);
        for (size_t j = 0; j < e->numberOfCoordinates(); j++) {
            auto v = e->getV(j);
            MC_REQUIRE(m.coords().existId(v->getId()) && m.coords().getId(v->getId()) == v, "vertex-of-copy", which << " element " << e->getId().toStr() << " vertex " << j);
        }
        if (e->getLayer()) MC_REQUIRE(m.layers().existId(e->getLayerId()) && m.layers().getId(e->getLayerId()) == e->getLayer(), "layer-of-copy", which << " element " << e->getId().toStr());
    }
}
template<class M> void disjoint(const M& a, const M& b) {
    for (size_t i = 0; i < a.coords().size(); i++) for (size_t j = 0; j < b.coords().size(); j++) MC_REQUIRE(a.coords()(i) != b.coords()(j), "shared-vertex", i);
    for (size_t i = 0; i < a.elems().size(); i++) for (size_t j = 0; j < b.elems().size(); j++) MC_REQUIRE(static_cast<const Element::Base*>(a.elems()(i)) != b.elems()(j), "shared-element", i);
    for (size_t i = 0; i < a.layers().size(); i++) for (size_t j = 0; j < b.layers().size(); j++) MC_REQUIRE(a.layers()(i) != b.layers()(j), "shared-layer", i);
}
static void moveV(Coordinate::Coordinate<Math::Real, 3>* c) { c->pos()(0) += 5; }
static void moveV(Coordinate::Coordinate<Math::Int, 3>* c) { c->pos()(0) += 5; }
static void grids(U&) {}
static void grids(Ge& g) { g.grid().applyScalingFactor(3.0); }
static void grids(S& g) { g.grid().applyScalingFactor(3.0); g.bounds().setBound(1, 1, nullptr); }
// Change everything about m.
template<class M> void vandalise(M& m) {
    for (size_t i = 0; i < m.coords().size(); i++) moveV(m.coords()(i));
    for (size_t i = 0; i < m.elems().size(); i++) { m.elems()(i)->setModel(nullptr); m.elems()(i)->setLayer(m.layers()(1)); }
    if (m.elems().size()) m.elems().remove(0);
    m.applyScalingFactor(2.0);
    grids(m);
    m.layers().removeId(LayerId(layIds[0]));
}
static U* fresh(const U*) { return new U; }
static Ge* fresh(const Ge*) { return new Ge(grid1()); }
static S* fresh(const S*) {
    S* s = new S(grid1());
    s->bounds().setBound(0, 0, new PhysicalModel::Predefined::PEC(MatId(1)));
    s->bounds().setBound(0, 1, new PhysicalModel::Predefined::PMC(MatId(4)));
    s->bounds().setBound(2, 1, new PhysicalModel::Predefined::SMA(MatId(5)));
    return s;
}
static U* rebuilt(const U& m) { return new U(m.coords(), m.elems(), m.layers()); }
static Ge* rebuilt(const Ge& m) { return new Ge(m.grid(), m.coords(), m.elems(), m.layers()); }
static S* rebuilt(const S& m) { return new S(m.grid(), m.coords(), m.elems(), m.layers(), m.bounds()); }
static void other(U& m, const PMGroup& g) { fill(m, {{LINE, 1, 0}, {QUAD, 0, 1}}, g); }
static void other(Ge& m, const PMGroup& g) { fill(m, {{LINE, 1, 0}, {QUAD, 0, 1}}, g); m.grid() = grid2(); }
static void other(S& m, const PMGroup& g) { fill(m, {{I_LINE, 1, 0}, {I_QUAD, 0, 1}}, g); m.grid() = grid2(); }
static const char* const pathName[] = {"copy constructor", "clone", "assignment to empty", "assignment to another", "construction from groups", "assignment to itself", "copy of copy", "clone through base"};
enum { NPATHS = 8 };
static const char* const endName[] = {"change copy", "change original", "destroy copy", "destroy original", "destroy original then change copy"};

template<class M> void meshCase(const std::vector<Spec>& sp, int path, int end) {
    Models mods;
    M* a = fresh((M*)0);
    fill(*a, sp, mods.g);
    owns(*a, "original");
    const std::string want = render(*a);
    M* c = nullptr;
    switch (path) {
    case 0: c = new M(*a); break;
    case 1: c = a->clone(); break;
    case 2: c = fresh((M*)0); grids(*c); *c = *a; break;
    case 3: c = fresh((M*)0); other(*c, mods.g); *c = *a; break;
    case 4: c = rebuilt(*a); break;
    case 5: { M& r = *a; *a = r; MC_REQUIRE(render(*a) == want, "self-assignment", render(*a) << " was " << want); owns(*a, "self"); c = new M(*a); break; }
    case 6: { M* b = new M(*a); c = new M(*b); delete b; break; }
    default: { const Mesh::Mesh* b = a; c = b->cloneTo<M>(); break; }
    }
    mc::step();
    MC_REQUIRE(typeid(*c) == typeid(*a), "copy-type", typeid(*c).name());
    MC_REQUIRE(render(*c) == want, "copy-contents", render(*c) << " instead of " << want);
    MC_REQUIRE(render(*a) == want, "original-changed-by-copying", render(*a));
    owns(*c, "copy"); owns(*a, "original"); disjoint(*a, *c);
    for (size_t i = 0; i < sp.size(); i++) MC_REQUIRE(c->elems()(i)->getModel() == a->elems()(i)->getModel(), "copy-models", i);
    mc::state(want);
    switch (end) {
    case 0: vandalise(*c); MC_REQUIRE(render(*a) == want, "change-of-copy-seen-in-original", render(*a) << " was " << want); owns(*a, "original"); break;
    case 1: vandalise(*a); MC_REQUIRE(render(*c) == want, "change-of-original-seen-in-copy", render(*c) << " was " << want); owns(*c, "copy"); break;
    case 2: delete c; c = nullptr; MC_REQUIRE(render(*a) == want, "original-after-copy-destroyed", render(*a)); break;
    case 3: delete a; a = nullptr; MC_REQUIRE(render(*c) == want, "copy-after-original-destroyed", render(*c)); break;
    case 4: {
        delete a; a = nullptr;
        c->reassignPointers(mods.g); MC_REQUIRE(render(*c) == want, "copy-after-original-destroyed", render(*c));
        std::vector<size_t> eids;
        for (size_t i = 0; i < c->elems().size(); i++) eids.push_back(c->elems()(i)->getId().toInt());
        vandalise(*c); owns(*c, "changed copy"); break;
    }
    }
    mc::step();
    delete a; delete c;
    mc::outcome("mesh copies");
}
static std::string spStr(const std::vector<Spec>& sp, const char* const* n) {
    std::string s;
    for (auto& e : sp) s += MC_STR(n[e.type] << "(layer " << e.lay << " material " << e.mat << ") ");
    return s.empty() ? "no elements" : s;
}
template<class M> void meshes(const char* kind, int ntypes, const char* const* names) {
    unsigned per = ntypes * 9, maxn = 2;
    for (unsigned n = 0; n <= maxn; n++)
        mc::sequences(per, n, [&](const std::vector<unsigned>& q) {
            std::vector<Spec> sp;
            for (unsigned c : q) sp.push_back(Spec{int(c / 9), int(c / 3 % 3), int(c % 3)});
            // two elements: every pair of types, layers of both, materials of the first
            if (n == 2 && !mc::thorough() && (sp[1].mat != 1 || sp[0].mat == 1 || (sp[0].lay == 0))) return;
            for (int path = 0; path < NPATHS; path++)
                for (int end = 0; end < 5; end++) {
                    if (n == 2 && !mc::thorough() && (path == 1 || path == 7) ) continue;
                    mc::run([&] { return MC_STR(kind << " mesh of " << spStr(sp, names) << "; " << pathName[path] << "; " << endName[end]); },
                            [&] { meshCase<M>(sp, path, end); });
                }
        });
}

// ------------------------------------------------------------------ problems
static const char* const srcName[] = {"plane wave", "dipole", "generator", "line source", "waveguide port", "coaxial port", "wave without magnitude"};
enum { NSRC = 7 };
static const char* const outName[] = {"node request", "line request", "surface request", "volume request", "any-element request", "bulk current", "far field"};
enum { NOUT = 7 };
static const char* const meshName[] = {"no mesh", "unstructured", "geometric", "structured"};
// elements available in a problem's mesh: ids
static const size_t eNode = 12, eLine = 21, eQuad = 30, eHex = 3, eNode2 = 41;

template<class E, class T> Element::Group<T> pickE(const Element::Group<E>& g, std::vector<size_t> ids) {
    Element::Group<T> r;
    for (size_t i : ids) r.add(const_cast<T*>(dynamic_cast<const T*>(static_cast<const Element::Base*>(g.getId(ElemId(i))))));
    return r;
}
template<class G> SRC::Base* makeSrc(int k, const G& g) {
    SRC::Magnitude::Magnitude* m = new SRC::Magnitude::Magnitude(new Math::Function::Gaussian(0.5 + k, 2.0, 0.25));
    switch (k) {
    case 0: return new SRC::PlaneWave(m, pickE<typename G::value, Vol>(g.g, {eHex}), R3(1, 0, 0), R3(0, 0, 2));
    case 1: return new SRC::Dipole(m, pickE<typename G::value, Vol>(g.g, {eHex}), 0.5, R3(0, 1, 0), R3(1, 2, 3));
    case 2: return new SRC::Generator(m, pickE<typename G::value, const Nod>(g.g, {eNode2, eNode}), SRC::Generator::voltage, SRC::Generator::hard);
    case 3: return new SRC::OnLine(m, pickE<typename G::value, const Lin>(g.g, {eLine}), SRC::OnLine::magnetic, SRC::OnLine::hard);
    case 4: return new SRC::Port::WaveguideRectangular(m, pickE<typename G::value, const Surf>(g.g, {eQuad}), SRC::Port::Waveguide::TE, std::make_pair(size_t(1), size_t(0)));
    case 5: return new SRC::Port::TEMCoaxial(m, pickE<typename G::value, const Surf>(g.g, {eQuad}), SRC::Port::TEM::current, R3(0.5, 0.5, 0), 0.25, 0.5);
    default: delete m; return new SRC::PlaneWave(nullptr, pickE<typename G::value, Vol>(g.g, {eHex}), R3(0, 1, 0), R3(0, 0, 1));
    }
}
template<class G> OR::Base* makeOut(int k, const G& g) {
    OR::Domain d(true, 0.5, 2.0, 0.25, k % 2, 1.0, 9.0, 2.0, k % 3 == 0, k == 4, k == 4 ? "tf" : "");
    std::string n = std::string("probe of ") + outName[k];
    typedef typename G::value E;
    switch (k) {
    case 0: return new OR::OutputRequest<Nod>(d, OR::Base::electric, n, pickE<E, Nod>(g.g, {eNode, eNode2}));
    case 1: return new OR::OutputRequest<Lin>(d, OR::Base::current, n, pickE<E, Lin>(g.g, {eLine}));
    case 2: return new OR::OutputRequest<Surf>(d, OR::Base::surfaceCurrentDensity, n, pickE<E, Surf>(g.g, {eQuad}));
    case 3: return new OR::OutputRequest<Vol>(d, OR::Base::magnetic, n, pickE<E, Vol>(g.g, {eHex}));
    case 4: return new OutRqElem(d, OR::Base::magneticFieldNormals, n, pickE<E, Elem>(g.g, {eHex, eNode}));
    case 5: return new OR::BulkCurrent(d, n, pickE<E, const Elem>(g.g, {eQuad}), Math::Constants::y, 3);
    default: return new OR::FarField(d, n, pickE<E, Vol>(g.g, {eHex}), 0, 1, .1, 0, 2, .2);
    }
}
template<class E> struct GG { typedef E value; const Element::Group<E>& g; };

struct Cfg { int mesh; bool models, solver; std::vector<unsigned> src, out; bool emptyGroups; };
static std::vector<ElemR*> orphans;

static void makeData(const Cfg& c, Data& d, Mesh::Unstructured*& holder) {
    holder = nullptr;
    if (c.solver) {
        Solver::Settings st;
        st.setObject();
        st("step").setReal(0.125);
        d.solver = new Solver::Info("ugrfdtd", st);
    }
    if (c.models) d.physicalModels = Models().g.clone();
    static Models shared;
    const PMGroup& mods = d.physicalModels && c.mesh ? *d.physicalModels : shared.g;
    U* u = nullptr; S* s = nullptr;
    std::vector<Spec> sp = {{QUAD, 2, 0}, {LINE, 1, 2}, {NODE, 0, 1}, {HEX, 1, 1}}, spI = {{I_QUAD, 2, 0}, {I_LINE, 1, 2}, {I_NODE, 0, 1}, {I_HEX, 1, 1}};
    if (c.mesh == 3) {
        s = fresh((S*)0); fill(*s, spI, mods);
        const CoordI3* v[1] = {s->coords().getId(CoordId(coordIds[5]))};
        s->elems().add(new NodI(ElemId(eNode2), v, s->layers()(0), nullptr));
        d.mesh = s;
    } else {
        u = c.mesh == 2 ? new Ge(grid1()) : new U;
        fill(*u, sp, mods);
        const CoordR3* v[1] = {u->coords().getId(CoordId(coordIds[5]))};
        u->elems().add(new NodR(ElemId(eNode2), v, u->layers()(0), nullptr));
        if (c.mesh == 0) holder = u; else d.mesh = u;
    }
    if (!c.src.empty() || c.emptyGroups) {
        d.sources = new SRC::Group<>;
        for (unsigned k : c.src) d.sources->add(s ? makeSrc(k, GG<ElemI>{s->elems()}) : makeSrc(k, GG<ElemR>{u->elems()}));
    }
    if (!c.out.empty() || c.emptyGroups) {
        d.outputRequests = new OR::Group<>;
        for (unsigned k : c.out) d.outputRequests->add(s ? makeOut(k, GG<ElemI>{s->elems()}) : makeOut(k, GG<ElemR>{u->elems()}));
    }
}
static std::string renderMagn(const SRC::Base* s) {
    if (!s->getMagnitude()) return "no magnitude";
    std::string r = "magnitude";
    for (double t : {0.0, 1.0, 2.5}) r += MC_STR(" " << s->getMagnitude()->evaluate(t));
    return r;
}
static std::string elemsStr(const Element::Group<const Elem>& g) {
    std::string s = "on[";
    for (size_t i = 0; i < g.size(); i++) s += renderElem(g(i));
    return s + "]";
}
// dims: include the dimensions of coaxial ports
static std::string renderSrc(const SRC::Base* s, bool dims = true) {
    std::string r = MC_STR(typeid(*s).name() << " " << s->getName() << " " << renderMagn(s) << " ");
    if (auto x = dynamic_cast<const SRC::PlaneWave*>(s)) r += p(x->getDirection()) + p(x->getPolarization()) + MC_STR(x->isRandomic() << x->getNumberOfRandomPlanewaves() << x->getRelativeVariationOfRandomDelay());
    if (auto x = dynamic_cast<const SRC::Dipole*>(s)) r += x->str();
    if (auto x = dynamic_cast<const SRC::Generator*>(s)) r += MC_STR(x->getType());
    if (auto x = dynamic_cast<const SRC::OnLine*>(s)) r += MC_STR(x->getType() << x->getHardness());
    if (auto x = dynamic_cast<const SRC::Port::WaveguideRectangular*>(s)) {
        r += MC_STR(x->getExcitationMode() << x->getMode().first << x->getMode().second);
        if (dims) r += MC_STR(x->getWidth() << "x" << x->getHeight() << p(x->getOrigin()));
    }
    if (auto x = dynamic_cast<const SRC::Port::TEMCoaxial*>(s)) { r += MC_STR(x->getExcitationMode()); if (dims) r += p(x->getOrigin()) + p(x->getWeight(R3(0.75, 0.5, 0))) + x->str(); }
    return r + elemsStr(s->elems());
}
static std::string renderOut(const OR::Base* o) {
    const OR::Domain& d = o->domain();
    std::string r = MC_STR(typeid(*o).name() << " " << o->getName() << " " << o->getType() << " " << d.isTimeDomain() << d.getInitialTime() << "," << d.getFinalTime() << "," << d.getSamplingPeriod() << d.isFrequencyDomain()
        << d.getInitialFrequency() << "," << d.getFinalFrequency() << "," << d.getFrequencyStep() << d.isLogFrequencySweep() << d.isUsingTransferFunction() << d.getTransferFunctionFile());
    if (auto x = dynamic_cast<const OR::BulkCurrent*>(o)) r += MC_STR(" bulk" << x->getDir() << x->getSkip());
    if (auto x = dynamic_cast<const OR::FarField*>(o)) r += MC_STR(" far" << x->getInitialTheta() << "," << x->getFinalTheta() << "," << x->getStepTheta() << "," << x->getInitialPhi() << "," << x->getFinalPhi() << "," << x->getStepPhi());
    return r + elemsStr(o->elems());
}
static std::string renderAnyMesh(const Mesh::Mesh* m) {
    if (!m) return "none";
    if (auto g = dynamic_cast<const Ge*>(m)) return "G" + render(*g);
    if (auto g = dynamic_cast<const U*>(m)) return "U" + render(*g);
    return "S" + render(*dynamic_cast<const S*>(m));
}
static std::string renderModels(const PMGroup* g) {
    if (!g) return "none";
    std::string r;
    for (size_t i = 0; i < g->size(); i++) {
        r += MC_STR(typeid(*(*g)(i)).name() << (*g)(i)->getId().toStr() << (*g)(i)->getName());
        if (auto c = dynamic_cast<const PhysicalModel::Volume::Classic*>((*g)(i))) r += MC_STR(c->getRelativePermittivity() << "," << c->getRelativePermeability());
    }
    return r;
}
static std::vector<std::pair<std::string, std::string>> renderData(const Data& d) {
    std::vector<std::pair<std::string, std::string>> r;
    std::string s = "none";
    if (d.solver) { s = d.solver->getName() + "|" + MC_STR(d.solver->getSettings()("step").getReal()); }
    r.push_back({"solver", s});
    r.push_back({"mesh", renderAnyMesh(d.mesh)});
    r.push_back({"models", renderModels(d.physicalModels)});
    s = "none"; std::string dims;
    if (d.sources) { s = "group "; for (size_t i = 0; i < d.sources->size(); i++) { s += renderSrc((*d.sources)(i), false) + " ; "; if (!(*d.sources)(i)->is<SRC::Port::TEMCoaxial>()) dims += renderSrc((*d.sources)(i), true) + " ; "; } }
    r.push_back({"sources", s});
    r.push_back({"port-dimensions", dims});
    dims = "";
    if (d.sources) for (size_t i = 0; i < d.sources->size(); i++) if ((*d.sources)(i)->is<SRC::Port::TEMCoaxial>()) dims += renderSrc((*d.sources)(i), true) + " ; ";
    r.push_back({"coaxial-dimensions", dims});
    s = "none";
    if (d.outputRequests) { s = "group "; for (size_t i = 0; i < d.outputRequests->size(); i++) s += renderOut((*d.outputRequests)(i)) + " ; "; }
    r.push_back({"requests", s});
    return r;
}
static void compareData(const Data& d, const std::vector<std::pair<std::string, std::string>>& want, const std::string& what) {
    auto got = renderData(d);
    for (size_t i = 0; i < got.size(); i++) {
        std::string sig = what + ":" + got[i].first;
        if (got[i].first == "coaxial-dimensions" && got[i].second != want[i].second) {
            // known finding: radii halved (average radius of the 1 x 1 quad) once per copy, everything else intact
            std::string w = want[i].second;
            for (int k = 0; k < 2; k++) {
                size_t q = 0;
                const char* from[] = {"0.25/0.5", "0.125/0.25"}; const char* to[] = {"0.125/0.25", "0.0625/0.125"};
                while ((q = w.find(std::string("radii: ") + from[k] + "\n", q)) != std::string::npos) { w.replace(q + 7, strlen(from[k]), to[k]); q += 7; }
                if (w == got[i].second) { sig = what + ":coaxial-radii-rescaled"; break; }
            }
        }
        MC_CHECK(got[i].second == want[i].second, sig, got[i].second << " instead of " << want[i].second);
    }
}
template<class M> void boundTo(const M& m, const Data& d) {
    owns(m, "problem");
    for (size_t i = 0; i < m.elems().size(); i++) {
        auto e = m.elems()(i);
        if (e->getModel() && d.physicalModels)
            MC_REQUIRE(d.physicalModels->existId(e->getMatId()) && static_cast<const Element::Model*>(d.physicalModels->getId(e->getMatId())) == e->getModel(), "material-of-copy", "element " << e->getId().toStr());
    }
    auto in = [&](const Element::Group<const Elem>& g, const char* w) {
        for (size_t i = 0; i < g.size(); i++) MC_REQUIRE(m.elems().existId(g(i)->getId()) && static_cast<const Elem*>(m.elems().getId(g(i)->getId())) == g(i), std::string("element-of-copy:") + w, "element " << g(i)->getId().toStr());
    };
    if (d.sources) for (size_t i = 0; i < d.sources->size(); i++) in((*d.sources)(i)->elems(), "source");
    if (d.outputRequests) for (size_t i = 0; i < d.outputRequests->size(); i++) in((*d.outputRequests)(i)->elems(), "request");
}
static void boundData(const Data& d) {
    if (auto u = dynamic_cast<const U*>(d.mesh)) boundTo(*u, d);
    else if (auto s = dynamic_cast<const S*>(d.mesh)) boundTo(*s, d);
}
static void disjointData(const Data& a, const Data& b) {
    MC_CHECK(!a.solver || a.solver != b.solver, "shared-solver", "");
    MC_CHECK(!a.mesh || a.mesh != b.mesh, "shared-mesh", "");
    MC_CHECK(!a.physicalModels || a.physicalModels != b.physicalModels, "shared-models", "");
    if (a.physicalModels && b.physicalModels) for (size_t i = 0; i < a.physicalModels->size(); i++) MC_CHECK((*a.physicalModels)(i) != (*b.physicalModels)(i), "shared-model", i);
    if (a.sources && b.sources) {
        MC_CHECK(a.sources != b.sources, "shared-sources", "");
        for (size_t i = 0; i < a.sources->size(); i++) {
            MC_CHECK((*a.sources)(i) != (*b.sources)(i), "shared-source", i);
            MC_CHECK(!(*a.sources)(i)->getMagnitude() || (*a.sources)(i)->getMagnitude() != (*b.sources)(i)->getMagnitude(), "shared-magnitude", i);
        }
    }
    if (a.outputRequests && b.outputRequests) {
        MC_CHECK(a.outputRequests != b.outputRequests, "shared-requests", "");
        for (size_t i = 0; i < a.outputRequests->size(); i++) MC_CHECK((*a.outputRequests)(i) != (*b.outputRequests)(i), "shared-request", i);
    }
}
static void vandaliseData(Data& d) {
    if (d.sources) { for (size_t i = 0; i < d.sources->size(); i++) (*d.sources)(i)->set(Element::Group<const Elem>((*d.sources)(i)->elems())); if (d.sources->size()) d.sources->remove(0); }
    if (d.outputRequests) { for (size_t i = 0; i < d.outputRequests->size(); i++) { (*d.outputRequests)(i)->setName("changed"); (*d.outputRequests)(i)->domain().setFinalTime(77); } }
    if (d.sources) { delete d.sources; d.sources = nullptr; }
    if (d.outputRequests) { delete d.outputRequests; d.outputRequests = nullptr; }
    if (auto u = dynamic_cast<U*>(d.mesh)) vandalise(*u);
    else if (auto s = dynamic_cast<S*>(d.mesh)) vandalise(*s);
    if (d.physicalModels) { for (size_t i = 0; i < d.physicalModels->size(); i++) (*d.physicalModels)(i)->setName("changed"); delete d.physicalModels; d.physicalModels = nullptr; }
    if (d.solver) d.solver->setName("changed");
}
static const char* const dataPath[] = {"copy constructor", "clone", "assignment to empty", "assignment to a full one", "assignment to itself", "copy of copy"};
static void dataCase(const Cfg& c, int path, int end) {
    U* holder = nullptr; U* holder2 = nullptr;
    Data* a = new Data;
    makeData(c, *a, holder);
    auto want = renderData(*a);
    Data* b = nullptr;
    switch (path) {
    case 0: b = new Data(*a); break;
    case 1: b = a->clone(); break;
    case 2: b = new Data; *b = *a; break;
    case 3: b = new Data; makeData(Cfg{2, true, true, {0, 2}, {1, 3}, true}, *b, holder2); *b = *a; break;
    case 4: { Data& r = *a; *a = r; compareData(*a, want, "self-assignment"); boundData(*a); b = new Data(*a); break; }
    default: { Data* t = new Data(*a); b = new Data(*t); delete t; }
    }
    mc::step();
    compareData(*b, want, "copy");
    compareData(*a, want, "original-changed-by-copying");
    boundData(*a); boundData(*b); disjointData(*a, *b);
    std::string all; for (auto& w : want) all += w.second;
    mc::state(all);
    want = renderData(*b);
    auto wantA = renderData(*a);
    switch (end) {
    case 0: vandaliseData(*b); compareData(*a, wantA, "change-of-copy-seen-in-original"); break;
    case 1: vandaliseData(*a); compareData(*b, want, "change-of-original-seen-in-copy"); break;
    case 2: delete b; b = nullptr; compareData(*a, wantA, "original-after-copy-destroyed"); break;
    case 3: delete a; a = nullptr; compareData(*b, want, "copy-after-original-destroyed"); vandaliseData(*b); break;
    }
    mc::step();
    delete a; delete b; delete holder; delete holder2;
    mc::outcome("problem copies");
}
// Problems of n vertices, n elements, n layers, n materials, n sources and n requests, ids from `base`, upwards or downwards.
static void bigData(Data& d, size_t n, size_t base, bool down, int mesh) {
    auto id = [&](size_t i) { return base + 2 * (down ? n - 1 - i : i); };
    d.physicalModels = new PMGroup;
    for (size_t i = 0; i < n; i++) {
        if (i % 2) d.physicalModels->add(new PhysicalModel::Predefined::PEC(MatId(id(i)), MC_STR("metal " << i)));
        else d.physicalModels->add(new PhysicalModel::Volume::Classic(MatId(id(i)), MC_STR("stuff " << i), 2.0 + i, 1.0, 0.0, 0.0));
    }
    auto lay = [&](auto& m) { for (size_t i = 0; i < n; i++) m.layers().add(new Layer::Layer(LayerId(id(i)), MC_STR("layer " << i))); };
    auto model = [&](size_t i) { return i % 4 == 3 ? nullptr : d.physicalModels->getId(MatId(id((7 * i + 1) % n))); };
    d.sources = new SRC::Group<>; d.outputRequests = new OR::Group<>;
    auto rest = [&](auto& m, auto e0) {
        typedef std::remove_pointer_t<decltype(e0)> E;
        std::vector<size_t> nodes, lines, quads;
        for (size_t i = 0; i < n; i++) (i % 3 == 0 ? nodes : i % 3 == 1 ? lines : quads).push_back(id(i));
        for (size_t i = 0; i < n; i++) {
            // all of one kind, all but the first ones, or one
            auto part = [&](const std::vector<size_t>& l) { std::vector<size_t> r; for (size_t k = i % 5 == 0 ? 0 : i % l.size(); k < l.size() && (i % 3 || r.empty()); k++) r.push_back(l[k]); return r; };
            SRC::Magnitude::Magnitude* g = new SRC::Magnitude::Magnitude(new Math::Function::Gaussian(0.5 + i, 2.0, 0.25));
            OR::Domain dom(true, 0.5, 2.0 + i, 0.25, false, 0, 0, 0, false, false, "");
            if (i % 2 && !lines.empty()) d.sources->add(new SRC::OnLine(g, pickE<E, const Lin>(m.elems(), part(lines)), SRC::OnLine::magnetic, SRC::OnLine::hard));
            else d.sources->add(new SRC::Generator(g, pickE<E, const Nod>(m.elems(), part(nodes)), SRC::Generator::voltage, SRC::Generator::hard));
            if (i % 2 && !quads.empty()) d.outputRequests->add(new OR::OutputRequest<Surf>(dom, OR::Base::surfaceCurrentDensity, MC_STR("surface " << i), pickE<E, Surf>(m.elems(), part(quads))));
            else d.outputRequests->add(new OR::OutputRequest<Nod>(dom, OR::Base::electric, MC_STR("point " << i), pickE<E, Nod>(m.elems(), part(nodes))));
        }
    };
    auto elems = [&](auto& m, auto mk) {
        for (size_t i = 0; i < n; i++) {
            const size_t v[4] = {i, (i + 1) % (n + 3), (i + 2) % (n + 3), (i + 3) % (n + 3)};
            m.elems().add(mk(i, v, i % 5 == 4 ? nullptr : m.layers().getId(LayerId(id((5 * i + 2) % n)))));
        }
    };
    auto cid = [&](size_t i) { return CoordId(base + 3 * (down ? n + 2 - i : i)); };
    auto pos = [](size_t i) { return I3(int(i / 2), int((i + 1) / 2 % 2), int(i % 3 == 2)); };
    if (mesh == 2) {
        S* m = fresh((S*)0); lay(*m);
        for (size_t i = 0; i < n + 3; i++) {
            if (i % 7 == 6) m->coords().add(new CoordRel(cid(i), pos(i), R3(0.25, 0, 0.5))); else m->coords().add(new CoordI3(cid(i), pos(i)));
        }
        elems(*m, [&](size_t i, const size_t* v, const Layer::Layer* l) -> ElemI* {
            auto at = [&](int k) { return m->coords().getId(cid(v[k])); };
            if (i % 3 == 0) { const CoordI3* a[1] = {at(0)}; return new NodI(ElemId(id(i)), a, l, model(i)); }
            if (i % 3 == 1) return new LinI2(ElemId(id(i)), std::array<const CoordI3*, 2>{{at(0), at(1)}}, l, model(i));
            return new QuaI4(ElemId(id(i)), std::array<const CoordI3*, 4>{{at(0), at(1), at(2), at(3)}}, l, model(i));
        });
        d.mesh = m; rest(*m, (ElemI*)nullptr); 
    } else {
        U* m = mesh ? new Ge(grid1()) : new U; lay(*m);
        for (size_t i = 0; i < n + 3; i++) { I3 q = pos(i); m->coords().add(new CoordR3(cid(i), R3(q(0), 0.5 * q(1), q(2)))); }
        elems(*m, [&](size_t i, const size_t* v, const Layer::Layer* l) -> ElemR* {
            std::vector<const CoordR3*> a; for (size_t k = 0; k < (i % 3 == 0 ? 1u : i % 3 == 1 ? 2u : 4u); k++) a.push_back(m->coords().getId(cid(v[k])));
            return makeR(i % 3 == 0 ? NODE : i % 3 == 1 ? LINE : QUAD, id(i), a, l, model(i));
        });
        d.mesh = m; rest(*m, (ElemR*)nullptr);
    }
}
static void sizes() {
    for (size_t n : {1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 257}) for (size_t base : {size_t(1), size_t(70000), (size_t(1) << 32) - 5}) for (int down = 0; down < 2; down++)
        for (int mesh = 0; mesh < 3; mesh++) for (int path = 0; path < 6; path++) {
            if (n > 9 && !mc::thorough() && (path + n + down + mesh + base % 7) % (n > 65 ? 24 : n > 17 ? 12 : 3)) continue;
            mc::run([=] { return MC_STR("problem of " << n << " of everything, ids from " << base << (down ? " down" : " up") << "; " << meshName[mesh + 1] << "; " << dataPath[path]); }, [=] {
                std::unique_ptr<Data> a(new Data), b; bigData(*a, n, base, down, mesh);
                auto want = renderData(*a); boundData(*a);
                MC_REQUIRE(a->sources->size() == n && a->outputRequests->size() == n && a->physicalModels->size() == n, "problem-of-many", n);
                switch (path) {
                case 0: b.reset(new Data(*a)); break;
                case 1: b.reset(a->clone()); break;
                case 2: b.reset(new Data); *b = *a; break;
                case 3: b.reset(new Data); bigData(*b, n % 9 + 2, 4, false, (mesh + 1) % 3); *b = *a; break;
                case 4: { Data& r = *a; *a = r; compareData(*a, want, "self-assignment"); boundData(*a); b.reset(new Data(*a)); break; }
                default: { Data t(*a); b.reset(new Data(t)); }
                }
                mc::step();
                compareData(*b, want, "copy"); compareData(*a, want, "original-changed-by-copying"); boundData(*a); boundData(*b); disjointData(*a, *b);
                a.reset(); compareData(*b, want, "copy-after-original-destroyed");
                std::string all; for (auto& w : want) all += w.second; mc::state(all);
                mc::outcome("problems of many");
            });
        }
}
static void body() {
    sizes();
    meshes<U>("unstructured", NTYPESR, typeNameR);
    meshes<Ge>("geometric", NTYPESR, typeNameR);
    meshes<S>("structured", NTYPESI, typeNameI);
    std::vector<std::vector<unsigned>> srcs, outs;
    srcs.push_back({}); outs.push_back({});
    for (unsigned n = 1; n <= 2; n++) {
        mc::sequences(NSRC, n, [&](const std::vector<unsigned>& s) { srcs.push_back(s); });
        mc::sequences(NOUT, n, [&](const std::vector<unsigned>& s) { outs.push_back(s); });
    }
    for (int mesh = 0; mesh < 4; mesh++)
        for (int models = 0; models < 2; models++)
            for (int solver = 0; solver < 2; solver++)
                for (auto& sr : srcs)
                    for (auto& ou : outs) {
                        // pairs of two lists of two only with a mesh and models
                        if (sr.size() == 2 && ou.size() == 2 && !(mc::thorough() && models && solver)) continue;
                        if (!mc::thorough() && (sr.size() + ou.size() > 2) && !(solver && models)) continue;
                        for (int path = 0; path < 6; path++)
                            for (int end = 0; end < 4; end++) {
                                if (sr.size() + ou.size() > 2 && path != 0 && path != 3) continue;
                                if (sr.size() + ou.size() > 2 && !mc::thorough() && (path == 3 || end == 2)) continue;
                                Cfg c{mesh, bool(models), bool(solver), sr, ou, solver == 1};
                                mc::run([&] {
                                    std::string s = MC_STR("problem with " << meshName[mesh] << (models ? ", models" : "") << (solver ? ", solver" : "") << "; sources:");
                                    for (unsigned k : sr) s += std::string(" ") + srcName[k];
                                    s += "; requests:";
                                    for (unsigned k : ou) s += std::string(" ") + outName[k];
                                    return s + "; " + dataPath[path] + "; " + endName[end];
                                }, [&] { dataCase(c, path, end); });
                            }
                    }
}
int main(int c, char** v) { return mc::main_(c, v, body); }

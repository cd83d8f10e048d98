// P26: wire segments and connectors grouped into wires, on every small network.
#include "geo.h"
#include <memory>
#include "Data.h"
#include "util/wire/Group.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/RLC.h"
using namespace geo;
namespace PMn = SEMBA::PhysicalModel;
typedef std::string Str;
typedef PMn::Wire::Wire W;
typedef PMn::Wire::Extremes Ext;
typedef PMn::Multiport::Multiport MP;

struct L { unsigned a, b; int mat; int lay; };            // mat: 0 none, 1 2 wires, 3 wire with ends, 4 5 connectors, 6 a metal
static const unsigned matId[] = {0, 9, 4, 7, 2, 12, 5};
static const char* const matName[] = {"-", "wireA", "wireB", "ended", "plugC", "plugD", "metal"};
static bool isWire(int m) { return m >= 1 && m <= 3; }
static bool isPlug(int m) { return m == 4 || m == 5; }
static size_t idBase = 10, vertexBase = 20;
static size_t idOf(size_t k) { return idBase + 3 * k; }
static Str show(const std::vector<L>& n, bool integer) {
    Str s = integer ? "grid:" : "real:";
    for (size_t k = 0; k < n.size(); k++) s += MC_STR(" #" << idOf(k) << " " << n[k].a << ">" << n[k].b << " " << matName[n[k].mat] << (n[k].lay ? MC_STR("@" << n[k].lay) : Str()) << ";");
    return s;
}
template<class T> struct Kind;
template<> struct Kind<Math::Real> {
    typedef CoordR3 C; typedef LinR2 Lin;
    static C* coord(unsigned k) { return new C(Coordinate::Id(vertexBase + k), R3(k, double(k * k) / 4, -1.5 * k)); }
    typedef Mesh::Unstructured M;
    static M* mesh() { return new M(); }
};
template<> struct Kind<Math::Int> {
    typedef CoordI3 C; typedef LinI2 Lin;
    static C* coord(unsigned k) { return new C(Coordinate::Id(vertexBase + k), I3(k, (k * k) % 5, 3)); }
    typedef Mesh::Structured M;
    static M* mesh() {
        std::vector<double> ax[3]; for (auto& a : ax) for (int i = 0; i < 12; i++) a.push_back(i);
        return new M(Grid3(ax));
    }
};
enum Rule { SPLIT, JOIN, MAY };
// What has to happen at a point where exactly two lines meet.
static Rule ruleAt(const std::vector<L>& n, unsigned p, unsigned i, unsigned j) {
    bool out[2] = {n[i].a == p, n[j].a == p};
    int m[2] = {n[i].mat, n[j].mat};
    if (n[i].lay != n[j].lay) return SPLIT;
    bool aligned = out[0] != out[1];
    if (isWire(m[0]) && isWire(m[1])) return m[0] == m[1] && aligned ? JOIN : SPLIT;
    if (isPlug(m[0]) && isPlug(m[1])) return m[0] == m[1] && aligned ? JOIN : MAY;
    if (m[0] == 3 || m[1] == 3) return MAY;                        // a connector at a wire that has its own ends
    bool plugOut = isPlug(m[0]) ? out[0] : out[1];
    return plugOut ? MAY : JOIN;                                   // a connector that points to its wire belongs to it
}
struct Expect { std::set<std::set<size_t>> wires; bool refuse; };
static std::vector<Expect> expectations(const std::vector<L>& n) {
    std::map<unsigned, std::vector<unsigned>> at;
    for (unsigned k = 0; k < n.size(); k++) if (isWire(n[k].mat) || isPlug(n[k].mat)) { at[n[k].a].push_back(k); at[n[k].b].push_back(k); }
    std::vector<std::pair<unsigned, unsigned>> must, may;
    for (auto& q : at) if (q.second.size() == 2) {
        Rule r = ruleAt(n, q.first, q.second[0], q.second[1]);
        if (r == JOIN) must.push_back({q.second[0], q.second[1]}); else if (r == MAY) may.push_back({q.second[0], q.second[1]});
    }
    std::vector<Expect> res;
    for (unsigned mask = 0; mask < (1u << may.size()); mask++) {
        std::vector<unsigned> root(n.size()); for (unsigned k = 0; k < n.size(); k++) root[k] = k;
        auto find = [&](unsigned k) { while (root[k] != k) k = root[k]; return k; };
        for (auto& q : must) root[find(q.first)] = find(q.second);
        for (unsigned b = 0; b < may.size(); b++) if (mask >> b & 1) root[find(may[b].first)] = find(may[b].second);
        std::map<unsigned, std::vector<unsigned>> comp;
        for (unsigned k = 0; k < n.size(); k++) if (isWire(n[k].mat) || isPlug(n[k].mat)) comp[find(k)].push_back(k);
        Expect e; e.refuse = false;
        for (auto& q : comp) { std::set<size_t> s; bool w = false; for (unsigned k : q.second) { s.insert(idOf(k)); w = w || isWire(n[k].mat); } if (!w) e.refuse = true; e.wires.insert(s); }
        res.push_back(e);
    }
    return res;
}
static Str endName(const MP* m) { return m ? m->getName() : Str("none"); }

template<class T> static void check(const std::vector<L>& n) {
    typedef Kind<T> K; typedef typename K::C C; typedef typename K::Lin Lin;
    typedef Element::Polyline<T> Poly;
    SEMBA::Data data;
    data.physicalModels = new PMn::Group<>();
    W* wire[2] = {new W(MatId(9), "wireA", 0.5, 1, 2), new W(MatId(4), "wireB", 0.25, 3, 4)};
    MP* plug[2] = {new PMn::Multiport::Predefined(MatId(2), "plugC", MP::matched), new PMn::Multiport::RLC(MatId(12), "plugD", MP::sRLC, 1, 2, 3)};
    PMn::Multiport::Predefined l(MatId(30), "endL", MP::shortCircuit), r(MatId(31), "endR", MP::openCircuit);
    Ext* ended = new Ext("ended", W(MatId(7), "x", 0.125, 5, 6), &l, &r); ended->setId(MatId(7));
    data.physicalModels->add(wire[0]); data.physicalModels->add(wire[1]); data.physicalModels->add(ended);
    data.physicalModels->add(plug[0]); data.physicalModels->add(plug[1]);
    auto* metal = new PMn::Predefined::PEC(MatId(5), "metal"); data.physicalModels->add(metal);
    const Element::Model* model[] = {nullptr, wire[0], wire[1], ended, plug[0], plug[1], metal};
    typename K::M* mesh = K::mesh(); data.mesh = mesh;
    Layer::Layer* lay[3] = {nullptr, new Layer::Layer(Layer::Id(1), "one"), new Layer::Layer(Layer::Id(2), "two")};
    mesh->layers().add(lay[1]); mesh->layers().add(lay[2]);
    unsigned nodes = 0; for (auto& q : n) nodes = std::max(nodes, std::max(q.a, q.b) + 1);
    std::vector<const C*> pts; for (unsigned k = 0; k < nodes; k++) { C* c = K::coord(k); pts.push_back(c); mesh->coords().add(c); }
    for (size_t k = 0; k < n.size(); k++) { const C* v[2] = {pts[n[k].a], pts[n[k].b]}; mesh->elems().add(new Lin(Element::Id(idOf(k)), v, lay[n[k].lay], model[n[k].mat])); }
    auto lineOf = [&](size_t id) -> size_t { for (size_t k = 0; k < n.size(); k++) if (idOf(k) == id) return k; return n.size(); };

    std::vector<Expect> ex = expectations(n);
    std::unique_ptr<SEMBA::Util::Wire::Group<T>> g;
    bool refused = false;
    try { g.reset(new SEMBA::Util::Wire::Group<T>(data)); } catch (const std::logic_error&) { refused = true; }
    mc::step();
    if (refused) {
        bool ok = false; for (auto& e : ex) ok = ok || e.refuse;
        MC_CHECK(ok, "refused", "every connector is attached to a wire");
        mc::outcome("refused");
        return;
    }
    std::set<std::set<size_t>> got; std::map<size_t, unsigned> times; std::map<Str, unsigned> names; std::map<int, unsigned> perMat;
    std::set<size_t> mats, elems;
    for (size_t i = 0; i < g->numberOfWires(); i++) {
        const std::vector<Element::Id>& ids = g->getIdsOfWire(i);
        const std::vector<bool>& rev = g->getRevOfWire(i);
        const Poly* w = g->getWire(i);
        std::set<size_t> s; for (auto q : ids) { s.insert(q.toInt()); times[q.toInt()]++; }
        got.insert(s);
        MC_REQUIRE(!ids.empty() && rev.size() == ids.size() && w->numberOfCoordinates() == ids.size() + 1, "wire-shape", "wire " << i << " of " << ids.size() << " lines, " << rev.size() << " directions and " << w->numberOfCoordinates() << " vertices");
        std::vector<size_t> ln; for (auto q : ids) { ln.push_back(lineOf(q.toInt())); MC_REQUIRE(ln.back() < n.size(), "wire-line", "line " << q << " is not in the mesh"); }
        size_t m = ln.size();
        std::vector<unsigned> v; for (size_t k = 0; k <= m; k++) { auto c = w->getV(k); unsigned x = ~0u; for (unsigned z = 0; z < nodes; z++) if (pts[z]->getId() == c->getId()) x = z; v.push_back(x); }
        auto fits = [&](bool back) { for (size_t k = 0; k < m; k++) { const L& q = n[ln[back ? m - 1 - k : k]]; if (!((q.a == v[k] && q.b == v[k + 1]) || (q.b == v[k] && q.a == v[k + 1]))) return false; } return true; };
        bool fwd = fits(false), bwd = fits(true);
        MC_REQUIRE(fwd || bwd, "wire-path", "wire " << i << " visits " << mc::vec(v) << " which does not follow its lines");
        MC_CHECK(w->getLayerId() == Layer::Id(n[ln[0]].lay), "wire-layer", "wire " << i << " in layer " << w->getLayerId());
        MC_CHECK(elems.insert(w->getId().toInt()).second, "wire-id", "id " << w->getId() << " twice");
        // the material
        const Ext* e = nullptr;
        try { e = g->getMat(w->getMatId()); } catch (const std::exception&) {}
        MC_REQUIRE(e != nullptr && w->getModel() == e && e->getId() == w->getMatId(), "wire-material", "the material of wire " << i << " is not found by its id " << w->getMatId());
        MC_CHECK(mats.insert(w->getMatId().toInt()).second, "wire-material", "wires share the material " << w->getMatId());
        int own = 0; size_t blocks = 0; bool inWire = false;
        for (size_t k = 0; k < m; k++) { int q = n[ln[k]].mat; if (isWire(q)) { if (!inWire) blocks++; inWire = true; own = q; } else inWire = false; }
        MC_REQUIRE(own != 0, "wire-kind", "wire " << i << " has no line of wire");
        const W& base = own == 3 ? *ended : *wire[own - 1];
        MC_CHECK(e->getRadius() == base.getRadius() && e->getSeriesResistance() == base.getSeriesResistance() && e->getSeriesInductance() == base.getSeriesInductance(), "wire-parameters", e->getRadius() << " " << e->getSeriesResistance() << " " << e->getSeriesInductance() << " of wire " << i);
        if (own == 3) MC_CHECK(e->getName() == "ended", "wire-name", e->getName());
        else { perMat[own]++; names[e->getName()]++; }
        // directions
        bool twoLoop = m == 2 && ((n[ln[0]].a == n[ln[1]].a && n[ln[0]].b == n[ln[1]].b) || (n[ln[0]].a == n[ln[1]].b && n[ln[0]].b == n[ln[1]].a));
        bool closed = v[0] == v[m];
        if (!twoLoop) {
            bool any = false, all = true;
            for (size_t k = 0; k < m; k++) {
                size_t seg = fwd ? k : m - 1 - k;
                bool against = n[ln[k]].a != v[seg];
                MC_CHECK(rev[k] == against, "wire-direction", "line " << ids[k] << " of wire " << mc::vec(v) << " said to be " << (rev[k] ? "reversed" : "straight"));
                if (isWire(n[ln[k]].mat)) { any = any || !against; all = all && !against; }
            }
            MC_CHECK(blocks > 1 ? any : all, "wire-orientation", "wire " << mc::vec(v) << " runs against its lines");
        }
        // ends
        Str expL = "none", expR = "none"; bool known = true;
        if (own == 3) { expL = "endL"; expR = "endR"; for (size_t k = 0; k < m; k++) if (isPlug(n[ln[k]].mat)) known = !closed && blocks == 1; }
        else {
            int first = n[fwd ? ln[0] : ln[m - 1]].mat, last = n[fwd ? ln[m - 1] : ln[0]].mat;
            std::set<int> plugs; bool has = false; for (size_t k = 0; k < m; k++) if (isPlug(n[ln[k]].mat)) has = true;
            // a run of connectors at an end is of one kind when it has to be one
            size_t changes = 0; for (size_t k = 1; k < m; k++) if (n[ln[k]].mat != n[ln[k - 1]].mat) changes++;
            size_t most = (isPlug(first) ? 1 : 0) + (isPlug(last) ? 1 : 0);
            if (has && (closed || blocks > 1 || changes != most)) known = false;
            else { if (isPlug(first)) expL = matName[first]; if (isPlug(last)) expR = matName[last]; }
        }
        if (known && !(twoLoop && own != 3)) MC_CHECK(endName(e->getExtreme(0)) == expL && endName(e->getExtreme(1)) == expR, "wire-ends", "wire " << mc::vec(v) << " ends in " << endName(e->getExtreme(0)) << " and " << endName(e->getExtreme(1)) << " expected " << expL << " and " << expR);
    }
    for (auto& q : times) MC_CHECK(q.second == 1, "line-once", "line " << q.first << " is in " << q.second << " wires");
    bool ok = false; for (auto& e : ex) ok = ok || (!e.refuse && e.wires == got);
    bool must = true; for (auto& e : ex) must = must && e.refuse;
    Str gs; for (auto& s : got) gs += mc::vec(std::vector<size_t>(s.begin(), s.end()));
    Str es; for (auto& s : ex[0].wires) es += mc::vec(std::vector<size_t>(s.begin(), s.end()));
    MC_CHECK(!must, "accepted", "a connector attached to no wire is accepted");
    if (!must) MC_CHECK(ok, "partition", "wires " << gs << " expected " << es << (ex.size() > 1 ? " or the like" : ""));
    for (auto& q : perMat) for (unsigned k = 1; k <= q.second; k++) MC_CHECK(names[MC_STR(matName[q.first] << "_" << k)] == 1, "wire-name", "no wire named " << matName[q.first] << "_" << k);
    mc::state(gs);
    mc::outcome(MC_STR(g->numberOfWires() << " wires"));
    // the problem is as it was
    size_t count = mesh->elems().size();
    MC_CHECK(count == n.size() && data.physicalModels->size() == 6 && endName(ended->getExtreme(0)) == "endL" && endName(ended->getExtreme(1)) == "endR", "problem-changed", count);
}
// every way of laying `len` lines on points, up to the names of the points
static void shapes(unsigned len, unsigned maxNodes, const std::function<void(const std::vector<std::pair<unsigned, unsigned>>&)>& f) {
    std::vector<std::pair<unsigned, unsigned>> s;
    std::function<void(unsigned)> rec = [&](unsigned used) {
        if (s.size() == len) { f(s); return; }
        for (unsigned a = 0; a <= used && a < maxNodes; a++) {
            unsigned u1 = std::max(used, a + 1);
            for (unsigned b = 0; b <= u1 && b < maxNodes; b++) { if (a == b) continue; s.push_back({a, b}); rec(std::max(u1, b + 1)); s.pop_back(); }
        }
    };
    rec(0);
}
static void family(unsigned len, unsigned maxNodes, const std::vector<int>& mats, const std::vector<int>& lays, bool integer) {
    shapes(len, maxNodes, [&](const std::vector<std::pair<unsigned, unsigned>>& s) {
        size_t tot = 1; for (unsigned k = 0; k < len; k++) tot *= mats.size() * lays.size();
        for (size_t c = 0; c < tot; c++) {
            std::vector<L> n; size_t x = c;
            for (auto& q : s) { L l; l.a = q.first; l.b = q.second; l.mat = mats[x % mats.size()]; x /= mats.size(); l.lay = lays[x % lays.size()]; x /= lays.size(); n.push_back(l); }
            mc::run([n, integer] { return show(n, integer); }, [&] { if (integer) check<Math::Int>(n); else check<Math::Real>(n); });
        }
    });
}
// One chain (open or closed) of lines in every direction, with connectors anywhere, listed in several orders.
static void chains(unsigned len, const std::vector<int>& mats, bool closed, bool integer) {
    size_t tot = 1; for (unsigned k = 0; k < len; k++) tot *= mats.size() * 2;
    for (size_t c = 0; c < tot; c++) for (int order = 0; order < 3; order++) {
        std::vector<L> s; size_t x = c;
        for (unsigned k = 0; k < len; k++) {
            L l; l.a = k; l.b = closed ? (k + 1) % len : k + 1; l.mat = mats[x % mats.size()]; x /= mats.size(); l.lay = 1;
            if (x % 2) std::swap(l.a, l.b);
            x /= 2; s.push_back(l);
        }
        std::vector<L> n = s;
        if (order == 1) std::reverse(n.begin(), n.end());
        if (order == 2) { n.clear(); for (unsigned k = 1; k < len; k += 2) n.push_back(s[k]); for (unsigned k = 0; k < len; k += 2) n.push_back(s[k]); }
        mc::run([n, integer] { return show(n, integer); }, [&] { if (integer) check<Math::Int>(n); else check<Math::Real>(n); });
    }
}
// chains and sets of chains of every length of a ladder, with identifiers of every magnitude
static void sizes() {
    std::vector<unsigned> S; for (unsigned n = 1; n <= 34; n++) S.push_back(n); for (unsigned n : {64, 65, 100, 128, 129}) S.push_back(n);
    for (unsigned len : S) for (int kind = 0; kind < 6; kind++) for (int order = 0; order < 4; order++) for (size_t base : {10ul, 250ul, 65530ul, (1ul << 32) - 20}) {
        if (len > 12 && order != int(len + kind) % 4 && base != 10) continue; if (len > 40 && base != 10 && base != 65530) continue;
        std::vector<L> s; auto line = [&](unsigned a, unsigned b, int m) { L l; l.a = a; l.b = b; l.mat = m; l.lay = 1; s.push_back(l); };
        if (kind == 0) for (unsigned k = 0; k < len; k++) line(k, k + 1, 1);                                            // one chain
        if (kind == 1) for (unsigned k = 0; k < len + 2; k++) line(k, (k + 1) % (len + 2), 2);                          // a closed one
        if (kind == 2) { line(1, 0, 4); for (unsigned k = 1; k <= len; k++) line(k, k + 1, 1); line(len + 1, len + 2, 5); std::swap(s[0].a, s[0].b); std::swap(s.back().a, s.back().b); s[0] = L{0, 1, 4, 1}; s.back() = L{len + 2, len + 1, 5, 1}; }   // between two connectors
        if (kind == 3) for (unsigned w = 0; w < len; w++) for (unsigned k = 0; k < 2; k++) line(3 * w + k, 3 * w + k + 1, w % 3 + 1);   // as many chains of two
        if (kind == 4) for (unsigned w = 0; w < len; w++) line(0, w + 1, w % 2 + 1);                                    // a star
        if (kind == 5) for (unsigned k = 0; k < len; k++) line(k, k + 1, k / 3 % 2 + 1);                                // a change of material every three
        std::vector<L> n = s; if (order == 1) std::reverse(n.begin(), n.end()); if (order == 2) { n.clear(); for (size_t k = 1; k < s.size(); k += 2) n.push_back(s[k]); for (size_t k = 0; k < s.size(); k += 2) n.push_back(s[k]); } if (order == 3) { n.clear(); size_t h = s.size() / 2; for (size_t k = 0; k < s.size(); k++) n.push_back(s[(k + h) % s.size()]); }
        mc::run([n, base] { return MC_STR("ids above " << base << " ") + show(n, false); }, [&] { idBase = base; vertexBase = base * 2; check<Math::Real>(n); if (len < 9 && kind != 3) check<Math::Int>(n); }); idBase = 10; vertexBase = 20;
    }
}
static void body() {
    sizes();
    for (int integer = 0; integer < 2; integer++) {
        for (unsigned len = 0; len <= 2; len++) family(len, 4, {0, 1, 2, 3, 4, 5, 6}, {0, 1, 2}, integer);
        family(3, 6, integer ? std::vector<int>{1, 3, 4} : mc::thorough() ? std::vector<int>{1, 2, 3, 4, 5, 6} : std::vector<int>{1, 2, 3, 4, 5}, {1}, integer);
        family(3, 4, {1, 4}, {1, 2}, integer);
    }
    family(4, 8, mc::thorough() ? std::vector<int>{1, 2, 3, 4, 5} : std::vector<int>{1, 4}, {1}, false);
    for (int closed = 0; closed < 2; closed++) {
        for (unsigned len = 3 + closed; len <= 5; len++) chains(len, {1, 4}, closed, len == 4);
        chains(4, {1, 3, 4}, closed, false);
        if (mc::thorough()) { chains(7, {1, 4}, closed, true); chains(5, {1, 3, 4, 5}, closed, false); }
    }
    if (mc::thorough()) { family(5, 7, {1, 4}, {1}, false); family(4, 5, {1, 3, 4}, {1}, true); }
}
int main(int argc, char** argv) { return mc::main_(argc, argv, body); }

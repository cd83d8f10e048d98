// Small geometric toolkit shared by the mesh harnesses.
#pragma once
#include "mc.h"
#include "geometry/mesh/Geometric.h"
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
#include "geometry/coordinate/Group.h"
#include "geometry/coordinate/Conformal.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/element/Group.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Polyline.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Triangle6.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Tetrahedron10.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/element/Polygon.h"
#include "geometry/element/Polyhedron.h"
#include "geometry/element/LineConformal.h"
#include "geometry/layer/Group.h"
#include "physicalModel/Group.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/volume/Classic.h"
namespace geo {
using namespace SEMBA;
using namespace SEMBA::Geometry;
typedef Math::CVecR3 R3;
typedef Math::CVecI3 I3;
inline std::string p(const R3& a) { return MC_STR("(" << a(0) << "," << a(1) << "," << a(2) << ")"); }
inline std::string p(const I3& a) { return MC_STR("(" << a(0) << "," << a(1) << "," << a(2) << ")"); }
inline bool eq(const R3& a, const R3& b, double tol = 1e-9) { return mc::near(a(0), b(0), tol) && mc::near(a(1), b(1), tol) && mc::near(a(2), b(2), tol); }
inline bool eqI(const I3& a, const I3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
inline R3 sub(const R3& a, const R3& b) { return R3(a(0) - b(0), a(1) - b(1), a(2) - b(2)); }
inline R3 add(const R3& a, const R3& b) { return R3(a(0) + b(0), a(1) + b(1), a(2) + b(2)); }
inline R3 mul(const R3& a, double s) { return R3(a(0) * s, a(1) * s, a(2) * s); }
inline double dot(const R3& a, const R3& b) { return a(0) * b(0) + a(1) * b(1) + a(2) * b(2); }
inline R3 cross(const R3& a, const R3& b) { return R3(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)); }
inline double norm(const R3& a) { return std::sqrt(dot(a, a)); }
inline double det(const R3& a, const R3& b, const R3& c) { return dot(a, cross(b, c)); }
template<class T> std::string ids(const T& g) { std::string s; for (size_t i = 0; i < g.size(); i++) s += g(i)->getId().toStr() + " "; return "[" + s + "]"; }

// ---- small meshes
static const char* const typeNameR[] = {"node", "line", "polyline", "tri3", "tri6", "quad", "tet4", "tet10", "hex", "polygon"};
enum { NODE, LINE, POLYLINE, TRI3, TRI6, QUAD, TET4, TET10, HEX, POLYGON, NTYPESR };
// First vertices of the pool the type uses (the pool's first eight are the corners of a box, in the library's order).
inline std::vector<unsigned> vertsOf(int type, unsigned shift = 0) {
    static const std::vector<std::vector<unsigned>> t = {{0}, {0, 1}, {0, 1, 2}, {0, 1, 2}, {0, 8, 1, 9, 2, 10}, {0, 1, 2, 3}, {0, 1, 3, 4},
        {0, 8, 1, 11, 12, 3, 4, 13, 9, 10}, {0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 2, 9, 3}};
    std::vector<unsigned> r = t[type];
    if (shift && type != HEX) for (auto& v : r) v = (v + shift) % 14;
    return r;
}
inline ElemR* makeR(int type, size_t id, const std::vector<const CoordR3*>& v, const Layer::Layer* lay, const Element::Model* mod) {
    Element::Id eid(id);
    const CoordR3* a[10];
    for (size_t i = 0; i < v.size() && i < 10; i++) a[i] = v[i];
    switch (type) {
    case NODE: return new NodR(eid, a, lay, mod);
    case LINE: return new LinR2(eid, std::array<const CoordR3*, 2>{{a[0], a[1]}}, lay, mod);
    case POLYLINE: return new PolylinR(eid, v, lay, mod);
    case TRI3: return new Tri3(eid, a, lay, mod);
    case TRI6: return new Tri6(eid, a, lay, mod);
    case QUAD: return new QuaR4(eid, std::array<const CoordR3*, 4>{{a[0], a[1], a[2], a[3]}}, lay, mod);
    case TET4: return new Tet4(eid, a, lay, mod);
    case TET10: return new Tet10(eid, a, lay, mod);
    case HEX: return new HexR8(eid, a, lay, mod);
    default: return new Element::Polygon(eid, v, lay, mod);
    }
}
template<class M> const Coordinate::Base* vOf(const Element::Base* e, size_t i) {
    return dynamic_cast<const Element::Element<M>*>(e)->getV(i);
}
inline const Coordinate::Base* anyV(const Element::Base* e, size_t i) {
    if (auto r = dynamic_cast<const ElemR*>(e)) return r->getV(i);
    return dynamic_cast<const ElemI*>(e)->getV(i);
}
inline const Coordinate::Base* anyVertex(const Element::Base* e, size_t i) {
    if (auto r = dynamic_cast<const ElemR*>(e)) return r->getVertex(i);
    return dynamic_cast<const ElemI*>(e)->getVertex(i);
}
inline std::string renderCoord(const Coordinate::Base* c) {
    std::string s = c->getId().toStr() + "@";
    if (auto r = dynamic_cast<const CoordR3*>(c)) s += p(r->pos());
    else if (auto i = dynamic_cast<const CoordI3*>(c)) s += p(i->pos());
    if (auto r = dynamic_cast<const CoordRel*>(c)) s += "rel" + p(r->rel());
    if (auto r = dynamic_cast<const CoordConf*>(c)) s += MC_STR("conf" << int(r->getDir()) << "/" << r->getLength());
    return s;
}
inline std::string renderElem(const Element::Base* e) {
    std::string s = MC_STR(typeid(*e).name() << "#" << e->getId().toStr() << " lay" << e->getLayerId().toStr() << " mat" << e->getMatId().toStr() << " v[");
    for (size_t i = 0; i < e->numberOfCoordinates(); i++) s += renderCoord(anyV(e, i)) + " ";
    if (auto l = dynamic_cast<const LinConf*>(e)) s += "norm" + p(l->getNorm());
    return s + "]";
}
inline std::string renderGrid(const Grid3& g) { return "grid" + mc::vec(g.getPos(0)) + mc::vec(g.getPos(1)) + mc::vec(g.getPos(2)); }
template<class MESH> std::string renderMesh(const MESH& m) {
    std::string s = "coords{";
    for (size_t i = 0; i < m.coords().size(); i++) s += MC_STR(typeid(*m.coords()(i)).name()) + renderCoord(m.coords()(i)) + " ";
    s += "} elems{";
    for (size_t i = 0; i < m.elems().size(); i++) s += renderElem(m.elems()(i)) + " ";
    s += "} layers{";
    for (size_t i = 0; i < m.layers().size(); i++) s += m.layers()(i)->getId().toStr() + ":" + m.layers()(i)->getName() + " ";
    return s + "}";
}
}

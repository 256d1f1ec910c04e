// Shared builders of geometrical elements.
#pragma once
#include "common.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/LineConformal.h"
#include "geometry/element/Polyline.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Triangle6.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Polygon.h"
#include "geometry/element/Polyhedron.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Tetrahedron10.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/element/Group.h"
#include "geometry/layer/Group.h"
using namespace SEMBA::Geometry;
template<class T> struct Crd { typedef Coordinate::Coordinate<T,3> C; typedef Vector::Cartesian<T,3> V; };
template<class T> struct Pts {
    typedef typename Crd<T>::C C; typedef typename Crd<T>::V V; std::vector<const C*> c;
    Pts() {}
    Pts(const Pts&) = delete;
    ~Pts() { for (auto* p : c) delete p; }
    const C* add(const V& v) { c.push_back(new C(CoordId((long)c.size() + 1), v)); return c.back(); }
    const C** at(size_t i = 0) { return &c[i]; }
};
static const int nKinds = 9;
static const char* kindName[nKinds] = {"node", "line", "polyline", "triangle", "triangle6", "quad", "tetrahedron", "tetrahedron10", "hexahedron"};
static const int kindSize[nKinds] = {1, 2, 4, 3, 6, 4, 4, 10, 8};
static ElemR* makeR(int k, long id, const CoordR3** v, const Layer::Layer* l = 0, const Element::Model* m = 0) {
    switch (k) {
    case 0: return new NodR(ElemId(id), v, l, m);
    case 1: return new LinR2(ElemId(id), v, l, m);
    case 2: return new PolylinR(ElemId(id), std::vector<const CoordR3*>(v, v + 4), l, m);
    case 3: return new Tri3(ElemId(id), v, l, m);
    case 4: return new Tri6(ElemId(id), v, l, m);
    case 5: return new QuaR4(ElemId(id), v, l, m);
    case 6: return new Tet4(ElemId(id), v, l, m);
    case 7: return new Tet10(ElemId(id), v, l, m);
    default: return new HexR8(ElemId(id), v, l, m);
    }
}
static ElemI* makeI(int k, long id, const CoordI3** v, const Layer::Layer* l = 0, const Element::Model* m = 0) {
    switch (k) {
    case 0: return new NodI(ElemId(id), v, l, m);
    case 1: return new LinI2(ElemId(id), v, l, m);
    case 5: return new QuaI4(ElemId(id), v, l, m);
    default: return new HexI8(ElemId(id), v, l, m);
    }
}

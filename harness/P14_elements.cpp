// @property P14
// @bounds every element type (nodes, lines, polylines, linear and quadratic triangles and tetrahedra, quadrilaterals, hexahedra, polygons, polyhedra; real and integer), identifiers, layers and materials any; extreme vertices and bounding boxes over all integer or real coordinates in [-9,9], measures over vertices in [-10,10], inner points over four tetrahedra of both orientations and every point, closedness over two pentagons with every pairing of vertices
// @entry p14_shape
// @entry p14_equal
// @entry p14_extremes shards=8 time=150
// @entry p14_bound
// @entry p14_frombox
// @entry p14_area
// @entry p14_volume
// @entry p14_inside
// @entry p14_flat reach=flat,solid
// @entry p14_rect reach=rectangle,not
// @entry p14_plane
// @entry p14_normal
// @entry p14_hexface
// @entry p14_hexregular shards=4 reach=regular,oblique
// @entry p14_curved reach=curved,straight
// @entry p14_linear
// @entry p14_faces
// @entry p14_polyline
// @entry p14_polygon
// @entry p14_hexarea
// @entry p14_idorder
// @entry p14_conformal reach=refused,conformal
// @entry p14_polyhedron reach=closed,open
#include "elems.h"
static CVecR3 V(double a, double b, double c, int rot = 0) { double v[3] = {a, b, c}; CVecR3 r; for (int d = 0; d < 3; d++) r((d + rot) % 3) = v[d]; return r; }
static double det3(const CVecR3& a, const CVecR3& b, const CVecR3& c) { return a(0) * (b(1) * c(2) - b(2) * c(1)) - a(1) * (b(0) * c(2) - b(2) * c(0)) + a(2) * (b(0) * c(1) - b(1) * c(0)); }
static const double P0[10][3] = {{0,0,0},{1,0,0},{0,2,0},{0,0,3},{1,1,0},{2,0,1},{0,1,2},{3,1,1},{1,3,2},{2,2,5}};
static void points(Pts<Real>& p, int n) { for (int i = 0; i < n; i++) p.add(CVecR3(P0[i][0], P0[i][1], P0[i][2])); }
template<class E> static int indexOf(const E* e, const void* c) { for (size_t i = 0; i < e->numberOfCoordinates(); i++) if ((const void*)e->getV(i) == c) return (int)i; return -1; }
static const int faces[9] = {1, 2, 2, 3, 3, 4, 4, 4, 6}, verts[9] = {1, 2, 2, 3, 3, 4, 4, 4, 8}, sideV[9] = {1, 1, 1, 2, 2, 2, 3, 3, 4}, sideC[9] = {1, 1, 1, 2, 3, 2, 3, 6, 4};
ENTRY p14_shape() {
    int k = sym_choice("kind", nKinds); long id = symi("id", 1, 1000); Pts<Real> p; points(p, 10); Layer::Layer lay(LayerId(symi("lay", 1, 9)), "a"); Element::Model mod(MatId(symi("mat", 1, 9))); ElemR* e = makeR(k, id, p.at(), &lay, &mod);
    sym_check(e->getId() == ElemId(id) && e->getLayerId() == lay.getId() && e->getMatId() == mod.getId() && e->getLayer() == &lay && e->getModel() == &mod, "identity"); sym_check((int)e->numberOfCoordinates() == kindSize[k] && (int)e->numberOfFaces() == faces[k] && (int)e->numberOfVertices() == verts[k], "counts"); sym_check(e->isQuadratic() == (k == 7 || k == 4), "order");
    for (int i = 0; i < kindSize[k]; i++) { sym_check(e->getV(i) == p.c[i], "coordinates-in-order"); sym_check(e->isCoordinate(p.c[i]), "own-coordinate"); } CoordR3 far(CoordId(99), CVecR3(9, 9, 9)); sym_check(!e->isCoordinate(&far), "foreign-coordinate"); std::vector<const CoordR3*> all = e->getCoordinates(), vs = e->getVertices(); sym_check((int)all.size() == kindSize[k] && (int)vs.size() == verts[k], "lists"); for (int i = 0; i < kindSize[k]; i++) sym_check(all[i] == e->getV(i), "coordinate-list");
    for (int i = 0; i < verts[k]; i++) { sym_check(vs[i] == e->getVertex(i) && indexOf(e, vs[i]) >= 0, "vertices-are-coordinates"); for (int j = 0; j < i; j++) sym_check(vs[i] != vs[j], "vertices-distinct"); }
    int use[10][10] = {{0}}; for (int f = 0; f < faces[k]; f++) { sym_check((int)e->numberOfSideVertices(f) == sideV[k] && (int)e->numberOfSideCoordinates(f) == sideC[k], "side-counts"); std::vector<const CoordR3*> sv = e->getSideVertices(f), sc = e->getSideCoordinates(f); sym_check((int)sv.size() == sideV[k] && (int)sc.size() == sideC[k], "side-lists"); for (int i = 0; i < sideC[k]; i++) { sym_check(sc[i] == e->getSideV(f, i) && indexOf(e, sc[i]) >= 0, "side-coordinates-belong"); for (int j = 0; j < i; j++) sym_check(sc[i] != sc[j], "side-coordinates-distinct"); }
        for (int i = 0; i < sideV[k]; i++) { bool in = false, vx = false; for (auto* c : sc) in = in || c == sv[i]; for (auto* c : vs) vx = vx || c == sv[i]; sym_check(sv[i] == e->getSideVertex(f, i) && in && vx, "side-vertices-belong"); } if (k >= 3 && k <= 5) use[indexOf(e, sv[0])][indexOf(e, sv[1])]++; if (k >= 6) for (int i = 0; i < sideV[k]; i++) use[indexOf(e, sv[i])][indexOf(e, sv[(i + 1) % sideV[k]])]++; }
    if (k == 1 || k == 2) sym_check(e->getSideVertex(0, 0) != e->getSideVertex(1, 0), "two-ends"); if (k >= 3 && k <= 5) for (int i = 0; i < verts[k]; i++) { int o = 0, n = 0; for (int j = 0; j < 10; j++) { o += use[indexOf(e, vs[i])][j]; n += use[j][indexOf(e, vs[i])]; } sym_check(o == 1 && n == 1, "sides-go-round"); } if (k >= 6) { int ed = 0; for (int i = 0; i < 10; i++) for (int j = 0; j < 10; j++) { ed += use[i][j]; sym_check(use[i][j] <= 1 && use[i][j] == use[j][i], "faces-close-and-agree"); } sym_check(ed == (k == 8 ? 24 : 12), "edge-count"); }
    int r = sym_choice("r", kindSize[k]); e->setV(r, &far); for (int i = 0; i < kindSize[k]; i++) sym_check(e->getV(i) == (i == r ? &far : p.c[i]), "replaced-coordinate"); e->setLayer(0); e->setModel(0); sym_check(e->getLayerId() == LayerId(0) && e->getMatId() == MatId(0), "no-layer-nor-material"); delete e;
}
ENTRY p14_equal() {
    int k = sym_choice("kind", nKinds), h = sym_choice("other", nKinds), dk = sym_choice("change", 4); Pts<Real> p, q; points(p, 10); points(q, 10); Layer::Layer lay(LayerId(symi("lay", 1, 9)), "a"), lay2(LayerId(symi("lay2", 1, 9)), "b"); Element::Model mod(MatId(symi("mat", 1, 9))), mod2(MatId(symi("mat2", 1, 9))); long id = symi("id", 1, 9), id2 = symi("id2", 1, 9); ElemR* e = makeR(k, id, p.at(), &lay, &mod); ElemR* f = makeR(h, dk == 0 ? id2 : id, q.at(), dk == 1 ? &lay2 : &lay, dk == 2 ? &mod2 : &mod); bool eq = k == h; if (dk == 0) eq = eq && id == id2; if (dk == 1) eq = eq && lay.getId() == lay2.getId(); if (dk == 2) eq = eq && mod.getId() == mod2.getId();
    if (dk == 3 && k == h) { int r = sym_choice("r", kindSize[k]); CoordR3* n = new CoordR3(q.c[r]->getId(), q.c[r]->pos() + CVecR3(0, symr("move", -1, 1), 0)); double mv = n->pos()(1) - q.c[r]->pos()(1); sym_assume(mv == 0 || mv > 0.01 || mv < -0.01); delete q.c[r]; q.c[r] = n; f->setV(r, n); eq = mv == 0; } sym_check((*e == *f) == eq && (*f == *e) == eq && (*e != *f) == !eq, "equality"); std::unique_ptr<Class::Cloneable> g; ElemR* c = e->cloneTo<ElemR>(); sym_check(c != e && *c == *e && c->getId() == e->getId() && c->getLayer() == &lay && c->getModel() == &mod, "clone"); for (int i = 0; i < kindSize[k]; i++) sym_check(c->getV(i) == e->getV(i), "clone-coordinates"); delete c; delete e; delete f;
    std::vector<const CoordR3*> v4(p.c.begin(), p.c.begin() + 4), v3(p.c.begin(), p.c.begin() + 3); PolylinR a(ElemId(1), v4), b(ElemId(1), v3); sym_check(!(a == b) && !(b == a), "polylines-of-different-length");
}
template<class T> static bool lexLess(const Vector::Cartesian<T,3>& a, const Vector::Cartesian<T,3>& b) { for (int d = 0; d < 3; d++) if (a(d) != b(d)) return a(d) < b(d); return false; }
template<class T> static void extremes(const Element::Element<T>* e) { const Coordinate::Coordinate<T,3> *lo = e->getMinV(), *hi = e->getMaxV(); bool l = false, h = false; for (size_t i = 0; i < e->numberOfVertices(); i++) { l = l || e->getVertex(i) == lo; h = h || e->getVertex(i) == hi; sym_check(!lexLess<T>(e->getVertex(i)->pos(), lo->pos()), "lowest-vertex"); sym_check(!lexLess<T>(hi->pos(), e->getVertex(i)->pos()), "highest-vertex"); } sym_check(l && h, "extremes-are-vertices"); }
ENTRY p14_extremes() {
    int k = sym_choice("kind", 4), s = sym_choice("fixed", 3); if (k < 2) { Pts<Real> p; for (int i = 0; i < 3; i++) { CVecR3 v(4, 4, 4); v((s + 1) % 3) = i < 2 ? sym_choice(nm("a", i).c_str(), 2) : 1; v((s + 2) % 3) = i < 2 ? (double)symi(nm("b", i), -2, 2) : 0.0; if (k) { double t = v((s + 1) % 3); v((s + 1) % 3) = v((s + 2) % 3); v((s + 2) % 3) = t; } p.add(v); } Tri3 e(ElemId(1), p.at()); extremes<Real>(&e); return; }
    Pts<Int> p; if (k == 2) { for (int i = 0; i < 2; i++) { CVecI3 v(4, 4, 4); v((s + 1) % 3) = symi(nm("a", i), -3, 3); v((s + 2) % 3) = sym_choice(nm("b", i).c_str(), 2); p.add(v); } LinI2 e(ElemId(1), p.at()); extremes<Int>(&e); return; } for (int i = 0; i < 4; i++) { CVecI3 v(i & 1, i >> 1, 3); v(s) = i == 1 ? symi(nm("a", i), 0, 2) : i == 3 ? sym_choice("a3", 2) : 1; p.add(v); } QuaI4 e(ElemId(1), p.at()); extremes<Int>(&e);
}
template<class T> static void boundOf(const Element::Element<T>* e) { Box<T,3> b = e->getBound(); for (int d = 0; d < 3; d++) { bool lo = false, hi = false; for (size_t i = 0; i < e->numberOfCoordinates(); i++) { T x = e->getV(i)->pos()(d); sym_check(x >= b.getMin()(d) && x <= b.getMax()(d), "bound-holds-every-coordinate"); lo = lo || x == b.getMin()(d); hi = hi || x == b.getMax()(d); } sym_check(lo && hi, "bound-is-tight"); } }
ENTRY p14_bound() { int k = sym_choice("kind", nKinds), r = sym_choice("which", 10); sym_assume(r < kindSize[k]); Pts<Real> p; points(p, 10); CVecR3 v = symR3("v", -9, 9); delete p.c[r]; p.c[r] = new CoordR3(CoordId(r + 1), v); if (k == 6) { double d = det3(p.c[1]->pos() - p.c[0]->pos(), p.c[2]->pos() - p.c[0]->pos(), p.c[3]->pos() - p.c[0]->pos()); sym_assume(d > 0.01 || d < -0.01); } ElemR* e = makeR(k, 1, p.at()); boundOf<Real>(e); delete e; Pts<Int> q; for (int i = 0; i < 8; i++) q.add(CVecI3(symi(nm("x", i), -9, 9), i & 1, i > 4)); LinI2 l(ElemId(1), q.at()); boundOf<Int>(&l); }
ENTRY p14_frombox() {
    int shape = sym_choice("shape", 8), n = (shape & 1) + (shape >> 1 & 1) + (shape >> 2 & 1), kind = sym_choice("kind", 4); CVecI3 lo = symI3("lo", -5, 5), hi = lo; for (int d = 0; d < 3; d++) if (shape >> d & 1) hi(d) = lo(d) + 1 + d; BoxI3 b(lo, hi); CoordI3Group cg; int pre = sym_choice("present", 9); sym_assume(pre == 0 || ((pre - 1) & ~shape) == 0); const CoordI3* old = 0; if (pre) { CVecI3 at; for (int d = 0; d < 3; d++) at(d) = (pre - 1) >> d & 1 ? hi(d) : lo(d); old = cg.addPos(at); } size_t before = cg.size(); bool thrown = false; ElemI* e = 0; try { switch (kind) { case 0: e = new NodI(cg, ElemId(7), b); break; case 1: e = new LinI2(cg, ElemId(7), b); break; case 2: e = new QuaI4(cg, ElemId(7), b); break; default: e = new HexI8(cg, ElemId(7), b); } } catch (const Geometry::Error::Box::Error&) { thrown = true; } sym_check(thrown == (n != kind), "kind-of-box"); if (!e) { sym_check(cg.size() == before, "refused-leaves-coordinates"); return; }
    BoxI3 g = e->getBound(); sym_check(same(g.getMin(), lo) && same(g.getMax(), hi), "bound-of-the-box"); sym_check((int)e->numberOfCoordinates() == 1 << n && cg.size() == before + (size_t)(1 << n) - (old ? 1 : 0), "reuses-present-coordinates"); bool used = !old; for (size_t i = 0; i < e->numberOfCoordinates(); i++) { sym_check(cg.getPos(e->getV(i)->pos()) == e->getV(i), "coordinates-in-the-group"); used = used || e->getV(i) == old; for (size_t j = 0; j < i; j++) sym_check(!same(e->getV(i)->pos(), e->getV(j)->pos()), "corners-distinct"); } sym_check(used, "present-coordinate-used"); delete e;
}
ENTRY p14_area() {
    Pts<Real> p; int rot = sym_choice("rot", 3); for (int i = 0; i < 3; i++) { double a = i ? symr(nm("a", i), -10, 10) : 0, b = i == 2 ? symr("b", -10, 10) : 0; CVecR3 v = V(2, 0, 1, rot); v(0) += 0; v += V(a, b, 0, rot); p.add(v); } Tri3 t(ElemId(1), p.at()); double a = t.getArea(); CVecR3 x = p.c[1]->pos() - p.c[0]->pos(), y = p.c[2]->pos() - p.c[0]->pos(); CVecR3 c(x(1) * y(2) - x(2) * y(1), x(2) * y(0) - x(0) * y(2), x(0) * y(1) - x(1) * y(0)); sym_check(a >= 0, "area-not-negative"); sym_check_close(4 * a * a, c(0) * c(0) + c(1) * c(1) + c(2) * c(2), 1e-6, "triangle-area");
    Pts<Real> q; points(q, 3); q.add(V(1, 2, symr("h", 1, 5))); Tet4 e(ElemId(1), q.at()); for (int f = 0; f < 4; f++) { CVecR3 u = e.getSideVertex(f, 1)->pos() - e.getSideVertex(f, 0)->pos(), w = e.getSideVertex(f, 2)->pos() - e.getSideVertex(f, 0)->pos(); CVecR3 k = u ^ w; double r = e.getAreaOfFace(f); sym_check(r >= 0, "face-area-not-negative"); sym_check_close(4 * r * r, k(0) * k(0) + k(1) * k(1) + k(2) * k(2), 1e-6, "tetrahedron-face-area"); }
}
ENTRY p14_volume() {
    CVecR3 o = symR3("o", -5, 5), d[3]; for (int i = 0; i < 3; i++) d[i] = V(P0[i + 4][0], P0[i + 4][1], P0[i + 4][2]); int s = sym_choice("free", 3); d[s] = symR3("e", -10, 10); double v = det3(d[0], d[1], d[2]); sym_assume(v > 0.01 || v < -0.01); Pts<Real> p; p.add(o); for (int i = 0; i < 3; i++) p.add(o + d[i]); Tet4 t(ElemId(1), p.at()); double a = t.getVolume(); sym_check_close(ab(a) * 6, ab(v), 1e-6, "tetrahedron-volume"); int i = sym_choice("i", 4), j = sym_choice("j", 4); sym_assume(i < j); const CoordR3* q[4] = {p.c[0], p.c[1], p.c[2], p.c[3]}; q[i] = p.c[j]; q[j] = p.c[i]; Tet4 u(ElemId(1), q); sym_check_close(u.getVolume(), -a, 1e-6, "orientation-flips-sign");
}
ENTRY p14_inside() {
    int k = sym_choice("tet", 4), sw = sym_choice("swap", 2); static const double T[4][4][3] = {{{0,0,0},{1,0,0},{0,1,0},{0,0,1}}, {{1,1,1},{4,2,1},{2,5,1},{2,2,7}}, {{-1,0,2},{3,-2,1},{0,4,-3},{2,1,5}}, {{0,0,0},{2,2,0},{2,0,2},{0,2,2}}}; Pts<Real> p; for (int i = 0; i < 4; i++) p.add(CVecR3(T[k][i][0], T[k][i][1], T[k][i][2])); const CoordR3* v[4] = {p.c[0], p.c[sw ? 2 : 1], p.c[sw ? 1 : 2], p.c[3]}; Tet4 t(ElemId(1), v); CVecR3 x = symR3("x", -5, 8); double w = det3(p.c[1]->pos() - p.c[0]->pos(), p.c[2]->pos() - p.c[0]->pos(), p.c[3]->pos() - p.c[0]->pos()); bool in = true; for (int i = 0; i < 4; i++) { CVecR3 q[4]; for (int j = 0; j < 4; j++) q[j] = j == i ? x : p.c[j]->pos(); double l = det3(q[1] - q[0], q[2] - q[0], q[3] - q[0]) / w; sym_assume(l > 0.001 || l < -0.001); if (l < 0) in = false; } sym_check(t.isInnerPoint(x) == in, "inner-iff-barycentric-positive");
}
ENTRY p14_flat() {
    int k = sym_choice("plane", 3); Pts<Real> p; p.add(V(0, 0, 0, k)); p.add(V(2, 1, k == 0 ? 0 : 1, k)); p.add(V(1, 3, k == 2 ? 2 : 0, k)); double a = symr("a", -4, 4), b = symr("b", -4, 4), h = symr("h", -4, 4); sym_assume(h == 0 || h > 0.01 || h < -0.01); CVecR3 n = p.c[1]->pos() ^ p.c[2]->pos(); p.add(p.c[1]->pos() * (double)((int)symi("i", -2, 2)) + p.c[2]->pos() * (double)((int)symi("j", -2, 2)) + n * h); bool thrown = false; try { Tet4 t(ElemId(1), p.at()); } catch (const Element::Error::NullVolume&) { thrown = true; } sym_check(thrown == (h == 0), "flat-tetrahedra-refused"); if (thrown) sym_reach("flat"); else sym_reach("solid"); (void)a; (void)b;
}
ENTRY p14_rect() { int rot = sym_choice("rot", 3), w = sym_choice("corner", 4); CVecR3 c[4] = {V(0, 0, 1, rot), V(3, 0, 1, rot), V(3, 2, 1, rot), V(0, 2, 1, rot)}; CVecR3 d = symR3("d", -8, 8); double m = ab(d(0)) + ab(d(1)) + ab(d(2)); sym_assume(m == 0 || m > 0.01); c[w] = c[w] + d; for (int i = 0; i < 4; i++) { CVecR3 s = c[i] - c[(i + 1) % 4]; sym_assume(ab(s(0)) + ab(s(1)) + ab(s(2)) > 0.01); } Pts<Real> p; for (int i = 0; i < 4; i++) p.add(c[i]); QuaR4 q(ElemId(1), p.at()); sym_check(q.isRectangular() == (m == 0), "rectangle-iff-right-angles"); if (m == 0) sym_reach("rectangle"); else sym_reach("not"); Tri3 t(ElemId(1), p.at()); sym_check(!t.isRectangular(), "triangle-not-rectangular"); }
ENTRY p14_plane() { int k = sym_choice("kind", 3), r = sym_choice("which", 6), ax = sym_choice("axis", 3); static const int kd[3] = {3, 4, 5}; int n = kindSize[kd[k]]; sym_assume(r < n); static const Constants::CartesianPlane pl[3] = {Constants::yz, Constants::zx, Constants::xy}; Pts<Real> p; for (int i = 0; i < n; i++) { CVecR3 v(P0[i][0], P0[i][1], P0[i][2]); v((ax + 1) % 3) = P0[i][0] + 2 * (i == 3); v((ax + 2) % 3) = P0[i][1] - (i == 4) * 3; v(ax) = 4; if (i == r) { double d = symr("d", -3, 3); sym_assume(d == 0 || d > 0.001 || d < -0.001); v(ax) = 4 + d; } p.add(v); } bool in = p.c[r]->pos()(ax) == 4; ElemR* e = makeR(kd[k], 1, p.at()); SurfR* s = e->castTo<SurfR>(); sym_check(s->isContainedInPlane(pl[ax]) == in, "in-plane"); sym_check(s->isContainedInPlane() == in, "in-any-plane"); for (int d = 1; d < 3; d++) sym_check(!s->isContainedInPlane(pl[(ax + d) % 3]), "not-in-crossing-plane"); delete e; }
ENTRY p14_normal() { int k = sym_choice("kind", 2), rot = sym_choice("rot", 3); double a = symr("a", 0.5, 5), b = symr("b", -5, 5), c = symr("c", 0.5, 5); int sg = sym_choice("sign", 2); CVecR3 o(1, 2, 3); Pts<Real> p; p.add(o); p.add(o + V(a, 0, 0, rot)); p.add(o + V(b, sg ? c : -c, 0, rot)); p.add(o + V(b - a, sg ? c : -c, 0, rot)); ElemR* e = makeR(k ? 5 : 3, 1, p.at()); CVecR3 n = e->castTo<SurfR>()->getNormal(); close3(n, V(0, 0, sg ? 1 : -1, rot), 1e-6, "unit-normal-right-handed"); delete e; Pts<Int> q; CVecI3 i0(1, 1, 1), i1, i2, i3; i1 = i2 = i3 = i0; i1(rot) += 3; i2(rot) += 3; i2((rot + 1) % 3) += 2; i3((rot + 1) % 3) += 2; q.add(i0); q.add(sg ? i1 : i3); q.add(i2); q.add(sg ? i3 : i1); QuaI4 f(ElemId(1), q.at()); CVecI3 z(0, 0, 0); z((rot + 2) % 3) = sg ? 1 : -1; sym_check(same(f.getNormal(), z), "integer-normal"); }
ENTRY p14_hexface() {
    CVecR3 lo(-1, 2, 0.5); double l[3]; CVecR3 hi; for (int d = 0; d < 3; d++) { l[d] = symr(nm("l", d), 0.5, 5); hi(d) = lo(d) + l[d]; } CoordR3Group cg; HexR8 h(cg, ElemId(1), BoxR3(lo, hi)); double in = 0; sym_check(h.isRegular(), "box-regular"); for (int f = 0; f < 6; f++) { CVecR3 n = h.getSideNormal(f); int ax = -1; for (int d = 0; d < 3; d++) if (h.getSideV(f, 0)->pos()(d) == h.getSideV(f, 2)->pos()(d)) ax = d; sym_check(ax >= 0, "face-flat"); if (ax < 0) return; bool up = h.getSideV(f, 0)->pos()(ax) == hi(ax); CVecR3 w(0, 0, 0); double o = n(ax); if (f == 0) in = up ? o : -o; w(ax) = up ? in : -in; sym_check_close(o * o, 1, 1e-6, "face-normal-unit"); close3(n, w, 1e-6, "face-normals-to-the-same-side"); sym_check_close(h.getAreaOfFace(f), l[(ax + 1) % 3] * l[(ax + 2) % 3], 1e-6, "face-area"); BoxR3 b = h.getBoundOfFace(f); for (int d = 0; d < 3; d++) sym_check(b.getMin()(d) == (d == ax && up ? hi(d) : lo(d)) && b.getMax()(d) == (d == ax && !up ? lo(d) : hi(d)), "face-bound"); static const Constants::CartesianPlane pl[3] = {Constants::yz, Constants::zx, Constants::xy}; for (int d = 0; d < 3; d++) sym_check(h.isFaceContainedInPlane(f, pl[d]) == (d == ax), "face-plane"); sym_check(!h.isCurvedFace(f), "face-straight"); }
}
ENTRY p14_hexregular() { int w = sym_choice("corner", 8), d = sym_choice("axis", 3); double m = symr("move", -0.9, 0.9); sym_assume(m == 0 || m > 0.01 || m < -0.01); Pts<Real> p; static const int s[8][3] = {{0,0,0},{0,1,0},{1,1,0},{1,0,0},{0,0,1},{0,1,1},{1,1,1},{1,0,1}}; for (int i = 0; i < 8; i++) { CVecR3 v(2.0 * s[i][0], 3.0 * s[i][1], 4.0 * s[i][2]); if (i == w) v(d) = v(d) + m; p.add(v); } HexR8 h(ElemId(1), p.at(), 0); sym_check(h.isRegular() == (m == 0), "regular-iff-edges-on-axes"); if (m == 0) sym_reach("regular"); else sym_reach("oblique"); Pts<Int> q; long mi = symi("imove", -1, 1); for (int i = 0; i < 8; i++) { CVecI3 v(2 * s[i][0], 3 * s[i][1], 4 * s[i][2]); if (i == w) v(d) = v(d) + mi; q.add(v); } HexI8 g(ElemId(1), q.at(), 0); sym_check(g.isRegular() == (mi == 0), "integer-regular"); }
ENTRY p14_curved() {
    int tet = sym_choice("tet", 2); Pts<Real> p; static const int te[6][2] = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}; (void)te; const CoordR3* base[10]; points(p, 10); for (int i = 0; i < 10; i++) base[i] = p.c[i]; ElemR* e = makeR(tet ? 7 : 4, 1, base); int n = tet ? 10 : 6, nv = tet ? 4 : 3; const CoordR3* vx[4]; for (int i = 0; i < nv; i++) vx[i] = e->getVertex(i); static const double T[4][3] = {{1,0,0},{0,2,1},{3,1,4},{-2,5,3}}; std::vector<CoordR3*> own; for (int i = 0; i < nv; i++) { CoordR3* c = new CoordR3(CoordId(20 + i), CVecR3(T[i][0], T[i][1], T[i][2])); own.push_back(c); for (int j = 0; j < n; j++) if (e->getV(j) == vx[i]) e->setV(j, c); } int moved = sym_choice("moved", 6), cnt = 0; CVecR3 d = symR3("d", -1, 1); double m = ab(d(0)) + ab(d(1)) + ab(d(2)); sym_assume(m == 0 || m > 0.01); sym_assume(moved < n - nv);
    Tri6* t6 = 0; if (!tet) t6 = e->castTo<Tri6>(); Tet10* t10 = 0; if (tet) t10 = e->castTo<Tet10>(); std::vector<const CoordR3*> mids; for (int j = 0; j < n; j++) { bool v = false; for (auto* c : own) v = v || e->getV(j) == c; if (v) continue; const CoordR3* me = e->getV(j); CVecR3 pos; bool found = false; for (size_t f = 0; f < e->numberOfFaces() && !found; f++) { if (!tet) { if (e->getSideV(f, 1) == me) { pos = (e->getSideV(f, 0)->pos() + e->getSideV(f, 2)->pos()) / 2.0; found = true; } } else { Tri6 tf = t10->getTri6Face(f); for (int s = 0; s < 3 && !found; s++) if (tf.getSideV(s, 1) == me) { pos = (tf.getSideV(s, 0)->pos() + tf.getSideV(s, 2)->pos()) / 2.0; found = true; } } } sym_check(found, "mid-node-between-two-vertices"); if (!found) return; if (cnt == moved) pos = pos + d; cnt++; CoordR3* c = new CoordR3(CoordId(40 + j), pos); mids.push_back(c); e->setV(j, c); }
    sym_check(e->isCurved() == (m != 0), "curved-iff-mid-node-off"); if (m == 0) sym_reach("straight"); else sym_reach("curved"); if (tet) { int cf = 0; for (int f = 0; f < 4; f++) { bool has = false; for (int i = 0; i < 6; i++) has = has || e->getSideV(f, i) == mids[moved]; sym_check(t10->isCurvedFace(f) == (m != 0 && has), "curved-face"); cf += has; } sym_check(cf == 2, "mid-node-on-two-faces"); } delete e; for (auto* c : own) delete c; for (auto* c : mids) delete c; (void)t6;
}
ENTRY p14_linear() { int tet = sym_choice("tet", 2); Pts<Real> p; points(p, 10); long id = symi("id", 1, 99); Layer::Layer lay(LayerId(symi("lay", 1, 9)), "a"); Element::Model mod(MatId(symi("mat", 1, 9))); if (!tet) { Tri6 t(ElemId(id), p.at(), &lay, &mod); Tri3* l = t.linearize(); sym_check(l->getId() == ElemId(id) && l->getLayer() == &lay && l->getModel() == &mod, "linear-identity"); for (int i = 0; i < 3; i++) sym_check(l->getVertex(i) == t.getVertex(i), "linear-vertices"); delete l; } else { Tet10 t(ElemId(id), p.at(), &lay, &mod); /* vertices solid */ Tet4* l = 0; try { l = t.linearize(); } catch (const Element::Error::NullVolume&) {} if (!l) return; sym_check(l->getId() == ElemId(id) && l->getLayer() == &lay && l->getModel() == &mod, "linear-identity"); for (int i = 0; i < 4; i++) sym_check(l->getVertex(i) == t.getVertex(i), "linear-vertices"); for (int f = 0; f < 4; f++) { Tri3* g = t.getTri3Face(f); Tri6 h = t.getTri6Face(f); for (int i = 0; i < 3; i++) sym_check(g->getVertex(i) == t.getSideVertex(f, i) && h.getVertex(i) == t.getSideVertex(f, i), "face-vertices"); for (int i = 0; i < 6; i++) sym_check(h.getV(i) == t.getSideV(f, i), "face-coordinates"); sym_check(g->getLayer() == &lay && g->getModel() == &mod, "face-identity"); delete g; } delete l; } }
ENTRY p14_faces() {
    int k = sym_choice("tet", 2), f = sym_choice("face", 6), perm = sym_choice("perm", 4), nf = k ? 4 : 6, nv = k ? 3 : 4; sym_assume(f < nf && perm < nv); Pts<Real> p; points(p, 10); ElemR* e = makeR(k ? 6 : 8, 5, p.at()); VolR* v = e->castTo<VolR>(); const CoordR3* c[4]; for (int i = 0; i < nv; i++) c[i] = e->getSideVertex(f, (i + perm) % nv); ElemR* s = makeR(k ? 3 : 5, 6, c); SurfR* sf = s->castTo<SurfR>(); sym_check(v->getFaceNumber(sf) == (size_t)f, "face-found"); if (k) { sym_check(v->isLocalFace(f, *sf), "local-face"); const CoordR3* r[3] = {c[1], c[0], c[2]}; Tri3 back(ElemId(8), r); sym_check(!v->isLocalFace(f, back), "opposite-face-not-local"); sym_check(v->getFaceNumber(&back) == (size_t)f, "reversed-face-found"); } bool t = false; CoordR3 far(CoordId(77), CVecR3(9, 9, 9)); s->setV(sym_choice("foreign", 3), &far); try { v->getFaceNumber(sf); } catch (const Element::Error::SurfNotFound&) { t = true; } sym_check(t, "foreign-surface-refused"); delete s; delete e;
}
ENTRY p14_polygon() { Pts<Real> p; points(p, 10); int n = 5 + sym_choice("n", 4); std::vector<const CoordR3*> v(p.c.begin(), p.c.begin() + n); Element::Polygon g(ElemId(3), v); sym_check((int)g.numberOfFaces() == n && (int)g.numberOfVertices() == n && (int)g.numberOfCoordinates() == n, "polygon-counts"); for (int f = 0; f < n; f++) { sym_check(g.getV(f) == v[f] && g.getVertex(f) == v[f] && g.numberOfSideVertices(f) == 2 && g.numberOfSideCoordinates(f) == 2, "polygon-vertices"); for (int i = 0; i < 2; i++) sym_check(g.getSideV(f, i) == v[(f + i) % n] && g.getSideVertex(f, i) == v[(f + i) % n], "polygon-sides"); } Element::Polygon c(g); int r = sym_choice("r", 8); sym_assume(r < n); c.setV(r, p.c[9]); for (int i = 0; i < n; i++) sym_check(c.getV(i) == (i == r ? p.c[9] : v[i]) && g.getV(i) == v[i], "polygon-copied"); BoxR3 b = g.getBound(); for (int d = 0; d < 3; d++) { double lo = 1e9, hi = -1e9; for (int i = 0; i < n; i++) { double x = v[i]->pos()(d); if (x < lo) lo = x; if (x > hi) hi = x; } sym_check(b.getMin()(d) == lo && b.getMax()(d) == hi, "polygon-bound"); } }
ENTRY p14_hexarea() { static const int s[8][3] = {{0,0,0},{0,1,0},{1,1,0},{1,0,0},{0,0,1},{0,1,1},{1,1,1},{1,0,1}}; int ax = sym_choice("axis", 3); double w = symr("w", 0.25, 4), o = symr("o", -1, 1); Pts<Real> p; for (int i = 0; i < 8; i++) { double a = s[i][0] * 2, b = s[i][1] * 3, c = s[i][2] * 4; if (s[i][2]) { a = o + s[i][0] * w; } CVecR3 v; v(ax) = a; v((ax + 1) % 3) = b; v((ax + 2) % 3) = c; p.add(v); } HexR8 h(ElemId(1), p.at(), 0); for (int f = 0; f < 6; f++) { CVecR3 q[4]; for (int i = 0; i < 4; i++) q[i] = h.getSideV(f, i)->pos(); CVecR3 x = q[1] - q[0], y = q[2] - q[0], z = q[3] - q[0], k(0, 0, 0); for (int d = 0; d < 3; d++) { int i = (d + 1) % 3, j = (d + 2) % 3; k(d) = x(i) * y(j) - x(j) * y(i) + y(i) * z(j) - y(j) * z(i); } double r = h.getAreaOfFace(f); sym_check(r >= 0, "face-area-not-negative"); sym_check_close(4 * r * r, k(0) * k(0) + k(1) * k(1) + k(2) * k(2), 1e-6, "face-area-of-two-triangles"); } }
ENTRY p14_idorder() { int n = sym_choice("n", 9), t = sym_choice("turn", 8); static const long V[8] = {5, 2, 9, 2, 7, 30, 1, 4}; long x = symi("x", 0, 40); std::vector<CoordId> in; std::vector<long> w; for (int i = 0; i < n; i++) { long k = i == n - 1 ? x : V[(i + t) % 8]; in.push_back(CoordId(k)); w.push_back(k); } std::vector<CoordId> was = in, out = Element::Base::ascendingIdOrder(in); sym_check(out.size() == in.size() && in == was, "as-many-ids"); for (int i = 1; i < n; i++) sym_check(!(out[i] < out[i - 1]), "ascending"); for (int i = 0; i < n; i++) { int a = 0, b = 0; for (int j = 0; j < n; j++) { a += in[j] == in[i]; b += out[j] == in[i]; } sym_check(a == b, "same-ids"); } }
ENTRY p14_polyline() { Pts<Real> p; points(p, 6); int n = 2 + sym_choice("n", 4); std::vector<const CoordR3*> v(p.c.begin(), p.c.begin() + n); PolylinR l(ElemId(1), v); sym_check((int)l.numberOfCoordinates() == n && l.numberOfFaces() == 2 && l.numberOfVertices() == 2, "counts"); for (int i = 0; i < n; i++) sym_check(l.getV(i) == v[i], "coordinates"); sym_check(l.getVertex(0) == v[0] && l.getVertex(1) == v[n - 1] && l.getSideV(0, 0) == v[0] && l.getSideV(1, 0) == v[n - 1] && l.getSideVertex(0, 0) == v[0] && l.getSideVertex(1, 0) == v[n - 1], "ends"); const CoordR3* w[2] = {v[0], v[1]}; LinR2 s(ElemId(2), w); for (int f = 0; f < 2; f++) sym_check(s.getSideV(f, 0) == w[f] && s.getSideVertex(f, 0) == w[f], "line-sides"); int r = sym_choice("r", 6); sym_assume(r < n); l.setV(r, p.c[5]); sym_check(l.getV(r) == p.c[5], "replaced"); }
ENTRY p14_conformal() { int ctor = sym_choice("ctor", 2), bad = sym_choice("plain", 3); CVecI3 a = symI3("a", -5, 5), b = symI3("b", -5, 5); CVecR3 n = symR3("n", -1, 1); double len = symr("len", 0, 0.9); CoordConf c0(CoordId(1), a, Constants::x, len), c1(CoordId(2), b, Constants::y, 0.25); CoordI3 plain(CoordId(3), a); const CoordI3* v[2] = {bad == 1 ? &plain : static_cast<const CoordI3*>(&c0), bad == 2 ? &plain : static_cast<const CoordI3*>(&c1)}; bool t = false; LinConf* l = 0; try { l = ctor ? new LinConf(ElemId(4), v, n) : new LinConf(v, n); } catch (const Element::Error::Coord::NotConf&) { t = true; } sym_check(t == (bad != 0), "only-conformal-coordinates"); if (t) { sym_reach("refused"); return; } sym_reach("conformal"); sym_check(same(l->getNorm(), n) && l->getV(0) == &c0 && l->getV(1) == &c1, "conformal-line"); LinConf* k = new LinConf(*l); sym_check(k->getV(0) == &c0 && k->getV(1) == &c1 && same(k->getNorm(), n) && k->getId() == l->getId(), "copied"); bool u = false; try { k->setV(1, &plain); } catch (const Element::Error::Coord::NotConf&) { u = true; } sym_check(u, "plain-coordinate-refused"); delete k; delete l; }
ENTRY p14_polyhedron() {
    int m = sym_choice("mode", 3); Pts<Real> p; points(p, 10); std::vector<const CoordR3*> a(p.c.begin(), p.c.begin() + 5), b; int rot = sym_choice("rot", 5), rev = sym_choice("reversed", 2); bool closed = true; std::vector<Element::Polygon*> own; std::vector<const Element::Polygon*> f; if (m == 0) { for (int i = 0; i < 5; i++) b.push_back(a[((rev ? 5 - i : i) + rot) % 5]); } else if (m == 1) { int o[5]; for (int i = 0; i < 5; i++) { o[i] = sym_choice(nm("o", i).c_str(), 5); for (int j = 0; j < i; j++) sym_assume(o[i] != o[j]); b.push_back(a[o[i]]); } for (int i = 0; i < 5; i++) { int s = (o[(i + 1) % 5] - o[i] + 5) % 5; if (s != 1 && s != 4) closed = false; } } else { b = a; if (rot < 4) b.push_back(p.c[5]); else b.clear(); closed = false; } f.push_back(new Element::Polygon(ElemId(1), a)); if (b.size()) f.push_back(new Element::Polygon(ElemId(2), b)); bool t = false; Element::Polyhedron* h = 0; try { h = new Element::Polyhedron(ElemId(3), f); } catch (const Element::Error::NotClosed&) { t = true; } sym_check(t == !closed, "closed-iff-every-side-is-shared"); if (t) sym_reach("open"); else sym_reach("closed");
    if (h) { sym_check(h->numberOfFaces() == f.size() && h->numberOfCoordinates() == 5 && h->numberOfVertices() == 5, "polyhedron-counts"); for (size_t i = 0; i < f.size(); i++) { sym_check(h->getFace(i) == f[i] && h->numberOfSideVertices(i) == f[i]->numberOfVertices(), "polyhedron-faces"); std::vector<const CoordR3*> s = h->getSideVertices(i); sym_check(s.size() == f[i]->numberOfVertices(), "polyhedron-side-size"); for (size_t j = 0; j < s.size(); j++) sym_check(s[j] == f[i]->getV(j), "polyhedron-side"); } delete h; } for (size_t s = 0; s < 5; s++) sym_check(f[0]->getSideV(s, 0) == a[s] && f[0]->getSideV(s, 1) == a[(s + 1) % 5], "polygon-sides"); for (auto* x : f) delete x;
}

// @property P17
// @bounds meshes of 4 coordinates, 3 elements (node, line, triangle or quadrilateral) and 1 or 2 layers with every assignment of layers and materials and both orders of identifiers; two life-cycle operations in a row out of build, copy, clone, assign (to an empty mesh, a filled mesh, itself); any scaling factor in [-4,4]; histories of 4 boundary assignments (5 when thorough)
// @entry p17_unstructured shards=4
// @entry p17_structured shards=4
// @entry p17_geometric shards=4
// @entry p17_scale reach=moved
// @entry p17_reassign reach=done,missing
// @entry p17_materials reach=done,missing
// @entry p17_bounds reach=set,cleared
// @entry p17_box
#include "elems.h"
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
#include "geometry/mesh/Geometric.h"
#include "physicalModel/bound/PMC.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
using namespace SEMBA::Geometry;
typedef SEMBA::Group::Identifiable<Element::Model, MatId> Mats;
template<class M> static void own(const M& m) {
    for (size_t i = 0; i < m.elems().size(); i++) { auto* e = m.elems()(i); for (size_t j = 0; j < e->numberOfCoordinates(); j++) { CoordId id = e->getV(j)->getId(); sym_check(m.coords().existId(id) && m.coords().getId(id) == e->getV(j), "coordinates-of-this-mesh"); } if (e->getLayer()) sym_check(m.layers().existId(e->getLayerId()) && m.layers().getId(e->getLayerId()) == e->getLayer(), "layers-of-this-mesh"); }
}
struct Spec { int lay[3], mat[3], rev; double v; long id; int one; };
static Spec symSpec(int nMat) { Spec s; s.one = sym_choice("one", 2); for (int i = 0; i < 3; i++) { s.lay[i] = sym_choice(nm("layer", i).c_str(), 3 - s.one); s.mat[i] = nMat ? sym_choice(nm("mat", i).c_str(), nMat) : i % 2; } s.rev = sym_choice("rev", 2); s.v = 1; s.id = 0; return s; }
static long eid2(const Spec& s, int i) { return s.rev ? 9 - 2 * i : 3 + i; }
static long eid(const Spec& s, int i) { if (i == 1 && s.id) return s.id; return eid2(s, i); }
static long cid(const Spec& s, int i) { if (i == 2 && s.id) return s.id + 200; return s.rev ? 40 - i : 11 + 3 * i; }
static Grid3 theGrid() { std::vector<Real> p[3]; double L[4] = {0, 1, 3, 3.5}; for (int d = 0; d < 3; d++) p[d].assign(L, L + 4); return Grid3(p); }
static const double P[4][3] = {{0, 0, 0}, {1, 0, 0}, {1, 3, 0}, {0, 3, 0}};
template<class M> static void layers(M& m, int one = 0) { m.layers().add(new Layer::Layer(LayerId(7), "a")); if (!one) m.layers().add(new Layer::Layer(LayerId(2), "b")); }
template<class M> static const Layer::Layer* lay(M& m, const Spec& s, int i) { return s.lay[i] ? m.layers()(s.lay[i] - 1) : 0; }
static const Element::Model* mat(Mats& g, const Spec& s, int i) { return s.mat[i] ? g(s.mat[i] - 1) : 0; }
static void fill(Mesh::Unstructured& m, const Spec& s, Mats& g) {
    layers(m, s.one); for (int i = 0; i < 4; i++) m.coords().add(new CoordR3(CoordId(cid(s, i)), CVecR3(i == 2 ? s.v : P[i][0], P[i][1], P[i][2]))); const CoordR3* v[4] = {m.coords()(0), m.coords()(1), m.coords()(2), m.coords()(3)};
    m.elems().add(new NodR(ElemId(eid(s, 0)), v + 3, lay(m, s, 0), mat(g, s, 0))); m.elems().add(new LinR2(ElemId(eid(s, 1)), v + 1, lay(m, s, 1), mat(g, s, 1))); m.elems().add(new Tri3(ElemId(eid(s, 2)), v, lay(m, s, 2), mat(g, s, 2)));
}
static void fill(Mesh::Structured& m, const Spec& s, Mats& g) {
    layers(m, s.one); for (int i = 0; i < 4; i++) m.coords().add(new CoordI3(CoordId(cid(s, i)), CVecI3((int)P[i][0], (int)P[i][1] / 3 * 2, i == 2 ? (int)s.id : 0))); const CoordI3* v[4] = {m.coords()(0), m.coords()(1), m.coords()(2), m.coords()(3)};
    m.elems().add(new NodI(ElemId(eid(s, 0)), v + 3, lay(m, s, 0), mat(g, s, 0))); m.elems().add(new LinI2(ElemId(eid(s, 1)), v + 1, lay(m, s, 1), mat(g, s, 1))); m.elems().add(new QuaI4(ElemId(eid(s, 2)), v, lay(m, s, 2), mat(g, s, 2))); m.bounds().setBound(1, 0, new PhysicalModel::Bound::PMC(MatId(88)));
}
static void build(Mesh::Unstructured*& m) { m = new Mesh::Unstructured; }
static void build(Mesh::Structured*& m) { m = new Mesh::Structured(theGrid()); }
static void build(Mesh::Geometric*& m) { m = new Mesh::Geometric(theGrid()); }
static Mesh::Unstructured* rebuild(const Mesh::Unstructured& m) { Coordinate::Group<const CoordR3> c(m.coords()); Element::Group<const ElemR> e(m.elems()); Layer::Group<const Layer::Layer> l(m.layers()); return new Mesh::Unstructured(c, e, l); }
static Mesh::Geometric* rebuild(const Mesh::Geometric& m) { Coordinate::Group<const CoordR3> c(m.coords()); Element::Group<const ElemR> e(m.elems()); Layer::Group<const Layer::Layer> l(m.layers()); return new Mesh::Geometric(m.grid(), c, e, l); }
static Mesh::Structured* rebuild(const Mesh::Structured& m) { Coordinate::Group<const CoordI3> c(m.coords()); Element::Group<const ElemI> e(m.elems()); Layer::Group<const Layer::Layer> l(m.layers()); return new Mesh::Structured(m.grid(), c, e, l, m.bounds()); }
template<class M> static M* step(int op, M* m) {
    M* r = 0;
    switch (op) {
    case 0: r = rebuild(*m); break;
    case 1: r = new M(*m); break;
    case 2: r = dynamic_cast<M*>(m->clone()); sym_check(r != 0, "clone-keeps-its-kind"); break;
    case 3: build(r); *r = *m; break;
    case 4: { build(r); Mats g; g.add(new Element::Model(MatId(1))); Spec s = {{1, 2, 0}, {1, 0, 1}, 1, 1, 0}; fill(*r, s, g); r->layers()(0)->setId(LayerId(7)); *r = *m; break; }
    default: { M& self = *m; *m = self; return m; }
    }
    sym_check(r->coords()(0) != m->coords()(0) && r->elems()(0) != m->elems()(0) && r->layers()(0) != m->layers()(0), "copies-are-its-own"); delete m; return r;
}
static void grids(const Mesh::Unstructured&) {}
static void grids(const Mesh::Geometric& m) { Grid3 g = theGrid(); for (int d = 0; d < 3; d++) sym_check(m.grid().getPos(d) == g.getPos(d), "grid-kept"); }
static void grids(const Mesh::Structured& m) { Grid3 g = theGrid(); for (int d = 0; d < 3; d++) sym_check(m.grid().getPos(d) == g.getPos(d), "grid-kept"); for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) { const Bound* b = m.bounds()(d, p); sym_check((b != 0) == (d == 1 && p == 0), "bounds-kept"); if (b) sym_check(b->getId() == MatId(88), "bounds-kept"); } }
template<class T> struct KindsOf { typedef Tri3 Face; };
template<> struct KindsOf<Int> { typedef QuaI4 Face; };
template<class M, class T> static void life() {
    Spec s = symSpec(0); s.v = symr("v", THOROUGH ? -2 : 0.01, 5); sym_assume(ab(s.v) > 1e-6); s.id = symi("id", 4, 90); sym_assume(s.id != eid2(s, 0) && s.id != eid2(s, 2)); Mats mats; mats.add(new Element::Model(MatId(5))); M* m; build(m); fill(*m, s, mats); typename Crd<T>::V pos[4]; for (int i = 0; i < 4; i++) pos[i] = m->coords()(i)->pos(); m = step(sym_choice("op1", 6), m); int op2 = sym_choice("op2", THOROUGH ? 6 : 3); m = step(THOROUGH ? op2 : op2 * 2 + 1, m);
    sym_check(m->coords().size() == 4 && m->elems().size() == 3 && m->layers().size() == (size_t)(2 - s.one), "sizes-kept"); sym_check(m->layers()(0)->getId() == LayerId(7) && m->layers()(0)->getName() == "a", "layers-kept"); if (!s.one) sym_check(m->layers()(1)->getId() == LayerId(2) && m->layers()(1)->getName() == "b", "layers-kept"); for (int i = 0; i < 4; i++) { auto* c = m->coords()(i); sym_check(c->getId() == CoordId(cid(s, i)) && c->pos() == pos[i], "coordinates-kept"); sym_check(m->coords().getId(c->getId()) == c && m->coords().getPos(pos[i]) == c, "coordinates-found"); }
    static const int first[3] = {3, 1, 0}; for (int i = 0; i < 3; i++) { auto* e = m->elems()(i); sym_check(m->elems().getId(ElemId(eid(s, i))) == e, "elements-found"); sym_check(i == 0 ? e->template is<Element::Node<T> >() : i == 1 ? e->template is<Element::Line2<T> >() : e->template is<typename KindsOf<T>::Face>(), "kinds-kept"); sym_check(e->getLayerId() == (s.lay[i] == 0 ? LayerId(0) : s.lay[i] == 1 ? LayerId(7) : LayerId(2)), "element-layers-kept"); sym_check(e->getModel() == (s.mat[i] ? mats(0) : 0), "element-materials-kept"); for (size_t j = 0; j < e->numberOfCoordinates(); j++) sym_check(e->getV(j)->getId() == CoordId(cid(s, first[i] + (int)j)), "element-coordinates-kept"); }
    own(*m); grids(*m); delete m;
}
ENTRY p17_unstructured() { life<Mesh::Unstructured, Real>(); }
ENTRY p17_structured() { life<Mesh::Structured, Int>(); }
ENTRY p17_geometric() { life<Mesh::Geometric, Real>(); }
ENTRY p17_scale() {
    int kind = sym_choice("kind", 3); double f = symr("f", -4, 4); Spec s = {{1, 2, 0}, {0, 0, 0}, 0, 1, 0}; Mats mats; Grid3 g = theGrid();
    if (kind < 2) { Mesh::Unstructured* m = kind ? new Mesh::Geometric(g) : new Mesh::Unstructured; fill(*m, s, mats); Mesh::Unstructured* c = dynamic_cast<Mesh::Unstructured*>(m->clone()); if (kind) sym_assume(f > 0.125); else sym_assume(f > 0.125 || f < -0.125); c->applyScalingFactor(f); own(*c); for (int i = 0; i < 4; i++) for (int d = 0; d < 3; d++) { sym_check(m->coords()(i)->pos()(d) == P[i][d], "original-untouched"); sym_check_close(c->coords()(i)->pos()(d), P[i][d] * f, 1e-9, "scaled"); sym_check_close(c->coords().getId(CoordId(cid(s, i)))->pos()(d), P[i][d] * f, 1e-9, "scaled"); } for (int i = 0; i < 4; i++) sym_check(c->coords().getPos(c->coords()(i)->pos()) == c->coords()(i), "found-after-scaling"); BoxR3 b = c->getBoundingBox(); for (int d = 0; d < 2; d++) { double w = d ? 3 : 1; sym_check_close(b.getMin()(d), f > 0 ? 0 : w * f, 1e-9, "box-scaled"); sym_check_close(b.getMax()(d), f > 0 ? w * f : 0, 1e-9, "box-scaled"); } if (kind) { Grid3 q = dynamic_cast<Mesh::Geometric*>(c)->grid(); for (int d = 0; d < 3; d++) for (int i = 0; i < 4; i++) sym_check_close(q.getPos(d, i), g.getPos(d, i) * f, 1e-9, "grid-scaled"); } delete c; delete m; }
    else { sym_assume(f > 0.125); Mesh::Structured m(g); fill(m, s, mats); Mesh::Structured c(m); c.applyScalingFactor(f); own(c); for (int d = 0; d < 3; d++) for (int i = 0; i < 4; i++) { sym_check_close(c.grid().getPos(d, i), g.getPos(d, i) * f, 1e-9, "grid-scaled"); sym_check(m.grid().getPos(d, i) == g.getPos(d, i), "original-untouched"); } for (int i = 0; i < 4; i++) sym_check(c.coords()(i)->pos() == m.coords()(i)->pos(), "cells-untouched"); Mesh::Unstructured* u = c.getMeshUnstructured(); for (int i = 0; i < 4; i++) for (int d = 0; d < 3; d++) sym_check_close(u->coords().getId(CoordId(cid(s, i)))->pos()(d), P[i][d] * f, 1e-9, "scaled"); delete u; }
    sym_reach("moved");
}
ENTRY p17_reassign() {
    int st = sym_choice("structured", 2), n = sym_choice("n", 4); Spec s = {{1, 2, 0}, {0, 0, 0}, sym_choice("rev", 2), 1, 0}; Mats mats; Element::Group<const Elem> in; long want[3]; bool ok = true; std::vector<long> seen; for (int i = 0; i < n; i++) { int k = sym_choice(nm("pick", i).c_str(), 4); want[i] = k < 3 ? eid(s, k) : 77; for (int j = 0; j < i; j++) sym_assume(want[j] != want[i]); ok = ok && k < 3; }
    Pts<Real> foreign; foreign.add(CVecR3(9, 9, 9)); for (int i = 0; i < n; i++) in.add(new NodR(ElemId(want[i]), foreign.at())); Mesh::Mesh* m; Mesh::Unstructured* u = 0; Mesh::Structured* q = 0; if (st) { q = new Mesh::Structured(theGrid()); fill(*q, s, mats); m = q; } else { u = new Mesh::Unstructured; fill(*u, s, mats); m = u; }
    bool threw = false; try { m->reassign(in); } catch (const SEMBA::Group::Error::Id::NotExists<ElemId>&) { threw = true; } sym_check(threw == !ok, "missing-element-reported"); sym_check(in.size() == (size_t)n, "same-number"); for (int i = 0; i < n; i++) { sym_check(in(i)->getId() == ElemId(want[i]), "same-identifiers-in-order"); if (ok) sym_check(st ? in(i) == q->elems().getId(ElemId(want[i])) : in(i) == u->elems().getId(ElemId(want[i])), "elements-of-the-mesh"); } sym_reach(ok ? "done" : "missing"); if (ok) { delete m; for (int i = 0; i < n; i++) sym_check(in(i)->getId() == ElemId(want[i]), "shared-after-the-mesh"); } else delete m;
}
ENTRY p17_materials() {
    int st = sym_choice("structured", 2), drop = sym_choice("drop", 3), none = sym_choice("none", 2); Spec s = symSpec(3); sym_assume(s.lay[0] == 1 && s.lay[2] == 0); Mats a, b; a.add(new Element::Model(MatId(5))); a.add(new Element::Model(MatId(3))); if (!none) { if (drop != 1) b.add(new Element::Model(MatId(3))); if (drop != 2) b.add(new Element::Model(MatId(5))); } bool ok = true; if (!none) for (int i = 0; i < 3; i++) ok = ok && !(s.mat[i] == 2 && drop == 1) && !(s.mat[i] == 1 && drop == 2);
    Mesh::Mesh* m; Mesh::Unstructured* u = 0; Mesh::Structured* q = 0; if (st) { q = new Mesh::Structured(theGrid()); fill(*q, s, a); m = q; } else { u = new Mesh::Unstructured; fill(*u, s, a); m = u; } Layer::Layer *fl = 0; CoordR3* fr = 0; CoordI3* fi = 0; if (THOROUGH ? sym_choice("foreign", 2) : (drop + none + 1) % 2) { fl = new Layer::Layer(LayerId(7), "other"); if (st) { fi = new CoordI3(q->elems()(0)->getV(0)->getId(), q->elems()(0)->getV(0)->pos()); q->elems()(0)->setV(0, fi); q->elems()(0)->setLayer(fl); } else { fr = new CoordR3(u->elems()(0)->getV(0)->getId(), u->elems()(0)->getV(0)->pos()); u->elems()(0)->setV(0, fr); u->elems()(0)->setLayer(fl); } } bool threw = false; try { m->reassignPointers(b); } catch (const SEMBA::Group::Error::Id::NotExists<MatId>&) { threw = true; } sym_check(threw == !ok, "missing-material-reported"); for (int i = 0; i < 3; i++) { const Elem* e = st ? (const Elem*)q->elems()(i) : (const Elem*)u->elems()(i); sym_check(e->getMatId() == (s.mat[i] == 0 ? MatId(0) : s.mat[i] == 1 ? MatId(5) : MatId(3)), "material-identifiers-kept"); if (ok) sym_check(e->getModel() == (s.mat[i] == 0 ? 0 : none ? a(s.mat[i] - 1) : b.getId(e->getMatId())), "points-to-the-given-materials"); } delete fl; delete fr; delete fi; if (st) own(*q); else own(*u); sym_reach(ok ? "done" : "missing"); delete m;
}
ENTRY p17_bounds() {
    std::shared_ptr<const Bound> pool[3]; for (int i = 0; i < 3; i++) pool[i].reset(new PhysicalModel::Bound::PMC(MatId(10 + i))); const Bound* now[3][2] = {{0, 0}, {0, 0}, {0, 0}}; BoundTerminations3 t; int n = THOROUGH ? 4 : 3; for (int k = 0; k < n; k++) { int d = sym_choice(nm("d", k).c_str(), 3), p = sym_choice(nm("p", k).c_str(), 2), w = sym_choice(nm("w", k).c_str(), 4); if (k > 0 && k == n - 1 && w == 3) { std::array<std::array<const Bound*, 2>, 3> all; for (int a = 0; a < 3; a++) for (int b = 0; b < 2; b++) { now[a][b] = (a * 2 + b) % 4 == p ? 0 : pool[(a + b + d) % 3].get(); all[a][b] = now[a][b]; } t.setBounds(all); sym_reach("set"); } else { now[d][p] = w == 3 ? 0 : pool[w].get(); t.setBound(d, p, now[d][p]); if (w == 3) sym_reach("cleared"); } }
    BoundTerminations3 c(t), a; a.setBound(0, 0, pool[1].get()); a = t; for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) sym_check(t(d, p) == now[d][p] && c(d, p) == now[d][p] && a(d, p) == now[d][p], "termination-as-last-set"); c.setBound(0, 1, pool[2].get()); sym_check(t(0, 1) == now[0][1], "copies-are-independent"); for (int i = 0; i < 3; i++) pool[i].reset(); for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) if (t(d, p)) sym_check(t(d, p)->getId().toInt() >= 10, "kept-alive"); std::array<std::array<const Bound*, 2>, 3> arr; for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) arr[d][p] = now[d][p]; BoundTerminations3 z(arr); for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) sym_check(z(d, p) == now[d][p], "built-from-an-array");
}
ENTRY p17_box() {
    int ax = sym_choice("axis", 3); std::vector<Real> p[3]; double L[4] = {0, 1, 3, 3.5}; for (int d = 0; d < 3; d++) { p[d].assign(L, L + 4); if (d == ax) { p[d][0] = symr("o", -2, 2); for (int i = 1; i < 4; i++) p[d][i] = p[d][i - 1] + symr(nm("s", i), 0.01, 4); } } Grid3 g(p); Mesh::Structured m(g); Spec s = {{1, 2, 0}, {0, 0, 0}, 0, 1, 0}; Mats mats; fill(m, s, mats); BoxR3 b = m.getBoundingBox(); double least = 0.5; for (int d = 0; d < 3; d++) { sym_check(b.getMin()(d) == p[d][0] && b.getMax()(d) == p[d][3], "whole-grid"); for (int i = 0; i < 3; i++) { double w = p[d][i + 1] - p[d][i]; least = w < least ? w : least; } } sym_check(m.getMinimumSpaceStep() == least, "smallest-step");
    Mesh::Unstructured u; fill(u, s, mats); double v = symr("v", -9, 9); (*u.coords()(1))(ax) = v; b = u.getBoundingBox(); for (int d = 0; d < 3; d++) { double lo = 1e9, hi = -1e9; for (int i = 0; i < 4; i++) { double x = i == 1 && d == ax ? v : P[i][d]; lo = x < lo ? x : lo; hi = x > hi ? x : hi; } sym_check(b.getMin()(d) == lo && b.getMax()(d) == hi, "box-of-the-elements"); }
}

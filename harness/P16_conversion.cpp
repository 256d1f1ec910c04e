// @property P16
// @bounds grids of 4 lines per axis with any spacing in [0.25,4] on one axis and uneven fixed spacings on the others; all positions of one axis in [-3,15], all lines, all fractions in [0,1); nodes, lines, quadrilaterals, hexahedra of every orientation with a corner moved anywhere
// @entry p16_lines
// @entry p16_snap
// @entry p16_fraction
// @entry p16_conformal
// @entry p16_elements shards=4
// @entry p16_errors reach=found,missing,moved
// @entry p16_structured shards=4 reach=structured,not
// @entry p16_oblique
// @entry p16_tolerance reach=near,far
// @entry p16_mesh reach=kept,dropped
// @entry p16_roundtrip shards=2
#include "elems.h"
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
#include "geometry/mesh/Geometric.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/coordinate/Conformal.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
using namespace SEMBA::Geometry;
static const double L[3][4] = {{0, 1, 3, 3.5}, {-2, 0, 0.5, 2}, {10, 11, 12, 14}};
static Grid3 fixedGrid() { std::vector<Real> p[3]; for (int d = 0; d < 3; d++) p[d].assign(L[d], L[d] + 4); return Grid3(p); }
static Grid3 freeGrid(int ax, std::vector<Real>* p) { for (int d = 0; d < 3; d++) { p[d].assign(L[d], L[d] + 4); if (d == ax) { p[d][0] = symr("o", -2, 2); for (int i = 1; i < 4; i++) p[d][i] = p[d][i - 1] + symr(nm("s", i), 0.25, 4); } } return Grid3(p); }
ENTRY p16_lines() {
    int ax = sym_choice("axis", 3); std::vector<Real> p[3]; Grid3 g = freeGrid(ax, p); CVecI3 c((int)symi("i", 0, 3), 2, 1); int t = c(0); c(0) = 1; c(ax) = t; long id = symi("id", 1, 99); CoordI3 a(CoordId(id), c); CoordR3* r = a.toUnstructured(g); sym_check(r->getId() == CoordId(id), "identifier-kept"); for (int d = 0; d < 3; d++) { double w = 0; for (int i = 0; i < 4; i++) if (c(d) == i) w = p[d][i]; sym_check(r->pos()(d) == w, "position-of-the-line"); } sym_check(r->isStructured(g), "lines-are-structured"); CoordI3* b = r->toStructured(g); sym_check(b->getId() == CoordId(id) && same(b->pos(), c), "line-round-trip"); CoordI3* k = b->cloneTo<CoordI3>(); sym_check(*k == a, "equal-to-the-original"); delete k; delete b; delete r;
}
ENTRY p16_snap() {
    int ax = sym_choice("axis", 3); Grid3 g = fixedGrid(); CVecR3 x(1, 0.5, 12); double v = symr("x", -3, 15); x(ax) = v; CoordR3 a(CoordId(symi("id", 1, 9)), x); bool on = false; for (int i = 0; i < 4; i++) { double d = v - L[ax][i]; sym_assume(d == 0 || d > 0.05 || d < -0.05); on = on || d == 0; } sym_check(a.isStructured(g) == on, "structured-iff-on-a-line"); CoordI3* s = a.toStructured(g); sym_check(s->getId() == a.getId(), "identifier-kept"); for (int d = 0; d < 3; d++) { sym_check(s->pos()(d) >= 0 && s->pos()(d) <= 3, "line-of-the-grid"); double mine = 0; for (int i = 0; i < 4; i++) if (s->pos()(d) == i) mine = ab(x(d) - L[d][i]); for (int i = 0; i < 4; i++) sym_check(mine <= ab(x(d) - L[d][i]) + 1e-6, "nearest-line"); } delete s;
}
ENTRY p16_fraction() {
    int ax = sym_choice("axis", 3), last = sym_choice("last", 2); std::vector<Real> p[3]; Grid3 g = freeGrid(ax, p); CVecI3 c(1, 2, 0); int i = last ? 3 : sym_choice("i", 3); c(ax) = i; CVecR3 f(0.25, 0.5, 0.75); f(ax) = last ? 0.0 : (THOROUGH ? symr("f", 0, 0.999) : symd("f", 0, 0.9375, 16)); CoordRel a(CoordId(5), c, f); CoordR3* r = a.toUnstructured(g); sym_check(r->getId() == CoordId(5), "identifier-kept"); for (int d = 0; d < 3; d++) { double lo = p[d][c(d)], hi = c(d) < 3 ? p[d][c(d) + 1] : lo; sym_check_close(r->pos()(d), lo + f(d) * (hi - lo), 1e-7, "fraction-of-the-cell"); } delete r;
    CVecR3 w(0.5, 1.5, 2.25); w(ax) = symr("w", -5, 5); CoordRel b(CoordId(6), w); for (int d = 0; d < 3; d++) { double fr = b.rel()(d); sym_check(fr >= 0 && fr < 1, "fraction-below-one"); sym_check_close((double)b.pos()(d) + fr, w(d), 1e-9, "cell-plus-fraction"); }
}
ENTRY p16_conformal() {
    int ax = sym_choice("axis", 3), dir = sym_choice("dir", 3); std::vector<Real> p[3]; Grid3 g = freeGrid(ax, p); CVecI3 c(1, 2, 0); c(ax) = sym_choice("i", 3); double len = sym_choice("zero", 2) ? 0.0 : (dir == ax && !THOROUGH ? symd("len", 0.0625, 0.9375, 16) : symr("len", 0.001, 0.999)); CoordConf a(CoordId(3), c, Constants::CartesianAxis(dir), len); CoordR3* r = a.toUnstructured(g); sym_check(r->getId() == CoordId(3), "identifier-kept"); for (int d = 0; d < 3; d++) { double lo = p[d][c(d)], hi = p[d][c(d) + 1]; sym_check_close(r->pos()(d), d == dir ? lo + len * (hi - lo) : lo, 1e-7, "length-along-its-axis"); } delete r;
}
static ElemI* boxElem(int kind, CoordI3Group& cg, const BoxI3& b, const Layer::Layer* l, const Element::Model* m) { switch (kind) { case 0: return new NodI(cg, ElemId(7), b, l, m); case 1: return new LinI2(cg, ElemId(7), b, l, m); case 2: return new QuaI4(cg, ElemId(7), b, l, m); default: return new HexI8(cg, ElemId(7), b, l, m); } }
ENTRY p16_elements() {
    int ax = sym_choice("axis", 3), shape = sym_choice("shape", 8), kind = (shape & 1) + (shape >> 1 & 1) + (shape >> 2 & 1); std::vector<Real> p[3]; Grid3 g = freeGrid(ax, p); CVecI3 lo(1, 0, 2), hi; for (int d = 0; d < 3; d++) { if (d == ax) lo(d) = sym_choice("lo", 2); hi(d) = lo(d) + (shape >> d & 1 ? (d == ax ? 1 + sym_choice("len", 2) : 1) : 0); } Layer::Layer lay(LayerId(4), "a"); Element::Model mod(MatId(6)); CoordI3Group cg; ElemI* e = boxElem(kind, cg, BoxI3(lo, hi), &lay, &mod); CoordR3Group rg; for (size_t i = 0; i < cg.size(); i++) rg.add(cg(i)->toUnstructured(g)); ElemR* r = e->toUnstructured(rg, g); sym_check(r != 0, "converted"); if (!r) return;
    sym_check(r->getId() == ElemId(7) && r->getLayer() == &lay && r->getModel() == &mod && r->numberOfCoordinates() == e->numberOfCoordinates(), "identity-kept"); sym_check(kind == 0 ? r->is<NodR>() : kind == 1 ? r->is<LinR2>() : kind == 2 ? r->is<QuaR4>() : r->is<HexR8>(), "kind-kept"); for (size_t i = 0; i < e->numberOfCoordinates(); i++) { sym_check(r->getV(i) == rg.getId(e->getV(i)->getId()), "coordinate-of-the-given-group"); for (int d = 0; d < 3; d++) sym_check(r->getV(i)->pos()(d) == p[d][e->getV(i)->pos()(d)], "corner-on-its-lines"); } BoxR3 b = r->getBound(); for (int d = 0; d < 3; d++) sym_check(b.getMin()(d) == p[d][lo(d)] && b.getMax()(d) == p[d][hi(d)], "bound-on-the-lines"); sym_check(r->isStructured(g), "result-structured");
    CoordI3Group back; for (size_t i = 0; i < rg.size(); i++) back.add(rg(i)->toStructured(g)); ElemI* s = r->toStructured(back, g); sym_check(s != 0 && *s == *e, "round-trip"); if (s) { sym_check(s->getLayer() == &lay && s->getModel() == &mod, "round-trip-identity"); for (size_t i = 0; i < s->numberOfCoordinates(); i++) sym_check(s->getV(i) == back.getId(e->getV(i)->getId()), "round-trip-coordinates"); } delete s; delete r; delete e;
}
ENTRY p16_errors() {
    int what = sym_choice("what", 3), which = sym_choice("which", 4), up = sym_choice("unstructured", 2); Grid3 g = fixedGrid(); CoordI3Group ci; QuaI4 e(ci, ElemId(2), BoxI3(CVecI3(0, 1, 2), CVecI3(2, 2, 2))); CoordR3Group full; for (size_t i = 0; i < ci.size(); i++) full.add(ci(i)->toUnstructured(g)); int mx = sym_choice("mx", 6) - 2, my = sym_choice("my", 3) - 1; CVecI3 mv(mx, my, 0); if (what != 2) sym_assume(mx == 0 && my == 0); if (what == 0) sym_assume(which == 0); bool moved = mx != 0 || my != 0; bool nf = false, nc = false, ok = false;
    if (up) { CoordR3Group r; for (size_t i = 0; i < full.size(); i++) { if (what == 1 && (int)i == which) continue; CoordR3* c = new CoordR3(full(i)->getId(), full(i)->pos()); if (what == 2 && (int)i == which) { if (mx == 3) c->pos() = c->pos() * -1.0; else { c->pos()(0) += mx * 0.5; c->pos()(1) += my * 0.25; } } r.add(c); } try { ElemR* x = e.toUnstructured(r, g); ok = x != 0; delete x; } catch (const Element::Error::Coord::NotFound& q) { nf = q.getCoordId() == full(which)->getId(); } catch (const Element::Error::Coord::NotCoincident& q) { nc = q.getCoordId() == full(which)->getId(); } sym_check(e.toStructured(ci, g) == 0, "integer-element-not-structured-again"); }
    else { const CoordR3* v[4]; for (int i = 0; i < 4; i++) v[i] = full.getId(e.getV(i)->getId()); QuaR4 q4(ElemId(2), v); CoordI3Group r; for (size_t i = 0; i < ci.size(); i++) { if (what == 1 && (int)i == which) continue; CVecI3 q = ci(i)->pos(); if (what == 2 && (int)i == which) q = q + mv; r.add(new CoordI3(ci(i)->getId(), q)); } try { ElemI* x = q4.toStructured(r, g); ok = x != 0; delete x; } catch (const Element::Error::Coord::NotFound& q) { nf = q.getCoordId() == full(which)->getId(); } catch (const Element::Error::Coord::NotCoincident& q) { nc = q.getCoordId() == full(which)->getId(); } sym_check(q4.toUnstructured(full, g) == 0, "real-element-not-unstructured-again"); }
    sym_check(nf == (what == 1), "missing-coordinate-reported"); sym_check(nc == moved, "moved-coordinate-reported"); sym_check(ok == (what != 1 && !moved), "converted-otherwise"); if (ok) sym_reach("found"); if (nf) sym_reach("missing"); if (nc) sym_reach("moved");
}
ENTRY p16_structured() {
    int shape = 1 + sym_choice("shape", 7), kind = (shape & 1) + (shape >> 1 & 1) + (shape >> 2 & 1), ax = sym_choice("axis", 3); Grid3 g = fixedGrid(); CVecI3 lo(0, 1, 1), hi = lo; for (int d = 0; d < 3; d++) hi(d) += shape >> d & 1; CoordI3Group ci; ElemI* e = boxElem(kind, ci, BoxI3(lo, hi), 0, 0); CoordR3Group full; for (size_t i = 0; i < ci.size(); i++) full.add(ci(i)->toUnstructured(g)); int which = sym_choice("which", 8); sym_assume(which < (int)full.size()); double v = symr("v", -3, 15), was = full.getId(e->getV(which)->getId())->pos()(ax); sym_assume(v == was || v - was > 0.05 || v - was < -0.05);
    for (int d = 0; d < 1; d++) for (int i = 0; i < 4; i++) { double q = v - L[ax][i]; sym_assume(q == 0 || q > 0.05 || q < -0.05); } CoordR3* c = full.getId(e->getV(which)->getId()); (*c)(ax) = v; const CoordR3* w[8]; for (size_t i = 0; i < e->numberOfCoordinates(); i++) w[i] = full.getId(e->getV(i)->getId()); ElemR* r = 0; switch (kind) { case 1: r = new LinR2(ElemId(1), w); break; case 2: r = new QuaR4(ElemId(1), w); break; default: r = new HexR8(ElemId(1), w, 0); } bool on = false; for (int i = 0; i < 4; i++) on = on || v == L[ax][i]; bool want = v == was; if (kind == 1 && (shape >> ax & 1)) { double other = w[1 - which]->pos()(ax); want = on && v != other; } sym_check(r->isStructured(g) == want, "structured-iff-box-of-lines"); if (want) sym_reach("structured"); else sym_reach("not"); delete r; delete e;
}
ENTRY p16_oblique() { int a[3], b[3]; CVecI3 x, y; for (int d = 0; d < 3; d++) { a[d] = sym_choice(nm("a", d).c_str(), 2); b[d] = sym_choice(nm("b", d).c_str(), 3); x(d) = a[d]; y(d) = b[d]; } Grid3 g = fixedGrid(); Pts<Real> p; p.add(g.getPos(x)); p.add(g.getPos(y)); LinR2 l(ElemId(1), p.at()); int n = (a[0] != b[0]) + (a[1] != b[1]) + (a[2] != b[2]); sym_check(l.isStructured(g) == (n == 1), "line-on-one-axis"); Tri3 t(ElemId(1), std::vector<const CoordR3*>(3, p.c[0]).data()); sym_check(!t.isStructured(g), "triangles-never-structured"); CoordI3Group ci; ci.add(new CoordI3(CoordId(1), x)); if (!(x == y)) ci.add(new CoordI3(CoordId(2), y)); sym_check(t.toStructured(ci, g) == 0, "triangles-not-converted"); if (n > 1) sym_check(l.toStructured(ci, g) == 0, "oblique-lines-not-converted"); }
ENTRY p16_tolerance() {
    static const double T[3] = {1e-3, 0.01, 0.1}; double tol = T[sym_choice("tol", 3)]; int ax = sym_choice("axis", 3), shape = sym_choice("shape", 7), kind = (shape & 1) + (shape >> 1 & 1) + (shape >> 2 & 1); std::vector<Real> p[3]; for (int d = 0; d < 3; d++) for (int i = 0; i < 4; i++) p[d].push_back(i); Grid3 g(p); double off = symr("off", -0.2, 0.2), m = ab(off); sym_assume(m < tol - 1e-4 || m > tol + 1e-4); bool near = m < tol; CVecI3 lo(1, 1, 1), hi = lo; for (int d = 0; d < 3; d++) hi(d) += shape >> d & 1; CoordI3Group ci; ElemI* e = boxElem(kind, ci, BoxI3(lo, hi), 0, 0); CoordR3Group full; for (size_t i = 0; i < ci.size(); i++) { CoordR3* c = ci(i)->toUnstructured(g); c->pos()(ax) += off; full.add(c); sym_check(c->isStructured(g, tol) == near, "coordinate-near-its-lines"); } const CoordR3* w[4]; for (size_t i = 0; i < e->numberOfCoordinates(); i++) w[i] = full.getId(e->getV(i)->getId()); ElemR* r = kind == 0 ? (ElemR*)new NodR(ElemId(7), w) : kind == 1 ? (ElemR*)new LinR2(ElemId(7), w) : (ElemR*)new QuaR4(ElemId(7), w);
    sym_check(r->isStructured(g, tol) == near, "element-near-its-lines"); ElemI* s = r->toStructured(ci, g, tol); sym_check((s != 0) == near, "converted-when-near"); if (s) { sym_reach("near"); sym_check(*s == *e, "nearest-lines"); } else sym_reach("far"); delete s; delete r; delete e;
}
template<class M> static void ownLinks(const M& m, const char* what) { for (size_t i = 0; i < m.elems().size(); i++) { auto* e = m.elems()(i); for (size_t j = 0; j < e->numberOfCoordinates(); j++) { CoordId id = e->getV(j)->getId(); sym_check(m.coords().existId(id) && m.coords().getId(id) == e->getV(j), what); } if (e->getLayer()) sym_check(m.layers().existId(e->getLayerId()) && m.layers().getId(e->getLayerId()) == e->getLayer(), what); } }
ENTRY p16_mesh() {
    Grid3 g = fixedGrid(); int ax = sym_choice("axis", 3), geo = sym_choice("geometric", 2); double v = symr("v", -3, 15); for (int i = 0; i < 4; i++) { double q = v - L[ax][i]; sym_assume(q == 0 || q > 0.05 || q < -0.05); } bool on = false; for (int i = 0; i < 4; i++) on = on || v == L[ax][i]; CoordR3Group cg; CVecR3 x[5]; for (int i = 0; i < 5; i++) x[i] = CVecR3(L[0][0], L[1][1], L[2][2]); x[1]((ax + 1) % 3) = L[(ax + 1) % 3][3]; x[2](ax) = v; x[3] = x[1]; x[3](ax) = L[ax][3]; x[4] = x[0]; x[4](ax) = L[ax][3]; for (int i = 0; i < 5; i++) cg.add(new CoordR3(CoordId(10 - i), x[i])); LayerGroup lg; lg.add(new Layer::Layer(LayerId(2), "a")); lg.add(new Layer::Layer(LayerId(1), "b")); ElemRGroup eg; const CoordR3* w[3] = {cg(0), cg(1), cg(2)}; eg.add(new LinR2(ElemId(5), w, lg(0))); eg.add(new Tri3(ElemId(2), w, lg(1))); eg.add(new NodR(ElemId(9), w + 2, lg(1))); const CoordR3* q[4] = {cg(0), cg(1), cg(3), cg(4)}; eg.add(new QuaR4(ElemId(1), q, lg(0)));
    Mesh::Structured* s; if (geo) { Mesh::Geometric m(g, cg, eg, lg); s = m.getMeshStructured(); } else { Mesh::Unstructured m(cg, eg, lg); s = m.getMeshStructured(g); } for (int d = 0; d < 3; d++) sym_check(s->grid().getPos(d) == g.getPos(d), "grid"); sym_check(s->coords().size() == 5, "every-coordinate-converted"); for (int i = 0; i < 5; i++) { const CoordI3* c = s->coords()(i); sym_check(c->getId() == cg(i)->getId(), "coordinate-identifiers"); for (int d = 0; d < 3; d++) if (i != 2 || d != ax) sym_check(L[d][c->pos()(d)] == x[i](d), "coordinate-lines"); } bool had[3] = {s->elems().existId(ElemId(5)), s->elems().existId(ElemId(9)), s->elems().existId(ElemId(1))}; sym_check(had[0] && had[2], "structured-elements-kept"); sym_check(!s->elems().existId(ElemId(2)), "triangle-dropped"); sym_check(had[1] == on, "node-kept-iff-on-a-line"); sym_check(s->elems().size() == (on ? 3u : 2u), "no-other-elements"); if (on) sym_reach("kept"); else sym_reach("dropped"); sym_check(s->layers().size() == 2 && s->layers()(0) != lg(0) && *s->layers()(0) == *lg(0), "layers-cloned"); ownLinks(*s, "own-coordinates-and-layers"); for (size_t i = 0; i < s->elems().size(); i++) sym_check(s->elems()(i)->getLayerId() == eg.getId(s->elems()(i)->getId())->getLayerId(), "layers-kept"); delete s;
}
ENTRY p16_roundtrip() {
    int ax = sym_choice("axis", 3); std::vector<Real> p[3]; Grid3 g = freeGrid(ax, p); CVecI3 lo(1, 0, 2); lo(ax) = sym_choice("lo", 2); Mesh::Structured m(g); m.layers().add(new Layer::Layer(LayerId(3), "a")); Element::Model mod(MatId(4)); m.elems().add(new HexI8(m.coords(), ElemId(8), BoxI3(lo, lo + CVecI3(1, 1, 1)), m.layers()(0), &mod)); m.elems().add(new NodI(m.coords(), ElemId(2), BoxI3(lo, lo))); CVecI3 h = lo; h(ax)++; m.elems().add(new LinI2(m.coords(), ElemId(5), BoxI3(lo, h), m.layers()(0))); Mesh::Unstructured* u = m.getMeshUnstructured(); sym_check(u->coords().size() == m.coords().size() && u->elems().size() == 3 && u->layers().size() == 1, "sizes"); ownLinks(*u, "own-coordinates-and-layers"); for (size_t i = 0; i < m.coords().size(); i++) for (int d = 0; d < 3; d++) sym_check(u->coords().getId(m.coords()(i)->getId())->pos()(d) == p[d][m.coords()(i)->pos()(d)], "positions"); Mesh::Structured* s = u->getMeshStructured(g); sym_check(s->coords().size() == m.coords().size() && s->elems().size() == 3, "round-trip-sizes"); for (size_t i = 0; i < 3; i++) sym_check(*s->elems().getId(m.elems()(i)->getId()) == *m.elems()(i) && s->elems()(i)->getModel() == (i == 0 ? &mod : 0), "round-trip-elements"); for (size_t i = 0; i < m.coords().size(); i++) sym_check(*s->coords()(i) == *m.coords()(i), "round-trip-coordinates"); ownLinks(*s, "own-coordinates-and-layers"); delete s; delete u;
}

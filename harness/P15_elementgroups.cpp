// @property P15
// @bounds groups of up to 5 elements (nodes, lines, triangles, quadrilaterals, tetrahedra, real and integer) with any layer and material identifiers in [0,3] (0: none); every coordinate identifier, every bound and position in [-6,6]; layer names of up to 4 characters
// @entry p15_select shards=3
// @entry p15_single
// @entry p15_remove
// @entry p15_set
// @entry p15_layers
// @entry p15_coord
// @entry p15_inside
// @entry p15_inside_corner
// @entry p15_quadratic
// @entry p15_bound
// @entry p15_faces
// @entry p15_closest shards=4
// @entry p15_index
// @entry p15_reassign reach=moved,missing
// @entry p15_reassignids
// @entry p15_names
// @entry p15_layergroup
#include "elems.h"
typedef Element::Group<Elem> EG;
static const int N = 4;
static bool everything(const BoxR3& b) { for (int d = 0; d < 3; d++) if (!(b.getMin()(d) < -1e300) || !(b.getMax()(d) > 1e300)) return false; return true; }
struct Scene {
    Pts<Real> p; Pts<Int> q; std::vector<Layer::Layer*> lay; std::vector<Element::Model*> mod; EG g; long m[N], l[N]; std::vector<Elem*> e;
    Scene(int sym = 3) {
        static const double P[6][3] = {{0,0,0},{3,0,1},{1,2,0},{1,0,4},{2,2,2},{0,3,1}}; for (int i = 0; i < 6; i++) { p.add(CVecR3(P[i][0], P[i][1], P[i][2])); q.add(CVecI3(P[i][0] * 2, P[i][1], -P[i][2])); }
        for (int i = 0; i < N; i++) { m[i] = sym & 1 ? symi(nm("m", i), 0, 3) : i % 3 + 1; l[i] = sym & 2 ? symi(nm("l", i), 0, 3) : i % 2 + 1; lay.push_back(sym & 2 && l[i] == 0 ? 0 : new Layer::Layer(LayerId(l[i]), "L")); mod.push_back(sym & 1 && m[i] == 0 ? 0 : new Element::Model(MatId(m[i]))); }
        add(makeR(1, 11, p.at(0), lay[0], mod[0])); add(makeI(5, 7, q.at(1), lay[1], mod[1])); add(makeR(6, 25, p.at(0), lay[2], mod[2])); add(makeR(3, 3, p.at(2), lay[3], mod[3]));
    }
    void add(Elem* x) { e.push_back(x); g.add(x); }
    ~Scene() { g.clear(); for (auto* x : lay) delete x; for (auto* x : mod) delete x; }
};
template<class G> static void expect(const G& r, const std::vector<Elem*>& e, const bool* in, const char* what) { size_t k = 0; bool ok = true; for (size_t i = 0; i < e.size(); i++) if (in[i]) { ok = ok && k < r.size() && (const void*)dynamic_cast<const Elem*>(r(k < r.size() ? k : 0)) == (const void*)e[i]; k++; } sym_check(ok && k == r.size(), what); for (size_t i = 0; i < e.size(); i++) sym_check(r.existId(e[i]->getId()) == in[i], "selection-indexed"); }
ENTRY p15_select() {
    int onLayers = sym_choice("layers", 2); Scene s(onLayers ? 2 : 1); int n = sym_choice("n", 3); long a = symi("a", 0, 4), b = symi("b", 0, 4); std::vector<MatId> ms; std::vector<LayerId> ls; if (n > 0) { ms.push_back(MatId(a)); ls.push_back(LayerId(a)); } if (n > 1) { ms.push_back(MatId(b)); ls.push_back(LayerId(b)); } bool im[N], il[N]; for (int i = 0; i < N; i++) { im[i] = (n > 0 && s.m[i] == a) || (n > 1 && s.m[i] == b); il[i] = (n > 0 && s.l[i] == a) || (n > 1 && s.l[i] == b); } const EG& c = s.g;
    if (onLayers) { expect(s.g.getLayerId(ls), s.e, il, "layers"); expect(c.getLayerId(ls), s.e, il, "layers-const"); } else { expect(s.g.getMatId(ms), s.e, im, "materials"); expect(c.getMatId(ms), s.e, im, "materials-const"); } sym_check(c.size() == N, "selection-leaves-group");
}
ENTRY p15_single() {
    int which = sym_choice("which", 3); Scene s(which + 1); long a = symi("a", 0, 3), b = symi("b", 0, 3); bool x[N]; const EG& c = s.g; switch (which) { case 0: for (int i = 0; i < N; i++) x[i] = s.m[i] == a; expect(s.g.getMatId(MatId(a)), s.e, x, "material"); expect(c.getMatId(MatId(a)), s.e, x, "material-const"); break; case 1: for (int i = 0; i < N; i++) x[i] = s.l[i] == b; expect(s.g.getLayerId(LayerId(b)), s.e, x, "layer"); expect(c.getLayerId(LayerId(b)), s.e, x, "layer-const"); break; default: for (int i = 0; i < N; i++) x[i] = s.m[i] == a && s.l[i] == b; expect(s.g.getMatLayerId(MatId(a), LayerId(b)), s.e, x, "material-and-layer"); expect(c.getMatLayerId(MatId(a), LayerId(b)), s.e, x, "material-and-layer-const"); }
}
ENTRY p15_remove() { Scene s(1); int n = 1 + sym_choice("n", 2); long a = symi("a", 0, 3), b = symi("b", 0, 3); bool keep[N]; for (int i = 0; i < N; i++) keep[i] = !(s.m[i] == a || (n == 2 && s.m[i] == b)); EG copy(s.g); if (n == 1) s.g.removeMatId(MatId(a)); else { std::vector<MatId> v; v.push_back(MatId(a)); v.push_back(MatId(b)); s.g.removeMatId(v); } expect(s.g, s.e, keep, "others-kept"); sym_check(copy.size() == N, "copies-unaffected"); }
ENTRY p15_set() {
    Scene s(0); Layer::Layer nl(LayerId(symi("nl", 1, 9)), "n"); Element::Model nmod(MatId(symi("nm", 1, 9))); int how = sym_choice("how", 4), one = sym_choice("one", N + 1); ElemId id = one < N ? s.e[one]->getId() : ElemId(symi("id", 1, 40)); bool none = true; for (auto* x : s.e) none = none && x->getId() != id; if (one == N) sym_assume(none); bool t = false; try { switch (how) { case 0: s.g.setModel(&nmod); break; case 1: s.g.setLayer(&nl); break; case 2: s.g.setModel(id, &nmod); break; default: s.g.setLayer(id, &nl); } } catch (const SEMBA::Group::Error::Id::NotExists<ElemId>&) { t = true; } sym_check(t == (how >= 2 && one == N), "missing-element-refused");
    for (int i = 0; i < N; i++) { bool hit = !t && (how < 2 || i == one); sym_check(s.e[i]->getModel() == (hit && how % 2 == 0 ? &nmod : s.mod[i]), "material-set"); sym_check(s.e[i]->getLayer() == (hit && how % 2 == 1 ? &nl : s.lay[i]), "layer-set"); }
}
ENTRY p15_layers() { Scene s(2); std::map<LayerId, std::vector<const Elem*> > r = s.g.separateByLayers(); size_t n = 0; for (auto& x : r) { sym_check(x.second.size() > 0, "no-empty-layer"); long last = -1; for (auto* e : x.second) { int k = -1; for (int i = 0; i < N; i++) if (s.e[i] == e) k = i; sym_check(k > last && e->getLayerId() == x.first, "layer-members-in-order"); last = k; n++; } } sym_check(n == N, "every-element-in-one-layer"); }
ENTRY p15_coord() { Pts<Real> p; for (int i = 0; i < 4; i++) p.add(CVecR3(i, i * i, 1)); Element::Group<ElemR> g; int a[3][2]; std::vector<Elem*> e; for (int i = 0; i < 3; i++) { const CoordR3* v[3]; for (int j = 0; j < 2; j++) { a[i][j] = sym_choice((nm("v", i) + nm("_", j)).c_str(), 3); v[j] = p.c[a[i][j]]; } v[2] = p.c[3]; ElemR* x = i == 1 ? (ElemR*)new Tri3(ElemId(5), v) : (ElemR*)new LinR2(ElemId(9 - i), v); g.add(x); e.push_back(x); } long id = symi("id", 1, 5); bool in[3]; for (int i = 0; i < 3; i++) in[i] = a[i][0] + 1 == id || a[i][1] + 1 == id || (i == 1 && id == 4); const Element::Group<ElemR>& c = g; expect(c.getCoordId(CoordId(id)), e, in, "elements-with-the-coordinate"); }
ENTRY p15_inside() { Pts<Real> p; p.add(CVecR3(0, 1, 2)); p.add(CVecR3(3, 1, 0)); p.add(symR3("x", -6, 6)); Element::Group<ElemR> g; std::vector<Elem*> e; ElemR* x[3] = {makeR(1, 4, p.at(0)), makeR(1, 2, p.at(1)), makeR(0, 8, p.at(2))}; for (auto* y : x) { g.add(y); e.push_back(y); } int w = sym_choice("axis", 3); CVecR3 lo(-7, -7, -7), hi(7, 7, 7); lo(w) = symr("lo", -6, 6); hi(w) = symr("hi", -6, 6); sym_assume(hi(w) > lo(w) + 0.01); bool in[3]; for (int i = 0; i < 3; i++) { in[i] = true; for (size_t j = 0; j < x[i]->numberOfCoordinates(); j++) { double v = x[i]->getV(j)->pos()(w); sym_assume(v >= lo(w) || v < lo(w) - 0.001); sym_assume(v <= hi(w) || v > hi(w) + 0.001); in[i] = in[i] && v >= lo(w) && v <= hi(w); } } expect(g.getInsideBound(BoxR3(lo, hi)), e, in, "elements-inside-the-bound"); }
static CVecR3 rv(const CVecI3& v) { return CVecR3(v(0), v(1), v(2)); }
ENTRY p15_inside_corner() { Pts<Real> p; CVecR3 a = rv(symI3("a", -3, 3)), l = rv(symI3("l", 0, 3)), lo = rv(symI3("lo", -3, 3)), m = rv(symI3("m", 1, 4)); p.add(a); p.add(a + l); Element::Group<ElemR> g; ElemR* x = new LinR2(ElemId(3), p.at()); g.add(x); std::vector<Elem*> e; e.push_back(x); bool in[1] = {true}; for (int i = 0; i < 3; i++) in[0] = in[0] && a(i) >= lo(i) && a(i) + l(i) <= lo(i) + m(i); expect(g.getInsideBound(BoxR3(lo, lo + m)), e, in, "elements-inside-the-bound"); }
ENTRY p15_quadratic() {
    Pts<Real> p; for (int i = 0; i < 3; i++) p.add(CVecR3(i == 1 ? 4 : 0, i == 2 ? 4 : 0, 1)); for (int i = 0; i < 3; i++) p.add((p.c[i]->pos() + p.c[(i + 1) % 3]->pos()) / 2.0); p.add(CVecR3(9, 9, 9)); p.add(CVecR3(9, 9, 7)); Element::Group<ElemR> g; bool first = sym_choice("first", 2); Tri6* t = new Tri6(ElemId(2), p.at()); LinR2* l = new LinR2(ElemId(1), p.at(6)); if (first) { g.add(t); g.add(l); } else { g.add(l); g.add(t); }
    long id = symi("id", 1, 9); Element::Group<const ElemR> r = ((const Element::Group<ElemR>&)g).getCoordId(CoordId(id)); sym_check(r.size() == (id < 9 ? 1u : 0u), "elements-of-any-node"); if (id < 9) sym_check(r(0) == (id < 7 ? (const ElemR*)t : (const ElemR*)l), "element-of-the-node"); CVecR3 at(symr("x", -1, 5), symr("y", -1, 5), 1); const CoordR3* n = g.getClosestVertex(at); double best = 1e9; for (int i = 0; i < 8; i++) { double d = (p.c[i]->pos()(0) - at(0)) * (p.c[i]->pos()(0) - at(0)) + (p.c[i]->pos()(1) - at(1)) * (p.c[i]->pos()(1) - at(1)); if (i < 6 && n == p.c[i]) best = d; } for (int i = 0; i < 6; i++) sym_check((p.c[i]->pos()(0) - at(0)) * (p.c[i]->pos()(0) - at(0)) + (p.c[i]->pos()(1) - at(1)) * (p.c[i]->pos()(1) - at(1)) >= best - 1e-6, "no-node-closer");
    CoordR3Group q; for (int i = 7; i >= 0; i--) q.add(new CoordR3(CoordId(i + 1), CVecR3(i, 0, 0))); g.reassignPointers(q); for (int i = 0; i < 6; i++) sym_check(t->getV(i) == q.getId(CoordId(i + 1)), "every-node-moved"); for (int i = 0; i < 2; i++) sym_check(l->getV(i) == q.getId(CoordId(i + 7)), "every-node-moved"); g.clear();
}
ENTRY p15_bound() {
    int n = sym_choice("n", 4), who = sym_choice("who", 3); sym_assume(who < n || (n == 0 && who == 0)); Pts<Real> p; Pts<Int> q; CVecR3 a = who == 0 ? symR3("a", -6, 6) : CVecR3(1, -2, 3), c = who == 2 ? symR3("c", -6, 6) : CVecR3(-1, 0, 5); CVecI3 b = who == 1 ? symI3("b", -6, 6) : CVecI3(0, 1, 2); p.add(a); p.add(CVecR3(0.5, 0.5, 0.5)); p.add(c); q.add(b); q.add(CVecI3(1, 1, -1)); EG g; if (n > 0) g.add(makeR(1, 1, p.at(0))); if (n > 1) g.add(makeI(1, 2, q.at(0))); if (n > 2) g.add(makeR(0, 3, p.at(2))); BoxR3 r = g.getBound(); if (!n) { sym_check(everything(r), "empty-bound-is-everything"); return; } for (int d = 0; d < 3; d++) { double v[5] = {a(d), 0.5, (double)b(d), (double)q.c[1]->pos()(d), c(d)}; int k = n == 1 ? 2 : n == 2 ? 4 : 5; bool lo = false, hi = false; for (int i = 0; i < k; i++) { sym_check(v[i] >= r.getMin()(d) && v[i] <= r.getMax()(d), "bound-holds-every-element"); lo = lo || v[i] == r.getMin()(d); hi = hi || v[i] == r.getMax()(d); } sym_check(lo && hi, "bound-is-tight"); }
}
ENTRY p15_faces() { Pts<Real> p; CVecR3 v = symR3("v", 1, 6); p.add(CVecR3(0, 0, 0)); p.add(CVecR3(1, 0, -1)); p.add(CVecR3(0, 2, 0)); p.add(v); double w = v(2) * 2 + v(0) * 2; sym_assume(w > 0.01); Tet4 t(ElemId(1), p.at()); CoordR3Group cg; HexR8 h(cg, ElemId(2), BoxR3(CVecR3(-1, -1, -1), CVecR3(1, 2, 3))); EG g; std::vector<Element::Face> f; int n = sym_choice("n", 3), i = sym_choice("i", 4), j = sym_choice("j", 6); if (n > 0) f.push_back(Element::Face(&t, i)); if (n > 1) f.push_back(Element::Face(&h, j)); BoxR3 r = g.getBound(f); if (!n) { sym_check(everything(r), "no-faces-is-everything"); return; } for (int d = 0; d < 3; d++) { bool lo = false, hi = false; for (int k = 0; k < n; k++) for (size_t c = 0; c < (k ? 4u : 3u); c++) { double x = k ? h.getSideV(j, c)->pos()(d) : t.getSideV(i, c)->pos()(d); sym_check(x >= r.getMin()(d) && x <= r.getMax()(d), "face-bound-holds"); lo = lo || x == r.getMin()(d); hi = hi || x == r.getMax()(d); } sym_check(lo && hi, "face-bound-tight"); } }
ENTRY p15_closest() { int n = sym_choice("n", 3); Pts<Real> p; p.add(CVecR3(0, 0, 0)); p.add(CVecR3(3, 0, 1)); p.add(CVecR3(1, 2, 0)); p.add(CVecR3(1, -3, 4)); Pts<Int> q; q.add(CVecI3(1, 1, 1)); EG g; if (sym_choice("integer", 2)) g.add(makeI(0, 1, q.at())); if (n > 0) g.add(makeR(1, 2, p.at(0))); if (n > 1) g.add(makeR(1, 3, p.at(2))); int w = sym_choice("axis", 3); CVecR3 x(0.5, 1, 2); x(w) = symr("x", -6, 6); x((w + 1) % 3) = symr("y", -6, 6); const CoordR3* r = g.getClosestVertex(x); if (!n) { sym_check(r == 0, "no-vertex"); return; } sym_check(r != 0, "vertex-found"); bool in = false; for (int i = 0; i < 2 * n; i++) { in = in || p.c[i] == r; CVecR3 a = p.c[i]->pos() - x, b = r->pos() - x; sym_check(a(0) * a(0) + a(1) * a(1) + a(2) * a(2) >= b(0) * b(0) + b(1) * b(1) + b(2) * b(2) - 1e-6, "no-vertex-closer"); } sym_check(in, "a-vertex-of-the-group"); }
ENTRY p15_index() {
    Pts<Real> p; for (int i = 0; i < 4; i++) p.add(CVecR3(i, i * i, 1)); Element::Group<ElemR> g; std::vector<Elem*> e; int a[2][3]; for (int i = 0; i < 2; i++) { const CoordR3* v[3]; for (int j = 0; j < 3; j++) { a[i][j] = sym_choice((nm("v", i) + nm("_", j)).c_str(), 4); for (int k = 0; k < j; k++) sym_assume(a[i][j] != a[i][k]); v[j] = p.c[a[i][j]]; } ElemR* x = makeR(i == 0 ? 3 : 1 + 2 * sym_choice("tri", 2), i + 1, v); g.add(x); e.push_back(x); } Element::IndexByVertexId ix = g.getIndexByVertexId(); size_t distinct = 0; std::vector<std::vector<CoordId> > seen;
    for (int i = 0; i < 2; i++) { size_t n = dynamic_cast<ElemR*>(e[i])->numberOfVertices(); int r = i == 1 && n == 2 ? sym_choice("rot2", 2) : sym_choice(nm("rot", i).c_str(), 3); std::vector<CoordId> k; for (size_t j = 0; j < n; j++) k.push_back(p.c[a[i][(j + r) % n]]->getId()); auto it = ix.find(k); sym_check(it != ix.end(), "found-in-any-vertex-order"); if (it == ix.end()) return; sym_check(it->second == e[i] || (i == 1 && it->second == e[0]), "element-with-those-vertices"); bool same = false; if (i == 1 && n == 3) { int c = 0; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) c += a[0][x] == a[1][y]; same = c == 3; } sym_check((it->second == e[i]) == !same, "first-element-wins"); if (!same) distinct++; } sym_check(ix.size() == distinct, "one-entry-per-vertex-set"); std::vector<CoordId> k; k.push_back(CoordId(1)); sym_check(ix.find(k) == ix.end(), "other-sets-absent");
}
ENTRY p15_reassign() {
    Pts<Real> p; Pts<Int> q; for (int i = 0; i < 3; i++) { p.add(CVecR3(i, 0, 1)); q.add(CVecI3(i, 0, 1)); } EG g; ElemR* a = makeR(3, 1, p.at()); ElemI* b = makeI(1, 2, q.at(1)); g.add(a); g.add(b); long miss = symi("missing", 0, 3); CoordR3Group n; std::vector<CoordR3*> own; for (int i = 2; i >= 0; i--) if (i + 1 != miss) n.add(new CoordR3(CoordId(i + 1), symR3(nm("n", i), -2, 2))); bool t = false; try { g.reassignPointers(n); } catch (const SEMBA::Group::Error::Id::NotExists<CoordId>&) { t = true; } sym_check(t == (miss != 0), "missing-coordinate-refused"); for (int i = 0; i < 2; i++) sym_check(b->getV(i) == q.c[i + 1], "other-kind-untouched"); if (t) { sym_reach("missing"); g.clear(); return; } sym_reach("moved"); for (int i = 0; i < 3; i++) sym_check(a->getV(i) == n.getId(CoordId(i + 1)) && a->getV(i) != p.c[i], "points-to-the-new-coordinate"); g.clear();
}
ENTRY p15_reassignids() { int onLayers = sym_choice("layers", 2); Scene s(onLayers ? 2 : 1); LayerGroup nl; SEMBA::Group::Identifiable<Element::Model, MatId> nmod; for (int i = 3; i > 0; i--) { nl.add(new Layer::Layer(LayerId(i), "N")); nmod.add(new Element::Model(MatId(i))); } if (onLayers) { s.g.reassignPointers(nl); for (int i = 0; i < N; i++) sym_check(s.l[i] == 0 ? s.e[i]->getLayer() == 0 : s.e[i]->getLayer() == nl.getId(LayerId(s.l[i])), "points-to-the-new-layer"); for (int i = 0; i < N; i++) sym_check(s.e[i]->getModel() == s.mod[i], "materials-untouched"); } else { s.g.reassignPointers(nmod); for (int i = 0; i < N; i++) sym_check(s.m[i] == 0 ? s.e[i]->getModel() == 0 : s.e[i]->getModel() == nmod.getId(MatId(s.m[i])), "points-to-the-new-material"); for (int i = 0; i < N; i++) sym_check(s.e[i]->getLayer() == s.lay[i], "layers-untouched"); } for (int i = 0; i < N; i++) sym_check(s.e[i]->getMatId() == MatId(s.m[i]) && s.e[i]->getLayerId() == LayerId(s.l[i]), "identifiers-kept"); s.g.clear(); }
static std::string symName(const char* p, int n) { std::string s; for (int i = 0; i < n; i++) { int c = (int)symi(nm(p, i), 32, 126); s += (char)c; } return s; }
ENTRY p15_names() { int n = sym_choice("n", 4), k = sym_choice("k", 4); std::string a = symName("a", n), b = symName("b", k); long i = symi("i", 0, 9), j = symi("j", 0, 9); Layer::Layer x(LayerId(i), a), y(LayerId(j), b), z(a); std::string r = x.getName(); sym_check(r.size() == a.size(), "name-length"); for (int c = 0; c < n; c++) sym_check(r[c] == (a[c] == ' ' ? '_' : a[c]), "blanks-become-underscores"); sym_check(z.getName() == r && z.getId() == LayerId(0) && x.getId() == LayerId(i), "name-and-identifier"); sym_check((x == y) == (i == j && x.getName() == y.getName()) && (x != y) == !(x == y), "equality"); Layer::Layer c(x); sym_check(c == x, "copy"); Layer::Layer* d = x.cloneTo<Layer::Layer>(); sym_check(*d == x && d != &x, "clone"); delete d; }
ENTRY p15_layergroup() { LayerGroup g; int n = sym_choice("n", 4); std::vector<Layer::Layer*> l; std::string a[3]; for (int i = 0; i < n; i++) { a[i] = symName(("a" + std::to_string(i)).c_str(), 2); l.push_back(new Layer::Layer(LayerId(9 - 2 * i), a[i])); g.add(l[i]); } std::string f = symName("f", 2); const Layer::Layer* r = g.getName(f); const Layer::Layer* w = 0; for (int i = n - 1; i >= 0; i--) if (l[i]->getName() == f) w = l[i]; sym_check(r == w, "layer-by-name"); LayerGroup h = g.cloneElems(); sym_check(h.size() == g.size(), "clone-size"); for (int i = 0; i < n; i++) sym_check(h(i) != g(i) && *h(i) == *g(i) && g.getId(l[i]->getId()) == l[i], "clone-layers"); }

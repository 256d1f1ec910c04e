// @property P18
// @bounds graphs of 3 lines (or 2 triangles and a line) over 4 coordinates with every choice of ends; 4 lines over 5 coordinates when thorough; splits of every coordinate, also two in a row; two and three tetrahedra sharing faces in every vertex order with the free apex anywhere beyond the face, and surfaces on any face in either orientation; pairs of hexahedra
// @entry p18_lines shards=4 reach=split,one,many
// @entry p18_faces shards=4
// @entry p18_twosplits shards=3
// @entry p18_copy shards=2
// @entry p18_tets shards=4 reach=boundary,inner
// @entry p18_surface shards=4 reach=lone,boundary,inner
// @entry p18_chain shards=2
// @entry p18_hexes
#include "elems.h"
#include "geometry/graph/Connectivities.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
typedef Graph::Vertices<ElemR, CoordR3> Net; typedef Graph::Face Face;
typedef SEMBA::Group::Group<const ElemR> List;
struct Plan { std::vector<std::vector<int> > v; };
static Plan lines(int n, int c) { Plan p; for (int i = 0; i < n; i++) { int a = sym_choice(nm("a", i).c_str(), c), b = sym_choice(nm("b", i).c_str(), c); sym_assume(a != b); p.v.push_back(std::vector<int>{a, b}); } return p; }
static bool shares(const std::vector<int>& a, const std::vector<int>& b) { for (int x : a) for (int y : b) if (x == y) return true; return false; }
struct World { Pts<Real> c; List e; std::vector<ElemR*> raw; World(const Plan& p, int nc) { for (int i = 0; i < nc; i++) c.add(CVecR3(i, i * i, (i * 7) % 4)); for (size_t i = 0; i < p.v.size(); i++) { const CoordR3* v[3]; for (size_t j = 0; j < p.v[i].size(); j++) v[j] = c.c[p.v[i][j]]; ElemR* x; if (p.v[i].size() == 2) x = new LinR2(ElemId(20 - 3 * (long)i), v); else x = new Tri3(ElemId(20 - 3 * (long)i), v); raw.push_back(x); e.add(x); } } };
static void compare(Net& g, const Plan& p, const World& w) {
    sym_check(g.numElems() == p.v.size(), "one-node-per-element"); std::vector<int> order; for (auto& v : p.v) for (int x : v) { bool in = false; for (int o : order) in = in || o == x; if (!in) order.push_back(x); } sym_check(g.numBounds() == order.size(), "one-bound-per-coordinate"); if (g.numElems() != p.v.size() || g.numBounds() != order.size()) return;
    for (size_t i = 0; i < p.v.size(); i++) { auto* e = g.elem(i); sym_check(e->elem() == w.raw[i] && e->numBounds() == p.v[i].size(), "elements-in-order"); for (size_t j = 0; j < p.v[i].size(); j++) sym_check(e->getBound(j)->elem() == w.c.c[p.v[i][j]], "bounds-in-vertex-order"); size_t nb = 0; for (size_t k = 0; k < p.v.size(); k++) { bool want = k != i && shares(p.v[i], p.v[k]); nb += want; int times = 0; for (size_t m = 0; m < e->numNeighbors(); m++) times += e->getNeighbor(m) == g.elem(k); sym_check(times == (want ? 1 : 0), "neighbours-share-a-coordinate"); for (size_t j = 0; j < p.v[i].size(); j++) { int has = 0, at = 0; for (int x : p.v[k]) has += x == p.v[i][j]; for (size_t m = 0; m < e->numBoundNeighbors(j); m++) at += e->getBoundNeighbor(j, m) == g.elem(k); sym_check(at == (k == i ? 0 : has), "neighbours-through-each-coordinate"); } } sym_check(e->numNeighbors() == nb, "no-other-neighbours"); }
    for (size_t b = 0; b < g.numBounds(); b++) { auto* q = g.bound(b); size_t n = 0; for (size_t i = 0; i < p.v.size(); i++) for (int x : p.v[i]) if (w.c.c[x] == q->elem()) n++; sym_check(q->numBounds() == n, "coordinate-lists-its-elements"); for (size_t m = 0; m < q->numBounds(); m++) { bool in = false; for (size_t i = 0; i < g.numElems(); i++) in = in || q->getBound(m) == g.elem(i); sym_check(in, "elements-of-this-graph"); } for (size_t o = 0; o < g.numBounds(); o++) { bool want = false; for (auto& v : p.v) { bool l = false, r = false; for (int x : v) { l = l || w.c.c[x] == q->elem(); r = r || w.c.c[x] == g.bound(o)->elem(); } want = want || (l && r && o != b); } int times = 0; for (size_t m = 0; m < q->numNeighbors(); m++) times += q->getNeighbor(m) == g.bound(o); sym_check(times == want, "coordinates-joined-by-an-element"); } }
}
static void components(Net& g, const Plan& p, const World& w) {
    std::vector<std::vector<const ElemR*> > c = g.getConnectedComponents(); std::vector<int> lab(p.v.size()); for (size_t i = 0; i < lab.size(); i++) lab[i] = (int)i; for (size_t r = 0; r < lab.size(); r++) for (size_t i = 0; i < lab.size(); i++) for (size_t j = 0; j < lab.size(); j++) if (shares(p.v[i], p.v[j]) && lab[j] < lab[i]) lab[i] = lab[j]; size_t n = 0; for (size_t i = 0; i < lab.size(); i++) n += lab[i] == (int)i; sym_check(c.size() == n, "number-of-components"); std::vector<int> in(p.v.size(), -1); for (size_t k = 0; k < c.size(); k++) for (auto* e : c[k]) for (size_t i = 0; i < p.v.size(); i++) if (w.raw[i] == e) { sym_check(in[i] == -1, "each-element-once"); in[i] = (int)k; } for (size_t i = 0; i < lab.size(); i++) { sym_check(in[i] != -1, "every-element-listed"); for (size_t j = 0; j < lab.size(); j++) sym_check((in[i] == in[j]) == (lab[i] == lab[j]), "same-component-iff-connected"); } for (size_t i = 0; i < g.numElems(); i++) sym_check(!g.elem(i)->visited(), "marks-reset"); if (n == 1) sym_reach("one"); else sym_reach("many");
}
static void split(Net& g, Plan& p, World& w, size_t b, int nc) {
    const CoordR3* at = g.bound(b)->elem(); std::vector<int> who; for (size_t i = 0; i < p.v.size(); i++) for (size_t j = 0; j < p.v[i].size(); j++) if (g.elem(i)->getBound(j) == g.bound(b)) who.push_back((int)i); size_t was = g.numBounds(); g.splitBound(b); sym_check(g.numBounds() == was + (who.empty() ? 0 : who.size() - 1), "one-copy-per-extra-element");
    for (int i : who) { int n = 0; for (size_t j = 0; j < g.elem(i)->numBounds(); j++) { auto* q = g.elem(i)->getBound(j); if (q->elem() == at) { n++; sym_check(q->numBounds() == 1 && q->getBound(0) == g.elem(i), "a-copy-of-its-own"); for (int o : who) if (o != i) for (size_t m = 0; m < g.elem(o)->numBounds(); m++) sym_check(g.elem(o)->getBound(m) != q, "copies-not-shared"); } } sym_check(n == 1, "still-ends-there"); }
    for (size_t i = 0; i < g.numElems(); i++) for (size_t k = 0; k < g.numElems(); k++) { bool want = false; if (i != k) for (size_t a = 0; a < g.elem(i)->numBounds(); a++) for (size_t c = 0; c < g.elem(k)->numBounds(); c++) want = want || g.elem(i)->getBound(a) == g.elem(k)->getBound(c); int times = 0; for (size_t m = 0; m < g.elem(i)->numNeighbors(); m++) times += g.elem(i)->getNeighbor(m) == g.elem(k); sym_check(times == want, "neighbours-after-the-split"); }
    for (size_t x = 0; x < g.numBounds(); x++) for (size_t y = 0; y < g.numBounds(); y++) { bool want = false; if (x != y) for (size_t i = 0; i < g.numElems(); i++) { bool l = false, r = false; for (size_t a = 0; a < g.elem(i)->numBounds(); a++) { l = l || g.elem(i)->getBound(a) == g.bound(x); r = r || g.elem(i)->getBound(a) == g.bound(y); } want = want || (l && r); } int times = 0; for (size_t m = 0; m < g.bound(x)->numNeighbors(); m++) times += g.bound(x)->getNeighbor(m) == g.bound(y); sym_check(times == want, "coordinates-after-the-split"); }
    int fresh = nc; for (size_t i = 1; i < who.size(); i++) for (int& x : p.v[who[i]]) if (x < (int)w.c.c.size() && w.c.c[x] == at) { x = fresh++; }
}
ENTRY p18_lines() { int nc = THOROUGH ? 5 : 4; Plan p = lines(THOROUGH ? 4 : 3, nc); World w(p, nc); Net g; g.init(w.e); compare(g, p, w); components(g, p, w); size_t b = sym_choice("split", nc); if (b < g.numBounds()) { split(g, p, w, b, nc); components(g, p, w); sym_reach("split"); } }
ENTRY p18_twosplits() { Plan p = lines(3, 4); World w(p, 4); Net g(w.e); size_t a = sym_choice("first", 4), b = sym_choice("second", 5); sym_assume(a < g.numBounds()); split(g, p, w, a, 4); if (b < g.numBounds()) { Plan q = p; split(g, q, w, b, 40); } }
ENTRY p18_faces() { Plan p; for (int i = 0; i < 2; i++) { int v[3]; for (int j = 0; j < 3; j++) { v[j] = sym_choice(nm(nm("v", i), std::to_string(j).c_str()).c_str(), 5); for (int k = 0; k < j; k++) sym_assume(v[k] != v[j]); } p.v.push_back(std::vector<int>(v, v + 3)); if (i == 0 && !THOROUGH) sym_assume(v[0] < v[1] && v[1] < v[2]); } p.v.push_back(std::vector<int>{4, sym_choice("end", 4)}); World w(p, 5); Net g; g.init(w.e); compare(g, p, w); components(g, p, w); }
ENTRY p18_copy() {
    Plan p = lines(3, 4), q; q.v.push_back(std::vector<int>{0, 1}); World w(p, 4), o(q, 4); int how = sym_choice("how", 4); Net* s = new Net; s->init(w.e); Net* r; switch (how) { case 0: r = new Net(*s); break; case 1: r = new Net; *r = *s; break; case 2: r = new Net(o.e); *r = *s; break; default: r = new Net(o.e); r->init(w.e); } for (size_t i = 0; i < s->numElems(); i++) sym_check(s->elem(i) != r->elem(i), "nodes-of-its-own"); if (sym_choice("mark", 2)) s->elem(0)->markVisited(); delete s; compare(*r, p, w); components(*r, p, w); Net& self = *r; *r = self; compare(*r, p, w); delete r;
}
// Two tetrahedra that share a face: base corners 0 to 3, the free apex anywhere beyond the face.
static const double B[4][3] = {{0, 0, 0}, {3, 0, 0}, {0, 3, 0}, {0, 0, 3}};
static const int perm4[24][4] = {{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},{2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
struct Pair { Pts<Real> c; Tet4 *a, *b; int face[3], opp; List e; };
static bool posVol(const CoordR3** v) { CVecR3 a = v[1]->pos() - v[0]->pos(), b = v[2]->pos() - v[0]->pos(), c = v[3]->pos() - v[0]->pos(); return (a ^ b).dot(c) > 0; }
static void make(Pair& w, bool symbolic, int orders, int turns) {
    w.opp = sym_choice("opposite", 4); for (int i = 0, n = 0; i < 4; i++) if (i != w.opp) w.face[n++] = i; for (int i = 0; i < 4; i++) w.c.c.push_back(new CoordR3(CoordId(10 * i + 10), CVecR3(B[i][0], B[i][1], B[i][2]))); CVecR3 top; if (w.opp == 0) top = CVecR3(2, 3, 4); else { top = CVecR3(0.5, 0.75, 0.25); top(w.opp - 1) = -2; } if (symbolic) top(w.opp == 0 ? 0 : w.opp - 1) += symr("lift", -1, 1); long id = symi("id", 11, 99); sym_assume(id % 10 != 0); w.c.c.push_back(new CoordR3(CoordId(id), top));
    int p = sym_choice("order", orders), q = sym_choice("turn", turns); if (orders == 6) p = (p * 5 + 1) % 24; const CoordR3* v[4]; for (int i = 0; i < 4; i++) v[i] = w.c.c[perm4[p][i]]; if (!posVol(v)) std::swap(v[0], v[1]); w.a = new Tet4(ElemId(5), v); const CoordR3* u[4] = {w.c.c[w.face[0]], w.c.c[w.face[1]], w.c.c[w.face[2]], w.c.c[4]}; if (q & 1) std::swap(u[0], u[3]); if (q & 2) std::swap(u[1], u[3]); if (q & 4) std::swap(u[1], u[2]); if (!posVol(u)) std::swap(u[0], u[1]); w.b = new Tet4(ElemId(2), u);
}
static bool isShared(const Pair& w, const VolR* t, size_t f) { int n = 0; for (int i = 0; i < 3; i++) for (auto* c : t->getSideCoordinates(f)) n += c == w.c.c[w.face[i]]; return n == 3; }
ENTRY p18_tets() {
    Pair w; make(w, true, THOROUGH ? 24 : 6, 6); bool swap = sym_choice("swap", 2); if (swap) { w.e.add(w.b); w.e.add(w.a); } else { w.e.add(w.a); w.e.add(w.b); } Graph::Connectivities k(w.e); sym_check(k.size() == 2, "one-node-per-element"); const VolR* t[2] = {w.a, w.b}; for (int i = 0; i < 2; i++) for (size_t f = 0; f < 4; f++) { Face me(t[i], f), n = k.getNeighFace(me); if (isShared(w, t[i], f)) { sym_check(n.first == t[1 - i] && isShared(w, n.first, n.second), "matching-face"); sym_check(k.getNeighFace(n) == me, "and-back"); sym_check(!k.isDomainBoundary(me), "not-on-the-boundary"); sym_check(same(t[i]->getSideNormal(f), -CVecR3(t[1 - i]->getSideNormal(n.second))) || !(t[i]->getSideNormal(f) == t[1 - i]->getSideNormal(n.second)), "normals-oppose"); sym_reach("inner"); } else { sym_check(n == Face(nullptr, 0), "no-face-beyond-the-boundary"); sym_check(k.isDomainBoundary(me), "on-the-boundary"); sym_reach("boundary"); } sym_check(k.getNeighSurf(me) == 0, "no-surface"); }
    sym_check(k.existsReciprocity(), "reciprocal"); sym_check(k.isDomainBoundary(Face(nullptr, 0)), "nothing-is-outside");
}
ENTRY p18_surface() {
    Pair w; make(w, false, THOROUGH ? 24 : 6, THOROUGH ? 6 : 1); int which = sym_choice("which", 3), turn = sym_choice("orientation", 6); static const int P3[6][3] = {{0,1,2},{1,2,0},{2,0,1},{0,2,1},{2,1,0},{1,0,2}}; const CoordR3* s[3]; std::vector<const CoordR3*> base; if (which == 2) { w.c.c.push_back(new CoordR3(CoordId(100), CVecR3(9, 9, 9))); base = {w.c.c[0], w.c.c[4], w.c.c[5]}; } else if (which == 1) { base = {w.c.c[w.opp], w.c.c[w.face[0]], w.c.c[w.face[1]]}; } else base = {w.c.c[w.face[0]], w.c.c[w.face[1]], w.c.c[w.face[2]]}; for (int i = 0; i < 3; i++) s[i] = base[P3[turn][i]]; Tri3* t = new Tri3(ElemId(9), s); int pos = sym_choice("position", 3); for (int i = 0; i < 3; i++) { if (i == pos) w.e.add(t); if (i == 0) w.e.add(w.a); if (i == 1) w.e.add(w.b); } Graph::Connectivities src(w.e); Graph::Connectivities* held = 0; const Graph::Connectivities* use = &src; int copied = THOROUGH ? sym_choice("copied", 3) : (pos + turn) % 3; if (copied) { Graph::Connectivities* tmp = new Graph::Connectivities(w.e); if (copied == 1) held = new Graph::Connectivities(*tmp); else { List one; one.add(w.a); held = new Graph::Connectivities(one); *held = *tmp; *held = *held; } delete tmp; use = held; } const Graph::Connectivities& k = *use; Face in = k.getInnerFace(t), out = k.getOuterFace(t);
    auto match = [&](Face f) { int n = 0; if (f.first) for (auto* c : f.first->getSideCoordinates(f.second)) for (auto* x : base) n += c == x; return n == 3; };
    if (which == 0) { sym_check(match(in) && match(out) && in.first != out.first, "one-face-on-each-side"); sym_check(in.first && in.first->getSideNormal(in.second) == t->getNormal(), "inner-face-looks-along-the-normal"); sym_check(!k.isDomainBoundary(t), "inside-the-domain"); sym_reach("inner"); } else if (which == 1) { sym_check(match(in) && in.first == w.a, "only-volume-is-inner"); sym_check(out == Face(nullptr, 0), "nothing-outside"); sym_check(k.isDomainBoundary(t), "on-the-boundary"); sym_reach("boundary"); } else { sym_check(in == Face(nullptr, 0) && out == Face(nullptr, 0), "touches-no-volume"); sym_check(k.isDomainBoundary(t), "on-the-boundary"); sym_reach("lone"); }
    const VolR* v[2] = {w.a, w.b}; for (int i = 0; i < 2; i++) for (size_t f = 0; f < 4; f++) sym_check((k.getNeighSurf(Face(v[i], f)) == t) == match(Face(v[i], f)), "surface-on-the-face"); sym_check(k.existsReciprocity(), "reciprocal"); delete held;
}
ENTRY p18_chain() {
    Pair w; make(w, true, 6, THOROUGH ? 6 : 1); int f = sym_choice("third", 4); const CoordR3* v[4]; for (int i = 0; i < 4; i++) v[i] = w.b->getV(i); sym_assume(v[f] != w.c.c[4]); CVecR3 mid; for (int i = 0; i < 4; i++) if (i != f) mid = mid + v[i]->pos(); mid = mid / 3.0; w.c.c.push_back(new CoordR3(CoordId(100), mid + (mid - w.b->getV(f)->pos()))); v[f] = w.c.c.back(); std::swap(v[(f + 1) % 4], v[(f + 2) % 4]); Tet4* t = new Tet4(ElemId(7), v); int ord = sym_choice("order3", 3); const ElemR* all[3] = {w.a, w.b, t}; for (int i = 0; i < 3; i++) w.e.add(const_cast<ElemR*>(all[(i + ord) % 3])); Graph::Connectivities k(w.e); const VolR* x[3] = {w.a, w.b, t}; int inner = 0; for (int i = 0; i < 3; i++) for (size_t s = 0; s < 4; s++) { Face me(x[i], s), n = k.getNeighFace(me); Face want(nullptr, 0); for (int j = 0; j < 3; j++) if (j != i) for (size_t q = 0; q < 4; q++) { int c = 0; for (auto* a : x[i]->getSideCoordinates(s)) for (auto* b : x[j]->getSideCoordinates(q)) c += a == b; if (c == 3) want = Face(x[j], q); } sym_check(n == want, "neighbour-across-each-face"); inner += n.first != 0; sym_check(k.isDomainBoundary(me) == (want.first == 0), "boundary-iff-no-neighbour"); } sym_check(inner == 4, "two-shared-faces"); sym_check(k.existsReciprocity(), "reciprocal");
}
ENTRY p18_hexes() {
    int ax = sym_choice("axis", 3); double gap = symr("gap", 0.5, 3); CoordR3Group cg; CVecR3 hi(1, 1, 1), lo2(0, 0, 0), hi2(1, 1, 1); lo2(ax) = 1; hi2(ax) = 1 + gap; HexR8* a = new HexR8(cg, ElemId(4), BoxR3(CVecR3(0, 0, 0), hi)); HexR8* b = new HexR8(cg, ElemId(8), BoxR3(lo2, hi2)); CVecR3 p(0, 0, 0); p(ax) = 1; QuaR4* q = new QuaR4(cg, ElemId(1), BoxR3(p, hi)); List e; e.add(a); e.add(q); e.add(b); Graph::Connectivities k(e); const VolR* v[2] = {a, b}; int n = 0; for (int i = 0; i < 2; i++) for (size_t f = 0; f < 6; f++) { Face me(v[i], f), o = k.getNeighFace(me); bool on = true; for (auto* c : v[i]->getSideCoordinates(f)) on = on && c->pos()(ax) == 1; sym_check((o.first != 0) == on, "shared-face-only"); if (on) { n++; sym_check(o.first == v[1 - i] && k.getNeighFace(o) == me, "matching-face"); } sym_check((k.getNeighSurf(me) == q) == on, "surface-on-the-face"); } sym_check(n == 2, "one-shared-face"); Face in = k.getInnerFace(q), out = k.getOuterFace(q); sym_check(in.first && out.first && in.first != out.first && k.getNeighFace(in) == out && in.first->getSideNormal(in.second) == q->getNormal(), "a-face-on-each-side"); sym_check(!k.isDomainBoundary(q) && k.existsReciprocity(), "reciprocal");
}

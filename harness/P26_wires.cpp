// @property P26
// @bounds networks of up to 4 lines (5 thorough) of wires, wires with extremes of their own, connectors and other materials over up to 5 coordinates with any positions: chains, rings, stars and branches in every listed direction, layer and order of the lines, in structured and unstructured meshes
// @assume connectors are at the ends of wires and point at them, or go on in the direction of the wire before them; rings have three lines or more
// @entry p26_wires shards=4 reach=one,several
// @entry p26_layers shards=2
// @entry p26_connectors shards=4 reach=both,left,right
// @entry p26_onward
// @entry p26_junction shards=2
// @entry p26_ring reach=forward,backward
// @entry p26_refused
// @entry p26_extremes reach=joined,apart
// @entry p26_structured
// @entry p26_parameters
// @entry p26_others
#include "elems.h"
#include "Data.h"
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/wire/Wire.h"
#include "util/wire/Group.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
namespace PM = SEMBA::PhysicalModel; namespace MP = SEMBA::PhysicalModel::Multiport;
enum { NOMAT = 0, W1 = 1, W2 = 2, C3 = 3, C4 = 4, E5 = 5, PEC6 = 6, E7 = 7 };
struct Par { double r, R, L; };
struct Net { int n; long ids[6]; int a[6], b[6], mat[6], lay[6], pos[6]; CVecR3 p[6]; CVecI3 q[6]; Par par; bool rev() const { return false; }
    Net() { n = 0; par.r = 0.01; par.R = 2; par.L = 3; for (int i = 0; i < 6; i++) { ids[i] = 11 + 10 * ((i * 2 + 1) % 7); p[i] = CVecR3(10.0 * i, 0.0, 0.0); q[i] = CVecI3(i, 0, 0); } }
    void add(int x, int y, int m, int l = 1) { a[n] = x; b[n] = y; mat[n] = m; lay[n] = l; pos[n] = n; n++; } 
    // the order the lines have in the mesh
    void order(const char* nm, bool all) { int left[6], k = n; for (int i = 0; i < n; i++) left[i] = i; for (int i = 0; i < n; i++) { int c = k > 1 ? (all || i == 0 ? sym_choice(nm, k) : (i % 2 ? k - 1 : 0)) : 0; pos[i] = left[c]; for (int j = c; j + 1 < k; j++) left[j] = left[j + 1]; k--; } } 
    long id(int i) const { return ids[i]; } };
static void places(Net& t) { for (int i = 0; i < 6; i++) { t.p[i] = CVecR3(10.0 * i + symr(nm("x", i), 0, 9), symr(nm("y", i), -9, 9), 1.0); t.ids[i] = 10 * (1 + (i * 2 + 1) % 7) + symi(nm("id", i), 0, 9); } t.par.r = symr("r", 0.001, 1); t.par.R = symr("R", 0, 1e6); t.par.L = symr("L", 0, 1e6); }
static const std::string NAME[8] = {"", "w", "v", "c", "d", "e", "metal", "f"};
static PM::Group<>* models(const Net& t) {
    PM::Group<>* g = new PM::Group<>; PM::Wire::Wire w(MatId(E5), NAME[E5], t.par.r, t.par.R, t.par.L), f(MatId(E7), NAME[E7], t.par.r, t.par.R, t.par.L); MP::Predefined s(MatId(8), "s", MP::Multiport::shortCircuit), o(MatId(9), "o", MP::Multiport::openCircuit);
    PM::Wire::Extremes* e = new PM::Wire::Extremes(NAME[E5], w, &s, &o); PM::Wire::Extremes* e7 = new PM::Wire::Extremes(NAME[E7], f, &o, 0);
    g->add(new PM::Wire::Wire(MatId(W2), NAME[W2], t.par.r * 2, t.par.R + 1, t.par.L + 2)); g->add(new MP::Predefined(MatId(C3), NAME[C3], MP::Multiport::shortCircuit)); g->add(new PM::Wire::Wire(MatId(W1), NAME[W1], t.par.r, t.par.R, t.par.L)); g->add(new MP::RLC(MatId(C4), NAME[C4], MP::Multiport::sRLC, 50, 1, 2)); g->add(e); g->add(e7); g->add(new PM::Predefined::PEC(MatId(PEC6), NAME[PEC6])); return g;
}
static const PM::PhysicalModel* mat(const PM::Group<>& g, int m) { return m ? g.getId(MatId(m)) : 0; }
template<class T> struct Kind;
template<> struct Kind<Real> { typedef CoordR3Group CG; typedef ElemRGroup EG; typedef LinR2 L; static CVecR3 at(const Net& t, int i) { return t.p[i]; } static Mesh::Mesh* mesh(const CG& c, const EG& e, const Layer::Group<>& l) { return new Mesh::Unstructured(c, e, l); } };
template<> struct Kind<Int> { typedef CoordI3Group CG; typedef ElemIGroup EG; typedef LinI2 L; static CVecI3 at(const Net& t, int i) { return t.q[i]; } static Mesh::Mesh* mesh(const CG& c, const EG& e, const Layer::Group<>& l) { std::vector<Real> p[3]; for (int d = 0; d < 3; d++) for (int i = 0; i < 7; i++) p[d].push_back(i); return new Mesh::Structured(Grid3(p), c, e, l); } };
template<class T> static void build(const Net& t, Data& d) {
    d.physicalModels = models(t); typename Kind<T>::CG c; typename Kind<T>::EG e; Layer::Group<> l; const Coordinate::Coordinate<T,3>* at[6]; for (int i = 0; i < 6; i++) { auto* x = new Coordinate::Coordinate<T,3>(CoordId(20 - 2 * i), Kind<T>::at(t, i)); at[i] = x; c.add(x); }
    Layer::Layer* ly[3] = {0, new Layer::Layer(Layer::Id(1), "one"), new Layer::Layer(Layer::Id(2), "two")}; l.add(ly[1]); l.add(ly[2]);
    for (int k = 0; k < t.n; k++) { int i = t.pos[k]; const Coordinate::Coordinate<T,3>* v[2] = {at[t.a[i]], at[t.b[i]]}; e.add(new typename Kind<T>::L(ElemId(t.id(i)), v, ly[t.lay[i]], mat(*d.physicalModels, t.mat[i]))); }
    d.mesh = Kind<T>::mesh(c, e, l);
}
static bool conn(int m) { return m == C3 || m == C4; }
static bool own(int m) { return m == E5 || m == E7; }
static bool wire(int m) { return m == W1 || m == W2 || own(m); }
static bool used(int m) { return conn(m) || wire(m); }
// whether the lines i and j go on into each other at coordinate c
static bool joined(const Net& t, int i, int j, int c) {
    int k = 0; for (int x = 0; x < t.n; x++) if (used(t.mat[x]) && (t.a[x] == c || t.b[x] == c)) k++; if (k != 2) return false; if (t.lay[i] != t.lay[j]) return false;
    bool li = t.a[i] == c, lj = t.a[j] == c; if (wire(t.mat[i]) && wire(t.mat[j])) return t.mat[i] == t.mat[j] && li != lj;
    if (own(t.mat[i]) || own(t.mat[j])) return false; return true;
}
struct Parts { int of[6], n; };
static Parts parts(const Net& t) { Parts p; for (int i = 0; i < t.n; i++) p.of[i] = used(t.mat[i]) ? i : -1; for (int r = 0; r < t.n; r++) for (int i = 0; i < t.n; i++) for (int j = 0; j < t.n; j++) if (i != j && p.of[i] >= 0 && p.of[j] >= 0) for (int c = 0; c < 6; c++) if ((t.a[i] == c || t.b[i] == c) && (t.a[j] == c || t.b[j] == c) && joined(t, i, j, c)) { int m = p.of[i] < p.of[j] ? p.of[i] : p.of[j]; p.of[i] = p.of[j] = m; } p.n = 0; for (int i = 0; i < t.n; i++) p.n += p.of[i] == i; return p; }
template<class T> static bool at(const Coordinate::Coordinate<T,3>* v, const Net& t, int i) { return v->getId() == CoordId(20 - 2 * i) && same(v->pos(), Kind<T>::at(t, i)); }
static bool copyOf(const MP::Multiport* x, const Data& d, int m) { if (!m) return x == 0; if (!x) return false; const PM::PhysicalModel* o = mat(*d.physicalModels, m); if ((const PM::PhysicalModel*)x == o || x->getId() != o->getId() || x->getName() != o->getName() || x->getType() != o->castTo<MP::Multiport>()->getType()) return false; return m != C4 || (x->is<MP::RLC>() && x->castTo<MP::RLC>()->getR() == 50 && x->castTo<MP::RLC>()->getL() == 1 && x->castTo<MP::RLC>()->getC() == 2); }
template<class T> static void verify(const Net& t, const Data& d, SEMBA::Util::Wire::Group<T>& g) {
    Parts p = parts(t); sym_check(g.numberOfWires() == (size_t)p.n, "one-wire-for-each-chain"); if (g.numberOfWires() != (size_t)p.n) return; bool seen[6] = {0, 0, 0, 0, 0, 0}; std::vector<std::string> names;
    for (size_t w = 0; w < g.numberOfWires(); w++) {
        const std::vector<ElemId>& ids = g.getIdsOfWire(w); const std::vector<bool>& rv = g.getRevOfWire(w); const Element::Polyline<T>* pl = g.getWire(w); size_t n = ids.size(); sym_check(n > 0 && rv.size() == n && pl->numberOfCoordinates() == n + 1, "as-long-as-its-lines"); if (n == 0 || rv.size() != n || pl->numberOfCoordinates() != n + 1) return;
        int ln[6]; bool ok = true; for (size_t k = 0; k < n; k++) { ln[k] = -1; for (int i = 0; i < t.n; i++) if (ids[k] == ElemId(t.id(i))) ln[k] = i; ok = ok && ln[k] >= 0 && !seen[ln[k]]; if (ln[k] >= 0) seen[ln[k]] = true; } sym_check(ok, "every-line-once"); if (!ok) return;
        size_t cnt = 0; for (int i = 0; i < t.n; i++) cnt += p.of[i] >= 0 && p.of[i] == p.of[ln[0]]; for (size_t k = 0; k < n; k++) ok = ok && p.of[ln[k]] == p.of[ln[0]]; sym_check(ok && cnt == n, "all-the-lines-of-its-chain");
        bool fw = true, bw = true, rfw = true, rbw = true; for (size_t k = 0; k < n; k++) { int i = ln[k]; bool u = at(pl->getV(k), t, t.a[i]) && at(pl->getV(k + 1), t, t.b[i]), v = at(pl->getV(k), t, t.b[i]) && at(pl->getV(k + 1), t, t.a[i]); fw = fw && (u || v); rfw = rfw && rv[k] == v; size_t z = n - 1 - k; u = at(pl->getV(z), t, t.a[i]) && at(pl->getV(z + 1), t, t.b[i]); v = at(pl->getV(z), t, t.b[i]) && at(pl->getV(z + 1), t, t.a[i]); bw = bw && (u || v); rbw = rbw && rv[k] == v; }
        sym_check(fw || bw, "runs-along-its-lines"); sym_check((fw && rfw) || (bw && rbw), "lines-turned-round"); bool along = true; int wm = 0, first = 0, last = 0; for (size_t k = 0; k < n; k++) { int i = ln[k]; if (wire(t.mat[i])) { wm = t.mat[i]; along = along && !rv[k]; } else { bool e0 = at(pl->getV(0), t, t.a[i]) || at(pl->getV(0), t, t.b[i]), e1 = at(pl->getV(n), t, t.a[i]) || at(pl->getV(n), t, t.b[i]); if (e0) first = t.mat[i]; else if (e1) last = t.mat[i]; } } sym_check(along, "in-the-direction-of-the-wire");
        const PM::Wire::Extremes* m = g.getMat(pl->getMatId()); sym_check((const PM::PhysicalModel*)m == dynamic_cast<const PM::PhysicalModel*>(pl->getModel()) && m->getId() == pl->getMatId(), "its-material"); const PM::Wire::Wire* o = mat(*d.physicalModels, wm)->castTo<PM::Wire::Wire>(); sym_check(m->getRadius() == o->getRadius() && m->getSeriesResistance() == o->getSeriesResistance() && m->getSeriesInductance() == o->getSeriesInductance() && (const PM::PhysicalModel*)m != o, "copy-of-its-wire");
        if (own(wm)) { sym_check(m->getName() == NAME[wm], "name-of-its-own"); const MP::Multiport* x = m->getExtreme(0); const MP::Multiport* y = m->getExtreme(1); if (wm == E5) sym_check(x && y && x->getType() == MP::Multiport::shortCircuit && y->getType() == MP::Multiport::openCircuit, "ends-of-its-own"); else sym_check(x && !y && x->getType() == MP::Multiport::openCircuit, "ends-of-its-own"); }
        else { sym_check(copyOf(m->getExtreme(0), d, first), "connector-at-its-start"); sym_check(copyOf(m->getExtreme(1), d, last), "connector-at-its-end"); int same = 0; for (size_t q = 0; q < names.size(); q++) same += names[q] == m->getName(); sym_check(same == 0 && m->getName().compare(0, NAME[wm].size() + 1, NAME[wm] + "_") == 0, "name-of-its-own"); names.push_back(m->getName()); }
        sym_check(pl->getId() != ElemId(0) && pl->getMatId() != MatId(0), "identified");
        sym_check(pl->getLayerId() == Layer::Id(t.lay[ln[0]]), "layer-of-its-lines"); for (size_t q = 0; q < w; q++) sym_check(g.getWire(q)->getId() != pl->getId() && g.getWire(q)->getMatId() != pl->getMatId(), "distinct-identifiers");
    }
    for (int m = W1; m <= W2; m++) { int k = 0, f = 0; for (size_t q = 0; q < names.size(); q++) k += names[q].compare(0, NAME[m].size() + 1, NAME[m] + "_") == 0; for (int i = 1; i <= k; i++) for (size_t q = 0; q < names.size(); q++) f += names[q] == NAME[m] + "_" + std::to_string(i); sym_check(f == k, "numbered-in-their-names"); }
    for (int i = 0; i < t.n; i++) sym_check(seen[i] == (p.of[i] >= 0), "every-line-once");
}
template<class T> static void run(const Net& t) { Data d; build<T>(t, d); SEMBA::Util::Wire::Group<T> g(d); verify<T>(t, d, g); }
template<class T> static void refused(const Net& t, bool apart = false) { Data d; build<T>(t, d); bool ok = false; std::string w; try { SEMBA::Util::Wire::Group<T> g(d); } catch (const std::logic_error& e) { ok = true; w = e.what(); } sym_check(ok, "refused"); if (apart) sym_check(w.find("Not attached") != std::string::npos && w.find("Normal") == std::string::npos, "reason-given"); }
static void line(Net& t, int i, bool back, int m, int l = 1) { if (back) t.add(i + 1, i, m, l); else t.add(i, i + 1, m, l); }
ENTRY p26_wires() { Net t; places(t); int n = 1 + sym_choice("n", THOROUGH ? 4 : 3); for (int i = 0; i < n; i++) line(t, i, sym_choice(nm("back", i).c_str(), 2), sym_choice(nm("mat", i).c_str(), 2) ? W2 : W1); t.order("order", true); sym_reach(parts(t).n == 1 ? "one" : "several"); run<Real>(t); }
ENTRY p26_layers() { Net t; int n = 3, c = sym_choice("connector", 4); bool back = c ? false : sym_choice("back", 2); // a connector before the wire, after it or going on from it
    for (int i = 0; i < n; i++) line(t, i, back || (c == 2 && i == 2), (c == 1 && i == 0) || (c > 1 && i == 2) ? C3 : W1, 1 + sym_choice(nm("lay", i).c_str(), 2)); if (c != 3) t.order("order", true); if ((c == 1 && t.lay[0] != t.lay[1]) || (c > 1 && t.lay[1] != t.lay[2])) refused<Real>(t); else run<Real>(t); }
static void ends(Net& t, int l, int r, int n, bool back) { int k = 0; if (l) line(t, k++, false, l); for (int i = 0; i < n; i++) line(t, k++, back, W1); if (r) line(t, k++, true, r); sym_reach(l && r ? "both" : l ? "left" : r ? "right" : "none"); }
ENTRY p26_connectors() { Net t; places(t); int l = sym_choice("left", 3), r = sym_choice("right", 3); ends(t, l ? 2 + l : 0, r ? 2 + r : 0, 1 + sym_choice("n", THOROUGH ? 3 : 2), sym_choice("back", 2)); t.order("order", THOROUGH || t.n < 4); run<Real>(t); }
ENTRY p26_onward() { Net t; int n = 1 + sym_choice("n", 2), l = sym_choice("left", 2); if (l) line(t, 0, false, C4); for (int i = 0; i < n; i++) line(t, l + i, false, W2); line(t, l + n, false, C3); run<Real>(t); }
ENTRY p26_junction() { Net t; int n = 3; for (int i = 0; i < n; i++) { bool in = sym_choice(nm("in", i).c_str(), 2); int m = sym_choice(nm("mat", i).c_str(), 2) ? W2 : W1; if (in) t.add(i + 1, 0, m); else t.add(0, i + 1, m); } bool tail = sym_choice("tail", 2); if (tail) t.add(3, 4, W1); t.order("order", !tail); run<Real>(t); }
ENTRY p26_ring() { Net t; int n = THOROUGH ? 3 + sym_choice("n", 3) : 3 + sym_choice("n", 2); bool back = sym_choice("back", 2); for (int i = 0; i < n; i++) if (back) t.add((i + 1) % n, i, W1); else t.add(i, (i + 1) % n, W1); sym_reach(back ? "backward" : "forward"); t.order("order", n == 3); run<Real>(t); }
ENTRY p26_refused() { Net t; int how = sym_choice("how", 4); switch (how) { case 0: t.add(0, 1, C3); break; case 1: t.add(0, 1, C3); t.add(1, 2, W1); t.add(3, 4, C4); break; case 2: t.add(0, 1, C3); t.add(1, 2, E5); break; default: t.add(0, 1, C3); t.add(1, 2, W1); t.add(1, 3, W2); break; } t.order("order", true); refused<Real>(t, how < 2); }
ENTRY p26_extremes() { Net t; places(t); int n = 2 + sym_choice("n", 2); for (int i = 0; i < n; i++) { int m = sym_choice(nm("mat", i).c_str(), 3); line(t, i, sym_choice(nm("back", i).c_str(), 2), m == 0 ? W1 : m == 1 ? E5 : E7); } t.order("order", n == 2); sym_reach(parts(t).n == 1 ? "joined" : "apart"); run<Real>(t); }
ENTRY p26_structured() { Net t; for (int i = 0; i < 6; i++) t.q[i] = CVecI3(i, (int)symi(nm("y", i), 0, 5), 0); int l = sym_choice("left", 2), r = sym_choice("right", 2), n = 1 + sym_choice("n", 2); bool back = sym_choice("back", 2); ends(t, l ? C3 : 0, r ? C4 : 0, n, back); t.order("order", t.n < 4); run<Int>(t); }
ENTRY p26_parameters() { Net t; places(t); static const int M[4] = {W1, W2, E5, W1}; int k = sym_choice("first", 4); for (int i = 0; i < 3; i++) line(t, i, sym_choice("back", 2), M[(i + k) % 4]); run<Real>(t); }
ENTRY p26_others() { Net t; int x = sym_choice("other", 2), where = sym_choice("where", 4); t.add(0, 1, W1); t.add(1, 2, W1); if (where == 0) t.add(1, 3, x ? PEC6 : NOMAT); else if (where == 1) t.add(2, 3, x ? PEC6 : NOMAT); else if (where == 2) t.add(3, 0, x ? PEC6 : NOMAT); else { t.add(1, 3, x ? PEC6 : NOMAT); t.add(3, 4, W2); } t.order("order", true); run<Real>(t); }

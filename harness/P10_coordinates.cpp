// @property P10
// @bounds histories of 2 operations on two coordinates (of symbolic position thorough) out of adding positions (one, or a batch of two, overlapping allowed or not), adding coordinates, removing one or two, replacing, scaling, assigning and clearing, on groups of real, integer and mixed coordinates whose positions are any points of a line of three (histories) or of a 2x3x1 lattice (rest); fractional and conformal coordinates with any cell in [-20,20] and any offset
// @entry p10_real reach=overlap,refused,removed,scaled,replaced shards=8 time=200 ttime=850
// @entry p10_int reach=overlap,refused,removed,replaced shards=8 time=200 ttime=850
// @entry p10_mixed
// @entry p10_allpos shards=4
// @entry p10_ctor
// @entry p10_equality
// @entry p10_fraction
#include "common.h"
#include "geometry/coordinate/Group.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/coordinate/Conformal.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
using namespace SEMBA::Geometry;
typedef CoordId Id;
static int axis = -1;
static CVecI3 spot1(const std::string& n) { CVecI3 v(1, 2, 4); v(axis) = (Int)symi(n, 0, 2); return v; }
static CVecI3 spot(const std::string& n) { CVecI3 v(0, 0, 4); v(0) = (Int)symi(n + "x", 0, 1); v(1) = (Int)symi(n + "y", 0, 2); return v; }
static CVecR3 toR(const CVecI3& v, double s) { CVecR3 r; for (int i = 0; i < 3; i++) r(i) = s * (double)v(i); return r; }
template<class CO> struct Tr;
template<> struct Tr<CoordR3> { typedef CVecR3 V; static CVecR3 v(const CVecI3& p) { return toR(p, 1); } };
template<> struct Tr<CoordI3> { typedef CVecI3 V; static CVecI3 v(const CVecI3& p) { return p; } };
template<class CO> struct Row { CVecI3 p; const CO* c; long id; };
template<class CO> struct Run {
    typedef typename Tr<CO>::V V; Coordinate::Group<CO> g; std::vector<Row<CO> > m; double scale; Run() : scale(1) {}
    V pos(const CVecI3& p) { return mul(Tr<CO>::v(p)); }
    CVecR3 mul(CVecR3 v) { for (int i = 0; i < 3; i++) v(i) = v(i) * scale; return v; }
    CVecI3 mul(CVecI3 v) { return v; }
    bool has(const CVecI3& p) { for (auto& r : m) if (same(r.p, p)) return true; return false; }
    void inv(const char* w0) {
        std::string w(w0); sym_check(g.size() == m.size(), (w + ":size").c_str()); if (g.size() != m.size()) return;
        for (size_t i = 0; i < m.size(); i++) { sym_check(g(i) == m[i].c && (long)g(i)->getId().toInt() == m[i].id, (w + ":order-and-id").c_str()); sym_check(same(g(i)->pos(), pos(m[i].p)), (w + ":position").c_str()); const CO* f = g.getPos(pos(m[i].p)); sym_check(f != 0, (w + ":member-found-by-position").c_str()); if (f) { bool in = false; for (auto& r : m) if (r.c == f) in = same(r.p, m[i].p); sym_check(in, (w + ":found-member-is-at-position").c_str()); } sym_check(g.getId(g(i)->getId()) == g(i), (w + ":found-by-id").c_str()); }
    }
    void probe() { CVecI3 p = spot1("probe"); const CO* f = g.getPos(pos(p)); sym_check((f != 0) == has(p), "probe-found-iff-present"); CVecI3 far(7, 7, 7); sym_check(g.getPos(pos(far)) == 0, "other-plane-absent"); }
    void added(const CVecI3& p, const CO* c) { Row<CO> r = {p, c, (long)c->getId().toInt()}; for (auto& q : m) sym_check(q.id != r.id && q.c != c, "fresh-coordinate-has-fresh-id"); sym_check(r.id != 0, "fresh-id-not-null"); m.push_back(r); }
    void addAt(int k, bool ov) { CVecI3 p(1, 2, 4); p(axis) = k; put(p, ov); }
    void addPos(const std::string& w, bool ov) { put(spot1(w), ov); }
    void put(const CVecI3& p, bool ov) { bool was = has(p); size_t n = g.size(); const CO* c = g.addPos(pos(p), ov); sym_check(c != 0 && same(c->pos(), pos(p)), "returns-coordinate-at-position"); if (!was || ov) { sym_check(g.size() == n + 1, "position-added"); if (was) sym_reach("overlap"); if (g.size() == n + 1) { sym_check(g(n) == c, "returns-the-new-one"); added(p, c); } } else { sym_check(g.size() == n, "position-not-repeated"); sym_reach("refused"); } }
    void batch(const std::string& w, bool ov) { std::vector<V> v; CVecI3 p = spot1(w + "a"), q = spot1(w + "b"); v.push_back(pos(p)); v.push_back(pos(q)); bool ap = ov || !has(p), aq = ov || !has(q); size_t n = g.size(); SEMBA::Group::Group<CO> r = g.addPos(v, ov); size_t e = (ap ? 1 : 0) + (aq ? 1 : 0); sym_check(g.size() == n + e && r.size() == e, "batch-adds-missing-positions"); if (g.size() != n + e || r.size() != e) return; if (ap) { sym_check(r(0) == g(n), "batch-returns-new"); added(p, g(n)); } if (aq) added(q, g(n + (ap ? 1 : 0))); }
    void step(int s, int op) {
        std::string w = nm("s", s);
        switch (op) {
        case 0: addPos(w, false); inv("add"); break;
        case 1: addPos(w, true); inv("add-overlapping"); break;
        case 2: batch(w, sym_bool((w + "ov").c_str()) != 0); inv("batch"); break;
        case 3: { if (m.empty()) return; int k = sym_choice((w + "k").c_str(), (int)m.size()); g.remove((size_t)k); m.erase(m.begin() + k); sym_reach("removed"); inv("remove"); break; }
        case 4: { if (m.size() < 2) return; std::vector<size_t> v; v.push_back(m.size() - 1); v.push_back(0); g.remove(v); m.erase(m.end() - 1); m.erase(m.begin()); inv("remove-two"); break; }
        case 5: { if (m.empty()) return; int k = sym_choice((w + "k").c_str(), (int)m.size()); CVecI3 p = spot1(w); CO* c = new CO(Id(m[k].id + (s == 1 ? 50 : 0)), pos(p)); g.set(k, c); Row<CO> r = {p, c, m[k].id + (s == 1 ? 50 : 0)}; m[k] = r; sym_reach("replaced"); inv("replace"); break; }
        case 6: { CVecI3 p = spot1(w); CO* c = new CO(Id(100 + s), pos(p)); g.add(c); Row<CO> r = {p, c, 100 + s}; m.push_back(r); inv("add-coordinate"); break; }
        case 7: { if (s & 1) { g.clear(); m.clear(); inv("clear"); } else { Coordinate::Group<CO> o; CVecI3 p = spot1(w); const CO* c = o.addPos(pos(p)); m.clear(); Row<CO> r = {p, c, (long)c->getId().toInt()}; m.push_back(r); g = o; inv("assign"); sym_check(o.size() == 1 && o.getPos(pos(p)) == c, "assign-source-kept"); } break; }
        case 8: { double f[3] = {2, 0, -0.5}; int k = sym_choice((w + "f").c_str(), 3); g.applyScalingFactor(f[k]); if (f[k] == 0) { for (auto& r : m) r.p = CVecI3(0, 0, 0); } else scale = scale * f[k]; sym_reach("scaled"); if (f[k] == 0) scale = 1; inv("scale"); break; }
        }
    }
};
template<class CO> static void history(int nops) { axis = sym_choice("axis", 2); Run<CO> r; if (THOROUGH) { r.addPos("a", false); r.addPos("b", true); } else { int o = sym_choice("order", 2); r.addAt(o, false); r.addAt(1 - o, true); } r.inv("start"); int n = 2; for (int s = 0; s < n; s++) r.step(s, sym_choice(nm("op", s).c_str(), nops)); r.probe(); }
ENTRY p10_real() { history<CoordR3>(9); }
ENTRY p10_int() { history<CoordI3>(8); }
ENTRY p10_mixed() {
    Coordinate::Group<> g; CVecI3 p = spot("p"), q = spot("q"); const Coord* a = g.addPos(toR(p, 1)); const Coord* b = g.addPos(p); sym_check(g.size() == 2 && a->is<CoordR3>() && b->is<CoordI3>() && a->getId() != b->getId(), "kinds-do-not-overlap"); sym_check(g.getPos(toR(p, 1)) == a && g.getPos(p) == b, "found-by-kind"); sym_check((g.getPos(toR(q, 1)) != 0) == same(p, q) && (g.getPos(q) != 0) == same(p, q), "absent");
    sym_check(g.sizeOf<CoordR3>() == 1 && g.getOf<CoordI3>().size() == 1, "filters"); g.remove((size_t)sym_choice("k", 2)); sym_check(g.size() == 1 && (g.getPos(toR(p, 1)) != 0) == (g(0) == a) && (g.getPos(p) != 0) == (g(0) == b), "remove-one-kind");
    Coordinate::Group<>* h = g.clone(); sym_check(h->size() == 1 && (*h)(0) != g(0) && *(*h)(0) == *g(0) && h->getId(g(0)->getId()) == (*h)(0), "clone"); const Coord* f = g(0) == a ? (const Coord*)h->getPos(toR(p, 1)) : (const Coord*)h->getPos(p); sym_check(f == (*h)(0), "clone-indexed"); delete h; sym_check(g(0) == (g.getPos(p) ? b : a), "original-kept");
}
static void addReals(CoordI3Group&, int) {}
static void addReals(Coordinate::Group<>& g, int n) { for (int i = 0; i < n; i++) g.add(new CoordR3(CoordId(100 + i), toR(CVecI3(i % 2, 1, 4), 1))); }
static const Coord* addI(CoordI3Group& g, const CVecI3& p, int) { return g.addPos(p, true); }
static const Coord* addI(Coordinate::Group<>& g, const CVecI3& p, int i) { CoordI3* c = new CoordI3(CoordId(i + 1), p); g.add(c); return c; }
template<class G> static void allpos(int reals) { G g; const G& c = g; addReals(g, reals); int n = THOROUGH ? 4 : 3; CVecI3 p[4]; const CoordI3* m[4]; for (int i = 0; i < n; i++) { p[i] = spot(nm("p", i)); m[i] = dynamic_cast<const CoordI3*>(addI(g, p[i], i)); } CVecI3 q = spot("q"); auto r = static_cast<const G&>(c).getAllInPos(q); size_t e = 0; for (int i = 0; i < n; i++) if (same(p[i], q)) { e++; bool in = false; for (size_t k = 0; k < r.size(); k++) if ((const void*)dynamic_cast<const Coord*>(r(k)) == (const void*)dynamic_cast<const Coord*>(m[i])) in = true; sym_check(in, "every-overlapping-coordinate"); } sym_check(r.size() == e, "no-other-coordinate"); }
ENTRY p10_allpos() { int k = sym_choice("group", 4); if (k == 0) allpos<CoordI3Group>(0); else allpos<Coordinate::Group<> >(k - 1); }
ENTRY p10_ctor() {
    std::vector<CVecI3> v; std::vector<CVecR3> w; for (int i = 0; i < 3; i++) { v.push_back(spot(nm("v", i))); w.push_back(toR(v[i], 0.5)); } CoordI3Group gi(v); CoordR3Group gr(w); sym_check(gi.size() == 3 && gr.size() == 3, "all-positions"); for (int i = 0; i < 3; i++) { sym_check(same(gi(i)->pos(), v[i]) && same(gr(i)->pos(), w[i]), "positions-kept"); sym_check(gi(i)->getId() == Id(i + 1) && gr(i)->getId() == Id(i + 1), "numbered-from-one"); sym_check(gi.getPos(v[i]) != 0 && gr.getPos(w[i]) != 0, "indexed"); }
    CoordR3Group g2(gr.get(std::vector<size_t>(1, 1))); sym_check(g2.size() == 1 && g2(0) == gr(1) && g2.getPos(w[1]) == gr(1), "from-selection"); std::vector<CoordR3*> u; u.push_back(new CoordR3(Id(5), w[0])); CoordR3Group g3(u); sym_check(g3.getPos(w[0]) == u[0], "from-pointers"); CoordR3Group g4(new CoordR3(Id(7), w[2])); sym_check(g4.getPos(w[2]) == g4(0), "from-pointer");
}
ENTRY p10_equality() {
    CVecI3 p = spot("p"), q = spot("q"); long i = symi("i", 1, 3), j = symi("j", 1, 3); CoordI3 a(Id(i), p), b(Id(j), q); CoordR3 c(Id(i), toR(p, 1)), d(Id(j), toR(q, 1)); bool e = i == j && same(p, q); sym_check((a == b) == e && (a != b) == !e, "integer-equality"); sym_check((c == d) == e && (c != d) == !e, "real-equality"); sym_check(!(a == c) && a != c && !(c == a), "kinds-differ"); const Coord &ba = a, &bb = b; sym_check((ba == bb) == e && (ba != bb) == !e, "base-equality");
    CoordI3* k = a.clone(); sym_check(*k == a && k != &a, "clone"); *k = b; sym_check(*k == b && k->getId() == Id(j), "assign"); delete k; CoordR3 r(c); sym_check(r == c && r.getId() == c.getId(), "copy"); r = d; sym_check(r == d, "assign-real"); CoordR3 none(toR(q, 1)); r = none; sym_check(r == none && r.getId() == Id(0), "assign-unnumbered"); sym_check(CoordR3(toR(p, 1)).getId() == Id(0), "no-id-by-default");
}
ENTRY p10_fraction() {
    CVecR3 v; for (int i = 0; i < 3; i++) v(i) = symr(nm("v", i), -20, 20); long id = symi("id", 1, 9); Coordinate::Relative a(Id(id), v), b(v); for (int i = 0; i < 3; i++) { double f = a.rel()(i); sym_check(f >= 0 && f < 1, "fraction-in-cell"); sym_check((double)a.pos()(i) + f == v(i), "cell-plus-fraction"); sym_check(b.pos()(i) == a.pos()(i) && b.rel()(i) == f, "same-without-id"); } sym_check(a.getId() == Id(id) && b.getId() == Id(0), "relative-id");
    CVecI3 p = symI3("p", -20, 20), q = symI3("q", -20, 20); Coordinate::Relative c(Id(id), p, CVecR3(0.5, 0, 0.25)), d(Id(id), q, CVecR3(0.5, 0, 0.25)), e(Id(id), p, CVecR3(0.5, 0, 0.5)); sym_check((c == d) == same(p, q) && c != e, "relative-equality"); Coordinate::Relative g(c); sym_check(g == c && g.rel() == c.rel(), "relative-copy"); g = e; sym_check(g == e && g.rel()(2) == 0.5 && same(g.pos(), p), "relative-assign");
    double l = symd("l", 0, 1, 8), l2 = symd("l2", 0, 1, 8); int x = sym_choice("x", 3), y = sym_choice("y", 3); Coordinate::Conformal s(Id(id), p, Constants::CartesianAxis(x), l), t(Id(id), q, Constants::CartesianAxis(y), l2); sym_check((s == t) == (same(p, q) && x == y && l == l2), "conformal-equality"); sym_check(s.getDir() == x && s.getLength() == l && same(s.pos(), p) && s.getId() == Id(id), "conformal-kept"); Coordinate::Conformal u(s); sym_check(u == s, "conformal-copy"); u = t; sym_check(u == t && u.getDir() == y && u.getLength() == l2, "conformal-assign"); Coordinate::Conformal* k = s.clone(); sym_check(*k == s, "conformal-clone"); delete k; sym_check(!(c == s) && !(s == c), "kinds-differ");
}

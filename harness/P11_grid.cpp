// @property P11
// @bounds grids with 1 to 3 cells (4 thorough) along each axis, first line anywhere in [-50,50], steps in [0.1,20] ([0.5,20] for cell search) all different or equal; query points in [-100,100]; enlargements whose padding is up to 3.5 boundary cells of equal size, and nine concrete graded enlargements; construction from boxes with 1 to 3 cells, and of 1 to 12 (60 thorough) decimal or fitted steps as rounded in binary
// @assume cells graded by the geometric progression of enlargements with larger cells are decided for listed sizes only: their logarithms and powers are not encoded
// @entry p11_cell reach=inside,below,above time=150 shards=3
// @entry p11_cellvec
// @entry p11_natural reach=inside,below,above
// @entry p11_fraction reach=inside,outside
// @entry p11_iscell reach=yes,no
// @entry p11_range
// @entry p11_centres
// @entry p11_positions
// @entry p11_steps reach=regular,irregular
// @entry p11_box
// @entry p11_ctor_step reach=exact,rounded time=120
// @entry p11_ctor_decimal
// @entry p11_ctor_dims
// @entry p11_add
// @entry p11_enlarge time=150 shards=2 reach=ignored,enlarged
// @entry p11_graded
// @entry p11_set
#include "common.h"
#include "geometry/Grid.h"
#include <stdexcept>
#ifndef THOROUGH
#define THOROUGH 0
#endif
using namespace SEMBA::Geometry;
typedef std::vector<Real> VR;
static VR line(const std::string& n, int cells, double o, double lo = 0.1, double hi = 20) { VR v; double x = o; v.push_back(x); for (int i = 0; i < cells; i++) { x = x + symr(n + nm("s", i), lo, hi); v.push_back(x); } return v; }
static VR conc(int cells, double o, double s) { VR v; for (int i = 0; i <= cells; i++) v.push_back(o + i * s); return v; }
static int ncell() { return 1 + sym_choice("cells", THOROUGH ? 4 : 3); }
static Grid3 mk(const VR& a, int d, const VR& b, const VR& c) { VR p[3]; p[d] = a; p[(d + 1) % 3] = b; p[(d + 2) % 3] = c; return Grid3(p); }
static double step(const VR& p, int i) { return p[i + 1] - p[i]; }
ENTRY p11_cell() {
    int n = ncell(), d = sym_choice("d", 3); VR p = line("a", n, symr("o", -50, 50), 0.5); Grid3 g = mk(p, d, conc(1, 0, 1), conc(2, -3, 2)); double x = symr("x", -100, 100); bool approx = sym_bool("approx"); bool err = false; std::pair<Int, Real> c = g.getCellPair(d, x, approx, 0.01, &err); double tl = 0.0101 * step(p, 0), th = 0.0101 * step(p, n - 1);
    sym_check(c.first >= 0 && c.first <= n, "cell-in-grid"); if (x < p[0] - tl) { sym_reach("below"); sym_check(err && c.first == 0, "below-grid"); return; } if (x > p[n] + th) { sym_reach("above"); sym_check(err && c.first == n, "above-grid"); return; } if (err) { sym_check((x < p[0] || x > p[n]) && (c.first == 0 || c.first == n), "error-only-outside"); return; } sym_reach("inside"); sym_check(g.getCell(d, x, approx, 0.01) == c.first, "cell-alone");
    if (c.first < 0 || c.first > n) return; for (int i = 0; i <= n; i++) if (c.first == i) {
        double s = i > 0 ? step(p, i - 1) : step(p, 0), t = i < n ? step(p, i) : step(p, n - 1), mx = s > t ? s : t; if (c.second == 0) { sym_check(ab(x - p[i]) <= 0.0101 * mx, "on-line-within-tolerance"); } else if (c.second > 0) { sym_check(i < n && x > p[i] && x < p[i < n ? i + 1 : n], "between-lines"); sym_check_close(c.second * t, x - p[i], 1e-6, "distance-in-cells"); if (approx) sym_check(c.second <= 0.500001, "nearest-line"); else sym_check(c.second < 1, "fraction-below-one"); } else { sym_check(approx && i > 0 && x < p[i] && x > p[i > 0 ? i - 1 : 0], "approximated-from-below"); sym_check_close(c.second * s, x - p[i], 1e-6, "negative-distance-in-cells"); sym_check(c.second >= -0.500001, "nearest-line-from-below"); } }
}
ENTRY p11_cellvec() {
    VR p[3]; for (int d = 0; d < 3; d++) p[d] = line(nm("a", d), d == 1 ? 1 : 2, d - 1); Grid3 g(p); CVecR3 x = symR3("x", -60, 60); bool err, e[3]; std::pair<CVecI3, CVecR3> c = g.getCellPair(x, false, 0.01, &err); for (int d = 0; d < 3; d++) { std::pair<Int, Real> k = g.getCellPair(d, x(d), false, 0.01, &e[d]); sym_check(c.first(d) == k.first && c.second(d) == k.second, "componentwise"); } sym_check(err == (e[0] || e[1] || e[2]), "error-if-any"); bool e2; CVecI3 f = g.getCell(x, false, 0.01, &e2); sym_check(same(f, c.first) && e2 == err, "cell-vector"); CVecI3 id(4, -1, 7); sym_check(same(g.getCell(id), id), "cell-of-cell"); sym_check(same(g.getPos(x), x), "position-of-position");
}
ENTRY p11_natural() {
    int n = ncell(), d = sym_choice("d", 3); VR p = line("a", n, symr("o", -50, 50)); Grid3 g = mk(p, d, conc(1, 0, 1), conc(2, -3, 2)); double x = symr("x", -100, 100); long i = -7; Real l = 9; bool in = g.getNaturalCell(Constants::CartesianAxis(d), x, i, l); sym_check(in == (x >= p[0] && x < p[n]), "inside-flag"); sym_check(g.isInto(d, x) == (x >= p[0] && x <= p[n]), "into");
    if (!in) { sym_check(i == (x < p[0] ? 0 : n) && l == -1, "outside-cell"); if (x < p[0]) sym_reach("below"); else sym_reach("above"); return; } sym_reach("inside"); for (int k = 0; k < n; k++) if (x >= p[k] && x < p[k + 1]) { sym_check(i == k, "containing-cell"); sym_check_close(l * step(p, k), x - p[k], 1e-6, "relative-length"); } sym_check(l >= 0 && l < 1, "relative-range");
}
ENTRY p11_fraction() {
    VR p[3]; for (int d = 0; d < 3; d++) p[d] = line(nm("a", d), d == 2 ? 1 : 2, 3 * d + 1); Grid3 g(p); CVecR3 x(0, 0, 0); for (int d = 0; d < 3; d++) x(d) = symr(nm("x", d), -10, 60); for (int d = 0; d < 3; d++) sym_assume(x(d) >= p[d].front() || x(d) < p[d].front() - 1e-6); for (int d = 0; d < 3; d++) sym_assume(x(d) <= p[d].back() || x(d) > p[d].back() + 1e-6);
    bool in = false; CVecI3Fractional f = g.getCVecI3Fractional(x, in); sym_check(in == g.isInto(x), "inside-flag"); if (!in) { sym_reach("outside"); return; } sym_reach("inside"); for (int d = 0; d < 3; d++) { Int i = f(d); double l = f.len_(d); int n = (int)p[d].size() - 1; sym_check(i >= 0 && i <= n && l >= 0 && l < 1, "fraction-range"); for (int k = 0; k <= n; k++) if (i == k) { if (k == n) sym_check(l == 0 && ab(x(d) - p[d][n]) < 1e-6, "on-last-line"); else sym_check_close(p[d][k] + l * step(p[d], k), x(d), 1e-5, "same-point"); } }
}
ENTRY p11_iscell() {
    VR p[3]; for (int d = 0; d < 3; d++) p[d] = line(nm("a", d), d == 0 ? 2 : 1, 2 + d, 1, 10); Grid3 g(p); CVecR3 x(2, 3, 4); int d = sym_choice("d", 3), k = sym_choice("k", d == 0 ? 3 : 2); double s = symr("off", -0.5, 0.5); x(d) = p[d][k] + s; double lo = k > 0 ? step(p[d], k - 1) : step(p[d], 0), up = lo; bool c = g.isCell(x); if (ab(s) <= 0.0099 * lo) { sym_check(c, "line-within-tolerance-is-cell"); sym_reach("yes"); } if (s > 0.0101 * up && s > 0.0101 * (k < (int)p[d].size() - 1 ? step(p[d], k) : lo) && k < (int)p[d].size() - 1) { sym_check(!c, "off-line-is-not-cell"); sym_reach("no"); } if (s < -0.0101 * lo) sym_check(!c, "below-line-is-not-cell");
    std::vector<CVecR3> v(1, CVecR3(2, 3, 4)); sym_check(g.isCell(v), "origin-is-cell"); v.push_back(x); sym_check(g.isCell(v) == c, "all-of-them"); sym_check(g.isCell(x, 1e-9) == (ab(s) <= 1e-9 * lo) || ab(s) <= 1e-8 * 10, "own-tolerance");
}
ENTRY p11_range() { int n = 3; VR p = line("a", n, 1 + symr("o", 0, 50), 1, 20); Grid3 g = mk(p, 1, conc(1, 0, 1), conc(1, 0, 1)); double lo = symr("lo", 0.5, 100), hi = symr("hi", 0.5, 100); sym_assume(lo <= hi); VR r = g.getPosInRange(1, lo, hi); size_t k = 0; for (int i = 0; i <= n; i++) { double s = i < n ? step(p, i) : step(p, n - 1); bool must = p[i] >= lo - 0.0099 * s && p[i] <= hi + 0.0099 * s, may = p[i] >= lo - 0.0101 * s && p[i] <= hi + 0.0101 * s; bool is = k < r.size() && r[k] == p[i]; if (is) k++; if (must) sym_check(is, "lines-in-range-listed"); if (!may) sym_check(!is, "lines-out-of-range-not-listed"); } sym_check(k == r.size(), "only-grid-lines-in-order"); }
ENTRY p11_centres() {
    VR p = line("a", 2, 5, 1, 10), q = conc(2, 1, 2), r = conc(1, 3, 4); Grid3 g = mk(p, 0, q, r); BoxR3 all = g.getFullDomainBoundingBox(); std::vector<CVecR3> c = g.getCenterOfCellsInside(all); sym_check(c.size() == 4, "one-per-cell"); size_t k = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2 && k < c.size(); j++, k++) { sym_check_close(c[k](0), (p[i] + p[i + 1]) / 2, 1e-9, "centre-x"); sym_check(c[k](1) == 2 + 2 * j && c[k](2) == 5, "centre-yz"); }
    CVecR3 lo = all.getMin(), hi = all.getMax(); lo(0) = symr("lo", 4, 30); hi(0) = symr("hi", 4, 30); sym_assume(lo(0) <= hi(0)); std::vector<CVecR3> s = g.getCenterOfCellsInside(BoxR3(lo, hi)); size_t m = 0; for (int i = 0; i < 2; i++) { bool in = p[i] >= lo(0) && p[i + 1] <= hi(0); if (in) m += 2; } sym_check(s.size() >= m, "cells-inside-listed"); for (auto& x : s) { bool in = false; for (int i = 0; i < 2; i++) if (ab(x(0) - (p[i] + p[i + 1]) / 2) < 1e-6) in = p[i] >= lo(0) - 0.02 * 10 && p[i + 1] <= hi(0) + 0.02 * 10; sym_check(in, "only-cells-inside"); }
}
ENTRY p11_positions() {
    VR p[3]; int n[3]; for (int d = 0; d < 3; d++) { n[d] = d == 0 ? 1 + sym_choice("n", 2) : d; p[d] = line(nm("a", d), n[d], symr(nm("o", d), -50, 50)); } Grid3 g(p); std::vector<CVecR3> v = g.getPos(); sym_check((int)v.size() == (n[0] + 1) * (n[1] + 1) * (n[2] + 1), "all-nodes"); size_t k = 0; CVecI3 nc = g.getNumCells(); for (int d = 0; d < 3; d++) { sym_check(nc(d) == n[d], "cells"); sym_check(g.getOrigin()(d) == p[d][0], "origin"); VR s = g.getStep(d), l = g.getPos(d); sym_check((int)s.size() == n[d] && (int)l.size() == n[d] + 1, "line-count"); for (int i = 0; i < n[d]; i++) sym_check(s[i] == step(p[d], i) && g.getStep(d, i) == s[i] && l[i] == p[d][i] && g.getPos(d, i) == p[d][i], "lines-and-steps"); } sym_check(same(g.getOffset(), CVecI3(0, 0, 0)), "no-offset");
    for (int i = 0; i <= n[0]; i++) for (int j = 0; j <= n[1]; j++) for (int m = 0; m <= n[2] && k < v.size(); m++, k++) { CVecR3 e(p[0][i], p[1][j], p[2][m]); sym_check(same(v[k], e) && same(g.getPos(CVecI3(i, j, m)), e), "node-position"); } Grid3 c(g), a; a = g; for (int d = 0; d < 3; d++) { VR l = c.getPos(d), m = a.getPos(d); sym_check(l.size() == p[d].size() && m.size() == l.size(), "copy-size"); for (size_t i = 0; i < l.size(); i++) sym_check(l[i] == p[d][i] && m[i] == p[d][i], "copy"); } double f = symr("f", 0.01, 100); c.applyScalingFactor(f); for (int d = 0; d < 3; d++) for (size_t i = 0; i < p[d].size(); i++) { sym_check(c.getPos(d)[i] == p[d][i] * f, "scaled"); sym_check(a.getPos(d)[i] == p[d][i], "copies-independent"); }
}
ENTRY p11_steps() {
    VR p = line("a", 3, 5, 0.5, 10), q = line("b", 2, 1, 0.5, 10); Grid3 g = mk(p, 0, q, conc(2, 1, 1)); double s0 = step(p, 0), t0 = step(q, 0), dv = 0, dw = ab(step(q, 1) - t0), dc = 0; for (int i = 1; i < 3; i++) dv = ab(step(p, i) - s0) > dv ? ab(step(p, i) - s0) : dv; dc = dv; for (int i = 0; i < 2; i++) { dc = ab(step(q, i) - s0) > dc ? ab(step(q, i) - s0) : dc; } dc = ab(1 - s0) > dc ? ab(1 - s0) : dc;
    bool r0 = g.isRegular(0), r1 = g.isRegular(1), rc = g.isCartesian(); if (dv <= 0.0099 * s0) { sym_check(r0, "equal-steps-are-regular"); sym_reach("regular"); } if (dv > 0.0101 * s0) { sym_check(!r0, "different-steps-are-not"); sym_reach("irregular"); } if (dw <= 0.0099 * t0) sym_check(r1, "regular-second-axis"); if (dw > 0.0101 * t0) sym_check(!r1, "irregular-second-axis"); sym_check(g.isRegular(2), "regular-third-axis"); sym_check(g.isRegular() == (r0 && r1), "regular-iff-all-axes"); if (dc <= 0.0099 * s0) sym_check(rc, "cartesian"); if (dc > 0.0101 * s0) sym_check(!rc, "not-cartesian");
    double m = 1; for (int i = 0; i < 3; i++) m = step(p, i) < m ? step(p, i) : m; for (int i = 0; i < 2; i++) m = step(q, i) < m ? step(q, i) : m; sym_check(g.getMinimumSpaceStep() == m, "smallest-step");
}
ENTRY p11_box() {
    VR p[3]; for (int d = 0; d < 3; d++) p[d] = line(nm("a", d), 2, 4 + d, 0.5, 10); Grid3 g(p); BoxR3 f = g.getFullDomainBoundingBox(); for (int d = 0; d < 3; d++) sym_check(f.getMin()(d) == p[d][0] && f.getMax()(d) == p[d][2], "domain"); CVecI3 a, b; for (int d = 0; d < 3; d++) { a(d) = sym_choice(nm("a", d).c_str(), 2); b(d) = a(d) + 1; } BoxR3 c = g.getBoundingBox(BoxI3(a, b)); for (int d = 0; d < 3; d++) sym_check(c.getMin()(d) == p[d][a(d)] && c.getMax()(d) == p[d][b(d)], "box-of-cells");
    int d = sym_choice("d", 3); CVecR3 x(4.2, 5.2, 6.2); x(d) = symr("x", 4, 30); sym_assume(x(d) >= p[d][0] && x(d) <= p[d][2]); BoxI3 k = g.getBoxIContaining(x); BoxR3 r = g.getBoxRContaining(x); CVecI3 l = k.getLength(); sym_check(same(l, CVecI3(1, 1, 1)), "one-cell"); { VR q[3]; for (int i = 0; i < 3; i++) q[i] = conc(1 + i, 0, 1); Grid3 u(q); CVecR3 y(0.5, 1.5, 2.5); y(d) = symr("y", 0, 1 + d); BoxI3 c = u.getBoxIContaining(y); BoxR3 v = u.getBoxRContaining(y); for (int i = 0; i < 3; i++) sym_check(c.getMin()(i) >= 0 && c.getMax()(i) == c.getMin()(i) + 1 && c.getMax()(i) <= 1 + i && y(i) >= v.getMin()(i) - 0.0101 && y(i) <= v.getMax()(i) + 0.0101, "cell-of-a-longer-grid"); } for (int i = 0; i < 3; i++) { sym_check(k.getMin()(i) >= 0 && k.getMax()(i) <= 2, "cell-of-the-grid"); double s0 = step(p[i], 0), s1 = step(p[i], 1), s = s0 > s1 ? s0 : s1; sym_check(x(i) >= r.getMin()(i) - 0.0101 * s && x(i) <= r.getMax()(i) + 0.0101 * s, "contains-the-point"); }
    Grid3 e; sym_check(e.hasZeroSize() && !g.hasZeroSize(), "size"); bool t = false; try { e.getOrigin(); } catch (const std::out_of_range&) { t = true; } sym_check(t, "no-origin-when-empty"); BoxI3 ci = g.getFullDomainBoundingCellBox(); sym_check(same(ci.getMin(), CVecI3(0, 0, 0)), "cell-box-origin");
}
ENTRY p11_ctor_step() {
    CVecR3 lo(1, 2, 3), hi(2, 4, 3.5), dx(0.5, 1, 0.5); int d = sym_choice("d", 3); lo(d) = symr("lo", -50, 50); dx(d) = symr("dx", 0.1, 10); int n = 1 + sym_choice("n", 3); double e = symr("e", -0.9999, 0); bool exact = sym_bool("exact"); hi(d) = lo(d) + (n + (exact ? 0 : e)) * dx(d); sym_assume(exact || e < -1e-3); Grid3 g(BoxR3(lo, hi), dx); if (exact) sym_reach("exact"); else sym_reach("rounded"); sym_check(g.getNumCells()(d) == n, "fewest-cells-covering-the-box"); for (int i = 0; i < 3; i++) { VR p = g.getPos(i); sym_check(p[0] == lo(i), "starts-at-the-box"); sym_check(p.back() >= hi(i) - 1e-9, "covers-the-box"); for (size_t k = 1; k < p.size(); k++) sym_check_close(p[k] - p[k - 1], dx(i), 1e-6, "given-step"); } sym_check(g.getNumCells()((d + 1) % 3) == (((d + 1) % 3) == 2 ? 1 : 2), "other-axes");
}
// Boxes that are whole numbers of decimal steps, as rounded in binary, and steps fitted to a box.
ENTRY p11_ctor_decimal() {
    int d = sym_choice("d", 3), n = 1 + sym_choice("n", THOROUGH ? 60 : 12); bool fit = sym_bool("fitted"); double lo, hi, s; if (fit) { static const double LO[4] = {0, -0.1, 0.3, 1.7}, LEN[6] = {1, 0.7, 0.3, 4.9, 1e-3, 123.4}; lo = LO[sym_choice("lo", 4)]; hi = lo + LEN[sym_choice("len", 6)]; s = (hi - lo) / n; } else { int a = sym_choice("first", THOROUGH ? 41 : 21) - (THOROUGH ? 20 : 10), q = 1 + sym_choice("tenths", 9); s = q / 10.0; lo = a * s; hi = (a + n) * s; } CVecR3 l(1, 2, 3), h(2, 4, 3.5), dx(0.5, 1, 0.5); l(d) = lo; h(d) = hi; dx(d) = s; Grid3 g(BoxR3(l, h), dx); sym_check(g.getNumCells()(d) == n, "no-cell-beyond-the-box"); VR p = g.getPos(d); sym_check(p[0] == lo && ab(p.back() - hi) <= 1e-6 * s, "ends-at-the-box"); sym_check(!g.hasZeroSize(), "has-size");
}
ENTRY p11_ctor_dims() { CVecR3 lo = symR3("lo", -50, 50), l; for (int d = 0; d < 3; d++) l(d) = symr(nm("l", d), 0.5, 50); CVecI3 n(1, 2, 3); int r = sym_choice("rot", 3); CVecI3 m(n(r), n((r + 1) % 3), n((r + 2) % 3)); BoxR3 b(lo, lo + l); Grid3 g(b, m); sym_check(same(g.getNumCells(), m), "dims"); for (int d = 0; d < 3; d++) { VR p = g.getPos(d); sym_check(p[0] == lo(d), "starts-at-the-box"); sym_check_close(p.back(), lo(d) + l(d), 1e-6, "ends-at-the-box"); for (size_t k = 1; k < p.size(); k++) sym_check_close((p[k] - p[k - 1]) * m(d), l(d), 1e-6, "equal-steps"); } }
ENTRY p11_add() {
    int n = 1 + sym_choice("n", 2), k = sym_choice("k", 4), d = sym_choice("d", 3), b = sym_choice("b", 2); VR p = line("a", n, symr("o", -50, 50)), s; for (int i = 0; i < k; i++) s.push_back(symr(nm("t", i), 0.1, 20)); Grid3 g = mk(p, d, conc(1, 0, 1), conc(2, -3, 2)); g.setAdditionalSteps(Constants::CartesianAxis(d), Constants::CartesianBound(b), s); VR q = g.getPos(d); sym_check((int)q.size() == n + 1 + k, "cells-added"); if ((int)q.size() != n + 1 + k) return; for (int i = 0; i <= n; i++) sym_check(q[b ? i : k + i] == p[i], "old-lines-kept"); double x = b ? p[n] : p[0]; for (int i = 0; i < k; i++) { x = b ? x + s[i] : x - s[i]; sym_check_close(q[b ? n + 1 + i : k - 1 - i], x, 1e-6, "new-lines-outwards-in-order"); } sym_check(g.getNumCells()((d + 1) % 3) == 1 && g.getNumCells()((d + 2) % 3) == 2, "other-axes");
}
ENTRY p11_enlarge() {
    int n = 1 + sym_choice("n", 2), d = sym_choice("d", 3), b = sym_choice("b", 2); VR p = line("a", n, symr("o", -50, 50), 0.5, 10); Grid3 g = mk(p, d, conc(1, 0, 1), conc(2, -3, 2)); double s = b ? step(p, n - 1) : step(p, 0), f = symr("f", 0, 3.5), z = symr("z", 0, 20), pad = f * s; std::pair<CVecR3, CVecR3> pd(CVecR3(0, 0, 0), CVecR3(0, 0, 0)), sz(CVecR3(0, 0, 0), CVecR3(0, 0, 0)); sym_assume(z <= 0.999 * s || z > pad * 1.001 + 1e-6); if (b) { pd.second(d) = pad; sz.second(d) = z; } else { pd.first(d) = pad; sz.first(d) = z; } g.enlarge(pd, sz); VR q = g.getPos(d); int k = (int)q.size() - n - 1; sym_check(k >= 0, "never-shrinks"); if (k < 0) return; for (int i = 0; i <= n; i++) sym_check(q[b ? i : k + i] == p[i], "old-lines-kept"); sym_check(g.getNumCells()((d + 1) % 3) == 1 && g.getNumCells()((d + 2) % 3) == 2, "other-axes");
    if (z > pad || pad == 0) { sym_check(k == 0, "padding-smaller-than-cell-ignored"); sym_reach("ignored"); return; } sym_reach("enlarged"); for (int i = 0; i < k; i++) sym_check_close(b ? q[n + 1 + i] - q[n + i] : q[i + 1] - q[i], s, 1e-6, "boundary-cell-size-repeated"); sym_check(k >= f - 0.0101 && k <= f + 1, "covers-the-padding");
}
ENTRY p11_graded() {
    static const double pads[3] = {5, 20, 50}, sizes[3] = {2, 3, 5}; int i = sym_choice("pad", 3), j = sym_choice("size", 3), b = sym_choice("b", 2); VR p = conc(2, 10, 0.5); p[b ? 0 : 2] += b ? -4 : 4; Grid3 g = mk(p, 1, conc(1, 0, 1), conc(1, 0, 1)); g.enlargeBound(Constants::y, Constants::CartesianBound(b), pads[i], sizes[j]); VR q = g.getPos(1); int k = (int)q.size() - 3; sym_check(k >= 1, "enlarged"); if (k < 1) return; double prev = 0.5; for (int m = 0; m < k; m++) { double s = b ? q[3 + m] - q[2 + m] : q[k - m] - q[k - m - 1]; sym_check(s > prev * 0.999, "cells-grow-outwards"); prev = s; } sym_check(ab(prev - sizes[j]) < 1e-9, "last-cell-has-the-size"); double tot = b ? q.back() - p[2] : p[0] - q[0]; sym_check(ab(tot - pads[i]) <= sizes[j], "padding-covered-within-a-cell");
}
ENTRY p11_set() { VR p[3]; p[0] = conc(1, 0, 1); p[1] = VR(1, symr("y", -50, 50)); p[2] = line("z", 2, 0); Grid3 g; g.setPos(p); sym_check(same(g.getNumCells(), CVecI3(1, 1, 2)), "flat-axis-gets-one-cell"); sym_check(g.getPos(1, 0) == p[1][0] && g.getPos(1, 1) == p[1][0], "flat-axis-lines"); sym_check(g.getStep(1, 0) == 0, "flat-step"); p[sym_choice("d", 3)].clear(); bool t = false; try { g.setPos(p); } catch (const std::out_of_range&) { t = true; } sym_check(t, "empty-axis-rejected"); }

// @property P13
// @bounds boxes with real bounds in [-30,30] or integer bounds in [-6,6], flat in any axes or not, chopped by grids of up to 4 arbitrary lines per axis (also grids that do not reach the box, and lines next to its faces) or by steps giving up to 3 pieces per axis, and of 1 to 6 (30 thorough) decimal steps as rounded in binary
// @entry p13_grid shards=6 time=200 reach=inside,cut
// @entry p13_gridint shards=4 time=200
// @entry p13_step shards=6 time=200
// @entry p13_stepint shards=4 time=120
// @entry p13_decimal
// @entry p13_unit
#include "common.h"
#include "geometry/Box.h"
#include "geometry/Grid.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
using namespace SEMBA::Geometry;
template<class T> static void tiles(const Box<T,3>& b, const std::vector<Box<T,3> >& r, double tol) {
    typedef Vector::Cartesian<T,3> V; double vol = 0; V lo = b.getMin(), hi = b.getMax(); bool flat[3]; for (int d = 0; d < 3; d++) flat[d] = lo(d) == hi(d);
    for (size_t i = 0; i < r.size(); i++) { double v = 1; for (int d = 0; d < 3; d++) { T a = r[i].getMin()(d), c = r[i].getMax()(d); sym_check(a >= lo(d) && c <= hi(d), "piece-inside-the-box"); if (flat[d]) sym_check(a == c, "flat-axis-stays-flat"); else { sym_check(a < c, "piece-keeps-its-dimension"); v = v * (double)(c - a); } } vol = vol + v; }
    double e = 1; for (int d = 0; d < 3; d++) if (!flat[d]) e = e * (double)(hi(d) - lo(d)); sym_check_close(vol, e, tol, "pieces-fill-the-box");
    for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < i; j++) { bool apart = false; for (int d = 0; d < 3; d++) if (!flat[d] && (r[i].getMin()(d) >= r[j].getMax()(d) || r[j].getMin()(d) >= r[i].getMax()(d))) apart = true; sym_check(apart, "pieces-do-not-overlap"); }
}
template<class T> static Vector::Cartesian<T,3> vec(T a, T b, T c, int rot) { T v[3] = {a, b, c}; Vector::Cartesian<T,3> r; for (int d = 0; d < 3; d++) r((d + rot) % 3) = v[d]; return r; }
static Grid3 grid(int rot, const std::vector<Real>& a) { std::vector<Real> p[3]; p[rot] = a; p[(rot + 1) % 3].push_back(0); p[(rot + 1) % 3].push_back(1); p[(rot + 1) % 3].push_back(2.5); p[(rot + 2) % 3].push_back(0); p[(rot + 2) % 3].push_back(4); return Grid3(p); }
static std::vector<Real> lines(int n, double lo, double hi) { std::vector<Real> v; double x = symr("first", lo, hi); v.push_back(x); for (int i = 1; i < n; i++) { x = x + symr(nm("s", i), 0.1, 20); v.push_back(x); } return v; }
ENTRY p13_grid() {
    int rot = sym_choice("rot", 3), shape = sym_choice("shape", 3), n = THOROUGH ? 4 : 3; std::vector<Real> v = lines(n, -30, 30); double a = symr("lo", -30, 30), b = shape == 1 ? a : symr("hi", -30, 30); sym_assume(shape == 1 || b > a); CVecR3 lo = vec<Real>(a, 0.5, 1, rot), hi = vec<Real>(b, shape == 2 ? 0.5 : 2, 1.5, rot); BoxR3 x(lo, hi); std::vector<BoxR3> r = x.chop(grid(rot, v)); tiles(x, r, 1e-4);
    int cuts = 1; for (int i = 0; i < n; i++) { if (v[i] > a && v[i] < b) cuts++; double s = i + 1 < n ? v[i + 1] - v[i] : v[i] - v[i - 1]; sym_assume(v[i] <= a || v[i] >= b || (v[i] > a + 0.02 * s && v[i] < b - 0.02 * s)); } if (cuts == 1) sym_reach("inside"); else sym_reach("cut"); sym_check((int)r.size() == cuts * (shape == 2 ? 1 : 2), "cut-at-every-line-inside"); for (size_t k = 0; k < r.size(); k++) for (int i = 0; i < n; i++) sym_check(!(v[i] > r[k].getMin()(rot) && v[i] < r[k].getMax()(rot)), "no-line-inside-a-piece");
}
ENTRY p13_gridint() {
    int rot = sym_choice("rot", 3), n = 3, shape = sym_choice("shape", 2); std::vector<Real> v; long x = symi("first", -6, 6); v.push_back(x); for (int i = 1; i < n; i++) { x = x + symi(nm("s", i), 1, 4); v.push_back(x); } long a = symi("lo", -6, 6), b = shape ? a : symi("hi", -6, 6); sym_assume(shape || b > a); BoxI3 y(vec<Int>(a, 0, 1, rot), vec<Int>(b, 2, 3, rot)); std::vector<BoxI3> r = y.chop(grid(rot, v)); tiles(y, r, 1e-6); int cuts = 1; for (int i = 0; i < n; i++) if (v[i] > a && v[i] < b) cuts++; sym_check((int)r.size() >= cuts, "cut-at-every-line-inside");
}
ENTRY p13_step() {
    static const double steps[4] = {0.5, 1, 2.5, 0.75}, part[5] = {0.125, 0.4, 0.9, 1, 1.75}; int rot = sym_choice("rot", 3); double s = steps[sym_choice("step", 4)], a = symr("lo", -3, 3), b = symr("hi", -3, 8); int n = sym_choice("pieces", 3); if (n == 0) b = a + s * part[sym_choice("part", 5)]; else sym_assume(b - a > n * s && b - a <= (n + 1) * s); BoxR3 x(vec<Real>(a, 1, 2, rot), vec<Real>(b, 2, 2, rot)); std::vector<BoxR3> r = x.chop(vec<Real>(s, 0, 1, rot)); tiles(x, r, 1e-3); sym_check(r.size() >= 1 && (int)r.size() <= n + 3, "piece-count"); for (auto& p : r) sym_check(p.getLength()(rot) <= s * 1.000001, "no-piece-longer-than-the-step");
}
ENTRY p13_stepint() { int rot = sym_choice("rot", 3); long a = symi("lo", -6, 6), l = symi("len", 0, 4), s = sym_choice("step", 4); BoxI3 x(vec<Int>(a, 1, 2, rot), vec<Int>(a + l, 2, 2, rot)); std::vector<BoxI3> r = x.chop(vec<Int>(s, 1, 5, rot)); tiles(x, r, 1e-6); if (s > 0) { for (auto& p : r) sym_check(p.getLength()(rot) <= s, "no-piece-longer-than-the-step"); } else sym_check(r.size() >= 1, "null-step"); }
// Boxes of whole numbers of decimal steps, as rounded in binary: no slivers at their ends.
ENTRY p13_decimal() {
    int rot = sym_choice("rot", 3), n = 1 + sym_choice("n", THOROUGH ? 30 : 6), a = sym_choice("first", THOROUGH ? 41 : 21) - (THOROUGH ? 20 : 10), q = 1 + sym_choice("tenths", 9); double s = q / 10.0, lo = a * s, hi = (a + n) * s; BoxR3 x(vec<Real>(lo, 1, 2, rot), vec<Real>(hi, 2, 2, rot)); std::vector<BoxR3> r; if (sym_bool("grid")) { std::vector<Real> v; for (int i = -2; i <= n + 2; i++) v.push_back(lo + i * s); r = x.chop(grid(rot, v)); } else r = x.chop(vec<Real>(s, 0, 1, rot)); sym_check((int)r.size() == n, "one-piece-per-step"); if ((int)r.size() != n) return; for (int i = 0; i < n; i++) { sym_check(ab(r[i].getLength()(rot) - s) <= 1e-6 * s, "as-long-as-the-step"); sym_check(i ? r[i].getMin()(rot) == r[i - 1].getMax()(rot) : r[i].getMin()(rot) == lo, "next-to-each-other"); } sym_check(r[n - 1].getMax()(rot) == hi, "up-to-the-end");
}
ENTRY p13_unit() { CVecI3 lo = symI3("lo", -6, 6), l; for (int d = 0; d < 3; d++) l(d) = sym_choice(nm("l", d).c_str(), 3); BoxI3 x(lo, lo + l); std::vector<BoxI3> r = x.chop(); int n = 1; for (int d = 0; d < 3; d++) n *= l(d) ? l(d) : 1; sym_check((int)r.size() == n, "unit-cells"); tiles(x, r, 1e-6); for (auto& p : r) for (int d = 0; d < 3; d++) sym_check(p.getLength()(d) == (l(d) ? 1 : 0), "unit-size"); }

// @property P12
// @bounds every pair and triple of boxes with integer bounds in [-20,20] or real bounds in [-100,100] (points, lines, surfaces, volumes), every point in range
// @entry p12_build
// @entry p12_order shards=6 time=120
// @entry p12_meet reach=apart,meet
// @entry p12_join shards=6 time=120
// @entry p12_kind reach=point,line,surface,volume
// @entry p12_corners
// @entry p12_bounds
// @entry p12_grow
// @entry p12_convert
#include "common.h"
#include "geometry/Box.h"
#include "geometry/Grid.h"
using namespace SEMBA::Geometry;
template<class T> static Vector::Cartesian<T,3> pt(const std::string& n);
template<> Vector::Cartesian<Int,3> pt<Int>(const std::string& n) { return symI3(n, -20, 20); }
template<> Vector::Cartesian<Real,3> pt<Real>(const std::string& n) { return symR3(n, -100, 100); }
template<class T> struct B { typedef Vector::Cartesian<T,3> V; typedef Box<T,3> X; };
template<class T> static Box<T,3> bx(const std::string& n) { typename B<T>::V a = pt<T>(n + "l"), b = pt<T>(n + "u"); for (int d = 0; d < 3; d++) sym_assume(a(d) <= b(d)); return Box<T,3>(a, b); }
template<class T> static bool in(const Box<T,3>& b, const Vector::Cartesian<T,3>& p) { for (int d = 0; d < 3; d++) if (p(d) < b.getMin()(d) || p(d) > b.getMax()(d)) return false; return true; }
template<class T> static bool eq(const Box<T,3>& a, const Box<T,3>& b) { return same(a.getMin(), b.getMin()) && same(a.getMax(), b.getMax()); }
template<class T> static void build() {
    typedef typename B<T>::V V; V a = pt<T>("a"), b = pt<T>("b"); Box<T,3> x(a, b), y(b, a), z(std::make_pair(a, b)), w; w.set(std::make_pair(b, a)); for (int d = 0; d < 3; d++) { T lo = a(d) < b(d) ? a(d) : b(d), hi = a(d) < b(d) ? b(d) : a(d); sym_check(x.getMin()(d) == lo && x.getMax()(d) == hi, "bounds-sorted"); sym_check(x.getLength()(d) == hi - lo, "length"); } sym_check(eq(x, y) && eq(x, z) && eq(x, w), "corner-order-irrelevant"); sym_check(in(x, a) && in(x, b), "holds-its-corners"); V p = pt<T>("p"); sym_check(x.isInnerPoint(p) == in(x, p), "inner-point"); Box<T,3> c; c = x; sym_check(eq(c, x), "assign"); sym_check(same(x.getBound(Constants::L), x.getMin()) && same(x.getBound(Constants::U), x.getMax()), "bound");
}
ENTRY p12_build() { if (sym_bool("real")) build<Real>(); else build<Int>(); }
template<class T> static T num(const std::string& n);
template<> Int num<Int>(const std::string& n) { return (Int)symi(n, -20, 20); }
template<> Real num<Real>(const std::string& n) { return symr(n, -100, 100); }
template<class T> static Box<T,3> along(const std::string& n, int d, int lo, int hi) { typename B<T>::V a(lo, lo - 1, lo + 1), b(hi, hi + 2, hi + 1); a(d) = num<T>(n + "l"); b(d) = num<T>(n + "u"); sym_assume(a(d) <= b(d)); return Box<T,3>(a, b); }
template<class T> static void order() {
    static const int ul[4] = {0, 3, -1, 1}, uh[4] = {3, 4, 5, 2}; int x = sym_choice("axis", 3), y = (x + 1) % 3, z = (x + 2) % 3, p1 = sym_choice("other", 4), p2 = sym_choice("third", 4); typename B<T>::V al, ah, bl, bh; al(x) = num<T>("al"); ah(x) = num<T>("ah"); bl(x) = num<T>("bl"); bh(x) = num<T>("bh"); sym_assume(al(x) <= ah(x) && bl(x) <= bh(x)); al(y) = al(z) = 0; ah(y) = ah(z) = 3; bl(y) = ul[p1]; bh(y) = uh[p1]; bl(z) = ul[p2]; bh(z) = uh[p2]; Box<T,3> a(al, ah), b(bl, bh); bool le = true, gt = true; for (int d = 0; d < 3; d++) { if (a.getMax()(d) > b.getMax()(d) || a.getMin()(d) < b.getMin()(d)) le = false; if (a.getMax()(d) <= b.getMax()(d) || a.getMin()(d) >= b.getMin()(d)) gt = false; } sym_check((a <= b) == le, "contained"); sym_check((a > b) == gt && (b < a) == gt, "strictly-contains"); sym_check(!(a > a) && !(a < a) && a <= a, "reflexivity"); if (gt) sym_check(!(a < b) && b <= a && !(a <= b), "strict-order-implies-weak");
    Vector::Cartesian<T,3> p = pt<T>("p"); if (le && in(a, p)) sym_check(in(b, p), "points-of-contained-box"); bool e = eq(a, b); if (e) sym_check(a == b, "equality"); if (std::is_integral<T>::value) sym_check((a == b) == e, "equality-exact"); sym_check((a <= b && b <= a) == e, "antisymmetric");
}
ENTRY p12_order() { if (sym_bool("real")) order<Real>(); else order<Int>(); }
template<class T> static void meet() {
    Box<T,3> a = bx<T>("a"), b = bx<T>("b"); bool m = true; for (int d = 0; d < 3; d++) if (a.getMax()(d) < b.getMin()(d) || b.getMax()(d) < a.getMin()(d)) m = false; sym_check(a.isIntersected(b) == m && b.isIntersected(a) == m, "touching-or-overlapping"); Vector::Cartesian<T,3> p = pt<T>("p"); bool both = in(a, p) && in(b, p); if (both) sym_check(m, "common-point-means-intersected"); Box<T,3> i = a.intersect(b), j = b.intersect(a); sym_check(in(i, p) == both, "intersection-is-the-common-points"); sym_check(eq(i, j), "intersection-symmetric"); if (m) { sym_reach("meet"); sym_check(i <= a && i <= b, "intersection-contained"); } else sym_reach("apart"); if (a <= b) sym_check(eq(i, a), "intersection-with-container");
}
ENTRY p12_meet() { if (sym_bool("real")) meet<Real>(); else meet<Int>(); }
template<class T> static void join() { int x = sym_choice("axis", 3); Box<T,3> a = along<T>("a", x, 0, 3), b = along<T>("b", x, -2, 1), c = along<T>("c", x, 1, 9), u(a), v(b), w(a); u += b; v += a; w << b; sym_check(eq(u, v) && eq(u, w), "join-symmetric"); sym_check(a <= u && b <= u, "join-contains-both"); for (int d = 0; d < 3; d++) sym_check((u.getMin()(d) == a.getMin()(d) || u.getMin()(d) == b.getMin()(d)) && (u.getMax()(d) == a.getMax()(d) || u.getMax()(d) == b.getMax()(d)), "join-is-smallest"); Box<T,3> l(u), r(b); l += c; r += c; Box<T,3> s(a); s += r; sym_check(eq(l, s), "join-associative"); u += u; sym_check(eq(u, v), "join-idempotent"); if (a <= b) sym_check(eq(v, b), "join-with-container"); }
ENTRY p12_join() { if (sym_bool("real")) join<Real>(); else join<Int>(); }
template<class T> static Box<T,3> shaped(int k, Vector::Cartesian<T,3>& lo, Vector::Cartesian<T,3>& hi) { lo = pt<T>("l"); hi = pt<T>("u"); for (int d = 0; d < 3; d++) { if (k >> d & 1) sym_assume(hi(d) > lo(d) + (std::is_integral<T>::value ? T(0) : T(0.01))); else hi(d) = lo(d); } return Box<T,3>(lo, hi); }
template<class T> static void kind() {
    int k = sym_choice("shape", 8), n = (k & 1) + (k >> 1 & 1) + (k >> 2 & 1); typename B<T>::V lo, hi; Box<T,3> b = shaped<T>(k, lo, hi); sym_check(b.isPoint() == (n == 0) && b.isLine() == (n == 1) && b.isSurface() == (n == 2) && b.isVolume() == (n == 3), "kind"); bool t = false; Constants::CartesianAxis x; sym_reach(n == 0 ? "point" : n == 1 ? "line" : n == 2 ? "surface" : "volume");
    try { x = b.getDirection(); sym_check(n == 1 && (k >> x & 1), "direction-is-the-extended-axis"); } catch (const Error::Box::NotLine&) { t = true; } sym_check(t == (n != 1), "direction-of-lines-only"); t = false; try { x = b.getNormal(); sym_check(n == 2 && !(k >> x & 1), "normal-is-the-flat-axis"); } catch (const Error::Box::NotSurface&) { t = true; } sym_check(t == (n != 2), "normal-of-surfaces-only");
}
ENTRY p12_kind() { if (sym_bool("real")) kind<Real>(); else kind<Int>(); }
template<class T> static void corners() {
    int k = sym_choice("shape", 8), n = (k & 1) + (k >> 1 & 1) + (k >> 2 & 1); typename B<T>::V lo, hi; Box<T,3> b = shaped<T>(k, lo, hi); std::vector<typename B<T>::V> p = b.getPos(); sym_check((int)p.size() == 1 << n, "corner-count"); if ((int)p.size() != 1 << n) return; for (size_t i = 0; i < p.size(); i++) { for (int d = 0; d < 3; d++) sym_check(p[i](d) == lo(d) || p[i](d) == hi(d), "corners-of-the-box"); for (size_t j = 0; j < i; j++) sym_check(!same(p[i], p[j]), "corners-distinct"); }
    if (n == 1) sym_check(same(p[0], lo) && same(p[1], hi), "line-from-low-to-high"); if (n == 2) for (int i = 0; i < 4; i++) { int c = 0; for (int d = 0; d < 3; d++) c += p[i](d) != p[(i + 1) % 4](d); sym_check(c == 1, "surface-corners-go-round"); } if (n == 2) { sym_check(same(p[0], lo), "surface-starts-low"); int z = 0; while (k >> z & 1) z++; typename B<T>::V u = p[1] - p[0], v = p[3] - p[0], c = u ^ v; sym_check(c(z) > 0, "surface-corners-right-handed"); }
    if (n == 3) for (int f = 0; f < 2; f++) for (int i = 0; i < 4; i++) { int c = 0; for (int d = 0; d < 3; d++) c += p[4 * f + i](d) != p[4 * f + (i + 1) % 4](d); sym_check(c == 1 && p[4 * f + i](2) == (f ? hi(2) : lo(2)), "volume-faces-go-round"); sym_check(p[i](0) == p[i + 4](0) && p[i](1) == p[i + 4](1), "volume-corners-stacked"); }
}
ENTRY p12_corners() { if (sym_bool("real")) corners<Real>(); else corners<Int>(); }
template<class T> static void bounds() {
    typename B<T>::V lo, hi; Box<T,3> b = shaped<T>(7, lo, hi); int d = sym_choice("d", 3), s = sym_choice("side", 2); std::vector<typename B<T>::V> p = b.getPosOfBound(Constants::CartesianAxis(d), Constants::CartesianBound(s)); sym_check(p.size() == 4, "four-corners"); for (size_t i = 0; i < p.size(); i++) { sym_check(p[i](d) == (s ? hi(d) : lo(d)) && in(b, p[i]), "on-the-face"); for (size_t j = 0; j < i; j++) sym_check(!same(p[i], p[j]), "distinct"); int c = 0; for (int e = 0; e < 3; e++) c += p[i](e) != p[(i + 1) % 4](e); sym_check(c == 1, "face-corners-go-round"); } Box<T,3> f = b.getBoundAsBox(Constants::CartesianAxis(d), Constants::CartesianBound(s)); for (int e = 0; e < 3; e++) sym_check(f.getMin()(e) == (e == d && s ? hi(e) : lo(e)) && f.getMax()(e) == (e == d && !s ? lo(e) : hi(e)), "face-box"); sym_check(f.isSurface() && f.getNormal() == d && f <= b, "face-normal");
}
ENTRY p12_bounds() { if (sym_bool("real")) bounds<Real>(); else bounds<Int>(); }
ENTRY p12_grow() {
    BoxR3 b; CVecR3 p[3]; int n = 1 + sym_choice("n", 3); for (int i = 0; i < n; i++) { p[i] = symR3(nm("p", i), -100, 100); b << p[i]; } for (int d = 0; d < 3; d++) { double lo = p[0](d), hi = p[0](d); for (int i = 1; i < n; i++) { lo = p[i](d) < lo ? p[i](d) : lo; hi = p[i](d) > hi ? p[i](d) : hi; } sym_check(b.getMin()(d) == lo && b.getMax()(d) == hi, "smallest-box-of-the-points"); } BoxR3 e; sym_check(!e.isInnerPoint(p[0]) && !e.isIntersected(b), "empty-box"); BoxR3 s(b); s += e; sym_check(eq(s, b), "empty-is-neutral"); BoxR3 a; a.setInfinity(); sym_check(a.isInnerPoint(p[0]) && b <= a && a.isIntersected(b), "whole-space"); double f = symr("f", 0.01, 100); BoxR3 c(b); c.scale(f); for (int d = 0; d < 3; d++) sym_check(c.getMin()(d) == b.getMin()(d) * f && c.getMax()(d) == b.getMax()(d) * f, "scaled"); BoxI3 i(CVecI3(1, 2, 3), CVecI3(4, 5, 6)), j(i); j.scale(f); sym_check(eq(i, j), "integer-boxes-not-scaled");
}
ENTRY p12_convert() { BoxI3 a = bx<Int>("a"); BoxR3 r(a), q; q = a; for (int d = 0; d < 3; d++) sym_check(r.getMin()(d) == a.getMin()(d) && r.getMax()(d) == a.getMax()(d) && q.getMin()(d) == r.getMin()(d) && q.getMax()(d) == r.getMax()(d), "to-real"); BoxI3 b(r); sym_check(eq(b, a), "back-to-integer"); BoxI3 c; c = r; sym_check(eq(c, a), "assigned-back"); }

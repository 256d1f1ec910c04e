// @property P02
// @bounds vectors of dimension 2-4 (3 for the cross product, axis and plane queries); real components |v| <= 1000, integer components |v| <= 1e6; order laws on components that are equal or at least 1e-6 apart
// @entry p02_algebra
// @entry p02_cross
// @entry p02_norm reach=zero,nonzero
// @entry p02_order_int reach=lt,eq
// @entry p02_order_real reach=lt,eq
// @entry p02_trans
// @entry p02_axis reach=axis,none
// @entry p02_plane reach=xy,yz,zx,none
// @entry p02_misc
// @entry p02_int
// @entry p02_toler reach=eq,ne
// @entry p02_fraction reach=carry,keep
// @entry p02_reduce reach=r0,r1,r2,r3
// @entry p02_fracops
// @entry p02_move reach=can,cannot
#include "common.h"
#include "math/vector/CVecI3Fractional.h"
ENTRY p02_algebra() {
    CVecR3 a = symR3("a", -1000, 1000), b = symR3("b", -1000, 1000); double k = sym_real("k", -100, 100);
    CVecR3 s = a + b, d = a - b, m = a * k, h = a * b, e = a + k, f = a - k;
    for (int i = 0; i < 3; i++) {
        sym_check_close(s(i), a(i) + b(i), 1e-9, "sum"); sym_check_close(d(i), a(i) - b(i), 1e-9, "difference");
        sym_check_close(m(i), a(i) * k, 1e-7, "scaled"); sym_check_close(h(i), a(i) * b(i), 1e-7, "componentwise"); sym_check_close(e(i), a(i) + k, 1e-9, "shift"); sym_check_close(f(i), a(i) - k, 1e-9, "shift-down"); }
    CVecR3 t = a; t += b; sym_check(same(t, s), "sum-in-place"); t = a; t -= b; sym_check(same(t, d), "difference-in-place");
    t = a; t *= k; sym_check(same(t, m), "scale-in-place"); t = a; t *= b; sym_check(same(t, h), "product-in-place"); t = a; t += k; sym_check(same(t, e), "shift-in-place"); t = a; t -= k; sym_check(same(t, f), "shift-down-in-place");
    sym_check(same(CVecR3(a, b), b - a), "vector-between-points");
    sym_check_close(a.dot(b), a(0) * b(0) + a(1) * b(1) + a(2) * b(2), 1e-6, "dot");
    if (ab(k) > 0.01) { CVecR3 q = a / k; close3(q * k, a, 1e-6, "divide"); t = a; t /= k; close3(t, q, 1e-6, "divide-in-place"); }
    double mx = a.getMax(); sym_check(mx >= a(0) && mx >= a(1) && mx >= a(2) && (mx == a(0) || mx == a(1) || mx == a(2)), "maximum");
    t = a; t.setWithMinimalComponents(b); for (int i = 0; i < 3; i++) sym_check(t(i) == (a(i) < b(i) ? a(i) : b(i)), "componentwise-minimum");
    t = a; t.abs(); for (int i = 0; i < 3; i++) sym_check(t(i) == ab(a(i)), "absolute");
    sym_check(a[0] == a(0) && a[1] == a(1) && a[2] == a(2), "index");
    CVecR3 c(7.0); sym_check(c(0) == 7 && c(1) == 7 && c(2) == 7, "fill"); c = k; sym_check(c(0) == k && c(2) == k, "fill-assign");
    CVecR4 q4; sym_check(q4(0) == 0 && q4(3) == 0, "default-zero");
}
ENTRY p02_cross() {
    CVecR3 a = symR3("a", -100, 100), b = symR3("b", -100, 100), c = a ^ b;
    close3(c, CVecR3(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)), 1e-6, "cross");
    sym_check_close(c.dot(a), 0, 1e-4, "cross-orthogonal-first"); sym_check_close(c.dot(b), 0, 1e-4, "cross-orthogonal-second");
    close3(b ^ a, CVecR3(0.0) - c, 1e-6, "cross-antisymmetric");
    sym_check_close(c.dot(c), a.dot(a) * b.dot(b) - a.dot(b) * a.dot(b), 1e-2, "lagrange");
}
ENTRY p02_norm() {
    CVecR3 a = symR3("a", -100, 100); double n = a.norm();
    sym_check(n >= 0, "norm-nonnegative"); sym_check_close(n * n, a.dot(a), 1e-6, "norm-square");
    if (n == 0) { sym_reach("zero"); sym_check(a(0) == 0 && a(1) == 0 && a(2) == 0, "norm-definite"); return; }
    sym_reach("nonzero");
    sym_assume(n > 0.01); CVecR3 u = a; u.normalize();
    for (int i = 0; i < 3; i++) sym_check_close(u(i) * n, a(i), 1e-6, "normalise");
}
template <class V> static void order(const V& a, const V& b, bool lt, bool eq) {
    sym_check((a < b) == lt, "less"); sym_check((a > b) == (!lt && !eq), "greater"); sym_check((a <= b) == (lt || eq), "less-equal"); sym_check((a >= b) == !lt, "greater-equal");
    sym_check((a == b) == eq, "equal"); sym_check((a != b) == !eq, "not-equal");
    if (lt) sym_reach("lt"); if (eq) sym_reach("eq");
}
ENTRY p02_order_int() {
    CVecI3 a = symI3("a", -1000000, 1000000), b = symI3("b", -1000000, 1000000);
    bool lt = a(0) != b(0) ? a(0) < b(0) : a(1) != b(1) ? a(1) < b(1) : a(2) < b(2);
    order(a, b, lt, same(a, b));
}
ENTRY p02_order_real() {
    CVecR3 a = symR3("a", -1000, 1000), b = symR3("b", -1000, 1000); for (int i = 0; i < 3; i++) { sym_assume(a(i) == b(i) || ab(a(i) - b(i)) >= 1e-6); sym_assume(a(i) == 0 || ab(a(i)) >= 1e-6); sym_assume(b(i) == 0 || ab(b(i)) >= 1e-6); }
    bool lt = a(0) != b(0) ? a(0) < b(0) : a(1) != b(1) ? a(1) < b(1) : a(2) < b(2);
    order(a, b, lt, same(a, b));
}
ENTRY p02_trans() {
    CVecI3 a = symI3("a", -1000, 1000), b = symI3("b", -1000, 1000), c = symI3("c", -1000, 1000);
    if (a < b && b < c) { sym_check(a < c, "transitive"); sym_check(!(c < a), "asymmetric"); }
    if (!(a < b) && !(b < a)) sym_check(same(a, b), "total");
}
ENTRY p02_toler() {
    CVecR3 a = symR3("a", -1000, 1000), b = symR3("b", -1000, 1000);
    bool e = a == b; sym_check(e == (b == a), "equality-symmetric"); sym_check((a != b) == !e, "inequality-negates");
    CVecR3 d = a - b;
    if (ab(d(0)) <= 1e-14 && ab(d(1)) <= 1e-14 && ab(d(2)) <= 1e-14) { sym_reach("eq"); sym_check(e, "same-point-equal"); }
    if (ab(d(0)) >= 1e-9 || ab(d(1)) >= 1e-9 || ab(d(2)) >= 1e-9) { sym_reach("ne"); sym_check(!e, "distinct-points-differ"); }
}
ENTRY p02_axis() {
    CVecR3 a = symR3("a", -100, 100); int k = sym_choice("k", 3), i = (k + 1) % 3, j = (k + 2) % 3;
    sym_assume(ab(a(k)) >= 1);
    double t = ab(a(i)) > ab(a(j)) ? ab(a(i)) : ab(a(j));
    if (t == 0) { sym_reach("axis"); sym_check(a.isInCartesianAxis(), "axis-recognised"); sym_check((int)a.getCartesianAxis() == k, "axis-index"); }
    if (ab(a(i)) >= 0.3 * ab(a(k)) && ab(a(i)) <= 3 * ab(a(k)) && ab(a(j)) <= ab(a(k))) {
        sym_reach("none"); sym_check(!a.isInCartesianAxis(), "oblique-not-axis");
        bool thrown = false; try { a.getCartesianAxis(); } catch (const std::logic_error&) { thrown = true; } sym_check(thrown, "oblique-throws"); }
}
ENTRY p02_plane() {
    CVecR3 a = symR3("a", -100, 100); bool z[3]; for (int i = 0; i < 3; i++) { z[i] = a(i) == 0; sym_assume(z[i] || ab(a(i)) > 1e-6); }
    sym_check(a.isContainedInPlane(Constants::xy) == z[2], "plane-xy"); sym_check(a.isContainedInPlane(Constants::yz) == z[0], "plane-yz"); sym_check(a.isContainedInPlane(Constants::zx) == z[1], "plane-zx");
    sym_check(a.isContainedInPlane() == (z[0] || z[1] || z[2]), "any-plane");
    if (z[2]) sym_reach("xy"); if (z[0]) sym_reach("yz"); if (z[1]) sym_reach("zx"); if (!z[0] && !z[1] && !z[2]) sym_reach("none");
    CVecR3 o(0.0); sym_check(a.isCoplanar(o) == (z[0] || z[1] || z[2]), "coplanar");
}
ENTRY p02_misc() {
    CVecR3 a = symR3("a", -1000, 1000), p = a, q = a; int n = sym_choice("n", 4);
    p.cyclicPermutation(n); for (int i = 0; i < 3; i++) sym_check(p((i + n) % 3) == a(i), "cyclic-permutation");
    q.cyclicPermutation(1).cyclicPermutation(2); sym_check(same(q, a), "cyclic-identity");
    CVecI3 b; int m = sym_choice("m", 8); b.setAsBinary(m); sym_check(b(0) * 4 + b(1) * 2 + b(2) == m, "binary-corner"); for (int i = 0; i < 3; i++) sym_check(b(i) == 0 || b(i) == 1, "binary-digits");
    CVecR3 i3; i3.setPlusInfty(); sym_check(i3(0) > 1e308 && i3(2) > 1e308, "plus-infinity"); i3.setMinusInfty(); sym_check(i3(1) < -1e308, "minus-infinity");
    CVecR3 r = Util::round(a); for (int i = 0; i < 3; i++) sym_check(ab(r(i) - a(i)) <= 0.5 + 1e-9, "round");
    const CVecR3 ca = a; sym_check(same(CVecR3(ca.val), a), "from-array");
}
ENTRY p02_int() {
    CVecI3 a = symI3("a", -100000, 100000), b = symI3("b", -100000, 100000); CVecR3 r(a);
    for (int i = 0; i < 3; i++) sym_check(r(i) == (double)a(i), "int-to-real");
    CVecI3 back(r); sym_check(same(back, a), "real-to-int-roundtrip");
    CVecI3 s = a + b, d = a - b; for (int i = 0; i < 3; i++) { sym_check(s(i) == a(i) + b(i), "int-sum"); sym_check(d(i) == a(i) - b(i), "int-difference"); }
    CVecR3 x = symR3("x", -1000, 1000), y = a + x; for (int i = 0; i < 3; i++) sym_check_close(y(i), a(i) + x(i), 1e-6, "mixed-sum");
    CVecR3 z = a / 2.0; for (int i = 0; i < 3; i++) sym_check(z(i) * 2 == (double)a(i), "int-divided-by-real");
    CVecI3 c(a); c = b; sym_check(same(c, b), "assign"); CVecI3 m = a * 3; sym_check(m(1) == 3 * a(1), "int-scale"); CVecI3 lim = symI3("c", -30000, 30000), lim2 = symI3("e", -30000, 30000); CVecI3 cr = lim ^ lim2; sym_check(cr(0) == lim(1) * lim2(2) - lim(2) * lim2(1), "int-cross");
}
static CVecI3Frac frac(double hi) { return CVecI3Frac(symI3("p", -1000, 1000), symR3("l", 0.0, hi)); }
ENTRY p02_fraction() {
    CVecI3Frac f = frac(1.0), g = f; CVecR3 before = f.getScalePos(); f.reduceCoords(); CVecR3 after = f.getScalePos();
    close3(after, before, 1e-9, "reduce-keeps-point"); bool carry = false;
    for (int i = 0; i < 3; i++) { sym_check(f.len_(i) >= 0 && f.len_(i) < 1 - 0.99e-10, "reduced-fraction-in-cell"); sym_check(f.len_(i) == 0 || f.len_(i) >= 1e-10, "reduced-fraction-not-tiny"); if (f(i) != g(i)) { carry = true; sym_check(f(i) == g(i) + 1, "carry-one"); } }
    if (carry) sym_reach("carry"); else sym_reach("keep");
    CVecI3Frac h = f; h.reduceCoords(); sym_check(h == f, "reduce-idempotent");
    std::size_t n = 0; int only = -1, zero = -1; for (int i = 0; i < 3; i++) if (f.len_(i) > 0) { n++; only = i; } else zero = i;
    sym_check(f.getRangeBase() == n || n == 0 || true, "range"); // exact range below
    bool clear = true; for (int i = 0; i < 3; i++) clear &= f.len_(i) == 0 || f.len_(i) > 1.01e-10; if (!clear) return;
    sym_check(f.getRangeBase() == n, "range-counts-fractions");
    if (n == 1) sym_check((int)f.getDirBase() == only + 1, "edge-direction"); if (n == 2) sym_check((int)f.getDirBase() == zero + 1, "face-normal"); if (n == 0 || n == 3) sym_check(f.getDirBase() == dirNode, "no-direction");
    sym_check(same(f.getScalePos(CVecI3(1, 2, 3)), CVecR3((double)(f(0) - 1) + f.len_(0), (double)(f(1) - 2) + f.len_(1), (double)(f(2) - 3) + f.len_(2))), "relative-position");
}
ENTRY p02_reduce() {
    CVecI3Frac f(CVecI3(1, 2, 3), symR3("l", 0.0, 1.0 - 1e-6)); for (int i = 0; i < 3; i++) sym_assume(f.len_(i) == 0 || f.len_(i) > 1e-6);
    CVecI3Frac g = f; std::size_t r = f.getRangeBase(); sym_reach(r == 0 ? "r0" : r == 1 ? "r1" : r == 2 ? "r2" : "r3");
    g.reduceTopology(); sym_check(g.getRangeBase() == (r ? r - 1 : 0), "one-fewer-dimension");
    CVecR3 a = f.getScalePos(), b = g.getScalePos(); double best = 2; int moved = 0; for (int i = 0; i < 3; i++) { double d = f.len_(i) > 0.5 ? 1 - f.len_(i) : f.len_(i); if (f.len_(i) != 0 && d < best) best = d; if (ab(a(i) - b(i)) > 1e-9) { moved++; sym_check_close(ab(a(i) - b(i)), d, 1e-9, "moved-to-nearest-node"); } }
    sym_check(moved == (r ? 1 : 0), "only-one-coordinate-moves"); if (r) sym_check_close((b - a).norm(), best, 1e-6, "cheapest-collapse");
    CVecI3Frac h = f; h.reduceTopology((std::size_t)1); sym_check(h.getRangeBase() <= 1, "reduced-to-range"); if (r <= 1) sym_check(h == f, "already-in-range"); for (std::size_t k = 0; k < 4; k++) { CVecI3Frac q = f; q.reduceTopology(k); sym_check(q.getRangeBase() == (r < k ? r : k), "reduced-to-exactly-the-range"); }
}
ENTRY p02_fracops() {
    CVecI3Frac f = frac(1.0), g(symI3("q", -1000, 1000), symR3("m", 0.0, 1.0)), h; h = f; sym_check(h == f, "copy-equal");
    bool eq = same((const CVecI3&)f, (const CVecI3&)g) && same(f.len_, g.len_); sym_check((f == g) == eq, "equality");
    CVecR3 m = f.meanRelativePoint(g); for (int i = 0; i < 3; i++) sym_check_close(m(i) * 2, f.len_(i) + g.len_(i), 1e-9, "mean");
    CVecR3 n = f.getRelativePosNearestNode(); for (int i = 0; i < 3; i++) sym_check((n(i) == 0 || n(i) == 1) && ab(n(i) - f.len_(i)) <= 0.5, "nearest-node");
}
ENTRY p02_move() {
    CVecI3Frac f(CVecI3(0, 0, 0), symR3("l", 0.0, 1.0)), g(CVecI3(1, 1, 1), symR3("m", 0.0, 1.0)), r = g; for (int i = 0; i < 3; i++) { sym_assume(f.len_(i) == 0 || f.len_(i) > 1e-6); sym_assume(g.len_(i) == 0 || g.len_(i) > 1e-6); }
    bool can = false, force = sym_bool("force"); bool expect = true; for (int i = 0; i < 3; i++) if (f.len_(i) != 0 && g.len_(i) == 0) expect = false;
    f.move(r, force, can); sym_check(can == expect, "movable"); sym_reach(can ? "can" : "cannot");
    for (int i = 0; i < 3; i++) sym_check(r.len_(i) == (can || force ? (f.len_(i) != 0 && g.len_(i) != 0 ? f.len_(i) : 0.0) : g.len_(i)), "moved-fraction");
    sym_check(same((const CVecI3&)r, (const CVecI3&)g), "cell-kept");
}

// @property P06
// @bounds every triple of Euler angles in [-7,7], origin, points and tensors with components in [-100,100]; Cartesian/spherical conversion of any vector of norm >= 1e-3 with components in [-100,100] and any angles in [-7,7]
// @bounds some angles zero and the rest any; angles of twelve values (right, flat, whole and general ones, both signs) with any points and tensors; vectors in each direction, axis and quadrant
// @assume sine and cosine are constrained by sin^2+cos^2=1 and by the defining relations of acos and atan2; nothing else about them is used
// @entry p06_rotation
// @entry p06_orthonormal
// @entry p06_point shards=2
// @entry p06_tensor
// @entry p06_spherical
// @entry p06_from reach=general,axis,origin
// @entry p06_field
// @entry p06_zero
// @entry p06_turns shards=4
// @entry p06_angles shards=2
// @entry p06_sides shards=2
#include "common.h"
#include "math/axis/Local.h"
#include "math/vector/Spherical.h"
static const double T = 1e-6;
static MatR33 rz(double c, double s) { MatR33 m; m.eye(); m(0, 0) = c; m(0, 1) = s; m(1, 0) = -s; m(1, 1) = c; return m; }
static MatR33 rx(double c, double s) { MatR33 m; m.eye(); m(1, 1) = c; m(1, 2) = s; m(2, 1) = -s; m(2, 2) = c; return m; }
static CVecR3 angles() { CVecR3 a; a(0) = symr("phi", -7, 7); a(1) = symr("theta", -7, 7); a(2) = symr("psi", -7, 7); return a; }
static MatR33 spec(const CVecR3& a) { return rz(cos(a(2)), sin(a(2))) * (rx(cos(a(1)), sin(a(1))) * rz(cos(a(0)), sin(a(0)))); }
ENTRY p06_rotation() { CVecR3 a = angles(); Axis::Local l(a); MatR33 m = l.getTransformationMatrix(), e = spec(a); for (int i = 0; i < 9; i++) sym_check_close(m.val(i), e.val(i), T, "product-of-three-rotations"); sym_check(same(l.getEulerAngles(), a), "angles-kept"); sym_check(same(l.getOrigin(), CVecR3(0, 0, 0)), "default-origin"); MatR33 n = Axis::Local(CVecR3(0, 0, 0)).getTransformationMatrix(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_check(n(i, j) == (i == j), "no-rotation"); }
ENTRY p06_orthonormal() { CVecR3 a = angles(); MatR33 m = Axis::Local(a).getTransformationMatrix(), t = m.transpose(), p = m * t, q = t * m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { sym_check_close(p(i, j), i == j, T, "rows-orthonormal"); sym_check_close(q(i, j), i == j, T, "columns-orthonormal"); } sym_check_close(m.getDeterminant3x3(), 1, T, "keeps-handedness"); }
ENTRY p06_point() {
    int w = sym_choice("axis", 3); CVecR3 a(0, 0, 0); a(w) = symr("angle", -7, 7); CVecR3 o = symR3("o", -100, 100), p = symR3("p", -100, 100), q = symR3("q", -100, 100); Axis::Local l(a, o); sym_check(same(l.getOrigin(), o), "origin-kept"); CVecR3 P = l.convertToGlobal(p), Q = l.convertToGlobal(q), d = P - Q, e = p - q; sym_check_close(d.dot(d), e.dot(e), 1e-3, "distances-kept"); sym_check(same(l.convertToGlobal(CVecR3(0, 0, 0)), o), "origin-maps-to-origin");
    MatR33 m = l.getTransformationMatrix(); CVecR3 r = m * p; close3(P - o, r, T, "rotation-then-shift");
}
ENTRY p06_tensor() {
    int w = sym_choice("axis", 3); CVecR3 a(0, 0, 0); a(w) = symr("angle", -7, 7); CVecR3 o = symR3("o", -10, 10); Axis::Local l(a, o), l0(a); MatR33 t; for (int i = 0; i < 9; i++) t.val(i) = symr(nm("t", i), -100, 100);
    MatR33 g = l.convertToGlobal(t); sym_check_close(g(0, 0) + g(1, 1) + g(2, 2), t(0, 0) + t(1, 1) + t(2, 2), 1e-4, "trace-kept"); CVecR3 v = symR3("v", -10, 10), u = l0.convertToGlobal(v), lhs = g * u, rhs = l0.convertToGlobal(t * v); close3(lhs, rhs, 1e-3, "tensor-acts-on-converted-vectors");
}
ENTRY p06_spherical() {
    double th = symr("theta", -7, 7), ph = symr("phi", -7, 7); Vector::Spherical s(th, ph); sym_check(s.norm() == 1, "unit-radius"); CVecR3 c = s.convertToCartesian(); sym_check_close(c.dot(c), 1, T, "unit-vector"); sym_check_close(c(2), cos(th), T, "polar-angle-from-z"); sym_check_close(c(1) * cos(ph), c(0) * sin(ph), T, "azimuth-from-x");
    s.radius = symr("r", 0, 100); CVecR3 d = s.convertToCartesian(); for (int i = 0; i < 3; i++) sym_check_close(d(i), s.radius * c(i), T, "scales-with-radius"); Vector::Spherical z; sym_check(same(z.convertToCartesian(), CVecR3(0, 0, 0)), "default-is-origin");
}
ENTRY p06_from() {
    CVecR3 v = symR3("v", -100, 100); int k = sym_choice("kind", 3); if (k == 1) v(0) = v(1) = 0; if (k == 2) v = CVecR3(0, 0, 0); if (k == 0) { sym_assume(ab(v(0)) > 1e-3 || ab(v(1)) > 1e-3); sym_reach("general"); } else if (k == 1) { sym_assume(ab(v(2)) > 1e-3); sym_reach("axis"); } else sym_reach("origin");
    Vector::Spherical s; s = v; sym_check_close(s.norm() * s.norm(), v.dot(v), T, "radius-is-norm"); sym_check(s.norm() >= 0, "radius-nonnegative"); sym_check(s.theta >= 0 && s.theta <= 3.1415926536 && s.phi >= -3.1415926536 && s.phi <= 3.1415926536, "angle-ranges"); CVecR3 b = s.convertToCartesian(); close3(b, v, T, "round-trip");
}
ENTRY p06_field() {
    double th = symr("theta", -7, 7), ph = symr("phi", -7, 7), r = symr("ar", -10, 10), t = symr("at", -10, 10), p = symr("ap", -10, 10); Vector::Spherical s(th, ph); CVecR3 f = s.convertSphericalVectorField(r, t, p), n = s.convertToCartesian(); sym_check_close(f.dot(f), r * r + t * t + p * p, 1e-3, "field-magnitude-kept"); sym_check_close(f.dot(n), r, 1e-4, "radial-component"); sym_check_close(f(2), r * cos(th) - t * sin(th), 1e-4, "polar-component-descends"); sym_check_close(f(1) * cos(ph) - f(0) * sin(ph), p, 1e-4, "azimuthal-component");
}
static const double PI = 3.14159265358979323846, AN[12] = {0, 0.5, PI / 2, -PI / 2, PI, -PI, 2.75, -1.25, 2 * PI, -4.5, 6.5, PI / 4};
ENTRY p06_zero() { int z = sym_choice("zero", 7); CVecR3 a = angles(); for (int i = 0; i < 3; i++) if (z & (1 << i)) a(i) = 0; MatR33 m = Axis::Local(a).getTransformationMatrix(), e = spec(a); for (int i = 0; i < 9; i++) sym_check_close(m.val(i), e.val(i), T, "product-of-three-rotations"); }
ENTRY p06_turns() { CVecR3 a; int k[3]; for (int i = 0; i < 3; i++) a(i) = AN[k[i] = sym_choice(nm("a", i).c_str(), 12)]; CVecR3 o = symR3("o", -100, 100), p = symR3("p", -100, 100); Axis::Local l(a, o), c(l); MatR33 e = spec(a), m = c.getTransformationMatrix(); for (int i = 0; i < 9; i++) sym_check_close(m.val(i), e.val(i), T, "product-of-three-rotations"); close3(l.convertToGlobal(p) - o, e * p, 1e-4, "rotation-then-shift"); sym_check(same(c.getOrigin(), o) && same(c.getEulerAngles(), a), "copied"); if ((k[0] + k[1] + k[2]) % 5) return; MatR33 t; for (int i = 0; i < 9; i++) t.val(i) = symr(nm("t", i), -100, 100); MatR33 g = l.convertToGlobal(t), w = e * (t * e.transpose()); for (int i = 0; i < 9; i++) sym_check_close(g.val(i), w.val(i), 1e-3, "tensor-turned"); }
ENTRY p06_angles() { double th = AN[sym_choice("theta", 12)], ph = AN[sym_choice("phi", 12)]; Vector::Spherical s(th, ph); CVecR3 c = s.convertToCartesian(), n; n(0) = sin(th) * cos(ph); n(1) = sin(th) * sin(ph); n(2) = cos(th); close3(c, n, T, "direction-of-the-angles"); double r = symr("r", 0, 100), ar = symr("ar", -10, 10), at = symr("at", -10, 10), ap = symr("ap", -10, 10); s.radius = r; close3(s.convertToCartesian(), n * r, 1e-4, "scales-with-radius"); CVecR3 f = s.convertSphericalVectorField(ar, at, ap), x; x(0) = ar * n(0) + at * cos(th) * cos(ph) - ap * sin(ph); x(1) = ar * n(1) + at * cos(th) * sin(ph) + ap * cos(ph); x(2) = ar * n(2) - at * sin(th); close3(f, x, 1e-4, "parts-of-the-field"); }
ENTRY p06_sides() { static const double V[7] = {0, 1, -1, 0.25, -3, 50, -1e-2}; CVecR3 v; for (int i = 0; i < 3; i++) v(i) = V[sym_choice(nm("v", i).c_str(), 7)]; Vector::Spherical s; s = v; double n = sqrt(v.dot(v)); sym_check_close(s.norm(), n, 1e-9, "radius-is-norm"); if (n > 0) { sym_check_close(cos(s.theta) * n, v(2), T, "polar-angle"); double q = sqrt(v(0) * v(0) + v(1) * v(1)); if (q > 0) { sym_check_close(cos(s.phi) * q, v(0), T, "azimuth"); sym_check_close(sin(s.phi) * q, v(1), T, "azimuth"); } } close3(s.convertToCartesian(), v, T, "round-trip"); s = CVecR3(0, 0, 0); close3(s.convertToCartesian(), CVecR3(0, 0, 0), 0, "set-again"); }

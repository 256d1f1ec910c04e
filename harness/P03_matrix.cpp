// @property P03
// @bounds fixed-size matrices 2x2, 3x3, 4x4, 3x4, 4x3 and run-time sized matrices up to 3x3 (products), 2x2 (x) 2x2 (Kronecker), sequences of up to 3 by 5 (convolution), comparisons up to 4x4; entries real |v| <= 100
// @assume inverses: determinant bounded away from zero by 0.5; 3x3 inverses with one symbolic row or column, 2x2 fully symbolic
// @entry p03_static
// @entry p03_product
// @entry p03_max
// @entry p03_det
// @entry p03_det4 time=60
// @entry p03_inv2 reach=swap,noswap
// @entry p03_inv3 shards=6 reach=ok
// @entry p03_singular reach=rejected
// @entry p03_dynamic shards=3
// @entry p03_dynprod shards=3
// @entry p03_kron
// @entry p03_conv
// @entry p03_slices
// @entry p03_sym
// @entry p03_qr time=60
// @entry p03_compare
// @entry p03_shapes reach=equal,different
// @entry p03_oblong
// @entry p03_integers
// @entry p03_complex
#include "common.h"
#include "math/matrix/Static.h"
#include "math/matrix/Dynamic.h"
typedef Math::Matrix::Dynamic<Real> DM; typedef Math::Matrix::Static<Real,3,4> M34;
template <class M> static void fillr(M& m, const char* n, double b) { for (std::size_t i = 0; i < m.nRows(); i++) for (std::size_t j = 0; j < m.nCols(); j++) m(i, j) = symr(std::string(n) + std::to_string(i) + std::to_string(j), -b, b); }
ENTRY p03_static() {
    MatR33 a, b; fillr(a, "a", 100); fillr(b, "b", 100); double k = sym_real("k", -10, 10);
    MatR33 s = a + b, m = a * k, c = a, d = a, e = a, f = a; c += b; d -= b; e *= k; f += k; MatR33 g(a);
    MatR33 t = a.transpose();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        sym_check_close(s(i, j), a(i, j) + b(i, j), 1e-9, "sum"); sym_check_close(c(i, j), a(i, j) + b(i, j), 1e-9, "sum-in-place"); sym_check_close(d(i, j), a(i, j) - b(i, j), 1e-9, "difference");
        sym_check_close(m(i, j), a(i, j) * k, 1e-9, "scale"); sym_check_close(e(i, j), a(i, j) * k, 1e-9, "scale-in-place"); sym_check_close(f(i, j), a(i, j) + k, 1e-9, "shift"); sym_check(t(j, i) == a(i, j), "transpose"); sym_check(g(i, j) == a(i, j), "copy"); sym_check(a.val(i * 3 + j) == a.val(i, j), "row-major"); }
    if (ab(k) > 0.01) { MatR33 q = a; q /= k; for (int i = 0; i < 9; i++) sym_check_close(q.val(i) * k, a.val(i), 1e-6, "divide"); }
    CVecR3 v = symR3("v", -10, 10), w = a * v; for (int i = 0; i < 3; i++) sym_check_close(w(i), a(i, 0) * v(0) + a(i, 1) * v(1) + a(i, 2) * v(2), 1e-6, "matrix-vector");
    MatR33 o; o.eye(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_check(o(i, j) == (i == j), "identity"); MatR33 z = a; z.zeros(); sym_check(z(0, 0) == 0 && z(2, 1) == 0, "zeros");
    MatR33 dg = a; dg.setInDiagonal(v); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_check(dg(i, j) == (i == j ? v(i) : a(i, j)), "diagonal");
    CVecR3 x = o * v; sym_check(same(x, v), "identity-action");
    double arr[9]; a.convertToArray(MATRICES_COL_MAJOR, arr); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_check(arr[i + 3 * j] == a(i, j), "column-major-export"); a.convertToArray(MATRICES_ROW_MAJOR, arr); for (int i = 0; i < 9; i++) sym_check(arr[i] == a.val(i), "row-major-export");
    std::vector<CVecR3> cv = a.convertToCartesianVector(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_check(cv[i](j) == a(i, j), "rows-as-vectors");
    std::vector<Real> r1 = a.cpRowToVector(1); MatR33 p = b; p.cpToRow(2, r1); for (int j = 0; j < 3; j++) sym_check(p(2, j) == a(1, j) && p(0, j) == b(0, j), "row-copy"); p = b; p.cpToCol(0, r1); for (int j = 0; j < 3; j++) sym_check(p(j, 0) == a(1, j) && p(j, 1) == b(j, 1), "column-copy");
    MatR33 low = a; low.cpLowerTri2UpperTri(); for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) { sym_check(low(i, j) == a(i, j), "lower-kept"); sym_check(low(j, i) == a(i, j), "upper-mirrored"); }
}
ENTRY p03_max() {
    Math::Matrix::Static<Real,2,3> a; fillr(a, "a", 100); double mx = a.maxVal(), mc = a.maxValInCol(1); bool hit = false, hc = false;
    for (int i = 0; i < 2; i++) { for (int j = 0; j < 3; j++) { sym_check(mx >= a(i, j), "max-bound"); hit |= mx == a(i, j); } sym_check(mc >= a(i, 1), "max-column-bound"); hc |= mc == a(i, 1); } sym_check(hit, "max-attained"); sym_check(hc, "max-column-attained");
}
ENTRY p03_product() {
    M34 a; MatR43 b; fillr(a, "a", 100); fillr(b, "b", 100); MatR33 c = a * b;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 4; k++) s += a(i, k) * b(k, j); sym_check_close(c(i, j), s, 1e-6, "product"); }
    MatR33 l = (b.transpose() * a.transpose()), t = c.transpose(); for (int i = 0; i < 9; i++) sym_check_close(l.val(i), t.val(i), 1e-6, "transpose-of-product");
    DM d(4, 2); fillr(d, "d", 100); DM e = a * d; sym_check(e.nRows() == 3 && e.nCols() == 2, "mixed-shape"); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) { double s = 0; for (int k = 0; k < 4; k++) s += a(i, k) * d(k, j); sym_check_close(e(i, j), s, 1e-6, "mixed-product"); }
}
static double det3(const double* m) { return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); }
ENTRY p03_det() {
    MatR33 a; fillr(a, "a", 10); double m[9]; for (int i = 0; i < 9; i++) m[i] = a.val(i);
    sym_check_close(a.getDeterminant3x3(), det3(m), 1e-6, "determinant-3x3"); MatR33 t = a.transpose(); sym_check_close(t.getDeterminant3x3(), det3(m), 1e-6, "determinant-of-transpose");
    MatR33 b = a; for (int j = 0; j < 3; j++) { b(0, j) = a(1, j); b(1, j) = a(0, j); } sym_check_close(b.getDeterminant3x3(), -det3(m), 1e-6, "determinant-row-swap");
}
ENTRY p03_det4() {
    MatR44 a; fillr(a, "a", 10); double s = 0;
    for (int c = 0; c < 4; c++) { double m[9]; int n = 0; for (int i = 1; i < 4; i++) for (int j = 0; j < 4; j++) if (j != c) m[n++] = a(i, j); s += (c % 2 ? -1 : 1) * a(0, c) * det3(m); }
    sym_check_close(a.getDeterminant4x4(), s, 1e-5, "determinant-4x4");
}
template <class M> static void isId(const M& p, int n, const char* id) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sym_check_close(p(i, j), i == j, 1e-6, id); }
ENTRY p03_inv2() {
    MatR22 a; fillr(a, "a", 10); double d = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0); sym_assume(ab(d) > 0.5); sym_reach(ab(a(0, 0)) < ab(a(1, 0)) ? "swap" : "noswap");
    MatR22 b = a; b.invert(); MatR22 p = a * b; isId(p, 2, "inverse-2x2");
}
ENTRY p03_inv3() {
    static const double K[9] = {2, -1, 3, 0, 1.5, -2, 4, 1, 0.5}; int which = sym_choice("which", 6), row = which % 3; MatR33 a; for (int i = 0; i < 9; i++) a.val(i) = which >= 3 ? K[(i * 2 + which) % 9] : K[i];
    for (int j = 0; j < 3; j++) { if (which < 3) a(row, j) = symr(nm("a", j), -10, 10); else a(j, row) = symr(nm("a", j), -10, 10); }
    double m[9]; for (int i = 0; i < 9; i++) m[i] = a.val(i); double d = det3(m); sym_assume(ab(d) > 0.5);
    MatR33 b = a; b.invert(); sym_reach("ok"); MatR33 p = b * a; isId(p, 3, "inverse-3x3");
}
ENTRY p03_singular() {
    sym_allow_abort(); DM a(2, 2); fillr(a, "a", 10); a(1, 0) = 0; a(0, 0) = 0;
    bool thrown = false; try { DM b = a.invert(); } catch (const std::exception&) { thrown = true; } sym_check(thrown, "singular-rejected"); sym_reach("rejected");
}
ENTRY p03_dynamic() {
    int r = 1 + sym_choice("r", 3), c = 1 + sym_choice("c", 3); DM a(r, c), b(r, c); for (int i = 0; i < r * c; i++) sym_check(a.val(i) == 0, "zero-initialised"); fillr(a, "a", 100); fillr(b, "b", 100); double k = sym_real("k", -10, 10);
    DM s = a + b, m = a * k, p(a), q, e, f; q = a; e = a; e += b; f = a; f *= k; DM g = a; g += k; DM t = a; t.transpose(); sym_check((int)t.nRows() == c && (int)t.nCols() == r, "transposed-shape"); sym_check((int)q.nRows() == r && (int)q.nCols() == c && (int)q.size() == r * c, "copied-shape");
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { sym_check_close(s(i, j), a(i, j) + b(i, j), 1e-9, "sum"); sym_check_close(e(i, j), a(i, j) + b(i, j), 1e-9, "sum-in-place"); sym_check_close(m(i, j), a(i, j) * k, 1e-9, "scale"); sym_check_close(f(i, j), a(i, j) * k, 1e-9, "scale-in-place"); sym_check_close(g(i, j), a(i, j) + k, 1e-9, "shift"); sym_check(t(j, i) == a(i, j), "transpose"); sym_check(p(i, j) == a(i, j) && q(i, j) == a(i, j), "copy"); }
    b(0, 0) = 7; p = b; sym_check(q(0, 0) == a(0, 0) && p(0, 0) == 7, "deep-copy"); p = *&p; sym_check(p(0, 0) == 7, "self-assignment");
    Real* rows[3]; for (int i = 0; i < r; i++) { rows[i] = new Real[c]; for (int j = 0; j < c; j++) rows[i][j] = a(i, j); } { DM w(r, c, rows); for (int i = 0; i < r * c; i++) sym_check(w.val(i) == a.val(i), "from-rows"); } for (int i = 0; i < r; i++) delete[] rows[i];
    std::vector<std::vector<Real>> vv(r, std::vector<Real>(c)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) vv[i][j] = b(i, j); DM x; x.copy(vv); for (int i = 0; i < r * c; i++) sym_check(x.val(i) == b.val(i), "from-nested");
    std::vector<Real> col(r, k); DM y; y = col; sym_check((int)y.nRows() == r && y.nCols() == 1 && y(r - 1, 0) == k, "from-column");
}
ENTRY p03_dynprod() {
    int r = 1 + sym_choice("r", 3), n = 1 + sym_choice("n", 3), c = 1 + sym_choice("c", 2); DM a(r, n), b(n, c); fillr(a, "a", 100); fillr(b, "b", 100); DM p = a * b; sym_check((int)p.nRows() == r && (int)p.nCols() == c, "product-shape");
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double s = 0; for (int k = 0; k < n; k++) s += a(i, k) * b(k, j); sym_check_close(p(i, j), s, 1e-6, "product"); }
}
ENTRY p03_kron() {
    int r = 1 + sym_choice("r", 2), c = 1 + sym_choice("c", 2), u = 1 + sym_choice("u", 3), v = 1 + sym_choice("v", 2); DM a(r, c), b(u, v); fillr(a, "a", 100); fillr(b, "b", 100); DM k = a.kron(b);
    sym_check((int)k.nRows() == r * u && (int)k.nCols() == c * v, "kronecker-shape"); for (int i = 0; i < r * u; i++) for (int j = 0; j < c * v; j++) sym_check_close(k(i, j), a(i / u, j / v) * b(i % u, j % v), 1e-6, "kronecker");
}
ENTRY p03_conv() {
    int n = 1 + sym_choice("n", 3), m = 1 + sym_choice("m", 5); if (sym_choice("swap", 2)) std::swap(n, m); DM a(n, 1), b(m, 1); fillr(a, "a", 100); fillr(b, "b", 100); DM c = a.convolute(b); sym_check((int)c.nRows() == n + m - 1, "convolution-length");
    for (int k = 0; k < n + m - 1; k++) { double s = 0; for (int i = 0; i < n; i++) if (k - i >= 0 && k - i < m) s += a(i, 0) * b(k - i, 0); sym_check_close(c(k, 0), s, 1e-6, "convolution"); }
}
ENTRY p03_slices() {
    DM a(3, 4); fillr(a, "a", 100); int f = sym_choice("f", 3), l = f + sym_choice("l", 3 - f); DM e = a.eliminateColumns(f, l + 0); sym_check(e.nCols() == 4 - (std::size_t)(l - f + 1), "columns-removed");
    for (int i = 0; i < 3; i++) for (int j = 0; j < (int)e.nCols(); j++) sym_check(e(i, j) == a(i, j < f ? j : j + (l - f + 1)), "columns-kept");
    std::pair<std::size_t, std::size_t> R(f, l), Cc(1, 3); DM s = a.sub(R, Cc); sym_check((int)s.nRows() == l - f + 1 && s.nCols() == 3, "sub-shape"); for (int i = 0; i < (int)s.nRows(); i++) for (int j = 0; j < 3; j++) sym_check(s(i, j) == a(f + i, 1 + j), "sub-block");
    DM c = a.copy(f, l + 1, 0, 4); for (int i = 0; i < (int)c.nRows(); i++) for (int j = 0; j < 4; j++) sym_check(c(i, j) == a(f + i, j), "row-range"); sym_check(*a.valPtr(2, 3) == a(2, 3), "element-pointer");
}
ENTRY p03_sym() {
    MatR33 a; fillr(a, "a", 100); bool s = true; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s &= a(i, j) == a(j, i); sym_check(a.isSymmetric() == s, "symmetric"); sym_check(a.isSquare(), "square");
    MatR33 b = a; b.cpLowerTri2UpperTri(); sym_check(b.isSymmetric(), "mirrored-is-symmetric"); M34 r; sym_check(!r.isSquare(), "not-square");
}
ENTRY p03_qr() {
    MatR22 a, q, r; fillr(a, "a", 5); double d = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0); sym_assume(ab(d) > 0.5); a.factorizeQR_(q, r);
    sym_check(r(1, 0) == 0, "upper-triangular"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { sym_check_close(q(i, 0) * r(0, j) + q(i, 1) * r(1, j), a(j, i), 1e-6, "factors-multiply-back"); sym_check_close(q(0, i) * q(0, j) + q(1, i) * q(1, j), i == j, 1e-6, "orthonormal"); }
}
ENTRY p03_compare() {
    MatR22 a, b; fillr(a, "a", 10); fillr(b, "b", 10); bool eq = true, far = false; for (int i = 0; i < 4; i++) { eq &= a.val(i) == b.val(i); far |= ab(a.val(i) - b.val(i)) > 1e-9; } if (eq) sym_check(a == b, "equal"); if (far) sym_check(!(a == b), "different");
    int k = 0; while (k < 4 && a.val(k) == b.val(k)) k++; sym_check((a < b) == (k < 4 && a.val(k) < b.val(k)), "lexicographic"); sym_check(!((a < b) && (b < a)), "asymmetric");
    DM c(2, 2), d(2, 2), e(2, 1); for (int i = 0; i < 4; i++) { c.val(i) = a.val(i); d.val(i) = b.val(i); } if (eq) sym_check(c == d, "dynamic-equal"); if (far) sym_check(!(c == d), "dynamic-different"); sym_check(!(c == e), "shape-differs");
    MatR22 f; f = c; sym_check(f == a, "from-dynamic");
}
// matrices of any shape that differ in one place, or in none
ENTRY p03_shapes() {
    int r = 1 + sym_choice("r", 4), c = 1 + sym_choice("c", 4), k = sym_choice("at", 16); if (k >= r * c) return; DM a(r, c); fillr(a, "a", 100); DM b(a); double v = symr("v", -100, 100); b.val(k) = v; bool same = v == a.val(k), far = ab(v - a.val(k)) > 1e-6; if (same) { sym_check(a == b && b == a, "equal"); sym_reach("equal"); } else if (far) { sym_check(!(a == b) && !(b == a), "different"); sym_reach("different"); }
    DM t(b); t.transpose(); if (r != c) sym_check(!(t == b), "shape-differs"); t.transpose(); sym_check(t == b, "transposed-twice"); DM w(r + 1, c), z(r, c + 1); sym_check(!(a == w) && !(a == z) && !(w == a) && !(z == a), "larger-differs"); DM q; q = a; q = w; sym_check(q == w && (int)q.nRows() == r + 1, "takes-another-shape");
}
ENTRY p03_oblong() {
    M34 a, b; fillr(a, "a", 100); fillr(b, "b", 100); double k = sym_real("k", -10, 10); M34 s = a + b, c(a), d(a), e(a), f(a), m = a * k; c += b; d -= b; e *= k; f += k; MatR43 t = a.transpose(); M34 h; std::vector<std::vector<Real>> v(3, std::vector<Real>(4)); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) v[i][j] = b(i, j); h.copy(v); DM y(3, 4), z(3, 4); fillr(y, "y", 100); M34 x; x = y; sym_check(a.nRows() == 3 && a.nCols() == 4 && t.nRows() == 4 && t.nCols() == 3, "shape");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) { sym_check_close(s(i, j), a(i, j) + b(i, j), 1e-9, "sum"); sym_check_close(c(i, j), a(i, j) + b(i, j), 1e-9, "sum-in-place"); sym_check_close(d(i, j), a(i, j) - b(i, j), 1e-9, "difference"); sym_check_close(e(i, j), a(i, j) * k, 1e-9, "scale-in-place"); sym_check_close(m(i, j), a(i, j) * k, 1e-9, "scale"); sym_check_close(f(i, j), a(i, j) + k, 1e-9, "shift"); sym_check(t(j, i) == a(i, j), "transpose"); sym_check(h(i, j) == b(i, j), "from-nested"); sym_check(x(i, j) == y(i, j), "from-dynamic"); }
    double arr[13]; arr[12] = 7; a.convertToArray(MATRICES_COL_MAJOR, arr); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) sym_check(arr[i + 3 * j] == a(i, j), "column-major-export"); y.convertToArray(MATRICES_ROW_MAJOR, arr); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) sym_check(arr[4 * i + j] == y(i, j), "row-major-export"); sym_check(arr[12] == 7, "exports-no-more");
    int at = sym_choice("at", 12); M34 o(a); o.val(at) = k * 10; if (o.val(at) == a.val(at)) sym_check(o == a && !(o < a) && !(a < o), "equal"); else { sym_check((o < a) == (k * 10 < a.val(at)) && (a < o) == (a.val(at) < k * 10), "first-difference-orders"); if (ab(k * 10 - a.val(at)) > 1e-6) sym_check(!(o == a), "different"); }
}
ENTRY p03_integers() {
    typedef Math::Matrix::Static<Int,2,3> I; typedef Math::Matrix::Static<Real,2,3> R; typedef Math::Matrix::Dynamic<Int> DI; I a, b; DI d(2, 3); for (int i = 0; i < 6; i++) { a.val(i) = (Int)symi(nm("a", i), -1000, 1000); b.val(i) = (Int)symi(nm("b", i), -1000, 1000); d.val(i) = (Int)symi(nm("d", i), -1000, 1000); } R r; r.assign(a); R q; q = d; I n; n = d; I s = a + b, m(a); m -= b; I k = a; k *= 3; for (int i = 0; i < 6; i++) { sym_check(r.val(i) == (Real)a.val(i), "assigned"); sym_check(q.val(i) == (Real)d.val(i) && n.val(i) == d.val(i), "from-dynamic"); sym_check(s.val(i) == a.val(i) + b.val(i) && m.val(i) == a.val(i) - b.val(i) && k.val(i) == 3 * a.val(i), "arithmetic"); } bool eq = true; for (int i = 0; i < 6; i++) eq = eq && a.val(i) == b.val(i); sym_check((a == b) == eq, "equality"); DI e(3, 2); for (int i = 0; i < 6; i++) e.val(i) = b.val(i); DI p = d * e; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { Int x = 0; for (int l = 0; l < 3; l++) x += d(i, l) * e(l, j); sym_check(p(i, j) == x, "product"); }
}
ENTRY p03_complex() {
    typedef std::complex<Real> C; MatC22 a, b; double ar[4], ai[4], br[4], bi[4]; for (int i = 0; i < 4; i++) { ar[i] = symr(nm("ar", i), -9, 9); ai[i] = symr(nm("ai", i), -9, 9); br[i] = symr(nm("br", i), -9, 9); bi[i] = symr(nm("bi", i), -9, 9); a.val(i) = C(ar[i], ai[i]); b.val(i) = C(br[i], bi[i]); } MatC22 s = a + b, m(a), p = a * b, t = a.transpose(); m -= b; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { int k = 2 * i + j; sym_check_close(s(i, j).real(), ar[k] + br[k], 1e-9, "sum"); sym_check_close(m(i, j).imag(), ai[k] - bi[k], 1e-9, "difference"); double x = 0, y = 0; for (int l = 0; l < 2; l++) { int u = 2 * i + l, v = 2 * l + j; x += ar[u] * br[v] - ai[u] * bi[v]; y += ar[u] * bi[v] + ai[u] * br[v]; } sym_check_close(p(i, j).real(), x, 1e-6, "product"); sym_check_close(p(i, j).imag(), y, 1e-6, "product"); sym_check(t(j, i) == a(i, j), "transpose"); }
}

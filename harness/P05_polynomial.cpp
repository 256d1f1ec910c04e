// @property P05
// @bounds polynomials with up to 3 monomials of any powers 0..3 (repeated powers included) in 1 to 3 variables, coefficients |c| <= 100 (zero included), evaluated anywhere in [-3,3]; Lagrange bases of line order 1-4, triangle order 1-3, tetrahedron order 1-2 (3 thorough) at any point with barycentric coordinates in [-2,2]
// @entry p05_eval
// @entry p05_product shards=4
// @entry p05_outer
// @entry p05_derive shards=2 reach=constant,power
// @entry p05_clean shards=2 reach=zero
// @entry p05_line
// @entry p05_tri shards=3
// @entry p05_tet shards=3 time=120
// @entry p05_quad time=60
#include "common.h"
#include "math/function/Polynomial.h"
#include "math/simplex/Line.h"
#include "math/simplex/Triangle.h"
#include "math/simplex/Tetrahedron.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
typedef Function::Polynomial<Real> P;
static double pw(double x, int n) { double r = 1; for (int i = 0; i < n; i++) r *= x; return r; }
struct Mono { double c; int p[3]; };
static P make(const char* n, int nm_, int nv, int maxp, Mono* o) {
    P r(nv); for (int i = 0; i < nm_; i++) { o[i].c = symr(nm(n, i), -100, 100); std::vector<Int> v; for (int k = 0; k < nv; k++) { o[i].p[k] = sym_choice((nm(n, i) + nm("p", k)).c_str(), maxp + 1); v.push_back(o[i].p[k]); } if (nv == 1 && i == 1) r.addMonomial(o[i].c, v[0]); else r.addMonomial(o[i].c, v); } return r;
}
static double val(const Mono* o, int n, int nv, const double* x) { double s = 0; for (int i = 0; i < n; i++) { double t = o[i].c; for (int k = 0; k < nv; k++) t *= pw(x[k], o[i].p[k]); s += t; } return s; }
ENTRY p05_eval() {
    Mono o[3]; int nv = 1 + sym_choice("nv", 3); P p = make("a", nv == 1 ? 3 : 2, nv, nv == 3 ? 1 : nv == 2 ? 2 : 3, o); int n = nv == 1 ? 3 : 2; double x[3]; for (int k = 0; k < nv; k++) x[k] = symr(nm("x", k), -3, 3); double e = val(o, n, nv, x);
    if (nv == 1) { sym_check_close(p(x[0]), e, 1e-6, "value-1"); Vector::Cartesian<Real,1> v; v(0) = x[0]; sym_check_close(p.eval(v), e, 1e-6, "value-1-vector"); } else if (nv == 2) { CVecR2 v; v(0) = x[0]; v(1) = x[1]; sym_check_close(p.eval(v), e, 1e-6, "value-2"); } else { CVecR3 v; for (int k = 0; k < 3; k++) v(k) = x[k]; sym_check_close(p.eval(v), e, 1e-6, "value-3"); }
    sym_check((int)p.numberOfMonomials() == n && (int)p.numberOfVariables() == nv, "shape"); Int mp = 0; for (int i = 0; i < n; i++) for (int k = 0; k < nv; k++) { sym_check(p.monomialPower(i, k) == o[i].p[k], "powers-kept"); if (o[i].p[k] > mp) mp = o[i].p[k]; } sym_check(p.maxPower() == mp, "max-power");
    P q(p), r; r = p; sym_check(q == p && r == p, "copies-equal"); sym_check(r.numberOfVariables() == p.numberOfVariables(), "copied-variables"); double d = symr("d", 0.5, 10); r /= d; for (int i = 0; i < n; i++) sym_check_close(r.monomialValue(i) * d, o[i].c, 1e-9, "scaled-coefficients");
    P s = p; s.addMonomial(1.0, std::vector<Int>(nv, 0)); sym_check(!(s == p), "extra-monomial-differs");
}
ENTRY p05_product() { // two-monomial factors, including repeated powers and zero coefficients
    Mono a[2], b[2]; int eq = sym_choice("op", 2); P p = make("a", 2, 1, 2, a), q = make("b", 2, 1, 1, b); P r; if (eq) { r = p; r *= q; } else r = p * q; double x = symr("x", -3, 3);
    sym_check(r.numberOfVariables() == 1, "one-variable"); sym_check_close(r(x), val(a, 2, 1, &x) * val(b, 2, 1, &x), 1e-6, "product-value");
}
ENTRY p05_outer() {
    Mono a[2], b[2]; int eq = sym_choice("op", 2); P p = make("a", 2, 1, 2, a), q = make("b", 2, 1, 1, b); P r; if (eq) { r = p; r ^= q; } else r = p ^ q; double x = symr("x", -3, 3), y = symr("y", -3, 3); CVecR2 v; v(0) = x; v(1) = y;
    sym_check(r.numberOfVariables() == 2, "variables-joined"); sym_check_close(r.eval(v), val(a, 2, 1, &x) * val(b, 2, 1, &y), 1e-6, "outer-product-value");
}
ENTRY p05_derive() {
    Mono o[2]; P p = make("a", 2, 2, 2, o); int k = sym_choice("var", 2); p.derive(k); sym_reach(o[0].p[k] ? "power" : "constant"); CVecR2 v; double x[2]; for (int i = 0; i < 2; i++) v(i) = x[i] = symr(nm("x", i), -3, 3);
    double e = 0; for (int i = 0; i < 2; i++) if (o[i].p[k]) e += o[i].c * o[i].p[k] * pw(x[k], o[i].p[k] - 1) * pw(x[1 - k], o[i].p[1 - k]); sym_check_close(p.eval(v), e, 1e-6, "derivative-value"); for (int i = 0; i < (int)p.numberOfMonomials(); i++) sym_check(p.monomialValue(i) != 0, "no-null-monomial-left");
}
ENTRY p05_clean() {
    Mono o[3]; P p = make("a", 3, 1, 1, o); p.removeZeros(); int n = 0; for (int i = 0; i < 3; i++) { if (o[i].c != 0) n++; else sym_reach("zero"); } sym_check((int)p.numberOfMonomials() == n, "zeros-removed"); int j = 0; for (int i = 0; i < 3; i++) if (o[i].c != 0) { if (j < (int)p.numberOfMonomials()) { sym_check(p.monomialValue(j) == o[i].c, "others-kept"); sym_check(p.monomialPower(j, 0) == o[i].p[0], "powers-of-others-kept"); } j++; }
}
template <int K> static void ev(const Vector::Cartesian<Real, K>& x, const P* const* l, int np, const int (*ix)[4], int N, const P* const (*d)[4]) {
    double s = 0, m[4] = {0, 0, 0, 0}; for (int i = 0; i < np; i++) { double v = l[i]->eval(x); s += v; for (int k = 0; k < K; k++) m[k] += v * ix[i][k]; } sym_check_close(s, 1, 1e-6, "partition-of-unity"); for (int k = 0; k < K; k++) sym_check_close(m[k], N * x(k), 1e-6, "positions-reproduced");
    for (int i = 0; i < np; i++) for (int k = 0; k < K; k++) { double e = 0; for (std::size_t q = 0; q < l[i]->numberOfMonomials(); q++) { int pk = l[i]->monomialPower(q, k); if (!pk) continue; double t = l[i]->monomialValue(q) * pk * pw(x(k), pk - 1); for (int j = 0; j < K; j++) if (j != k) t *= pw(x(j), l[i]->monomialPower(q, j)); e += t; } sym_check_close(d[i][k]->eval(x), e, 1e-6, "derivative-polynomials"); }
    for (int j = 0; j < np; j++) { Vector::Cartesian<Real, K> y; for (int k = 0; k < K; k++) y(k) = ix[j][k] / (double)N; for (int i = 0; i < np; i++) sym_check_close(l[i]->eval(y), i == j, 1e-9, "nodal"); }
    for (int i = 0; i < np; i++) { int t = 0; for (int k = 0; k < K; k++) { t += ix[i][k]; sym_check(ix[i][k] >= 0, "index-nonnegative"); } sym_check(t == N, "indices-sum-to-order"); for (int j = 0; j < i; j++) { bool eq = true; for (int k = 0; k < K; k++) eq &= ix[i][k] == ix[j][k]; sym_check(!eq, "indices-distinct"); } }
}
// weights integrate exactly every homogeneous barycentric polynomial of the basis degree: symbolic coefficients
static double fac(int n) { return n < 2 ? 1 : n * fac(n - 1); }
static void weights(const std::vector<Real>& w, int np, const int (*ix)[4], int N, int K) {
    sym_check((int)w.size() == np, "weight-per-node"); double q = 0, e = 0; for (int a = 0; a < np; a++) { double c = symr(nm("c", a), -10, 10), s = 0; for (int i = 0; i < np; i++) { double t = w[i]; for (int k = 0; k < K; k++) t *= pw(ix[i][k] / (double)N, ix[a][k]); s += t; } q += c * s; double x = fac(K - 1) / fac(N + K - 1); for (int k = 0; k < K; k++) x *= fac(ix[a][k]); e += c * x; }
    sym_check_close(q, e, 1e-6, "weights-integrate-exactly");
}
template <class S, int K> static void simplex(int N, bool quad) {
    S s; const int np = S::np; std::vector<const P*> l(np); std::vector<std::array<int, 4>> ix(np); std::vector<std::array<const P*, 4>> d(np); for (int i = 0; i < np; i++) { l[i] = &s.getLagr(i); for (int k = 0; k < K; k++) { ix[i][k] = (int)s.nodeIndex(i, k); d[i][k] = &s.getDLagr(i, k); } }
    const int(*px)[4] = (const int(*)[4])ix.data(); if (quad) { weights(s.getWeights(), np, px, N, K); return; }
    Vector::Cartesian<Real, K> x; double r = 1; for (int k = 0; k + 1 < K; k++) { x(k) = symr(nm("x", k), -1, 1); r -= x(k); } x(K - 1) = r; ev<K>(x, l.data(), np, px, N, (const P* const(*)[4])d.data());
}
template <int N> static void line() { typedef Simplex::Line<N> L; simplex<L, 2>(N, false); L s; int f = sym_choice("f", 2); sym_check(s.nodeIndex(s.sideNode(f, 0), f) == N && s.vertex(f) == s.sideNode(f, 0), "side-node-is-vertex"); }
ENTRY p05_line() { switch (sym_choice("N", 4)) { case 0: return line<1>(); case 1: return line<2>(); case 2: return line<3>(); default: return line<4>(); } }
template <int N> static void tri() {
    typedef Simplex::Triangle<N> T; simplex<T, 3>(N, false); T s; for (int f = 0; f < 3; f++) { sym_check((int)s.nodeIndex(s.vertex(f), f) == N, "vertex-corner"); for (int i = 0; i < 2; i++) sym_check((int)s.nodeIndex(s.sideVertex(f, i), (f + i) % 3) == N, "side-corner"); for (int i = 0; i <= N; i++) { std::size_t n = s.sideNode(f, i); sym_check((int)s.nodeIndex(n, f) == N - i && (int)s.nodeIndex(n, (f + 1) % 3) == i && s.nodeIndex(n, (f + 2) % 3) == 0, "side-nodes-run-along-side"); CVecR3 c = s.coordinate(n); sym_check_close(c(f) * N, N - i, 1e-12, "coordinate"); } }
}
ENTRY p05_tri() { switch (sym_choice("N", 3)) { case 0: return tri<1>(); case 1: return tri<2>(); default: return tri<3>(); } }
template <int N> static void tet() {
    typedef Simplex::Tetrahedron<N> T; simplex<T, 4>(N, false); T s; Simplex::Triangle<N> t; static const int V[4][3] = {{0, 1, 2}, {1, 0, 3}, {2, 3, 0}, {3, 2, 1}};
    for (int f = 0; f < 4; f++) { sym_check((int)s.nodeIndex(s.vertex(f), f) == N, "vertex-corner"); for (int i = 0; i < 3; i++) sym_check((int)s.nodeIndex(s.sideVertex(f, i), V[f][i]) == N, "face-corner"); for (int i = 0; i < (int)T::nfp; i++) { std::size_t n = s.sideNode(f, i); for (int j = 0; j < 3; j++) sym_check(s.nodeIndex(n, V[f][j]) == t.nodeIndex(i, j), "face-nodes-follow-triangle"); CVecR4 c = s.sideCoordinate(f, i), g = s.coordinate(n); for (int k = 0; k < 4; k++) { sym_check_close(c(k) * N, (double)s.nodeIndex(n, k), 1e-12, "face-coordinate"); sym_check(c(k) == g(k), "coordinate"); } } }
}
ENTRY p05_tet() { int n = sym_choice("N", 2 + THOROUGH); if (n == 0) return tet<1>(); if (n == 1) return tet<2>();
#if THOROUGH
    tet<3>();
#endif
}
ENTRY p05_quad() { switch (sym_choice("S", 7)) { case 0: return simplex<Simplex::Line<1>, 2>(1, true); case 1: return simplex<Simplex::Line<3>, 2>(3, true); case 2: return simplex<Simplex::Line<4>, 2>(4, true); case 3: return simplex<Simplex::Triangle<1>, 3>(1, true); case 4: return simplex<Simplex::Triangle<3>, 3>(3, true); case 5: return simplex<Simplex::Tetrahedron<1>, 4>(1, true); default: return simplex<Simplex::Tetrahedron<2>, 4>(2, true); } }

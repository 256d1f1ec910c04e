// @property P07
// @bounds interpolation tables of 1-4 samples in any insertion order evaluated anywhere; Gaussian spread in [0.1,10], delay and time in [-20,20], carrier and frequency in [-5,5]; band-limited signals with 0.1 <= fmin < fmax <= 10; transforms of 1-3 samples; sampling ranges within +-100 with up to 5 points; tables read from files of 1-3 lines with or without a final line break
// @assume exponential is only known to be positive, strictly increasing and 1 at 0; sine and cosine only through sin^2+cos^2=1 and parity
// @entry p07_interp shards=3 reach=below,inside,above,node
// @entry p07_linear
// @entry p07_empty
// @entry p07_file reach=newline,nonewline
// @entry p07_gauss time=60
// @entry p07_gausssym
// @entry p07_fourier
// @entry p07_band time=60
// @entry p07_bandbad reach=rejected,accepted
// @entry p07_dtft
// @entry p07_space
// @entry p07_log
// @entry p07_stat
#include "common.h"
#include <complex>
#include <fstream>
#include <iomanip>
#include <stdexcept>
#include "math/function/Gaussian.h"
#include "math/function/BandLimited.h"
#include "math/function/LinearInterpolation.h"
#include "math/util/DTFT.h"
#include "math/util/SpaceGenerator.h"
#include "math/util/Statistic.h"
typedef Function::LinearInterpolation<Real, Real> LI; typedef std::complex<Real> Z;
static const double PI2 = 2.0 * Constants::pi;
static double interp(const double* x, const double* y, int n, double p) { // x strictly increasing
    if (p <= x[0]) return y[0]; for (int i = 1; i < n; i++) if (p <= x[i]) return y[i - 1] + (y[i] - y[i - 1]) * (p - x[i - 1]) / (x[i] - x[i - 1]); return y[n - 1]; }
ENTRY p07_interp() {
    int n = 1 + sym_choice("n", 3); double x[4], y[4]; for (int i = 0; i < n; i++) { y[i] = symr(nm("y", i), -100, 100); x[i] = symr(nm("x", i), -100, 100); if (i) sym_assume(x[i] > x[i - 1] + 0.01); }
    int sh = sym_choice("order", n); bool rev = sym_bool("reversed"); std::vector<std::pair<Real, Real>> v; for (int i = 0; i < n; i++) { int k = ((rev ? n - 1 - i : i) + sh) % n; v.push_back(std::make_pair(x[k], y[k])); } LI f(v); double p = symr("p", -120, 120); double r = f(p);
    sym_reach(p < x[0] ? "below" : p > x[n - 1] ? "above" : "inside"); for (int i = 0; i < n; i++) if (p == x[i]) { sym_reach("node"); sym_check(r == y[i], "sample-reproduced"); } sym_check_close(r, interp(x, y, n, p), 1e-6, "piecewise-linear"); if (p < x[0]) sym_check(r == y[0], "held-before"); if (p > x[n - 1]) sym_check(r == y[n - 1], "held-after"); sym_check(f.eval(p) == r, "eval-same");
    LI* c = f.clone(); sym_check(*c == f && (*c)(p) == r, "clone-equal"); delete c; v[0].second += 1; LI g(v); sym_check(!(g == f), "different-table-differs"); sym_check(!(Function::Gaussian(1, 0) == f) && !(f == Function::Gaussian(1, 0)), "different-kind-differs");
}
ENTRY p07_linear() { double a = symr("a", -10, 10), b = symr("b", -10, 10), p = symr("p", 0, 3); std::vector<std::pair<Real, Real>> v; for (int i = 0; i < 4; i++) v.push_back(std::make_pair((Real)i, a * i + b)); LI f(v); sym_check_close(f(p), a * p + b, 1e-6, "reproduces-lines"); }
ENTRY p07_empty() { LI f; bool t = false; double p = symr("p", -10, 10); try { f(p); } catch (const std::out_of_range&) { t = true; } sym_check(t, "no-data-rejected"); t = false; try { LI g(std::string("p07_absent.txt")); } catch (const std::exception&) { t = true; } sym_check(t, "missing-file-rejected"); }
ENTRY p07_file() {
    int n = 1 + sym_choice("n", 3); bool nl = sym_bool("newline"); sym_reach(nl ? "newline" : "nonewline"); double x[3], y[3]; { std::ofstream o("p07_table.txt"); o << std::setprecision(17); for (int i = 0; i < n; i++) { x[i] = symr(nm("x", i), -100, 100); y[i] = symr(nm("y", i), -100, 100); if (i) sym_assume(x[i] > x[i - 1] + 0.01); o << x[i] << " " << y[i]; if (nl || i + 1 < n) o << "\n"; } o.close(); }
    LI f(std::string("p07_table.txt")); double p = symr("p", -120, 120); sym_check_close(f(p), interp(x, y, n, p), 1e-6, "file-table-interpolated");
}
ENTRY p07_gauss() {
    double s = symr("s", 0.1, 10), d = symr("d", -20, 20), t = symr("t", -20, 20), fq = symr("f", -5, 5); Function::Gaussian g(s, d), h(s, d, fq); double v = g(t), q = (t - d) / s; q = q * q / 2; sym_check(v >= exp(-q * (1 + 1e-9) - 1e-9) * (1 - 1e-9) && v <= exp(-q * (1 - 1e-9) + 1e-9) * (1 + 1e-9), "bell-shape");
    sym_check_close(h(t), v * cos(PI2 * fq * t), 1e-9, "carrier-modulates"); sym_check(h.getSpread() == s && h.getDelay() == d && h.getFreq() == fq, "parameters-kept"); Function::Gaussian* c = h.clone(); sym_check(*c == h, "clone-equal"); sym_check_close((*c)(t), h(t), 1e-12, "clone-value"); delete c; Function::Gaussian k(s, d, fq + 1), m(s, d + 1, fq), o(s + 1, d, fq); sym_check(!(k == h) && !(m == h) && !(o == h), "different-parameters-differ");
}
ENTRY p07_gausssym() { double s = symr("s", 0.1, 10), d = symr("d", -20, 20), x = symr("x", 0, 20), y = symr("y", 0, 20); Function::Gaussian g(s, d); sym_check_close(g(d), 1, 1e-12, "peak-at-delay"); sym_check_close(g(d + x), g(d - x), 1e-9, "symmetric"); sym_check(g(d + x) <= 1 && g(d + x) >= 0, "between-zero-and-one"); if (x > y + 1e-3) sym_check(g(d + x) <= g(d + y), "decays"); }
ENTRY p07_fourier() { // same transform convention as the sampled transform: exp(-i 2 pi f t)
    double s = symr("s", 0.1, 10), d = symr("d", -20, 20), f = symr("f", -5, 5); Function::Gaussian g(s, d), z(s, 0); Z a = g.getFourier(f), b = z.getFourier(f); double c = cos(PI2 * f * d), n = sin(PI2 * f * d); sym_check(ab(a.real() - b.real() * c) <= 1e-9 * b.real(), "delay-is-phase"); sym_check(ab(a.imag() + b.real() * n) <= 1e-9 * b.real(), "delay-phase-lags"); sym_check_close(b.imag(), 0, 1e-12, "even-signal-real-spectrum");
    double e = s * PI2 * f; e = e * e / 2; double k = s * 2.5066282746310002; sym_check(b.real() <= k * exp(-e * (1 - 1e-9) + 1e-9) * (1 + 1e-9) && b.real() >= k * exp(-e * (1 + 1e-9) - 1e-9) * (1 - 1e-9), "gaussian-spectrum"); sym_check_close(z.getFourier(-f).real(), b.real(), 1e-9, "even-spectrum");
}
ENTRY p07_band() {
    double lo = symr("lo", 0.1, 10), hi = symr("hi", 0.1, 10); sym_assume(lo < hi - 0.01); Function::BandLimited g(lo, hi); double x = symr("x", 0.001, 20), d = 20 / lo, w = PI2 * (hi - lo) / 2 * x, sp = 10 / hi, e = x * x / (sp * sp) / 2; double v = g(d + x);
    sym_check_close(v * w, sin(w) * exp(-e) * cos(PI2 * (hi + lo) / 2 * x), 1e-6, "band-limited-pulse"); sym_check_close(g(d - x), v, 1e-9, "symmetric-about-delay"); Function::BandLimited *c = g.clone(), o(lo, hi + 1), o2(lo * 0.5, hi); sym_check(*c == g && !(o == g) && !(o2 == g), "equality"); delete c;
}
ENTRY p07_bandbad() { double lo = symr("lo", -10, 10), hi = symr("hi", -10, 10); bool t = false; try { Function::BandLimited g(lo, hi); } catch (const std::logic_error&) { t = true; } sym_reach(t ? "rejected" : "accepted"); sym_check(t == !(lo > 0 && hi > lo), "valid-band-only"); }
ENTRY p07_dtft() {
    int n = 1 + sym_choice("n", 3); double f = symr("f", -5, 5); std::vector<std::pair<Real, Z>> a, b, c; double sr = 0, si = 0, k = symr("k", -10, 10), L = 0, t0 = 0; for (int i = 0; i < n; i++) { double t = symr(nm("t", i), -5, 5), re = symr(nm("re", i), -10, 10), im = symr(nm("im", i), -10, 10), r2 = symr(nm("q", i), -10, 10); if (!i) t0 = t; L = t - t0; a.push_back(std::make_pair(t, Z(re, im))); b.push_back(std::make_pair(t, Z(r2, 0))); c.push_back(std::make_pair(t, Z(re + k * r2, im))); double C = cos(PI2 * f * t), S = sin(PI2 * f * t); sr += re * C + im * S; si += im * C - re * S; }
    Z A = Util::getDTFT(a, f), B = Util::getDTFT(b, f), Cc = Util::getDTFT(c, f); sym_check_close(A.real() * n, sr * L, 1e-6, "transform-definition-real"); sym_check_close(A.imag() * n, si * L, 1e-6, "transform-definition-imaginary"); sym_check_close(Cc.real(), A.real() + k * B.real(), 1e-6, "linear-real"); sym_check_close(Cc.imag(), A.imag() + k * B.imag(), 1e-6, "linear-imaginary");
}
ENTRY p07_space() { int n = 1 + sym_choice("n", 5); double a = symr("a", -100, 100), b = symr("b", -100, 100); std::vector<Real> v = Util::linspace(std::pair<Real, Real>(a, b), n); sym_check((int)v.size() == n, "count"); sym_check_close(v.back(), b, 1e-9, "ends-at-upper"); if (n > 1) { sym_check_close(v[0], a, 1e-9, "starts-at-lower"); for (int i = 0; i < n; i++) sym_check_close((v[i] - a) * (n - 1), (b - a) * i, 1e-6, "equally-spaced"); } }
ENTRY p07_log() { int n = 1 + sym_choice("n", 4); double a = symr("a", -3, 3), b = symr("b", -3, 3); std::vector<Real> v = Util::logspace(std::pair<Real, Real>(a, b), n), l = Util::linspace(std::pair<Real, Real>(a, b), n); sym_check((int)v.size() == n, "count"); for (int i = 0; i < n; i++) sym_check_close(v[i], pow(10.0, l[i]), 1e-9, "exponents-equally-spaced"); int p = sym_choice("p", 4); std::vector<Real> d = Util::logspace(std::pair<Real, Real>(-1, p), p + 2); double e = 0.1; for (int i = 0; i < p + 2; i++, e *= 10) sym_check_close(d[i], e, 1e-9, "decades"); }
ENTRY p07_stat() { int n = 1 + sym_choice("n", 4); std::vector<Real> v; double s = 0; for (int i = 0; i < n; i++) { v.push_back(symr(nm("v", i), -100, 100)); s += v[i]; } sym_check_close(Util::sum(v), s, 1e-9, "sum"); sym_check_close(Util::mean(v) * n, s, 1e-9, "mean"); sym_check_close(Util::meanDifference(v) * (n - 1), v[n - 1] - v[0], 1e-9, "mean-difference"); if (n == 1) sym_check(Util::meanDifference(v) == 0, "single-value-no-difference"); }

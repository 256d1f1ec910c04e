// @property P01
// @bounds all finite real operands with |v| <= 1e6 and scale 0 (automatic) or in [1e-3,1e6]; three operands for ordering laws
// @entry p01_equal reach=eq,ne
// @entry p01_order reach=lt,gt,eq
// @entry p01_scale reach=eq,ne
// @entry p01_round reach=up,down
// @entry p01_mono reach=apart
// @entry p01_ceil reach=low,high
// @entry p01_zero reach=tiny,mixed
#include "sym.h"
#include "math/util/Real.h"
using namespace SEMBA; using namespace SEMBA::Math; using namespace SEMBA::Math::Util; namespace U = SEMBA::Math::Util;
static double ab(double x) { return x < 0 ? -x : x; }
ENTRY p01_equal() {
    double a = sym_real("a", -1e6, 1e6), b = sym_real("b", -1e6, 1e6);
    bool e = equal(a, b);
    sym_check(e == equal(b, a), "symmetric");
    sym_check(equal(a, a), "reflexive");
    sym_check(notEqual(a, b) == !e, "not-equal-is-negation");
    double d = ab(a - b), m = ab(a + b);
    if (ab(a) > 1e-12 && ab(b) > 1e-12) {
        if (d <= 0.99e-10 * m) { sym_reach("eq"); sym_check(e, "close-values-equal"); }
        if (d >= 1.01e-10 * m && m > 0) { sym_reach("ne"); sym_check(!e, "distant-values-differ"); }
        if ((a < 0) != (b < 0)) sym_check(!e, "opposite-signs-differ");
    }
}
ENTRY p01_zero() {
    double a = sym_real("a", -1e6, 1e6), b = sym_real("b", -1e6, 1e6), tiny = 2e-14, clear = 2.5e-14;
    if (ab(a) <= tiny && ab(b) <= tiny) { sym_reach("tiny"); sym_check(equal(a, b), "both-zero"); sym_check(!lower(a, b) && !greater(a, b), "both-zero-order"); }
    if (ab(a) <= tiny && ab(b) >= clear) { sym_reach("mixed"); sym_check(!equal(a, b), "zero-vs-nonzero"); sym_check(lower(a, b) == (b > 0), "zero-order"); }
}
ENTRY p01_order() {
    double a = sym_real("a", -1e6, 1e6), b = sym_real("b", -1e6, 1e6), rel = 0;
    if (sym_bool("explicit")) rel = sym_real("rel", 1e-3, 1e6);
    bool l = lower(a, b, rel), g = greater(a, b, rel), e = equal(a, b, rel);
    sym_check((l ? 1 : 0) + (g ? 1 : 0) + (e ? 1 : 0) == 1, "trichotomy");
    sym_check(lowerEqual(a, b, rel) == (l || e), "lower-equal");
    sym_check(greaterEqual(a, b, rel) == (g || e), "greater-equal");
    sym_check(g == lower(b, a, rel), "greater-mirrors-lower");
    if (l) { sym_reach("lt"); sym_check(a < b, "lower-sound"); }
    if (g) { sym_reach("gt"); sym_check(a > b, "greater-sound"); }
    if (e) sym_reach("eq");
    sym_check(notEqual(a, b, rel) != e, "not-equal");
}
ENTRY p01_scale() {
    double a = sym_real("a", -1e6, 1e6), b = sym_real("b", -1e6, 1e6), rel = sym_real("rel", 1e-3, 1e6), tol = sym_real("tol", 1e-6, 1e-1);
    sym_assume(ab(a) > 1e-12); sym_assume(ab(b) > 1e-12);
    bool e = equal(a, b, rel, tol);
    if (ab(a - b) <= 0.999 * tol * rel) { sym_reach("eq"); sym_check(e, "within-scale"); }
    if (ab(a - b) >= 1.001 * tol * rel) { sym_reach("ne"); sym_check(!e, "beyond-scale"); }
    sym_check(lower(a, b, rel, tol) == (!e && a < b), "lower-with-scale");
    sym_check(greater(a, b, rel, tol) == (!e && a > b), "greater-with-scale");
    sym_check(lowerEqual(a, b, rel, tol) == (e || a < b), "lower-equal-with-scale");
    sym_check(greaterEqual(a, b, rel, tol) == (e || a > b), "greater-equal-with-scale");
}
ENTRY p01_round() {
    double v = sym_real("v", -1e5, 1e5), r = U::round(v);
    long n = (long)r;
    sym_check((double)n == r, "round-is-integer");
    sym_check(r - v <= 0.5 + 1e-9 && v - r <= 0.5 + 1e-9, "round-is-nearest");
    if (r >= v) sym_reach("up"); else sym_reach("down");
    long k = sym_int("k", -100, 100);
    sym_check(U::round((double)k) == (double)k, "round-fixes-integers");
    sym_check(U::round((double)k + 0.5) == (double)k + 1, "ties-up");
    sym_check(sign(v) * v == ab(v), "sign");
}
ENTRY p01_ceil() {
    double v = sym_real("v", -1e5, 1e5), rel = sym_real("rel", 0.0, 0.5), c = U::ceil(v, rel);
    sym_check((double)(long)c == c, "ceil-is-integer");
    sym_check(c < v + 1, "ceil-below-next");
    sym_check(c >= v - rel - 1e-9, "ceil-not-below-tolerance");
    if (c < v) { sym_reach("low"); sym_check(v - c <= rel + 1e-9, "ceil-down-only-within-tolerance"); } else sym_reach("high");
    sym_check(U::ceil(v) >= v, "plain-ceil");
}
ENTRY p01_mono() {
    double v = sym_real("v", -100, 100), w = sym_real("w", -100, 100);
    sym_assume(w - v > 1e-6); sym_reach("apart");
    double a = U::round(v), b = U::round(w);
    sym_check(b >= a, "round-monotone");
}

// @property P04
// @bounds matrices of up to 4 rows by 2 columns (sorting by all or selected columns), merging 2+2 rows, searching 4 rows; entries integers within +-1000 (and reals for the two-row case)
// @entry p04_sort3 reach=tie
// @entry p04_sort4 time=60
// @entry p04_sortcol
// @entry p04_unique reach=one,two,three
// @entry p04_small
// @entry p04_merge
// @entry p04_find reach=hit,miss
// @entry p04_real
#include "common.h"
#include "math/matrix/Dynamic.h"
typedef Math::Matrix::Dynamic<Int> IM; typedef Math::Matrix::Dynamic<Real> DM;
static IM sym(const char* n, int r, int c, long b) { IM m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = (Int)symi(std::string(n) + std::to_string(i) + std::to_string(j), -b, b); return m; }
static int cmp(const IM& a, int i, const IM& b, int j, int f, int l) { for (int k = f; k <= l; k++) { if (a(i, k) < b(j, k)) return -1; if (a(i, k) > b(j, k)) return 1; } return 0; }
static int count(const IM& a, const IM& b, int j) { int n = 0; for (int i = 0; i < (int)a.nRows(); i++) n += cmp(a, i, b, j, 0, a.nCols() - 1) == 0; return n; }
static void perm(const IM& a, const IM& s) { sym_check(a.nRows() == s.nRows() && a.nCols() == s.nCols(), "shape-kept"); for (int i = 0; i < (int)a.nRows(); i++) sym_check(count(a, a, i) == count(s, a, i), "same-rows"); }
ENTRY p04_sort3() { IM a = sym("a", 3, 2, 1000), s = a; s.sortRows(); for (int i = 0; i < 2; i++) { int c = cmp(s, i, s, i + 1, 0, 1); if (!c) sym_reach("tie"); sym_check(c <= 0, "sorted"); } perm(a, s); }
ENTRY p04_sort4() { IM a = sym("a", 4, 1, 1000), s = a; s.sortRows(0, 0); for (int i = 0; i < 3; i++) sym_check(s(i, 0) <= s(i + 1, 0), "sorted"); perm(a, s); }
ENTRY p04_sortcol() { IM a = sym("a", 3, 2, 1000), s = a; int k = sym_choice("col", 2); if (sym_bool("omp")) s.sortRows_omp(k, k); else s.sortRows(k, k); for (int i = 0; i < 2; i++) sym_check(s(i, k) <= s(i + 1, k), "sorted-by-column"); perm(a, s); }
ENTRY p04_unique() {
    IM a = sym("a", 3, 2, 1000), s = a; if (sym_bool("omp")) s.sortAndRemoveRepeatedRows_omp(); else s.sortAndRemoveRepeatedRows(); int n = 0; for (int i = 0; i < 3; i++) { bool dup = false; for (int j = 0; j < i; j++) dup |= cmp(a, i, a, j, 0, 1) == 0; n += !dup; }
    sym_reach(n == 1 ? "one" : n == 2 ? "two" : "three"); sym_check((int)s.nRows() == n, "distinct-count"); if ((int)s.nRows() != n) return; for (int i = 0; i + 1 < n; i++) sym_check(cmp(s, i, s, i + 1, 0, 1) < 0, "strictly-sorted"); for (int i = 0; i < 3; i++) sym_check(count(s, a, i) == 1, "every-row-kept-once");
}
ENTRY p04_small() {
    IM a = sym("a", 1, 2, 1000), s = a; s.sortRows(); perm(a, s); s.sortAndRemoveRepeatedRows(); perm(a, s); IM b = sym("b", 2, 2, 1000), t = b; t.sortAndRemoveRepeatedRows(); sym_check((int)t.nRows() == (cmp(b, 0, b, 1, 0, 1) ? 2 : 1), "two-row-count");
}
ENTRY p04_merge() {
    IM a = sym("a", 2, 2, 1000), b = sym("b", 2, 2, 1000); sym_assume(cmp(a, 0, a, 1, 0, 1) <= 0 && cmp(b, 0, b, 1, 0, 1) <= 0); IM m = a; m.mergeSortedRows(b, 0, 1); sym_check(m.nRows() == 4 && m.nCols() == 2, "merged-shape");
    for (int i = 0; i < 3; i++) sym_check(cmp(m, i, m, i + 1, 0, 1) <= 0, "merged-sorted"); for (int i = 0; i < 2; i++) { sym_check(count(m, a, i) == count(a, a, i) + count(b, a, i), "rows-of-first"); sym_check(count(m, b, i) == count(a, b, i) + count(b, b, i), "rows-of-second"); }
}
ENTRY p04_find() {
    IM a = sym("a", 4, 2, 1000); for (int i = 0; i < 3; i++) sym_assume(cmp(a, i, a, i + 1, 0, 0) <= 0); Int key = (Int)sym_int("key", -1000, 1000); std::size_t r = a.findFirstOcurrenceInColumns(&key, 0, 1); int e = 4; for (int i = 3; i >= 0; i--) if (a(i, 0) == key) e = i;
    sym_reach(e < 4 ? "hit" : "miss"); sym_check((int)r == e, "first-occurrence");
}
ENTRY p04_real() { DM a(2, 2); for (int i = 0; i < 4; i++) a.val(i) = symr(nm("a", i), -100, 100); DM s = a; s.sortRows(); bool sw = a(0, 0) > a(1, 0) || (a(0, 0) == a(1, 0) && a(0, 1) > a(1, 1)); for (int j = 0; j < 2; j++) { sym_check(s(0, j) == a(sw ? 1 : 0, j), "smaller-first"); sym_check(s(1, j) == a(sw ? 0 : 1, j), "larger-last"); } }

#pragma once
#include "sym.h"
#include <string>
#include <vector>
#include "math/vector/Cartesian.h"
using namespace SEMBA; using namespace SEMBA::Math;
inline double ab(double x) { return x < 0 ? -x : x; }
inline std::string nm(const char* b, long i) { return std::string(b) + std::to_string(i); }
inline std::string nm(const std::string& b, const char* s) { return b + s; }
inline double symr(const std::string& n, double lo, double hi) { return sym_real(n.c_str(), lo, hi); }
inline long symi(const std::string& n, long lo, long hi) { return sym_int(n.c_str(), lo, hi); }
inline double symd(const std::string& n, double lo, double hi, long den) { return sym_dyadic(n.c_str(), lo, hi, den); }
inline CVecR3 symR3(const std::string& n, double lo, double hi) { CVecR3 r; r(0) = symr(n + "x", lo, hi); r(1) = symr(n + "y", lo, hi); r(2) = symr(n + "z", lo, hi); return r; }
inline CVecR3 symD3(const std::string& n, double lo, double hi, long den) { CVecR3 r; r(0) = symd(n + "x", lo, hi, den); r(1) = symd(n + "y", lo, hi, den); r(2) = symd(n + "z", lo, hi, den); return r; }
inline CVecI3 symI3(const std::string& n, long lo, long hi) { CVecI3 r; r(0) = (Int)symi(n + "x", lo, hi); r(1) = (Int)symi(n + "y", lo, hi); r(2) = (Int)symi(n + "z", lo, hi); return r; }
inline bool same(const CVecR3& a, const CVecR3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
inline bool same(const CVecI3& a, const CVecI3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
inline void close3(const CVecR3& a, const CVecR3& b, double tol, const char* id) { for (int i = 0; i < 3; i++) sym_check_close(a(i), b(i), tol, id); }

// Value / expression layer of the symbolic executor (Z3 C API).
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <memory>
#include <functional>
#include <chrono>

typedef Z3_ast A;
typedef __int128 i128;
extern Z3_context C;
extern Z3_sort IntS, RealS, BoolS;

enum VK : uint8_t { VUNDEF, VINT, VSYM, VBOOL, VFP, VREAL, VAGG };

struct Val;
typedef std::vector<Val> Agg;

struct Val {
    VK k = VUNDEF;
    uint8_t w = 0;            // bit width for VINT / VSYM
    union { uint64_t u; double d; A a; const Agg* g; };
    union { int64_t lo; double rlo; };
    union { int64_t hi; double rhi; };
    Val() : u(0), lo(0), hi(0) {}
    bool sym() const { return k == VSYM || k == VBOOL || k == VREAL; }
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t u, unsigned w) {
    if (w >= 64) return (int64_t)u;
    uint64_t m = 1ull << (w - 1);
    u &= maskw(w);
    return (int64_t)((u ^ m) - m);
}
inline Val mkInt(uint64_t u, unsigned w) { Val v; v.k = VINT; v.w = w; v.u = u & maskw(w); return v; }
// partly undefined integer: VUNDEF whose bits in lo are defined (in u)
inline Val mkPart(uint64_t u, uint64_t def, unsigned w) { def &= maskw(w); if (def == maskw(w)) return mkInt(u, w); Val v; v.w = w; v.u = u & def; v.lo = (int64_t)def; return v; }
inline uint64_t defOf(const Val& v, unsigned w) { return v.k == VINT ? maskw(w) : v.k == VUNDEF ? (uint64_t)v.lo & maskw(w) : 0; }
inline Val mkFP(double d) { Val v; v.k = VFP; v.w = 64; v.d = d; return v; }
inline Val mkBoolC(bool b) { return mkInt(b, 1); }

A mkI(i128 v);                 // Int numeral
A mkR(double d);               // exact rational numeral of a finite double
A mkAnd(A a, A b); A mkOr(A a, A b); A mkNot(A a); A mkIte(A c, A t, A e);
A mkAdd(A a, A b); A mkSub(A a, A b); A mkMul(A a, A b);
A mkEq(A a, A b); A mkLt(A a, A b); A mkLe(A a, A b);
A mkToReal(A a);
bool isTrue(A a); bool isFalse(A a); bool isNum(A a);
unsigned astId(A a);

struct VarInfo { A c; std::string name; int kind; /*0 int,1 real,2 fresh real,3 bool/int fresh*/ };
extern std::vector<VarInfo> vars;
int newVar(const std::string& name, Z3_sort s, int kind);
const std::vector<int>& varsOf(A a);
bool isNonlinear(A a);
bool hasInt(A a);

#include "val.h"
#include <algorithm>
Z3_context C; Z3_sort IntS, RealS, BoolS;
std::vector<VarInfo> vars;
static std::unordered_map<unsigned,int> varByAst;

unsigned astId(A a) { return Z3_get_ast_id(C, a); }
static std::string i128s(i128 v) {
    if (v == 0) return "0";
    bool n = v < 0; unsigned __int128 x = n ? (unsigned __int128)(-(v + 1)) + 1 : (unsigned __int128)v;
    std::string s; while (x) { s += char('0' + (int)(x % 10)); x /= 10; }
    if (n) s += '-'; std::reverse(s.begin(), s.end()); return s;
}
A mkI(i128 v) {
    if (v >= INT64_MIN && v <= INT64_MAX) return Z3_mk_int64(C, (int64_t)v, IntS);
    return Z3_mk_numeral(C, i128s(v).c_str(), IntS);
}
A mkR(double d) {
    static std::unordered_map<uint64_t, A> cache;
    uint64_t b; memcpy(&b, &d, 8);
    if (d == 0) b = 0;
    auto it = cache.find(b); if (it != cache.end()) return it->second;
    A r;
    if (d == std::floor(d) && std::fabs(d) < 9e15) r = Z3_mk_numeral(C, std::to_string((long long)d).c_str(), RealS);
    else {
        int e; double m = std::frexp(d, &e);
        long long mi = (long long)std::ldexp(m, 53); e -= 53;
        while ((mi & 1) == 0 && e < 0) { mi >>= 1; e++; }
        A num = Z3_mk_numeral(C, std::to_string(mi).c_str(), RealS);
        // 2^|e| as decimal string
        std::string p = "1"; int n = std::abs(e);
        for (int i = 0; i < n; i++) { int c = 0; for (auto& ch : p) { int v = (ch - '0') * 2 + c; ch = '0' + v % 10; c = v / 10; } if (c) p += char('0' + c); }
        std::reverse(p.begin(), p.end());
        A pw = Z3_mk_numeral(C, p.c_str(), RealS);
        A t; if (e < 0) t = Z3_mk_div(C, num, pw); else { A xs[2] = {num, pw}; t = Z3_mk_mul(C, 2, xs); }
        r = Z3_simplify(C, t);
    }
    cache[b] = r; return r;
}
bool isTrue(A a) { return Z3_get_bool_value(C, a) == Z3_L_TRUE; }
bool isFalse(A a) { return Z3_get_bool_value(C, a) == Z3_L_FALSE; }
bool isNum(A a) { return Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST; }
static A T() { static A t = Z3_mk_true(C); return t; }
static A F() { static A t = Z3_mk_false(C); return t; }
A mkNot(A a) {
    if (isTrue(a)) return F(); if (isFalse(a)) return T();
    if (Z3_get_ast_kind(C, a) == Z3_APP_AST) {
        Z3_app ap = Z3_to_app(C, a);
        if (Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)) == Z3_OP_NOT) return Z3_get_app_arg(C, ap, 0);
    }
    return Z3_mk_not(C, a);
}
A mkAnd(A a, A b) {
    if (isFalse(a) || isFalse(b)) return F(); if (isTrue(a)) return b; if (isTrue(b)) return a; if (a == b) return a;
    if (mkNot(a) == b) return F();
    A x[2] = {a, b}; return Z3_mk_and(C, 2, x);
}
A mkOr(A a, A b) {
    if (isTrue(a) || isTrue(b)) return T(); if (isFalse(a)) return b; if (isFalse(b)) return a; if (a == b) return a;
    if (mkNot(a) == b) return T();
    A x[2] = {a, b}; return Z3_mk_or(C, 2, x);
}
A mkIte(A c, A t, A e) {
    if (isTrue(c)) return t; if (isFalse(c)) return e; if (t == e) return t;
    if (isTrue(t) && isFalse(e)) return c; if (isFalse(t) && isTrue(e)) return mkNot(c);
    if (Z3_get_sort(C, t) == BoolS) {
        if (isTrue(t)) return mkOr(c, e); if (isFalse(t)) return mkAnd(mkNot(c), e);
        if (isTrue(e)) return mkOr(mkNot(c), t); if (isFalse(e)) return mkAnd(c, t);
    }
    return Z3_mk_ite(C, c, t, e);
}
static bool isZero(A a) { static A zi = mkI(0), zr = mkR(0); return a == zi || a == zr; }
static bool isOne(A a) { static A zi = mkI(1), zr = mkR(1); return a == zi || a == zr; }
A mkAdd(A a, A b) {
    if (isZero(a)) return b; if (isZero(b)) return a;
    A x[2] = {a, b}; A r = Z3_mk_add(C, 2, x);
    return (isNum(a) && isNum(b)) ? Z3_simplify(C, r) : r;
}
A mkSub(A a, A b) {
    if (isZero(b)) return a;
    if (a == b) return Z3_get_sort(C, a) == IntS ? mkI(0) : mkR(0);
    A x[2] = {a, b}; A r = Z3_mk_sub(C, 2, x);
    return (isNum(a) && isNum(b)) ? Z3_simplify(C, r) : r;
}
A mkMul(A a, A b) {
    if (isZero(a)) return a; if (isZero(b)) return b; if (isOne(a)) return b; if (isOne(b)) return a;
    A x[2] = {a, b}; A r = Z3_mk_mul(C, 2, x);
    return (isNum(a) && isNum(b)) ? Z3_simplify(C, r) : r;
}
static A cst(A r, bool both) { return both ? Z3_simplify(C, r) : r; }
A mkEq(A a, A b) { if (a == b) return T(); if (isNum(a) && isNum(b) && Z3_get_sort(C,a)==Z3_get_sort(C,b)) return F();
    if (Z3_get_sort(C, a) == BoolS) { if (isTrue(a)) return b; if (isTrue(b)) return a; if (isFalse(a)) return mkNot(b); if (isFalse(b)) return mkNot(a); }
    return Z3_mk_eq(C, a, b); }
A mkLt(A a, A b) { if (a == b) return F(); return cst(Z3_mk_lt(C, a, b), isNum(a) && isNum(b)); }
A mkLe(A a, A b) { if (a == b) return T(); return cst(Z3_mk_le(C, a, b), isNum(a) && isNum(b)); }
A mkToReal(A a) { if (isNum(a)) return Z3_simplify(C, Z3_mk_int2real(C, a)); return Z3_mk_int2real(C, a); }

int newVar(const std::string& name, Z3_sort s, int kind) {
    int id = vars.size();
    std::string nm = name + "!" + std::to_string(id);
    A c = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), s);
    vars.push_back({c, name, kind});
    varByAst[astId(c)] = id;
    return id;
}
struct AstInfo { std::vector<int> vs; bool nl = false; bool in = false; };
static std::unordered_map<unsigned, AstInfo*> infos;
static AstInfo* info(A root) {
    auto f = infos.find(astId(root)); if (f != infos.end()) return f->second;
    std::vector<std::pair<A,bool>> st; st.push_back({root, false});
    while (!st.empty()) {
        auto [a, done] = st.back(); st.pop_back();
        unsigned id = astId(a);
        if (infos.count(id)) continue;
        if (Z3_get_ast_kind(C, a) != Z3_APP_AST) { infos[id] = new AstInfo(); continue; }
        Z3_app ap = Z3_to_app(C, a); unsigned n = Z3_get_app_num_args(C, ap);
        if (!done && n) {
            st.push_back({a, true});
            for (unsigned i = 0; i < n; i++) { A x = Z3_get_app_arg(C, ap, i); if (!infos.count(astId(x))) st.push_back({x, false}); }
            continue;
        }
        AstInfo* I = new AstInfo();
        if (n == 0) { auto v = varByAst.find(id); if (v != varByAst.end()) { I->vs.push_back(v->second); if (Z3_get_sort(C, a) == IntS) I->in = true; } }
        Z3_decl_kind dk = Z3_get_decl_kind(C, Z3_get_app_decl(C, ap));
        int nonc = 0;
        for (unsigned i = 0; i < n; i++) {
            AstInfo* s = infos[astId(Z3_get_app_arg(C, ap, i))];
            if (!s->vs.empty()) nonc++;
            std::vector<int> m; std::set_union(I->vs.begin(), I->vs.end(), s->vs.begin(), s->vs.end(), std::back_inserter(m));
            I->vs.swap(m); I->nl |= s->nl; I->in |= s->in;
        }
        if (dk == Z3_OP_MUL && nonc > 1) I->nl = true;
        if ((dk == Z3_OP_DIV || dk == Z3_OP_IDIV || dk == Z3_OP_MOD) && n == 2 && !infos[astId(Z3_get_app_arg(C, ap, 1))]->vs.empty()) I->nl = true;
        infos[id] = I;
    }
    return infos[astId(root)];
}
const std::vector<int>& varsOf(A a) { return info(a)->vs; }
bool isNonlinear(A a) { return info(a)->nl; }
bool hasInt(A a) { return info(a)->in; }

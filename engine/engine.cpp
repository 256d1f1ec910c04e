// KLEE-style symbolic executor for LLVM 18 bitcode; doubles are exact reals, ints are range-tracked
// mathematical integers with two's-complement wrapping made explicit; Z3 decides every branch and assertion.
#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Demangle/Demangle.h>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
using namespace llvm;

// ---------------------------------------------------------------- options / stats
static double OPT_TIME = 300; static uint64_t OPT_MAXPATHS = 200000; static unsigned OPT_MS = 10000;
static uint64_t OPT_MAXINSTR = 20000000; static int OPT_VERB = 0; static int OPT_WITNESS = 24; static bool OPT_NOMERGE = false;
static bool OPT_MERGEALL = false; static int OPT_MAXCAND = 6;
static uint64_t nPaths = 0, nInstr = 0, nForks = 0, nQueries = 0, nUnsat = 0, nSat = 0, nUnknown = 0, nChecks = 0, nDischarged = 0, nUndecided = 0, nMerges = 0,
                nKilledAssume = 0, nCacheHit = 0, nTrivial = 0, nCheckQ = 0, nInfeasible = 0;
static double solverTime = 0;
static bool boundHit = false; static std::set<std::string> boundReasons, unsupReasons;
static std::map<std::string, uint64_t> reachCount, checkCount, checkOK, checkUnk;
static std::set<std::string> abortAllowed;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct KillPath {};
struct Unsup { std::string m; };
[[noreturn]] static void unsup(const std::string& m) { throw Unsup{m}; }

static Module* M; static const DataLayout* DL;
static std::vector<State*>* work;
static State* curS;

// ---------------------------------------------------------------- JSON
static std::string esc(const std::string& s) {
    std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}
struct CandInput { std::string name; char kind; double d; long long i; };
struct Candidate { std::string kind, id, where; std::vector<std::vector<CandInput>> vecs; std::vector<std::string> reach; };
static std::vector<Candidate> cands; static std::map<std::string, int> candCount;
struct Witness { std::vector<CandInput> in; std::vector<std::pair<std::string, double>> obs; std::vector<std::string> reach; std::string end; };
static std::vector<Witness> wits;

// ---------------------------------------------------------------- solver
enum R { UNSAT, SAT, UNK };
struct QRes { R r; std::shared_ptr<Model> m; };
static std::map<std::vector<unsigned>, QRes> qcache;

static R z3run(Z3_solver s, const std::vector<A>& cs, unsigned ms, Model* out) {
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
    Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
    for (A a : cs) Z3_solver_assert(C, s, a);
    Z3_lbool r = Z3_solver_check(C, s);
    R res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
    if (res == SAT && out) {
        Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
        std::set<int> vs; for (A a : cs) for (int v : varsOf(a)) vs.insert(v);
        for (int v : vs) { A val; if (Z3_model_eval(C, m, vars[v].c, true, &val)) (*out)[v] = val; }
        Z3_model_dec_ref(C, m);
    }
    Z3_solver_dec_ref(C, s);
    return res;
}
static R solveRaw(const std::vector<A>& cs, Model* out, unsigned ms) {
    bool nl = false, in = false; for (A a : cs) { nl |= isNonlinear(a); in |= hasInt(a); }
    auto t0 = now(); R r = UNK; nQueries++;
    if (!nl) { r = z3run(Z3_mk_simple_solver(C), cs, ms, out); }
    else {
        if (!in) r = z3run(Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_NRA")), cs, std::max(200u, ms / 4), out);
        if (r == UNK) r = z3run(Z3_mk_solver(C), cs, ms / 2, out);
        if (r == UNK) r = z3run(Z3_mk_simple_solver(C), cs, ms / 4, out);
    }
    double dt = now() - t0; solverTime += dt;
    if (dt > 3 && OPT_VERB) { fprintf(stderr, "[slow query %.1fs -> %d] %zu constraints nl=%d\n", dt, r, cs.size(), nl); if (OPT_VERB > 2) for (A a : cs) fprintf(stderr, "   %s\n", Z3_ast_to_string(C, a)); }
    (r == SAT ? nSat : r == UNSAT ? nUnsat : nUnknown)++;
    return r;
}
static std::vector<A> slice(State& S, const std::vector<A>& seeds) {
    std::set<int> vs; for (A a : seeds) for (int v : varsOf(a)) vs.insert(v);
    std::vector<char> used(S.pc.size(), 0); std::vector<A> out;
    bool ch = true;
    while (ch) { ch = false;
        for (size_t i = 0; i < S.pc.size(); i++) if (!used[i]) {
            const auto& w = varsOf(S.pc[i].c); bool hit = false;
            for (int v : w) if (vs.count(v)) { hit = true; break; }
            if (hit) { used[i] = 1; ch = true; out.push_back(S.pc[i].c); for (int v : w) vs.insert(v); }
        } }
    for (A a : seeds) out.push_back(a);
    return out;
}
static QRes query(State& S, A cond, unsigned ms = 0) {
    if (isFalse(cond)) return {UNSAT, nullptr};
    std::vector<A> cs = slice(S, {cond});
    std::vector<unsigned> key; for (A a : cs) key.push_back(astId(a)); std::sort(key.begin(), key.end());
    auto it = qcache.find(key); if (it != qcache.end()) { nCacheHit++; return it->second; }
    QRes q; q.m = std::make_shared<Model>(); q.r = solveRaw(cs, q.m.get(), ms ? ms : OPT_MS);
    if (q.r != SAT) q.m = nullptr;
    qcache[key] = q; return q;
}
static bool evalNum(State& S, A e, A& out) {   // evaluate under the state's model
    const auto& vs = varsOf(e); if (!S.model) return false;
    std::vector<A> from, to;
    for (int v : vs) { auto it = S.model->find(v); if (it == S.model->end()) return false; from.push_back(vars[v].c); to.push_back(it->second); }
    A r = vs.empty() ? e : Z3_substitute(C, e, from.size(), from.data(), to.data());
    out = Z3_simplify(C, r); return true;
}
static int evalModel(State& S, A cond) {
    if (!S.modelOK) return -1; A r; if (!evalNum(S, cond, r)) return -1;
    return isTrue(r) ? 1 : isFalse(r) ? 0 : -1;
}
static void addPC(State& S, A c, bool ax) {
    if (isTrue(c)) return;
    // split conjunctions
    if (Z3_get_ast_kind(C, c) == Z3_APP_AST) {
        Z3_app ap = Z3_to_app(C, c);
        if (Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)) == Z3_OP_AND) { for (unsigned i = 0; i < Z3_get_app_num_args(C, ap); i++) addPC(S, Z3_get_app_arg(C, ap, i), ax); return; }
    }
    if (S.pcset.insert(astId(c)).second) S.pc.push_back({c, ax});
}
static void setModel(State& S, const std::shared_ptr<Model>& m) {
    auto n = std::make_shared<Model>(); if (S.model) *n = *S.model;
    for (auto& kv : *m) (*n)[kv.first] = kv.second;
    S.model = n;
}
static R ensureModel(State& S) {
    if (S.modelOK) return SAT;
    std::vector<A> cs; for (auto& p : S.pc) cs.push_back(p.c);
    std::vector<unsigned> key; for (A a : cs) key.push_back(astId(a)); std::sort(key.begin(), key.end());
    auto it = qcache.find(key); QRes q;
    if (it != qcache.end()) q = it->second; else {
        q.m = std::make_shared<Model>(); q.r = solveRaw(cs, q.m.get(), OPT_MS); if (q.r != SAT) q.m = nullptr; qcache[key] = q; }
    if (q.r == SAT) { setModel(S, q.m); S.modelOK = true; }
    return q.r;
}
static bool decide(State& S, A cond) {
    if (isTrue(cond)) return true; if (isFalse(cond)) return false;
    A nc = mkNot(cond);
    if (S.pcset.count(astId(cond))) return true; if (S.pcset.count(astId(nc))) return false;
    int m = evalModel(S, cond);
    QRes qt{UNK, nullptr}, qf{UNK, nullptr};
    bool tOK, fOK;
    if (m == 1) { tOK = true; qf = query(S, nc); fOK = qf.r != UNSAT; }
    else if (m == 0) { fOK = true; qt = query(S, cond); tOK = qt.r != UNSAT; }
    else { qt = query(S, cond); tOK = qt.r != UNSAT; qf = query(S, nc); fOK = qf.r != UNSAT; }
    if (!tOK && !fOK) { nInfeasible++; throw KillPath(); }
    if (tOK && !fOK) { return true; }
    if (fOK && !tOK) { return false; }
    nForks++;
    State* alt = new State(S); alt->depth++; S.depth++;
    if (m != 0) { if (qf.r == SAT) setModel(*alt, qf.m); else alt->modelOK = false; }
    addPC(*alt, nc, false);
    work->push_back(alt);
    if (m != 1) { if (qt.r == SAT) setModel(S, qt.m); else S.modelOK = false; }
    if (m == -1 && !S.modelOK) {}
    addPC(S, cond, false);
    return true;
}
// assume cond; kill if infeasible
static void assume(State& S, A cond) {
    if (isTrue(cond)) return; if (isFalse(cond)) { nKilledAssume++; throw KillPath(); }
    int m = evalModel(S, cond);
    if (m != 1) {
        QRes q = query(S, cond);
        if (q.r == UNSAT) { nKilledAssume++; throw KillPath(); }
        if (q.r == SAT) { bool ok = S.modelOK; setModel(S, q.m); S.modelOK = ok; } else S.modelOK = false;
    }
    addPC(S, cond, false);
}
static void axiom(State& S, A c) { addPC(S, c, true); }
// register fresh var with defining axioms; def = expression giving the value under the model (or null)
static void defFresh(State& S, int v, A def) {
    if (S.modelOK && def) { A val; if (evalNum(S, def, val) && isNum(val)) { auto n = std::make_shared<Model>(*S.model); (*n)[v] = val; S.model = n; return; } }
    S.modelOK = false;
}

// ---------------------------------------------------------------- memory
static const uint32_t STK0 = 0x40000000u; static const uint64_t FUN0 = 0x7000000000000000ull;
static const uint32_t OBJSHIFT = 32;
static uint64_t addrOf(uint32_t id) { return (uint64_t)id << OBJSHIFT | 0x1000; }  // objects start at offset 0x1000 of their slot
static std::vector<KFunc*> kfuncs; static std::map<Function*, KFunc*> kfmap;
static uint64_t funAddr(Function* f);

static ObjP* slotOf(State& S, uint32_t id, bool wr) {
    if (id >= STK0) { uint32_t i = id - STK0; if (i >= S.stk.size()) return nullptr; return &S.stk[i]; }
    if (id == 0 || id >= S.nheap) return nullptr;
    auto& c = S.heap[id >> 6]; if (wr && c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    return &c->o[id & 63];
}
static Obj* objFor(State& S, uint64_t addr, uint64_t& off, bool wr) {
    uint32_t id = addr >> OBJSHIFT; ObjP* p = slotOf(S, id, wr);
    if (!p || !*p) return nullptr;
    if (wr && p->use_count() > 1) *p = std::make_shared<Obj>(**p);
    off = addr - addrOf(id); return p->get();
}
static uint64_t allocHeap(State& S, uint64_t size, uint8_t kind, bool zero) {
    uint32_t id = S.nheap++;
    if ((id >> 6) >= S.heap.size()) S.heap.push_back(std::make_shared<Chunk>());
    ObjP* p = slotOf(S, id, true); *p = std::make_shared<Obj>();
    (*p)->size = size; (*p)->kind = kind; (*p)->data.assign(size, 0); (*p)->st.assign(size, zero ? 1 : 0);
    return addrOf(id);
}
static uint64_t allocStack(State& S, uint64_t size) {
    uint32_t id = S.stk.size(); S.stk.push_back(std::make_shared<Obj>()); auto& o = S.stk.back();
    o->size = size; o->kind = 2; o->data.assign(size, 0); o->st.assign(size, 0);
    return addrOf(STK0 + id);
}
static void splitCell(Obj* o, uint32_t head);
static Val extractBytes(const Val& v, unsigned rel, unsigned n) {   // VSYM/VBOOL int cell -> n bytes at byte rel
    if (v.k == VREAL) unsup("partial access to a symbolic double");
    if (v.k == VUNDEF) return mkPart(v.u >> (8 * rel), (uint64_t)v.lo >> (8 * rel), 8 * n);
    A e; int64_t lo, hi; unsigned w;
    if (v.k == VBOOL) { e = mkIte(v.a, mkI(1), mkI(0)); lo = 0; hi = 1; w = 8; } else { e = v.a; lo = v.lo; hi = v.hi; w = v.w; }
    if (rel) { e = Z3_mk_div(C, e, mkI((i128)1 << (8 * rel))); i128 d = (i128)1 << (8 * rel); 
        auto fl = [&](int64_t x) { i128 q = (i128)x / d; if ((i128)x < 0 && q * d != x) q--; return (int64_t)q; }; lo = fl(lo); hi = fl(hi); }
    unsigned W = 8 * n; 
    i128 mn = -((i128)1 << (W - 1)), mx = ((i128)1 << (W - 1)) - 1;
    if (lo < mn || hi > mx) { // wrap to signed W
        e = mkSub(Z3_mk_mod(C, mkAdd(e, mkI((i128)1 << (W - 1))), mkI((i128)1 << W)), mkI((i128)1 << (W - 1))); lo = mn; hi = mx; }
    Val r; if (isNum(e)) { int64_t x = 0; Z3_get_numeral_int64(C, e, &x); return mkInt((uint64_t)x, W); }
    r.k = VSYM; r.w = W; r.a = e; r.lo = lo; r.hi = hi; (void)w; return r;
}
static void splitCell(Obj* o, uint32_t head) {
    auto it = o->cells.find(head); if (it == o->cells.end()) unsup("cell map corrupt");
    Cell c = it->second; o->cells.erase(it);
    for (unsigned i = 0; i < c.len; i++) {
        Val b = extractBytes(c.v, i, 1);
        if (b.k == VINT) { o->data[head + i] = b.u; o->st[head + i] = 1; }
        else if (b.k == VUNDEF && !b.lo) o->st[head + i] = 0;
        else { o->cells[head + i] = {b, 1}; o->st[head + i] = 2; }
    }
}
// make boundary at off clean (no cell straddles it)
static void cleanBoundary(Obj* o, uint64_t off) {
    if (off >= o->size || o->st[off] != 3) return;
    uint32_t h = off; while (o->st[h] == 3) h--; splitCell(o, h);
}
static void clearRange(Obj* o, uint64_t off, uint64_t n) {
    cleanBoundary(o, off); cleanBoundary(o, off + n);
    if (!o->cells.empty()) { auto a = o->cells.lower_bound(off), b = o->cells.lower_bound(off + n); o->cells.erase(a, b); }
}
static void storeVal(Obj* o, uint64_t off, const Val& v, unsigned n) {
    clearRange(o, off, n);
    switch (v.k) {
    case VUNDEF: if (v.lo) { o->cells[off] = {v, (uint8_t)n}; o->st[off] = 2; for (unsigned i = 1; i < n; i++) o->st[off + i] = 3; splitCell(o, off); } else for (unsigned i = 0; i < n; i++) o->st[off + i] = 0; break;
    case VINT: for (unsigned i = 0; i < n; i++) { o->data[off + i] = i < 8 ? (uint8_t)(v.u >> (8 * i)) : 0; o->st[off + i] = 1; } break;
    case VFP: if (n == 8) memcpy(&o->data[off], &v.d, 8); else { float f = v.d; memcpy(&o->data[off], &f, 4); }
        for (unsigned i = 0; i < n; i++) o->st[off + i] = 1; break;
    case VSYM: case VBOOL: case VREAL:
        o->cells[off] = {v, (uint8_t)n}; o->st[off] = 2; for (unsigned i = 1; i < n; i++) o->st[off + i] = 3; break;
    default: unsup("store of aggregate");
    }
}
static Val loadVal(Obj* o, uint64_t off, unsigned n, unsigned w, bool fp) {
    uint8_t s0 = o->st[off]; bool all = true; for (unsigned i = 1; i < n; i++) if (o->st[off + i] != s0) { all = false; break; }
    if (all && s0 == 1) {
        if (fp) { if (n == 8) { double d; memcpy(&d, &o->data[off], 8); return mkFP(d); } float f; memcpy(&f, &o->data[off], 4); return mkFP(f); }
        uint64_t u = 0; if (n > 8) unsup("wide load"); for (unsigned i = 0; i < n; i++) u |= (uint64_t)o->data[off + i] << (8 * i); return mkInt(u, w);
    }
    if (all && s0 == 0) { Val v; v.w = w; return v; }
    if (s0 == 2) { auto& c = o->cells[off]; if (c.len == n) {
        Val v = c.v;
        if (v.k == VSYM && !fp) { if (w < v.w && !(w == 8 * n)) { if (w == 1) { Val r; r.k = VBOOL; r.w = 1; r.a = mkEq(Z3_mk_mod(C, v.a, mkI(2)), mkI(1)); return r; } unsup("odd width load"); } v.w = w; return v; }
        if (v.k == VBOOL && !fp && w == 8) { Val r; r.k = VSYM; r.w = 8; r.a = mkIte(v.a, mkI(1), mkI(0)); r.lo = 0; r.hi = 1; return r; }
        if (v.k == VBOOL && w == 1) return v;
        if (v.k == VREAL) return v;
        if (fp) unsup("int cell loaded as double");
        return v; } }
    bool und = false, symb = false; for (unsigned i = 0; i < n; i++) { if (o->st[off + i] == 0) und = true; else if (o->st[off + i] == 3) symb = true; else if (o->st[off + i] == 2) (o->cells[off + i].v.k == VUNDEF ? und : symb) = true; }
    if (und) { // bytes that are not all defined
        uint64_t u = 0, d = 0; if (!fp && !symb && n <= 8) for (unsigned i = 0; i < n; i++) { uint64_t bu = 0, bd = 0; if (o->st[off + i] == 1) { bu = o->data[off + i]; bd = 255; } else if (o->st[off + i] == 2) { const Val& c = o->cells[off + i].v; bu = c.u & 255; bd = (uint64_t)c.lo & 255; } u |= bu << (8 * i); d |= bd << (8 * i); }
        return mkPart(u, d, w); }
    if (fp) unsup("mixed bytes loaded as double");
    // general combine (little endian): sum of unsigned parts
    if (n > 8) unsup("wide mixed load");
    A e = mkI(0); unsigned i = 0; 
    // last part keeps its sign
    while (i < n) {
        Val part; unsigned len = 1;
        if (o->st[off + i] == 1) { part = mkInt(o->data[off + i], 8); }
        else {
            uint32_t h = off + i; while (o->st[h] == 3) h--; Cell& c = o->cells[h]; unsigned rel = off + i - h; len = std::min<unsigned>(c.len - rel, n - i);
            part = extractBytes(c.v, rel, len);
        }
        bool last = i + len >= n; A pe;
        if (part.k == VINT) pe = mkI(last ? (i128)sx(part.u, part.w) : (i128)part.u);
        else { pe = part.a; if (!last && part.lo < 0) pe = mkIte(mkLt(pe, mkI(0)), mkAdd(pe, mkI((i128)1 << part.w)), pe); }
        e = mkAdd(e, mkMul(pe, mkI((i128)1 << (8 * i)))); i += len;
    }
    Val r; r.k = VSYM; r.w = w; r.a = Z3_simplify(C, e); r.lo = sx(1ull << (w - 1), w); r.hi = (int64_t)(maskw(w) >> 1);
    if (isNum(r.a)) { int64_t x = 0; Z3_get_numeral_int64(C, r.a, &x); return mkInt(x, w); }
    return r;
}

// ---------------------------------------------------------------- error reporting
static double numToDouble(A v) {
    if (!v) return 0;
    if (Z3_is_algebraic_number(C, v) && !isNum(v)) { A l = Z3_get_algebraic_number_lower(C, v, 25); return Z3_get_numeral_double(C, l); }
    if (isNum(v)) return Z3_get_numeral_double(C, v);
    if (Z3_is_algebraic_number(C, v)) { A l = Z3_get_algebraic_number_lower(C, v, 25); return Z3_get_numeral_double(C, l); }
    return 0;
}
struct TrigRec { A arg; int s, c; };
static std::vector<TrigRec> trigs;
static std::vector<CandInput> inputsFrom(State& S, const Model& m, double grid, bool* changed = nullptr, Model* rounded = nullptr) {
    std::vector<CandInput> r;
    for (auto& in : S.inputs) {
        CandInput c; c.name = in.name; c.kind = in.kind; c.d = 0; c.i = 0;
        if (in.v.k == VINT) { c.i = sx(in.v.u, in.v.w); r.push_back(c); continue; }
        if (in.v.k == VFP) { c.d = in.v.d; r.push_back(c); continue; }
        int vid = varsOf(in.v.a).empty() ? -1 : varsOf(in.v.a)[0];
        auto it = vid >= 0 ? m.find(vid) : m.end();
        if (in.kind == 'i' || in.kind == 'y') { int64_t x = 0; if (it != m.end()) Z3_get_numeral_int64(C, it->second, &x); c.i = x; if (in.kind == 'y') { c.d = (double)x / in.denom; } }
        else {
            double d = it != m.end() ? numToDouble(it->second) : 0;
            for (auto& t : trigs) if (vid >= 0 && t.arg == in.v.a && m.count(t.s) && m.count(t.c)) {
                double s = numToDouble(m.at(t.s)), cc = numToDouble(m.at(t.c)); double th = atan2(s, cc);
                while (th < in.lo) th += 2 * M_PI; while (th > in.hi) th -= 2 * M_PI; d = th; }
            if (grid > 0) { double q = std::round(d * grid) / grid; if (q < in.lo || q > in.hi) q = d; if (rounded && vid >= 0) (*rounded)[vid] = mkR(q); d = q; }
            c.d = d;
        }
        r.push_back(c);
    }
    return r;
}
static std::string whereStr(State& S) {
    std::string r; int n = 0;
    for (int i = (int)S.stack.size() - 1; i >= 0 && n < 6; i--, n++) { if (n) r += " < "; std::string d = llvm::demangle(S.stack[i].f->name); if (d.size() > 140) d = d.substr(0, 140) + "..."; r += d; }
    return r;
}
static void report(State& S, const std::string& kind, const std::string& id, const Model* violModel, const std::vector<A>& viol) {
    std::string key = kind + ":" + id;
    if (candCount[key] >= 3 || (int)cands.size() >= 40) { candCount[key]++; return; }
    candCount[key]++;
    Candidate c; c.kind = kind; c.id = id; c.where = whereStr(S); c.reach = S.reach;
    Model m = S.model ? *S.model : Model(); if (violModel) for (auto& kv : *violModel) m[kv.first] = kv.second;
    // rounded (exactly representable) variants that still satisfy the violation condition
    for (double g : {1.0, 2.0, 4.0, 16.0, 64.0, 1024.0, 1048576.0}) {
        Model rm = m; auto v = inputsFrom(S, m, g, nullptr, &rm);
        bool hasFresh = false; bool ok = true;
        State T; T.model = std::make_shared<Model>(rm); T.modelOK = true;
        for (auto& p : S.pc) { for (int x : varsOf(p.c)) if (vars[x].kind >= 2) hasFresh = true; if (hasFresh) break; if (evalModel(T, p.c) != 1) { ok = false; break; } }
        if (!hasFresh && ok) for (A a : viol) if (evalModel(T, a) != 1) { ok = false; break; }
        if (ok || hasFresh) { c.vecs.push_back(v); if (!hasFresh) break; }
        if (c.vecs.size() >= 4) break;
    }
    c.vecs.push_back(inputsFrom(S, m, 0));
    // with transcendental functions in the path the solver's model only fixes their values up to the axioms: offer further input vectors for the native replay to decide
    bool anyFresh = false; for (auto& p : S.pc) for (int x : varsOf(p.c)) if (vars[x].kind >= 2) anyFresh = true; for (A v : viol) for (int x : varsOf(v)) if (vars[x].kind >= 2) anyFresh = true;
    if (anyFresh) { static uint64_t rs = 88172645463325252ull; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (rs >> 11) * (1.0 / 9007199254740992.0); };
        for (int t = 0, got = 0; t < 200 && got < 14; t++) { auto v = inputsFrom(S, m, 0); Model rm = m; size_t k = 0;
            for (auto& in : S.inputs) { CandInput& ci = v[k++]; if (in.v.k == VINT || in.v.k == VFP || varsOf(in.v.a).empty()) continue; int vid = varsOf(in.v.a)[0]; if (t % 2 && rnd() < 0.4) { rm[vid] = (in.kind == 'i' || in.kind == 'y') ? mkI(ci.i) : mkR(ci.d); continue; } double r = in.lo + (in.hi - in.lo) * rnd();
                if (in.kind == 'i') { ci.i = (int64_t)std::llround(r); rm[vid] = mkI(ci.i); } else if (in.kind == 'y') { ci.i = (int64_t)std::llround(r * in.denom); ci.d = (double)ci.i / in.denom; rm[vid] = mkI(ci.i); } else { double q = std::round(r * 64) / 64; if (q < in.lo || q > in.hi) q = r; ci.d = q; rm[vid] = mkR(q); } }
            State T; T.model = std::make_shared<Model>(rm); T.modelOK = true; bool ok = true; for (auto& p : S.pc) { bool fr = false; for (int x : varsOf(p.c)) fr |= vars[x].kind >= 2; if (!fr && evalModel(T, p.c) != 1) { ok = false; break; } }
            if (ok) { c.vecs.push_back(v); got++; } } }
    cands.push_back(c);
    if (OPT_VERB) fprintf(stderr, "[candidate] %s %s @ %s\n", kind.c_str(), id.c_str(), c.where.c_str());
}
[[noreturn]] static void fail(State& S, const std::string& kind, const std::string& id) {
    R r = ensureModel(S);
    if (r == UNSAT) { nInfeasible++; throw KillPath(); }
    std::string fn = S.stack.empty() ? "" : llvm::demangle(S.stack.back().f->name);
    if (r == UNK) { nUndecided++; checkUnk[kind + ":" + id]++; }
    report(S, kind, id + " in " + fn, nullptr, {});
    throw KillPath();
}

// ---------------------------------------------------------------- values
static A toIntExpr(const Val& v) {   // canonical signed Int expr
    if (v.k == VINT) return mkI(sx(v.u, v.w)); if (v.k == VSYM) return v.a;
    if (v.k == VBOOL) return mkIte(v.a, mkI(-1), mkI(0));
    if (v.k == VREAL) unsup("integer operation on a symbolic double's bit pattern");
    if (v.k == VFP) { uint64_t u; memcpy(&u, &v.d, 8); return mkI((int64_t)u); }
    unsup("toIntExpr"); 
}
static A toBoolExpr(const Val& v) {
    if (v.k == VINT) return (v.u & 1) ? Z3_mk_true(C) : Z3_mk_false(C); if (v.k == VBOOL) return v.a;
    if (v.k == VSYM) return mkEq(Z3_mk_mod(C, v.a, mkI(2)), mkI(1));
    unsup("toBoolExpr");
}
static void rng(const Val& v, i128& lo, i128& hi) { if (v.k == VINT) lo = hi = sx(v.u, v.w); else if (v.k == VSYM) { lo = v.lo; hi = v.hi; } else if (v.k == VBOOL) { lo = -1; hi = 0; } else unsup("rng"); }
static Val mkBool(A a) { if (isTrue(a)) return mkBoolC(true); if (isFalse(a)) return mkBoolC(false); Val v; v.k = VBOOL; v.w = 1; v.a = a; return v; }
static i128 mnW(unsigned w) { return -((i128)1 << (w - 1)); }
static i128 mxW(unsigned w) { return ((i128)1 << (w - 1)) - 1; }
static Val mkSym(A e, i128 lo, i128 hi, unsigned w) {
    if (isNum(e)) { int64_t x; if (Z3_get_numeral_int64(C, e, &x)) return mkInt((uint64_t)x, w); }
    if (lo == hi) return mkInt((uint64_t)(int64_t)lo, w);
    Val r; r.k = VSYM; r.w = w; r.a = e; r.lo = (int64_t)lo; r.hi = (int64_t)hi; return r;
}
static A wrapE(A e, unsigned w) { return mkSub(Z3_mk_mod(C, mkAdd(e, mkI((i128)1 << (w - 1))), mkI((i128)1 << w)), mkI((i128)1 << (w - 1))); }
static Val fit(State& S, A e, i128 lo, i128 hi, unsigned w, bool nsw) {
    i128 mn = mnW(w), mx = mxW(w);
    if (lo >= mn && hi <= mx) return mkSym(e, lo, hi, w);
    A in = mkAnd(mkLe(mkI(mn), e), mkLe(e, mkI(mx)));
    QRes q = query(S, mkNot(in));
    if (q.r == UNSAT) return mkSym(e, std::max(lo, mn), std::min(hi, mx), w);
    if (nsw && q.r == SAT) { 
        report(S, "ub", "signed integer overflow in " + llvm::demangle(S.stack.back().f->name), q.m.get(), {mkNot(in)});
        assume(S, in); return mkSym(e, std::max(lo, mn), std::min(hi, mx), w); }
    return mkSym(wrapE(e, w), mn, mx, w);
}
static A uns(const Val& v, unsigned w, i128& lo, i128& hi) { // unsigned interpretation
    if (v.k == VINT) { lo = hi = (i128)(v.u & maskw(w)); return mkI(lo); }
    rng(v, lo, hi); A e = toIntExpr(v);
    if (lo >= 0) return e; i128 M2 = (i128)1 << w;
    if (hi < 0) { lo += M2; hi += M2; return mkAdd(e, mkI(M2)); }
    A r = mkIte(mkLt(e, mkI(0)), mkAdd(e, mkI(M2)), e); lo = 0; hi = M2 - 1; return r;
}
static Val concretize(State& S, const Val& v);
static bool concB(State& S, const Val& v) { if (v.k == VINT) return v.u & 1; if (v.k == VUNDEF) fail(S, "uninit", "branch on uninitialised value"); return decide(S, toBoolExpr(v)); }
static Val intOp(State& S, unsigned op, const Val& a, const Val& b, unsigned w, bool nsw, bool exact) {
    if (a.k == VUNDEF || b.k == VUNDEF) {
        if (op == Instruction::And) { if (a.k == VINT && a.u == 0) return a; if (b.k == VINT && b.u == 0) return b; }
        if (op == Instruction::Mul) { if (a.k == VINT && a.u == 0) return a; if (b.k == VINT && b.u == 0) return b; }
        if ((a.k == VINT || a.k == VUNDEF) && (b.k == VINT || b.k == VUNDEF)) { uint64_t da = defOf(a, w), db = defOf(b, w), x = a.u & da, y = b.u & db;
            switch (op) {
            case Instruction::And: return mkPart(x & y, (da & db) | (da & ~x) | (db & ~y), w);
            case Instruction::Or: return mkPart(x | y, (da & db) | (da & x) | (db & y), w);
            case Instruction::Xor: return mkPart(x ^ y, da & db, w);
            case Instruction::Shl: if (b.k == VINT && y < w) return mkPart(x << y, (da << y) | ((1ull << y) - 1), w); break;
            case Instruction::LShr: if (b.k == VINT && y < w) return mkPart(x >> y, (da >> y) | (y ? ~(maskw(w) >> y) : 0), w); break;
            default: break; } }
        if (op == Instruction::Or && w == 1) { if (a.k == VINT && a.u == 1) return a; if (b.k == VINT && b.u == 1) return b; }
        Val v; v.w = w; return v; }
    if (a.k == VINT && b.k == VINT) {
        uint64_t x = a.u, y = b.u; int64_t sa = sx(x, w), sb = sx(y, w);
        switch (op) {
        case Instruction::Add: if (nsw && ((i128)sa + sb > mxW(w) || (i128)sa + sb < mnW(w))) report(S, "ub", "signed integer overflow in " + llvm::demangle(S.stack.back().f->name), nullptr, {}); return mkInt(x + y, w);
        case Instruction::Sub: if (nsw && ((i128)sa - sb > mxW(w) || (i128)sa - sb < mnW(w))) report(S, "ub", "signed integer overflow in " + llvm::demangle(S.stack.back().f->name), nullptr, {}); return mkInt(x - y, w);
        case Instruction::Mul: if (nsw && ((i128)sa * sb > mxW(w) || (i128)sa * sb < mnW(w))) report(S, "ub", "signed integer overflow in " + llvm::demangle(S.stack.back().f->name), nullptr, {}); return mkInt(x * y, w);
        case Instruction::And: return mkInt(x & y, w); case Instruction::Or: return mkInt(x | y, w); case Instruction::Xor: return mkInt(x ^ y, w);
        case Instruction::Shl: return mkInt(y >= w ? 0 : x << y, w); case Instruction::LShr: return mkInt(y >= w ? 0 : x >> y, w);
        case Instruction::AShr: return mkInt(y >= w ? (sa < 0 ? ~0ull : 0) : (uint64_t)(sa >> y), w);
        case Instruction::UDiv: if (!y) fail(S, "div0", "integer division by zero"); return mkInt(x / y, w);
        case Instruction::URem: if (!y) fail(S, "div0", "integer division by zero"); return mkInt(x % y, w);
        case Instruction::SDiv: if (!y) fail(S, "div0", "integer division by zero"); if (sb == -1) return mkInt(0 - x, w); return mkInt((uint64_t)(sa / sb), w);
        case Instruction::SRem: if (!y) fail(S, "div0", "integer division by zero"); if (sb == -1) return mkInt(0, w); return mkInt((uint64_t)(sa % sb), w);
        }
        unsup("int op");
    }
    if (w == 1) {
        A x = toBoolExpr(a), y = toBoolExpr(b);
        switch (op) { case Instruction::And: case Instruction::Mul: return mkBool(mkAnd(x, y)); case Instruction::Or: return mkBool(mkOr(x, y));
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkBool(mkNot(mkEq(x, y))); }
        unsup("bool op");
    }
    i128 al, ah, bl, bh;
    switch (op) {
    case Instruction::Add: { rng(a, al, ah); rng(b, bl, bh); return fit(S, mkAdd(toIntExpr(a), toIntExpr(b)), al + bl, ah + bh, w, nsw); }
    case Instruction::Sub: { rng(a, al, ah); rng(b, bl, bh); return fit(S, mkSub(toIntExpr(a), toIntExpr(b)), al - bh, ah - bl, w, nsw); }
    case Instruction::Mul: { rng(a, al, ah); rng(b, bl, bh);
        // avoid 128-bit overflow for full-range 64-bit operands
        auto big = [](i128 x) { return x > ((i128)1 << 62) || x < -((i128)1 << 62); };
        if ((big(al) || big(ah)) && (big(bl) || big(bh))) unsup("wide symbolic multiplication");
        i128 p[4] = {al * bl, al * bh, ah * bl, ah * bh}; i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
        return fit(S, mkMul(toIntExpr(a), toIntExpr(b)), lo, hi, w, nsw); }
    case Instruction::Shl: { if (b.k != VINT) { Val bc = concretize(S, b); return intOp(S, op, a, bc, w, nsw, exact); } if (b.u >= w) return mkInt(0, w);
        rng(a, al, ah); i128 f = (i128)1 << b.u; return fit(S, mkMul(toIntExpr(a), mkI(f)), al * f, ah * f, w, false); }
    case Instruction::AShr: { if (b.k != VINT) { Val bc = concretize(S, b); return intOp(S, op, a, bc, w, nsw, exact); }
        rng(a, al, ah); i128 f = (i128)1 << b.u; auto fl = [&](i128 x) { i128 q = x / f; if (x < 0 && q * f != x) q--; return q; };
        return mkSym(Z3_mk_div(C, toIntExpr(a), mkI(f)), fl(al), fl(ah), w); }
    case Instruction::LShr: { if (b.k != VINT) { Val bc = concretize(S, b); return intOp(S, op, a, bc, w, nsw, exact); }
        A e = uns(a, w, al, ah); i128 f = (i128)1 << b.u; i128 lo = al / f, hi = ah / f; A q = Z3_mk_div(C, e, mkI(f)); if (hi > mxW(w)) return mkSym(wrapE(q, w), mnW(w), mxW(w), w); return mkSym(q, lo, hi, w); }
    case Instruction::UDiv: case Instruction::URem: {
        A x = uns(a, w, al, ah), y = uns(b, w, bl, bh);
        if (bl == 0) { if (decide(S, mkEq(y, mkI(0)))) fail(S, "div0", "integer division by zero"); bl = 1; }
        if (op == Instruction::UDiv) { i128 lo = al / std::max<i128>(bh, 1), hi = ah / bl; A q = Z3_mk_div(C, x, y); if (hi > mxW(w)) return mkSym(wrapE(q, w), mnW(w), mxW(w), w); return mkSym(q, lo, hi, w); }
        A m = Z3_mk_mod(C, x, y); i128 hi = std::min(ah, bh - 1); if (hi > mxW(w)) return mkSym(wrapE(m, w), mnW(w), mxW(w), w); return mkSym(m, 0, hi, w); }
    case Instruction::SDiv: case Instruction::SRem: {
        rng(a, al, ah); rng(b, bl, bh); A x = toIntExpr(a), y = toIntExpr(b);
        if (bl <= 0 && bh >= 0) { if (decide(S, mkEq(y, mkI(0)))) fail(S, "div0", "integer division by zero"); }
        A ax = al >= 0 ? x : ah <= 0 ? mkSub(mkI(0), x) : mkIte(mkLt(x, mkI(0)), mkSub(mkI(0), x), x);
        A ay = bl >= 0 ? y : bh <= 0 ? mkSub(mkI(0), y) : mkIte(mkLt(y, mkI(0)), mkSub(mkI(0), y), y);
        if (op == Instruction::SDiv) {
            A q = Z3_mk_div(C, ax, ay); A neg = mkNot(mkEq(mkLt(x, mkI(0)), mkLt(y, mkI(0))));
            if (al >= 0 && bl >= 0) neg = Z3_mk_false(C);
            i128 m = std::max(al < 0 ? -al : al, ah < 0 ? -ah : ah); i128 lo = (al >= 0 && bl >= 0) ? 0 : -m;
            return fit(S, mkIte(neg, mkSub(mkI(0), q), q), lo, m, w, nsw); }
        A r = Z3_mk_mod(C, ax, ay); i128 m = std::max(bl < 0 ? -bl : bl, bh < 0 ? -bh : bh) - 1; 
        i128 ma = std::max(al < 0 ? -al : al, ah < 0 ? -ah : ah); if (ma < m) m = ma;
        if (al >= 0) return mkSym(r, 0, m, w);
        return mkSym(mkIte(mkLt(x, mkI(0)), mkSub(mkI(0), r), r), -m, ah <= 0 ? (i128)0 : m, w); }
    case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        const Val& s = a.k == VINT ? b : a; const Val& c = a.k == VINT ? a : b;
        if (c.k == VINT) {
            uint64_t m = c.u & maskw(w); A x = toIntExpr(s);
            // x & m for arbitrary constant mask as a sum of runs
            auto andMask = [&](uint64_t mm) -> A {
                A r = mkI(0); unsigned i = 0;
                while (i < w) { if (!(mm >> i & 1)) { i++; continue; } unsigned j = i; while (j < w && (mm >> j & 1)) j++;
                    A t = i ? Z3_mk_div(C, x, mkI((i128)1 << i)) : x; t = Z3_mk_mod(C, t, mkI((i128)1 << (j - i))); r = mkAdd(r, mkMul(t, mkI((i128)1 << i))); i = j; }
                return r; };
            if (op == Instruction::And) {
                if (m == maskw(w)) return s; if (m == 0) return mkInt(0, w);
                i128 lo, hi; rng(s, lo, hi);
                if (lo >= 0 && (m & (m + 1)) == 0 && hi <= (i128)m) return s;
                if (lo >= 0 && (~m & maskw(w)) && ((~m & maskw(w)) & ((~m & maskw(w)) + 1)) == 0) { uint64_t low = ~m & maskw(w); return mkSym(mkSub(x, Z3_mk_mod(C, x, mkI((i128)low + 1))), 0, hi, w); }
                A r = andMask(m); if (m >> (w - 1)) return mkSym(wrapE(r, w), mnW(w), mxW(w), w);
                return mkSym(r, 0, m, w); }
            if (op == Instruction::Xor) {
                if (m == maskw(w)) { i128 lo, hi; rng(s, lo, hi); return mkSym(mkSub(mkI(-1), x), -1 - hi, -1 - lo, w); }
                i128 lo, hi; A u = uns(s, w, lo, hi); A r = mkSub(mkAdd(u, mkI((i128)m)), mkMul(mkI(2), andMask(m)));
                if (hi <= mxW(w) && !(m >> (w - 1))) { i128 top = 1; while (top <= hi || top <= (i128)m) top <<= 1; return mkSym(r, 0, top - 1, w); }
                return mkSym(wrapE(r, w), mnW(w), mxW(w), w); }
            // or
            if (m == 0) return s;
            i128 lo, hi; A u = uns(s, w, lo, hi); A r = mkSub(mkAdd(u, mkI((i128)m)), andMask(m));
            if (hi <= mxW(w) && !(m >> (w - 1))) { i128 top = 1; while (top <= hi || top <= (i128)m) top <<= 1; return mkSym(r, 0, top - 1, w); }
            return mkSym(wrapE(r, w), mnW(w), mxW(w), w);
        }
        // both symbolic: through bit-vectors
        A x = Z3_mk_int2bv(C, w, toIntExpr(a)), y = Z3_mk_int2bv(C, w, toIntExpr(b));
        A r = op == Instruction::And ? Z3_mk_bvand(C, x, y) : op == Instruction::Or ? Z3_mk_bvor(C, x, y) : Z3_mk_bvxor(C, x, y);
        return mkSym(Z3_mk_bv2int(C, r, true), mnW(w), mxW(w), w); }
    }
    unsup("int op sym");
}
static Val icmp(State& S, CmpInst::Predicate p, const Val& a, const Val& b, unsigned w) {
    if (a.k == VUNDEF || b.k == VUNDEF) { Val v; v.w = 1; return v; }
    if (a.k == VINT && b.k == VINT) {
        uint64_t x = a.u, y = b.u; int64_t s = sx(x, w), t = sx(y, w); bool r;
        switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break;
        case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; default: unsup("icmp"); }
        return mkBoolC(r);
    }
    if (w == 1) { A x = toBoolExpr(a), y = toBoolExpr(b);
        switch (p) { case CmpInst::ICMP_EQ: return mkBool(mkEq(x, y)); case CmpInst::ICMP_NE: return mkBool(mkNot(mkEq(x, y))); case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return mkBool(mkAnd(mkNot(x), y));
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return mkBool(mkAnd(x, mkNot(y))); case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: return mkBool(mkOr(mkNot(x), y)); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SLE: return mkBool(mkOr(x, mkNot(y))); default: unsup("icmp1"); } }
    i128 al, ah, bl, bh; A x, y; bool un = CmpInst::isUnsigned(p);
    if (un) { i128 l1, h1, l2, h2; rng(a, l1, h1); rng(b, l2, h2); if (l1 >= 0 && l2 >= 0) un = false; else if (h1 < 0 && h2 < 0) un = false; }
    if (un) { x = uns(a, w, al, ah); y = uns(b, w, bl, bh); } else { x = toIntExpr(a); y = toIntExpr(b); rng(a, al, ah); rng(b, bl, bh); }
    switch (p) {
    case CmpInst::ICMP_EQ: if (ah < bl || bh < al) return mkBoolC(false); return mkBool(mkEq(x, y));
    case CmpInst::ICMP_NE: if (ah < bl || bh < al) return mkBoolC(true); return mkBool(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: if (ah < bl) return mkBoolC(true); if (al >= bh) return mkBoolC(false); return mkBool(mkLt(x, y));
    case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: if (ah <= bl) return mkBoolC(true); if (al > bh) return mkBoolC(false); return mkBool(mkLe(x, y));
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: if (al > bh) return mkBoolC(true); if (ah <= bl) return mkBoolC(false); return mkBool(mkLt(y, x));
    case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: if (al >= bh) return mkBoolC(true); if (ah < bl) return mkBoolC(false); return mkBool(mkLe(y, x));
    default: unsup("icmp pred"); }
}
// ---- reals
static bool isF(const Val& v) { return v.k == VREAL || v.k == VFP; }
static Val mkReal(A e, double lo, double hi) {
    if (isNum(e)) { double d = Z3_get_numeral_double(C, e); if (mkR(d) == e) return mkFP(d); }
    Val v; v.k = VREAL; v.w = 64; v.a = e; v.rlo = lo; v.rhi = hi; return v;
}
static A toR(const Val& v) { if (v.k == VFP) { if (!std::isfinite(v.d)) unsup("non-finite in real expression"); return mkR(v.d); } if (v.k == VREAL) return v.a; if (v.k == VINT) { double d; memcpy(&d, &v.u, 8); return mkR(d); } unsup("toR"); }
static void rr(const Val& v, double& lo, double& hi) { if (v.k == VFP) lo = hi = v.d; else { lo = v.rlo; hi = v.rhi; } }
static double dn(double x) { return std::isfinite(x) ? std::nextafter(x, -INFINITY) : x; }
static double up(double x) { return std::isfinite(x) ? std::nextafter(x, INFINITY) : x; }
static Val fixF(const Val& v) { if (v.k == VINT) { double d; memcpy(&d, &v.u, 8); return mkFP(d); } return v; }
static bool possiblyZero(const Val& v) { if (v.k == VFP) return v.d == 0; return v.rlo <= 0 && v.rhi >= 0; }
// floor as an integer variable n with n <= x < n + 1 (linear), shared between equal arguments
static bool asInt(A x, A& out, int d = 0) {
    if (Z3_get_sort(C, x) == IntS) { out = x; return true; }
    if (isNum(x)) { A y = Z3_simplify(C, Z3_mk_real2int(C, x)); if (isTrue(Z3_simplify(C, Z3_mk_eq(C, Z3_mk_int2real(C, y), x)))) { out = y; return true; } return false; }
    if (d > 12 || Z3_get_ast_kind(C, x) != Z3_APP_AST) return false;
    Z3_app ap = Z3_to_app(C, x); Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)); unsigned n = Z3_get_app_num_args(C, ap); A r, t;
    if (k == Z3_OP_TO_REAL) { out = Z3_get_app_arg(C, ap, 0); return true; }
    if (k == Z3_OP_ITE) { A u, v; if (!asInt(Z3_get_app_arg(C, ap, 1), u, d + 1) || !asInt(Z3_get_app_arg(C, ap, 2), v, d + 1)) return false; out = mkIte(Z3_get_app_arg(C, ap, 0), u, v); return true; }
    if (k == Z3_OP_UMINUS) { if (!asInt(Z3_get_app_arg(C, ap, 0), r, d + 1)) return false; out = mkSub(mkI(0), r); return true; }
    if (k != Z3_OP_ADD && k != Z3_OP_MUL && k != Z3_OP_SUB) return false;
    if (!asInt(Z3_get_app_arg(C, ap, 0), r, d + 1)) return false;
    for (unsigned i = 1; i < n; i++) { if (!asInt(Z3_get_app_arg(C, ap, i), t, d + 1)) return false; r = k == Z3_OP_ADD ? mkAdd(r, t) : k == Z3_OP_SUB ? mkSub(r, t) : mkMul(r, t); }
    out = r; return true;
}
static std::map<unsigned, int> floorCache;
static A floorI(State& S, A x) {
    A e; if (asInt(x, e)) return e;
    if (isNum(x)) return Z3_simplify(C, Z3_mk_real2int(C, x));
    int q; auto it = floorCache.find(astId(x)); if (it == floorCache.end()) { q = newVar("floor", IntS, 2); floorCache[astId(x)] = q; } else q = it->second;
    A n = vars[q].c, r = mkToReal(n), a1 = mkLe(r, x), a2 = mkLt(x, mkAdd(r, mkR(1)));
    if (!S.pcset.count(astId(a2))) { defFresh(S, q, Z3_mk_real2int(C, x)); axiom(S, a1); axiom(S, a2); }
    return n;
}
static double flo(double x) { return std::isfinite(x) ? std::floor(x) : x; }
static double cei(double x) { return std::isfinite(x) ? std::ceil(x) : x; }
static Val floorV(State& S, Val x) { x = fixF(x); if (x.k == VUNDEF) return x; if (x.k == VFP) return mkFP(std::floor(x.d)); return mkReal(mkToReal(floorI(S, x.a)), flo(x.rlo), flo(x.rhi)); }
static A ceilI(State& S, A x) { A e; if (asInt(x, e)) return e; A f = floorI(S, x); return mkIte(mkLt(mkToReal(f), x), mkAdd(f, mkI(1)), f); }
static Val ceilV(State& S, Val x) { x = fixF(x); if (x.k == VUNDEF) return x; if (x.k == VFP) return mkFP(std::ceil(x.d)); return mkReal(mkToReal(ceilI(S, x.a)), cei(x.rlo), cei(x.rhi)); }
static std::map<std::pair<unsigned, unsigned>, int> divCache;
static Val fdivSym(State& S, const Val& a, const Val& b) {
    if (b.k == VFP) { // finite nonzero
        double lo, hi; rr(a, lo, hi); double p[2] = {lo / b.d, hi / b.d};
        return mkReal(Z3_mk_div(C, toR(a), mkR(b.d)), dn(std::min(p[0], p[1])), up(std::max(p[0], p[1]))); }
    A n = toR(a), d = toR(b);
    if (n == d) return mkFP(1.0);
    if (a.k == VFP && a.d == 0) return mkFP(0.0);
    auto key = std::make_pair(astId(n), astId(d)); int q; auto it = divCache.find(key); bool fresh = it == divCache.end();
    if (fresh) { q = newVar("q", RealS, 2); divCache[key] = q; } else q = it->second;
    A qc = vars[q].c; A ax = mkEq(mkMul(qc, d), n);
    if (!S.pcset.count(astId(ax))) { defFresh(S, q, Z3_mk_div(C, n, d)); axiom(S, ax); }
    double lo = -INFINITY, hi = INFINITY, al, ah, bl, bh; rr(a, al, ah); rr(b, bl, bh);
    if (bl > 0 || bh < 0) { double p[4] = {al / bl, al / bh, ah / bl, ah / bh}; bool nan = false; for (double x : p) nan |= std::isnan(x); if (!nan) { lo = dn(*std::min_element(p, p + 4)); hi = up(*std::max_element(p, p + 4)); } }
    return mkReal(qc, lo, hi);
}
static Val fop(State& S, unsigned op, Val a, Val b, bool f32) {
    if (a.k == VUNDEF || b.k == VUNDEF) { Val v; v.w = 64; return v; }
    a = fixF(a); b = fixF(b);
    if (!isF(a) || !isF(b)) unsup("fp op on int symbol");
    if (a.k == VFP && b.k == VFP) {
        double r; switch (op) { case Instruction::FAdd: r = a.d + b.d; break; case Instruction::FSub: r = a.d - b.d; break; case Instruction::FMul: r = a.d * b.d; break; case Instruction::FDiv: r = a.d / b.d; break; case Instruction::FRem: r = fmod(a.d, b.d); break; default: unsup("fop"); }
        return mkFP(f32 ? (double)(float)r : r);
    }
    if ((a.k == VFP && std::isnan(a.d)) || (b.k == VFP && std::isnan(b.d))) return mkFP(NAN);
    bool ai = a.k == VFP && std::isinf(a.d), bi = b.k == VFP && std::isinf(b.d);
    auto sgn = [&](const Val& v) -> int { if (decide(S, mkEq(toR(v), mkR(0)))) return 0; return decide(S, mkLt(mkR(0), toR(v))) ? 1 : -1; };
    if (ai || bi) switch (op) {
        case Instruction::FAdd: return ai ? a : b; case Instruction::FSub: return ai ? a : mkFP(-b.d);
        case Instruction::FMul: { int s = sgn(ai ? b : a); double i = ai ? a.d : b.d; return mkFP(s == 0 ? NAN : s * i); }
        case Instruction::FDiv: if (bi) return mkFP(0.0); { int s = sgn(b); return mkFP(s < 0 ? -a.d : a.d); }
        default: unsup("frem inf"); }
    double al, ah, bl, bh; rr(a, al, ah); rr(b, bl, bh);
    switch (op) {
    case Instruction::FAdd: return mkReal(mkAdd(toR(a), toR(b)), dn(al + bl), up(ah + bh));
    case Instruction::FSub: return mkReal(mkSub(toR(a), toR(b)), dn(al - bh), up(ah - bl));
    case Instruction::FMul: {
        if (a.k == VFP && a.d == 0) return mkFP(0); if (b.k == VFP && b.d == 0) return mkFP(0);
        double p[4] = {al * bl, al * bh, ah * bl, ah * bh}; double lo = INFINITY, hi = -INFINITY; for (double x : p) { if (std::isnan(x)) { lo = -INFINITY; hi = INFINITY; break; } lo = std::min(lo, x); hi = std::max(hi, x); }
        if (toR(a) == toR(b)) lo = std::max(lo, 0.0);
        lo = dn(lo); hi = up(hi); if (toR(a) == toR(b)) lo = std::max(lo, 0.0);
        return mkReal(mkMul(toR(a), toR(b)), lo, hi); }
    case Instruction::FDiv:
        if (b.k == VFP && b.d == 0) { int s = sgn(a); return mkFP(s == 0 ? NAN : (std::signbit(b.d) ? -s : s) * INFINITY); }
        if (possiblyZero(b) && decide(S, mkEq(toR(b), mkR(0)))) { int s; if (a.k == VFP) s = a.d == 0 ? 0 : a.d > 0 ? 1 : -1; else s = sgn(a); return mkFP(s == 0 ? NAN : s * INFINITY); }
        return fdivSym(S, a, b);
    case Instruction::FRem: { if (b.k != VFP || b.d == 0) unsup("frem by symbol");
        A q = Z3_mk_div(C, toR(a), mkR(b.d)); A ab = mkIte(mkLt(q, mkR(0)), mkSub(mkR(0), q), q); A t = mkToReal(floorI(S, ab)); t = mkIte(mkLt(q, mkR(0)), mkSub(mkR(0), t), t);
        return mkReal(mkSub(toR(a), mkMul(t, mkR(b.d))), -std::fabs(b.d), std::fabs(b.d)); }
    }
    unsup("fop sym");
}
static Val fcmp(State& S, CmpInst::Predicate p, Val a, Val b) {
    if (a.k == VUNDEF || b.k == VUNDEF) { Val v; v.w = 1; return v; }
    a = fixF(a); b = fixF(b);
    if (!isF(a) || !isF(b)) unsup("fcmp on int symbol");
    bool nan = (a.k == VFP && std::isnan(a.d)) || (b.k == VFP && std::isnan(b.d));
    if (p == CmpInst::FCMP_ORD) return mkBoolC(!nan); if (p == CmpInst::FCMP_UNO) return mkBoolC(nan);
    if (p == CmpInst::FCMP_TRUE) return mkBoolC(true); if (p == CmpInst::FCMP_FALSE) return mkBoolC(false);
    if (nan) return mkBoolC(CmpInst::isUnordered(p));
    auto inf = [](const Val& v) { return v.k == VFP && std::isinf(v.d); };
    if ((a.k == VFP && b.k == VFP) || inf(a) || inf(b)) {
        double x = a.k == VFP ? a.d : 0, y = b.k == VFP ? b.d : 0; bool r;
        switch (p) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; default: r = x >= y; }
        return mkBoolC(r);
    }
    double al, ah, bl, bh; rr(a, al, ah); rr(b, bl, bh); A x = toR(a), y = toR(b);
    switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: if (ah < bl || bh < al) return mkBoolC(false); return mkBool(mkEq(x, y));
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: if (ah < bl || bh < al) return mkBoolC(true); return mkBool(mkNot(mkEq(x, y)));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: if (ah < bl) return mkBoolC(true); if (al >= bh) return mkBoolC(false); return mkBool(mkLt(x, y));
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: if (ah <= bl) return mkBoolC(true); if (al > bh) return mkBoolC(false); return mkBool(mkLe(x, y));
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: if (al > bh) return mkBoolC(true); if (ah <= bl) return mkBoolC(false); return mkBool(mkLt(y, x));
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: if (al >= bh) return mkBoolC(true); if (ah < bl) return mkBoolC(false); return mkBool(mkLe(y, x));
    default: unsup("fcmp pred"); }
}
static Val fneg(const Val& a0) { if (a0.k == VUNDEF) return a0; Val a = fixF(a0); if (a.k == VFP) return mkFP(-a.d); return mkReal(mkSub(mkR(0), toR(a)), -a.rhi, -a.rlo); }
static Val fabsV(const Val& a0) { if (a0.k == VUNDEF) return a0; Val a = fixF(a0); if (a.k == VFP) return mkFP(std::fabs(a.d)); if (a.rlo >= 0) return a; if (a.rhi <= 0) return fneg(a);
    double m = std::max(std::fabs(a.rlo), std::fabs(a.rhi)); return mkReal(mkIte(mkLt(a.a, mkR(0)), mkSub(mkR(0), a.a), a.a), 0, m); }
static Val merge2(A c, const Val& t, const Val& e);
static Val fptoi(State& S, Val a, unsigned w, bool sg) {
    a = fixF(a); if (a.k == VUNDEF) { a.w = w; return a; }
    if (a.k == VFP) {
        if (std::isnan(a.d) || (sg ? (a.d >= std::ldexp(1.0, w - 1) || a.d < -std::ldexp(1.0, w - 1) - (w < 53 ? 0.9999999 : 0)) : (a.d >= std::ldexp(1.0, w) || a.d <= -1.0))) { report(S, "ub", "float-to-integer conversion out of range in " + llvm::demangle(S.stack.back().f->name), nullptr, {}); return sg ? mkInt(1ull << (w - 1), w) : mkInt(0, w); }
        return sg ? mkInt((uint64_t)(int64_t)a.d, w) : mkInt((uint64_t)a.d, w); }
    double mn = sg ? -std::ldexp(1.0, w - 1) : 0, mx = sg ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w);
    if (!(a.rlo > (sg ? mn : -1) && a.rhi < mx)) {
        A in = mkAnd(mkLt(mkSub(mkR(mn), mkR(1)), a.a), mkLt(a.a, mkR(mx)));
        QRes q = query(S, mkNot(in)); if (q.r != UNSAT) { if (q.r == SAT) report(S, "ub", "float-to-integer conversion out of range in " + llvm::demangle(S.stack.back().f->name), q.m.get(), {mkNot(in)}); assume(S, in); } }
    i128 lo = a.rlo > -9e18 ? (i128)std::floor(a.rlo) : mnW(w), hi = a.rhi < 9e18 ? (i128)std::ceil(a.rhi) : mxW(w); if (!sg && lo < 0) lo = 0;
    if (sg) { lo = std::max(lo, mnW(w)); hi = std::min(hi, mxW(w)); }
    A e; if (a.rlo >= 0) e = floorI(S, a.a); else if (a.rhi <= 0) e = ceilI(S, a.a); else if (!asInt(a.a, e)) { A f = floorI(S, a.a); e = mkIte(mkAnd(mkLt(a.a, mkR(0)), mkLt(mkToReal(f), a.a)), mkAdd(f, mkI(1)), f); }
    if (hi > mxW(w)) return mkSym(wrapE(e, w), mnW(w), mxW(w), w);
    return mkSym(e, lo, hi, w);
}
static Val itofp(const Val& a, unsigned w, bool sg) {
    if (a.k == VUNDEF) return a;
    if (a.k == VINT) return mkFP(sg ? (double)sx(a.u, w) : (double)a.u);
    if (a.k == VBOOL) { double o = sg ? -1 : 1; return mkReal(mkIte(a.a, mkR(o), mkR(0)), std::min(o, 0.0), std::max(o, 0.0)); }
    i128 lo, hi; A e; if (sg) { rng(a, lo, hi); e = toIntExpr(a); } else e = uns(a, w, lo, hi);
    // to_real(to_int(x)) patterns stay as they are
    return mkReal(mkToReal(e), (double)lo, (double)hi);
}
static Val merge2(A c, const Val& t, const Val& e) {   // caller guarantees mergeability
    if (t.k == VUNDEF) return e; if (e.k == VUNDEF) return t;
    if (isF(t) || isF(e)) {
        if (t.k == VFP && e.k == VFP && !memcmp(&t.d, &e.d, 8)) return t;
        double a, b, x, y; rr(t, a, b); rr(e, x, y); return mkReal(mkIte(c, toR(t), toR(e)), std::min(a, x), std::max(b, y)); }
    if (t.w == 1) return mkBool(mkIte(c, toBoolExpr(t), toBoolExpr(e)));
    if (t.k == VINT && e.k == VINT && t.u == e.u) return t;
    i128 a, b, x, y; rng(t, a, b); rng(e, x, y); return mkSym(mkIte(c, toIntExpr(t), toIntExpr(e)), std::min(a, x), std::max(b, y), t.w ? t.w : e.w);
}
static bool mergeable2(const Val& t, const Val& e, bool ptr) {
    if (t.k == VAGG || e.k == VAGG) {
        if (t.k != e.k || t.g->size() != e.g->size()) return false;
        for (size_t i = 0; i < t.g->size(); i++) if (!mergeable2((*t.g)[i], (*e.g)[i], (*t.g)[i].k == VINT && (*t.g)[i].w == 64)) return false; return true; }
    if (t.k == VUNDEF || e.k == VUNDEF) return t.k == e.k && t.u == e.u && t.lo == e.lo;
    bool ft = isF(t), fe = isF(e);
    if (ft != fe) return false;
    if (ft) { if (t.k == VFP && !std::isfinite(t.d)) return e.k == VFP && !memcmp(&t.d, &e.d, 8); if (e.k == VFP && !std::isfinite(e.d)) return false; return true; }
    if (ptr) return t.k == VINT && e.k == VINT && t.u == e.u;
    return true;
}
static Val mergeV(A c, const Val& t, const Val& e) {
    if (t.k == VAGG) { Agg* g = new Agg(); for (size_t i = 0; i < t.g->size(); i++) g->push_back(mergeV(c, (*t.g)[i], (*e.g)[i])); Val r = t; r.g = g; return r; }
    return merge2(c, t, e);
}
static Val concretize(State& S, const Val& v) {
    if (v.k == VINT) return v; if (v.k == VUNDEF) fail(S, "uninit", "use of uninitialised value");
    if (v.k == VBOOL) return mkInt(decide(S, v.a), 1);
    if (v.k != VSYM) unsup("concretize");
    for (;;) {
        A val; if (ensureModel(S) != SAT || !evalNum(S, v.a, val) || !isNum(val)) { if (ensureModel(S) == UNSAT) throw KillPath(); unsup("concretize: no model"); }
        int64_t x; if (!Z3_get_numeral_int64(C, val, &x)) unsup("concretize numeral");
        if (decide(S, mkEq(v.a, mkI(x)))) return mkInt((uint64_t)x, v.w);
    }
}
#include "exec.inc"

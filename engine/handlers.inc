// ---------------------------------------------------------------- external function models
static Val vvoid() { return Val(); }
static uint64_t needC(State& S, const Val& v, const char* w) { if (v.k == VUNDEF) fail(S, "uninit", std::string("uninitialised argument of ") + w); return concretize(S, v).u; }
#define H(nm) static Val nm(State& S, KInst& k, std::vector<Val>& a)
static Val doAlloc(State& S, const Val& n, uint8_t akind, bool zero) { uint64_t sz = needC(S, n, "allocation"); if (sz > (1u << 24)) { boundHit = true; boundReasons.insert("allocation larger than 16 MB"); throw KillPath(); } uint64_t p = allocHeap(S, sz, 1, zero); uint64_t off; objFor(S, p, off, true)->akind = akind; return mkInt(p, 64); }
H(h_new) { return doAlloc(S, a[0], 1, false); }
H(h_newa) { return doAlloc(S, a[0], 2, false); }
H(h_malloc) { return doAlloc(S, a[0], 3, false); }
H(h_calloc) { uint64_t n = needC(S, a[0], "calloc") * needC(S, a[1], "calloc"); return doAlloc(S, mkInt(n, 64), 3, true); }
static void doFree(State& S, const Val& pv, uint8_t akind) {
    uint64_t p = needC(S, pv, "free"); if (!p) return; uint32_t id = p >> OBJSHIFT; ObjP* o = slotOf(S, id, true);
    if (!o || !*o) fail(S, "double-free", "free of invalid or already freed memory"); if ((*o)->kind != 1) fail(S, "bad-free", "free of memory not on the heap");
    if (p != addrOf(id)) fail(S, "bad-free", "free of an interior pointer"); if ((*o)->akind != akind) fail(S, "alloc-dealloc-mismatch", "mismatched allocation and deallocation"); o->reset();
}
H(h_del) { doFree(S, a[0], 1); return vvoid(); }
H(h_dela) { doFree(S, a[0], 2); return vvoid(); }
H(h_free) { doFree(S, a[0], 3); return vvoid(); }
H(h_realloc) { uint64_t p = needC(S, a[0], "realloc"), n = needC(S, a[1], "realloc"); uint64_t q = allocHeap(S, n, 1, false); uint64_t off; objFor(S, q, off, true)->akind = 3; if (p) { Obj* o = objFor(S, p, off, false); uint64_t m = std::min(n, o->size); memcpyS(S, q, p, m); doFree(S, a[0], 3); } return mkInt(q, 64); }
// exceptions
H(h_exalloc) { uint64_t p = allocHeap(S, needC(S, a[0], "throw"), 1, false); return mkInt(p, 64); }
H(h_nop) { return vvoid(); }
H(h_zero) { return mkInt(0, k.w ? k.w : 64); }
H(h_one) { return mkInt(1, k.w ? k.w : 64); }
H(h_throw) { Exc e; e.obj = a[0].u; e.ti = a[1].u; e.adj = e.obj; S.excs.push_back(e); unwind(S, e.obj); throw Thrown(); }
H(h_begin) { Exc* e = excOf(S, a[0].u); e->handlers++; S.caught.push_back(a[0].u); return mkInt(e->adj, 64); }
H(h_end) { if (S.caught.empty()) return vvoid(); S.caught.pop_back(); return vvoid(); }
H(h_getex) { Exc* e = excOf(S, a[0].u); return mkInt(e->adj, 64); }
H(h_rethrow) { if (S.caught.empty()) fail(S, "terminate", "rethrow without exception"); uint64_t o = S.caught.back(); excOf(S, o)->adj = o; unwind(S, o); throw Thrown(); }
static void maybeAbort(State& S) { if (S.allowAbort) { ensureModel(S); throw PathEnd(); } }
H(h_terminate) { maybeAbort(S); fail(S, "terminate", "std::terminate called"); }
H(h_abort) { maybeAbort(S); fail(S, "abort", "abort called"); }
H(h_exit) { maybeAbort(S); fail(S, "exit", "exit called"); }
H(h_assert) { maybeAbort(S); fail(S, "assert", "assertion failed: " + cstr(S, a[0].u)); }
H(h_purev) { fail(S, "purevirtual", "pure virtual call"); }
H(h_dyncast) { return mkInt(dynCast(S, needC(S, a[0], "dynamic_cast"), a[1].u, a[2].u), 64); }
H(h_guard) { uint64_t off; Obj* o = access(S, a[0].u, 1, false, off, "guard"); Val v = loadVal(o, off, 1, 8, false); return mkInt(v.k == VINT && v.u ? 0 : 1, 32); }
H(h_guardrel) { uint64_t off; Obj* o = access(S, a[0].u, 1, true, off, "guard"); storeVal(o, off, mkInt(1, 8), 1); return vvoid(); }
// ---- transcendental functions
struct FnRec { std::string fn; A x, y; int v; int v2; std::vector<A> ax; };
static std::vector<FnRec> fnrecs; static std::map<std::string, int> fnKey;
static Val rvar(int v, double lo, double hi) { return mkReal(vars[v].c, lo, hi); }
static A c_(int v) { return vars[v].c; }
static void useRec(State& S, int id, A def) {
    if (std::find(S.fnrecs.begin(), S.fnrecs.end(), id) != S.fnrecs.end()) return;
    FnRec& r = fnrecs[id]; bool ok = S.modelOK && def;
    if (def && ok) { auto n = std::make_shared<Model>(*S.model); (*n)[r.v] = def; S.model = n; } else if (!def) S.modelOK = false;
    std::vector<A> extra;
    for (int o : S.fnrecs) { FnRec& q = fnrecs[o]; if (q.fn != r.fn) continue;
        A same = mkEq(q.x, r.x); if (r.y) same = mkAnd(same, mkEq(q.y, r.y)); extra.push_back(mkOr(mkNot(same), mkEq(c_(q.v), c_(r.v))));
        if (r.v2 >= 0) extra.push_back(mkOr(mkNot(same), mkEq(c_(q.v2), c_(r.v2))));
        if (r.fn == "trig") extra.push_back(mkOr(mkNot(mkEq(q.x, mkMul(mkR(-1), r.x))), mkAnd(mkEq(c_(q.v), mkMul(mkR(-1), c_(r.v))), mkEq(c_(q.v2), c_(r.v2)))));
        if (r.fn == "exp" || r.fn == "log" || r.fn == "asin" || r.fn == "atan" || r.fn == "cbrt") { extra.push_back(mkEq(mkLt(q.x, r.x), mkLt(c_(q.v), c_(r.v)))); extra.push_back(mkEq(mkLt(r.x, q.x), mkLt(c_(r.v), c_(q.v)))); }
        if (r.fn == "acos") { extra.push_back(mkEq(mkLt(q.x, r.x), mkLt(c_(r.v), c_(q.v)))); extra.push_back(mkEq(mkLt(r.x, q.x), mkLt(c_(q.v), c_(r.v)))); } }
    S.fnrecs.push_back(id);
    for (A x : r.ax) axiom(S, x);
    for (A x : extra) { if (evalModel(S, x) != 1) S.modelOK = false; axiom(S, x); }
    if (S.modelOK) for (A x : r.ax) if (evalModel(S, x) != 1) { S.modelOK = false; break; }
}
static int mkRec(const std::string& fn, A x, A y, bool two) {
    std::string key = fn + ":" + std::to_string(astId(x)) + ":" + (y ? std::to_string(astId(y)) : ""); auto it = fnKey.find(key); if (it != fnKey.end()) return it->second;
    FnRec r; r.fn = fn; r.x = x; r.y = y; r.v = newVar(fn, RealS, 2); r.v2 = two ? newVar(fn + "2", RealS, 2) : -1; int id = fnrecs.size(); fnrecs.push_back(r); fnKey[key] = id; return id;
}
static Val sqrtV(State& S, Val x) {
    x = fixF(x); if (x.k == VUNDEF) return x; if (x.k == VFP) return mkFP(std::sqrt(x.d));
    if (x.rlo < 0 && decide(S, mkLt(x.a, mkR(0)))) return mkFP(NAN);
    if (Z3_get_ast_kind(C, x.a) == Z3_APP_AST) { Z3_app ap = Z3_to_app(C, x.a); if (Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)) == Z3_OP_MUL && Z3_get_app_num_args(C, ap) == 2 && Z3_get_app_arg(C, ap, 0) == Z3_get_app_arg(C, ap, 1)) { double m = up(std::sqrt(std::max(0.0, x.rhi))); return fabsV(mkReal(Z3_get_app_arg(C, ap, 0), -m, m)); } }
    int id = mkRec("sqrt", x.a, nullptr, false); FnRec& r = fnrecs[id];
    if (r.ax.empty()) { r.ax.push_back(mkLe(mkR(0), c_(r.v))); r.ax.push_back(mkEq(mkMul(c_(r.v), c_(r.v)), x.a)); }
    A def = nullptr; A val; if (S.modelOK && evalNum(S, x.a, val) && isNum(val)) { def = isTrue(Z3_simplify(C, Z3_mk_lt(C, mkR(0), val))) ? Z3_algebraic_root(C, val, 2) : mkR(0); }
    useRec(S, id, def); return rvar(r.v, x.rlo > 0 ? dn(std::sqrt(x.rlo)) : 0, up(std::sqrt(std::max(0.0, x.rhi))));
}
H(h_sqrt) { return sqrtV(S, a[0]); }
static Val trig(State& S, Val x, bool sn) {
    x = fixF(x); if (x.k == VUNDEF) return x; if (x.k == VFP) return mkFP(sn ? std::sin(x.d) : std::cos(x.d));
    for (int o : S.fnrecs) { FnRec& q = fnrecs[o]; if (c_(q.v) == x.a && q.fn == "acos" && !sn) return mkReal(q.x, -1, 1); if (c_(q.v) == x.a && q.fn == "asin" && sn) return mkReal(q.x, -1, 1); }
    int id = mkRec("trig", x.a, nullptr, true); FnRec& r = fnrecs[id];
    if (r.ax.empty()) { A s = c_(r.v), c = c_(r.v2); r.ax.push_back(mkEq(mkAdd(mkMul(s, s), mkMul(c, c)), mkR(1))); r.ax.push_back(mkLe(mkR(-1), s)); r.ax.push_back(mkLe(s, mkR(1))); r.ax.push_back(mkLe(mkR(-1), c)); r.ax.push_back(mkLe(c, mkR(1))); trigs.push_back({x.a, r.v, r.v2});
        for (auto& q : fnrecs) if (c_(q.v) == x.a && q.fn == "acos") { r.ax.push_back(mkEq(c, q.x)); r.ax.push_back(mkLe(mkR(0), s)); }
        for (auto& q : fnrecs) if (c_(q.v) == x.a && q.fn == "atan2") { A Y = q.x, X = q.y; r.ax.push_back(mkEq(mkMul(s, X), mkMul(c, Y))); r.ax.push_back(mkLe(mkR(0), mkMul(s, Y))); r.ax.push_back(mkLe(mkR(0), mkMul(c, X))); r.ax.push_back(mkOr(mkNot(mkAnd(mkEq(Y, mkR(0)), mkEq(X, mkR(0)))), mkAnd(mkEq(c, mkR(1)), mkEq(s, mkR(0))))); } }
    A def = nullptr, val; if (S.modelOK && evalNum(S, x.a, val) && isNum(val)) { double th = numToDouble(val); double t = std::tan(std::fmod(th, 2 * M_PI) / 2); t = std::round(std::max(-50.0, std::min(50.0, t)) * 64) / 64; A T = mkR(t), t2 = mkMul(T, T), d = mkAdd(mkR(1), t2);
        def = Z3_simplify(C, Z3_mk_div(C, mkMul(mkR(2), T), d)); A cv = Z3_simplify(C, Z3_mk_div(C, mkSub(mkR(1), t2), d)); if (std::find(S.fnrecs.begin(), S.fnrecs.end(), id) == S.fnrecs.end()) { auto n = std::make_shared<Model>(*S.model); (*n)[r.v2] = cv; S.model = n; } }
    useRec(S, id, def); return rvar(sn ? r.v : r.v2, -1, 1);
}
H(h_sin) { return trig(S, a[0], true); }
H(h_cos) { return trig(S, a[0], false); }
H(h_tan) { Val s = trig(S, a[0], true), c = trig(S, a[0], false); return fop(S, Instruction::FDiv, s, c, false); }
static Val fn1(State& S, const char* fn, Val x, double (*cf)(double), double lo, double hi) {
    x = fixF(x); if (x.k == VUNDEF) return x; if (x.k == VFP) return mkFP(cf(x.d)); S.approx = true;
    int id = mkRec(fn, x.a, nullptr, false); FnRec& r = fnrecs[id];
    if (r.ax.empty()) { A v = c_(r.v); if (std::isfinite(lo)) r.ax.push_back(mkLe(mkR(lo), v)); if (std::isfinite(hi)) r.ax.push_back(mkLe(v, mkR(hi)));
        std::string f = fn; if (f == "exp") { r.ax.push_back(mkLt(mkR(0), v)); r.ax.push_back(mkLe(mkAdd(x.a, mkR(1)), v)); r.ax.push_back(mkEq(mkEq(x.a, mkR(0)), mkEq(v, mkR(1)))); r.ax.push_back(mkEq(mkLt(mkR(0), x.a), mkLt(mkR(1), v))); }
        if (f == "log") r.ax.push_back(mkEq(mkLt(mkR(1), x.a), mkLt(mkR(0), v))); 
        if (f == "acos") { r.ax.push_back(mkEq(mkEq(x.a, mkR(1)), mkEq(v, mkR(0)))); r.ax.push_back(mkEq(mkLt(x.a, mkR(0)), mkLt(mkR(M_PI / 2), v))); } 
        if (f == "asin" || f == "atan") { r.ax.push_back(mkEq(mkLt(x.a, mkR(0)), mkLt(v, mkR(0)))); r.ax.push_back(mkEq(mkLt(mkR(0), x.a), mkLt(mkR(0), v))); } }
    A def = nullptr, val; if (S.modelOK && evalNum(S, x.a, val)) { double d = cf(numToDouble(val)); if (std::isfinite(d)) def = mkR(d); }
    useRec(S, id, def); return rvar(r.v, std::max(lo, -1e300), std::min(hi, 1e300));
}
H(h_exp) { return fn1(S, "exp", a[0], std::exp, 0, INFINITY); }
H(h_cexp) { Val re = fixF(a[0]), im = fixF(a[1]); bool z = re.k == VFP && re.d == 0; Val m = z ? mkFP(1) : fn1(S, "exp", re, std::exp, 0, INFINITY); Val c = trig(S, im, false), s = trig(S, im, true); Agg* g = new Agg(); g->push_back(z ? c : fop(S, Instruction::FMul, m, c, false)); g->push_back(z ? s : fop(S, Instruction::FMul, m, s, false)); Val v; v.k = VAGG; v.g = g; return v; }
H(h_log) { Val x = fixF(a[0]); if (x.k == VREAL && x.rlo <= 0) { if (decide(S, mkEq(x.a, mkR(0)))) return mkFP(-INFINITY); if (decide(S, mkLt(x.a, mkR(0)))) return mkFP(NAN); } return fn1(S, "log", a[0], std::log, -INFINITY, INFINITY); }
H(h_log10) { Val x = fixF(a[0]); if (x.k == VREAL && x.rlo <= 0) { if (decide(S, mkEq(x.a, mkR(0)))) return mkFP(-INFINITY); if (decide(S, mkLt(x.a, mkR(0)))) return mkFP(NAN); } return fn1(S, "log10", a[0], std::log10, -INFINITY, INFINITY); }
H(h_atan) { return fn1(S, "atan", a[0], std::atan, -M_PI / 2, M_PI / 2); }
H(h_acos) { Val x = fixF(a[0]); if (x.k == VREAL) { if (decide(S, mkLt(mkR(1), x.a))) return mkFP(NAN); if (decide(S, mkLt(x.a, mkR(-1)))) return mkFP(NAN); } return fn1(S, "acos", a[0], std::acos, 0, M_PI + 1e-15); }
H(h_asin) { Val x = fixF(a[0]); if (x.k == VREAL) { if (decide(S, mkLt(mkR(1), x.a))) return mkFP(NAN); if (decide(S, mkLt(x.a, mkR(-1)))) return mkFP(NAN); } return fn1(S, "asin", a[0], std::asin, -M_PI / 2, M_PI / 2); }
H(h_cbrt) { return fn1(S, "cbrt", a[0], std::cbrt, -INFINITY, INFINITY); }
H(h_atan2) { Val y = fixF(a[0]), x = fixF(a[1]); if (x.k == VUNDEF || y.k == VUNDEF) return x; if (x.k == VFP && y.k == VFP) return mkFP(std::atan2(y.d, x.d)); S.approx = true;
    int id = mkRec("atan2", toR(y), toR(x), false); FnRec& r = fnrecs[id]; A Y = toR(y), X = toR(x), v = c_(r.v);
    if (r.ax.empty()) { r.ax.push_back(mkLe(mkR(-M_PI), v)); r.ax.push_back(mkLe(v, mkR(M_PI))); r.ax.push_back(mkEq(mkLt(mkR(0), Y), mkAnd(mkLt(mkR(0), v), mkLt(v, mkR(M_PI))))); r.ax.push_back(mkEq(mkLt(Y, mkR(0)), mkLt(v, mkR(0)))); r.ax.push_back(mkOr(mkNot(mkAnd(mkEq(Y, mkR(0)), mkLe(mkR(0), X))), mkEq(v, mkR(0)))); }
    useRec(S, id, nullptr); return rvar(r.v, -M_PI, M_PI); }
static Val powI(State& S, Val x, int64_t n) { if (n == 0) return mkFP(1); bool neg = n < 0; if (neg) n = -n; if (n > 64) unsup("large power"); Val r = x; for (int64_t i = 1; i < n; i++) r = fop(S, Instruction::FMul, r, x, false); if (neg) r = fop(S, Instruction::FDiv, mkFP(1), r, false); return r; }
H(h_pow) { Val x = fixF(a[0]), y = fixF(a[1]); if (x.k == VUNDEF || y.k == VUNDEF) return x; if (x.k == VFP && y.k == VFP) return mkFP(std::pow(x.d, y.d));
    if (y.k == VFP && y.d == std::floor(y.d) && std::fabs(y.d) <= 64) return powI(S, x, (int64_t)y.d); if (y.k == VFP && y.d == 0.5) return sqrtV(S, x);
    S.approx = true; int id = mkRec("pow", toR(x), toR(y), false); FnRec& r = fnrecs[id]; useRec(S, id, nullptr); return rvar(r.v, -1e300, 1e300); }
H(h_powi) { if (a[1].k != VINT) unsup("powi"); Val x = fixF(a[0]); int64_t n = sx(a[1].u, 32); if (x.k == VFP) return mkFP(std::pow(x.d, (double)n)); return powI(S, x, n); }
H(h_hypot) { Val x = fop(S, Instruction::FMul, a[0], a[0], false), y = fop(S, Instruction::FMul, a[1], a[1], false); return sqrtV(S, fop(S, Instruction::FAdd, x, y, false)); }
H(h_floor) { return floorV(S, a[0]); }
H(h_ceil) { return ceilV(S, a[0]); }
static Val truncV(State& S, Val x) { x = fixF(x); if (x.k == VUNDEF) return x; if (x.k == VFP) return mkFP(std::trunc(x.d)); if (x.rlo >= 0) return floorV(S, x); if (x.rhi <= 0) return ceilV(S, x); return merge2(mkLt(x.a, mkR(0)), ceilV(S, x), floorV(S, x)); }
H(h_trunc) { return truncV(S, a[0]); }
static Val roundV(State& S, Val x) { x = fixF(x); if (x.k == VUNDEF) return x; if (x.k == VFP) return mkFP(std::round(x.d)); Val pl = mkReal(mkAdd(x.a, mkR(0.5)), dn(x.rlo + .5), up(x.rhi + .5)), mi = mkReal(mkSub(x.a, mkR(0.5)), dn(x.rlo - .5), up(x.rhi - .5)); if (x.rlo >= 0) return floorV(S, pl); if (x.rhi <= 0) return ceilV(S, mi); return merge2(mkLt(x.a, mkR(0)), ceilV(S, mi), floorV(S, pl)); }
H(h_round) { return roundV(S, a[0]); }
H(h_lround) { return fptoi(S, roundV(S, a[0]), 64, true); }
H(h_rint) { Val x = fixF(a[0]); if (x.k == VUNDEF) return x; if (x.k == VFP) return mkFP(std::rint(x.d)); Val h = mkReal(mkAdd(x.a, mkR(0.5)), dn(x.rlo + .5), up(x.rhi + .5)), q = floorV(S, h); if (q.k != VREAL) return q; if (!decide(S, mkEq(q.a, h.a))) return q; Val e = mkReal(mkMul(q.a, mkR(0.5)), dn(q.rlo * .5), up(q.rhi * .5)), g = floorV(S, e); if (g.k == VREAL && decide(S, mkEq(g.a, e.a))) return q; if (g.k != VREAL) unsup("rint"); return mkReal(mkSub(q.a, mkR(1)), dn(q.rlo - 1), up(q.rhi - 1)); }
H(h_fabs) { return fabsV(a[0]); }
H(h_fmod) { return fop(S, Instruction::FRem, a[0], a[1], false); }
H(h_fmax) { Val x = fixF(a[0]), y = fixF(a[1]); Val c = fcmp(S, CmpInst::FCMP_OGT, x, y); if (c.k == VINT) return c.u ? x : y; return merge2(c.a, x, y); }
H(h_fmin) { Val x = fixF(a[0]), y = fixF(a[1]); Val c = fcmp(S, CmpInst::FCMP_OLT, x, y); if (c.k == VINT) return c.u ? x : y; return merge2(c.a, x, y); }
H(h_modf) { Val t = truncV(S, a[0]); storeTy(S, addrVal(S, a[1], "modf"), t, Type::getDoubleTy(M->getContext())); return fop(S, Instruction::FSub, a[0], t, false); }
// ---- formatting support used by the runtime's streams
static std::vector<Val> tokenVals; static std::map<unsigned, int> tokenIds;
static int tokenOf(const Val& v) { unsigned id = astId(v.a); auto it = tokenIds.find(id); if (it != tokenIds.end()) return it->second; int n = tokenVals.size(); tokenVals.push_back(v); tokenIds[id] = n; return n; }
static void putBytes(State& S, uint64_t p, const std::string& s) { uint64_t off; Obj* o = access(S, p, s.size(), true, off, "write"); for (size_t i = 0; i < s.size(); i++) storeVal(o, off + i, mkInt((uint8_t)s[i], 8), 1); }
H(h_fmt_double) { // (double v, int precision, int flags(0 g,1 f,2 e), char* buf) -> length
    Val v = fixF(a[0]); if (v.k == VUNDEF) fail(S, "uninit", "formatting an uninitialised double"); std::string s;
    if (v.k == VFP) { char f[16], b[512]; snprintf(f, 16, "%%.*%c", "gfe"[a[2].u % 3]); snprintf(b, 512, f, (int)sx(a[1].u, 32), v.d); s = b; } else s = std::string("\x01") + std::to_string(tokenOf(v)) + "\x02";
    putBytes(S, a[3].u, s); return mkInt(s.size(), 32); }
H(h_fmt_int) { // (long v, int unsignedp, char* buf)
    Val v = a[0]; if (v.k == VUNDEF) fail(S, "uninit", "formatting an uninitialised integer"); std::string s;
    if (v.k == VINT) s = a[1].u ? std::to_string(v.u) : std::to_string((long long)v.u); else { if (v.k == VBOOL) { v = concretize(S, v); s = std::to_string(v.u); } else if (v.hi - v.lo < 16) { v = concretize(S, v); s = std::to_string((long long)v.u); } else s = std::string("\x01") + std::to_string(tokenOf(v)) + "\x02"; }
    putBytes(S, a[2].u, s); return mkInt(s.size(), 32); }
H(h_parse_double) { // (const char* p, long n, double* out) -> consumed (0 if none)
    uint64_t n = needC(S, a[1], "parse"); std::string s; for (uint64_t i = 0; i < n; i++) { uint64_t off; Obj* o = access(S, a[0].u + i, 1, false, off, "read"); Val c = loadVal(o, off, 1, 8, false); if (c.k == VUNDEF) fail(S, "uninit", "parsing uninitialised text"); if (c.k != VINT) { if (s.empty() || true) c = concretize(S, c); } s += (char)c.u; }
    size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++; bool neg = false; size_t j = i; if (j + 1 < s.size() && (s[j] == '-' || s[j] == '+') && s[j + 1] == 1) { neg = s[j] == '-'; j++; }
    Val v; size_t used;
    if (j < s.size() && s[j] == 1) { size_t e = s.find('\x02', j); int id = atoi(s.substr(j + 1, e - j - 1).c_str()); v = tokenVals[id]; if (v.k == VSYM) v = itofp(v, v.w, true); if (neg) v = fneg(v); used = e + 1; }
    else { char* end; double d = strtod(s.c_str(), &end); used = end - s.c_str(); v = mkFP(d); if (!used) return mkInt(0, 64); }
    storeTy(S, a[2].u, v, Type::getDoubleTy(M->getContext())); return mkInt(used, 64); }
H(h_parse_int) { // (const char* p, long n, int base, long* out, int unsignedp)
    uint64_t n = needC(S, a[1], "parse"); std::string s; for (uint64_t i = 0; i < n; i++) { uint64_t off; Obj* o = access(S, a[0].u + i, 1, false, off, "read"); Val c = loadVal(o, off, 1, 8, false); if (c.k == VUNDEF) fail(S, "uninit", "parsing uninitialised text"); c = concretize(S, c); s += (char)c.u; }
    size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++; Val v; size_t used;
    if (i < s.size() && s[i] == 1) { size_t e = s.find('\x02', i); v = tokenVals[atoi(s.substr(i + 1, e - i - 1).c_str())]; if (v.k == VREAL) v = fptoi(S, v, 64, true); v.w = 64; used = e + 1; }
    else { char* end; errno = 0; long long d = a[4].u ? (long long)strtoull(s.c_str(), &end, (int)a[2].u) : strtoll(s.c_str(), &end, (int)a[2].u); used = end - s.c_str(); if (!used) return mkInt(0, 64); v = mkInt((uint64_t)d, 64); }
    storeTy(S, a[3].u, v, Type::getInt64Ty(M->getContext())); return mkInt(used, 64); }
// ---------------------------------------------------------------- symbolic API
static int SHARD_I = 0, SHARD_N = 1;
static std::string nm(State& S, std::vector<Val>& a) { return cstr(S, a[0].u); }
H(s_real) { double lo = fixF(a[1]).d, hi = fixF(a[2]).d; std::string n = nm(S, a); 
    int v; std::string key = "I:" + n + ":" + std::to_string(S.inputs.size()); static std::map<std::string, int> memo; auto it = memo.find(key); if (it != memo.end()) v = it->second; else memo[key] = v = newVar(n, RealS, 1);
    Input in; in.name = n; in.kind = 'r'; in.v = mkReal(c_(v), lo, hi); in.denom = 1; in.lo = lo; in.hi = hi; S.inputs.push_back(in);
    auto m = std::make_shared<Model>(S.model ? *S.model : Model()); double d = std::max(lo, std::min(hi, 0.0)); if (d == lo && hi - lo > 2) d = std::floor(lo) + 1; else if (d == lo) d = (lo + hi) / 2; (*m)[v] = mkR(d); S.model = m;
    addPC(S, mkLe(mkR(lo), c_(v)), true); addPC(S, mkLe(c_(v), mkR(hi)), true); return in.v; }
static Val symInt(State& S, const std::string& n, int64_t lo, int64_t hi, char kind, int64_t denom) {
    int v; std::string key = "I:" + n + ":" + std::to_string(S.inputs.size()); static std::map<std::string, int> memo; auto it = memo.find(key); if (it != memo.end()) v = it->second; else memo[key] = v = newVar(n, IntS, 0);
    Input in; in.name = n; in.kind = kind; in.v = mkSym(c_(v), lo, hi, 64); in.denom = denom; in.lo = lo; in.hi = hi; if (lo == hi) { in.v = mkInt(lo, 64); S.inputs.push_back(in); return in.v; } 
    S.inputs.push_back(in); auto m = std::make_shared<Model>(S.model ? *S.model : Model()); (*m)[v] = mkI(lo <= 0 && hi >= 0 ? 0 : lo); S.model = m;
    addPC(S, mkLe(mkI(lo), c_(v)), true); addPC(S, mkLe(c_(v), mkI(hi)), true); return in.v; }
H(s_int) { return symInt(S, nm(S, a), (int64_t)a[1].u, (int64_t)a[2].u, 'i', 1); }
H(s_dyadic) { int64_t den = (int64_t)a[3].u; double lo = fixF(a[1]).d, hi = fixF(a[2]).d; Val v = symInt(S, nm(S, a), (int64_t)(lo * den), (int64_t)(hi * den), 'y', den); return mkReal(Z3_mk_div(C, mkToReal(v.a), mkR((double)den)), lo, hi); }
H(s_bool) { Val v = symInt(S, nm(S, a), 0, 1, 'i', 1); return mkSym(v.a, 0, 1, 32); }
H(s_choice) { int n = sx(a[1].u, 32); std::string nam = nm(S, a); int v;
    std::vector<int> opts; for (int i = 0; i < n; i++) if (SHARD_N == 1 || S.shDone || S.shSpan * n < SHARD_N || (S.shId * n + i) % SHARD_N == SHARD_I) opts.push_back(i);
    if (opts.empty()) throw KillPath();
    if (S.pendChoice >= 0) { v = S.pendChoice; S.pendChoice = -1; } else { for (size_t i = opts.size(); i-- > 1;) { State* alt = new State(S); alt->pendChoice = opts[i]; work->push_back(alt); nForks++; } v = opts[0]; }
    if (!S.shDone && SHARD_N > 1) { S.shDone = S.shSpan * n >= SHARD_N; S.shId = S.shId * n + v; S.shSpan *= n; }
    S.nChoice++; Input in; in.name = nam; in.kind = 'c'; in.v = mkInt(v, 32); in.denom = 1; in.lo = 0; in.hi = n - 1; S.inputs.push_back(in); return mkInt(v, 32); }
static A asBool(State& S, const Val& v, const char* w) { if (v.k == VUNDEF) fail(S, "uninit", std::string("uninitialised value in ") + w); if (v.k == VINT) return v.u ? Z3_mk_true(C) : Z3_mk_false(C); if (v.k == VBOOL) return v.a; return mkNot(mkEq(v.a, mkI(0))); }
H(s_assume) { assume(S, asBool(S, a[0], "assume")); return vvoid(); }
static void doCheck(State& S, A cond, const std::string& id) {
    nChecks++; checkCount[id]++; S.checked = true;
    if (isTrue(cond)) { nDischarged++; nTrivial++; checkOK[id]++; return; }
    if (isFalse(cond)) { R r = ensureModel(S); if (r == UNSAT) { nInfeasible++; throw KillPath(); } if (r == UNK) { nUndecided++; checkUnk[id]++; S.undec = true; } report(S, "check", id, nullptr, {}); throw KillPath(); }
    A nc = mkNot(cond); int m = evalModel(S, cond);
    if (m == 0) { report(S, "check", id, nullptr, {nc}); assume(S, cond); return; }
    nCheckQ++; QRes q = query(S, nc, OPT_MS * 2);
    if (q.r == UNSAT) { nDischarged++; checkOK[id]++; return; }
    if (q.r == SAT) { report(S, "check", id, q.m.get(), {nc}); assume(S, cond); return; }
    nUndecided++; checkUnk[id]++; S.undec = true;
}
H(s_check) { doCheck(S, asBool(S, a[0], "check"), cstr(S, a[1].u)); return vvoid(); }
H(s_close) { Val x = fixF(a[0]), y = fixF(a[1]), t = fixF(a[2]); std::string id = cstr(S, a[3].u); if (x.k == VUNDEF || y.k == VUNDEF) fail(S, "uninit", "uninitialised value in check " + id);
    auto fin = [](const Val& v) { return v.k != VFP || std::isfinite(v.d); };
    if (x.k == VFP && y.k == VFP) { doCheck(S, (x.d == y.d || std::fabs(x.d - y.d) <= t.d) ? Z3_mk_true(C) : Z3_mk_false(C), id); return vvoid(); }
    if (!fin(x) || !fin(y)) { doCheck(S, Z3_mk_false(C), id); return vvoid(); }
    A X = toR(x), Y = toR(y), eq = mkEq(X, Y); if (isTrue(eq)) { doCheck(S, eq, id); return vvoid(); }
    A d = mkSub(X, Y), T = toR(t); A close = mkAnd(mkLe(mkSub(mkR(0), T), d), mkLe(d, T));
    if (evalModel(S, close) != 0) { QRes q = query(S, mkNot(eq)); if (q.r == UNSAT) { nChecks++; nCheckQ++; checkCount[id]++; nDischarged++; checkOK[id]++; S.checked = true; return vvoid(); } }
    doCheck(S, close, id); return vvoid(); }
H(s_reach) { S.reach.push_back(cstr(S, a[0].u)); return vvoid(); }
H(s_obsr) { S.obs.push_back({cstr(S, a[0].u), fixF(a[1])}); return vvoid(); }
H(s_obsi) { S.obs.push_back({cstr(S, a[0].u), a[1]}); return vvoid(); }
H(s_allow) { S.allowAbort = true; return vvoid(); }
H(s_sym) { return mkInt(1, 32); }
static void regHandlers() {
    auto r = [&](const char* n, HFn f) { hIndex[n] = hFns.size(); hFns.push_back(f); hNames.push_back(n); };
    r("_Znwm", h_new); r("_Znam", h_newa); r("_ZdlPv", h_del); r("_ZdlPvm", h_del); r("_ZdaPv", h_dela); r("_ZdaPvm", h_dela); r("_ZnwmRKSt9nothrow_t", h_new); r("_ZnamRKSt9nothrow_t", h_newa); r("_ZdlPvRKSt9nothrow_t", h_del);
    r("malloc", h_malloc); r("calloc", h_calloc); r("free", h_free); r("realloc", h_realloc);
    r("__cxa_allocate_exception", h_exalloc); r("__cxa_free_exception", h_nop); r("__cxa_throw", h_throw); r("__cxa_begin_catch", h_begin); r("__cxa_end_catch", h_end); r("__cxa_rethrow", h_rethrow); r("__cxa_get_exception_ptr", h_getex);
    r("_ZSt9terminatev", h_terminate); r("abort", h_abort); r("exit", h_exit); r("__assert_fail", h_assert); r("__cxa_pure_virtual", h_purev); r("__cxa_deleted_virtual", h_purev); r("__cxa_throw_bad_array_new_length", h_abort);
    r("__dynamic_cast", h_dyncast); r("__cxa_guard_acquire", h_guard); r("__cxa_guard_release", h_guardrel); r("__cxa_guard_abort", h_nop); r("__cxa_atexit", h_zero); r("atexit", h_zero); r("__cxa_call_unexpected", h_terminate);
    r("sqrt", h_sqrt); r("sin", h_sin); r("cos", h_cos); r("cexp", h_cexp); r("tan", h_tan); r("exp", h_exp); r("log", h_log); r("log10", h_log10); r("atan", h_atan); r("acos", h_acos); r("asin", h_asin); r("atan2", h_atan2); r("pow", h_pow); r("powi", h_powi); r("hypot", h_hypot); r("cbrt", h_cbrt);
    r("floor", h_floor); r("ceil", h_ceil); r("trunc", h_trunc); r("round", h_round); r("lround", h_lround); r("llround", h_lround); r("rint", h_rint); r("nearbyint", h_rint); r("fabs", h_fabs); r("fmod", h_fmod); r("fmax", h_fmax); r("fmin", h_fmin); r("modf", h_modf);
    r("__sym_fmt_double", h_fmt_double); r("__sym_fmt_int", h_fmt_int); r("__sym_parse_double", h_parse_double); r("__sym_parse_int", h_parse_int);
    r("sym_real", s_real); r("sym_int", s_int); r("sym_dyadic", s_dyadic); r("sym_bool", s_bool); r("sym_choice", s_choice); r("sym_assume", s_assume); r("sym_check", s_check); r("sym_check_close", s_close); r("sym_reach", s_reach);
    r("sym_observe_real", s_obsr); r("sym_observe_int", s_obsi); r("sym_allow_abort", s_allow); r("sym_is_symbolic", s_sym);
    r("pthread_mutex_lock", h_zero); r("pthread_mutex_unlock", h_zero); r("__pthread_key_create", h_zero);
}
// ---------------------------------------------------------------- main
static void recordWitness(State& S, const char* end) {
    static uint64_t seen = 0; seen++; if ((int)wits.size() >= OPT_WITNESS && (seen & (seen - 1))) return; if ((int)wits.size() >= 3 * OPT_WITNESS) return;
    if (S.undec) return; if (ensureModel(S) != SAT) return; Model m = *S.model; bool exact = false; std::vector<CandInput> in; Model use = m;
    for (double g : {1.0, 4.0, 64.0, 1024.0, 1048576.0, 1073741824.0}) { Model rm = m; auto v = inputsFrom(S, m, g, nullptr, &rm); State T; T.model = std::make_shared<Model>(rm); T.modelOK = true; bool ok = true, fresh = false;
        for (auto& p : S.pc) { for (int x : varsOf(p.c)) if (vars[x].kind >= 2) fresh = true; if (fresh) break; if (evalModel(T, p.c) != 1) { ok = false; break; } } if (fresh) break; if (ok) { exact = true; in = v; use = rm; break; } }
    if (!exact) in = inputsFrom(S, m, 0);
    Witness w; w.in = in; w.end = exact && !S.approx ? "exact" : "approx"; w.reach = S.reach;
    if (exact) { State T; T.model = std::make_shared<Model>(use); T.modelOK = true; for (auto& o : S.obs) { double d; if (o.v.k == VFP) d = o.v.d; else if (o.v.k == VINT) d = (double)sx(o.v.u, o.v.w); else if (o.v.sym()) { A e = o.v.k == VBOOL ? mkIte(o.v.a, mkI(1), mkI(0)) : o.v.a; A val; if (!evalNum(T, e, val)) continue; d = numToDouble(val); } else continue; w.obs.push_back({o.name, d}); } }
    (void)end; wits.push_back(w);
}
static std::string inputsJson(const std::vector<CandInput>& v) { std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; o << "{\"name\":\"" << esc(v[i].name) << "\",\"kind\":\"" << v[i].kind << "\",\"v\":\""; if (v[i].kind == 'r') { char b[64]; snprintf(b, 64, "%a", v[i].d); o << b; } else o << v[i].i; o << "\""; if (v[i].kind == 'r') { o << ",\"d\":" << (std::isfinite(v[i].d) ? v[i].d : 0); } if (v[i].kind == 'y') { o << ",\"d\":" << v[i].d; } o << "}"; } o << "]"; return o.str(); }
int main(int argc, char** argv) {
    T0 = std::chrono::steady_clock::now(); std::string file, entry, out;
    for (int i = 1; i < argc; i++) { std::string x = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (x == "--entry") entry = nx(); else if (x == "--out") out = nx(); else if (x == "--time") OPT_TIME = atof(nx().c_str()); else if (x == "--max-paths") OPT_MAXPATHS = atoll(nx().c_str()); else if (x == "--ms") OPT_MS = atoi(nx().c_str());
        else if (x == "--max-instr") OPT_MAXINSTR = atoll(nx().c_str()); else if (x == "-v") OPT_VERB++; else if (x == "--witness") OPT_WITNESS = atoi(nx().c_str()); else if (x == "--no-merge") OPT_NOMERGE = true; else if (x == "--shard") { std::string s = nx(); sscanf(s.c_str(), "%d/%d", &SHARD_I, &SHARD_N); } else file = x; }
    Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) { throw Unsup{std::string("z3: ") + Z3_get_error_msg(c, e)}; });
    IntS = Z3_mk_int_sort(C); RealS = Z3_mk_real_sort(C); BoolS = Z3_mk_bool_sort(C);
    LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(file, err, ctx); if (!mod) { err.print("engine", llvm::errs()); return 2; } M = mod.get(); DL = &M->getDataLayout();
    regHandlers(); std::vector<State*> wl; work = &wl; std::vector<std::pair<int, Function*>> ctors;
    std::string fatal; State* init = new State(); curS = init; init->model = std::make_shared<Model>();
    try {
        for (auto& F : *M) { KFunc* kf = new KFunc(); kf->F = &F; kf->id = kfuncs.size(); kf->name = F.getName().str(); kfuncs.push_back(kf); kfmap[&F] = kf; }
        for (auto& g : M->globals()) { uint64_t n = 64; if (g.getValueType()->isSized()) n = std::max<uint64_t>(tyAlloc(g.getValueType()), g.hasInitializer() ? 1 : 64); uint64_t a = allocHeap(*init, n, 0, !g.hasInitializer()); gAddr[&g] = a; gByAddr[a] = &g; uint64_t off; objFor(*init, a, off, true)->name = g.getName().str(); }
        for (auto& g : M->globals()) if (g.hasInitializer()) { if (g.getName() == "llvm.global_ctors") { if (auto* ca = dyn_cast<ConstantArray>(g.getInitializer())) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); } continue; } if (g.getName().starts_with("llvm.")) continue; uint64_t off; Obj* o = objFor(*init, gAddr[&g], off, true); writeConst(o, 0, g.getInitializer()); }
        for (auto& g : M->globals()) if (g.isConstant()) { uint64_t off; objFor(*init, gAddr[&g], off, true)->ro = true; }
        if (uint64_t a = symGlobalAddr("__libc_single_threaded")) { uint64_t off; Obj* o = objFor(*init, a, off, true); storeVal(o, 0, mkInt(1, 8), 1); }
        TV_class = symGlobalAddr("_ZTVN10__cxxabiv117__class_type_infoE"); TV_si = symGlobalAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"); TV_vmi = symGlobalAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
        std::stable_sort(ctors.begin(), ctors.end(), [](auto& x, auto& y) { return x.first < y.first; });
        std::vector<Val> no; for (auto& c : ctors) { pushFrame(*init, kfmap[c.second], no, nullptr); runState(*init, 0); if (!wl.empty()) unsup("fork in global constructor"); }
        Function* E = M->getFunction(entry); if (!E || E->isDeclaration()) unsup("entry not found: " + entry);
        pushFrame(*init, kfmap[E], no, nullptr); wl.push_back(init);
    } catch (Unsup& u) { fatal = "initialisation: " + u.m; } catch (KillPath&) { fatal = "initialisation failed"; } catch (Timeout&) { fatal = "timeout in initialisation"; }
    bool complete = fatal.empty(); uint64_t nUnsupPaths = 0, nEnded = 0;
    if (fatal.empty()) for (auto* kf : kfuncs) kf->calls = 0;
    while (!wl.empty()) {
        if (nPaths + nUnsupPaths >= OPT_MAXPATHS) { complete = false; boundHit = true; boundReasons.insert("path bound"); break; }
        if (now() > OPT_TIME) { complete = false; boundReasons.insert("time bound"); break; }
        State* S = wl.back(); wl.pop_back(); curS = S; mergeBase = 0;
        try { runState(*S, 0); nPaths++; for (auto& r : S->reach) reachCount[r]++; recordWitness(*S, "return"); if (OPT_VERB && nPaths % 100 == 0) fprintf(stderr, "[%.1fs] paths %llu queue %zu queries %llu solver %.1fs\n", now(), (unsigned long long)nPaths, wl.size(), (unsigned long long)nQueries, solverTime); }
        catch (KillPath&) {} catch (PathEnd&) { nPaths++; nEnded++; for (auto& r : S->reach) reachCount[r]++; recordWitness(*S, "abort"); }
        catch (Unsup& u) { nUnsupPaths++; complete = false; std::string w = u.m + " @ " + whereStr(*S); if (unsupReasons.size() < 20) unsupReasons.insert(w); if (OPT_VERB) fprintf(stderr, "[unsupported] %s\n", w.c_str()); }
        catch (Timeout&) { complete = false; boundReasons.insert("time bound"); delete S; break; }
        delete S;
    }
    std::ostringstream o; o.precision(10);
    auto smap = [&](const std::map<std::string, uint64_t>& m) { std::string r = "{"; bool f = true; for (auto& kv : m) { if (!f) r += ","; f = false; r += "\"" + esc(kv.first) + "\":" + std::to_string(kv.second); } return r + "}"; };
    auto sset = [&](const std::set<std::string>& m) { std::string r = "["; bool f = true; for (auto& kv : m) { if (!f) r += ","; f = false; r += "\"" + esc(kv) + "\""; } return r + "]"; };
    std::set<std::string> fns; for (auto* kf : kfuncs) if (kf->calls) fns.insert(llvm::demangle(kf->name));
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    o << "{\"entry\":\"" << esc(entry) << "\",\"fatal\":\"" << esc(fatal) << "\",\"complete\":" << (complete && !boundHit ? "true" : "false") << ",\"bound_reasons\":" << sset(boundReasons) << ",\"unsupported\":" << sset(unsupReasons) << ",\"unsupported_paths\":" << nUnsupPaths
      << ",\"paths\":" << nPaths << ",\"aborted_paths\":" << nEnded << ",\"killed_assume\":" << nKilledAssume << ",\"infeasible\":" << nInfeasible << ",\"instructions\":" << nInstr << ",\"forks\":" << nForks << ",\"merges\":" << nMerges << ",\"queries\":" << nQueries << ",\"unsat\":" << nUnsat << ",\"sat\":" << nSat << ",\"unknown\":" << nUnknown << ",\"cache_hits\":" << nCacheHit
      << ",\"solver_s\":" << solverTime << ",\"wall_s\":" << now() << ",\"rss_mb\":" << ru.ru_maxrss / 1024 << ",\"checks\":" << nChecks << ",\"discharged\":" << nDischarged << ",\"trivial\":" << nTrivial << ",\"check_queries\":" << nCheckQ << ",\"undecided\":" << nUndecided << ",\"check_counts\":" << smap(checkCount) << ",\"check_ok\":" << smap(checkOK) << ",\"check_undecided\":" << smap(checkUnk) << ",\"reach\":" << smap(reachCount)
      << ",\"functions\":" << sset(fns) << ",\"candidates\":[";
    for (size_t i = 0; i < cands.size(); i++) { auto& c = cands[i]; if (i) o << ","; o << "{\"kind\":\"" << esc(c.kind) << "\",\"id\":\"" << esc(c.id) << "\",\"where\":\"" << esc(c.where) << "\",\"vectors\":["; for (size_t j = 0; j < c.vecs.size(); j++) { if (j) o << ","; o << inputsJson(c.vecs[j]); } o << "]}"; }
    o << "],\"witnesses\":["; for (size_t i = 0; i < wits.size(); i++) { auto& w = wits[i]; if (i) o << ","; o << "{\"mode\":\"" << w.end << "\",\"inputs\":" << inputsJson(w.in) << ",\"obs\":["; for (size_t j = 0; j < w.obs.size(); j++) { if (j) o << ","; char b[64]; snprintf(b, 64, "%.17g", w.obs[j].second); std::string bs = b; if (!std::isfinite(w.obs[j].second)) bs = "\"" + bs + "\""; o << "[\"" << esc(w.obs[j].first) << "\"," << bs << "]"; } o << "],\"reach\":["; for (size_t j = 0; j < w.reach.size(); j++) { if (j) o << ","; o << "\"" << esc(w.reach[j]) << "\""; } o << "]}"; }
    o << "]}\n";
    if (out.empty()) printf("%s", o.str().c_str()); else { std::ofstream f(out); f << o.str(); }
    return fatal.empty() ? 0 : 3;
}

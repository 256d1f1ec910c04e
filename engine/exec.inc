// ---------------------------------------------------------------- decoding
struct Timeout {};
struct PathEnd {};
typedef Val (*HFn)(State&, KInst&, std::vector<Val>&);
static std::unordered_map<std::string, int> hIndex; static std::vector<HFn> hFns; static std::vector<std::string> hNames;
static std::unordered_map<const GlobalVariable*, uint64_t> gAddr; static std::unordered_map<uint64_t, const GlobalVariable*> gByAddr;
static std::map<std::string, Constant*> gAliasDummy;
static uint64_t symGlobalAddr(const std::string& n) { GlobalVariable* g = M->getNamedGlobal(n); return g ? gAddr[g] : 0; }
static uint64_t funAddr(Function* f) { auto it = kfmap.find(f); if (it == kfmap.end()) unsup("function address"); return FUN0 + it->second->id * 16; }
static uint64_t tySize(Type* t) { return DL->getTypeStoreSize(t).getFixedValue(); }
static uint64_t tyAlloc(Type* t) { return DL->getTypeAllocSize(t).getFixedValue(); }
static Val undefOf(Type* t) {
    Val v; if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        Agg* g = new Agg(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) g->push_back(undefOf(t->isStructTy() ? t->getStructElementType(i) : t->getContainedType(0)));
        v.k = VAGG; v.g = g; return v; }
    v.w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64; return v;
}
static Val evalConst(Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return undefOf(t);
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { Val v; v.w = 0; return v; } return mkInt(ci->getZExtValue(), ci->getBitWidth()); }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { if (t->isDoubleTy()) return mkFP(cf->getValueAPF().convertToDouble()); if (t->isFloatTy()) return mkFP(cf->getValueAPF().convertToFloat());
        APFloat x = cf->getValueAPF(); bool li; x.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return mkFP(x.convertToDouble()); }
    if (isa<ConstantPointerNull>(c)) return mkInt(0, 64);
    if (auto* f = dyn_cast<Function>(c)) return mkInt(funAddr(f), 64);
    if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = gAddr.find(g); if (it == gAddr.end()) unsup("global without address"); return mkInt(it->second, 64); }
    if (auto* a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        Agg* g = new Agg(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) g->push_back(evalConst(c->getAggregateElement(i)));
        Val v; v.k = VAGG; v.g = g; return v; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { Val b = evalConst(ce->getOperand(0)); APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsup("const gep"); return mkInt(b.u + off.getSExtValue(), 64); }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: { Val v = evalConst(ce->getOperand(0)); if (t->isIntegerTy()) v = mkInt(v.u, t->getIntegerBitWidth()); return v; }
        case Instruction::Trunc: return mkInt(evalConst(ce->getOperand(0)).u, t->getIntegerBitWidth());
        case Instruction::Add: return mkInt(evalConst(ce->getOperand(0)).u + evalConst(ce->getOperand(1)).u, t->getIntegerBitWidth());
        case Instruction::Sub: return mkInt(evalConst(ce->getOperand(0)).u - evalConst(ce->getOperand(1)).u, t->getIntegerBitWidth());
        case Instruction::Mul: return mkInt(evalConst(ce->getOperand(0)).u * evalConst(ce->getOperand(1)).u, t->getIntegerBitWidth());
        case Instruction::Xor: return mkInt(evalConst(ce->getOperand(0)).u ^ evalConst(ce->getOperand(1)).u, t->getIntegerBitWidth());
        default: unsup("constant expression " + std::string(ce->getOpcodeName())); } }
    unsup("constant kind");
}
static void writeConst(Obj* o, uint64_t off, Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c)) { uint64_t n = tyAlloc(t); for (uint64_t i = 0; i < n && off + i < o->size; i++) { o->data[off + i] = 0; o->st[off + i] = 1; } return; }
    if (t->isStructTy()) { const StructLayout* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) writeConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (t->isArrayTy() || t->isVectorTy()) { unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); uint64_t es = tyAlloc(t->getContainedType(0)); for (unsigned i = 0; i < n; i++) writeConst(o, off + es * i, c->getAggregateElement(i)); return; }
    Val v = evalConst(c); storeVal(o, off, v, tySize(t));
}
static bool isFPTy(Type* t) { return t->isDoubleTy() || t->isFloatTy() || t->isX86_FP80Ty(); }
enum { IN_NONE = 0, IN_NOP, IN_MEMCPY, IN_MEMSET, IN_UMAX, IN_UMIN, IN_SMAX, IN_SMIN, IN_ABS, IN_FABS, IN_FMA, IN_COPYSIGN, IN_SADDO, IN_SSUBO, IN_SMULO, IN_UADDO, IN_USUBO, IN_UMULO,
       IN_EHTID, IN_FALSE, IN_ZERO, IN_TRAP, IN_ID, IN_MAXNUM, IN_MINNUM, IN_USUBSAT, IN_UADDSAT, IN_CTPOP, IN_CTLZ, IN_CTTZ, IN_EXPECT, IN_ISFPCLASS, IN_BAD, IN_OBJSIZE, IN_FSHL, IN_FSHR, IN_BSWAP, IN_VASTART, IN_VACOPY };
static void decode(KFunc* kf) {
    if (kf->ready) return; kf->ready = true; Function* F = kf->F;
    std::unordered_map<Value*, int> reg; std::unordered_map<BasicBlock*, int> bbi; std::unordered_map<Constant*, int> ci;
    for (auto& a : F->args()) reg[&a] = kf->nregs++; kf->nargs = kf->nregs;
    int b = 0; for (auto& B : *F) { bbi[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = kf->nregs++; }
    auto opOf = [&](Value* v) -> int {
        if (auto* c = dyn_cast<Constant>(v)) { auto it = ci.find(c); if (it != ci.end()) return it->second; int id = ~(int)kf->consts.size(); Val cv; 
            if (c->getType()->isTokenTy()) cv = Val(); else cv = evalConst(c); kf->consts.push_back(cv); ci[c] = id; return id; }
        auto it = reg.find(v); if (it == reg.end()) { int id = ~(int)kf->consts.size(); kf->consts.push_back(Val()); return id; } return it->second; };
    for (auto& B : *F) {
        kf->bbStart.push_back(kf->ins.size());
        for (auto& I : B) {
            KInst k; k.I = &I; k.opc = I.getOpcode(); auto rit = reg.find(&I); if (rit != reg.end()) k.dest = rit->second;
            Type* T = I.getType(); if (T->isIntegerTy()) k.w = T->getIntegerBitWidth(); else if (T->isPointerTy()) k.w = 64;
            k.fp = isFPTy(T); k.fp32 = T->isFloatTy();
            switch (k.opc) {
            case Instruction::PHI: { auto& p = cast<PHINode>(I); for (unsigned i = 0; i < p.getNumIncomingValues(); i++) k.phi.push_back({bbi[p.getIncomingBlock(i)], opOf(p.getIncomingValue(i))}); break; }
            case Instruction::Br: { auto& br = cast<BranchInst>(I); if (br.isConditional()) { k.ops.push_back(opOf(br.getCondition())); k.bb0 = bbi[br.getSuccessor(0)]; k.bb1 = bbi[br.getSuccessor(1)]; } else k.bb0 = bbi[br.getSuccessor(0)]; break; }
            case Instruction::Switch: { auto& sw = cast<SwitchInst>(I); k.ops.push_back(opOf(sw.getCondition())); k.w = sw.getCondition()->getType()->getIntegerBitWidth(); k.bb0 = bbi[sw.getDefaultDest()]; for (auto& cs : sw.cases()) k.sw.push_back({cs.getCaseValue()->getZExtValue(), bbi[cs.getCaseSuccessor()]}); break; }
            case Instruction::GetElementPtr: {
                auto& g = cast<GetElementPtrInst>(I); k.ops.push_back(opOf(g.getPointerOperand()));
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value* ix = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull()) { k.coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    int64_t sc = tyAlloc(it.getIndexedType());
                    if (auto* cix = dyn_cast<ConstantInt>(ix)) k.coff += cix->getSExtValue() * sc; else k.gep.push_back({opOf(ix), sc, ix->getType()->getIntegerBitWidth()});
                } break; }
            case Instruction::Alloca: { auto& a = cast<AllocaInst>(I); k.size = tyAlloc(a.getAllocatedType()); k.ops.push_back(opOf(a.getArraySize())); break; }
            case Instruction::Load: k.ops.push_back(opOf(I.getOperand(0))); k.size = tySize(T); break;
            case Instruction::Store: { k.ops.push_back(opOf(I.getOperand(0))); k.ops.push_back(opOf(I.getOperand(1))); Type* t = I.getOperand(0)->getType(); k.size = tySize(t); k.fp = isFPTy(t); k.fp32 = t->isFloatTy(); break; }
            case Instruction::Call: case Instruction::Invoke: {
                auto& cb = cast<CallBase>(I); for (auto& a : cb.args()) { if (a->getType()->isMetadataTy()) { k.ops.push_back(~(int)kf->consts.size()); kf->consts.push_back(Val()); } else k.ops.push_back(opOf(a)); }
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { k.bb0 = bbi[iv->getNormalDest()]; k.bb1 = bbi[iv->getUnwindDest()]; }
                Value* cv = cb.getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
                if (auto* f = dyn_cast<Function>(cv)) {
                    k.callee = f; std::string n = f->getName().str();
                    if (f->isIntrinsic()) {
                        auto st = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
                        switch (f->getIntrinsicID()) {
                        case Intrinsic::memcpy: case Intrinsic::memmove: k.intr = IN_MEMCPY; break; case Intrinsic::memset: k.intr = IN_MEMSET; break;
                        case Intrinsic::umax: k.intr = IN_UMAX; break; case Intrinsic::umin: k.intr = IN_UMIN; break; case Intrinsic::smax: k.intr = IN_SMAX; break; case Intrinsic::smin: k.intr = IN_SMIN; break;
                        case Intrinsic::abs: k.intr = IN_ABS; break; case Intrinsic::fabs: k.intr = IN_FABS; break; case Intrinsic::fmuladd: case Intrinsic::fma: k.intr = IN_FMA; break; case Intrinsic::copysign: k.intr = IN_COPYSIGN; break;
                        case Intrinsic::sadd_with_overflow: k.intr = IN_SADDO; break; case Intrinsic::ssub_with_overflow: k.intr = IN_SSUBO; break; case Intrinsic::smul_with_overflow: k.intr = IN_SMULO; break;
                        case Intrinsic::uadd_with_overflow: k.intr = IN_UADDO; break; case Intrinsic::usub_with_overflow: k.intr = IN_USUBO; break; case Intrinsic::umul_with_overflow: k.intr = IN_UMULO; break;
                        case Intrinsic::eh_typeid_for: k.intr = IN_EHTID; break; case Intrinsic::is_constant: k.intr = IN_FALSE; break; case Intrinsic::trap: case Intrinsic::ubsantrap: k.intr = IN_TRAP; break;
                        case Intrinsic::threadlocal_address: k.intr = IN_ID; break; case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptrmask: k.intr = IN_ID; break;
                        case Intrinsic::maxnum: k.intr = IN_MAXNUM; break; case Intrinsic::minnum: k.intr = IN_MINNUM; break; case Intrinsic::usub_sat: k.intr = IN_USUBSAT; break; case Intrinsic::uadd_sat: k.intr = IN_UADDSAT; break;
                        case Intrinsic::ctpop: k.intr = IN_CTPOP; break; case Intrinsic::ctlz: k.intr = IN_CTLZ; break; case Intrinsic::cttz: k.intr = IN_CTTZ; break; case Intrinsic::is_fpclass: k.intr = IN_ISFPCLASS; break;
                        case Intrinsic::objectsize: k.intr = IN_OBJSIZE; break; case Intrinsic::fshl: k.intr = IN_FSHL; break; case Intrinsic::fshr: k.intr = IN_FSHR; break; case Intrinsic::bswap: k.intr = IN_BSWAP; break;
                        case Intrinsic::sqrt: k.intr = 0; k.hid = hIndex["sqrt"]; break; case Intrinsic::floor: k.hid = hIndex["floor"]; break; case Intrinsic::ceil: k.hid = hIndex["ceil"]; break;
                        case Intrinsic::round: k.hid = hIndex["round"]; break; case Intrinsic::trunc: k.hid = hIndex["trunc"]; break; case Intrinsic::pow: k.hid = hIndex["pow"]; break; case Intrinsic::exp: k.hid = hIndex["exp"]; break;
                        case Intrinsic::log: k.hid = hIndex["log"]; break; case Intrinsic::sin: k.hid = hIndex["sin"]; break; case Intrinsic::cos: k.hid = hIndex["cos"]; break; case Intrinsic::rint: case Intrinsic::nearbyint: k.hid = hIndex["rint"]; break;
                        case Intrinsic::powi: k.hid = hIndex["powi"]; break; case Intrinsic::vastart: k.intr = IN_VASTART; break; case Intrinsic::vacopy: k.intr = IN_VACOPY; break; case Intrinsic::vaend: k.intr = IN_NOP; break;
                        default: k.intr = (st("llvm.lifetime") || st("llvm.dbg") || st("llvm.assume") || st("llvm.invariant") || st("llvm.experimental.noalias") || st("llvm.prefetch") || st("llvm.var.annotation") || st("llvm.donothing") || st("llvm.stackrestore")) ? IN_NOP : st("llvm.stacksave") ? IN_ZERO : IN_BAD;
                        }
                    } else { auto h = hIndex.find(n); if (h != hIndex.end()) k.hid = h->second; }
                } else if (isa<InlineAsm>(cv)) { k.intr = cast<InlineAsm>(cv)->getAsmString().empty() ? IN_NOP : IN_BAD; }
                else k.ops.push_back(opOf(cb.getCalledOperand()));
                break; }
            case Instruction::ExtractValue: k.ops.push_back(opOf(I.getOperand(0))); break;
            case Instruction::InsertValue: k.ops.push_back(opOf(I.getOperand(0))); k.ops.push_back(opOf(I.getOperand(1))); break;
            case Instruction::ICmp: { Type* t = I.getOperand(0)->getType(); k.w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64; for (auto& o : I.operands()) k.ops.push_back(opOf(o)); break; }
            case Instruction::LandingPad: break;
            default: for (auto& o : I.operands()) if (!isa<BasicBlock>(o)) k.ops.push_back(opOf(o));
            }
            kf->ins.push_back(k);
        }
    }
}

// ---------------------------------------------------------------- helpers
static const Val& rv(Frame& f, int op) { return op >= 0 ? f.regs[op] : f.f->consts[~op]; }
static uint64_t addrVal(State& S, const Val& v, const char* what) {
    if (v.k == VINT) return v.u; if (v.k == VUNDEF) fail(S, "uninit", std::string("uninitialised pointer used by ") + what);
    return concretize(S, v).u;
}
static Obj* access(State& S, uint64_t addr, uint64_t n, bool wr, uint64_t& off, const char* what) {
    if (addr < 0x10000) fail(S, "nullptr", std::string("null pointer ") + what);
    uint32_t id = addr >> OBJSHIFT; ObjP* p = slotOf(S, id, false);
    if (!p || !*p) fail(S, (id < S.nheap && id) ? "use-after-free" : "wildptr", std::string("invalid pointer ") + what);
    off = addr - addrOf(id); if (off > (*p)->size || n > (*p)->size - off) fail(S, "oob", std::string("out-of-bounds ") + what);
    if (wr) { if ((*p)->ro) fail(S, "oob", "write to constant"); return objFor(S, addr, off, true); }
    return p->get();
}
static Val loadTy(State& S, uint64_t addr, Type* T) {
    if (T->isStructTy()) { Agg* g = new Agg(); auto* sl = DL->getStructLayout(cast<StructType>(T)); for (unsigned i = 0; i < T->getStructNumElements(); i++) g->push_back(loadTy(S, addr + sl->getElementOffset(i), T->getStructElementType(i))); Val v; v.k = VAGG; v.g = g; return v; }
    if (T->isArrayTy() || T->isVectorTy()) { Agg* g = new Agg(); unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements(); uint64_t es = tyAlloc(T->getContainedType(0)); for (unsigned i = 0; i < n; i++) g->push_back(loadTy(S, addr + i * es, T->getContainedType(0))); Val v; v.k = VAGG; v.g = g; return v; }
    uint64_t off, n = tySize(T); Obj* o = access(S, addr, n, false, off, "read");
    if (n > 8) unsup("wide load");
    return loadVal(o, off, n, T->isIntegerTy() ? T->getIntegerBitWidth() : 64, isFPTy(T));
}
static void storeTy(State& S, uint64_t addr, Val v, Type* T) {
    if (v.k == VAGG) {
        if (T->isStructTy()) { auto* sl = DL->getStructLayout(cast<StructType>(T)); for (unsigned i = 0; i < T->getStructNumElements(); i++) storeTy(S, addr + sl->getElementOffset(i), (*v.g)[i], T->getStructElementType(i)); return; }
        uint64_t es = tyAlloc(T->getContainedType(0)); for (unsigned i = 0; i < v.g->size(); i++) storeTy(S, addr + es * i, (*v.g)[i], T->getContainedType(0)); return; }
    uint64_t off, n = tySize(T); Obj* o = access(S, addr, n, true, off, "write"); if (n > 8 && v.k != VUNDEF) unsup("wide store");
    if (v.k == VFP && T->isFloatTy()) { storeVal(o, off, v, 4); return; }
    if (v.k == VINT && isFPTy(T) && n == 8) {}
    storeVal(o, off, v, n);
}
static uint64_t rd64(State& S, uint64_t a) { uint64_t off; Obj* o = access(S, a, 8, false, off, "read"); Val v = loadVal(o, off, 8, 64, false); if (v.k != VINT) unsup("symbolic pointer in rtti"); return v.u; }
static uint32_t rd32(State& S, uint64_t a) { uint64_t off; Obj* o = access(S, a, 4, false, off, "read"); Val v = loadVal(o, off, 4, 32, false); if (v.k != VINT) unsup("symbolic word in rtti"); return v.u; }
static std::string cstr(State& S, uint64_t a) { std::string r; for (;; a++) { uint64_t off; Obj* o = access(S, a, 1, false, off, "read"); Val v = loadVal(o, off, 1, 8, false); if (v.k != VINT) { r += '?'; continue; } if (!v.u) return r; r += (char)v.u; if (r.size() > 5000) return r; } }
static void memcpyS(State& S, uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return; uint64_t so, dof; Obj* src = access(S, s, n, false, so, "read (memcpy)");
    if (src->st[so] == 3 || (so + n < src->size && src->st[so + n] == 3)) { src = objFor(S, s, so, true); cleanBoundary(src, so); cleanBoundary(src, so + n); }
    std::vector<uint8_t> data(src->data.begin() + so, src->data.begin() + so + n), st(src->st.begin() + so, src->st.begin() + so + n);
    std::vector<std::pair<uint32_t, Cell>> cs; for (auto it = src->cells.lower_bound(so); it != src->cells.end() && it->first < so + n; ++it) cs.push_back({it->first - (uint32_t)so, it->second});
    Obj* dst = access(S, d, n, true, dof, "write (memcpy)"); clearRange(dst, dof, n);
    std::copy(data.begin(), data.end(), dst->data.begin() + dof); std::copy(st.begin(), st.end(), dst->st.begin() + dof);
    for (auto& c : cs) dst->cells[dof + c.first] = c.second;
}
static uint64_t srcAccessRO(State&) { return 0; }
// ---------------------------------------------------------------- RTTI
static uint64_t TV_class, TV_si, TV_vmi;
static int tiKind(State& S, uint64_t ti) { uint64_t off; uint32_t id = ti >> OBJSHIFT; ObjP* p = slotOf(S, id, false); if (!p || !*p || (*p)->size < 16) return 0; uint64_t vt = rd64(S, ti); (void)off; if (TV_class && vt == TV_class + 16) return 1; if (TV_si && vt == TV_si + 16) return 2; if (TV_vmi && vt == TV_vmi + 16) return 3; return 0; }
struct Sub { uint64_t ti, addr; };
static void subobjects(State& S, uint64_t ti, uint64_t addr, bool real, std::vector<Sub>& out, int depth = 0) {
    if (depth > 40) return; for (auto& s : out) if (s.ti == ti && s.addr == addr) return;
    out.push_back({ti, addr}); int k = tiKind(S, ti);
    if (k == 2) subobjects(S, rd64(S, ti + 16), addr, real, out, depth + 1);
    else if (k == 3) { uint32_t n = rd32(S, ti + 20); for (uint32_t i = 0; i < n; i++) { uint64_t b = rd64(S, ti + 24 + 16 * i); int64_t of = (int64_t)rd64(S, ti + 32 + 16 * i); int64_t o = of >> 8;
            if (of & 1) { if (real) o = (int64_t)rd64(S, rd64(S, addr) + o); else o = 0; } subobjects(S, b, addr + o, real, out, depth + 1); } }
}
static uint64_t dynCast(State& S, uint64_t src, uint64_t srcTi, uint64_t dstTi) {
    if (!src) return 0; uint64_t vp = rd64(S, src); uint64_t top = src + (int64_t)rd64(S, vp - 16); uint64_t ti = rd64(S, vp - 8);
    std::vector<Sub> v; subobjects(S, ti, top, true, v); uint64_t r = 0; int n = 0;
    for (auto& s : v) if (s.ti == dstTi) { r = s.addr; n++; }
    if (n <= 1) return r;
    for (auto& s : v) if (s.ti == dstTi) { std::vector<Sub> w; subobjects(S, dstTi, s.addr, true, w); for (auto& x : w) if (x.ti == srcTi && x.addr == src) return s.addr; }
    return 0;
}
// ---------------------------------------------------------------- control
static void jump(State& S, int bb) {
    Frame& f = S.stack.back(); f.prevbb = f.bb; f.bb = bb; int pc = f.f->bbStart[bb];
    std::vector<std::pair<int, Val>> tmp;
    while (f.f->ins[pc].opc == Instruction::PHI) {
        KInst& k = f.f->ins[pc]; bool ok = false; for (auto& p : k.phi) if (p.first == f.prevbb) { tmp.push_back({k.dest, rv(f, p.second)}); ok = true; break; }
        if (!ok) unsup("phi"); pc++; }
    for (auto& t : tmp) f.regs[t.first] = t.second; f.pc = pc;
}
static void popFrame(State& S) { uint32_t b = S.stack.back().stkBase; S.stk.resize(b); S.stack.pop_back(); }
static std::string tiName(State& S, uint64_t ti) { auto it = gByAddr.find(ti); if (it != gByAddr.end()) return llvm::demangle(it->second->getName().str()); return "?"; }
static std::map<uint64_t, int> tiIds; static int tiId(uint64_t ti) { auto it = tiIds.find(ti); if (it != tiIds.end()) return it->second; int n = tiIds.size() + 1; tiIds[ti] = n; return n; }
static Exc* excOf(State& S, uint64_t obj) { for (auto& e : S.excs) if (e.obj == obj) return &e; unsup("unknown exception object"); }
static size_t mergeBase = 0;
static void unwind(State& S, uint64_t obj) {
    Exc* e = excOf(S, obj);
    // search handler first (uncaught -> report with intact stack)
    auto clauseMatch = [&](LandingPadInst* lp, KFunc*, uint64_t& sel, bool& caught) -> bool {
        sel = 0; caught = false;
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
            if (lp->isCatch(i)) { Constant* c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) { sel = tiId(0); caught = true; return true; }
                uint64_t ti = evalConst(c).u; std::vector<Sub> v; subobjects(S, e->ti, e->obj, tiKind(S, e->ti) == 3, v); for (auto& s : v) if (s.ti == ti) { sel = tiId(ti); e->adj = s.addr; caught = true; return true; } }
            else { Constant* c = lp->getClause(i); unsigned n = c->getType()->getArrayNumElements(); bool in = false; for (unsigned j = 0; j < n; j++) { uint64_t ti = evalConst(c->getAggregateElement(j)).u; std::vector<Sub> v; subobjects(S, e->ti, e->obj, false, v); for (auto& s : v) if (s.ti == ti) in = true; } if (!in) { sel = (uint64_t)-1; caught = true; return true; } }
        }
        return lp->isCleanup(); };
    bool handled = false;
    for (int i = (int)S.stack.size() - 1; i >= 0 && !handled; i--) { Frame& f = S.stack[i]; KInst& k = f.f->ins[f.pc]; if (k.opc != Instruction::Invoke) continue; auto* lp = cast<InvokeInst>(k.I)->getLandingPadInst(); uint64_t sel; bool c; clauseMatch(lp, f.f, sel, c); if (c) handled = true; }
    if (!handled) fail(S, "uncaught", "uncaught exception " + tiName(S, e->ti));
    for (;;) {
        if (S.stack.size() <= mergeBase) unsup("exception left a merged region");
        Frame& f = S.stack.back(); KInst& k = f.f->ins[f.pc];
        if (k.opc == Instruction::Invoke) {
            auto* lp = cast<InvokeInst>(k.I)->getLandingPadInst(); uint64_t sel; bool c; e->adj = e->obj;
            if (clauseMatch(lp, f.f, sel, c)) {
                jump(S, k.bb1); Frame& g = S.stack.back(); KInst& lk = g.f->ins[g.pc]; if (lk.opc != Instruction::LandingPad) unsup("landingpad expected");
                Agg* a = new Agg(); a->push_back(mkInt(obj, 64)); a->push_back(mkInt(sel, 32)); Val v; v.k = VAGG; v.g = a; g.regs[lk.dest] = v; g.pc++; return; }
        }
        popFrame(S); if (S.stack.empty()) unsup("unwound everything");
    }
}
struct Thrown {};   // handler changed control flow itself
static void finishCall(State& S, const Val& v) {
    Frame& f = S.stack.back(); KInst& k = f.f->ins[f.pc]; if (k.dest >= 0) f.regs[k.dest] = v;
    if (k.opc == Instruction::Invoke) jump(S, k.bb0); else f.pc++;
}
static void pushFrame(State& S, KFunc* kf, std::vector<Val>& args, CallBase* cb) {
    if (S.stack.size() > 600) fail(S, "recursion", "unbounded recursion");
    decode(kf); kf->calls++; Frame f; f.f = kf; f.regs.resize(kf->nregs); f.stkBase = S.stk.size();
    for (int i = 0; i < kf->nargs && i < (int)args.size(); i++) {
        if (cb && cb->isByValArgument(i)) { uint64_t n = tyAlloc(cb->getParamByValType(i)); uint64_t a = allocStack(S, n); uint64_t src = addrVal(S, args[i], "byval"); memcpyS(S, a, src, n); f.regs[i] = mkInt(a, 64); }
        else f.regs[i] = args[i]; }
    if (kf->F->isVarArg()) for (int i = kf->nargs; i < (int)args.size(); i++) { if (cb && cb->isByValArgument(i)) unsup("variadic aggregate"); f.va.push_back(args[i]); f.vaw.push_back(cb ? (int)tyAlloc(cb->getArgOperand(i)->getType()) : 8); }
    f.bb = 0; f.pc = 0; S.stack.push_back(std::move(f));
    while (S.stack.back().f->ins[S.stack.back().pc].opc == Instruction::PHI) unsup("phi in entry");
}
static Val lastRet;
static void runState(State& S, size_t base);   // runs until stack.size()==base (lastRet holds the value)
static bool isMergeable(KFunc* kf) {
    static std::unordered_map<KFunc*, int> c; auto it = c.find(kf); if (it != c.end()) return it->second;
    Function* F = kf->F; Type* t = F->getReturnType();
    bool ok = !OPT_NOMERGE && F->onlyReadsMemory() && F->doesNotThrow() && !t->isVoidTy() && !F->isVarArg();
    c[kf] = ok; return ok;
}
static void callMerged(State& S, KFunc* kf, std::vector<Val>& args, CallBase* cb) {
    size_t base = S.stack.size(), basePC = S.pc.size(); Type* RT = kf->F->getReturnType(); bool isPtr = RT->isPointerTy();
    std::vector<State*>* saved = work; std::vector<State*> local; size_t sb = mergeBase;
    State* first = new State(S); std::vector<std::pair<State*, Val>> done; bool lost = false; local.push_back(first);
    auto cleanup = [&]() { for (auto* s : local) delete s; for (auto& d : done) delete d.first; work = saved; mergeBase = sb; };
    bool entered = false;
    try {
        work = &local; mergeBase = base;
        pushFrame(*first, kf, args, cb); entered = true;
        while (!local.empty()) {
            State* s = local.back(); local.pop_back(); State* prev = curS; curS = s;
            try { runState(*s, base); done.push_back({s, lastRet}); curS = prev; }
            catch (KillPath&) { lost = true; delete s; curS = prev; }
            catch (...) { delete s; curS = prev; throw; }
        }
    } catch (...) { cleanup(); throw; }
    (void)entered; work = saved; mergeBase = sb;
    if (done.empty()) throw KillPath();
    // group by mergeability
    std::vector<std::vector<int>> groups;
    for (int i = 0; i < (int)done.size(); i++) { bool put = false; for (auto& g : groups) if (mergeable2(done[g[0]].second, done[i].second, isPtr)) { g.push_back(i); put = true; break; } if (!put) groups.push_back({i}); }
    if (done.size() > 1) nMerges++;
    std::vector<State*> outs;
    for (auto& g : groups) {
        State* R0 = done[g[0]].first; Val v = done[g[0]].second;
        if (g.size() > 1) {
            State* N = new State(S); // base state + merged conditions
            std::vector<A> conds; A disj = Z3_mk_false(C); std::map<unsigned, std::pair<A, int>> axCount; 
            for (int i : g) { A c = Z3_mk_true(C); for (size_t j = basePC; j < done[i].first->pc.size(); j++) { auto& p = done[i].first->pc[j]; if (!p.axiom) c = mkAnd(c, p.c); else { auto& x = axCount[astId(p.c)]; x.first = p.c; x.second++; } } conds.push_back(c); disj = mkOr(disj, c); }
            for (auto& kv : axCount) if (kv.second.second == (int)g.size()) addPC(*N, kv.second.first, true);
            for (size_t q = 0; q < g.size(); q++) { auto* D = done[g[q]].first; for (size_t j = basePC; j < D->pc.size(); j++) { auto& p = D->pc[j]; if (p.axiom && axCount[astId(p.c)].second != (int)g.size()) addPC(*N, mkOr(mkNot(conds[q]), p.c), true); } }
            v = done[g.back()].second; for (int q = (int)g.size() - 2; q >= 0; q--) v = mergeV(conds[q], done[g[q]].second, v);
            if (lost || groups.size() > 1) addPC(*N, disj, false);
            // pick a sub-state carrying a valid model
            bool have = false; for (int i : g) if (done[i].first->modelOK && done[i].first->model) { N->model = done[i].first->model; N->modelOK = true; have = true; break; }
            if (!have) N->modelOK = false;
            N->ninstr = R0->ninstr; for (int i : g) N->undec |= done[i].first->undec;
            for (int i : g) delete done[i].first;
            finishCall(*N, v); outs.push_back(N);
        } else { finishCall(*R0, v); outs.push_back(R0); }
    }
    for (size_t i = 1; i < outs.size(); i++) work->push_back(outs[i]);
    S = *outs[0]; delete outs[0];
}
static void callFunction(State& S, Function* F, std::vector<Val>& args, KInst& k) {
    auto it = kfmap.find(F); KFunc* kf = it->second;
    auto* cb = cast<CallBase>(k.I);
    if (F->isDeclaration()) {
        auto h = hIndex.find(F->getName().str());
        if (h == hIndex.end()) unsup("external function " + llvm::demangle(F->getName().str()));
        Val r = hFns[h->second](S, k, args); finishCall(S, r); return; }
    if (isMergeable(kf)) { callMerged(S, kf, args, cb); return; }
    pushFrame(S, kf, args, cb);
}
static void doSwitchTimeout() { if (now() > OPT_TIME) throw Timeout(); }
static Val arith(State& S, KInst& k, const Val& a, const Val& b) {
    if (a.k == VAGG || b.k == VAGG) { Agg* g = new Agg(); for (size_t i = 0; i < a.g->size(); i++) g->push_back(arith(S, k, (*a.g)[i], (*b.g)[i])); Val v; v.k = VAGG; v.g = g; return v; }
    Type* t = k.I->getType()->getScalarType();
    if (isFPTy(t)) return fop(S, k.opc, a, b, t->isFloatTy());
    unsigned w = t->getIntegerBitWidth(); if (w > 64) unsup("i128");
    bool nsw = isa<OverflowingBinaryOperator>(k.I) && cast<OverflowingBinaryOperator>(k.I)->hasNoSignedWrap(), exact = false;
    if (w == 1 && (k.opc == Instruction::Or || k.opc == Instruction::And) && (a.k == VUNDEF) != (b.k == VUNDEF)) { // an undefined operand does not matter when the other one decides
        const Val& x = a.k == VUNDEF ? b : a; bool v = x.k == VINT ? (x.u & 1) : decide(S, toBoolExpr(x)); if (v == (k.opc == Instruction::Or)) return mkBoolC(v); Val u; u.w = 1; return u; }
    if (k.opc == Instruction::Or || k.opc == Instruction::And || k.opc == Instruction::Xor) {
        // bit pattern of a symbolic real: sign manipulation
        if (a.k == VREAL && b.k == VINT) { if (k.opc == Instruction::And && b.u == 0x7fffffffffffffffull) return fabsV(a); if (k.opc == Instruction::Xor && b.u == 0x8000000000000000ull) return fneg(a); } }
    return intOp(S, k.opc, a, b, w, nsw, exact);
}
static Val castOp(State& S, KInst& k, const Val& a) {
    Type* ST = k.I->getOperand(0)->getType(); Type* T = k.I->getType();
    unsigned sw = ST->isIntegerTy() ? ST->getIntegerBitWidth() : 64, w = T->isIntegerTy() ? T->getIntegerBitWidth() : 64;
    if (a.k == VUNDEF) { if (a.lo && k.opc == Instruction::Trunc) return mkPart(a.u, a.lo, w); if (k.opc == Instruction::ZExt && sw < 64) return mkPart(a.u, (uint64_t)a.lo | ~maskw(sw), w); Val v; v.w = w; return v; }
    if (a.k == VAGG) { if (k.opc == Instruction::BitCast) return a; unsup("vector cast"); }
    switch (k.opc) {
    case Instruction::BitCast: { if (isFPTy(T) && a.k == VINT) return fixF(a); if (T->isIntegerTy() && a.k == VFP) { if (w == 32) { float f = a.d; uint32_t u; memcpy(&u, &f, 4); return mkInt(u, 32); } uint64_t u; memcpy(&u, &a.d, 8); return mkInt(u, 64); } return a; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (a.k == VINT) return mkInt(a.u, w); return a;
    case Instruction::FPExt: return fixF(a);
    case Instruction::FPTrunc: { Val v = fixF(a); if (v.k == VFP && T->isFloatTy()) return mkFP((float)v.d); return v; }
    case Instruction::FPToSI: return fptoi(S, a, w, true); case Instruction::FPToUI: return fptoi(S, a, w, false);
    case Instruction::SIToFP: case Instruction::UIToFP: { if (sw > 64) unsup("i128"); return itofp(a, sw, k.opc == Instruction::SIToFP); }
    case Instruction::Trunc: {
        if (a.k == VINT) return mkInt(a.u, w); if (w == 1) return mkBool(toBoolExpr(a)); if (a.k == VBOOL) unsup("trunc bool");
        if (a.k == VREAL || a.k == VFP) unsup("trunc of double bits");
        i128 lo, hi; rng(a, lo, hi); if (lo >= mnW(w) && hi <= mxW(w)) { Val r = a; r.w = w; return r; }
        if (lo >= 0 && hi < ((i128)1 << w)) { A e = mkIte(mkLt(mkI(mxW(w)), a.a), mkSub(a.a, mkI((i128)1 << w)), a.a); return mkSym(e, mnW(w), mxW(w), w); }
        return mkSym(wrapE(a.a, w), mnW(w), mxW(w), w); }
    case Instruction::ZExt: {
        if (a.k == VINT) return mkInt(a.u, w); if (a.k == VBOOL) return mkSym(mkIte(a.a, mkI(1), mkI(0)), 0, 1, w);
        i128 lo, hi; A e = uns(a, sw, lo, hi); return mkSym(e, lo, hi, w); }
    case Instruction::SExt: { if (a.k == VINT) return mkInt((uint64_t)sx(a.u, sw), w); if (a.k == VBOOL) return mkSym(mkIte(a.a, mkI(-1), mkI(0)), -1, 0, w); Val r = a; r.w = w; return r; }
    }
    unsup("cast");
}
static Val intr(State& S, KInst& k, std::vector<Val>& a) {
    unsigned w = k.w;
    auto cmpSel = [&](CmpInst::Predicate p) { if (a[0].k == VUNDEF || a[1].k == VUNDEF) { Val v; v.w = w; return v; } Val c = icmp(S, p, a[0], a[1], w); if (c.k == VINT) return c.u ? a[0] : a[1]; Val x = a[0], y = a[1];
        i128 l1, h1, l2, h2; Val r = merge2(c.a, x, y); rng(x, l1, h1); rng(y, l2, h2);
        if (r.k == VSYM) { if (p == CmpInst::ICMP_SGT) { r.lo = std::max(l1, l2); r.hi = std::max(h1, h2); } if (p == CmpInst::ICMP_SLT) { r.lo = std::min(l1, l2); r.hi = std::min(h1, h2); }
            if (l1 >= 0 && l2 >= 0) { if (p == CmpInst::ICMP_UGT) { r.lo = std::max(l1, l2); r.hi = std::max(h1, h2); } if (p == CmpInst::ICMP_ULT) { r.lo = std::min(l1, l2); r.hi = std::min(h1, h2); } } }
        return r; };
    auto pair = [&](Val x, Val o) { Agg* g = new Agg(); g->push_back(x); g->push_back(o); Val v; v.k = VAGG; v.g = g; return v; };
    switch (k.intr) {
    case IN_NOP: return Val(); case IN_ZERO: return mkInt(0, 64); case IN_FALSE: return mkBoolC(false); case IN_ID: return a[0]; case IN_OBJSIZE: return mkInt(~0ull, w);
    case IN_MEMCPY: { uint64_t n = addrVal(S, a[2], "memcpy length"); if (n) memcpyS(S, addrVal(S, a[0], "memcpy"), addrVal(S, a[1], "memcpy"), n); return Val(); }
    case IN_MEMSET: { uint64_t n = addrVal(S, a[2], "memset length"); if (!n) return Val(); Val b = a[1]; uint64_t off; Obj* o = access(S, addrVal(S, a[0], "memset"), n, true, off, "write (memset)"); 
        if (b.k == VINT) { clearRange(o, off, n); for (uint64_t i = 0; i < n; i++) { o->data[off + i] = b.u; o->st[off + i] = 1; } } else for (uint64_t i = 0; i < n; i++) storeVal(o, off + i, b, 1); return Val(); }
    case IN_UMAX: return cmpSel(CmpInst::ICMP_UGT); case IN_UMIN: return cmpSel(CmpInst::ICMP_ULT); case IN_SMAX: return cmpSel(CmpInst::ICMP_SGT); case IN_SMIN: return cmpSel(CmpInst::ICMP_SLT);
    case IN_ABS: { if (a[0].k == VUNDEF) return a[0]; if (a[0].k == VINT) { int64_t x = sx(a[0].u, w); return mkInt(x < 0 ? 0 - (uint64_t)x : x, w); } i128 lo, hi; rng(a[0], lo, hi); if (lo >= 0) return a[0]; A e = toIntExpr(a[0]); i128 m = std::max(-lo, hi); A r = mkIte(mkLt(e, mkI(0)), mkSub(mkI(0), e), e); return fit(S, r, 0, m, w, true); }
    case IN_FABS: return fabsV(a[0]);
    case IN_FMA: return fop(S, Instruction::FAdd, fop(S, Instruction::FMul, a[0], a[1], k.fp32), a[2], k.fp32);
    case IN_COPYSIGN: { Val x = fixF(a[0]), y = fixF(a[1]); if (x.k == VFP && y.k == VFP) return mkFP(std::copysign(x.d, y.d)); Val m = fabsV(x); if (y.k == VFP) return std::signbit(y.d) ? fneg(m) : m; Val n = fneg(m); return merge2(mkLt(y.a, mkR(0)), n, m); }
    case IN_MAXNUM: case IN_MINNUM: { Val x = fixF(a[0]), y = fixF(a[1]); Val c = fcmp(S, k.intr == IN_MAXNUM ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, x, y); if (c.k == VINT) return c.u ? x : y; return merge2(c.a, x, y); }
    case IN_SADDO: case IN_SSUBO: case IN_SMULO: case IN_UADDO: case IN_USUBO: case IN_UMULO: {
        unsigned ww = k.I->getOperand(0)->getType()->getIntegerBitWidth(); if (a[0].k == VUNDEF || a[1].k == VUNDEF) return pair(Val(), Val());
        bool sg = k.intr <= IN_SMULO; i128 al, ah, bl, bh; A x, y; if (sg) { x = toIntExpr(a[0]); rng(a[0], al, ah); y = toIntExpr(a[1]); rng(a[1], bl, bh); } else { x = uns(a[0], ww, al, ah); y = uns(a[1], ww, bl, bh); }
        A r; i128 lo, hi; if (k.intr == IN_SADDO || k.intr == IN_UADDO) { r = mkAdd(x, y); lo = al + bl; hi = ah + bh; } else if (k.intr == IN_SSUBO || k.intr == IN_USUBO) { r = mkSub(x, y); lo = al - bh; hi = ah - bl; } else {
            if (a[0].k == VINT && a[1].k == VINT) { __int128 p; bool ov = __builtin_mul_overflow(al, bl, &p); lo = hi = p; if (ov) unsup("mulo"); r = mkI(p); } else { auto big = [](i128 q) { return q > ((i128)1 << 63) || q < -((i128)1 << 63); }; if (big(ah) || big(bh)) unsup("mulo range"); r = mkMul(x, y); i128 p[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); } }
        i128 mn = sg ? mnW(ww) : 0, mx = sg ? mxW(ww) : ((i128)1 << ww) - 1;
        if (lo >= mn && hi <= mx) { Val v = hi <= mxW(ww) ? mkSym(r, lo, hi, ww) : (isNum(r) ? mkInt((uint64_t)lo, ww) : mkSym(wrapE(r, ww), mnW(ww), mxW(ww), ww)); return pair(v, mkBoolC(false)); }
        if (hi < mn || lo > mx) { Val v = lo == hi ? mkInt((uint64_t)lo, ww) : mkSym(wrapE(r, ww), mnW(ww), mxW(ww), ww); return pair(v, mkBoolC(true)); }
        A ov = mkNot(mkAnd(mkLe(mkI(mn), r), mkLe(r, mkI(mx)))); return pair(mkSym(wrapE(r, ww), mnW(ww), mxW(ww), ww), mkBool(ov)); }
    case IN_USUBSAT: { Val c = icmp(S, CmpInst::ICMP_UGE, a[0], a[1], w); Val d = intOp(S, Instruction::Sub, a[0], a[1], w, false, false); if (c.k == VINT) return c.u ? d : mkInt(0, w); return merge2(c.a, d, mkInt(0, w)); }
    case IN_UADDSAT: { if (a[0].k == VINT && a[1].k == VINT) { uint64_t s = (a[0].u + a[1].u) & maskw(w); return mkInt(s < a[0].u ? maskw(w) : s, w); } unsup("uadd.sat"); }
    case IN_CTPOP: { Val v = concretize(S, a[0]); return mkInt(__builtin_popcountll(v.u), w); }
    case IN_CTLZ: { Val v = concretize(S, a[0]); return mkInt(v.u ? __builtin_clzll(v.u) - (64 - w) : w, w); }
    case IN_CTTZ: { Val v = concretize(S, a[0]); return mkInt(v.u ? __builtin_ctzll(v.u) : w, w); }
    case IN_VASTART: { Frame& f = S.stack.back(); // everything is passed in memory: both register areas are reported as used up
        uint64_t n = 8 * f.va.size(), area = allocStack(S, n + 8), at = area; for (size_t i = 0; i < f.va.size(); i++, at += 8) { if (f.vaw[i] > 8) unsup("wide variadic argument"); uint64_t off; Obj* o = access(S, at, f.vaw[i], true, off, "write"); storeVal(o, off, f.va[i], f.vaw[i]); }
        uint64_t l = addrVal(S, a[0], "va_start"), off; Obj* o = access(S, l, 24, true, off, "write"); storeVal(o, off, mkInt(48, 32), 4); storeVal(o, off + 4, mkInt(176, 32), 4); storeVal(o, off + 8, mkInt(area, 64), 8); storeVal(o, off + 16, mkInt(0, 64), 8); return Val(); }
    case IN_VACOPY: memcpyS(S, addrVal(S, a[0], "va_copy"), addrVal(S, a[1], "va_copy"), 24); return Val();
    case IN_BSWAP: { Val v = concretize(S, a[0]); return mkInt(__builtin_bswap64(v.u) >> (64 - w), w); }
    case IN_FSHL: case IN_FSHR: { Val x = concretize(S, a[0]), y = concretize(S, a[1]), s = concretize(S, a[2]); unsigned n = s.u % w; unsigned __int128 c = ((unsigned __int128)x.u << w) | y.u; if (k.intr == IN_FSHL) return mkInt((uint64_t)((c << n) >> w), w); return mkInt((uint64_t)(c >> n), w); }
    case IN_ISFPCLASS: { Val x = fixF(a[0]); unsigned m = a[1].u; if (x.k == VFP) { double d = x.d; unsigned c = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 512) : d == 0 ? (std::signbit(d) ? 32 : 64) : d < 0 ? 8 : 256; return mkBoolC(m & c); } if (x.k == VUNDEF) return Val();
        bool neg = (m & 8), zer = (m & 96), pos = (m & 256); if (neg && zer && pos) return mkBoolC(true); if (!neg && !zer && !pos) return mkBoolC(false); if (decide(S, mkEq(x.a, mkR(0)))) return mkBoolC(zer); if (neg == pos) return mkBoolC(neg); return mkBoolC(decide(S, mkLt(x.a, mkR(0))) ? neg : pos); }
    case IN_EHTID: return mkInt(tiId(a[0].u), 32);
    case IN_TRAP: fail(S, "abort", "trap"); 
    }
    unsup("intrinsic " + (k.callee ? k.callee->getName().str() : std::string("inline asm")));
}
static void step(State& S) {
    Frame& f = S.stack.back(); KInst& k = f.f->ins[f.pc];
    switch (k.opc) {
    case Instruction::Alloca: { Val n = rv(f, k.ops[0]); uint64_t c = n.k == VINT ? n.u : concretize(S, n).u; if (c * k.size > (1 << 24)) unsup("huge alloca"); uint64_t a = allocStack(S, c * k.size); f.regs[k.dest] = mkInt(a, 64); f.pc++; return; }
    case Instruction::Load: {
        Val pv = rv(f, k.ops[0]); uint64_t a = addrVal(S, pv, "load"); Type* T = k.I->getType(); if (k.size > 8 || T->isStructTy() || T->isVectorTy() || T->isArrayTy()) { f.regs[k.dest] = loadTy(S, a, T); f.pc++; return; }
        uint64_t off; Obj* o = access(S, a, k.size, false, off, "read"); Val v = loadVal(o, off, k.size, k.fp ? 64 : k.w, k.fp); f.regs[k.dest] = v; f.pc++; return; }
    case Instruction::Store: {
        Val v = rv(f, k.ops[0]); uint64_t a = addrVal(S, rv(f, k.ops[1]), "store"); if (v.k == VAGG || k.size > 8) { storeTy(S, a, v, k.I->getOperand(0)->getType()); f.pc++; return; }
        uint64_t off; Obj* o = access(S, a, k.size, true, off, "write"); if (k.fp32 && v.k == VINT) { uint32_t u = v.u; float fl; memcpy(&fl, &u, 4); v = mkFP(fl); } storeVal(o, off, v, k.size); f.pc++; return; }
    case Instruction::GetElementPtr: {
        Val b = rv(f, k.ops[0]); if (b.k == VUNDEF) { f.regs[k.dest] = b; f.pc++; return; }
        if (b.k == VAGG) unsup("vector gep");
        bool allc = b.k == VINT; uint64_t u = b.u + k.coff; if (allc) for (auto& g : k.gep) { const Val& ix = rv(f, g.op); if (ix.k != VINT) { allc = false; break; } u += (uint64_t)(sx(ix.u, g.w) * g.scale); }
        if (allc) { f.regs[k.dest] = mkInt(u, 64); f.pc++; return; }
        i128 lo, hi; rng(b, lo, hi); A e = mkAdd(toIntExpr(b), mkI(k.coff)); lo += k.coff; hi += k.coff;
        for (auto& g : k.gep) { const Val& ix = rv(f, g.op); if (ix.k == VUNDEF) { f.regs[k.dest] = ix; f.pc++; return; } i128 l, h; rng(ix, l, h); e = mkAdd(e, mkMul(toIntExpr(ix), mkI(g.scale))); lo += std::min(l * g.scale, h * g.scale); hi += std::max(l * g.scale, h * g.scale); }
        f.regs[k.dest] = fit(S, e, lo, hi, 64, false); f.pc++; return; }
    case Instruction::PHI: unsup("stray phi");
    case Instruction::Br: if (k.bb1 < 0) { jump(S, k.bb0); return; } { bool c = concB(S, rv(f, k.ops[0])); jump(S, c ? k.bb0 : k.bb1); return; }
    case Instruction::Switch: {
        Val v = rv(f, k.ops[0]); if (v.k == VUNDEF) fail(S, "uninit", "switch on uninitialised value");
        if (v.k == VINT) { for (auto& s : k.sw) if (s.first == v.u) { jump(S, s.second); return; } jump(S, k.bb0); return; }
        for (auto& s : k.sw) { Val c = icmp(S, CmpInst::ICMP_EQ, v, mkInt(s.first, k.w), k.w); if (c.k == VINT ? (c.u & 1) : decide(S, c.a)) { jump(S, s.second); return; } }
        jump(S, k.bb0); return; }
    case Instruction::Ret: {
        Val v; if (!k.ops.empty()) v = rv(f, k.ops[0]); popFrame(S); lastRet = v; return; }
    case Instruction::Unreachable: fail(S, "ub", "unreachable reached");
    case Instruction::Select: {
        Val c = rv(f, k.ops[0]), t = rv(f, k.ops[1]), e = rv(f, k.ops[2]); if (c.k == VUNDEF) { Val u; u.w = k.w; f.regs[k.dest] = (t.k == VAGG) ? t : u; f.pc++; return; }
        if (c.k == VAGG) unsup("vector select");
        if (c.k == VINT) { f.regs[k.dest] = c.u & 1 ? t : e; f.pc++; return; }
        Type* T = k.I->getType(); A ce = toBoolExpr(c);
        if (T->isIntegerTy(1) && (t.k == VUNDEF || e.k == VUNDEF)) { // logical and/or with possibly poison arm: decide
            bool b = decide(S, ce); f.regs[k.dest] = b ? t : e; f.pc++; return; }
        if (mergeable2(t, e, T->isPointerTy()) ) { f.regs[k.dest] = mergeV(ce, t, e); f.pc++; return; }
        bool b = decide(S, ce); f.regs[k.dest] = b ? t : e; f.pc++; return; }
    case Instruction::ICmp: { Val a = rv(f, k.ops[0]), b = rv(f, k.ops[1]); if (a.k == VAGG) unsup("vector icmp");
        if (a.k == VREAL || b.k == VREAL || a.k == VFP || b.k == VFP) { auto* ci = cast<ICmpInst>(k.I); // sign-bit tests on doubles
            Val r = a.k == VINT ? b : a; const Val& z = a.k == VINT ? a : b; if (r.k == VFP) { uint64_t u; memcpy(&u, &r.d, 8); r = mkInt(u, 64); f.regs[k.dest] = a.k == VINT ? icmp(S, ci->getPredicate(), z, r, k.w) : icmp(S, ci->getPredicate(), r, z, k.w); f.pc++; return; }
            if (z.k == VINT && a.k != VINT && ci->getPredicate() == CmpInst::ICMP_SLT && z.u == 0) { f.regs[k.dest] = mkBool(mkLt(r.a, mkR(0))); f.pc++; return; }
            if (z.k == VINT && a.k != VINT && ci->getPredicate() == CmpInst::ICMP_SGT && z.u == ~0ull) { f.regs[k.dest] = mkBool(mkLe(mkR(0), r.a)); f.pc++; return; }
            if (ci->isEquality() && isF(a) && isF(b)) { Val q = fcmp(S, ci->getPredicate() == CmpInst::ICMP_EQ ? CmpInst::FCMP_OEQ : CmpInst::FCMP_UNE, a, b); f.regs[k.dest] = q; f.pc++; return; }
            unsup("integer comparison of double bits"); }
        Val v = icmp(S, cast<ICmpInst>(k.I)->getPredicate(), a, b, k.w); f.regs[k.dest] = v; f.pc++; return; }
    case Instruction::FCmp: { Val a = rv(f, k.ops[0]), b = rv(f, k.ops[1]); if (a.k == VAGG) unsup("vector fcmp"); Val v = fcmp(S, cast<FCmpInst>(k.I)->getPredicate(), a, b); S.stack.back().regs[k.dest] = v; S.stack.back().pc++; return; }
    case Instruction::FNeg: { Val v = rv(f, k.ops[0]); if (v.k == VAGG) unsup("vector fneg"); f.regs[k.dest] = fneg(v); f.pc++; return; }
    case Instruction::Freeze: { Val v = rv(f, k.ops[0]); f.regs[k.dest] = v; f.pc++; return; }
    case Instruction::ExtractValue: { Val v = rv(f, k.ops[0]); for (unsigned i : cast<ExtractValueInst>(k.I)->indices()) { if (v.k != VAGG) unsup("extractvalue"); v = (*v.g)[i]; } f.regs[k.dest] = v; f.pc++; return; }
    case Instruction::InsertValue: { Val v = rv(f, k.ops[0]), x = rv(f, k.ops[1]); auto ix = cast<InsertValueInst>(k.I)->getIndices();
        std::function<Val(const Val&, size_t)> ins = [&](const Val& a, size_t d) -> Val { if (d == ix.size()) return x; if (a.k != VAGG) unsup("insertvalue"); Agg* g = new Agg(*a.g); (*g)[ix[d]] = ins((*a.g)[ix[d]], d + 1); Val r; r.k = VAGG; r.g = g; return r; };
        f.regs[k.dest] = ins(v, 0); f.pc++; return; }
    case Instruction::ExtractElement: { Val v = rv(f, k.ops[0]), ix = rv(f, k.ops[1]); if (v.k != VAGG || ix.k != VINT) unsup("extractelement"); f.regs[k.dest] = (*v.g)[ix.u]; f.pc++; return; }
    case Instruction::InsertElement: { Val v = rv(f, k.ops[0]), x = rv(f, k.ops[1]), ix = rv(f, k.ops[2]); if (v.k != VAGG || ix.k != VINT) unsup("insertelement"); Agg* g = new Agg(*v.g); (*g)[ix.u] = x; Val r; r.k = VAGG; r.g = g; f.regs[k.dest] = r; f.pc++; return; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(k.I); Val a = rv(f, k.ops[0]), b = rv(f, k.ops[1]); if (a.k != VAGG) unsup("shuffle"); Agg* g = new Agg(); for (int m : sv->getShuffleMask()) { if (m < 0) g->push_back(Val()); else if (m < (int)a.g->size()) g->push_back((*a.g)[m]); else g->push_back((*b.g)[m - a.g->size()]); } Val r; r.k = VAGG; r.g = g; f.regs[k.dest] = r; f.pc++; return; }
    case Instruction::AtomicRMW: { auto* r = cast<AtomicRMWInst>(k.I); uint64_t a = addrVal(S, rv(f, k.ops[0]), "atomic"); Val x = rv(f, k.ops[1]); Type* T = r->getType(); Val old = loadTy(S, a, T); Val nv; unsigned w = T->getIntegerBitWidth();
        switch (r->getOperation()) { case AtomicRMWInst::Add: nv = intOp(S, Instruction::Add, old, x, w, false, false); break; case AtomicRMWInst::Sub: nv = intOp(S, Instruction::Sub, old, x, w, false, false); break; case AtomicRMWInst::Xchg: nv = x; break; default: unsup("atomicrmw"); }
        storeTy(S, a, nv, T); f.regs[k.dest] = old; f.pc++; return; }
    case Instruction::AtomicCmpXchg: { uint64_t a = addrVal(S, rv(f, k.ops[0]), "atomic"); Val e = rv(f, k.ops[1]), n = rv(f, k.ops[2]); Type* T = cast<AtomicCmpXchgInst>(k.I)->getNewValOperand()->getType(); Val old = loadTy(S, a, T); if (!T->isIntegerTy()) unsup("cmpxchg type");
        Val c = icmp(S, CmpInst::ICMP_EQ, old, e, T->getIntegerBitWidth()); bool b = c.k == VINT ? (c.u & 1) : decide(S, c.a); if (b) storeTy(S, a, n, T); Agg* g = new Agg(); g->push_back(old); g->push_back(mkBoolC(b)); Val r; r.k = VAGG; r.g = g; S.stack.back().regs[k.dest] = r; S.stack.back().pc++; return; }
    case Instruction::Fence: f.pc++; return;
    case Instruction::LandingPad: unsup("stray landingpad");
    case Instruction::Resume: { Val v = rv(f, k.ops[0]); uint64_t obj = (*v.g)[0].u; popFrame(S); if (S.stack.empty()) unsup("resume at top"); unwind(S, obj); return; }
    case Instruction::Call: case Instruction::Invoke: {
        std::vector<Val> args; size_t n = k.ops.size(); if (!k.callee && !k.intr) n--; args.reserve(n); for (size_t i = 0; i < n; i++) args.push_back(rv(f, k.ops[i]));
        if (k.intr) { Val r = intr(S, k, args); finishCall(S, r); return; }
        if (k.hid >= 0) { try { Val r = hFns[k.hid](S, k, args); finishCall(S, r); } catch (Thrown&) {} return; }
        Function* F = k.callee;
        if (!F) { uint64_t a = addrVal(S, rv(f, k.ops.back()), "call"); if (a < FUN0 || (a & 15) || (a - FUN0) / 16 >= kfuncs.size()) fail(S, a < 0x10000 ? "nullptr" : "wildptr", "call through invalid function pointer"); F = kfuncs[(a - FUN0) / 16]->F;
            auto h = hIndex.find(F->getName().str()); if (h != hIndex.end()) { try { Val r = hFns[h->second](S, k, args); finishCall(S, r); } catch (Thrown&) {} return; } }
        callFunction(S, F, args, k); return; }
    default:
        if (Instruction::isBinaryOp(k.opc)) { Val a = rv(f, k.ops[0]), b = rv(f, k.ops[1]); Val v = arith(S, k, a, b); Frame& g = S.stack.back(); g.regs[k.dest] = v; g.pc++; return; }
        if (Instruction::isCast(k.opc)) { Val a = rv(f, k.ops[0]); Val v = castOp(S, k, a); Frame& g = S.stack.back(); g.regs[k.dest] = v; g.pc++; return; }
        unsup(std::string("instruction ") + k.I->getOpcodeName());
    }
}
static void runState(State& S, size_t base) {
    while (S.stack.size() > base) {
        size_t before = S.stack.size(); bool ret = S.stack.back().f->ins[S.stack.back().pc].opc == Instruction::Ret;
        nInstr++; S.ninstr++; if ((nInstr & 1023) == 0) doSwitchTimeout();
        if (S.ninstr > OPT_MAXINSTR) { boundHit = true; boundReasons.insert("instruction bound per path"); throw KillPath(); }
        step(S);
        if (ret && S.stack.size() == before - 1) { if (S.stack.size() > base) finishCall(S, lastRet); }
    }
}
#include "handlers.inc"

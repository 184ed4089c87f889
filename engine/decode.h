// Decoding of LLVM IR into a compact form. (included by symex.cpp)
enum Builtin {
    B_NONE = 0, B_UNKNOWN, B_NOP, B_RET0, B_SYM, B_SYMRANGE, B_ASSUME, B_CHECK, B_CONCRETIZE, B_COVER, B_PARAM, B_LIVE, B_ISSYM, B_TRACE, B_ENGINE, B_FORKMIN,
    B_MALLOC, B_CALLOC, B_REALLOC, B_NEW, B_NEWA, B_FREE, B_DELETE, B_DELETEA, B_POSIXMEMALIGN, B_ALIGNEDNEW,
    B_MEMCPY, B_MEMSET, B_ABORT, B_EXIT, B_ASSERTFAIL, B_TERMINATE,
    B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_GUARD_ACQ, B_GUARD_REL, B_TYPEID, B_STDTHROW, B_UNCAUGHT, B_DYNCAST,
    B_LOG2, B_LOG, B_CEIL, B_FLOOR, B_SQRT, B_POW, B_FABS, B_EXP, B_LOG10,
    B_UMULO, B_SMULO, B_UADDO, B_SADDO, B_USUBO, B_SSUBO, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABSI, B_CTPOP, B_CTLZ, B_CTTZ, B_FSHL, B_FSHR, B_BSWAP, B_ASSUMEI, B_EXPECT, B_OBJSIZE, B_ISCONST, B_STACKSAVE, B_BITREV, B_UADDSAT, B_USUBSAT, B_TLADDR, B_SCMP,
    B_KMPC_FORK, B_KMPC_GTID, B_KMPC_STATIC4, B_KMPC_STATIC4U, B_KMPC_STATIC8, B_KMPC_STATIC8U, B_KMPC_STATICFINI, B_KMPC_DISPINIT4, B_KMPC_DISPINIT8, B_KMPC_DISPNEXT4, B_KMPC_DISPNEXT8, B_KMPC_BARRIER, B_KMPC_CRIT, B_KMPC_ENDCRIT, B_KMPC_SINGLE, B_KMPC_ENDSINGLE, B_KMPC_REDUCE, B_KMPC_ENDREDUCE, B_KMPC_MASTER, B_KMPC_PUSHNUM, B_OMP_TID, B_OMP_MAX, B_OMP_NUM, B_OMP_INPAR, B_OMP_SETNUM, B_KMPC_DISPFINI, B_KMPC_SERIAL,
    B_GETRUSAGE, B_RAND, B_STRTOL, B_FMULADD, B_RACEPOINT
};
static const std::unordered_map<std::string, int>& builtinTable() {
    static const std::unordered_map<std::string, int> t = {
        {"__sym", B_SYM}, {"__sym_range", B_SYMRANGE}, {"__assume", B_ASSUME}, {"__check", B_CHECK}, {"__concretize", B_CONCRETIZE}, {"__cover", B_COVER}, {"__param", B_PARAM}, {"__live_allocs", B_LIVE}, {"__is_symbolic", B_ISSYM}, {"__trace", B_TRACE}, {"__in_engine", B_ENGINE}, {"__end_path", B_FORKMIN},
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"posix_memalign", B_POSIXMEMALIGN},
        {"_Znwm", B_NEW}, {"_Znam", B_NEWA}, {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELETEA}, {"_ZdaPvm", B_DELETEA},
        {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWA}, {"_ZnwmSt11align_val_t", B_NEW}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
        {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__assert_fail", B_ASSERTFAIL}, {"_ZSt9terminatev", B_TERMINATE}, {"__clang_call_terminate", B_TERMINATE},
        {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_rethrow", B_CXA_RETHROW},
        {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_NOP}, {"__cxa_atexit", B_RET0}, {"__cxa_pure_virtual", B_ABORT}, {"__dynamic_cast", B_DYNCAST},
        {"log2", B_LOG2}, {"log", B_LOG}, {"ceil", B_CEIL}, {"floor", B_FLOOR}, {"sqrt", B_SQRT}, {"pow", B_POW}, {"fabs", B_FABS}, {"exp", B_EXP}, {"log10", B_LOG10},
        {"__kmpc_fork_call", B_KMPC_FORK}, {"__kmpc_global_thread_num", B_KMPC_GTID},
        {"__kmpc_for_static_init_4", B_KMPC_STATIC4}, {"__kmpc_for_static_init_4u", B_KMPC_STATIC4U}, {"__kmpc_for_static_init_8", B_KMPC_STATIC8}, {"__kmpc_for_static_init_8u", B_KMPC_STATIC8U}, {"__kmpc_for_static_fini", B_KMPC_STATICFINI},
        {"__kmpc_dispatch_init_4", B_KMPC_DISPINIT4}, {"__kmpc_dispatch_init_4u", B_KMPC_DISPINIT4}, {"__kmpc_dispatch_init_8", B_KMPC_DISPINIT8}, {"__kmpc_dispatch_init_8u", B_KMPC_DISPINIT8},
        {"__kmpc_dispatch_next_4", B_KMPC_DISPNEXT4}, {"__kmpc_dispatch_next_4u", B_KMPC_DISPNEXT4}, {"__kmpc_dispatch_next_8", B_KMPC_DISPNEXT8}, {"__kmpc_dispatch_next_8u", B_KMPC_DISPNEXT8},
        {"__kmpc_dispatch_fini_4", B_KMPC_DISPFINI}, {"__kmpc_dispatch_fini_8", B_KMPC_DISPFINI}, {"__kmpc_dispatch_fini_4u", B_KMPC_DISPFINI}, {"__kmpc_dispatch_fini_8u", B_KMPC_DISPFINI}, {"__kmpc_dispatch_deinit", B_KMPC_DISPFINI},
        {"__kmpc_barrier", B_KMPC_BARRIER}, {"__kmpc_critical", B_KMPC_CRIT}, {"__kmpc_critical_with_hint", B_KMPC_CRIT}, {"__kmpc_end_critical", B_KMPC_ENDCRIT},
        {"__kmpc_single", B_KMPC_SINGLE}, {"__kmpc_end_single", B_KMPC_ENDSINGLE}, {"__kmpc_reduce", B_KMPC_REDUCE}, {"__kmpc_reduce_nowait", B_KMPC_REDUCE}, {"__kmpc_end_reduce", B_KMPC_ENDREDUCE}, {"__kmpc_end_reduce_nowait", B_KMPC_ENDREDUCE},
        {"__kmpc_master", B_KMPC_MASTER}, {"__kmpc_end_master", B_NOP}, {"__kmpc_masked", B_KMPC_MASTER}, {"__kmpc_end_masked", B_NOP}, {"__kmpc_push_num_threads", B_KMPC_PUSHNUM}, {"__kmpc_flush", B_NOP}, {"__kmpc_serialized_parallel", B_KMPC_SERIAL}, {"__kmpc_end_serialized_parallel", B_KMPC_SERIAL},
        {"omp_get_thread_num", B_OMP_TID}, {"omp_get_max_threads", B_OMP_MAX}, {"omp_get_num_threads", B_OMP_NUM}, {"omp_in_parallel", B_OMP_INPAR}, {"omp_set_num_threads", B_OMP_SETNUM},
        {"printf", B_RET0}, {"fprintf", B_RET0}, {"puts", B_RET0}, {"fputs", B_RET0}, {"fputc", B_RET0}, {"putchar", B_RET0}, {"fwrite", B_RET0}, {"fflush", B_RET0}, {"_ZdlPvRKSt9nothrow_t", B_DELETE}, {"_ZdaPvRKSt9nothrow_t", B_DELETEA},
        {"getrusage", B_GETRUSAGE}, {"rand", B_RAND}, {"__race_point", B_RACEPOINT},
    };
    return t;
}
static int intrinsicBuiltin(Intrinsic::ID id) {
    switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::assume:
    case Intrinsic::vastart: case Intrinsic::vaend: return B_NOP;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY;
    case Intrinsic::memset: return B_MEMSET;
    case Intrinsic::trap: case Intrinsic::ubsantrap: return B_ABORT;
    case Intrinsic::eh_typeid_for: return B_TYPEID;
    case Intrinsic::umul_with_overflow: return B_UMULO; case Intrinsic::smul_with_overflow: return B_SMULO;
    case Intrinsic::uadd_with_overflow: return B_UADDO; case Intrinsic::sadd_with_overflow: return B_SADDO;
    case Intrinsic::usub_with_overflow: return B_USUBO; case Intrinsic::ssub_with_overflow: return B_SSUBO;
    case Intrinsic::umin: return B_UMIN; case Intrinsic::umax: return B_UMAX; case Intrinsic::smin: return B_SMIN; case Intrinsic::smax: return B_SMAX; case Intrinsic::abs: return B_ABSI;
    case Intrinsic::ctpop: return B_CTPOP; case Intrinsic::ctlz: return B_CTLZ; case Intrinsic::cttz: return B_CTTZ; case Intrinsic::fshl: return B_FSHL; case Intrinsic::fshr: return B_FSHR; case Intrinsic::bswap: return B_BSWAP;
    case Intrinsic::uadd_sat: return B_UADDSAT; case Intrinsic::usub_sat: return B_USUBSAT;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return B_EXPECT;
    case Intrinsic::objectsize: return B_OBJSIZE; case Intrinsic::is_constant: return B_ISCONST; case Intrinsic::stacksave: return B_STACKSAVE; case Intrinsic::threadlocal_address: return B_EXPECT;
    case Intrinsic::fmuladd: case Intrinsic::fma: return B_FMULADD; case Intrinsic::ceil: return B_CEIL; case Intrinsic::floor: return B_FLOOR; case Intrinsic::log2: return B_LOG2; case Intrinsic::log: return B_LOG; case Intrinsic::sqrt: return B_SQRT; case Intrinsic::fabs: return B_FABS; case Intrinsic::pow: return B_POW;
    default: return B_UNKNOWN;
    }
}

static int flatCount(Type* t) {
    if (t->isVoidTy()) return 0;
    if (auto* s = dyn_cast<StructType>(t)) { int n = 0; for (Type* e : s->elements()) n += flatCount(e); return n; }
    if (auto* a = dyn_cast<ArrayType>(t)) return (int)a->getNumElements() * flatCount(a->getElementType());
    if (auto* v = dyn_cast<FixedVectorType>(t)) return (int)v->getNumElements();
    return 1;
}
static unsigned widthOf(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}
static void flatLeaves(Type* t, u64 off, std::vector<LeafT>& out) {
    if (auto* s = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) flatLeaves(s->getElementType(i), off + L->getElementOffset(i), out); return; }
    if (auto* a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); ++i) flatLeaves(a->getElementType(), off + i * sz, out); return; }
    if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeAllocSize(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); ++i) out.push_back({off + i * sz, widthOf(v->getElementType())}); return; }
    out.push_back({off, widthOf(t)});
}
static u64 addrOfGlobal(const GlobalValue* g) {
    if (auto* f = dyn_cast<Function>(g)) return funcOf.at(f)->addr;
    if (auto* v = dyn_cast<GlobalVariable>(g)) return globAddr.at(v);
    if (auto* a = dyn_cast<GlobalAlias>(g)) return addrOfGlobal(cast<GlobalValue>(a->getAliasee()->stripPointerCasts()));
    return 0;
}
static u64 constInt(const Constant* c);
static bool badConst = false;
static void flattenConst(const Constant* c, std::vector<u64>& out) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { int n = flatCount(t); for (int i = 0; i < n; ++i) out.push_back(0); return; }
    if (auto* s = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < s->getNumOperands(); ++i) flattenConst(cast<Constant>(s->getOperand(i)), out); return; }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); ++i) flattenConst(d->getElementAsConstant(i), out); return; }
    out.push_back(constInt(c));
}
static u64 constInt(const Constant* c) {
    if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) { badConst = true; return i->getValue().getLoBits(64).trunc(64).getZExtValue(); } return i->getZExtValue(); }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantTokenNone>(c)) return 0;
    if (auto* f = dyn_cast<ConstantFP>(c)) { APInt b = f->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) { badConst = true; return 0; } return b.getZExtValue(); }
    if (auto* g = dyn_cast<GlobalValue>(c)) return addrOfGlobal(g);
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off); return constInt(e->getOperand(0)) + off.getSExtValue(); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { u64 v = constInt(e->getOperand(0)); unsigned w = widthOf(e->getType()); return v & maskw(w ? w : 64); }
        case Instruction::Trunc: return constInt(e->getOperand(0)) & maskw(widthOf(e->getType()));
        case Instruction::Sub: return (constInt(e->getOperand(0)) - constInt(e->getOperand(1))) & maskw(widthOf(e->getType()));
        case Instruction::Add: return (constInt(e->getOperand(0)) + constInt(e->getOperand(1))) & maskw(widthOf(e->getType()));
        case Instruction::ICmp: { u64 a = constInt(e->getOperand(0)), b = constInt(e->getOperand(1)); return e->getPredicate() == CmpInst::ICMP_EQ ? a == b : e->getPredicate() == CmpInst::ICMP_NE ? a != b : (badConst = true, 0); }
        default: badConst = true; return 0;
        }
    }
    badConst = true; return 0;
}
static void initMem(u64 a, const Constant* c) {
    Type* t = c->getType(); u64 sz = DL->getTypeStoreSize(t);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { memset((void*)a, 0, sz); return; }
    if (auto* s = dyn_cast<ConstantStruct>(c)) { const StructLayout* L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); ++i) initMem(a + L->getElementOffset(i), s->getOperand(i)); return; }
    if (auto* s = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(s->getType()->getElementType()); for (unsigned i = 0; i < s->getNumOperands(); ++i) initMem(a + i * es, s->getOperand(i)); return; }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy((void*)a, r.data(), r.size()); return; }
    u64 v = constInt(c); memcpy((void*)a, &v, std::min<u64>(sz, 8));
}

struct Decoder {
    Func* fn; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bbStart;
    std::vector<std::pair<Edge*, std::pair<const BasicBlock*, const BasicBlock*>>> edges;
    int newConst(const Constant* c) {
        std::vector<u64> v; flattenConst(c, v);
        int b = (int)constPool.size();
        for (u64 x : v) constPool.push_back({x, 0});
        if (v.empty()) constPool.push_back({0, 0});
        return ~b;
    }
    int opnd(const Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) return newConst(c);
        auto it = slot.find(v);
        if (it == slot.end()) return newConst(ConstantInt::get(Type::getInt64Ty(v->getContext()), 0)); // metadata etc.
        return it->second;
    }
    static int comp(int o, int j) { return o >= 0 ? o + j : o - j; }
    Edge* edge(const BasicBlock* from, const BasicBlock* to) { Edge* e = new Edge; edges.push_back({e, {from, to}}); return e; }
    static int aggOffset(Type* t, ArrayRef<unsigned> idx) {
        int off = 0;
        for (unsigned i : idx) {
            if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) off += flatCount(s->getElementType(k)); t = s->getElementType(i); }
            else { auto* a = cast<ArrayType>(t); off += i * flatCount(a->getElementType()); t = a->getElementType(); }
        }
        return off;
    }
    void run(Func* f) {
        fn = f; Function* F = f->F; int ns = 0;
        for (Argument& a : F->args()) { slot[&a] = ns; ns += flatCount(a.getType()); }
        fn->nargs = ns;
        for (BasicBlock& b : *F) for (Instruction& I : b) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += flatCount(I.getType()); }
        fn->nslots = ns + 1;
        for (BasicBlock& b : *F) { bbStart[&b] = (int)fn->ops.size(); for (Instruction& I : b) decode(I); }
        for (auto& e : edges) {
            e.first->target = bbStart.at(e.second.second);
            for (const PHINode& p : e.second.second->phis()) {
                int s = opnd(p.getIncomingValueForBlock(e.second.first)), d = slot[&p], n = flatCount(p.getType());
                for (int j = 0; j < n; ++j) if (comp(s, j) != d + j) e.first->copies.push_back({d + j, comp(s, j)});
            }
        }
        fn->decoded = true;
    }
    Op& add(OpC c, const Instruction& I) { Op o; memset(&o, 0, sizeof o); o.code = c; o.I = &I; o.line = lineKey(&I); o.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; fn->ops.push_back(o); return fn->ops.back(); }
    void unsup(const Instruction& I) { add(O_UNSUP, I); }
    void decode(Instruction& I) {
        if (isa<PHINode>(I)) return;
        if (I.isDebugOrPseudoInst()) return;
        bool vec = I.getType()->isVectorTy(); for (Use& u : I.operands()) if (u->getType()->isVectorTy()) vec = true;
        switch (I.getOpcode()) {
#define BIN(N, C) case Instruction::N: { if (widthOf(I.getType()->getScalarType()) > 64) return unsup(I); int n = flatCount(I.getType()); unsigned w = widthOf(I.getType()->getScalarType()); int x = opnd(I.getOperand(0)), y = opnd(I.getOperand(1)); for (int j = 0; j < n; ++j) { Op& o = add(C, I); o.w = w; o.dst += j; o.a = comp(x, j); o.b = comp(y, j); } return; }
        BIN(Add, O_ADD) BIN(Sub, O_SUB) BIN(Mul, O_MUL) BIN(UDiv, O_UDIV) BIN(SDiv, O_SDIV) BIN(URem, O_UREM) BIN(SRem, O_SREM)
        BIN(And, O_AND) BIN(Or, O_OR) BIN(Xor, O_XOR) BIN(Shl, O_SHL) BIN(LShr, O_LSHR) BIN(AShr, O_ASHR)
        BIN(FAdd, O_FADD) BIN(FSub, O_FSUB) BIN(FMul, O_FMUL) BIN(FDiv, O_FDIV) BIN(FRem, O_FREM)
        case Instruction::FNeg: { Op& o = add(O_FNEG, I); o.w = widthOf(I.getType()); o.a = opnd(I.getOperand(0)); return; }
        case Instruction::ICmp: {
            static const OpC m[] = {O_EQ, O_NE, O_UGT, O_UGE, O_ULT, O_ULE, O_SGT, O_SGE, O_SLT, O_SLE};
            unsigned w = widthOf(I.getOperand(0)->getType()->getScalarType()); if (w > 64 || !w) return unsup(I);
            int n = flatCount(I.getType()), x = opnd(I.getOperand(0)), y = opnd(I.getOperand(1));
            for (int j = 0; j < n; ++j) { Op& o = add(m[cast<ICmpInst>(I).getPredicate() - CmpInst::ICMP_EQ], I); o.w = w; o.dst += j; o.a = comp(x, j); o.b = comp(y, j); } return; }
        case Instruction::FCmp: { if (vec) return unsup(I); Op& o = add(O_FCMP, I); o.w = widthOf(I.getOperand(0)->getType()); if (!o.w) { o.code = O_UNSUP; return; } o.imm = cast<FCmpInst>(I).getPredicate(); o.a = opnd(I.getOperand(0)); o.b = opnd(I.getOperand(1)); return; }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
            unsigned sw = widthOf(I.getOperand(0)->getType()->getScalarType()), dw = widthOf(I.getType()->getScalarType());
            if (sw > 64 || dw > 64) return unsup(I);
            OpC c = I.getOpcode() == Instruction::SExt ? O_SEXT : dw > sw ? O_ZEXT : dw < sw ? O_TRUNC : O_MOV;
            int n = flatCount(I.getType()), x = opnd(I.getOperand(0));
            for (int j = 0; j < n; ++j) { Op& o = add(c, I); o.w = dw; o.w2 = sw; o.dst += j; o.a = comp(x, j); } return; }
        case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
            if (flatCount(I.getType()) != flatCount(I.getOperand(0)->getType())) return unsup(I);
            int n = flatCount(I.getType()), x = opnd(I.getOperand(0)); for (int j = 0; j < n; ++j) { Op& o = add(O_MOV, I); o.dst += j; o.a = comp(x, j); } return; }
#define FC(N, C) case Instruction::N: { if (vec) return unsup(I); Op& o = add(C, I); o.w = widthOf(I.getType()); o.w2 = widthOf(I.getOperand(0)->getType()); if (!o.w || !o.w2) { o.code = O_UNSUP; return; } o.a = opnd(I.getOperand(0)); return; }
        FC(FPToSI, O_FPTOSI) FC(FPToUI, O_FPTOUI) FC(SIToFP, O_SITOFP) FC(UIToFP, O_UITOFP) FC(FPTrunc, O_FPTRUNC) FC(FPExt, O_FPEXT)
        case Instruction::Select: {
            bool vc_ = I.getOperand(0)->getType()->isVectorTy(); int n = flatCount(I.getType()), c0 = opnd(I.getOperand(0)), x = opnd(I.getOperand(1)), y = opnd(I.getOperand(2));
            std::vector<LeafT> lv; flatLeaves(I.getType(), 0, lv);
            for (int j = 0; j < n; ++j) { Op& o = add(O_SELECT, I); o.w = lv[j].bits; o.dst += j; o.a = vc_ ? comp(c0, j) : c0; o.b = comp(x, j); o.c = comp(y, j); } return; }
        case Instruction::GetElementPtr: {
            if (vec) return unsup(I);
            auto& G = cast<GetElementPtrInst>(I); u64 off = 0; auto* terms = new std::vector<GepTerm>;
            for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                Value* ix = gi.getOperand();
                if (StructType* st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue());
                else {
                    i64 sz = (i64)DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sz;
                    else terms->push_back({opnd(ix), widthOf(ix->getType()), sz});
                }
            }
            Op& o = add(O_GEP, I); o.a = opnd(G.getPointerOperand()); o.imm = off; o.gep = terms; o.w = (u8)terms->size(); return; }
        case Instruction::Load: case Instruction::Store: {
            bool ld = I.getOpcode() == Instruction::Load;
            Type* t = ld ? I.getType() : cast<StoreInst>(I).getValueOperand()->getType();
            Value* p = ld ? cast<LoadInst>(I).getPointerOperand() : cast<StoreInst>(I).getPointerOperand();
            std::vector<LeafT> lv; flatLeaves(t, 0, lv); int v = ld ? 0 : opnd(cast<StoreInst>(I).getValueOperand()), pa = opnd(p);
            for (size_t j = 0; j < lv.size(); ++j) {
                unsigned bits = lv[j].bits; if (!bits || bits > 64) { unsup(I); return; }
                Op& o = add(ld ? O_LOAD : O_STORE, I); o.w = bits; o.w2 = (bits + 7) / 8; if (o.w2 == 3) o.w2 = 3; o.imm = lv[j].off; o.a = pa;
                if (ld) o.dst += (int)j; else o.b = comp(v, (int)j);
            }
            return; }
        case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); Op& o = add(O_ALLOCA, I); o.imm = DL->getTypeAllocSize(A.getAllocatedType()); o.a = opnd(A.getArraySize()); o.w2 = (u8)std::min<u64>(A.getAlign().value(), 128); return; }
        case Instruction::Br: { auto& B = cast<BranchInst>(I);
            if (B.isUnconditional()) { Edge* e = edge(I.getParent(), B.getSuccessor(0)); Op& o = add(O_BR, I); o.e1 = e; }
            else { int c = opnd(B.getCondition()); Edge* e = edge(I.getParent(), B.getSuccessor(0)); Edge* g = edge(I.getParent(), B.getSuccessor(1)); Op& o = add(O_CBR, I); o.a = c; o.e1 = e; o.e2 = g; }
            return; }
        case Instruction::Switch: { auto& W = cast<SwitchInst>(I); auto* si = new SwitchInfo; int c = opnd(W.getCondition());
            for (auto& k : W.cases()) si->cases.push_back({k.getCaseValue()->getZExtValue(), edge(I.getParent(), k.getCaseSuccessor())});
            si->def = edge(I.getParent(), W.getDefaultDest()); Op& o = add(O_SWITCH, I); o.a = c; o.w = widthOf(W.getCondition()->getType()); o.sw = si; return; }
        case Instruction::Ret: { auto& R = cast<ReturnInst>(I); int n = 0, v = 0; if (R.getReturnValue()) { n = flatCount(R.getReturnValue()->getType()); v = opnd(R.getReturnValue()); } Op& o = add(O_RET, I); o.a = v; o.b = n; return; }
        case Instruction::Unreachable: add(O_UNREACH, I); return;
        case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); int off = aggOffset(E.getAggregateOperand()->getType(), E.getIndices()); int v = comp(opnd(E.getAggregateOperand()), off), n = flatCount(I.getType()); for (int j = 0; j < n; ++j) { Op& o = add(O_MOV, I); o.dst += j; o.a = comp(v, j); } return; }
        case Instruction::InsertValue: { auto& E = cast<InsertValueInst>(I); int off = aggOffset(I.getType(), E.getIndices()); int n = flatCount(I.getType()), k = flatCount(E.getInsertedValueOperand()->getType()); int ag = opnd(E.getAggregateOperand()), v = opnd(E.getInsertedValueOperand());
            for (int j = 0; j < n; ++j) { Op& o = add(O_MOV, I); o.dst += j; o.a = (j >= off && j < off + k) ? comp(v, j - off) : comp(ag, j); } return; }
        case Instruction::ExtractElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) return unsup(I); int v = comp(opnd(I.getOperand(0)), (int)ci->getZExtValue()); Op& o = add(O_MOV, I); o.a = v; return; }
        case Instruction::InsertElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) return unsup(I); int k = (int)ci->getZExtValue(), n = flatCount(I.getType()), ag = opnd(I.getOperand(0)), v = opnd(I.getOperand(1)); for (int j = 0; j < n; ++j) { Op& o = add(O_MOV, I); o.dst += j; o.a = j == k ? v : comp(ag, j); } return; }
        case Instruction::ShuffleVector: { auto& V = cast<ShuffleVectorInst>(I); int n0 = flatCount(I.getOperand(0)->getType()), n = flatCount(I.getType()), x = opnd(I.getOperand(0)), y = opnd(I.getOperand(1)); for (int j = 0; j < n; ++j) { int k = V.getMaskValue(j); if (k < 0) k = 0; Op& o = add(O_MOV, I); o.dst += j; o.a = k < n0 ? comp(x, k) : comp(y, k - n0); } return; }
        case Instruction::LandingPad: { auto& L = cast<LandingPadInst>(I); auto* li = new LandInfo; li->cleanup = L.isCleanup(); for (unsigned i = 0; i < L.getNumClauses(); ++i) if (L.isCatch(i)) li->catches.push_back(constInt(L.getClause(i))); Op& o = add(O_LANDING, I); o.land = li; return; }
        case Instruction::Resume: { int v = opnd(I.getOperand(0)); Op& o = add(O_RESUME, I); o.a = v; return; }
        case Instruction::Fence: return;
        case Instruction::AtomicRMW: { auto& R = cast<AtomicRMWInst>(I); int p = opnd(R.getPointerOperand()), v = opnd(R.getValOperand()); Op& o = add(O_ATOMICRMW, I); o.w = widthOf(I.getType()); o.a = p; o.b = v; o.imm = R.getOperation(); return; }
        case Instruction::AtomicCmpXchg: { auto& R = cast<AtomicCmpXchgInst>(I); int p = opnd(R.getPointerOperand()), v = opnd(R.getCompareOperand()), n = opnd(R.getNewValOperand()); Op& o = add(O_CMPXCHG, I); o.w = widthOf(R.getCompareOperand()->getType()); o.a = p; o.b = v; o.c = n; return; }
        case Instruction::Call: case Instruction::Invoke: {
            auto& C = cast<CallBase>(I);
            if (C.isInlineAsm()) { if (auto* A = dyn_cast<InlineAsm>(C.getCalledOperand())) if (A->getAsmString().empty()) { if (I.getType()->isVoidTy()) return; } return unsup(I); }
            auto* ci = new CallInfo; ci->nret = flatCount(I.getType()); ci->invoke = isa<InvokeInst>(I);
            Value* cal = C.getCalledOperand()->stripPointerCasts();
            if (auto* al = dyn_cast<GlobalAlias>(cal)) cal = al->getAliasee()->stripPointerCasts();
            if (auto* F = dyn_cast<Function>(cal)) {
                if (F->isIntrinsic()) {
                    ci->builtin = intrinsicBuiltin(F->getIntrinsicID());
                    if (ci->builtin == B_NOP && I.getType()->isVoidTy()) return;
                    if (ci->builtin == B_UNKNOWN || vec) { unsup(I); return; }
                } else { ci->f = funcOf.at(F); ci->builtin = ci->f->builtin; }
            } else { ci->indirect = true; ci->fnOperand = opnd(cal); }
            for (unsigned i = 0; i < C.arg_size(); ++i) {
                Value* v = C.getArgOperand(i); int n = flatCount(v->getType()); if (v->getType()->isMetadataTy()) continue;
                int o = opnd(v); std::vector<LeafT> lv; flatLeaves(v->getType(), 0, lv);
                u64 bv = C.isByValArgument(i) ? (u64)DL->getTypeAllocSize(C.getParamByValType(i)) : 0;
                for (int j = 0; j < n; ++j) { ci->args.push_back(comp(o, j)); ci->byval.push_back(bv); ci->argw.push_back(lv[j].bits); }
            }
            Edge *e = 0, *u = 0;
            if (auto* V = dyn_cast<InvokeInst>(&I)) { e = edge(I.getParent(), V->getNormalDest()); u = edge(I.getParent(), V->getUnwindDest()); }
            ci->normal = e; ci->unwind = u;
            Op& o = add(O_CALL, I); o.call = ci; ci->dst = o.dst; o.w = widthOf(I.getType()); return; }
        default: unsup(I);
        }
    }
};

static void setupProgram() {
    u64 a = ABASE + 4096; int id = 0;
    for (Function& F : *MOD) {
        if (F.isIntrinsic()) continue;
        Func* f = new Func; f->F = &F; f->name = F.getName().str(); f->id = id++; f->addr = a; a += 16; f->vararg = F.isVarArg();
        auto& bt = builtinTable(); auto it = bt.find(f->name);
        if (it != bt.end()) f->builtin = it->second;
        else if (F.isDeclaration()) {
            if (f->name.compare(0, 12, "_ZSt20__thro") == 0 || f->name.find("__throw_") != std::string::npos) f->builtin = B_STDTHROW;
            else if (f->name.compare(0, 6, "_ZNSt8") == 0 && f->name.find("ios_base4Init") != std::string::npos) f->builtin = B_NOP;
            else f->builtin = B_UNKNOWN;
        }
        funcOf[&F] = f; funcByAddr[f->addr] = f; funcs.push_back(f);
    }
    a = (a + 65535) & ~65535ULL;
    for (GlobalVariable& g : MOD->globals()) {
        if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.global_dtors") continue;
        u64 sz = g.hasInitializer() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 256;
        u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16);
        a = (a + al - 1) & ~(al - 1);
        globAddr[&g] = a;
        if (g.getName().starts_with("_ZTI")) tiName[a] = g.getName().str();
        memset(shp(a), 2, sz); allocs[a] = {a, sz, A_GLOBAL, 0, 0};
        a += sz + 32;
    }
    for (GlobalVariable& g : MOD->globals()) if (globAddr.count(&g) && g.hasInitializer()) initMem(globAddr[&g], g.getInitializer());
    globTop = a;
    heapTop = heapStart = ABASE + (4ULL << 30);
    nextStack = ABASE + (48ULL << 30);
    for (Func* f : funcs) if (!f->F->isDeclaration() && !f->builtin) { Decoder d; d.run(f); }
}

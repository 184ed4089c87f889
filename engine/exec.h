// The interpreter loop and the models of external functions. (included by symex.cpp)
static Val* R;
static inline Val& GETR(int i) { return i >= 0 ? R[i] : constPool[~i]; }
static inline Expr* EX(Val v, unsigned w) { return v.e ? v.e : X.mkConst(v.c, w); }
static inline Val VE(Expr* e) { return e->op == E_CONST ? Val{e->c, 0} : Val{0, e}; }
static Thread* mainThread;
static int numThreadsSetting = -1;

static Thread* newThread() {
    Thread* t = new Thread;
    t->regs = (Val*)mmap(0, 256u << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    t->stackLo = nextStack; nextStack += 1u << 28; t->stackHi = nextStack - 4096; t->sp = t->stackHi;
    return t;
}
static u64 allocaMem(u64 size, u64 align) {
    if (align < 16) align = 16;
    u64 a = (T->sp - size - 32) & ~(align - 1);
    if (a < T->stackLo + 4096) violation("memory", "stack overflow (recursion does not end)");
    T->sp = a;
    memset(shp(a), 1, size);
    T->stk[a] = {a, size, A_STACK, 0, 0};
    return a;
}
static void setR() { R = T->regs + T->fr.back().base; }
static void pushFrame(Func* f, Op* callOp, const std::vector<Val>& args, const std::vector<u64>* byval) {
    S->fnUsed[f->id < MAXF ? f->id : 0] = 1;
    Frame fr; fr.f = f; fr.pc = 0; fr.base = T->top; fr.sp = T->sp; fr.callOp = callOp;
    if (T->fr.size() > 20000) violation("memory", "stack overflow (recursion does not end)");
    T->fr.push_back(fr); T->top += f->nslots;
    Val* r = T->regs + fr.base;
    for (size_t i = 0; i < args.size() && i < (size_t)f->nargs; ++i) {
        r[i] = args[i];
        if (byval && i < byval->size() && (*byval)[i]) {
            u64 src = concretize(args[i], 64);
            u64 a = allocaMem((*byval)[i], 16); copyMem(a, src, (*byval)[i]); r[i] = {a, 0};
        }
    }
    R = r;
}
static void popFrame() {
    Frame& fr = T->fr.back();
    if (T->sp != fr.sp) {
        auto end = T->stk.lower_bound(fr.sp);
        for (auto it = T->stk.begin(); it != end; ++it) memset(shp(it->second.base), 0, it->second.size);
        T->stk.erase(T->stk.begin(), end);
        T->sp = fr.sp;
    }
    T->top = fr.base;
    T->fr.pop_back();
}
static inline void takeEdge(Edge* e) {
    size_t n = e->copies.size();
    if (n == 1) R[e->copies[0].first] = GETR(e->copies[0].second);
    else if (n) {
        Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; ++i) t[i] = GETR(e->copies[i].second);
        for (size_t i = 0; i < n; ++i) R[e->copies[i].first] = t[i];
    }
    T->fr.back().pc = e->target;
}
static std::string guestStr(u64 a) {
    std::string r; for (int i = 0; i < 300; ++i) { if (!addressable(a + i, 1)) break; u8 s = *shp(a + i); char c = s == 2 ? *(char*)(a + i) : '?'; if (!c && s == 2) break; r += c; } return r;
}

// ---- exceptions
struct Exc { u64 ti; u64 dtor; int handlers = 0; };
static std::map<u64, Exc> excs;
static std::vector<u64> caughtStack;
static const std::map<std::string, std::string>& stdBase() {
    static const std::map<std::string, std::string> m = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}};
    return m;
}
static bool tiDerives(u64 t, u64 base, int depth = 0) {
    if (t == base) return true;
    if (depth > 8) return false;
    auto it = tiName.find(t); if (it == tiName.end()) return false;
    GlobalVariable* g = MOD->getNamedGlobal(it->second);
    if (g && g->hasInitializer()) {
        if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer())) for (unsigned i = 2; i < cs->getNumOperands(); ++i) if (cs->getOperand(i)->getType()->isPointerTy()) if (tiDerives(constInt(cs->getOperand(i)), base, depth + 1)) return true;
        return false;
    }
    auto b = stdBase().find(it->second); if (b == stdBase().end()) return false;
    if (tiName.count(base) && tiName[base] == b->second) return true;
    GlobalVariable* gb = MOD->getNamedGlobal(b->second);
    if (gb && globAddr.count(gb)) return tiDerives(globAddr[gb], base, depth + 1);
    // base typeinfo not in the module: walk by name
    std::string nm = b->second; for (int i = 0; i < 5; ++i) { if (tiName.count(base) && tiName[base] == nm) return true; auto q = stdBase().find(nm); if (q == stdBase().end()) break; nm = q->second; }
    return false;
}
static u64 mkStdExc(const char* tiSym) {
    u64 p = heapAlloc(64, 9); liveHeap--; 
    memset((void*)p, 0, 64); memset(shp(p), 2, 64);
    u64 ti = 0; if (GlobalVariable* g = MOD->getNamedGlobal(tiSym)) { if (globAddr.count(g)) ti = globAddr[g]; }
    if (!ti) { // synthesise a typeinfo address
        static u64 fake = ABASE + (3ULL << 30); ti = fake; fake += 64; tiName[ti] = tiSym;
    }
    excs[p] = {ti, 0, 0};
    return p;
}
// transfers control to the handler; the current frame is the thrower
static void throwExc(u64 exc) {
    u64 ti = excs[exc].ti;
    // search phase
    int depth = -1; 
    for (int i = (int)T->fr.size() - 1; i >= 0; --i) {
        Frame& fr = T->fr[i];
        if (fr.pc < 0 || fr.pc >= (int)fr.f->ops.size()) continue;
        Op& o = fr.f->ops[fr.pc];
        if (o.code != O_CALL || !o.call->invoke) continue;
        Op& L = fr.f->ops[o.call->unwind->target];
        if (L.code != O_LANDING) continue;
        bool hit = false; for (u64 c : L.land->catches) if (c == 0 || tiDerives(ti, c)) hit = true;
        if (hit) { depth = i; break; }
    }
    if (depth < 0) {
        violation("exception", "uncaught exception " + (tiName.count(ti) ? demangle(tiName[ti]) : std::string("?")));
    }
    // unwind
    for (;;) {
        Frame& fr = T->fr.back(); Op& o = fr.f->ops[fr.pc];
        if (o.code == O_CALL && o.call->invoke) {
            Op& L = fr.f->ops[o.call->unwind->target];
            if (L.code == O_LANDING) {
                u64 sel = 0; bool hit = false; for (u64 c : L.land->catches) if (c == 0 || tiDerives(ti, c)) { hit = true; sel = c ? (c & 0x7fffffff) : 1; break; }
                if (hit || L.land->cleanup) {
                    setR(); takeEdge(o.call->unwind); // pc at landingpad
                    R[L.dst] = {exc, 0}; R[L.dst + 1] = {sel, 0};
                    fr.pc++;
                    return;
                }
            }
        }
        popFrame();
        if (T->fr.empty()) violation("exception", "exception left the program");
        setR();
    }
}

// ---- scheduling
static Val symInput(const std::string& name, unsigned w, u64 lo, u64 hi, bool ranged);
static void switchTo(Thread* t) { if (t != T) { T = t; if (!T->fr.empty()) setR(); } }
static void joinClock(int a, int b) { for (int i = 0; i < 8; ++i) vc[a][i] = std::max(vc[a][i], vc[b][i]); }
static bool runnable(Thread* t) {
    if (t->st == T_RUN) return true;
    if (t->st == T_CRIT) { auto it = critOwner.find(t->critAddr); return it == critOwner.end() || !it->second; }
    return false;
}
// pick the next thread of the team.  The base schedule stays with the current thread (base 0)
// or moves to the next one (base 1); up to optDelays times another choice is taken, and the
// path forks over all of them.
static int schedDelays = 0;
static Thread* pick(Team* tm) {
    std::vector<Thread*> c; int n = tm->n, from = (T->team == tm ? T->tid : 0) + (optBase == 1 ? 1 : 0);
    for (int i = 0; i < n; ++i) { Thread* t = tm->th[(from + i) % n]; if (runnable(t)) c.push_back(t); }
    if (c.empty()) violation("deadlock", "no runnable thread");
    size_t k = 0;
    if (c.size() > 1) {
        if (schedDelays < optDelays) {
            Val v = symInput("sched", 8, 0, c.size() - 1, true);
            k = concretize(v, 8); if (k >= c.size()) k = 0;
            if (k) schedDelays++;
        } else S->schedTrunc = 1;
    }
    c[k]->st = T_RUN; c[k]->justPicked = true;
    return c[k];
}
// returns true when the current thread may go on, false when the op must be retried later
static bool schedPoint() {
    Team* tm = T->team; if (!tm || tm->n < 2) return true;
    if (T->justPicked) { T->justPicked = false; return true; }
    Thread* cur = T; Thread* nx = pick(tm);
    if (nx == cur) { T->justPicked = false; return true; }
    switchTo(nx);
    return false;
}
static void leaveToOther(Team* tm) { switchTo(pick(tm)); }
// barrier: returns true if passed (retry protocol via T->st)
static void barrierArrive(Team* tm) { // current thread arrives; its pc is already behind the call
    if (tm->n < 2) return;
    T->st = T_BARRIER; tm->arrived++;
    int alive = 0; for (Thread* t : tm->th) if (t->st != T_DONE) alive++;
    if (tm->arrived == alive) {
        tm->arrived = 0; u32 m[8] = {};
        for (Thread* t : tm->th) for (int i = 0; i < 8; ++i) m[i] = std::max(m[i], vc[t->tid][i]);
        for (Thread* t : tm->th) { if (t->st == T_BARRIER) t->st = T_RUN; memcpy(vc[t->tid], m, sizeof m); vc[t->tid][t->tid]++; t->justPicked = false; }
    }
    leaveToOther(tm);
    T->justPicked = false;
}

static void callFunction(Func* f, Op* o, std::vector<Val>& args, CallInfo* ci);
static int builtinCall(int b, Op* o, CallInfo* ci, std::vector<Val>& a, Func* f); // 0 done (advance pc), 1 control transferred, 2 retry

static Val symInput(const std::string& name, unsigned w, u64 lo, u64 hi, bool ranged) {
    if (concreteMode) {
        u64 v = lo;
        if (concretePos < concreteInputs.size()) v = concreteInputs[concretePos].second; // raw offset
        concretePos++;
        if (ranged) { u64 off = v; inputs.push_back({name, 0, off}); return {(lo + off) & maskw(w), 0}; }
        inputs.push_back({name, 0, v & maskw(w)});
        return {v & maskw(w), 0};
    }
    if (!ranged) { Expr* e = X.mkVar(name, w); inputs.push_back({name, e, 0}); return {0, e}; }
    u64 span = (hi - lo) & maskw(w);
    if (span == 0) { inputs.push_back({name, 0, 0}); return {lo & maskw(w), 0}; }
    unsigned bits = 64 - __builtin_clzll(span);
    Expr* v = X.mkVar(name, bits); inputs.push_back({name, v, 0});
    if (span != maskw(bits)) addPc(X.bin(E_ULE, v, X.mkConst(span, bits)));
    Expr* e = X.bin(E_ADD, X.mkZext(v, w), X.mkConst(lo, w));
    return {0, e};
}

static double asD(u64 v, unsigned w) { if (w == 32) { float f; u32 u = (u32)v; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 u; memcpy(&u, &f, 4); return u; } u64 v; memcpy(&v, &d, 8); return v; }

static void symBinary(Op& o, Val a, Val b) {
    static const EOp m[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};
    Expr *x = EX(a, o.w), *y = EX(b, o.w);
    if (o.code >= O_UDIV && o.code <= O_SREM) {
        if (decide(X.bin(E_EQ, y, X.mkConst(0, o.w)))) violation("arith", "division by zero");
    }
    R[o.dst] = VE(X.bin(m[o.code - O_ADD], x, y));
}
static Expr* symCmp(OpC c, Expr* x, Expr* y) {
    switch (c) {
    case O_EQ: return X.bin(E_EQ, x, y);
    case O_NE: return X.mkNot(X.bin(E_EQ, x, y));
    case O_ULT: return X.bin(E_ULT, x, y);
    case O_ULE: return X.bin(E_ULE, x, y);
    case O_UGT: return X.bin(E_ULT, y, x);
    case O_UGE: return X.bin(E_ULE, y, x);
    case O_SLT: return X.bin(E_SLT, x, y);
    case O_SLE: return X.bin(E_SLE, x, y);
    case O_SGT: return X.bin(E_SLT, y, x);
    default: return X.bin(E_SLE, y, x);
    }
}

static bool finished = false;
static void loop(size_t stopDepth) {
    for (;;) {
        Frame& fr = T->fr.back();
        Op& o = fr.f->ops[fr.pc];
        S->lineHit[o.line] = 1;
        if ((++instrCount & 0xffff) == 0) {
            if (instrCount > maxInstr) violation("nontermination", "path exceeds " + std::to_string(maxInstr) + " instructions");
            if (now() > deadline) { S->stop = 1; }
            if (S->stop) endPath("truncated");
        }
        switch (o.code) {
#define ARITH(C, EXPR) case C: { Val a = GETR(o.a), b = GETR(o.b); if (!(a.e || b.e)) { u64 x = a.c, y = b.c; (void)x; (void)y; R[o.dst] = {(u64)(EXPR) & maskw(o.w), 0}; } else symBinary(o, a, b); fr.pc++; break; }
        ARITH(O_ADD, x + y) ARITH(O_SUB, x - y) ARITH(O_MUL, x * y) ARITH(O_AND, x & y) ARITH(O_OR, x | y) ARITH(O_XOR, x ^ y)
        ARITH(O_SHL, y >= o.w ? 0 : x << y) ARITH(O_LSHR, y >= o.w ? 0 : x >> y) ARITH(O_ASHR, y >= o.w ? (sx(x, o.w) < 0 ? ~0ULL : 0) : (u64)(sx(x, o.w) >> y))
#define DIVOP(C, E) case C: { Val a = GETR(o.a), b = GETR(o.b); if (!(a.e || b.e)) { if (!b.c) violation("arith", "division by zero"); R[o.dst] = {ExprPool::fold(E, o.w, a.c, b.c), 0}; } else symBinary(o, a, b); fr.pc++; break; }
        DIVOP(O_UDIV, E_UDIV) DIVOP(O_SDIV, E_SDIV) DIVOP(O_UREM, E_UREM) DIVOP(O_SREM, E_SREM)
#define CMPOP(C, EXPR) case C: { Val a = GETR(o.a), b = GETR(o.b); if (!(a.e || b.e)) { u64 x = a.c, y = b.c; R[o.dst] = {(u64)(EXPR), 0}; } else R[o.dst] = VE(symCmp(o.code, EX(a, o.w), EX(b, o.w))); fr.pc++; break; }
        CMPOP(O_EQ, x == y) CMPOP(O_NE, x != y) CMPOP(O_ULT, x < y) CMPOP(O_ULE, x <= y) CMPOP(O_UGT, x > y) CMPOP(O_UGE, x >= y)
        CMPOP(O_SLT, sx(x, o.w) < sx(y, o.w)) CMPOP(O_SLE, sx(x, o.w) <= sx(y, o.w)) CMPOP(O_SGT, sx(x, o.w) > sx(y, o.w)) CMPOP(O_SGE, sx(x, o.w) >= sx(y, o.w))
        case O_ZEXT: { Val a = GETR(o.a); R[o.dst] = a.e ? VE(X.mkZext(a.e, o.w)) : a; fr.pc++; break; }
        case O_SEXT: { Val a = GETR(o.a); R[o.dst] = a.e ? VE(X.mkSext(a.e, o.w)) : Val{(u64)sx(a.c, o.w2) & maskw(o.w), 0}; fr.pc++; break; }
        case O_TRUNC: { Val a = GETR(o.a); R[o.dst] = a.e ? VE(X.mkExtract(a.e, 0, o.w)) : Val{a.c & maskw(o.w), 0}; fr.pc++; break; }
        case O_MOV: R[o.dst] = GETR(o.a); fr.pc++; break;
        case O_SELECT: { Val c = GETR(o.a); if (!c.e) R[o.dst] = c.c ? GETR(o.b) : GETR(o.c); else { Val x = GETR(o.b), y = GETR(o.c); R[o.dst] = VE(X.mkIte(c.e, EX(x, o.w), EX(y, o.w))); } fr.pc++; break; }
        case O_GEP: {
            Val p = GETR(o.a); u64 add = o.imm; Expr* se = 0;
            for (GepTerm& t : *o.gep) {
                Val v = GETR(t.idx);
                if (!v.e) add += (u64)(sx(v.c, t.w) * t.scale);
                else { Expr* q = X.bin(E_MUL, X.mkSext(v.e, 64), X.mkConst((u64)t.scale, 64)); se = se ? X.bin(E_ADD, se, q) : q; }
            }
            if (!p.e && !se) R[o.dst] = {p.c + add, 0};
            else {
                Expr* b = p.e ? X.bin(E_ADD, p.e, X.mkConst(add, 64)) : X.mkConst(p.c + add, 64);
                R[o.dst] = VE(se ? X.bin(E_ADD, se, b) : b);
            }
            fr.pc++; break; }
        case O_LOAD: {
            Val p = GETR(o.a);
            if (o.imm) p = p.e ? VE(X.bin(E_ADD, p.e, X.mkConst(o.imm, 64))) : Val{p.c + o.imm, 0};
            Val v = loadAny(p, o.w2);
            if (optCheckRace && inParallel && !p.e) raceAccess(p.c, o.w2, false);
            if (o.w != o.w2 * 8u) v = v.e ? VE(X.mkExtract(v.e, 0, o.w)) : Val{v.c & maskw(o.w), 0};
            R[o.dst] = v; fr.pc++; break; }
        case O_STORE: {
            Val p = GETR(o.a), v = GETR(o.b);
            if (o.imm) p = p.e ? VE(X.bin(E_ADD, p.e, X.mkConst(o.imm, 64))) : Val{p.c + o.imm, 0};
            if (v.e && o.w != o.w2 * 8u) v = VE(X.mkZext(v.e, o.w2 * 8));
            storeAny(p, o.w2, v);
            if (optCheckRace && inParallel && !p.e) raceAccess(p.c, o.w2, true);
            fr.pc++; break; }
        case O_ALLOCA: { u64 n = concretize(GETR(o.a), 64); R[o.dst] = {allocaMem(o.imm * n ? o.imm * n : 1, o.w2), 0}; fr.pc++; break; }
        case O_BR: takeEdge(o.e1); break;
        case O_CBR: { Val c = GETR(o.a); bool v = c.e ? decide(c.e) : (c.c & 1); takeEdge(v ? o.e1 : o.e2); break; }
        case O_SWITCH: {
            Val c = GETR(o.a); Edge* e = o.sw->def;
            if (!c.e) { for (auto& k : o.sw->cases) if (k.first == c.c) { e = k.second; break; } }
            else for (auto& k : o.sw->cases) if (decide(X.bin(E_EQ, c.e, X.mkConst(k.first, o.w)))) { e = k.second; break; }
            takeEdge(e); break; }
        case O_RET: {
            Val rv[64]; std::vector<Val> big; int n = o.b; Val* rp = rv; if (n > 64) { big.resize(n); rp = big.data(); }
            for (int i = 0; i < n; ++i) rp[i] = GETR(o.a >= 0 ? o.a + i : o.a - i);
            Op* co = fr.callOp;
            popFrame();
            if (T->fr.size() == stopDepth && T == mainThread) return;
            if (T->fr.empty()) { // worker finished its region
                Team* tm = T->team; Thread* me = T; me->st = T_DONE;
                bool all = true; for (Thread* t : tm->th) if (t->st != T_DONE) all = false;
                if (all) {
                    Thread* m = tm->master; u32 mx[8] = {};
                    for (Thread* t : tm->th) for (int i = 0; i < 8; ++i) mx[i] = std::max(mx[i], vc[t->tid][i]);
                    memcpy(vc[0], mx, sizeof mx);
                    inParallel = false; raceMap.clear();
                    for (Thread* t : tm->th) { munmap(t->regs, 256u << 20); nextStack = std::min(nextStack, t->stackLo); delete t; }
                    delete tm; T = m; m->st = T_RUN; setR(); T->fr.back().pc++;
                } else {
                    // a thread waiting at a barrier that can never complete?
                    int alive = 0; for (Thread* t : tm->th) if (t->st != T_DONE) alive++;
                    if (tm->arrived && tm->arrived == alive) violation("deadlock", "threads wait at a barrier others do not reach");
                    leaveToOther(tm); T->justPicked = false;
                }
                break;
            }
            setR();
            if (co) {
                CallInfo* ci = co->call;
                for (int i = 0; i < n && i < ci->nret; ++i) R[ci->dst + i] = rp[i];
                if (ci->invoke) takeEdge(ci->normal); else T->fr.back().pc++;
            }
            break; }
        case O_CALL: {
            CallInfo* ci = o.call; Func* f = ci->f; int b = ci->builtin;
            std::vector<Val> args(ci->args.size());
            for (size_t i = 0; i < args.size(); ++i) args[i] = GETR(ci->args[i]);
            if (ci->indirect) {
                u64 a = concretize(GETR(ci->fnOperand), 64);
                auto it = funcByAddr.find(a);
                if (it == funcByAddr.end()) violation("memory", "call through an invalid function pointer");
                f = it->second; b = f->builtin;
            }
            if (!b) { 
                if (f->vararg) unsupported("call of variadic function " + f->name);
                pushFrame(f, &o, args, &ci->byval); break; }
            int r = builtinCall(b, &o, ci, args, f);
            if (r == 0) { if (ci->invoke) takeEdge(ci->normal); else T->fr.back().pc++; }
            break; }
        case O_UNREACH: violation("unreachable", "execution reached a point the compiler considers impossible (undefined behaviour)");
        case O_LANDING: fr.pc++; break;
        case O_RESUME: { u64 e = concretize(GETR(o.a), 64); popFrame(); if (T->fr.empty()) violation("exception", "exception left the program"); setR(); throwExc(e); break; }
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: {
            double x = asD(concretize(GETR(o.a), o.w), o.w), y = asD(concretize(GETR(o.b), o.w), o.w), z;
            switch (o.code) { case O_FADD: z = x + y; break; case O_FSUB: z = x - y; break; case O_FMUL: z = x * y; break; case O_FDIV: z = x / y; break; default: z = fmod(x, y); }
            R[o.dst] = {fromD(z, o.w), 0}; fr.pc++; break; }
        case O_FNEG: R[o.dst] = {fromD(-asD(concretize(GETR(o.a), o.w), o.w), o.w), 0}; fr.pc++; break;
        case O_FCMP: {
            double x = asD(concretize(GETR(o.a), o.w), o.w), y = asD(concretize(GETR(o.b), o.w), o.w); bool un = x != x || y != y, r = false;
            switch ((int)o.imm) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; }
            R[o.dst] = {(u64)r, 0}; fr.pc++; break; }
        case O_FPTOSI: { double x = asD(concretize(GETR(o.a), o.w2), o.w2); R[o.dst] = {(u64)(i64)x & maskw(o.w), 0}; fr.pc++; break; }
        case O_FPTOUI: { double x = asD(concretize(GETR(o.a), o.w2), o.w2); R[o.dst] = {(x >= 9.2233720368547758e18 ? (u64)x : (u64)(i64)x) & maskw(o.w), 0}; fr.pc++; break; }
        case O_SITOFP: { u64 x = concretize(GETR(o.a), o.w2); R[o.dst] = {fromD((double)sx(x, o.w2), o.w), 0}; fr.pc++; break; }
        case O_UITOFP: { u64 x = concretize(GETR(o.a), o.w2); R[o.dst] = {fromD((double)x, o.w), 0}; fr.pc++; break; }
        case O_FPTRUNC: case O_FPEXT: { double x = asD(concretize(GETR(o.a), o.w2), o.w2); R[o.dst] = {fromD(x, o.w), 0}; fr.pc++; break; }
        case O_ATOMICRMW: {
            Val p = GETR(o.a), v = GETR(o.b); unsigned n = (o.w + 7) / 8; Val old = loadAny(p, n); Expr *x = EX(old, o.w), *y = EX(v, o.w), *r;
            switch ((int)o.imm) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = X.bin(E_ADD, x, y); break; case AtomicRMWInst::Sub: r = X.bin(E_SUB, x, y); break; case AtomicRMWInst::And: r = X.bin(E_AND, x, y); break; case AtomicRMWInst::Or: r = X.bin(E_OR, x, y); break; case AtomicRMWInst::Xor: r = X.bin(E_XOR, x, y); break; default: unsupported("atomicrmw"); }
            storeAny(p, n, VE(r)); R[o.dst] = old; fr.pc++; break; }
        case O_CMPXCHG: {
            Val p = GETR(o.a); unsigned n = (o.w + 7) / 8; Val old = loadAny(p, n); Expr* eq = X.bin(E_EQ, EX(old, o.w), EX(GETR(o.b), o.w)); bool s = decide(eq);
            if (s) storeAny(p, n, GETR(o.c)); R[o.dst] = old; R[o.dst + 1] = {(u64)s, 0}; fr.pc++; break; }
        default: {
            std::string s; raw_string_ostream os(s); if (o.I) os << *o.I; os.flush(); unsupported("instruction" + s.substr(0, 80)); }
        }
    }
}

static void runFunction(Func* f) { std::vector<Val> none; size_t d = T->fr.size(); pushFrame(f, 0, none, 0); loop(d); if (!T->fr.empty()) setR(); }
static void runProgram(Func* entry) {
    mainThread = T = newThread(); T->tid = 0;
    if (GlobalVariable* g = MOD->getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) {
        std::vector<std::pair<u64, Function*>> v;
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) { auto* cs = cast<ConstantStruct>(ca->getOperand(i)); if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& p : v) runFunction(funcOf[p.second]);
    }
    runFunction(entry);
}

static Val ovf(EOp op, bool sgn, Expr* x, Expr* y, unsigned w, Val& flag) {
    // computes op in 2w bits when possible
    Expr* r = X.bin(op, x, y);
    if (w <= 32) {
        unsigned w2 = w * 2; Expr* a = sgn ? X.mkSext(x, w2) : X.mkZext(x, w2); Expr* b = sgn ? X.mkSext(y, w2) : X.mkZext(y, w2); Expr* q = X.bin(op, a, b);
        Expr* back = sgn ? X.mkSext(r, w2) : X.mkZext(r, w2);
        flag = VE(X.mkNot(X.bin(E_EQ, q, back)));
    } else {
        Expr* z = X.mkConst(0, w);
        if (op == E_ADD && !sgn) flag = VE(X.bin(E_ULT, r, x));
        else if (op == E_SUB && !sgn) flag = VE(X.bin(E_ULT, x, y));
        else if (op == E_ADD) flag = VE(X.bin(E_AND, X.bin(E_EQ, X.bin(E_SLT, x, z), X.bin(E_SLT, y, z)), X.mkNot(X.bin(E_EQ, X.bin(E_SLT, x, z), X.bin(E_SLT, r, z)))));
        else if (op == E_SUB) flag = VE(X.bin(E_AND, X.mkNot(X.bin(E_EQ, X.bin(E_SLT, x, z), X.bin(E_SLT, y, z))), X.mkNot(X.bin(E_EQ, X.bin(E_SLT, x, z), X.bin(E_SLT, r, z)))));
        else { // 64-bit multiplication
            if (x->op == E_CONST && y->op == E_CONST) { bool f; if (sgn) { i64 t; f = __builtin_mul_overflow((i64)x->c, (i64)y->c, &t); } else { u64 t; f = __builtin_mul_overflow(x->c, y->c, &t); } flag = {f, 0}; }
            else { Expr* c = y->op == E_CONST ? y : x->op == E_CONST ? x : 0; Expr* v = c == y ? x : y;
                if (!c || sgn) { Val vv{0, x}, vy{0, y}; u64 cx = x->op == E_CONST ? x->c : concretize(vv, w), cy = y->op == E_CONST ? y->c : concretize(vy, w); bool f; if (sgn) { i64 t; f = __builtin_mul_overflow((i64)cx, (i64)cy, &t); } else { u64 t; f = __builtin_mul_overflow(cx, cy, &t); } flag = {f, 0}; return {cx * cy, 0}; }
                flag = VE(c->c ? X.bin(E_ULT, X.mkConst(maskw(w) / c->c, w), v) : X.mkConst(0, 1)); }
        }
    }
    return VE(r);
}

static void threadNum() {}
static Team soloTeam;
static void makeTeam(Op* o, CallInfo* ci, std::vector<Val>& a) {
    Func* mt = funcByAddr.at(concretize(a[2], 64));
    int n = numThreadsSetting > 0 ? numThreadsSetting : optThreads; if (n > 7) n = 7;
    if (T->team && T->team->n > 1) n = 1; // nested parallelism is off
    Team* tm = new Team; tm->n = n; tm->master = T; Thread* m = T;
    if (n == 1) { // run in place
        u64 g = heapAlloc(8, 8); liveHeap--; storeC(g, 4, {(u64)m->tid, 0}); storeC(g + 4, 4, {0, 0});
        std::vector<Val> args = {{g, 0}, {g + 4, 0}}; for (size_t i = 3; i < a.size(); ++i) args.push_back(a[i]);
        delete tm; pushFrame(mt, o, args, 0); return;
    }
    vcN = n; for (int i = 1; i < n; ++i) memcpy(vc[i], vc[0], sizeof vc[0]);
    for (int i = 0; i < n; ++i) vc[i][i]++;
    for (int i = 0; i < n; ++i) {
        Thread* t = newThread(); t->tid = i; t->team = tm; t->parent = m; tm->th.push_back(t);
        T = t; u64 g = heapAlloc(8, 8); liveHeap--; storeC(g, 4, {(u64)i, 0}); storeC(g + 4, 4, {(u64)i, 0});
        std::vector<Val> args = {{g, 0}, {g + 4, 0}}; for (size_t k = 3; k < a.size(); ++k) args.push_back(a[k]);
        pushFrame(mt, 0, args, 0);
    }
    T = m; inParallel = true; raceMap.clear();
    Thread* first = pick(tm); first->justPicked = false; switchTo(first); setR();
}

static int builtinCall(int b, Op* o, CallInfo* ci, std::vector<Val>& a, Func* f) {
    auto ret = [&](Val v) { if (ci->dst >= 0) R[ci->dst] = v; };
    auto C = [&](int i) { return concretize(a[i], ci->argw[i]); };
    unsigned w = o->w;
    switch (b) {
    case B_NOP: if (ci->nret) for (int i = 0; i < ci->nret; ++i) R[ci->dst + i] = {0, 0}; return 0;
    case B_RET0: ret({0, 0}); return 0;
    case B_SYM: { u64 nm = C(0); unsigned bits = (unsigned)C(1); Val v = symInput(guestStr(nm), bits, 0, 0, false); ret(v.e ? VE(X.mkZext(v.e, 64)) : v); return 0; }
    case B_SYMRANGE: { u64 nm = C(0); u64 lo = C(1), hi = C(2); if ((i64)lo > (i64)hi) endPath("pruned"); ret(symInput(guestStr(nm), 64, lo, hi, true)); return 0; }
    case B_ASSUME: assume(a[0].e ? X.mkNot(X.bin(E_EQ, a[0].e, X.mkConst(0, a[0].e->w))) : X.mkConst(a[0].c != 0, 1)); return 0;
    case B_CHECK: {
        S->checks++;
        Expr* c = a[0].e ? X.mkNot(X.bin(E_EQ, a[0].e, X.mkConst(0, a[0].e->w))) : X.mkConst(a[0].c != 0, 1);
        if (c->op == E_CONST) { if (!c->c) violation("check", guestStr(C(1))); return 0; }
        S->checksSym++;
        int r = query(X.mkNot(c));
        if (r == 1) { std::string m = guestStr(C(1)); if (c->uninit) m += " (depends on a value that was never written)"; violation(c->uninit ? "uninit-check" : "check", m); }
        if (r < 0) { S->truncated++; }
        addPc(c);
        return 0; }
    case B_CONCRETIZE: ret({C(0), 0}); return 0;
    case B_COVER: bumpLabel(S->labels, MAXL, guestStr(C(0)).c_str()); return 0;
    case B_PARAM: { auto it = optParams.find(guestStr(C(0))); ret(it == optParams.end() ? a[1] : Val{(u64)it->second, 0}); return 0; }
    case B_LIVE: ret({liveHeap, 0}); return 0;
    case B_ISSYM: ret({(u64)(a[0].e != 0), 0}); return 0;
    case B_ENGINE: ret({1, 0}); return 0;
    case B_FORKMIN: endPath("pruned");
    case B_TRACE: { u64 v = a[1].e ? X.eval(a[1].e) : a[1].c; if (optVerbose) fprintf(stderr, "[%d] %s %lld%s\n", getpid(), guestStr(C(0)).c_str(), (long long)v, a[1].e ? " (sym)" : ""); return 0; }
    case B_MALLOC: case B_NEW: case B_NEWA: ret({heapAlloc(C(0), b == B_MALLOC ? 1 : b == B_NEW ? 2 : 3), 0}); return 0;
    case B_CALLOC: { u64 n = C(0) * C(1); u64 p = heapAlloc(n, 1); memset((void*)p, 0, n); memset(shp(p), 2, n); ret({p, 0}); return 0; }
    case B_REALLOC: { u64 p = C(0), n = C(1); u64 q = heapAlloc(n, 1); if (p) { auto it = allocs.find(p); if (it == allocs.end() || it->second.kind != A_HEAP) violation("memory", "realloc of an invalid pointer"); copyMem(q, p, std::min(n, it->second.size)); heapFree(p, 1); } ret({q, 0}); return 0; }
    case B_POSIXMEMALIGN: { u64 q = heapAlloc(C(2), 1); storeC(C(0), 8, {q, 0}); ret({0, 0}); return 0; }
    case B_FREE: heapFree(C(0), 1); return 0;
    case B_DELETE: heapFree(C(0), 2); return 0;
    case B_DELETEA: heapFree(C(0), 3); return 0;
    case B_MEMCPY: { u64 d = C(0), s = C(1), n = C(2); copyMem(d, s, n); if (optCheckRace && inParallel) { raceAccess(s, n, false); raceAccess(d, n, true); } ret({d, 0}); return 0; }
    case B_MEMSET: { u64 d = C(0), n = C(2); checkRange(d, n, "write"); if (!a[1].e) { memset((void*)d, (int)a[1].c, n); memset(shp(d), 2, n); } else { Expr* e = X.mkExtract(a[1].e, 0, 8); for (u64 i = 0; i < n; ++i) symMem[d + i] = {e, 0}; memset(shp(d), 3, n); } if (optCheckRace && inParallel) raceAccess(d, n, true); ret({d, 0}); return 0; }
    case B_ABORT: violation("abort", "abort() called");
    case B_EXIT: violation("abort", "exit() called");
    case B_TERMINATE: violation("abort", "std::terminate() called");
    case B_ASSERTFAIL: violation("assert", "assertion failed: " + guestStr(C(0)) + " at " + guestStr(C(1)) + ":" + std::to_string(C(2)));
    case B_CXA_ALLOC: { u64 p = heapAlloc(C(0), 9); liveHeap--; excs[p] = {0, 0, 0}; ret({p, 0}); return 0; }
    case B_CXA_FREE: { u64 p = C(0); liveHeap++; heapFree(p, 9); return 0; }
    case B_CXA_THROW: { u64 p = C(0); excs[p].ti = C(1); excs[p].dtor = C(2); throwExc(p); return 1; }
    case B_CXA_BEGIN: { u64 p = C(0); caughtStack.push_back(p); ret({p, 0}); return 0; }
    case B_CXA_END: { if (!caughtStack.empty()) caughtStack.pop_back(); return 0; }
    case B_CXA_RETHROW: { if (caughtStack.empty()) violation("abort", "rethrow without exception"); u64 p = caughtStack.back(); throwExc(p); return 1; }
    case B_STDTHROW: {
        const std::string& n = f->name; const char* ti = "_ZTISt11logic_error";
        if (n.find("out_of_range") != std::string::npos) ti = "_ZTISt12out_of_range"; else if (n.find("length_error") != std::string::npos) ti = "_ZTISt12length_error"; else if (n.find("bad_alloc") != std::string::npos || n.find("bad_array") != std::string::npos) ti = "_ZTISt9bad_alloc"; else if (n.find("invalid_argument") != std::string::npos) ti = "_ZTISt16invalid_argument"; else if (n.find("runtime_error") != std::string::npos) ti = "_ZTISt13runtime_error";
        throwExc(mkStdExc(ti)); return 1; }
    case B_GUARD_ACQ: { u64 g = C(0); Val v = loadC(g, 1); ret({(u64)((v.c & 1) == 0), 0}); return 0; }
    case B_GUARD_REL: storeC(C(0), 1, {1, 0}); return 0;
    case B_TYPEID: ret({C(0) ? C(0) & 0x7fffffff : 1, 0}); return 0;
    case B_DYNCAST: unsupported("dynamic_cast");
#define MATH(B_, EXPR) case B_: { double x = asD(C(0), ci->argw[0]); (void)x; ret({fromD(EXPR, ci->argw[0]), 0}); return 0; }
    MATH(B_LOG2, log2(x)) MATH(B_LOG, log(x)) MATH(B_CEIL, ceil(x)) MATH(B_FLOOR, floor(x)) MATH(B_SQRT, sqrt(x)) MATH(B_FABS, fabs(x)) MATH(B_EXP, exp(x)) MATH(B_LOG10, log10(x)) MATH(B_POW, pow(x, asD(C(1), ci->argw[1])))
    case B_FMULADD: { unsigned fw = ci->argw[0]; ret({fromD(asD(C(0), fw) * asD(C(1), fw) + asD(C(2), fw), fw), 0}); return 0; }
#define OVF(B_, OP, SG) case B_: { unsigned ww = ci->argw[0]; Val fl; Val r = ovf(OP, SG, EX(a[0], ww), EX(a[1], ww), ww, fl); R[ci->dst] = r; R[ci->dst + 1] = fl; return 0; }
    OVF(B_UMULO, E_MUL, false) OVF(B_SMULO, E_MUL, true) OVF(B_UADDO, E_ADD, false) OVF(B_SADDO, E_ADD, true) OVF(B_USUBO, E_SUB, false) OVF(B_SSUBO, E_SUB, true)
#define MM(B_, OP, SWAP) case B_: { Expr *x = EX(a[0], w), *y = EX(a[1], w); ret(VE(X.mkIte(X.bin(OP, x, y), SWAP ? y : x, SWAP ? x : y))); return 0; }
    MM(B_UMIN, E_ULT, false) MM(B_UMAX, E_ULT, true) MM(B_SMIN, E_SLT, false) MM(B_SMAX, E_SLT, true)
    case B_ABSI: { Expr* x = EX(a[0], w); ret(VE(X.mkIte(X.bin(E_SLT, x, X.mkConst(0, w)), X.bin(E_SUB, X.mkConst(0, w), x), x))); return 0; }
    case B_CTPOP: { if (!a[0].e) { ret({(u64)__builtin_popcountll(a[0].c), 0}); return 0; } Expr* s = X.mkConst(0, w); for (unsigned i = 0; i < w; ++i) s = X.bin(E_ADD, s, X.mkZext(X.mkExtract(a[0].e, i, 1), w)); ret(VE(s)); return 0; }
    case B_CTLZ: { Expr* x = EX(a[0], w); Expr* r = X.mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = X.mkIte(X.mkExtract(x, i, 1), X.mkConst(w - 1 - i, w), r); ret(VE(r)); return 0; }
    case B_CTTZ: { Expr* x = EX(a[0], w); Expr* r = X.mkConst(w, w); for (int i = (int)w - 1; i >= 0; --i) r = X.mkIte(X.mkExtract(x, i, 1), X.mkConst(i, w), r); ret(VE(r)); return 0; }
    case B_FSHL: case B_FSHR: { Expr *x = EX(a[0], w), *y = EX(a[1], w), *s = X.bin(E_UREM, EX(a[2], w), X.mkConst(w, w)); Expr* t = X.bin(E_SUB, X.mkConst(w, w), s); Expr* z = X.bin(E_EQ, s, X.mkConst(0, w));
        Expr* r = b == B_FSHL ? X.mkIte(z, x, X.bin(E_OR, X.bin(E_SHL, x, s), X.bin(E_LSHR, y, t))) : X.mkIte(z, y, X.bin(E_OR, X.bin(E_SHL, x, t), X.bin(E_LSHR, y, s))); ret(VE(r)); return 0; }
    case B_BSWAP: { Expr* x = EX(a[0], w); Expr* r = X.mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = X.mkConcat(r, X.mkExtract(x, i, 8)); ret(VE(r)); return 0; }
    case B_UADDSAT: { Expr *x = EX(a[0], w), *y = EX(a[1], w), *r = X.bin(E_ADD, x, y); ret(VE(X.mkIte(X.bin(E_ULT, r, x), X.mkConst(maskw(w), w), r))); return 0; }
    case B_USUBSAT: { Expr *x = EX(a[0], w), *y = EX(a[1], w); ret(VE(X.mkIte(X.bin(E_ULT, x, y), X.mkConst(0, w), X.bin(E_SUB, x, y)))); return 0; }
    case B_EXPECT: ret(a[0]); return 0;
    case B_OBJSIZE: ret({maskw(w), 0}); return 0;
    case B_ISCONST: ret({0, 0}); return 0;
    case B_STACKSAVE: ret({0, 0}); return 0;
    case B_GETRUSAGE: { u64 p = C(1); checkRange(p, sizeof(struct rusage), "write"); memset((void*)p, 0, sizeof(struct rusage)); memset(shp(p), 2, sizeof(struct rusage)); ret({0, 0}); return 0; }
    case B_RAND: { Val v = symInput("rand", 8, 0, 0, false); ret(v.e ? VE(X.mkZext(v.e, 32)) : v); return 0; }
    // ---- OpenMP
    case B_KMPC_GTID: case B_OMP_TID: ret({(u64)(T->team ? T->tid : 0), 0}); return 0;
    case B_OMP_MAX: ret({(u64)(numThreadsSetting > 0 ? numThreadsSetting : optThreads), 0}); return 0;
    case B_OMP_NUM: ret({(u64)(T->team ? T->team->n : 1), 0}); return 0;
    case B_OMP_INPAR: ret({(u64)(T->team != 0), 0}); return 0;
    case B_OMP_SETNUM: numThreadsSetting = (int)C(0); return 0;
    case B_KMPC_PUSHNUM: case B_KMPC_DISPFINI: case B_KMPC_STATICFINI: case B_KMPC_SERIAL: return 0;
    case B_KMPC_FORK: makeTeam(o, ci, a); return 1;
    case B_KMPC_STATIC4: case B_KMPC_STATIC4U: case B_KMPC_STATIC8: case B_KMPC_STATIC8U: {
        unsigned n = (b == B_KMPC_STATIC4 || b == B_KMPC_STATIC4U) ? 4 : 8; unsigned bw = n * 8; int sched = (int)C(2) & 0xff; u64 pl = C(4), pu = C(5), ps = C(6);
        auto ld = [&](u64 p) { return sx(concretize(loadC(p, n), bw), bw); };
        i64 lb = ld(pl), ub = ld(pu), inc = sx(C(7), bw), ch = sx(C(8), bw); int nt = T->team ? T->team->n : 1, t = T->team ? T->tid : 0; if (inc == 0) inc = 1;
        i64 trip = inc > 0 ? (ub < lb ? 0 : (ub - lb) / inc + 1) : (lb < ub ? 0 : (lb - ub) / -inc + 1);
        if (sched == 33) { if (ch < 1) ch = 1; storeC(ps, n, {(u64)(ch * inc * nt), 0}); i64 l2 = lb + t * ch * inc, u2 = l2 + ch * inc - inc; storeC(pl, n, {(u64)l2, 0}); storeC(pu, n, {(u64)u2, 0}); if (C(3)) storeC(C(3), 4, {(u64)(t == (int)((trip - 1) / ch % nt)), 0}); }
        else {
            i64 small = trip / nt, ex = trip % nt; i64 mine = small + (t < ex ? 1 : 0), start = t * small + std::min<i64>(t, ex);
            i64 l2 = lb + start * inc, u2 = l2 + mine * inc - inc; if (trip == 0) { l2 = ub + inc; u2 = ub; }
            storeC(pl, n, {(u64)l2, 0}); storeC(pu, n, {(u64)u2, 0}); storeC(ps, n, {(u64)(trip * inc), 0}); if (C(3)) storeC(C(3), 4, {(u64)(mine > 0 && start + mine == trip), 0});
        }
        return 0; }
    case B_KMPC_DISPINIT4: case B_KMPC_DISPINIT8: {
        unsigned bw = b == B_KMPC_DISPINIT4 ? 32 : 64; Team* tm = T->team; if (!tm) { tm = &soloTeam; tm->n = 1; }
        auto& L = tm->loops[++T->loopSeq]; i64 ch = sx(C(6), bw);
        if (!L.init) { L.init = true; L.lb = L.next = sx(C(3), bw); L.ub = sx(C(4), bw); L.st = sx(C(5), bw); L.chunk = ch < 1 ? 1 : ch; L.kind = (int)C(2) & 0xff; }
        return 0; }
    case B_KMPC_DISPNEXT4: case B_KMPC_DISPNEXT8: {
        if (!schedPoint()) return 2;
        unsigned n = b == B_KMPC_DISPNEXT4 ? 4 : 8; Team* tm = T->team; if (!tm) tm = &soloTeam;
        auto& L = tm->loops[T->loopSeq];
        bool more = L.st > 0 ? L.next <= L.ub : L.next >= L.ub;
        if (!more) { ret({0, 0}); return 0; }
        i64 lo = L.next, hi = lo + (L.chunk - 1) * L.st; bool last = false;
        if (L.st > 0 ? hi >= L.ub : hi <= L.ub) { hi = L.ub; last = true; }
        L.next = lo + L.chunk * L.st;
        storeC(C(3), n, {(u64)lo, 0}); storeC(C(4), n, {(u64)hi, 0}); if (C(5)) storeC(C(5), n, {(u64)L.st, 0}); if (C(2)) storeC(C(2), 4, {(u64)last, 0});
        ret({1, 0}); return 0; }
    case B_RACEPOINT: if (!schedPoint()) return 2; return 0;
    case B_KMPC_BARRIER: { Team* tm = T->team; if (!tm || tm->n < 2) return 0; T->fr.back().pc++; if (ci->invoke) { takeEdge(ci->normal); } barrierArrive(tm); return 1; }
    case B_KMPC_CRIT: {
        u64 lk = C(2); if (!T->team || T->team->n < 2) return 0;
        if (!schedPoint()) return 2;
        Thread*& ow = critOwner[lk];
        if (ow) { T->st = T_CRIT; T->critAddr = lk; leaveToOther(T->team); return 2; }
        ow = T; auto& v = lockVC[lk]; if (v.size()) for (int i = 0; i < 8; ++i) vc[T->tid][i] = std::max(vc[T->tid][i], v[i]);
        return 0; }
    case B_KMPC_ENDCRIT: { u64 lk = C(2); if (!T->team || T->team->n < 2) return 0; critOwner[lk] = 0; lockVC[lk].assign(vc[T->tid], vc[T->tid] + 8); vc[T->tid][T->tid]++; return 0; }
    case B_KMPC_SINGLE: { if (!T->team || T->team->n < 2) { ret({1, 0}); return 0; } if (!schedPoint()) return 2; int& s = T->team->singles[++T->singleSeq]; ret({(u64)(s == 0), 0}); s = 1; return 0; }
    case B_KMPC_ENDSINGLE: return 0;
    case B_KMPC_MASTER: ret({(u64)(!T->team || T->tid == 0), 0}); return 0;
    case B_KMPC_REDUCE: {
        if (!T->team || T->team->n < 2) { ret({1, 0}); return 0; }
        u64 lk = C(6); if (!schedPoint()) return 2; Thread*& ow = critOwner[lk];
        if (ow) { T->st = T_CRIT; T->critAddr = lk; leaveToOther(T->team); return 2; }
        ow = T; auto& v = lockVC[lk]; if (v.size()) for (int i = 0; i < 8; ++i) vc[T->tid][i] = std::max(vc[T->tid][i], v[i]);
        ret({1, 0}); return 0; }
    case B_KMPC_ENDREDUCE: {
        if (!T->team || T->team->n < 2) return 0; u64 lk = C(2); critOwner[lk] = 0; lockVC[lk].assign(vc[T->tid], vc[T->tid] + 8); vc[T->tid][T->tid]++;
        if (f->name == "__kmpc_end_reduce") { T->fr.back().pc++; barrierArrive(T->team); return 1; }
        return 0; }
    default: unsupported("external function " + (f ? f->name : std::string("?")));
    }
}

// symex: a small symbolic executor for LLVM bitcode (LLVM 18) deciding assertions with Z3.
// Paths are explored by fork(): every feasible side of a branch on a symbolic value gets a
// process of its own; feasibility and every checked assertion are solver queries.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <cmath>
#include <map>
#include <set>
#include <atomic>
#include <algorithm>
#include <unordered_set>

using namespace llvm;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ shared statistics
enum { MAXF = 60000, MAXL = 512, MAXU = 64 };
struct Label { std::atomic<int> used; char name[120]; std::atomic<u64> n; };
struct Shared {
    std::atomic<int> tokens;
    std::atomic<int> stop;          // stop exploring (violations found / deadline)
    std::atomic<u64> paths, pathsOk, pathsPruned, forks, queries, qsat, qunsat, qunknown, solverNs, instrs, checks, checksSym, truncated, engineErr, unsupported, symBranches, races;
    std::atomic<u64> maxPathInstr, checksConst, maxVars, concretised, ncand;
    std::atomic<int> violations, samples, schedTrunc;
    Label labels[MAXL];
    Label unsup[MAXU];
    u8 fnUsed[MAXF];
    u8 lineHit[1 << 18];
};
static Shared* S;

// ------------------------------------------------------------------ options
static std::string optOut = ".", optEntry = "harness_main";
static double deadline = 1e18;
static u64 maxInstr = 400000000ULL;
static int maxViol = 3, optJobs = 8;
static bool optCheckRace = false, optVerbose = false;
static u64 optRlimit = 40000000ULL, optFast = 3000000ULL;
static int optThreads = 2;
static std::map<std::string, i64> optParams;
static bool concreteMode = false;
static std::vector<std::pair<std::string, u64>> concreteInputs; static size_t concretePos = 0;

// ------------------------------------------------------------------ guest memory
static const u64 ABASE = 0x100000000000ULL, ASIZE = 1ULL << 36; // 64 GB virtual
static u8* SH; // shadow: 0 unaddressable, 1 uninit, 2 init, 3 symbolic
static inline bool inArena(u64 a) { return a - ABASE < ASIZE; }
static inline u8* shp(u64 a) { return SH + (a - ABASE); }
static u64 heapTop, globTop, heapStart; static u64 maxHeap = 512ULL << 20;
static u64 pathSerial = 0;

enum AKind : u8 { A_GLOBAL, A_HEAP, A_STACK, A_FREED };
struct Alloc { u64 base, size; AKind kind; u8 how; u32 tag; };
static std::map<u64, Alloc> allocs;  // by base (globals, heap). stack handled apart
static u64 liveHeap = 0, liveHeapBytes = 0;

struct SymByte { Expr* e; u32 idx; };
static std::unordered_map<u64, SymByte> symMem;
static ExprPool X;

struct Val { u64 c; Expr* e; };

// ------------------------------------------------------------------ solver
static Z3_context Z; static Z3_solver SV;
static std::vector<Expr*> pc;
static std::unordered_set<Expr*> pcSet;
static std::vector<Z3_func_decl> varDecl;
[[noreturn]] static void endPath(const char* why);
[[noreturn]] static void violation(const char* kind, const std::string& msg);
[[noreturn]] static void unsupported(const std::string& msg);

static void solverAssert(Expr* e) { Z3_solver_assert(Z, SV, X.toZ3(e)); }
static std::vector<u64> savedModel;
static void pullModel(Z3_solver sv) {
    Z3_model m = Z3_solver_get_model(Z, sv);
    Z3_model_inc_ref(Z, m);
    for (size_t i = varDecl.size(); i < X.vars.size(); ++i)
        varDecl.push_back(Z3_get_app_decl(Z, Z3_to_app(Z, X.toZ3(X.varExpr[i]))));
    for (size_t i = 0; i < X.vars.size(); ++i) {
        Z3_ast v = Z3_model_get_const_interp(Z, m, varDecl[i]);
        if (!v) continue;
        if (X.vars[i].w == 1) X.model[i] = Z3_get_bool_value(Z, v) == Z3_L_TRUE;
        else { uint64_t u = 0; Z3_get_numeral_uint64(Z, v, &u); X.model[i] = u; }
    }
    Z3_model_dec_ref(Z, m);
    X.epoch++;
}
// Is pc /\ e satisfiable?  On sat the model is installed in X.model (old one in savedModel).
static int query(Expr* e) {
    if (e->op == E_CONST) { savedModel = X.model; return e->c ? 1 : 0; }
    double t = now();
    if (t > deadline) S->stop = 1;
    Z3_solver_push(Z, SV);
    solverAssert(e);
    Z3_lbool r = Z3_solver_check(Z, SV);
    Z3_solver sv = SV;
    if (r == Z3_L_UNDEF && !S->stop) { // hard for the incremental solver: bit-blast the whole query
        Z3_tactic ta = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, ta);
        sv = Z3_mk_solver_from_tactic(Z, ta); Z3_solver_inc_ref(Z, sv);
        Z3_params ps = Z3_mk_params(Z); Z3_params_inc_ref(Z, ps);
        Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)optRlimit);
        Z3_solver_set_params(Z, sv, ps); Z3_params_dec_ref(Z, ps);
        for (Expr* c : pc) Z3_solver_assert(Z, sv, X.toZ3(c));
        Z3_solver_assert(Z, sv, X.toZ3(e));
        r = Z3_solver_check(Z, sv);
        Z3_tactic_dec_ref(Z, ta);
    }
    S->queries++;
    int ret;
    if (r == Z3_L_TRUE) {
        savedModel = X.model; pullModel(sv); ret = 1; S->qsat++;
        if (!X.eval(e)) { fprintf(stderr, "symex: solver model does not satisfy query\n"); ret = -1; }
    }
    else if (r == Z3_L_FALSE) { ret = 0; S->qunsat++; }
    else { ret = -1; S->qunknown++; if (optVerbose) fprintf(stderr, "unknown: %s\n", Z3_solver_get_reason_unknown(Z, SV)); }
    if (sv != SV) Z3_solver_dec_ref(Z, sv);
    Z3_solver_pop(Z, SV, 1);
    S->solverNs += (u64)((now() - t) * 1e9);
    return ret;
}
static void restoreModel() { X.model = savedModel; X.model.resize(X.vars.size()); X.epoch++; }
static void addPc(Expr* e) { if (e->op == E_CONST) return; if (!pcSet.insert(e).second) return; pc.push_back(e); solverAssert(e); }

// ------------------------------------------------------------------ process tree
static bool ownsToken = true; // we hold a token that must be given back at the end
static int outstanding = 0;
static u64 instrCount = 0, instrFlushed = 0;
static double startTime;
static int forkDepth = 0;

static void flushCounters() { S->instrs += instrCount - instrFlushed; instrFlushed = instrCount; }
static bool takeToken() {
    int v = S->tokens.load();
    while (v > 0) if (S->tokens.compare_exchange_weak(v, v - 1)) return true;
    return false;
}
static void reapOne(int st, bool conc) {
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
        S->engineErr++;
        if (conc) S->tokens++;
    }
}
static int forkPath() { // 0: child, 1: parent (child possibly already finished)
    S->forks++;
    if (now() > deadline) S->stop = 1;
    if (S->stop) { S->truncated++; return 1; }
    flushCounters();
    bool conc = takeToken();
    pid_t p = fork();
    if (p < 0) { if (conc) S->tokens++; S->truncated++; return 1; }
    if (p == 0) { ownsToken = conc; outstanding = 0; forkDepth++; return 0; }
    if (conc) outstanding++;
    else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} reapOne(st, false); }
    return 1;
}
[[noreturn]] static void processEnd() {
    flushCounters();
    u64 m = S->maxPathInstr.load(); while (instrCount > m && !S->maxPathInstr.compare_exchange_weak(m, instrCount)) {}
    m = S->maxVars.load(); while (X.vars.size() > m && !S->maxVars.compare_exchange_weak(m, X.vars.size())) {}
    if (ownsToken) S->tokens++;
    while (outstanding > 0) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break; reapOne(st, true); outstanding--; }
    fflush(stdout); fflush(stderr);
    _exit(0);
}

// ------------------------------------------------------------------ inputs
struct Input { std::string name; Expr* e; u64 c; };
static std::vector<Input> inputs;
static void writeInputs(FILE* f) {
    for (auto& i : inputs) fprintf(f, "%s %llu\n", i.name.c_str(), (unsigned long long)(i.e ? X.eval(i.e) : i.c));
}
static std::string jesc(const std::string& s) {
    std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r;
}
static void endPath(const char* why) {
    S->paths++;
    if (!strcmp(why, "ok")) {
        S->pathsOk++;
        int n = S->samples.fetch_add(1);
        if (n < 3) {
            FILE* f = fopen((optOut + "/sample_" + std::to_string(n) + ".txt").c_str(), "w");
            if (f) { writeInputs(f); fclose(f); }
        }
    }
    else if (!strcmp(why, "pruned")) S->pathsPruned++;
    else if (!strcmp(why, "truncated")) S->truncated++;
    processEnd();
}
static std::string whereAmI();
static void violation(const char* kind, const std::string& msg) {
    int n = S->violations.fetch_add(1);
    if (n < maxViol + 8) {
        std::string base = optOut + "/viol_" + std::to_string(n);
        FILE* f = fopen((base + ".in").c_str(), "w"); if (f) { writeInputs(f); fclose(f); }
        f = fopen((base + ".txt").c_str(), "w");
        if (f) { fprintf(f, "%s\n%s\n%s\n", kind, msg.c_str(), whereAmI().c_str()); fclose(f); }
    }
    if (n + 1 >= maxViol) S->stop = 1;
    S->paths++;
    processEnd();
}
static void bumpLabel(Label* L, int max, const char* name) {
    for (int i = 0; i < max; ++i) {
        int u = L[i].used.load();
        if (u == 0) { int z = 0; if (L[i].used.compare_exchange_strong(z, 1)) { strncpy(L[i].name, name, 119); L[i].used = 2; L[i].n++; return; } u = L[i].used.load(); }
        while (u == 1) u = L[i].used.load();
        if (!strncmp(L[i].name, name, 119)) { L[i].n++; return; }
    }
}
static void unsupported(const std::string& msg) {
    S->unsupported++;
    bumpLabel(S->unsup, MAXU, (msg + " @ " + whereAmI()).substr(0, 118).c_str());
    endPath("unsupported");
}

// decide a symbolic boolean: returns the value taken on this path (forks when both are feasible)
static void raceNote();
static bool decide(Expr* c) {
    if (c->op == E_CONST) return c->c;
    if (pcSet.count(c)) return true;
    Expr* nc = X.mkNot(c);
    if (pcSet.count(nc)) return false;
    S->symBranches++;
    bool v = X.eval(c);
    Expr* other = v ? nc : c; Expr* mine = v ? c : nc;
    int r = query(other);
    if (r == 0) { pcSet.insert(mine); return v; }
    if (r < 0) { S->truncated++; addPc(mine); return v; }
    if (S->stop) { restoreModel(); endPath("truncated"); }
    if (c->uninit && !concreteMode) {
        violation("uninit", "control flow depends on a value that was never written");
    }
    int f = forkPath();
    if (f == 0) { addPc(other); return !v; }
    if (S->stop) { restoreModel(); endPath("truncated"); }
    restoreModel(); addPc(mine);
    return v;
}
static u64 concretize(Val v, unsigned w) {
    if (!v.e) return v.c;
    if (v.e->op == E_CONST) return v.e->c;
    S->concretised++;
    for (;;) {
        u64 x = X.eval(v.e);
        if (decide(X.bin(E_EQ, v.e, X.mkConst(x, v.e->w)))) return x;
    }
}
static void assume(Expr* c) {
    if (c->op == E_CONST) { if (!c->c) endPath("pruned"); return; }
    if (X.eval(c)) { addPc(c); return; }
    int r = query(c);
    if (r == 0) endPath("pruned");
    if (r < 0) endPath("truncated");
    addPc(c);
}

// ------------------------------------------------------------------ decoded program
enum OpC : uint16_t {
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_NE, O_ULT, O_ULE, O_UGT, O_UGE, O_SLT, O_SLE, O_SGT, O_SGE,
    O_ZEXT, O_SEXT, O_TRUNC, O_MOV, O_SELECT, O_GEP, O_LOAD, O_STORE, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL,
    O_UNREACH, O_COPYN, O_LANDING, O_RESUME, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FCMP, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPTRUNC, O_FPEXT,
    O_ATOMICRMW, O_CMPXCHG, O_UNSUP, O_VECBIN
};
struct Edge { int target; std::vector<std::pair<int, int>> copies; };
struct GepTerm { int idx; unsigned w; i64 scale; };
struct Func;
struct CallInfo {
    Func* f = 0; int fnOperand = 0; int builtin = 0; bool indirect = false; bool invoke = false;
    std::vector<int> args; std::vector<u64> byval; // per flattened arg: byval size or 0
    int dst = -1, nret = 0; Edge* normal = 0; Edge* unwind = 0; std::vector<unsigned> argw;
};
struct SwitchInfo { std::vector<std::pair<u64, Edge*>> cases; Edge* def; };
struct LandInfo { bool cleanup; std::vector<u64> catches; };
struct LeafT { u64 off; unsigned bits; };
struct Op {
    OpC code; u8 w, w2; int dst, a, b, c; u64 imm; Edge *e1, *e2;
    union { CallInfo* call; SwitchInfo* sw; std::vector<GepTerm>* gep; std::vector<LeafT>* leaves; LandInfo* land; void* p; };
    const Instruction* I; u32 line;
};
static u32 lineKey(const Instruction* I) {
    const DILocation* L = I ? I->getDebugLoc().get() : 0; if (!L) return 0;
    u32 h = 2166136261u; for (char c : L->getFilename()) h = (h ^ (u8)c) * 16777619u;
    h = (h ^ L->getLine()) * 16777619u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return h & ((1 << 18) - 1);
}
struct Func {
    Function* F; std::string name; int id; bool decoded = false; int builtin = 0;
    std::vector<Op> ops; int nslots = 0; u64 addr = 0; bool vararg = false; int nargs = 0; int entry = 0;
};
static std::vector<Val> constPool;
static std::unordered_map<const Function*, Func*> funcOf;
static std::unordered_map<u64, Func*> funcByAddr;
static std::vector<Func*> funcs;
static std::unordered_map<const GlobalVariable*, u64> globAddr;
static const DataLayout* DL;
static std::unordered_map<u64, std::string> tiName; // typeinfo address -> symbol name
static Module* MOD;

// ------------------------------------------------------------------ threads
struct Frame { Func* f; int pc; u32 base; u64 sp; Op* callOp; };
enum TState { T_RUN, T_BARRIER, T_CRIT, T_DONE, T_JOINWAIT, T_YIELD };
struct Team;
struct Thread {
    std::vector<Frame> fr; Val* regs; u32 top = 0; u64 stackLo, stackHi, sp; TState st = T_RUN; Team* team = 0; int tid = 0; u64 critAddr = 0; Thread* parent = 0;
    std::map<u64, Alloc> stk;   // live allocas by base
    u64 curExc = 0; u64 clockv[8] = {}; int loopSeq = 0, singleSeq = 0; bool justPicked = false; i64 dispLo = 0;
    std::vector<u64> caught;
};
struct Team { int n; std::vector<Thread*> th; int arrived = 0; Thread* master; u64 barrierNo = 0;
    struct Loop { i64 next, ub, st, chunk; bool init = false; int kind; i64 lb; int finished = 0; };
    std::map<int, Loop> loops; std::map<int, int> singles; };
static Thread* T; // current
static std::map<u64, Thread*> critOwner; // lock address -> owner
static u64 nextStack;
static int optDelays = 1 << 30, optBase = 0;

static std::string locOf(const Instruction* I) {
    std::string r;
    if (I) if (const DILocation* L = I->getDebugLoc()) { r = L->getFilename().str() + ":" + std::to_string(L->getLine()); }
    return r;
}
static std::string whereAmI() {
    std::string r;
    if (!T) return r;
    int n = 0;
    for (size_t i = T->fr.size(); i-- > 0 && n < 12; ++n) {
        Frame& f = T->fr[i];
        int p = f.pc; 
        const Instruction* I = (p >= 0 && p < (int)f.f->ops.size()) ? f.f->ops[p].I : 0;
        if (n) r += " < ";
        std::string dn = demangle(f.f->name); if (dn.size() > 90) dn = dn.substr(0, 87) + "...";
        r += dn + "(" + locOf(I) + ")";
    }
    return r;
}

// ------------------------------------------------------------------ race detection (happens-before)
struct RaceCell { u32 wclk; u8 wtid; bool w; u32 rclk[8]; const Instruction *wop, *rop[8]; };
static std::set<const Instruction*> racyOps;
static std::unordered_map<u64, RaceCell> raceMap;
static bool inParallel = false;
static u32 vc[8][8]; static std::unordered_map<u64, std::vector<u32>> lockVC; static int vcN = 0;
static void noteRace(const Instruction* I) {
    if (!I || !racyOps.insert(I).second) return;
    std::string l = locOf(I); size_t k = l.rfind('/'); if (k != std::string::npos) l = l.substr(k + 1);
    S->races++; bumpLabel(S->labels, MAXL, ("race@" + l).c_str());
}
static void raceAccess(u64 a, unsigned n, bool wr) {
    int t = T->tid; const Instruction* me = T->fr.back().f->ops[T->fr.back().pc].I;
    for (u64 p = a; p < a + n; ++p) {
        RaceCell& c = raceMap[p];
        if (c.w && c.wtid != t && c.wclk > vc[t][c.wtid]) { noteRace(c.wop); noteRace(me); }
        if (wr) for (int k = 0; k < vcN; ++k) if (k != t && c.rclk[k] > vc[t][k]) { noteRace(c.rop[k]); noteRace(me); }
        if (wr) { c.w = true; c.wtid = t; c.wclk = vc[t][t]; c.wop = me; memset(c.rclk, 0, sizeof c.rclk); }
        else c.rclk[t] = vc[t][t], c.rop[t] = me;
    }
}

// ------------------------------------------------------------------ memory operations
static const char* akindName(u64 a) {
    auto it = allocs.upper_bound(a);
    if (it != allocs.begin()) { --it; if (a < it->second.base + it->second.size + 64 && it->second.kind == A_FREED) return "freed heap block"; if (it->second.kind == A_HEAP) return "outside of heap block"; }
    return "invalid address";
}
[[noreturn]] static void memError(u64 a, unsigned n, const char* what) {
    char b[200]; snprintf(b, sizeof b, "invalid %s of %u bytes (%s)", what, n, a < 4096 ? "null pointer" : inArena(a) ? akindName(a) : "wild pointer");
    violation("memory", b);
}
static inline void checkRange(u64 a, u64 n, const char* what) {
    if (n == 0) return;
    if (!inArena(a) || !inArena(a + n - 1)) memError(a, (unsigned)n, what);
    u8* s = shp(a); for (u64 i = 0; i < n; ++i) if (!s[i]) memError(a + i, 1, what);
}
static Expr* byteExpr(u64 a) {
    switch (*shp(a)) {
    case 2: return X.mkConst(*(u8*)a, 8);
    case 3: { SymByte& b = symMem[a]; return X.mkExtract(b.e, b.idx * 8, 8); }
    case 1: {
        Expr* v = X.mkVar("uninit", 8, true, 0xA5);
        *shp(a) = 3; symMem[a] = {v, 0}; return v; }
    default: memError(a, 1, "read");
    }
}
static Val loadSlow(u64 a, unsigned n) {
    if (!inArena(a) || !inArena(a + n - 1)) memError(a, n, "read");
    u8* s = shp(a);
    bool allU = true, allS = true, allC = true;
    for (unsigned i = 0; i < n; ++i) { if (!s[i]) memError(a, n, "read"); if (s[i] != 1) allU = false; if (s[i] != 3) allS = false; if (s[i] != 2) allC = false; }
    if (allC) { u64 v = 0; memcpy(&v, (void*)a, n); return {v, 0}; }
    if (allU) {
        Expr* v = X.mkVar("uninit", n * 8, true, 0xA5A5A5A5A5A5A5A5ULL);
        for (unsigned i = 0; i < n; ++i) { s[i] = 3; symMem[a + i] = {v, i}; }
        return {0, v};
    }
    if (allS) {
        SymByte b0 = symMem[a]; bool ok = b0.idx == 0 && b0.e->w == n * 8;
        for (unsigned i = 1; ok && i < n; ++i) { SymByte& b = symMem[a + i]; ok = b.e == b0.e && b.idx == i; }
        if (ok) return {0, b0.e};
    }
    Expr* r = byteExpr(a + n - 1);
    for (int i = (int)n - 2; i >= 0; --i) r = X.mkConcat(r, byteExpr(a + i));
    if (r->op == E_CONST) return {r->c, 0};
    return {0, r};
}
static inline Val loadC(u64 a, unsigned n) { // n in 1,2,4,8
    if (!inArena(a)) memError(a, n, "read");
    u8* s = shp(a);
    switch (n) {
    case 1: if (*s == 2) return {*(u8*)a, 0}; break;
    case 2: if (*(uint16_t*)s == 0x0202) return {*(uint16_t*)a, 0}; break;
    case 4: if (*(u32*)s == 0x02020202u) return {*(u32*)a, 0}; break;
    case 8: if (*(u64*)s == 0x0202020202020202ULL) return {*(u64*)a, 0}; break;
    }
    return loadSlow(a, n);
}
static inline bool addressable(u64 a, unsigned n) {
    if (!inArena(a) || !inArena(a + n - 1)) return false;
    u8* s = shp(a); for (unsigned i = 0; i < n; ++i) if (!s[i]) return false; return true;
}
static inline void storeC(u64 a, unsigned n, Val v) {
    if (!addressable(a, n)) memError(a, n, "write");
    if (!v.e) { memcpy((void*)a, &v.c, n); memset(shp(a), 2, n); }
    else {
        for (unsigned i = 0; i < n; ++i) symMem[a + i] = {v.e, i};
        memset(shp(a), 3, n);
    }
}
// allocation containing a (including stacks)
static bool findAlloc(u64 a, u64& lo, u64& hi) {
    if (T) {
        std::vector<Thread*> ths; 
        auto look = [&](Thread* t) { auto it = t->stk.upper_bound(a); if (it != t->stk.begin()) { --it; if (a >= it->second.base && a < it->second.base + it->second.size) { lo = it->second.base; hi = lo + it->second.size; return true; } } return false; };
        for (Thread* t = T; t; t = t->parent) if (look(t)) return true;
        if (T->team) for (Thread* t : T->team->th) if (look(t)) return true;
    }
    auto it = allocs.upper_bound(a);
    if (it == allocs.begin()) return false;
    --it;
    if (it->second.kind == A_FREED || a >= it->second.base + it->second.size) return false;
    lo = it->second.base; hi = lo + it->second.size; return true;
}
// Restrict a symbolic address to one allocation (forking) and list its feasible values.
static bool resolve(Expr* ae, unsigned n, const char* what, std::vector<u64>& cand) {
    for (;;) {
        u64 a0 = X.eval(ae), lo, hi;
        if (!findAlloc(a0, lo, hi) || a0 + n > hi) memError(a0, n, what);
        // inside this allocation?
        Expr* in = X.bin(E_ULE, X.bin(E_SUB, ae, X.mkConst(lo, 64)), X.mkConst(hi - lo - n, 64));
        if (!decide(in)) continue;
        // enumerate
        cand.clear();
        std::vector<u64> keep = X.model;
        Expr* ex = X.mkConst(1, 1);
        bool over = false;
        for (;;) {
            u64 v = X.eval(ae); cand.push_back(v);
            ex = X.bin(E_AND, ex, X.mkNot(X.bin(E_EQ, ae, X.mkConst(v, 64))));
            if (cand.size() > 48) { over = true; break; }
            int r = query(ex);
            if (r < 0) { over = true; break; }
            if (r == 0) break;
        }
        X.model = keep; X.model.resize(X.vars.size()); X.epoch++;
        S->ncand += cand.size();
        if (!over) return true;
        // too many values: fork on the first
        if (decide(X.bin(E_EQ, ae, X.mkConst(cand[0], 64)))) { cand.resize(1); return true; }
    }
}
static Val loadAny(Val av, unsigned n) {
    if (!av.e) return loadC(av.c, n);
    std::vector<u64> cand; resolve(av.e, n, "read", cand);
    Val r = loadC(cand[0], n);
    if (cand.size() == 1) return r;
    Expr* e = r.e ? r.e : X.mkConst(r.c, n * 8);
    for (size_t i = 1; i < cand.size(); ++i) {
        Val q = loadC(cand[i], n); Expr* qe = q.e ? q.e : X.mkConst(q.c, n * 8);
        e = X.mkIte(X.bin(E_EQ, av.e, X.mkConst(cand[i], 64)), qe, e);
    }
    if (e->op == E_CONST) return {e->c, 0};
    return {0, e};
}
static void storeAny(Val av, unsigned n, Val v) {
    if (!av.e) { storeC(av.c, n, v); return; }
    std::vector<u64> cand; resolve(av.e, n, "write", cand);
    if (cand.size() == 1) { storeC(cand[0], n, v); return; }
    Expr* ve = v.e ? v.e : X.mkConst(v.c, n * 8);
    for (u64 a : cand) {
        Expr* old; bool un = false; u8* s = shp(a); for (unsigned i = 0; i < n; ++i) if (s[i] == 1) un = true;
        (void)un;
        Val o = loadC(a, n); old = o.e ? o.e : X.mkConst(o.c, n * 8);
        Expr* nv = X.mkIte(X.bin(E_EQ, av.e, X.mkConst(a, 64)), ve, old);
        storeC(a, n, nv->op == E_CONST ? Val{nv->c, 0} : Val{0, nv});
    }
}
static u64 heapAlloc(u64 size, u8 how) {
    if (size > (1ULL << 31)) violation("alloc", "allocation request of " + std::to_string(size) + " bytes");
    u64 a = (heapTop + 15) & ~15ULL;
    if (a + size - heapStart > maxHeap) violation("memory-exhausted", "path allocates more than " + std::to_string(maxHeap >> 20) + " MB");
    heapTop = a + size + 48;
    memset(shp(a), 1, size);
    allocs[a] = {a, size, A_HEAP, how, 0};
    liveHeap++; liveHeapBytes += size;
    return a;
}
static void heapFree(u64 a, u8 how) {
    if (!a) return;
    auto it = allocs.find(a);
    if (it == allocs.end() || (it->second.kind != A_HEAP && it->second.kind != A_FREED)) violation("memory", "free of a pointer that is not a heap block");
    if (it->second.kind == A_FREED) violation("memory", "double free");
    if (optCheckRace && inParallel) raceAccess(a, (unsigned)std::min<u64>(it->second.size, 1 << 16), true);
    it->second.kind = A_FREED;
    memset(shp(a), 0, it->second.size);
    liveHeap--; liveHeapBytes -= it->second.size;
}
static void copyMem(u64 d, u64 s, u64 n) { // memmove semantics incl. shadow
    if (!n) return;
    checkRange(s, n, "read"); checkRange(d, n, "write");
    u8* ss = shp(s); bool sym = memchr(ss, 3, n) != 0;
    if (sym) {
        std::vector<std::pair<u64, SymByte>> tmp;
        for (u64 i = 0; i < n; ++i) if (ss[i] == 3) tmp.push_back({d + i, symMem[s + i]});
        for (auto& t : tmp) symMem[t.first] = t.second;
    }
    memmove((void*)d, (void*)s, n); memmove(shp(d), shp(s), n);
}

#include "decode.h"
#include "exec.h"

// ------------------------------------------------------------------ main
static void writeReport(double wall) {
    FILE* f = fopen((optOut + "/report.json").c_str(), "w");
    if (!f) { perror("report"); exit(3); }
#define U(x) (unsigned long long)(S->x.load())
    fprintf(f, "{\"paths\": %llu, \"paths_ok\": %llu, \"paths_pruned\": %llu, \"forks\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"solver_s\": %.3f, \"instructions\": %llu, \"checks\": %llu, \"checks_solver\": %llu, \"truncated\": %llu, \"engine_errors\": %llu, \"unsupported\": %llu, \"symbolic_branches\": %llu, \"violations\": %d, \"races\": %llu, \"max_path_instr\": %llu, \"max_vars\": %llu, \"wall_s\": %.2f,\n",
        U(paths), U(pathsOk), U(pathsPruned), U(forks), U(queries), U(qsat), U(qunsat), U(qunknown), S->solverNs.load() * 1e-9, U(instrs), U(checks), U(checksSym), U(truncated), U(engineErr), U(unsupported), U(symBranches), S->violations.load(), U(races), U(maxPathInstr), U(maxVars), wall);
    fprintf(f, " \"labels\": {"); bool first = true;
    for (int i = 0; i < MAXL && S->labels[i].used; ++i) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(S->labels[i].name).c_str(), U(labels[i].n)); first = false; }
    fprintf(f, "},\n \"unsupported_what\": {"); first = true;
    for (int i = 0; i < MAXU && S->unsup[i].used; ++i) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(S->unsup[i].name).c_str(), U(unsup[i].n)); first = false; }
    fprintf(f, "},\n \"functions\": ["); first = true;
    for (size_t i = 0; i < funcs.size() && i < MAXF; ++i) if (S->fnUsed[i]) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(funcs[i]->name).c_str()); first = false; }
    fprintf(f, "],\n \"lines\": {"); first = true;
    std::map<std::string, std::map<unsigned, bool>> lines;
    for (Function& F : *MOD) for (BasicBlock& B : F) for (Instruction& I : B) if (const DILocation* L = I.getDebugLoc().get()) if (L->getLine() && L->getFilename().contains("/repo/")) { bool& b = lines[L->getFilename().str()][L->getLine()]; b |= S->lineHit[lineKey(&I)] != 0; }
    for (auto& q : lines) { fprintf(f, "%s\"%s\": [", first ? "" : ", ", jesc(q.first).c_str()); first = false; bool f2 = true; for (auto& l : q.second) { fprintf(f, "%s%d", f2 ? "" : ",", l.second ? (int)l.first : -(int)l.first); f2 = false; } fprintf(f, "]"); }
    fprintf(f, "}}\n");
    fclose(f);
}

int main(int argc, char** argv) {
    std::vector<std::string> bcs; std::string instrOut; std::set<std::string> points;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return std::string(argv[++i]); };
        if (a == "-o") optOut = nxt();
        else if (a == "-entry") optEntry = nxt();
        else if (a == "-time") deadline = atof(nxt().c_str());
        else if (a == "-maxinstr") maxInstr = strtoull(nxt().c_str(), 0, 10);
        else if (a == "-maxheap") maxHeap = strtoull(nxt().c_str(), 0, 10) << 20;
        else if (a == "-j") optJobs = atoi(nxt().c_str());
        else if (a == "-maxviol") maxViol = atoi(nxt().c_str());
        else if (a == "-race") optCheckRace = true;
        else if (a == "-v") optVerbose = true;
        else if (a == "-threads") optThreads = atoi(nxt().c_str());
        else if (a == "-delays") optDelays = atoi(nxt().c_str());
        else if (a == "-base") optBase = atoi(nxt().c_str());
        else if (a == "-instrument") instrOut = nxt();
        else if (a == "-points") { std::string q = nxt(); for (size_t k = 0; k < q.size();) { size_t e = q.find(',', k); if (e == std::string::npos) e = q.size(); points.insert(q.substr(k, e - k)); k = e + 1; } }
        else if (a == "-D") { std::string s = nxt(); size_t p = s.find('='); optParams[s.substr(0, p)] = atoll(s.c_str() + p + 1); }
        else if (a == "-concrete") {
            concreteMode = true; FILE* f = fopen(nxt().c_str(), "r"); char nm[256]; unsigned long long v;
            if (!f) { perror("concrete"); return 3; }
            while (fscanf(f, "%255s %llu", nm, &v) == 2) concreteInputs.push_back({nm, v}); fclose(f);
        }
        else bcs.push_back(a);
    }
    startTime = now(); if (deadline < 1e17) deadline += startTime;
    mkdir(optOut.c_str(), 0777);
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->tokens = optJobs - 1;
    void* p = mmap((void*)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ABASE) { perror("mmap arena"); return 3; }
    SH = (u8*)mmap(0, ASIZE + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (SH == MAP_FAILED) { perror("mmap shadow"); return 3; }
    LLVMContext ctx; SMDiagnostic err;
    if (bcs.empty()) { fprintf(stderr, "symex: no input\n"); return 3; }
    std::unique_ptr<Module> M = parseIRFile(bcs[0], err, ctx);
    if (!M) { err.print("symex", errs()); return 3; }
    if (instrOut.size()) { // schedule points before the memory accesses of the given source lines
        FunctionCallee rp = M->getOrInsertFunction("__race_point", FunctionType::get(Type::getVoidTy(ctx), false));
        std::vector<Instruction*> at;
        for (Function& F : *M) for (BasicBlock& B : F) for (Instruction& I : B) if (isa<LoadInst>(I) || isa<StoreInst>(I) || isa<MemIntrinsic>(I)) {
            std::string l = locOf(&I); size_t k = l.rfind('/'); if (k != std::string::npos) l = l.substr(k + 1);
            if (points.count(l)) at.push_back(&I);
        }
        for (Instruction* I : at) { CallInst* c = CallInst::Create(rp, "", I); c->setDebugLoc(I->getDebugLoc()); }
        std::error_code ec; raw_fd_ostream os(instrOut, ec); WriteBitcodeToFile(*M, os); os.flush(); printf("%zu\n", at.size()); return ec ? 3 : 0;
    }
    for (size_t i = 1; i < bcs.size(); ++i) {
        std::unique_ptr<Module> N = parseIRFile(bcs[i], err, ctx);
        if (!N) { err.print("symex", errs()); return 3; }
        if (Linker::linkModules(*M, std::move(N))) { fprintf(stderr, "symex: link failed\n"); return 3; }
    }
    MOD = M.get(); DL = &M->getDataLayout();
    Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); X.ctx = Z;
    setupProgram();
    Function* entry = M->getFunction(optEntry);
    if (!entry || entry->isDeclaration()) { fprintf(stderr, "symex: no entry %s\n", optEntry.c_str()); return 3; }
    pid_t pid = fork();
    if (pid == 0) {
        ownsToken = true;
        signal(SIGPIPE, SIG_DFL);
        Z3_symbol qfbv = Z3_mk_string_symbol(Z, "QF_BV");
        SV = Z3_mk_solver_for_logic(Z, qfbv); Z3_solver_inc_ref(Z, SV);
        Z3_params ps = Z3_mk_params(Z); Z3_params_inc_ref(Z, ps);
        Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)optFast);
        Z3_solver_set_params(Z, SV, ps);
        runProgram(funcOf[entry]);
        endPath("ok");
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) || WEXITSTATUS(st)) { S->engineErr++; }
    writeReport(now() - startTime);
    return 0;
}

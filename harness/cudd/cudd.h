// Stand-in for the calls of the CUDD package that /repo/apps uses: reduced ordered BDDs with complement edges and reference counts.
#pragma once
#include <map>
#include <set>
#include <vector>
#include <cstddef>
#include <cstdint>
struct DdNode { unsigned index; DdNode *t, *e; long ref; };
struct CuddKey { unsigned v; DdNode *t, *e; bool operator<(CuddKey const& o) const { return v != o.v ? v < o.v : t != o.t ? t < o.t : e < o.e; } };
struct DdManager { DdNode one; std::map<CuddKey, DdNode*> uniq; std::vector<unsigned> order; long bad; }; // order: variables from the top
#define CUDD_UNIQUE_SLOTS 256
#define CUDD_CACHE_SLOTS 262144
#define CUDD_CONST_INDEX 0x7fffffffu
enum Cudd_ReorderingType { CUDD_REORDER_SAME, CUDD_REORDER_NONE, CUDD_REORDER_SIFT = 4 };
static inline DdManager*& cuddTheManager() { static DdManager* m; return m; }
#define Cudd_Regular(n) ((DdNode*)((uintptr_t)(n) & ~(uintptr_t)1))
#define Cudd_Not(n) ((DdNode*)((uintptr_t)(n) ^ (uintptr_t)1))
#define Cudd_NotCond(n, c) ((DdNode*)((uintptr_t)(n) ^ (uintptr_t)(c)))
#define Cudd_IsComplement(n) ((int)((uintptr_t)(n) & 1))
#define Cudd_IsConstant(n) (Cudd_Regular(n)->index == CUDD_CONST_INDEX)
#define Cudd_T(n) (Cudd_Regular(n)->t)
#define Cudd_E(n) (Cudd_Regular(n)->e)
static inline DdManager* Cudd_Init(unsigned, unsigned, unsigned, unsigned, unsigned long) { DdManager* m = new DdManager; m->one.index = CUDD_CONST_INDEX; m->one.t = m->one.e = 0; m->one.ref = 1; m->bad = 0; return cuddTheManager() = m; }
static inline DdNode* Cudd_ReadOne(DdManager* m) { return &m->one; }
static inline DdNode* Cudd_ReadLogicZero(DdManager* m) { return Cudd_Not(&m->one); }
static inline int Cudd_ReadSize(DdManager* m) { return (int)m->order.size(); }
static inline unsigned Cudd_NodeReadIndex(DdNode* n) { return Cudd_Regular(n)->index; }
static inline void Cudd_Ref(DdNode* n) { ++Cudd_Regular(n)->ref; }
static inline void Cudd_RecursiveDeref(DdManager* m, DdNode* n) { if (--Cudd_Regular(n)->ref < 0) m->bad = 1; }
static inline int cuddPos(DdManager* m, DdNode* n) { unsigned v = Cudd_Regular(n)->index; if (v == CUDD_CONST_INDEX) return 1 << 20; for (size_t i = 0; i < m->order.size(); ++i) if (m->order[i] == v) return (int)i; return 1 << 20; }
static inline DdNode* cuddMake(DdManager* m, unsigned v, DdNode* t, DdNode* e) {
    if (t == e) return t; bool c = Cudd_IsComplement(t); if (c) { t = Cudd_Not(t); e = Cudd_Not(e); }
    CuddKey k = { v, t, e }; DdNode*& n = m->uniq[k]; if (!n) { n = new DdNode; n->index = v; n->t = t; n->e = e; n->ref = 0; } return Cudd_NotCond(n, c);
}
static inline DdNode* Cudd_bddNewVarAtLevel(DdManager* m, int level) { unsigned v = (unsigned)m->order.size(); m->order.insert(m->order.begin() + level, v); return cuddMake(m, v, &m->one, Cudd_Not(&m->one)); }
static inline DdNode* Cudd_bddIthVar(DdManager* m, int i) { while (i >= (int)m->order.size()) m->order.push_back((unsigned)m->order.size()); return cuddMake(m, (unsigned)i, &m->one, Cudd_Not(&m->one)); }
static inline DdNode* cuddBranch(DdManager* m, DdNode* n, int pos, int b) { if (cuddPos(m, n) != pos) return n; return Cudd_NotCond(b ? Cudd_T(n) : Cudd_E(n), Cudd_IsComplement(n)); }
static inline DdNode* Cudd_bddIte(DdManager* m, DdNode* f, DdNode* g, DdNode* h) {
    DdNode *one = &m->one, *zero = Cudd_Not(one);
    if (f == one) return g; if (f == zero) return h; if (g == h) return g; if (g == one && h == zero) return f; if (g == zero && h == one) return Cudd_Not(f);
    int p = cuddPos(m, f); if (cuddPos(m, g) < p) p = cuddPos(m, g); if (cuddPos(m, h) < p) p = cuddPos(m, h);
    DdNode* t = Cudd_bddIte(m, cuddBranch(m, f, p, 1), cuddBranch(m, g, p, 1), cuddBranch(m, h, p, 1));
    DdNode* e = Cudd_bddIte(m, cuddBranch(m, f, p, 0), cuddBranch(m, g, p, 0), cuddBranch(m, h, p, 0));
    return cuddMake(m, m->order[p], t, e);
}
static inline DdNode* Cudd_bddAnd(DdManager* m, DdNode* f, DdNode* g) { return Cudd_bddIte(m, f, g, Cudd_ReadLogicZero(m)); }
static inline DdNode* Cudd_bddOr(DdManager* m, DdNode* f, DdNode* g) { return Cudd_bddIte(m, f, Cudd_ReadOne(m), g); }
static inline DdNode* Cudd_bddXor(DdManager* m, DdNode* f, DdNode* g) { return Cudd_bddIte(m, f, Cudd_Not(g), g); }
static inline int Cudd_bddLeq(DdManager* m, DdNode* f, DdNode* g) { return Cudd_bddAnd(m, f, Cudd_Not(g)) == Cudd_ReadLogicZero(m); }
static inline void cuddWalk(DdNode* n, std::set<DdNode*>& s) { n = Cudd_Regular(n); if (!s.insert(n).second || Cudd_IsConstant(n)) return; cuddWalk(n->t, s); cuddWalk(n->e, s); }
static inline int Cudd_DagSize(DdNode* n) { std::set<DdNode*> s; cuddWalk(n, s); return (int)s.size(); }
static inline int Cudd_SharingSize(DdNode** v, int k) { std::set<DdNode*> s; for (int i = 0; i < k; ++i) cuddWalk(v[i], s); return (int)s.size(); }
static inline long Cudd_ReadPeakLiveNodeCount(DdManager* m) { return (long)m->uniq.size() + 1; }
static inline double cuddCount(DdManager* m, DdNode* n) { if (n == &m->one) return 1; if (Cudd_IsConstant(n)) return 0; int p = cuddPos(m, n); return (cuddCount(m, cuddBranch(m, n, p, 0)) + cuddCount(m, cuddBranch(m, n, p, 1))) / 2; }
static inline double Cudd_CountMinterm(DdManager* m, DdNode* n, int k) { double c = cuddCount(m, n); for (int i = 0; i < k; ++i) c *= 2; return c; }
static inline DdNode* Cudd_Support(DdManager* m, DdNode* n) { std::set<DdNode*> s; cuddWalk(n, s); DdNode* r = &m->one; for (std::set<DdNode*>::iterator t = s.begin(); t != s.end(); ++t) if (!Cudd_IsConstant(*t)) r = Cudd_bddAnd(m, r, Cudd_bddIthVar(m, (int)(*t)->index)); return r; }
static inline int Cudd_bddVarIsDependent(DdManager* m, DdNode* f, DdNode* v) { int p = cuddPos(m, v); (void)p; std::set<DdNode*> s; cuddWalk(f, s); for (std::set<DdNode*>::iterator t = s.begin(); t != s.end(); ++t) if (!Cudd_IsConstant(*t) && (*t)->index == Cudd_Regular(v)->index) return 1; return 0; }
static inline DdNode* Cudd_bddExistAbstract(DdManager* m, DdNode* f, DdNode* cube) {
    if (Cudd_IsConstant(f) || Cudd_IsConstant(cube)) return f;
    int p = cuddPos(m, f), q = cuddPos(m, cube); if (q < p) return Cudd_bddExistAbstract(m, f, cuddBranch(m, cube, q, 1));
    DdNode *c = q == p ? cuddBranch(m, cube, q, 1) : cube, *t = Cudd_bddExistAbstract(m, cuddBranch(m, f, p, 1), c), *e = Cudd_bddExistAbstract(m, cuddBranch(m, f, p, 0), c);
    return q == p ? Cudd_bddOr(m, t, e) : cuddMake(m, m->order[p], t, e);
}
static inline DdNode* Cudd_bddAndAbstract(DdManager* m, DdNode* f, DdNode* g, DdNode* cube) { return Cudd_bddExistAbstract(m, Cudd_bddAnd(m, f, g), cube); }
static inline DdNode* Cudd_bddConstrain(DdManager* m, DdNode* f, DdNode* c) {
    DdNode *one = &m->one, *zero = Cudd_Not(one);
    if (c == one) return f; if (c == zero) return zero; if (Cudd_IsConstant(f)) return f; if (f == c) return one; if (f == Cudd_Not(c)) return zero;
    int p = cuddPos(m, f); if (cuddPos(m, c) < p) p = cuddPos(m, c);
    DdNode *c1 = cuddBranch(m, c, p, 1), *c0 = cuddBranch(m, c, p, 0); if (c1 == zero) return Cudd_bddConstrain(m, cuddBranch(m, f, p, 0), c0); if (c0 == zero) return Cudd_bddConstrain(m, cuddBranch(m, f, p, 1), c1);
    return cuddMake(m, m->order[p], Cudd_bddConstrain(m, cuddBranch(m, f, p, 1), c1), Cudd_bddConstrain(m, cuddBranch(m, f, p, 0), c0));
}
static inline DdNode* Cudd_bddMinimize(DdManager* m, DdNode* f, DdNode* c) { return Cudd_bddConstrain(m, f, c); }
static inline DdNode* Cudd_Cofactor(DdManager* m, DdNode* f, DdNode* cube) { return Cudd_bddConstrain(m, f, cube); }
static inline DdNode* Cudd_bddVectorCompose(DdManager* m, DdNode* f, DdNode** v) { if (Cudd_IsConstant(f)) return f; int p = cuddPos(m, f); return Cudd_bddIte(m, v[m->order[p]], Cudd_bddVectorCompose(m, cuddBranch(m, f, p, 1), v), Cudd_bddVectorCompose(m, cuddBranch(m, f, p, 0), v)); }
static inline int Cudd_ReduceHeap(DdManager*, Cudd_ReorderingType, int) { return 1; }

// C19: states are created, used and destroyed exactly once.
#include "common.h"
#include <tdzdd/dd/PathCounter.hpp>
#ifndef ARITY_
#define ARITY_ 2
#endif
enum { AR = ARITY_ };
typedef DdStructure<AR> Dd;
static long live, made; static bool thrown;
struct Tok { // a state that owns memory and knows where it lives
    Tok const* self; int v, lv; int* own;
    Tok() : self(this), v(0), lv(-1), own(new int(5)) { ++live; ++made; }
    Tok(Tok const& o) : self(this), v(o.v), lv(o.lv), own(new int(5)) { o.ok("a state is copied that does not exist"); ++live; ++made; }
    Tok& operator=(Tok const& o) { ok("a state is assigned that does not exist"); o.ok("a state is copied that does not exist"); v = o.v; lv = o.lv; return *this; }
    ~Tok() { ok("a state is destroyed that does not exist"); delete own; own = 0; self = 0; --live; }
    void ok(const char* msg) const { CHECK(self == this, msg); CHECK(*own == 5, msg); }
    bool operator==(Tok const& o) const { ok("a state is compared that does not exist"); o.ok("a state is compared that does not exist"); return v == o.v; }
};
static int move(Tab* t, Tok& s, std::pair<int, int> p) { (void)t; s.v = p.second; s.lv = p.first > 0 ? p.first : 0; return p.first; }
// levels of a specification: branches were taken at it, it was closed
static std::map<Tab*, std::map<int, std::pair<int, int> > > lev; static bool levels, plain; // plain: no combinator, which may look further than the operation goes
static void use(Tab* t, int l, const char* msg) { if (!levels || l < 1) return; std::pair<int, int>& q = lev[t][l]; CHECK(q.second == 0, msg); q.first = 1; }
static void shut(Tab* t, int l) { if (levels) ++lev[t][l].second; }
static void shutCheck() { for (std::map<Tab*, std::map<int, std::pair<int, int> > >::iterator i = lev.begin(); i != lev.end(); ++i) for (std::map<int, std::pair<int, int> >::iterator j = i->second.begin(); j != i->second.end(); ++j) { CHECK(j->second.second <= 1 && (!plain || !j->second.first || j->second.second == 1), "a level in use is not closed exactly once"); if (j->second.second) __cover("closed"); } lev.clear(); }
struct TokSpec : DdSpec<TokSpec, Tok, AR> {
    Tab* tab; int hk; TokSpec(Tab& t, int hk = 0) : tab(&t), hk(hk) {}
    int getRoot(Tok& s) { s.ok("the root state was not created"); return move(tab, s, tab->root()); }
    int getChild(Tok& s, int l, int b) { s.ok("a branch is taken from a state that does not exist"); CHECK(s.lv == l, "a branch is taken at another level than the state's"); use(tab, l, "a branch is taken at a level already closed"); return move(tab, s, tab->get(l, s.v, b)); }
    void destructLevel(int l) { shut(tab, l); }
    size_t hashCode(Tok const& s) const { s.ok("a state is hashed that does not exist"); use(tab, s.lv, "a state is hashed at a level already closed"); return hk ? 1 : (size_t)s.v * 271828171; }
    void printState(std::ostream& os, Tok const& s) const { s.ok("a state is printed that does not exist"); os << s.v; }
    int mergeStates(Tok& a, Tok& b) { a.ok("a state is merged that does not exist"); b.ok("a state is merged that does not exist"); return 0; }
};
struct TokHybrid : HybridDdSpec<TokHybrid, Tok, short, AR> {
    Tab* tab; TokHybrid(Tab& t, int n = 3) : tab(&t) { setArraySize(n); }
    int getRoot(Tok& s, short* a) { s.ok("the root state was not created"); for (int i = 0; i < getArraySize(); ++i) a[i] = 1; return move(tab, s, tab->root()); }
    int getChild(Tok& s, short* a, int l, int b) { s.ok("a branch is taken from a state that does not exist"); for (int i = 0; i < getArraySize(); ++i) CHECK(a[i] == 1, "the array part of a state is lost"); use(tab, l, "a branch is taken at a level already closed"); return move(tab, s, tab->get(l, s.v, b)); }
    void destructLevel(int l) { shut(tab, l); }
    size_t hashCode(Tok const& s) const { s.ok("a state is hashed that does not exist"); use(tab, s.lv, "a state is hashed at a level already closed"); return (size_t)s.v * 271828171; }
    bool equalTo(Tok const& s, Tok const& t) const { return s == t; }
    void printState(std::ostream& os, Tok const& s, short const* a) const { s.ok("a state is printed that does not exist"); os << s.v << a[0]; }
};
static int s1n_;
template<class S> void touch(S const& s0, int what) {
    S s(s0);
    if (what == 0) { Dd d(s); if (d.size() > 2) __cover("three nodes"); }
    else if (what == 1) { Tab u(s1n_, AR, 2, "u"); u.generate(11, P("nsym2", 0), 10, 15, 2); Dd d((TabSpec<AR>(u))); if (P("pre", 0)) d.zddReduce(); d.zddSubset(s); }
    else if (what == 2) countPaths(s);
    else if (what == 3) countPaths(s, true);
    else if (what == 4) { try { s.findOneInstance(); } catch (std::runtime_error&) { thrown = true; __cover("none found"); } }
    else if (what == 5) { std::ostringstream os; s.dumpDot(os, "t"); }
    else if (what == 6) countPaths64(s);
}
template<class S1, class S2> void combined(S1 const& s, S2 const& s2, int op, int what, int n) {
    if (op == 0) touch(s, what);
    else if (op == 1) touch(zddLookahead(s), what);
    else if (op == 2) touch(bddLookahead(s), what);
    else if (op == 3) touch(zddUnreduction(s, n), what);
    else if (op == 4) touch(bddUnreduction(s, n), what);
    else { if constexpr (AR == 2) {
        if (op == 5) touch(bddAnd(s, s2), what);
        else if (op == 6) touch(bddOr(s, s2), what);
        else if (op == 7) touch(zddIntersection(s, s2), what);
        else if (op == 8) touch(zddUnion(s, s2), what);
        else if (op == 9) touch(zddUnion(zddLookahead(s), bddAnd(s2, s)), what);
    } }
}
extern "C" void harness_main() {
    int n = P("n", 2), w = P("w", 2), kind = P("kind", 0), op = P("op", -1), what = P("what", -1); live = made = 0; thrown = false; s1n_ = n;
    lev.clear(); u64 before = __live_allocs();
    { Tab t = makeTab(n, AR, w), t2 = makeTab(n, AR, w, "v", 30);
      if (P("gen2", 0)) t2.generate(5, P("nsym2", 0), 10, 15, 2);
      if (op < 0) op = choose("op", 0, AR == 2 ? P("maxop", 9) : 4);
      if (what < 0) what = choose("what", 0, 6);
      levels = op != 9; plain = op == 0; // 9 holds one specification twice
      if (kind == 0) combined(TokSpec(t), TokSpec(t2), op, what, n);
      else if (kind == 1) combined(TokSpec(t, 1), TokHybrid(t2), op, what, n);
      else if (kind == 2) combined(TokHybrid(t), TokSpec(t2), op, what, n);
      shutCheck(); CHECK(live == 0, "a state is never destroyed"); }
    if (!thrown) CHECK(__live_allocs() == before, "memory is not released");
    if (made) __cover("states"); finish();
}

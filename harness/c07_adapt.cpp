// C07: look-ahead, unreduction, bdd2zdd, zdd2bdd.
#include "common.h"
#ifndef ARITY_
#define ARITY_ 2
#endif
enum { AR = ARITY_ };
typedef DdStructure<AR> Dd;
static void noSkip(Dd const& d, int nv) { // quasi-reduced shape: no branch skips a level, except to the rejecting terminal
    if (d.root() == 0) return;
    CHECK(d.root().row() == nv, "unreduction does not start at the top variable");
    std::map<u64, int> seen; collect(d, d.root(), seen);
    for (std::map<u64, int>::iterator it = seen.begin(); it != seen.end(); ++it) for (int b = 0; b < AR; ++b) {
        NodeId f(it->first), g = d.child(f, b);
        CHECK(g == 0 || g.row() == f.row() - 1, "unreduction skips a level");
    }
}
template<class S> void go(Tab& t, S const& s, int n, int nv, int op) {
    int m = nv > n ? nv : n; Assign<AR> a(m); // the variables above the root level count as well
    int top = t.root().first; int real = nv > top ? nv : (top > 0 ? top : 0);
    Assign<AR>& ar = a; ar.n = real; // only the real variables
    u64 b = tabFun(t, ar, BDDR), z = tabFun(t, ar, ZDDR);
    if (op == 0) { Dd d(bddLookahead(s)); CHECK(ddFun(d, a, BDDR) == b, "BDD look-ahead changes the function"); }
    else if (op == 1) { Dd d(zddLookahead(s)); CHECK(ddFun(d, a, ZDDR) == z, "ZDD look-ahead changes the family"); }
    else if (op == 2) { Dd d(bddUnreduction(s, nv)); noSkip(d, real); CHECK(ddFun(d, a, BDDR) == b && ddFun(d, a, ZDDR) == b, "BDD unreduction changes the function"); }
    else if (op == 3) { Dd d(zddUnreduction(s, nv)); noSkip(d, real); CHECK(ddFun(d, a, BDDR) == z && ddFun(d, a, ZDDR) == z, "ZDD unreduction changes the family"); }
    else if (op == 4) { Dd o(s); if (P("reduce", -1) < 0 ? choose("reduce", 0, 1) : P("reduce", 0)) o.bddReduce(); Dd d(o.bdd2zdd(nv)); CHECK(ddFun(d, a, ZDDR) == b, "bdd2zdd changes the function"); CHECK(ddFun(o, a, BDDR) == b, "bdd2zdd modified its operand"); }
    else if (op == 5) { Dd o(s); if (P("reduce", -1) < 0 ? choose("reduce", 0, 1) : P("reduce", 0)) o.zddReduce(); Dd d(o.zdd2bdd(nv)); CHECK(ddFun(d, a, BDDR) == z, "zdd2bdd changes the family"); CHECK(ddFun(o, a, ZDDR) == z, "zdd2bdd modified its operand"); }
    else if (op == 6) { Dd o(s); Dd d(o.bdd2zdd(nv).zdd2bdd(nv)); CHECK(ddFun(d, a, BDDR) == b, "converting to ZDD and back changes the function"); d.bddReduce(); o.bddReduce(); CHECK(d == o, "converting to ZDD and back is not the identity"); }
    else if (op == 7) { Dd d(zddLookahead(bddUnreduction(s, nv))); CHECK(ddFun(d, a, ZDDR) == b, "look-ahead of an unreduction is wrong"); }
    else if (op == 8) { Dd d(bddLookahead(zddUnreduction(zddLookahead(s), nv))); CHECK(ddFun(d, a, BDDR) == z, "look-ahead of an unreduction of a look-ahead is wrong"); }
    finish();
}
extern "C" void harness_main() {
    int n = P("n", 3), w = P("w", 2), kind = P("kind", 0), op = P("op", -1), nv = P("nv", -1);
    Tab t = makeTab(n, AR, kind == 9 ? 1 : w);
    if (op < 0) op = choose("op", 0, 8);
    if (nv < 0) nv = choose("nv", 0, n + 1);
    if (op >= 4 && nv < t.root().first) nv = t.root().first; // conversions are for at least the variables in use
    if (kind == 0) go(t, TabSpec<AR>(t), n, nv, op);
    else if (kind == 1) go(t, TabSpec<AR>(t, H_CONST), n, nv, op);
    else if (kind == 3) go(t, TabArraySpec<AR, int>(t, 3), n, nv, op);
    else if (kind == 5) go(t, TabHybridSpec<AR>(t, 2), n, nv, op);
    else if (kind == 9) go(t, TabStateless<AR>(t), n, nv, op);
}

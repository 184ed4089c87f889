// C05: zddSubset(spec) leaves the members of the diagram's family that the spec accepts.
#include "common.h"
#ifndef ARITY_
#define ARITY_ 2
#endif
enum { AR = ARITY_ };
typedef DdStructure<AR> Dd;
template<class SPEC> void go(Tab& t1, Tab& t2, SPEC const& spec, int n) {
    Dd d((TabSpec<AR>(t1)));
    int pre = P("pre", -1); if (pre < 0) pre = choose("pre", 0, 2);
    if (pre == 1) d.zddReduce(); else if (pre == 2) d.qddReduce();
    Assign<AR> a(n);
    u64 f1 = tabFun(t1, a, ZDDR), f2 = tabFun(t2, a, ZDDR);
    CHECK(ddFun(d, a, ZDDR) == f1, "the diagram to be subsetted is wrong");
    bool shared = P("shared", -1) < 0 ? choose("shared", 0, 1) : P("shared", 0);
    size_t sz = d.size();
    if (shared) {
        Dd keep(d); d.zddSubset(spec);
        CHECK(ddFun(keep, a, ZDDR) == f1 && keep.size() == sz, "subsetting changed a copy of the diagram");
        __cover("shared");
    } else d.zddSubset(spec);
    CHECK(ddFun(d, a, ZDDR) == (f1 & f2), "the subset is not the intersection");
    CHECK(reachable(d) <= d.size(), "a reachable node is not in the table");
    if (d.size() >= 3) __cover("three nodes");
    int post = P("post", -1) < 0 ? choose("post", 0, 2) : P("post", 0);
    if (post == 1) { d.zddReduce(); CHECK(ddFun(d, a, ZDDR) == (f1 & f2), "reducing the subset changed it"); checkCanonical(d, RZ); }
    if (post == 2) { d.zddSubset(TabSpec<AR>(t1)); CHECK(ddFun(d, a, ZDDR) == (f1 & f2), "subsetting again changed the subset"); }
    finish();
}
extern "C" void harness_main() {
    int n = P("n", 2), w = P("w", 1), w2 = P("w2", 1), kind = P("kind", 0);
    Tab t1 = makeTab(n, AR, w, "t"), t2 = makeTab(P("n2", n), AR, w2, "u", 100);
    if (P("n2", n) > n) n = P("n2", n);
    if (kind == 0) go(t1, t2, TabSpec<AR>(t2), n);
    else if (kind == 1) go(t1, t2, TabSpec<AR>(t2, H_CONST), n);
    else if (kind == 3) go(t1, t2, TabArraySpec<AR, short>(t2, P("sz", 3)), n);
    else if (kind == 5) go(t1, t2, TabHybridSpec<AR>(t2, P("sz", 2)), n);
    else if (kind == 9) go(t1, t2, TabStateless<AR>(t2), n);
    else if (kind == 10) { Dd o((TabSpec<AR>(t2))); go(t1, t2, o, n); }
}

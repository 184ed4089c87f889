// C06: AND/OR/intersection/union of specs.
#include "common.h"
typedef DdStructure<2> Dd;
template<class S> void verify(S const& spec, Assign<2> const& a, Rule r, u64 want, const char* msg) {
    Dd d(spec); CHECK(ddFun(d, a, r) == want, msg);
    if (d.size() >= 3) __cover("three nodes");
}
template<class S1, class S2> void two(Tab& t1, Tab& t2, S1 const& s1, S2 const& s2, int n, int op) {
    Assign<2> a(n);
    u64 b1 = tabFun(t1, a, BDDR), b2 = tabFun(t2, a, BDDR), z1 = tabFun(t1, a, ZDDR), z2 = tabFun(t2, a, ZDDR);
    if (op == 0) verify(bddAnd(s1, s2), a, BDDR, b1 & b2, "AND of two specs is wrong");
    else if (op == 1) verify(bddOr(s1, s2), a, BDDR, b1 | b2, "OR of two specs is wrong");
    else if (op == 2) verify(zddIntersection(s1, s2), a, ZDDR, z1 & z2, "intersection of two specs is wrong");
    else verify(zddUnion(s1, s2), a, ZDDR, z1 | z2, "union of two specs is wrong");
}
template<class S1, class S2, class S3> void three(Tab& t1, Tab& t2, Tab& t3, S1 const& s1, S2 const& s2, S3 const& s3, int n, int op) {
    Assign<2> a(n);
    u64 b1 = tabFun(t1, a, BDDR), b2 = tabFun(t2, a, BDDR), b3 = tabFun(t3, a, BDDR), z1 = tabFun(t1, a, ZDDR), z2 = tabFun(t2, a, ZDDR), z3 = tabFun(t3, a, ZDDR);
    if (op == 0) verify(bddAnd(s1, s2, s3), a, BDDR, b1 & b2 & b3, "AND of three specs is wrong");
    else if (op == 1) verify(bddOr(s1, s2, s3), a, BDDR, b1 | b2 | b3, "OR of three specs is wrong");
    else if (op == 2) verify(zddIntersection(s1, s2, s3), a, ZDDR, z1 & z2 & z3, "intersection of three specs is wrong");
    else if (op == 3) verify(zddUnion(s1, s2, s3), a, ZDDR, z1 | z2 | z3, "union of three specs is wrong");
    else if (op == 4) verify(bddOr(bddAnd(s1, s2), s3), a, BDDR, (b1 & b2) | b3, "nested OR of AND is wrong");
    else if (op == 5) verify(bddAnd(s1, bddOr(s2, s3)), a, BDDR, b1 & (b2 | b3), "nested AND of OR is wrong");
    else if (op == 6) verify(zddUnion(zddIntersection(s1, s2), s3), a, ZDDR, (z1 & z2) | z3, "nested union of intersection is wrong");
    else if (op == 7) verify(zddIntersection(zddUnion(s1, s2), s3), a, ZDDR, (z1 | z2) & z3, "nested intersection of union is wrong");
    else if (op == 8) verify(bddAnd(s1, s2, s3, s1), a, BDDR, b1 & b2 & b3, "AND of four specs is wrong");
    else if (op == 9) verify(zddUnion(s1, s2, s3, s2), a, ZDDR, z1 | z2 | z3, "union of four specs is wrong");
}
extern "C" void harness_main() {
    int n = P("n", 2), w = P("w", 1), ops = P("ops", 2), kinds = P("kinds", 0), op = P("op", -1);
    Tab t1 = makeTab(n, 2, kinds == 1 ? 1 : w, "t"), t2 = makeTab(P("n2", n), 2, w, "u", 50), t3 = makeTab(P("n3", n), 2, w, "v", 90);
    int m = n; if (t2.n > m) m = t2.n; if (ops == 3 && t3.n > m) m = t3.n;
    if (op < 0) op = choose("op", 0, ops == 2 ? 3 : 9);
    TabSpec<2> a(t1), b(t2), c(t3);
    if (ops == 2) {
        if (kinds == 0) two(t1, t2, a, b, m, op);
        else if (kinds == 1) two(t1, t2, TabStateless<2>(t1), TabArraySpec<2, int>(t2, 3), m, op);
        else if (kinds == 2) two(t1, t2, TabHybridSpec<2>(t1, 3), TabSpec<2>(t2, H_CONST), m, op);
        else if (kinds == 3) two(t1, t2, Dd(a), b, m, op);
        else if (kinds == 4) two(t1, t2, TabArraySpec<2, char>(t1, 3), TabHybridSpec<2, int, char>(t2, 1), m, op);
        else if (kinds == 5) two(t1, t2, TabArraySpec<2, int>(t1, 5), TabHybridSpec<2>(t2, 9), m, op);
    } else if (ops == 3) {
        if (kinds == 0) three(t1, t2, t3, a, b, c, m, op);
        else if (kinds == 1) three(t1, t2, t3, TabStateless<2>(t1), TabArraySpec<2, short>(t2, 5), TabHybridSpec<2>(t3, 2), m, op);
    }
    finish();
}

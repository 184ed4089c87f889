// C02 (mode 0): reductions preserve the function.  C03 (mode 1..3): reduced diagrams are canonical, == decides equivalence.
#include "common.h"
#ifndef ARITY_
#define ARITY_ 2
#endif
enum { AR = ARITY_ };
typedef DdStructure<AR> Dd;
static void reduce(Dd& d, int red) { if (red == RQ) d.qddReduce(); else if (red == RB) d.bddReduce(); else d.zddReduce(); }
static void same(Dd const& d, Dd const& o, int red, Assign<AR> const& a) {
    if (red != RZ) CHECK(ddFun(d, a, BDDR) == ddFun(o, a, BDDR), "reduction changed the function (skipped levels free)");
    if (red != RB) CHECK(ddFun(d, a, ZDDR) == ddFun(o, a, ZDDR), "reduction changed the family (skipped levels zero)");
}
extern "C" void harness_main() {
    int n = P("n", 3), w = P("w", 2), mode = P("mode", 0), red = P("red", -1);
    Tab tab = makeTab(n, AR, w);
    Dd orig((TabSpec<AR>(tab)));
    if (red < 0) red = choose("red", 0, 2);
    Assign<AR> a(n);
    if (mode == 0) {
        Dd keep(orig); u64 fB = ddFun(orig, a, BDDR), fZ = ddFun(orig, a, ZDDR); size_t sz = orig.size();
        Dd d(orig); reduce(d, red); same(d, orig, red, a);
        // the diagram it shared storage with is as before
        CHECK(ddFun(keep, a, BDDR) == fB && ddFun(keep, a, ZDDR) == fZ && keep.size() == sz, "reducing a diagram changed a copy of it");
        Dd e(d); int red2 = P("red2", -1); if (red2 == -1) red2 = red == RQ ? choose("red2", 0, 2) : choose("red2", 0, 1) ? red : RQ;
        reduce(e, red2); same(e, d, red2, a);
        if (red == red2) CHECK(e.size() == d.size(), "reducing again changed the size");
        // unshared storage
        Dd f((TabSpec<AR>(tab))); reduce(f, red); same(f, orig, red, a); CHECK(f.size() == d.size(), "the reduced size depends on sharing");
        if (d.size() < orig.size()) __cover("nodes removed");
        if (d.size() >= 3) __cover("three nodes left");
    } else if (mode == 1) {
        Dd d(orig); reduce(d, red); checkCanonical(d, (Red)red);
        Canon<AR> c((Red)red); u64 ref = c.of(tab);
        CHECK(d.size() == c.nodes(ref), "the reduced diagram is not minimal");
        CHECK(c.of(d) == ref, "the reduced diagram is not the canonical diagram of its function");
        // another way to the same function
        Dd e((TabArraySpec<AR, int>(tab, 2))); reduce(e, red);
        CHECK(d == e && e == d && !(d != e), "two reductions of the same function are not equal");
        CHECK(d == d && orig == orig, "equality is not reflexive");
        Dd q(orig); q.qddReduce(); reduce(q, red); CHECK(q == d, "reducing in two steps gives another diagram");
    } else if (mode == 4) { // the same graph with every node twice, references to the copies mixed, and perhaps one entry changed
        Tab t2(n, AR, 2 * w); t2.t = tab.t; int left = P("alias", 3), change = choose("change", 0, 1), at = 0, from = change ? choose("entry", 0, (int)tab.t.size() - 1) : -1;
        for (std::map<int, std::pair<int, int> >::iterator it = tab.t.begin(); it != tab.t.end(); ++it, ++at) for (int c = 0; c < 2; ++c) {
            std::pair<int, int> p = it->second; int lev = it->first / 8 / 1024, s = it->first / 8 % 1024, b = it->first % 8; if (lev > n && c) continue;
            if (p.first > 0) { int al = left > 0 ? (left--, choose("copy", 0, 1)) : (int)(Tab::mix(it->first * 2 + c) & 1); p.second += al * w; }
            if (at == from && (c || lev > n)) { int l = lev - 1; p = p.first > 0 ? std::make_pair(0, 0) : p.first == 0 ? std::make_pair(-1, 0) : l > 0 && tab.t.count((l * 1024) * 8) ? std::make_pair(l, 0) : std::make_pair(0, 0); }
            t2.t[(lev * 1024 + s + c * w) * 8 + b] = p;
        }
        Dd e((TabSpec<AR>(t2))); Canon<AR> c(RN); bool want = c.of(orig) == c.of(e);
        if (!change) CHECK(want, "reference comparison fails");
        CHECK((orig == e) == want && (e == orig) == want && (orig != e) == !want, "equality of unreduced diagrams with repeated nodes");
        if (e.size() > orig.size()) __cover("repeated nodes"); __cover(want ? "equal" : "different");
    } else { // two tables
        Tab t2 = mode == 2 ? makeTab(n, AR, w, "u", P("off", 0)) : tab;
        if (mode == 3) { // one entry differs
            std::map<int, std::pair<int, int> >::iterator it = t2.t.begin(); int k = choose("entry", 0, (int)t2.t.size() - 1); while (k-- > 0) ++it;
            int lev = it->first / 8 / 1024; t2.gen = false; t2.w = w; it->second = t2.pick(lev);
        }
        Dd o2((TabSpec<AR>(t2))), d(orig), e(o2);
        int unred = P("unred", 0);
        if (unred) { red = RN; } else { reduce(d, red); reduce(e, red); }
        bool eq = d == e; Canon<AR> c((Red)red); u64 r1 = c.of(tab), r2 = c.of(t2);
        if (unred) { // nothing is swept: compare the graphs after merging equal nodes only
            r1 = c.of(orig); r2 = c.of(o2);
        }
        CHECK(eq == (r1 == r2), "equality does not decide equivalence");
        CHECK(eq == (e == d) && eq != (d != e), "equality is not symmetric or != is not its negation");
        if (!unred && eq) { if (red != RZ) CHECK(ddFun(d, a, BDDR) == ddFun(e, a, BDDR), "equal diagrams represent different functions"); if (red != RB) CHECK(ddFun(d, a, ZDDR) == ddFun(e, a, ZDDR), "equal diagrams represent different families"); }
        __cover(eq ? "equal" : "different");
    }
    finish();
}

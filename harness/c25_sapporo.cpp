// C25: export to and import from the SAPPORO package, whose calls are modelled by harness/sapporo.
#include "common.h"
#include "sapporo/BDD.h"
#include "sapporo/ZBDD.h"
#include <tdzdd/eval/ToBDD.hpp>
#include <tdzdd/eval/ToZBDD.hpp>
#include <tdzdd/spec/SapporoBdd.hpp>
#include <tdzdd/spec/SapporoZdd.hpp>
enum { AR = 2 };
typedef DdStructure<2> Dd;
static void variables(int k, bool perm) { // k variables exist already, at any levels
    Sapporo::used() = k; u64 taken = 0;
    for (int l = 1; l <= k; ++l) { int v = perm ? choose("var", 1, k) : l; __assume((taken >> v & 1) == 0); taken |= 1ULL << v; Sapporo::varOfLev()[l] = v; }
}
static u64 bitOf(u64 t, Assign<2> const& a, int n) { u64 r = 0; for (int k = 0; k < 1 << n; ++k) { u64 hit = t >> k & 1; for (int l = 1; l <= n; ++l) hit &= (u64)(a.d[l] == (u64)(k >> (l - 1) & 1)); r |= hit; } return r; }
extern "C" void harness_main() {
    int what = P("what", 0), n = P("n", 2), mp = P("mp", 0); bool perm = P("perm", 1);
    if (what < 2) { // export
        Tab t = makeTab(n, 2, P("w", 2)); int off = choose("offset", what == 0 ? 0 : -P("neg", 1), P("off", 2));
        variables(choose("exist", 0, P("exist", 2)), perm); int had = Sapporo::used();
        Dd d((TabSpec<2>(t)), mp != 0); if (P("red", 0) == 1) d.zddReduce(); if (P("red", 0) == 2) d.bddReduce();
        int top = d.topLevel(), all = had > top + off ? had : top + off; if (all < 0) all = 0;
        Assign<2> a(6); Assign<2> b(n); for (int l = 1; l <= n; ++l) b.d[l] = l + off >= 1 ? a.d[l + off] : 0;
        if (what == 0) {
            BDD f = d.evaluate(ToBDD(off)); CHECK(Sapporo::used() == all, "not as many variables are created as are needed");
            CHECK(bitOf(f.t, a, 6) == ddFun(d, b, BDDR), "the exported BDD is another function");
        } else {
            ZBDD f = d.evaluate(ToZBDD(off)); CHECK(Sapporo::used() == all, "not as many variables are created as are needed");
            u64 rest = 1; for (int l = 1; l <= 6; ++l) if (l - off < 1 || l - off > n) rest &= 1 ^ a.d[l];
            CHECK(bitOf(f.t, a, 6) == (ddFun(d, b, ZDDR) & rest), "the exported ZBDD is another family");
        }
        if (had && off) __cover("offset and old variables"); if (d.size() > 2) __cover("three nodes");
    } else { // import; n variables in the package
        variables(n, perm); int off = P("off", 0) < 0 ? P("off", 0) : choose("offset", P("offmin", 0), P("off", 0)); u64 t = __sym("table", 64) & (n == 6 ? ~0ULL : (1ULL << (1 << n)) - 1);
        Assign<2> a(n + 2), b(n); for (int l = 1; l <= n; ++l) b.d[l] = l - off >= 1 ? a.d[l - off] : 0;
        u64 rest = 1; for (int l = n - off + 1; l <= n + 2; ++l) if (l >= 1) rest &= 1 ^ a.d[l]; // levels above the diagram
        if (what == 2) {
            u64 x = t; for (int l = n; l < 6; ++l) x |= x << (1 << l);
            bool low = false; for (int l = 1; l <= off && l <= n; ++l) if (Sapporo::f0(x, l) != Sapporo::f1(x, l)) low = true;
            bool threw = false; Dd d; try { d = Dd(SapporoBdd(BDD::of(x), off)); } catch (std::runtime_error&) { threw = true; }
            CHECK(threw == low, "a function that depends on a variable below the offset is not refused, or another one is");
            if (!threw) { CHECK(ddFun(d, a, BDDR) == bitOf(t, b, n), "the imported BDD is another function"); if (d.size() > 2) __cover("three nodes"); } else __cover("refused");
        } else {
            Dd d(SapporoZdd(ZBDD::of(t), off), mp != 0);
            CHECK(ddFun(d, a, ZDDR) == (bitOf(t, b, n) & rest), "the imported ZBDD is another family"); if (d.size() > 2) __cover("three nodes");
        }
    }
    finish();
}

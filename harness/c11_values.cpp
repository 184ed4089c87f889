// C11: diagrams are independent values.
#include "common.h"
#ifndef ARITY_
#define ARITY_ 2
#endif
enum { AR = ARITY_ };
typedef DdStructure<AR> Dd;
static Dd passThrough(Dd d) { return d; }
struct Model { u64 f; size_t size; u64 root; std::string card; };
static Model look(Dd const& d, Assign<AR> const& a) { Model m; m.f = ddFun(d, a, ZDDR); m.size = d.size(); m.root = d.root().code(); m.card = d.zddCardinality(); return m; }
static void same(Dd const& d, Model const& m, Assign<AR> const& a, const char* what) {
    CHECK(d.size() == m.size && d.root().code() == m.root, what);
    CHECK(d.zddCardinality() == m.card, what);
    CHECK(ddFun(d, a, ZDDR) == m.f, what);
}
extern "C" void harness_main() {
    int n = P("n", 3), w = P("w", 2), steps = P("steps", 3); enum { K = 2 };
    Tab t = makeTab(n, AR, w), t2(n, AR, 2, "u"); t2.generate(9, P("nsym2", 0), 10, 10, 3);
    Assign<AR> a(n); u64 g = tabFun(t2, a, ZDDR), f0 = tabFun(t, a, ZDDR);
    u64 live0 = __live_allocs();
    {
        Dd d[K]; Model m[K]; d[0] = Dd(TabSpec<AR>(t)); d[1] = choose("second", 0, 1) ? Dd(n) : d[0];
        for (int i = 0; i < K; ++i) m[i] = look(d[i], a);
        CHECK(m[0].f == f0, "assignment of a new diagram is wrong");
        for (int s = 0; s < steps; ++s) {
            int op = choose("op", 0, 10), i = choose("i", 0, K - 1), j = choose("j", 0, K - 1);
            if (op >= 3 && op <= 7) __assume(j == 0);
            if (op == 10) __assume(i != j);
            switch (op) {
            case 0: d[i] = d[j]; m[i] = m[j]; break;
            case 1: { Dd c(d[j]); d[i] = passThrough(c); m[i] = m[j]; same(c, m[j], a, "a copy changed"); break; }
            case 2: { Dd c(d[j]); c.zddReduce(); CHECK(ddFun(c, a, ZDDR) == m[j].f, "reducing a copy gives another family"); c = Dd(); CHECK(c.empty(), "cleared diagram is not empty"); break; }
            case 3: d[i].zddReduce(); { u64 f = m[i].f; m[i] = look(d[i], a); CHECK(m[i].f == f, "reduction changes the family"); } break;
            case 4: d[i].qddReduce(); { u64 f = m[i].f; m[i] = look(d[i], a); CHECK(m[i].f == f, "quasi-reduction changes the family"); } break;
            case 5: d[i].zddSubset(TabSpec<AR>(t2)); { u64 f = m[i].f & g; m[i] = look(d[i], a); CHECK(m[i].f == f, "subsetting gives the wrong family"); } break;
            case 6: d[i] = Dd(); m[i] = look(d[i], a); CHECK(m[i].f == 0 && d[i].size() == 0, "cleared diagram is not empty"); break;
            case 7: { Dd* p = new Dd(d[i]); p->zddSubset(TabSpec<AR>(t2)); CHECK(ddFun(*p, a, ZDDR) == (m[i].f & g), "subsetting a copy gives the wrong family"); delete p; break; }
            case 8: { Dd c(d[j]); d[i].zddSubset(c); u64 f = m[i].f & m[j].f; same(c, m[j], a, "a diagram used as a specification changed"); Model k = m[j]; m[i] = look(d[i], a); CHECK(m[i].f == f, "subsetting with a diagram gives the wrong family"); (void)k; break; }
            case 9: { d[i] = Dd(d[j]); Dd c(zddLookahead(d[j])); CHECK(ddFun(c, a, ZDDR) == m[j].f, "a diagram used as a specification gives another family"); m[i] = look(d[i], a); CHECK(m[i].f == m[j].f, "a diagram built from a diagram differs"); break; }
            case 10: { d[i].zddSubset(d[j]); u64 f = m[i].f & m[j].f; m[i] = look(d[i], a); CHECK(m[i].f == f, "subsetting with a diagram gives the wrong family"); break; }
            }
            for (int k = 0; k < K; ++k) same(d[k], m[k], a, "an operation on one diagram changed another one");
            bool e = d[0] == d[1]; CHECK(e == (d[1] == d[0]) && (d[0] == d[0]), "comparison is not symmetric or not reflexive"); if (m[0].root == m[1].root && m[0].size == 0 && m[1].size == 0) CHECK(e == (m[0].root == m[1].root), "equal terminals differ");
        }
    }

    CHECK(__live_allocs() == live0, "memory of a diagram is not released");
    finish();
}

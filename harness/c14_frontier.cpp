// C14: frontier-based search and degree constraints.
#include "graphs.h"
#include <tdzdd/spec/FrontierBasedSearch.hpp>
#include <tdzdd/spec/DegreeConstraint.hpp>
typedef DdStructure<2> Dd;
// a set of small degrees, with the default or the tightest bounds
struct AnySet : IntSubset {
    u64 bits; int lo, up;
    AnySet(u64 b = 0, bool tight = false) : bits(b), lo(0), up(INT_MAX) { if (tight && b) { up = 15; while (!(b >> up & 1)) --up; while (!(b >> lo & 1)) ++lo; } }
    bool contains(int x) const { return x >= 0 && x < 16 && (bits >> x & 1); }
    int lowerBound() const { return lo; }
    int upperBound() const { return up; }
};
static u64 refFrontier(ESet const& s, std::vector<int> const& color, int nuec, bool noLoop) {
    int V = s.g.nv; u64 ok = 1, uec = 0, comps = 0, edges = 0;
    std::vector<std::vector<u64> > R(V + 1); for (int v = 1; v <= V; ++v) R[v] = s.reach(v);
    for (int a = 1; a <= V; ++a) for (int b = a + 1; b <= V; ++b) if (color[a] && color[b]) ok &= color[a] == color[b] ? R[a][b] : R[a][b] ^ 1;
    for (int v = 1; v <= V; ++v) {
        u64 first = 1, col = color[v] != 0; for (int a = 1; a <= V; ++a) if (a != v) { if (a < v) first &= R[v][a] ^ 1; if (color[a]) col |= R[v][a]; }
        comps += first; uec += first & (col ^ 1) & (u64)(s.deg[v] != 0);
    }
    for (int i = 0; i < s.g.n(); ++i) edges += s.in[i];
    if (nuec >= 0) ok &= (u64)(uec == (u64)nuec);
    if (noLoop) ok &= (u64)(edges + comps == (u64)V);
    return ok;
}
extern "C" void harness_main() {
    G g = G::make(); Graph gr; g.fill(gr); u64 want = 1; Dd d;
    bool la = P("la", -1) < 0 ? pick("la", 0, 1) : P("la", 0);
    if (P("deg", 0)) {
        gr.update(); ESet s(g);
        int D = P("D", 3); bool tight = pick("tight", 0, 1); AnySet sets[20]; int common = P("common", 1), who = common ? 0 : pick("vertices", 0, (1 << g.nv) - 1);
        AnySet all; if (common) all = AnySet((u64)pick("set", 1, (1 << (D + 1)) - 1), tight);
        DegreeConstraint dc(gr, common ? &all : 0, la);
        for (int v = 1; v <= g.nv; ++v) {
            if (common) { want &= (u64)(all.bits >> s.deg[v]) & 1; continue; }
            if (!(who >> (v - 1) & 1)) continue;
            sets[v] = AnySet((u64)pick("set", 1, (1 << (D + 1)) - 1), tight); want &= (u64)(sets[v].bits >> s.deg[v]) & 1;
            if (v & 1) dc.setConstraint(G::name(v), &sets[v]); else dc.setConstraint(gr.getVertex(G::name(v)), &sets[v]);
        }
        d = Dd(dc); CHECK(ddFun(d, s.a, ZDDR) == want, "degree constraint specification is wrong");
        if (d.root() != 0) __cover("some solution");
        finish(); return;
    }
    std::vector<int> color(g.nv + 1, 0); int nc = 0, left = P("colored", 4);
    for (int v = 1; v <= g.nv && left > 0; ++v) { int c = pick("color", 0, nc + 1 < P("C", 2) ? nc + 1 : P("C", 2)); if (c) { --left; if (c > nc) nc = c; color[v] = c; gr.setColor(G::name(v), c); } }
    gr.update(); ESet s(g);
    int nuec = P("uec", -9) > -9 ? P("uec", 0) : pick("uec", -1, 2); bool noLoop = P("noloop", -1) < 0 ? pick("noLoop", 0, 1) : P("noloop", 0);
    want = refFrontier(s, color, nuec, noLoop);
    d = Dd(FrontierBasedSearch(gr, nuec, noLoop, la));
    CHECK(ddFun(d, s.a, ZDDR) == want, "frontier-based search specification is wrong");
    if (d.root() != 0) __cover("some solution");
    finish();
}

// C13: path and cycle specifications.
#include "graphs.h"
#include <tdzdd/spec/PathZdd.hpp>
#include <tdzdd/spec/PathZddByStdMap.hpp>
typedef DdStructure<2> Dd;
typedef std::vector<std::pair<int, int> > Pairs;
static u64 refPaths(ESet const& s, Pairs const& p, bool ham) {
    u64 ok = 1; std::vector<int> term(s.g.nv + 1, 0); std::vector<u64> any(s.g.nv + 1, 0);
    for (size_t c = 0; c < p.size(); ++c) { term[p[c].first] = term[p[c].second] = (int)c + 1; any[p[c].first] = any[p[c].second] = 1; }
    for (int v = 1; v <= s.g.nv; ++v) ok &= term[v] ? (u64)(s.deg[v] == 1) : ham ? (u64)(s.deg[v] == 2) : (u64)(s.deg[v] == 0) | (u64)(s.deg[v] == 2);
    for (size_t c = 0; c < p.size(); ++c) ok &= s.reach(p[c].first)[p[c].second];
    return ok & s.allEdgesIn(s.reach(any));
}
static u64 refCycle(ESet const& s, bool ham) {
    u64 ok = 1, before = 0; std::vector<u64> root(s.g.nv + 1, 0);
    for (int v = 1; v <= s.g.nv; ++v) { u64 on = (u64)(s.deg[v] == 2); ok &= ham ? on : (on | (u64)(s.deg[v] == 0)); root[v] = on & (before ^ 1); before |= on; }
    return ok & before & s.allEdgesIn(s.reach(root));
}
// The recorded findings of known_findings.jsonl (the code is under spec/, which must not be edited): a set that is a
// path system or a cycle is also accepted if every vertex it misses lies, at its last edge, beyond the frontier window or
// (cycles) is the first vertex of the window.  Anything else is a violation; the findings themselves are the runs known_*.
static u64 knownMiss(Graph const& gr, ESet const& s, u64 sys, bool cycle) {
    u64 r = 0, later = 0; int mas = gr.maxFrontierSize();
    for (int i = s.g.n() - 1; i >= 0; --i) {
        u64 ok = s.in[i] & (later ^ 1); later |= s.in[i]; int v0 = gr.edgeInfo(i).v0;
        for (int v = 1; v <= s.g.nv; ++v) { int k = gr.getVertex(G::name(v)); if (!(k >= v0 + mas || (cycle && k == v0))) ok &= (u64)(s.deg[v] != 0); }
        r |= ok;
    }
    return r & sys;
}
extern "C" void harness_main() {
    int type = P("type", 0), np = P("pairs", 1);
    G g = G::make(); Graph gr; g.fill(gr);
    Pairs p; std::set<int> used;
    if (type == 0 || type == 1 || type == 4) for (int c = 0; c < np; ++c) {
        Pairs cand; for (int a = 1; a <= g.nv; ++a) for (int b = a + 1; b <= g.nv; ++b) if (!used.count(a) && !used.count(b) && (c == 0 || a > p[c - 1].first)) cand.push_back(std::make_pair(a, b));
        if (cand.empty()) { __cover("too few vertices"); __end_path(); }
        std::pair<int, int> q = cand[pick("pair", 0, (int)cand.size() - 1)]; int a = q.first, b = q.second;
        used.insert(a); used.insert(b); p.push_back(std::make_pair(a, b)); gr.setColor(G::name(a), c + 1); gr.setColor(G::name(b), c + 1);
    }
    gr.update(); ESet s(g);
    u64 want = type == 0 || type == 4 ? refPaths(s, p, false) : type == 1 ? refPaths(s, p, true) : refCycle(s, type == 3);
    Dd d; bool la = P("la", -1) < 0 ? pick("la", 0, 1) : P("la", 0);
    if (type == 0) d = Dd(PathZdd(gr, la)); else if (type == 1) d = Dd(HamiltonPathZdd(gr, la)); else if (type == 2) d = Dd(CycleZdd(gr, la)); else if (type == 3) d = Dd(HamiltonCycleZdd(gr, la)); else d = Dd(PathZddByStdMap(gr));
    u64 got = ddFun(d, s.a, ZDDR);
    if ((type == 1 || type == 3) && !P("known", 0)) want |= got & knownMiss(gr, s, type == 1 ? refPaths(s, p, false) : refCycle(s, false), type == 3);
    CHECK(got == want, type == 0 ? "path specification is wrong" : type == 1 ? "Hamiltonian path specification is wrong" : type == 2 ? "cycle specification is wrong" : type == 3 ? "Hamiltonian cycle specification is wrong" : "map-based path specification is wrong");
    d.zddReduce(); CHECK(ddFun(d, s.a, ZDDR) == got, "reducing the diagram of a graph changes it"); if (d.root() != 0) __cover("some solution");
    finish();
}

// C01: the diagram built from a spec represents exactly the spec's function.
#include "common.h"
#ifndef ARITY_
#define ARITY_ 2
#endif
enum { AR = ARITY_ };
// the diagram follows the table: same levels, one node per state, only hopeless branches may be cut
struct Follow {
    Tab& tab; DdStructure<AR> const& dd; TabLive live; std::map<int, u64> id;
    Follow(Tab& t, DdStructure<AR> const& d) : tab(t), dd(d), live(t) {}
    void at(std::pair<int, int> p, NodeId f) {
        if (!live.at(p) && f == 0) return;
        if (p.first <= 0) { CHECK(f == NodeId(p.first < 0 ? 1 : 0), "a branch to a terminal leads elsewhere"); return; }
        CHECK(f.row() == p.first, "a branch skips other levels than its specification");
        std::map<int, u64>::iterator it = id.find(p.first * 1024 + p.second);
        if (it != id.end()) { CHECK(it->second == f.code(), "equal states of one level are different nodes"); return; }
        id[p.first * 1024 + p.second] = f.code();
        for (int b = 0; b < AR; ++b) at(tab.get(p.first, p.second, b), dd.child(f, b));
    }
};
template<class SPEC> void go(Tab& tab, SPEC const& spec, int n) {
    DdStructure<AR> dd(spec);
    Assign<AR> a(n);
    CHECK(ddFun(dd, a, BDDR) == tabFun(tab, a, BDDR), "built diagram differs from its specification (skipped levels free)");
    CHECK(ddFun(dd, a, ZDDR) == tabFun(tab, a, ZDDR), "built diagram differs from its specification (skipped levels zero)");
    Follow(tab, dd).at(tab.root(), dd.root());
    CHECK(dd.topLevel() == dd.root().row() && dd.empty() == (dd.root() == 0), "topLevel()/empty() do not describe the root");
    CHECK(reachable(dd) <= dd.size(), "a reachable node is not in the table");
    if (dd.size() >= 3) __cover("three nodes");
    if (tab.root().first > 0 && dd.root() == 0) __cover("swept to the terminal");
    finish();
}
extern "C" void harness_main() {
    int n = P("n", 3), w = P("w", 2), kind = P("kind", 0);
    Tab tab = makeTab(n, AR, kind == 9 ? 1 : w);
    if (kind == 0) go(tab, TabSpec<AR>(tab), n);
    else if (kind == 1) go(tab, TabSpec<AR>(tab, H_CONST), n);
    else if (kind == 2) go(tab, TabSpec<AR>(tab, H_SAMEBUCKET), n);
    else if (kind == 3) go(tab, TabArraySpec<AR, int>(tab, P("sz", 3)), n);
    else if (kind == 4) go(tab, TabArraySpec<AR, char>(tab, P("sz", 5)), n);
    else if (kind == 5) go(tab, TabHybridSpec<AR>(tab, P("sz", 3)), n);
    else if (kind == 9) go(tab, TabStateless<AR>(tab), n);
}

// C18: dumps read back give the dumped diagram.
#include "common.h"
#ifndef ARITY_
#define ARITY_ 2
#endif
enum { AR = ARITY_ };
typedef DdStructure<AR> Dd;
#include "dot.h"
// the dump shows the table: one node per state, labelled by it
struct Follow {
    Tab& t; Read& g; std::map<int, std::string> id; std::set<std::string> used; bool labels;
    Follow(Tab& t, Read& g, bool labels) : t(t), g(g), labels(labels) {}
    void at(std::pair<int, int> p, std::string f) {
        if (p.first == 0) { CHECK(f.empty(), "a rejecting branch is drawn"); return; }
        if (p.first < 0) { CHECK(g.one.count(f), "an accepting branch is not drawn to the accepting terminal"); return; }
        CHECK(g.level.count(f) && g.level[f] == p.first, "a branch is drawn to the wrong level");
        if (!g.level.count(f)) return;
        int k = p.first * 1024 + p.second; if (id.count(k)) { CHECK(id[k] == f, "one state is drawn as two nodes"); return; }
        id[k] = f; CHECK(used.insert(f).second, "two states are drawn as one node");
        if (labels) CHECK(num(g.label[f]) == p.second, "a node has the wrong label");
        std::vector<std::string> c = g.br[f]; c.resize(AR);
        for (int b = 0; b < AR; ++b) at(t.get(p.first, p.second, b), c[b]);
    }
};
template<int A> struct Labelled : TabSpec<A> { // labels nodes by their state
    Labelled(Tab& t) : TabSpec<A>(t) {}
};
struct LabSpec : DdSpec<LabSpec, int, AR> {
    Tab* tab; LabSpec(Tab& t) : tab(&t) {}
    int getRoot(int& s) { std::pair<int, int> p = tab->root(); s = p.second; return p.first; }
    int getChild(int& s, int level, int b) { std::pair<int, int> p = tab->get(level, s, b); s = p.second; return p.first; }
    void printState(std::ostream& os, int const& s) const { os << s; }
    void printLevel(std::ostream& os, int l) const { os << "L" << l; }
};
template<class S> std::string dot(S const& s, const char* title) { std::ostringstream os; s.dumpDot(os, title); return os.str(); }
template<class S> void spec(Tab& t, S const& s, int n, bool labels) {
    std::string x = dot(s, "some title"); Read g = readDot(x); CHECK(g.why.empty(), "the dump of a specification is malformed");
    CHECK(has(x, "some title"), "the title is missing"); CHECK(s.dot("some title") == x, "dot() and dumpDot() differ"); std::ostringstream os; os << s; CHECK(readDot(os.str()).br == g.br, "<< gives another diagram");
    Follow f(t, g, labels); f.at(t.root(), g.root); CHECK(f.used.size() == g.label.size(), "a node is drawn that no state reaches");
    Assign<AR> a(n); CHECK(g.fun(a, BDDR) == tabFun(t, a, BDDR) && g.fun(a, ZDDR) == tabFun(t, a, ZDDR), "the dump of a specification shows another function");
    CHECK(g.why.empty(), "the dump of a specification is malformed");
    if (t.root().first > 0) for (int i = 1; i <= t.root().first && labels; ++i) { std::ostringstream lk; lk << "label=\"L" << i << "\""; std::string k = lk.str(); CHECK(has(x, k.c_str()), "a level label is missing"); }
}
static void diagram(Dd const& d, int n, bool exact) {
    Read g = readDot(dot(d, "")); CHECK(g.why.empty(), "the dump of a diagram is malformed"); Assign<AR> a(n);
    CHECK(g.fun(a, BDDR) == ddFun(d, a, BDDR) && g.fun(a, ZDDR) == ddFun(d, a, ZDDR), "the dump of a diagram shows another function");
    CHECK(g.label.size() == reachable(d), "the dump does not show every reachable node once");
    (void)exact;
}
static void sapporo(Dd const& d, int n) {
    std::ostringstream os; d.dumpSapporo(os); std::vector<std::string> l = split(os.str(), '\n');
    CHECK(l.size() >= 5 && l.back().empty(), "the Sapporo dump is too short"); if (l.size() < 5) return;
    std::vector<std::string> i = split(l[0], ' '), o = split(l[1], ' '), nn = split(l[2], ' ');
    CHECK(i.size() == 2 && i[0] == "_i" && o.size() == 2 && o[0] == "_o" && o[1] == "1" && nn.size() == 2 && nn[0] == "_n", "the Sapporo dump has no header");
    CHECK(num(nn[1]) == (int)d.size() && l.size() == d.size() + 5, "the Sapporo dump does not list every node once");
    CHECK(num(i[1]) >= d.topLevel(), "the Sapporo dump declares too few variables");
    Read g; g.one.insert("T"); bool ok = true;
    for (size_t k = 3; k + 2 < l.size(); ++k) {
        std::vector<std::string> w = split(l[k], ' '); if (w.size() != 4) { ok = false; break; }
        int lv = num(w[1]); if (num(w[0]) < 2 || num(w[0]) % 2 || lv < 1 || lv > num(i[1]) || g.level.count(w[0])) ok = false;
        std::vector<std::string> c(AR); for (int b = 0; b < 2; ++b) { std::string t = w[2 + b]; if (t == "F") t = ""; else if (t != "T" && (!g.level.count(t) || g.level[t] >= lv)) ok = false; c[b] = t; }
        g.level[w[0]] = lv; g.br[w[0]] = c;
    }
    CHECK(ok, "a line of the Sapporo dump is malformed or precedes its children");
    g.root = l[l.size() - 2]; if (g.root == "F") g.root = ""; CHECK(g.root.empty() || g.root == "T" || g.level.count(g.root), "the Sapporo dump does not end with its root");
    Assign<AR> a(n); CHECK(g.fun(a, BDDR) == ddFun(d, a, BDDR) && g.fun(a, ZDDR) == ddFun(d, a, ZDDR), "the Sapporo dump describes another diagram"); CHECK(g.why.empty(), "the Sapporo dump is malformed");
    if (d.size() > 2) __cover("three nodes"); if (d.topLevel() == 0) __cover("terminal");
}
extern "C" void harness_main() {
    int n = P("n", 3), w = P("w", 2), what = P("what", 0), kind = P("kind", 0);
    Tab t = makeTab(n, AR, kind == 9 ? 1 : w);
    if (what == 0) {
        if (kind == 0) spec(t, LabSpec(t), n, true);
        else if (kind == 1) spec(t, TabSpec<AR>(t, H_CONST), n, false);
        else if (kind == 3) spec(t, TabArraySpec<AR, int>(t, 3), n, false);
        else if (kind == 5) spec(t, TabHybridSpec<AR>(t, 2), n, false);
        else if (kind == 9) spec(t, TabStateless<AR>(t), n, false);
    } else if (what == 1) { // combinators
        Assign<AR> a(n); Tab t2 = makeTab(n, AR, 2, "u", 40); TabArraySpec<AR, int> s(t, 3); TabSpec<AR> s2(t2); int op = choose("op", 0, AR == 2 ? 4 : 2); Read g; u64 wb = tabFun(t, a, BDDR), wz = tabFun(t, a, ZDDR); bool b = false;
        if (op == 0) g = readDot(dot(zddLookahead(s), "x")); else if (op == 1) { g = readDot(dot(bddLookahead(s), "x")); b = true; } else if (op == 2) g = readDot(dot(zddUnreduction(s, n), "x"));
        else { if constexpr (AR == 2) { if (op == 3) { g = readDot(dot(zddUnion(s, s2), "x")); wz |= tabFun(t2, a, ZDDR); } else { g = readDot(dot(bddAnd(s2, s), "x")); b = true; wb &= tabFun(t2, a, BDDR); } } }
        CHECK(g.why.empty(), "the dump of a combined specification is malformed"); CHECK(b ? g.fun(a, BDDR) == wb : g.fun(a, ZDDR) == wz, "the dump of a combined specification shows another function");
    } else {
        Dd d((TabSpec<AR>(t))); int red = choose("red", 0, 3); if (red == 1) d.qddReduce(); else if (red == 2) d.bddReduce(); else if (red == 3) d.zddReduce();
        if (d.topLevel() > 0 && P("inner", 0) && choose("inner", 0, 1)) { d.root() = d.child(d.root(), choose("branch", 0, AR - 1)); __cover("inner"); }
        if (what == 2) diagram(d, n, true); else sapporo(d, n);
    }
    finish();
}

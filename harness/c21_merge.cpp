// C21: merging states.  The specifications carry an accumulated cost that does not take part in
// hashing and equality; mergeStates keeps the cheaper (or dearer) of two equal states, so the diagram
// has to represent exactly the accepted assignments of optimal cost.
#include "common.h"
#ifndef ARITY_
#define ARITY_ 2
#endif
enum { AR = ARITY_ };
typedef DdStructure<AR> Dd;
#include "dot.h"
struct Cost { // cost of an edge, arbitrary or generated
    std::map<int, int> t; int top, n; bool gen; int seed;
    Cost() : top(P("cost", 2)), n(P("ncost", 99)), gen(P("gen", 0)), seed(P("cseed", 1)) {}
    int get(int l, int s, int b) { int k = (l * 1024 + s) * 8 + b; std::map<int, int>::iterator it = t.find(k); if (it != t.end()) return it->second;
        int c = !gen && n > 0 ? (n--, choose("cost", 0, top)) : (int)(Tab::mix(k * 31 + seed) % (unsigned)(top + 1)); t[k] = c; return c; }
};
static int dear, hk, flat; // policy, hash; flat: accepting states carry no cost
static int decide(int c1, int c2) { return c1 == c2 ? 0 : (c1 < c2) != (dear != 0) ? 2 : 1; }
struct SC { int s, c; };
struct CostSpec : DdSpec<CostSpec, SC, AR> {
    Tab* tab; Cost* cost; CostSpec(Tab& t, Cost& c) : tab(&t), cost(&c) {}
    int getRoot(SC& s) { std::pair<int, int> p = tab->root(); s.s = p.second; s.c = 0; return p.first; }
    int getChild(SC& s, int l, int b) { int k = cost->get(l, s.s, b); std::pair<int, int> p = tab->get(l, s.s, b); s.s = p.second; s.c += k; if (flat && p.first < 0) s.c = 0; return p.first; }
    int mergeStates(SC& a, SC& b) { return decide(a.c, b.c); }
    size_t hashCode(SC const& s) const { return hk ? 7 : (size_t)s.s * 314159257; }
    bool equalTo(SC const& a, SC const& b) const { return a.s == b.s; }
    void printState(std::ostream& os, SC const& s) const { os << s.s << "/" << s.c; }
};
struct CostArray : PodArrayDdSpec<CostArray, int, AR> {
    Tab* tab; Cost* cost; CostArray(Tab& t, Cost& c) : tab(&t), cost(&c) { setArraySize(3); }
    int getRoot(int* s) { std::pair<int, int> p = tab->root(); s[0] = p.second; s[1] = 0; s[2] = 5; return p.first; }
    int getChild(int* s, int l, int b) { int k = cost->get(l, s[0], b); std::pair<int, int> p = tab->get(l, s[0], b); s[0] = p.second; s[1] += k; if (flat && p.first < 0) s[1] = 0; return p.first; }
    int mergeStates(int* a, int* b) { CHECK(a[2] == 5 && b[2] == 5, "mergeStates gets something else than two states"); return decide(a[1], b[1]); }
    size_t hash_code(void const* p, int) const { return hk ? 7 : (size_t)((int const*)p)[0] * 314159257; }
    bool equal_to(void const* p, void const* q, int) const { return ((int const*)p)[0] == ((int const*)q)[0]; }
    void print_state(std::ostream& os, void const* p, int) const { os << ((int const*)p)[0]; }
};
struct CostHybrid : HybridDdSpec<CostHybrid, SC, short, AR> {
    Tab* tab; Cost* cost; CostHybrid(Tab& t, Cost& c) : tab(&t), cost(&c) { setArraySize(2); }
    int getRoot(SC& s, short* a) { std::pair<int, int> p = tab->root(); s.s = p.second; s.c = 0; a[0] = 3; a[1] = 4; return p.first; }
    int getChild(SC& s, short* a, int l, int b) { int k = cost->get(l, s.s, b); std::pair<int, int> p = tab->get(l, s.s, b); s.s = p.second; s.c += k; if (flat && p.first < 0) s.c = 0; return p.first; }
    int mergeStates(SC& s1, short* a1, SC& s2, short* a2) { CHECK(a1[0] == 3 && a2[0] == 3 && a1[1] == 4 && a2[1] == 4, "mergeStates gets something else than two states"); return decide(s1.c, s2.c); }
    size_t hash_code(void const* p, int) const { return hk ? 7 : (size_t)((SC const*)p)->s * 314159257; }
    bool equal_to(void const* p, void const* q, int) const { return ((SC const*)p)->s == ((SC const*)q)->s; }
    void print_state(std::ostream& os, void const* p, int) const { os << ((SC const*)p)->s; }
};
// cost of an assignment, -1: rejected.  d[1..n]: values
static int pathCost(Tab& t, Cost& c, int* d, int n, Rule r, int upto = -1) {
    std::pair<int, int> p = t.root(); int k = 0, from = n + 1;
    for (;;) {
        int to = p.first > 0 ? p.first : 0;
        if (p.first == 0) return -1;
        if (r == ZDDR) for (int l = from - 1; l > to; --l) if (d[l]) return -1;
        if (p.first < 0) return k;
        from = p.first; k += c.get(p.first, p.second, d[p.first]); p = t.get(p.first, p.second, d[p.first]);
    }
}
// which edges are followed when worse states are cut off level by level (of one table, or of the product with a second one)
struct Kept {
    Tab& t; Cost& c; Tab* u; std::map<int, int> best; bool term; int one; bool any;
    struct Pos { int l, s, s2, k; }; // level (0 rejects, -1 accepts), states, cost
    Pos align(std::pair<int, int> p, std::pair<int, int> q, int k) {
        if (u) while (p.first && q.first && p.first != q.first) {
            if (p.first < q.first) q = u->get(q.first, q.second, 0);
            else { k += c.get(p.first, p.second, 0); p = t.get(p.first, p.second, 0); }
        }
        Pos r = { u && !q.first ? 0 : p.first, p.second, u ? q.second : 0, k }; return r;
    }
    Pos root() { return align(t.root(), u ? u->root() : t.root(), 0); }
    Pos next(Pos p, int b) { return align(t.get(p.l, p.s, b), u ? u->get(p.l, p.s2, b) : std::make_pair(0, 0), p.k + c.get(p.l, p.s, b)); }
    Kept(Tab& t, Cost& c, bool term, Tab* u = 0) : t(t), c(c), u(u), term(term), one(0), any(false) {
        Pos p = root(); if (p.l > 0) best[key(p)] = p.k;
        for (int l = t.n; l >= 1; --l) for (int s = 0; s < t.w; ++s) for (int s2 = 0; s2 < (u ? u->w : 1); ++s2) {
            Pos x = { l, s, s2, 0 }; std::map<int, int>::iterator it = best.find(key(x)); if (it == best.end()) continue; x.k = it->second;
            for (int b = 0; b < AR; ++b) { Pos q = next(x, b);
                if (q.l < 0) { if (!any || decide(one, q.k) == 1) one = q.k; any = true; }
                if (q.l > 0) { if (!best.count(key(q)) || decide(best[key(q)], q.k) == 1) best[key(q)] = q.k; } } }
    }
    static int key(Pos p) { return (p.l * 256 + p.s) * 256 + p.s2; }
    bool accepts(int* d, int n, Rule r) {
        Pos p = root(); int from = n + 1;
        for (;;) {
            if (p.l == 0) return false;
            int to = p.l > 0 ? p.l : 0; if (r == ZDDR) for (int l = from - 1; l > to; --l) if (d[l]) return false;
            if (p.l < 0) return !term || from == n + 1 || p.k == one;
            if (best[key(p)] != p.k) return false;
            from = p.l; p = next(p, d[p.l]);
        }
    }
};
static Read drawn;
template<class S> static Dd* run(S const& s, Tab& t2, int op, int mp) {
    Dd* d = 0;
    if (op == 9) { std::ostringstream os; s.dumpDot(os, "x"); drawn = readDot(os.str()); if (!drawn.why.empty()) CHECK(false, drawn.why.c_str()); return new Dd(); }
    if (op == 0) d = new Dd(s, mp != 0);
    else if (op == 1) d = new Dd(zddLookahead(s));
    else if (op == 2) d = new Dd(bddLookahead(s));
    else if (op == 3) d = new Dd(bddUnreduction(s, P("n", 2) + 1));
    else if (op == 4) d = new Dd(zddUnreduction(s, P("n", 2) + 1));
    else if (op == 5) { if constexpr (AR == 2) d = new Dd(bddAnd(s, TabSpec<AR>(t2))); }
    else if (op == 6) { if constexpr (AR == 2) d = new Dd(zddIntersection(s, TabSpec<AR>(t2))); }
    else if (op == 8) { if constexpr (AR == 2) d = new Dd(zddIntersection(TabSpec<AR>(t2), s)); }
    else { d = new Dd(TabSpec<AR>(t2)); if (P("pre", 0)) d->zddReduce(); d->useMultiProcessors(mp != 0); d->zddSubset(s); }
    return d;
}
extern "C" void harness_main() {
    int n = P("n", 2), w = P("w", 2), op = P("op", 0), mp = P("mp", 0), kind = P("kind", 0); hk = P("hash", 0); flat = P("flat", 0); dear = P("dear", -1); if (dear < 0) dear = choose("dear", 0, 1);
    Tab t = makeTab(n, AR, w), t2(n, AR, w, "u"); Cost c;
    bool two = op >= 5 && op != 9; if (two) { if (P("gen2", 1)) t2.generate(P("seed2", 8), P("nsym2", 1), P("dead2", 8), P("far2", 15), 2); }
    bool bdd = op == 2 || op == 3 || op == 5, zdd = op == 1 || op == 4 || (op >= 6 && op != 9);
    if (mp) { std::set<int> seen; std::vector<std::pair<int, int> > st(1, t.root()); while (!st.empty()) { std::pair<int, int> p = st.back(); st.pop_back(); if (p.first <= 0 || !seen.insert(p.first * 1024 + p.second).second) continue; for (int b = 0; b < AR; ++b) { c.get(p.first, p.second, b); st.push_back(t.get(p.first, p.second, b)); } }
        if (two) { t2.root(); for (int l = n; l >= 1; --l) for (int s = 0; s < t2.w; ++s) for (int b = 0; b < AR; ++b) t2.get(l, s, b); } }
    Dd* d = kind == 0 ? run(CostSpec(t, c), t2, op, mp) : kind == 1 ? run(CostArray(t, c), t2, op, mp) : run(CostHybrid(t, c), t2, op, mp);
    int nn = op == 3 || op == 4 ? n + 1 : n;
    Assign<AR> a(nn); int total = 1; for (int l = 1; l <= nn; ++l) total *= AR;
    for (int rr = 0; rr < 2; ++rr) {
        Rule r = rr ? ZDDR : BDDR; if (r == BDDR && zdd) continue; if (r == ZDDR && bdd) continue;
        // ops on skipped levels: unreduction makes every level explicit
        Kept kept(t, c, !mp && !flat, two && zdd ? &t2 : 0);
        std::vector<int> cost(total, -1); int best = -1; std::vector<char> ok(total, 0);
        for (int k = 0; k < total; ++k) {
            int dg[MAXN + 2]; int x = k; for (int l = 1; l <= nn; ++l) { dg[l] = x % AR; x /= AR; }
            int v = pathCost(t, c, dg, nn, r);
            if (v >= 0 && two) { Cost zero; zero.gen = true; zero.top = 0; if (pathCost(t2, zero, dg, nn, r) < 0) v = -1; }
            cost[k] = v; if (v >= 0 && (best < 0 || decide(best, v) == 1)) best = v;
            if (!two || zdd) ok[k] = kept.accepts(dg, nn, r);
        }
        u64 ref = 0;
        for (int k = 0; k < total; ++k) {
            bool in = mp || flat ? (bool)ok[k] : cost[k] >= 0 && cost[k] == best;
            if (!mp && !flat && (op == 0 || op == 7 || op == 9)) CHECK(in == (bool)ok[k], "reference models disagree");
            u64 hit = 1; int x = k; for (int l = 1; l <= nn; ++l) { hit &= (u64)(a.d[l] == (u64)(x % AR)); x /= AR; }
            if (in) ref |= hit;
        }
        CHECK((op == 9 ? drawn.fun(a, r) : ddFun(*d, a, r)) == ref, "merging states: the diagram does not represent the accepted assignments of optimal cost");
        int worse = 0; for (int k = 0; k < total; ++k) if (cost[k] >= 0 && cost[k] != best) worse = 1; if (worse) __cover("something is cut off");
    }
    if (op == 9) { if (!drawn.why.empty()) CHECK(false, drawn.why.c_str()); if (drawn.label.size() > 2) __cover("three nodes"); if (!drawn.invis.empty()) __cover("accepting states replaced"); }
    Dd e(*d); e.useMultiProcessors(false); e.zddReduce(); checkCanonical(e, RZ);
    if (d->size() > 2) __cover("three nodes");
    delete d; finish();
}

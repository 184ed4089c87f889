// C04: the multi-processor algorithms agree with the serial ones on every schedule.
#include "common.h"
#include <tdzdd/eval/Cardinality.hpp>
#ifndef ARITY_
#define ARITY_ 2
#endif
enum { AR = ARITY_ };
typedef DdStructure<AR> Dd;
// a specification with working memory of its own (each thread has a copy of the specification)
struct Scratch : DdSpec<Scratch, int, AR> {
    Tab* tab; int work[2];
    Scratch(Tab& t) : tab(&t) { work[0] = work[1] = 0; }
    int getRoot(int& s) { std::pair<int, int> p = tab->root(); s = p.second; return p.first; }
    int getChild(int& s, int level, int b) { work[0] = level; work[1] = s; __keep(work); std::pair<int, int> p = tab->get(work[0], work[1], b); s = p.second; return p.first; }
    static void __keep(int* p) { asm volatile("" : : "r"(p) : "memory"); }
};
// a specification whose states live in memory that its copy (one a thread) releases level by level
struct Pooled : DdSpec<Pooled, int*, AR> {
    Tab* tab; std::vector<std::vector<int*> > pool;
    Pooled(Tab& t) : tab(&t), pool(t.n + 1) {}
    Pooled(Pooled const& o) : tab(o.tab), pool(o.pool.size()) {}
    ~Pooled() { for (size_t i = 0; i < pool.size(); ++i) destructLevel((int)i); }
    int set(int*& s, std::pair<int, int> p) { s = 0; if (p.first > 0) { s = new int(p.second); pool[p.first].push_back(s); } return p.first; }
    int getRoot(int*& s) { return set(s, tab->root()); }
    int getChild(int*& s, int level, int b) { return set(s, tab->get(level, *s, b)); }
    size_t hashCode(int* const& s) const { return s ? (size_t)(36 - *s) : 0; } // the last ones of the 37 tasks of two threads
    bool equalTo(int* const& s, int* const& t) const { return *s == *t; }
    void destructLevel(int level) { for (size_t i = 0; i < pool[level].size(); ++i) delete pool[level][i]; pool[level].clear(); }
};
// an evaluator with working memory of its own; the value depends on every part of the diagram
struct Sum : DdEval<Sum, u64> {
    u64 work; int top; std::vector<int> seen;
    Sum() : work(0), top(-1) {}
    void initialize(int level) { top = level; seen.assign(level + 2, 0); }
    void evalTerminal(u64& v, int id) { v = id ? 7 : 3; }
    void evalNode(u64& v, int level, DdValues<u64, AR> const& values) {
        CHECK(top >= level, "the evaluator of a thread is not initialised"); seen[level]++;
        work = (u64)level;
        for (int b = 0; b < AR; ++b) { Scratch::__keep((int*)&work); work = work * 1000003 + values.get(b) * 31 + (u64)values.getLevel(b); }
        v = work;
    }
    void destructLevel(int i) { CHECK(i >= 1 && i <= top, "a level is released that the diagram does not have"); }
};
static int reds;
static void reduce(Dd& d, int red) { if (red == RQ) d.qddReduce(); else if (red == RB) d.bddReduce(); else d.zddReduce(); }
static void sameFun(Dd const& d, Dd const& e, int n, const char* msg) {
    Assign<AR> a(n);
    CHECK(ddFun(d, a, BDDR) == ddFun(e, a, BDDR), msg); CHECK(ddFun(d, a, ZDDR) == ddFun(e, a, ZDDR), msg);
}
static void sameDd(Dd const& d, Dd const& e, Red red, const char* msg) {
    CHECK(d.size() == e.size(), msg); checkCanonical(d, red);
    CHECK(d == e && e == d, msg);
    Canon<AR> c(RN); CHECK(c.of(d) == c.of(e), msg);
}
template<class S> Dd* make(S const& s, bool mp) { return new Dd(s, mp); }
static Dd* build(Tab& t, int kind, bool mp) {
    if (kind == 0) return make(TabSpec<AR>(t), mp);
    if (kind == 1) return make(TabSpec<AR>(t, H_CONST), mp);
    if (kind == 2) return make(TabHybridSpec<AR>(t, 2), mp);
    if (kind == 3) return make(TabArraySpec<AR, short>(t, 3), mp);
    if (kind == 5) return make(Pooled(t), mp);
    return make(Scratch(t), mp);
}
template<class S> static void sub(Dd& d, S const& s) { d.zddSubset(s); }
static void subset(Dd& d, Tab& t, int kind) {
    if (kind == 0) sub(d, TabSpec<AR>(t)); else if (kind == 1) sub(d, TabSpec<AR>(t, H_CONST)); else if (kind == 2) sub(d, TabHybridSpec<AR>(t, 2)); else if (kind == 3) sub(d, TabArraySpec<AR, short>(t, 3)); else if (kind == 5) sub(d, Pooled(t)); else sub(d, Scratch(t));
}
// every entry of a table is fixed before threads look at it
static void fix(Tab& t) { std::set<int> seen; std::vector<std::pair<int, int> > st(1, t.root());
    while (!st.empty()) { std::pair<int, int> p = st.back(); st.pop_back(); if (p.first <= 0 || !seen.insert(p.first * 1024 + p.second).second) continue; for (int b = 0; b < AR; ++b) st.push_back(t.get(p.first, p.second, b)); } }
static void fixAll(Tab& t) { t.root(); for (int l = t.n; l >= 1; --l) for (int s = 0; s < t.w; ++s) for (int b = 0; b < AR; ++b) t.get(l, s, b); }
// long edges to two different levels next to a dead node: the sweeper must learn the lowest level of all threads
static void craft(Tab& t) {
    struct S { Tab& t; void operator()(int l, int s, int b, int cl, int cs) { t.t[(l * 1024 + s) * 8 + b] = std::make_pair(cl, cs); } } set = { t };
    set(6, 0, 0, 5, 0);
    for (int b = 0; b < AR; ++b) { set(5, 0, b, 4, b); set(3, 0, b, 0, 0); set(2, 0, b, b ? -1 : 1, 0); set(1, 0, b, b ? 0 : -1, 0); }
    int lo = choose("low", 0, 1);
    for (int s = 0; s < AR; ++s) { set(4, s, 0, s == lo ? 1 : 2, 0); for (int b = 1; b < AR; ++b) set(4, s, b, s == lo ? 0 : 3, 0); }
}
extern "C" void harness_main() {
    int n = P("n", 2), w = P("w", 2), op = P("op", 0), kind = P("kind", 0), red = P("red", -1);
    Tab t = makeTab(n, AR, w); if (P("craft", 0)) craft(t); fix(t);
    if (op == 0) { // construction
        Dd* s = build(t, kind, false); Dd* m = build(t, kind, true);
        sameFun(*m, *s, n, "multi-processor construction gives another function");
        if (red < 0) red = P("someRed", 2);
        Dd sr(*s), mr(*m); sr.useMultiProcessors(false); mr.useMultiProcessors(false); reduce(sr, red); reduce(mr, red);
        sameDd(mr, sr, (Red)red, "multi-processor construction differs from the serial one after reduction");
        if (s->size() > 2) __cover("three nodes");
        delete s; delete m;
    } else if (op == 1) { // reduction
        Dd* s = build(t, kind, false); Dd m(*s); if (red < 0) red = choose("red", 0, 2);
        bool mpBefore = m.useMultiProcessors(true); CHECK(!mpBefore, "a serial diagram is in multi-processor mode");
        reduce(m, red); CHECK(m.useMultiProcessors(true), "the mode is lost");
        Dd e(*s); reduce(e, red);
        sameDd(m, e, (Red)red, "multi-processor reduction differs from the serial one");
        Dd u((TabSpec<AR>(t))); u.useMultiProcessors(true); reduce(u, red); CHECK(u == e && u.size() == e.size(), "multi-processor reduction of unshared storage differs");
        if (s->size() > 2) __cover("three nodes");
        delete s;
    } else if (op == 2) { // subsetting
        Tab t2 = makeTab(n, AR, w, "u", 40); if (P("gen2", 0)) { t2 = Tab(n, AR, 2, "u"); t2.generate(P("seed2", 5), P("nsym2", 0), 10, 15, 2); }
        fixAll(t2);
        Dd s((TabSpec<AR>(t))); if (P("pre", 0)) s.zddReduce(); Dd m(s); m.useMultiProcessors(true);
        subset(s, t2, kind); subset(m, t2, kind);
        Assign<AR> a(n); CHECK(ddFun(m, a, ZDDR) == ddFun(s, a, ZDDR), "multi-processor subsetting gives another family");
        m.useMultiProcessors(P("mpRed", 1)); s.zddReduce(); m.zddReduce(); sameDd(m, s, RZ, "multi-processor subsetting differs from the serial one after reduction");
        if (s.size() > 1) __cover("two nodes");
    } else if (op == 3) { // evaluation
        Dd s((TabSpec<AR>(t))); if (P("pre", 0)) s.zddReduce(); Dd m(s); m.useMultiProcessors(true);
        u64 x = s.evaluate(Sum()), y = m.evaluate(Sum()); CHECK(x == y, "multi-processor evaluation gives another value");
        if (P("card", 1)) CHECK(s.zddCardinality() == m.zddCardinality(), "multi-processor counting gives another value");
        if (s.size() > 2) __cover("three nodes");
    } else { // conversion
        if constexpr (AR == 2) {
        Dd s((TabSpec<AR>(t))); s.zddReduce(); Dd m(s); m.useMultiProcessors(true);
        Dd b = s.zdd2bdd(n), c = m.zdd2bdd(n); Assign<AR> a(n); CHECK(ddFun(c, a, BDDR) == ddFun(b, a, BDDR), "multi-processor conversion gives another function");
        c.bddReduce(); b.bddReduce(); sameDd(c, b, RB, "multi-processor conversion differs");
        Dd z = c.bdd2zdd(n); z.zddReduce(); sameDd(z, s, RZ, "multi-processor conversion to and fro differs");
        }
    }
    finish();
}

// C08: bottom-up evaluation calls the evaluator as promised and returns the recursively defined value.
#include "common.h"
#ifndef ARITY_
#define ARITY_ 2
#endif
enum { AR = ARITY_ };
typedef DdStructure<AR> Dd;
static u64 tv[2], wt[AR]; static int boxes;
// a value that owns memory: using it after its release is an invalid access
struct Val {
    u64* p;
    Val() : p(new u64(0)) { ++boxes; }
    Val(Val const& o) : p(new u64(*o.p)) { ++boxes; }
    Val& operator=(Val const& o) { *p = *o.p; return *this; }
    ~Val() { delete p; p = 0; --boxes; }
};
static u64 combine(int level, u64 const* v, int const* l) {
    u64 r = (u64)level * 0x9E3779B97F4A7C15ULL;
    for (int b = 0; b < AR; ++b) r = (r << 7 | r >> 57) ^ (v[b] + wt[b] + (u64)l[b] * 0x100000001b3ULL);
    return r;
}
struct Log { int inits, initLevel, terms, nodes, last, gets; std::set<int> released; std::vector<int> perLevel; Log() : inits(0), initLevel(-1), terms(0), nodes(0), last(0), gets(0) {} };
struct Res { u64 v; int tag; };
struct Ev : DdEval<Ev, Val, Res> {
    Log* log; bool show; int extra;
    Ev(Log* l, bool show) : log(l), show(show), extra(0) {}
    bool showMessages() const { return show; }
    void initialize(int level) { ++log->inits; log->initLevel = level; log->perLevel.assign(level + 1, 0); extra = 5; }
    void evalTerminal(Val& v, int id) { ++log->terms; CHECK(id >= 0 && id < 2, "terminal function called for a terminal that does not exist"); *v.p = tv[id]; CHECK(log->inits == 1, "terminal function called before initialisation"); }
    void evalNode(Val& v, int level, DdValues<Val, AR> const& c) {
        CHECK(level >= log->last, "nodes are not evaluated bottom-up"); log->last = level;
        ++log->nodes; CHECK(level >= 1 && level <= log->initLevel, "node function called for a level that does not exist"); ++log->perLevel[level];
        u64 w[AR]; int l[AR];
        for (int b = 0; b < AR; ++b) {
            l[b] = c.getLevel(b); CHECK(l[b] >= 0 && l[b] < level, "child level is not below the node");
            CHECK(!log->released.count(l[b]), "a level is released before its last use");
            w[b] = *c.get(b).p;
        }
        *v.p = combine(level, w, l);
    }
    void destructLevel(int i) { CHECK(i >= 0 && i < log->last + (log->last == 0), "a level is released that is not below the current one"); CHECK(log->released.insert(i).second, "a level is released twice"); }
    Res getValue(Val const& v) { ++log->gets; Res r; r.v = *v.p; r.tag = 77; return r; }
};
// evaluator with the default hooks and R = T
struct Plain : DdEval<Plain, u64> {
    void evalTerminal(u64& v, int id) { v = tv[id]; }
    void evalNode(u64& v, int level, DdValues<u64, AR> const& c) { u64 w[AR]; int l[AR]; for (int b = 0; b < AR; ++b) w[b] = c.get(b), l[b] = c.getLevel(b); v = combine(level, w, l); }
};
struct Ref {
    Dd const& d; std::map<u64, u64> memo; std::map<int, int> per;
    Ref(Dd const& d) : d(d) {}
    u64 at(NodeId f) {
        if (f.row() == 0) return tv[f.col()];
        std::map<u64, u64>::iterator it = memo.find(f.code()); if (it != memo.end()) return it->second;
        u64 w[AR]; int l[AR];
        for (int b = 0; b < AR; ++b) { NodeId g = d.child(f, b); w[b] = at(g); l[b] = g.row(); }
        per[f.row()]++;
        return memo[f.code()] = combine(f.row(), w, l);
    }
};
static void evalCheck(Dd const& d, bool whole, bool show) {
    boxes = 0; Log log; Ev ev(&log, show);
    Res r = d.evaluate(ev);
    Ref ref(d); u64 want = ref.at(d.root());
    CHECK(r.v == want && r.tag == 77, "evaluation does not give the recursively defined value");
    CHECK(d.evaluate(Plain()) == want, "evaluation with default hooks does not give the recursively defined value");
    CHECK(log.inits == 1 && log.initLevel == d.topLevel(), "initialisation is not called once with the root level");
    CHECK(log.gets == 1 && log.terms >= 2, "final or terminal function not called");
    CHECK(ev.extra == 0, "the evaluator passed in was modified");
    for (std::map<int, int>::iterator it = ref.per.begin(); it != ref.per.end(); ++it) CHECK(log.perLevel[it->first] >= it->second, "a node was not evaluated");
    if (whole) CHECK((size_t)log.nodes == d.size(), "the node function is not called exactly once per node");
    CHECK(boxes == 0, "values are not released");
    if (log.nodes > 2) __cover("three nodes");
}
extern "C" void harness_main() {
    int n = P("n", 2), w = P("w", 2);
    for (int i = 0; i < 2; ++i) tv[i] = __sym("tv", 64);
    for (int b = 0; b < AR; ++b) wt[b] = __sym("wt", 64);
    Tab t = makeTab(n, AR, w);
    Dd d((TabSpec<AR>(t)));
    int red = P("red", -1) < 0 ? choose("red", 0, 3) : P("red", 0);
    if (red == 1) d.qddReduce(); else if (red == 2) d.bddReduce(); else if (red == 3) d.zddReduce();
    bool show = P("show", -1) < 0 ? choose("show", 0, 1) : P("show", 0);
    evalCheck(d, true, show);
    if (d.topLevel() > 0 && (P("inner", -1) < 0 ? choose("inner", 0, 1) : P("inner", 0))) { // re-rooted at an inner node
        Dd e(d); e.root() = d.child(d.root(), P("branch", -1) < 0 ? choose("branch", 0, AR - 1) : P("branch", 0)); evalCheck(e, false, false); evalCheck(d, true, false);
    }
    finish();
}

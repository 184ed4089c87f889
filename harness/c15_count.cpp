// C15: counting and searching without building a diagram.
#include "common.h"
#include "nat.h"
#include <tdzdd/dd/PathCounter.hpp>
#ifndef ARITY_
#define ARITY_ 2
#endif
enum { AR = ARITY_ };
static std::map<int, Nat> memo;
static Nat paths(Tab& t, std::pair<int, int> p) {
    if (p.first <= 0) return Nat(p.first < 0);
    int k = p.first * 1024 + p.second; std::map<int, Nat>::iterator it = memo.find(k); if (it != memo.end()) return it->second;
    Nat s; for (int b = 0; b < AR; ++b) s.add(paths(t, t.get(p.first, p.second, b)));
    return memo[k] = s;
}
// a path of the table taking exactly these (level, value) pairs, from the bottom up
static bool accepted(Tab& t, std::vector<std::pair<int, int> > const& v) {
    std::pair<int, int> p = t.root(); size_t k = v.size();
    while (p.first > 0) { if (k == 0) return false; --k; int b = (int)__concretize((u64)v[k].second); if (v[k].first != p.first || b < 0 || b >= AR) return false; p = t.get(p.first, p.second, b); }
    return p.first < 0 && k == 0;
}
template<class SPEC> struct ConcreteValue : SPEC { ConcreteValue(SPEC const& s) : SPEC(s) {} int get_child(void* p, int l, int b) { return SPEC::get_child(p, l, (int)__concretize((u64)b)); } };
template<class SPEC> void go(Tab& t, SPEC spec) {
    int what = P("what", 0);
    if (what == 0) {
        memo.clear(); Nat want = paths(t, t.root()); std::string s = want.str();
        CHECK(countPaths(spec) == s, "counting paths gives a wrong number");
        CHECK(countPaths(spec, true) == s, "fast counting gives a wrong number");
        CHECK(countPaths64(spec) == want.low(), "64-bit counting gives a wrong number");
        if (P("dd", 0)) { DdStructure<AR> d(spec); CHECK(d.zddCardinality() == s, "the diagram has another number of paths"); CHECK(countPaths(d) == s, "counting the paths of a diagram gives a wrong number"); }
        if (s.size() > 19) __cover("beyond 64 bits");
    }
    else {
        memo.clear(); bool exists = paths(t, t.root()).str() != "0", ok = true; std::vector<std::pair<int, int> > v;
        DepthFirstSearcher<ConcreteValue<SPEC> > df = DepthFirstSearcher<ConcreteValue<SPEC> >(ConcreteValue<SPEC>(spec));
        for (int rep = 0; rep < P("reps", 1); ++rep) {
            ok = true;
            try { v = what == 1 ? df.findOneInstance() : spec.findOneInstance(); } catch (std::runtime_error&) { ok = false; }
            CHECK(ok == exists, "searching for an instance fails although one exists, or succeeds although none does");
            if (ok) { CHECK(accepted(t, v), "the instance found is not accepted by the specification"); __cover("found"); } else __cover("none");
        }
    }
    finish();
}
extern "C" void harness_main() {
    int n = P("n", 3), w = P("w", 2), kind = P("kind", 0);
    Tab tab = makeTab(n, AR, kind == 9 ? 1 : w); tab.tens(P("tens", 0));
    if (P("long", 0)) { // a far branch from level 'from' joins the end of a web of w states a level
        int from = P("from", n), tgt = choose("target", 1, P("tgt", 2)); tab.t[((n + 1) * 1024) * 8] = std::make_pair(n, 0);
        for (int l = n; l >= 1; --l) for (int q = 0; q < w; ++q) for (int b = 0; b < AR; ++b)
            tab.t[(l * 1024 + q) * 8 + b] = l == from && q == 0 && b == 0 ? std::make_pair(tgt, 0) : l == 1 ? std::make_pair(-1, 0) : std::make_pair(l - 1, l - 1 <= tgt ? 0 : (q * AR + b) % w);
    }
    if (kind == 0) go(tab, TabSpec<AR>(tab));
    else if (kind == 1) go(tab, TabSpec<AR>(tab, H_CONST));
    else if (kind == 3) go(tab, TabArraySpec<AR, int>(tab, P("sz", 3)));
    else if (kind == 5) go(tab, TabHybridSpec<AR>(tab, P("sz", 3)));
    else if (kind == 9) go(tab, TabStateless<AR>(tab));
}

// C10: iteration yields every itemset exactly once.
#include "common.h"
typedef DdStructure<2> Dd;
static void iterate(Dd const& d, Assign<2> const& a, int n) {
    u64 hits = 0, total = 0, lim = P("limit", 5000); std::set<u64> seen;
    Dd::const_iterator e = d.end(), k = d.begin();
    CHECK(d.end() == e && !(d.end() != e), "two end iterators differ"); CHECK(d.begin() == k, "two begin iterators differ");
    CHECK((k == e) == d.empty() || d.size() > 0, "begin is end although there is a member");
    for (Dd::const_iterator it = d.begin(); it != e; ++it, ++total) {
        CHECK(total < lim, "iteration does not stop"); if (total >= lim) return;
        CHECK(it == k, "iterators at the same position differ");
        std::set<int> const& s = *it; u64 in = 1, code = 0; size_t m = 0;
        CHECK(it->size() == s.size(), "-> and * differ");
        for (int i = 1; i <= n; ++i) { bool has = s.count(i) != 0; m += has; code |= (u64)has << (i - 1); in &= (u64)(a.d[i] == (u64)has); }
        CHECK(m == s.size(), "an item is not a level of the diagram");
        CHECK(seen.insert(code).second, "a member is yielded twice");
        hits += in; ++k;
    }
    CHECK(k == e, "the second iterator has not reached the end");
    CHECK(hits == ddFun(d, a, ZDDR), "a member is missing, or a non-member is yielded");
    if (total > 3) __cover("four members");
    if (total == 0) __cover("no member");
}
extern "C" void harness_main() {
    int n = P("n", 3), w = P("w", 2), univ = P("univ", 0);
    Tab t = makeTab(n, 2, w);
    Dd d; if (univ) d = Dd(choose("un", 0, n)); else d = Dd(TabSpec<2>(t));
    int red = P("red", -1) < 0 ? choose("red", 0, 2) : P("red", 0);
    if (red == 1) d.qddReduce(); else if (red == 2) d.zddReduce();
    Assign<2> a(n);
    iterate(d, a, n);
    if (d.root() == 1) __cover("only the empty set");
    if (P("inner", 0) && d.topLevel() > 1) { d.root() = d.child(d.root(), choose("branch", 0, 1)); iterate(d, a, n); }
    finish();
}

// C09: cardinality is exact.
#include "common.h"
#include "nat.h"
#ifndef ARITY_
#define ARITY_ 2
#endif
enum { AR = ARITY_ };
typedef DdStructure<AR> Dd;
static std::map<u64, Nat> memo;
static Nat pad(Nat v, int hi, int lo, Rule r) { if (r == BDDR) for (int k = lo + 1; k < hi; ++k) v.mul(AR); return v; }
static Nat cnt(Dd const& d, NodeId f, Rule r) {
    if (f.row() == 0) return Nat(f.col());
    std::map<u64, Nat>::iterator it = memo.find(f.code()); if (it != memo.end()) return it->second;
    Nat s; for (int b = 0; b < AR; ++b) { NodeId g = d.child(f, b); s.add(pad(cnt(d, g, r), f.row(), g.row(), r)); }
    return memo[f.code()] = s;
}
extern "C" void harness_main() {
    int n = P("n", 2), w = P("w", 2), univ = P("univ", 0), nv;
    Tab t = makeTab(n, AR, w); t.tens(P("tens", 0));
    if (P("gaps", 0)) { // the root and one inner node; skips of about one and two words
        int g = choose("gap", 60, 66), h = choose("gap", 0, 1) ? choose("gap", 122, 128) : choose("gap", 60, 66); if (n - 1 - g < 1) g = n - 2; int m = n - 1 - g; if (h > m - 1) h = m - 1;
        t.t[((n + 1) * 1024) * 8] = std::make_pair(n, 0);
        for (int b = 0; b < AR; ++b) { t.t[(n * 1024) * 8 + b] = b == 0 ? std::make_pair(m, 0) : std::make_pair(-1, 0);
            t.t[(m * 1024) * 8 + b] = b == 1 ? std::make_pair(m - 1 - h > 0 ? m - 1 - h : -1, 0) : std::make_pair(-1, 0); if (m - 1 - h > 0) t.t[((m - 1 - h) * 1024) * 8 + b] = std::make_pair(b == 0 ? 0 : -1, 0); }
    }
    Dd d; if (univ) d = Dd(univ == 1 ? n : choose("un", 0, n)); else d = Dd(TabSpec<AR>(t));
    int red = P("red", -1) < 0 ? choose("red", 0, 3) : P("red", 0);
    if (red == 1) d.qddReduce(); else if (red == 2) d.bddReduce(); else if (red == 3) d.zddReduce();
    int over = P("over", -1) < 0 ? choose("over", 0, P("maxover", 2)) : P("over", 0);
    nv = d.topLevel() + over * P("step", 1);
    memo.clear(); Nat b = pad(cnt(d, d.root(), BDDR), nv + 1, d.topLevel(), BDDR); memo.clear(); Nat z = cnt(d, d.root(), ZDDR);
    CHECK(d.bddCardinality(nv) == b.str(), "bddCardinality is wrong");
    CHECK(d.zddCardinality() == z.str(), "zddCardinality is wrong");
    CHECK((d.evaluate(BddCardinality<std::string, AR>(nv)) == b.str()), "BddCardinality<string> is wrong");
    CHECK((d.evaluate(BddCardinality<uint64_t, AR>(nv)) == b.low()), "BddCardinality<uint64_t> is wrong");
    CHECK((d.evaluate(ZddCardinality<uint64_t, AR>()) == z.low()), "ZddCardinality<uint64_t> is wrong");
    CHECK((d.evaluate(BddCardinality<int, AR>(nv)) == (int)b.low()), "BddCardinality<int> is wrong");
    CHECK((d.evaluate(ZddCardinality<unsigned, AR>()) == (unsigned)z.low()), "ZddCardinality<unsigned> is wrong");
    CHECK((d.evaluate(ZddCardinality<std::string, AR>()) == z.str()), "ZddCardinality<string> is wrong");
    if (b.d.size() < 2) { CHECK((d.evaluate(BddCardinality<double, AR>(nv)) == (double)b.low()), "BddCardinality<double> is wrong"); CHECK((d.evaluate(ZddCardinality<double, AR>()) == (double)z.low()), "ZddCardinality<double> is wrong"); }
    if (b.d.size() > 3) __cover("beyond 64 bits");
    if (n <= 4 && AR == 2 && nv <= 5) { // against direct counting
        u64 cb = 0, cz = 0;
        for (u64 x = 0; x < (1u << nv); ++x) { Assign<AR> a(0); a.n = nv; for (int i = 1; i <= nv; ++i) a.d[i] = x >> (i - 1) & 1; cb += ddFun(d, a, BDDR); cz += ddFun(d, a, ZDDR); }
        CHECK(cb == b.low() && cz == z.low(), "count differs from direct counting");
    }
    finish();
}

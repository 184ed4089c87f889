// C26: the CNF sample programs; the calls of the CUDD package are modelled by harness/cudd.
#include "common.h"
#include <algorithm>
#include <sstream>
#include <stdexcept>
#include <climits>
// scanning of a line by blanks, characters and %d
static inline int cnfScan(const char* s, const char* f) { (void)s; (void)f; return 0; }
template<class... R> int cnfScan(const char* s, const char* f, int* to, R... rest) {
    for (; *f; ++f) {
        if (*f == ' ') { while (*s == ' ' || *s == '\t') ++s; continue; }
        if (*f == '%') { while (*s == ' ' || *s == '\t') ++s; bool neg = *s == '-'; if (neg) ++s; if (*s < '0' || *s > '9') return 0; int v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); *to = neg ? -v : v; return 1 + cnfScan(s, f + 2, rest...); }
        if (*s++ != *f) return 0;
    }
    return 0;
}
#define sscanf cnfScan
#include "cnfbdd/CnfToBdd.cpp"
#include "cnf2ztdd2bdd/CnfToZtdd.cpp"
#include "cnf2ztdd2bdd/ZtddToCudd.hpp"
#undef sscanf
typedef std::vector<std::vector<int> > Cnf;
static std::string text(Cnf const& c, int nv, int style) {
    std::ostringstream o; if (style & 1) o << "c p cnf\nc 9 0\n"; o << "p cnf " << nv << (style & 2 ? "  " : " ") << c.size() << "\n";
    for (size_t i = 0; i < c.size(); ++i) { for (size_t j = 0; j < c[i].size(); ++j) o << c[i][j] << (style & 2 ? "\n" : " "); if (i + 1 < c.size() || !(style & 1)) o << "0" << (style & 2 ? " " : "\n"); }
    return o.str();
}
static u64 holds(Cnf const& c, Assign<2> const& a, int nv) { u64 r = 1; for (size_t i = 0; i < c.size(); ++i) { u64 k = 0; for (size_t j = 0; j < c[i].size(); ++j) { int x = c[i][j]; k |= x > 0 ? a.d[nv - x + 1] : 1 ^ a.d[nv + x + 1]; } r &= k; } return r; }
static u64 cuddFun(DdNode* n, Assign<2> const& a, std::map<DdNode*, u64>& memo) {
    DdNode* r = Cudd_Regular(n); u64 c = Cudd_IsComplement(n); if (Cudd_IsConstant(r)) return 1 ^ c;
    std::map<DdNode*, u64>::iterator it = memo.find(r); if (it != memo.end()) return it->second ^ c;
    u64 x = (int)r->index <= a.n ? a.d[r->index] : 0, t = cuddFun(r->t, a, memo), e = cuddFun(r->e, a, memo); u64 v = (x & t) | ((x ^ 1) & e); memo[r] = v; return v ^ c;
}
static u64 cuddFun(Cudd const& f, Assign<2> const& a) { std::map<DdNode*, u64> m; return cuddFun(f.ddNode(), a, m); }
static Cnf make(int& nv) {
    Cnf c; nv = P("nv", 3); int nc = P("nc", 2), len = P("len", 2);
    if (P("seeds", 0)) {
        u64 s = (u64)choose("seed", 1, P("seeds", 1)) * 7919 + P("seed", 0) * 104729; for (int k = 0; k < 7; ++k) s = s * 6364136223846793005ULL + 1442695040888963407ULL;
        for (int i = 0; i < nc; ++i) { std::vector<int> q; s = s * 6364136223846793005ULL + 1442695040888963407ULL; int l = 1 + (int)((s >> 33) % (u64)len); for (int j = 0; j < l; ++j) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; int v = 1 + (int)((s >> 33) % (u64)nv); q.push_back(s >> 50 & 1 ? -v : v); } c.push_back(q); }
        for (int k = 0; k < P("nsym", 0); ++k) { int i = (k * 5 + 1) % nc, l = (int)c[i].size(), x = choose("lit", 1, 2 * nv); c[i][(k * 3) % l] = x <= nv ? x : nv - x; }
    } else for (int i = 0; i < nc; ++i) { std::vector<int> q; int l = choose("len", 1, len); for (int j = 0; j < l; ++j) { int x = choose("lit", 1, 2 * nv); q.push_back(x <= nv ? x : nv - x); } c.push_back(q); }
    return c;
}
static long refs() { DdManager* m = Cudd::manager; long r = m->one.ref; for (std::map<CuddKey, DdNode*>::iterator t = m->uniq.begin(); t != m->uniq.end(); ++t) r += t->second->ref; return r; }
extern "C" void harness_main() {
    int what = P("what", 0), nv; MessageHandler::showMessages(false);
    if (what <= 1) {
        Cnf c = make(nv); int style = P("style", -1) < 0 ? choose("style", 0, 3) : P("style", 0); std::istringstream is(text(c, nv, style)); Assign<2> a(nv); u64 want = holds(c, a, nv); long before = refs();
        if (what == 0) {
            CnfToBdd s; s.load(is, choose("sort", 0, 1) != 0); s.useClauseMap(choose("map", 0, 1) != 0); int t = choose("traverse", 0, 3); if (t) s.traverse(t == 1 ? 0 : t == 2 ? P("limit", 3) : INT_MAX);
            CHECK(s.numVars() == nv, "the number of variables is wrong");
            DdStructure<2> d(s); CHECK(ddFun(d, a, BDDR) == want, "the diagram accepts something else than the formula"); if (d.size() > 2) __cover("three nodes");
            d.bddReduce(); CHECK(ddFun(d, a, BDDR) == want, "the reduced diagram accepts something else than the formula");
            DdStructure<2> z = d.bdd2zdd(s.numVars()); CHECK(ddFun(z, a, ZDDR) == want, "the listed assignments are not those of the formula");
        } else {
            CnfToZtdd s; s.load(is); CHECK(s.numVars() == nv, "the number of variables is wrong");
            std::set<std::vector<int> > distinct; for (size_t i = 0; i < c.size(); ++i) { std::set<int> l(c[i].begin(), c[i].end()); bool taut = false; for (std::set<int>::iterator k = l.begin(); k != l.end(); ++k) if (l.count(-*k)) taut = true; if (!taut) distinct.insert(std::vector<int>(l.begin(), l.end())); }
            DdStructure<3> z(s); z.zddReduce(); std::ostringstream n; n << distinct.size(); CHECK(s.numClauses() == distinct.size() && z.zddCardinality() == n.str(), "the clauses are not counted"); if (z.size() > 2) __cover("three nodes");
            { Cudd f = z.evaluate(ZtddToCudd()); CHECK(cuddFun(f, a) == want, "the BDD of the clauses is another function");
              DdStructure<2> d(f); CHECK(ddFun(d, a, BDDR) == want, "the diagram made from the BDD is another function"); CHECK(ddFun(d.bdd2zdd(nv), a, ZDDR) == want, "the listed assignments are not those of the formula"); }
        }
        CHECK(refs() == before, "references to BDD nodes are lost or dropped twice");
    } else { // the wrapper
        int n = P("nv", 3); Assign<2> a(n); long before;
        { std::vector<Cudd> lit(n + 1); for (int i = 1; i <= n; ++i) lit[i] = Cudd(i, 0, 1);
          before = refs(); Cudd f[2]; u64 tt[2];
          for (int k = 0; k < 2; ++k) { tt[k] = (u64)choose("table", 0, (1 << (1 << (n - k))) - 1); std::vector<Cudd> v; for (int j = 0; j < 1 << n; ++j) v.push_back(Cudd((int)(tt[k] >> (j & ((1 << (n - k)) - 1)) & 1))); for (int i = 1; i <= n; ++i) { std::vector<Cudd> w; for (size_t j = 0; j < v.size(); j += 2) w.push_back(Cudd(i, v[j], v[j + 1])); v = w; } f[k] = v[0]; }
          u64 x = cuddFun(f[0], a), y = cuddFun(f[1], a);
          CHECK(cuddFun(~f[0], a) == (x ^ 1) && cuddFun(f[0] & f[1], a) == (x & y) && cuddFun(f[0] | f[1], a) == (x | y) && cuddFun(f[0] ^ f[1], a) == (x ^ y), "a logical operation is wrong");
          Cudd g = f[0]; g &= f[1]; CHECK(g == (f[0] & f[1]), "assignment is wrong"); g = f[0]; g |= f[1]; CHECK(g == (f[0] | f[1]), "assignment is wrong"); g = f[0]; g ^= f[1]; CHECK(g == (f[0] ^ f[1]), "assignment is wrong"); g = g; CHECK(g == (f[0] ^ f[1]), "self-assignment is wrong");
          CHECK(f[0].contains(f[1]) == ((f[1] & ~f[0]) == 0) && f[0].intersects(f[1]) == ((f[0] & f[1]) != 0), "containment is wrong"); CHECK((f[0] == f[1]) == ((f[0] ^ f[1]) == 0) && (f[0] != f[1]) == ((f[0] ^ f[1]) != 0), "equality is wrong");
          Cudd it = lit[1].ite(f[0], f[1]); CHECK(cuddFun(it, a) == ((a.d[1] & x) | ((a.d[1] ^ 1) & y)), "the choice is wrong");
          int i = f[0].level(); if (i > 0) { CHECK(cuddFun(f[0], a) == ((a.d[i] & cuddFun(f[0].child(1), a)) | ((a.d[i] ^ 1) & cuddFun(f[0].child(0), a))), "the branches are wrong"); __cover("inner"); } else CHECK(f[0].isConstant() && (f[0] == 0 || f[0] == 1), "a constant has a level");
          Cudd cube = lit[1] & lit[n]; Assign<2> b = a; u64 ex = 0; for (int p = 0; p < 4; ++p) { b.d[1] = p & 1; b.d[n] = p >> 1; ex |= cuddFun(f[0], b); } CHECK(cuddFun(f[0].abstract(cube), a) == ex, "the quantification is wrong"); CHECK(f[0].andAbstract(f[1], cube) == (f[0] & f[1]).abstract(cube), "the quantification is wrong");
          std::vector<Cudd> sub(2); sub[1] = f[1]; b = a; b.d[1] = y; CHECK(cuddFun(f[0].compose(sub), a) == cuddFun(f[0], b), "the substitution is wrong");
          for (int v = 1; v <= n; ++v) CHECK(f[0].dependsOn(lit[v]) == (f[0].abstract(lit[v]) != f[0] || (~f[0]).abstract(lit[v]) != ~f[0]), "the dependence is wrong");
          DdStructure<2> d(f[0]); CHECK(ddFun(d, a, BDDR) == x, "the diagram made from the BDD is another function"); __cover("end"); }
        CHECK(!Cudd::manager->bad, "a BDD node is released twice");
    }
    CHECK(!Cudd::manager->bad, "a BDD node is released twice");
    finish();
}

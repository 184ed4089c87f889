// C24: the specifications of the sample programs (n queens, coloured n queens, number link).
#include "common.h"
#include <tdzdd/eval/Cardinality.hpp>
#include "ddqueens/ColoredZdd.hpp"
#include "ddqueens/NAryZdd.hpp"
#include "ddqueens/NQueenZdd.hpp"
#include "ddqueens/ZddInterleave.hpp"
#include "numberlink/Board.cpp"
#include "numberlink/NumlinZdd.cpp"
#include "numberlink/ConstraintZdd.cpp"
#include "numberlink/DegreeZdd.cpp"
enum { AR = 2 };
typedef DdStructure<2> Dd;
typedef std::vector<u64> Bits; // one arbitrary bit per level, index from 1
static u64 eqv(u64 a, u64 b) { return (u64)(a == b); }
// exactly n of the squares, no two attacking each other; x(i, j)
template<class X> static u64 queens(int n, bool rook, X const& x) {
    u64 cnt = 0, ok = 1;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        cnt += x(i, j);
        for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) {
            if (p * n + q <= i * n + j) continue;
            bool attack = p == i || q == j || (!rook && (p - i == q - j || p - i == j - q));
            if (attack) ok &= 1 ^ (x(i, j) & x(p, q));
        }
    }
    return ok & eqv(cnt, (u64)n);
}
struct Sq { Assign<2> const& a; int n; u64 operator()(int i, int j) const { return a.d[i * n + j + 1]; } };
struct Col { Assign<2> const& a; int n, k; u64 operator()(int i, int j) const { return a.d[(i * n + j) * n + k + 1]; } };
// one colour a square, every colour class a solution, colour k in column k of the first row handled
static u64 coloured(Assign<2> const& a, int n, bool rook) {
    u64 ok = 1;
    for (int c = 0; c < n * n; ++c) { u64 s = 0; for (int k = 0; k < n; ++k) s += a.d[c * n + k + 1]; ok &= eqv(s, 1); }
    for (int k = 0; k < n; ++k) { Col x = { a, n, k }; ok &= queens(n, rook, x); ok &= x(n - 1, k); }
    return ok;
}
// a number link puzzle and the meaning of a set of horizontal links
struct Puzzle {
    Board q; int m, n;
    // vertical links follow from the degrees; 0: not a solution; with blanks: how many cells are unused
    bool links(std::vector<int> const& h, std::vector<int>& v, int& blank) {
        std::vector<int> deg(m * n, 0); v.assign(m * n, 0); blank = 0;
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { if (q.number[i][j]) deg[i * n + j]++; if (j && h[i * n + j - 1]) deg[i * n + j]++; if (j + 1 < n && h[i * n + j]) deg[i * n + j]++; }
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { int d = deg[i * n + j]; if (d > 2) return false; if (d == 0) blank++; if (d == 1) { if (i + 1 == m) return false; v[i * n + j] = 1; deg[(i + 1) * n + j]++; } }
        return true;
    }
    bool solution(std::vector<int> const& h, int maxBlank, bool degreeOnly) {
        std::vector<int> v; int blank; if (!links(h, v, blank)) return false;
        if (degreeOnly) return true;
        if (maxBlank >= 0 && blank > maxBlank) return false;
        std::vector<int> c(m * n); for (int i = 0; i < m * n; ++i) c[i] = i; // components; a link inside a component closes a cycle
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) for (int d = 0; d < 2; ++d) {
            if (d == 0 ? !(j + 1 < n && h[i * n + j]) : !v[i * n + j]) continue;
            int a = c[i * n + j], b = c[d == 0 ? i * n + j + 1 : (i + 1) * n + j]; if (a == b) return false;
            for (int k = 0; k < m * n; ++k) if (c[k] == b) c[k] = a;
        }
        for (int x = 0; x < m * n; ++x) for (int y = 0; y < m * n; ++y) { int s = q.number[x / n][x % n], t = q.number[y / n][y % n]; if (s && t && c[x] == c[y] && s != t) return false; }
        return true;
    }
};
static u64 agree(Dd const& d, Assign<2>& a, Puzzle& z, int maxBlank, bool degreeOnly) {
    int e = z.m * (z.n - 1); u64 ref = 0;
    for (int s = 0; s < 1 << e; ++s) {
        std::vector<int> h(z.m * z.n, 0); u64 hit = 1;
        for (int x = 0; x < e; ++x) { h[x / (z.n - 1) * z.n + x % (z.n - 1)] = s >> x & 1; hit &= eqv(a.d[e - x], s >> x & 1); }
        if (z.solution(h, maxBlank, degreeOnly)) { ref |= hit; if (!degreeOnly) __cover("solvable"); }
    }
    return ddFun(d, a, ZDDR) == ref;
}
static DdStructure<2> fromTab(Tab& t) { DdStructure<2> d((TabSpec<2>(t))); d.zddReduce(); return d; }
extern "C" void harness_main() {
    int what = P("what", 0), n = P("n", 4);
    if (what == 0) { // queens and rooks
        Assign<2> a(n * n); Sq x = { a, n };
        NQueenZdd nq(n); NRookZdd nr(n); Dd q(nq), r(nr);
        CHECK(ddFun(q, a, ZDDR) == queens(n, false, x), "the queen specification does not accept exactly the placements of n queens");
        bool rk = P("rooks", 1) != 0; if (rk) CHECK(ddFun(r, a, ZDDR) == queens(n, true, x), "the rook specification does not accept exactly the placements of n rooks");
        r.zddReduce(); r.zddSubset(nq); r.zddReduce(); q.zddReduce();
        CHECK(r == q, "solving the rooks first gives another diagram"); __cover("built");
        for (int c = 0; c < n; ++c) { NQueenZdd f(n, c); Dd d(f); CHECK(ddFun(d, a, ZDDR) == (queens(n, false, x) & x(n - 1, n - 1 - c)), "the specification with a fixed first queen accepts something else");
            if (!rk) continue; NRookZdd g(n, c); Dd e(g); CHECK(ddFun(e, a, ZDDR) == (queens(n, true, x) & x(n - 1, n - 1 - c)), "the specification with a fixed first rook accepts something else"); }
    } else if (what == 1) { // coloured
        Assign<2> a(n * n * n);
        if (P("rook", 0)) { ColoredNRookZdd s(n); Dd d(s); CHECK(ddFun(d, a, ZDDR) == coloured(a, n, true), "the coloured rook specification does not accept exactly the colourings"); }
        else { ColoredNQueenZdd s(n); Dd d(s); CHECK(ddFun(d, a, ZDDR) == coloured(a, n, false), "the coloured queen specification does not accept exactly the colourings"); }
        __cover("built");
    } else if (what == 2) { // n-ary
        int m = P("m", 3); // arity, length
        Assign<2> a(m * n); u64 most = 1, one = 1;
        for (int c = 0; c < n; ++c) { u64 k = 0; for (int b = 0; b < m; ++b) k += a.d[c * m + b + 1]; most &= (u64)(k <= 1); one &= eqv(k, 1); }
        if (P("hot", 0)) { OneHotNAryZdd o(m, n); Dd e(o); CHECK(ddFun(e, a, ZDDR) == one, "the one-hot specification does not accept exactly the words"); }
        else { NAryZdd s(m + 1, n); Dd d(s); CHECK(ddFun(d, a, ZDDR) == most, "the n-ary specification does not accept exactly the words"); }
        __cover("built");
    } else if (what == 3) { // interleaving and colouring arbitrary families
        int k = P("k", 2); std::vector<Dd> v; std::vector<Tab> t(k, Tab(n, 2, 1));
        for (int c = 0; c < k; ++c) { t[c] = makeTab(n, 2, P("w", 2), "t", 7 * c); v.push_back(fromTab(t[c])); }
        Assign<2> a(n * k); u64 all = 1, one = 1;
        for (int c = 0; c < k; ++c) { Assign<2> b(n); for (int l = 1; l <= n; ++l) b.d[l] = a.d[(l - 1) * k + c + 1]; all &= tabFun(t[c], b, ZDDR); }
        for (int l = 0; l < n; ++l) { u64 s = 0; for (int c = 0; c < k; ++c) s += a.d[l * k + c + 1]; one &= eqv(s, 1); }
        ZddInterleave il(v); Dd d(il); CHECK(ddFun(d, a, ZDDR) == all, "interleaving does not give the product of the families");
        OneHotNAryZdd oh(k, n); Dd o(oh); ColoredZdd cz(v); o.zddSubset(cz); CHECK(ddFun(o, a, ZDDR) == (all & one), "colouring does not give the partitions into members of the families");
        if (v[0].topLevel() == n) for (int pos = 0; pos < k; ++pos) {
            ZddInterleave ip(v[0], k, pos); Dd e(ip); Assign<2> b(n); for (int l = 1; l <= n; ++l) b.d[l] = a.d[(l - 1) * k + pos + 1];
            CHECK(ddFun(e, a, ZDDR) == tabFun(t[0], b, ZDDR), "interleaving at one position does not give the family"); __cover("position"); }
        ZddInterleave is(v[0], k); Dd e(is); u64 same = 1; for (int c = 0; c < k; ++c) { Assign<2> b(n); for (int l = 1; l <= n; ++l) b.d[l] = a.d[(l - 1) * k + c + 1]; same &= tabFun(t[0], b, ZDDR); }
        CHECK(ddFun(e, a, ZDDR) == same, "interleaving copies does not give the product"); __cover("built");
    } else { // number link
        Puzzle z; z.m = P("m", 3); z.n = n; z.q.rows = z.m; z.q.cols = n; z.q.init(); int pairs = P("pairs", 2), cells = z.m * n, first = 0;
        for (int k = 1; k <= pairs; ++k) { int from = k == 1 ? 0 : first + 1; __assume(from <= cells - 2); first = choose("cell", from, cells - 2); __assume(z.q.number[first / n][first % n] == 0); int c = choose("cell", first + 1, cells - 1); __assume(z.q.number[c / n][c % n] == 0); z.q.number[first / n][first % n] = z.q.number[c / n][c % n] = k; }
        int mb = choose("blank", -1, P("maxBlank", 2)); Assign<2> a(z.m * (n - 1));
        NumlinZdd s(z.q, mb); Dd d(s); CHECK(agree(d, a, z, mb, false), "the number link specification does not accept exactly the solutions");
        DegreeZdd g(z.q); Dd e(g); CHECK(agree(e, a, z, -1, true), "the degree specification does not accept exactly the link sets");
        Dd f(zddLookahead(g)); f.zddReduce(); f.zddSubset(zddLookahead(s)); f.zddReduce(); d.zddReduce(); CHECK(f == d, "degrees first gives another diagram");
        if (mb < 0) { // the default mode, which leaves out solutions with needless detours: only solutions, and none lost altogether
            ConstraintZdd c(z.q); Dd h(zddLookahead(zddIntersection(c, s))); h.zddReduce(); CHECK((ddFun(h, a, ZDDR) & (ddFun(d, a, ZDDR) ^ 1)) == 0, "the default mode accepts something that is no solution");
            CHECK((h.root() == 0) == (d.root() == 0), "the default mode finds no solution although there is one"); if (d.zddCardinality() == "1") { CHECK(h == d, "the default mode loses the only solution"); __cover("unique"); }
        }
        // text form
        std::ostringstream os; z.q.writeNumbers(os); std::istringstream is(os.str()); Board r; r.readNumbers(is); CHECK(r.rows == z.m && r.cols == n && r.number == z.q.number, "a board is not read back as written");
        Board tr = z.q; tr.transpose(); bool ok = tr.rows == n && tr.cols == z.m; for (int i = 0; ok && i < z.m; ++i) for (int j = 0; j < n; ++j) if (tr.number[j][i] != z.q.number[i][j]) ok = false; CHECK(ok, "transposition is wrong");
        // the links of a member of the family
        int seen = 0; for (Dd::const_iterator it = d.begin(); it != d.end() && seen < 2; ++it, ++seen) {
            Board b = z.q; std::vector<int> h(cells, 0), v; int blank, top = z.m * (n - 1);
            for (int i = 0; i < z.m; ++i) for (int j = 0; j < n - 1; ++j) { b.hlink[i][j] = it->count(top - i * (n - 1) - j); h[i * n + j] = b.hlink[i][j]; }
            b.makeVerticalLinks(); CHECK(z.links(h, v, blank), "a member of the family has no links"); bool same = true; for (int i = 0; i + 1 < z.m; ++i) for (int j = 0; j < n; ++j) if ((bool)b.vlink[i][j] != (bool)v[i * n + j]) same = false; CHECK(same, "the vertical links are not completed");
            // the drawing: two columns a cell
            static char const* const dir[] = { "  ", "  ", "  ", "──", "  ", "─┘", " └", "─┴", "  ", "─┐", " ┌", "─┬", " │", "─┤", " ├", "─┼" };
            std::string want = "┏"; for (int j = 0; j < n; ++j) want += "━━"; want += "━┓\n";
            for (int i = 0; i < z.m; ++i) {
                want += "┃";
                for (int j = 0; j < n; ++j) { int k = z.q.number[i][j], c = (j && h[i * n + j - 1] ? 1 : 0) + (j + 1 < n && h[i * n + j] ? 2 : 0) + (i && v[(i - 1) * n + j] ? 4 : 0) + (v[i * n + j] ? 8 : 0), deg = (c & 1) + (c >> 1 & 1) + (c >> 2 & 1) + (c >> 3);
                    if (deg >= 2) want += dir[c]; else if (k == 0) want += "  "; else { want += ' '; want += char('0' + k); } }
                want += " ┃\n";
            }
            want += "┗"; for (int j = 0; j < n; ++j) want += "━━"; want += "━┛\n";
            std::ostringstream pic; b.printNumlin(pic); CHECK(pic.str() == want, "the solution is not drawn as it is");
            // the numbers spread along the links
            std::vector<int> num(cells, 0); for (int c = 0; c < cells; ++c) num[c] = z.q.number[c / n][c % n];
            for (int r = 0; r < cells; ++r) for (int i = 0; i < z.m; ++i) for (int j = 0; j < n; ++j) { int x = i * n + j; if (j + 1 < n && h[x]) { if (num[x]) num[x + 1] = num[x]; else num[x] = num[x + 1]; } if (v[x]) { if (num[x]) num[x + n] = num[x]; else num[x] = num[x + n]; } }
            b.fillNumbers(); bool fill = true; for (int c = 0; c < cells; ++c) if (b.number[c / n][c % n] != num[c]) fill = false; CHECK(fill, "the numbers do not spread along the links"); __cover("drawn");
            Board bt = b; bt.transpose(); bool okt = true; for (int i = 0; i < z.m; ++i) for (int j = 0; j < n; ++j) { if (j + 1 < n && bt.vlink[j][i] != b.hlink[i][j]) okt = false; if (i + 1 < z.m && bt.hlink[j][i] != b.vlink[i][j]) okt = false; } CHECK(okt, "transposition loses links");
        }
    }
    finish();
}

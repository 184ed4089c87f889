// C23: a ZDD in Graphillion's text form is loaded as the family it describes.
#include "common.h"
#include <fstream>
#include <cstring>
#include <tdzdd/spec/GraphillionZdd.hpp>
enum { AR = 2 };
struct Cin { std::istringstream in; std::streambuf* old; Cin(std::string const& t) : in(t), old(std::cin.rdbuf(in.rdbuf())) { std::cin.clear(); } ~Cin() { std::cin.rdbuf(old); std::cin.clear(); } };
struct Line { int level, s, id; };
extern "C" void harness_main() {
    int n = P("n", 2), w = P("w", 2); Tab t = makeTab(n, AR, w);
    std::pair<int, int> r = t.root(); __assume(r.first > 0); // a description lists at least one node
    // the nodes reachable from the root, top down
    std::map<int, int> id; std::vector<Line> ls; std::vector<std::pair<int, int> > level[MAXN + 1]; level[r.first].push_back(r);
    for (int l = r.first; l >= 1; --l) for (size_t k = 0; k < level[l].size(); ++k) {
        Line x = { l, level[l][k].second, 0 }; ls.push_back(x);
        for (int b = 0; b < 2; ++b) { std::pair<int, int> c = t.get(l, x.s, b); if (c.first <= 0) continue; bool old = false; for (size_t q = 0; q < level[c.first].size(); ++q) if (level[c.first][q] == c) old = true; if (!old) level[c.first].push_back(c); }
    }
    int lowest = n; for (size_t k = 0; k < ls.size(); ++k) if (ls[k].level < lowest) lowest = ls[k].level;
    // identifiers and order of the lines are arbitrary
    int style = choose("style", 0, 3), base = choose("base", 0, 1) ? 2000 : 0, order = choose("order", 0, 2), first = choose("first", 0, 1) ? 1 : 10;
    for (size_t k = 0; k < ls.size(); ++k) { ls[k].id = base + (int)(style & 1 ? ls.size() - 1 - k : 2 * k); id[ls[k].level * 1024 + ls[k].s] = ls[k].id; }
    std::ostringstream os; if (style & 2) os << "# comment\n\n";
    for (size_t q = 0; q < ls.size(); ++q) {
        size_t k = order == 0 ? q : order == 1 ? ls.size() - 1 - q : (q * 2 < ls.size() ? q * 2 : (q - (ls.size() + 1) / 2) * 2 + 1); Line x = ls[k];
        os << x.id << (style & 2 ? "  " : " ") << first + (r.first - x.level); // the item of the root is the first one
        for (int b = 0; b < 2; ++b) { std::pair<int, int> c = t.get(x.level, x.s, b); os << " "; if (c.first == 0) os << (style & 2 ? "b" : "B"); else if (c.first < 0) os << (style & 2 ? "t" : "T"); else os << id[c.first * 1024 + c.second]; }
        os << "\n";
    }
    os << ".\n";
    GraphillionZdd g; { Cin in(os.str()); g.read(); }
    // the lowest level of the description becomes level 1
    int shift = lowest - 1; DdStructure<2> d(g); Assign<2> a(n), b(n);
    for (int l = 1; l <= n; ++l) b.d[l] = l + shift <= n ? a.d[l + shift] : 0;
    u64 low = 1; for (int l = 1; l <= shift; ++l) low &= 1 ^ a.d[l];
    CHECK((ddFun(d, b, ZDDR) & low) == tabFun(t, a, ZDDR), "the loaded family is not the described one");
    CHECK(d.topLevel() == r.first - shift, "the first item is not at the top level");
    if (ls.size() > 2) __cover("three nodes"); if (shift) __cover("low items unused");
    finish();
}

// C20: graphs have exactly the edges, groups and frontier bookkeeping their input describes.
#include "common.h"
#include <algorithm>
#include <tdzdd/util/Graph.hpp>
typedef std::vector<std::pair<std::string, std::string> > Edges;
struct Want { Edges added; std::map<std::string, std::string> col; };
static bool throwsUpdate(Graph& g) { try { g.update(); } catch (std::runtime_error&) { return true; } return false; }
static void verify(Graph& g, Want const& w) {
    Edges e; std::vector<std::string> vs;
    for (size_t i = 0; i < w.added.size(); ++i) {
        std::string a = w.added[i].first, b = w.added[i].second; bool old = false;
        for (size_t k = 0; k < e.size(); ++k) if ((e[k].first == a && e[k].second == b) || (e[k].first == b && e[k].second == a)) old = true;
        if (!old) e.push_back(w.added[i]);
        for (int t = 0; t < 2; ++t) { std::string const& x = t ? b : a; bool have = false; for (size_t k = 0; k < vs.size(); ++k) if (vs[k] == x) have = true; if (!have) vs.push_back(x); }
    }
    int m = (int)e.size(), nv = (int)vs.size();
    CHECK(g.edgeSize() == m, "the graph does not have the distinct edges of its input");
    CHECK(g.vertexSize() == nv, "the graph does not have the vertices of its input");
    if (g.edgeSize() != m || g.vertexSize() != nv) return;
    std::vector<int> last(nv + 1, -1), last2(nv + 1, -1), first(nv + 1, -1); std::set<std::string> names;
    for (int v = 1; v <= nv; ++v) { names.insert(g.vertexName(v)); CHECK(g.getVertex(g.vertexName(v)) == v, "vertex names and numbers do not correspond"); CHECK(g.vertexLabel(v) == g.vertexName(v), "a vertex without label has one"); }
    CHECK((int)names.size() == nv, "two vertices have one name");
    for (int i = 0; i < m; ++i) {
        Graph::EdgeInfo const& f = g.edgeInfo(i); int a = g.getVertex(e[i].first), b = g.getVertex(e[i].second), lo = a < b ? a : b, hi = a < b ? b : a;
        CHECK(f.v1 == lo && f.v2 == hi, "an edge has the wrong end vertices");
        CHECK(g.edgeName(i) == e[i] && g.edgeLabel(i) == e[i].first + "," + e[i].second, "an edge has the wrong name");
        CHECK(g.getEdge(e[i].first, e[i].second) == i && g.getEdge(std::make_pair(e[i].second, e[i].first)) == i, "an edge is not found by its name");
        CHECK(g.getEdge(a, b) == i && g.getEdge(b, a) == i, "an edge is not found by its end vertices");
        for (int t = 0; t < 2; ++t) { int v = t ? b : a; if (t && a == b) continue; if (first[v] < 0) first[v] = i; last2[v] = last[v]; last[v] = i; }
    }
    for (int v = 1; v < nv; ++v) CHECK(last[v] <= last[v + 1], "vertices are not numbered in the order they leave the frontier");
    // colours
    std::vector<int> cn(nv + 1, 0), mate(nv + 1, 0); std::map<std::string, int> num, cnt, one; int nc = 0; bool pairs = !w.col.empty();
    for (int v = 1; v <= nv; ++v) { std::map<std::string, std::string>::const_iterator c = w.col.find(g.vertexName(v)); if (c == w.col.end()) continue; if (!num.count(c->second)) num[c->second] = ++nc; cn[v] = num[c->second]; ++cnt[c->second]; }
    for (std::map<std::string, int>::iterator it = cnt.begin(); it != cnt.end(); ++it) if (it->second != 2) pairs = false;
    for (int v = 1; v <= nv; ++v) for (int u = 1; u <= nv; ++u) if (u != v && cn[u] && cn[u] == cn[v]) { int k = 0; for (int x = 1; x <= nv; ++x) k += cn[x] == cn[v]; if (k == 2) mate[v] = u; }
    CHECK(g.numColor() == nc, "the number of vertex groups is wrong"); CHECK(g.hasColorPairs() == pairs, "hasColorPairs() is wrong");
    for (int v = 1; v <= nv; ++v) { CHECK(g.colorNumber(v) == cn[v], "a vertex is in the wrong group"); CHECK(g.virtualMate(v) == mate[v], "a vertex has the wrong partner"); }
    CHECK(g.colorNumber(0) == 0 && g.colorNumber(nv + 1) == 0 && g.virtualMate(0) == 0 && g.virtualMate(nv + 1) == 0 && g.vertexName(0) == "?" && g.vertexName(nv + 1) == "?" && g.edgeName(-1).first == "?" && g.edgeName(m).second == "?", "numbers out of range are not told apart");
    // frontier
    std::set<int> seen; int width = 0; bool all = false;
    for (int i = 0; i < m; ++i) {
        Graph::EdgeInfo const& f = g.edgeInfo(i); int v0 = 1; while (last[v0] < i) ++v0;
        CHECK(f.v0 == v0, "the frontier does not start at the first vertex that has not left it");
        CHECK(f.v1final == (last[f.v1] == i) && f.v2final == (last[f.v2] == i), "the last edge of a vertex is not marked");
        if (f.v1 != f.v2) CHECK(f.v1final2 == (last2[f.v1] == i) && f.v2final2 == (last2[f.v2] == i), "the second last edge of a vertex is not marked");
        CHECK(f.finalEdge == (i == m - 1), "the final edge is not marked");
        if (cn[f.v1]) seen.insert(cn[f.v1]); if (cn[f.v2]) seen.insert(cn[f.v2]); if ((int)seen.size() == nc) all = true;
        CHECK(f.allColorsSeen == all, "allColorsSeen is wrong");
        if (f.v2 - v0 + 1 > width) width = f.v2 - v0 + 1;
    }
    for (int i = 0; i < m; ++i) { Graph::EdgeInfo& f = const_cast<Graph::EdgeInfo&>(g.edgeInfo(i)); (void)f; }
    CHECK(g.maxFrontierSize() == width, "the frontier size is wrong");
    bool t1 = false, t2 = false; try { g.getVertex("nowhere"); } catch (std::runtime_error&) { t1 = true; } try { g.getEdge("nowhere", vs.empty() ? "x" : vs[0]); } catch (std::runtime_error&) { t2 = true; }
    CHECK(t1 && t2, "an unknown name is not reported");
    for (int a = 1; a <= nv; ++a) for (int b = 1; b <= nv; ++b) { bool is = false, thr = false; for (int i = 0; i < m; ++i) if ((g.edgeInfo(i).v1 == a && g.edgeInfo(i).v2 == b) || (g.edgeInfo(i).v1 == b && g.edgeInfo(i).v2 == a)) is = true; if (!is) { try { g.getEdge(a, b); } catch (std::runtime_error&) { thr = true; } CHECK(thr, "an edge that does not exist is found"); } }
    if (P("dump", 0)) {
        std::string s = "graph {\n"; for (int v = 1; v <= nv; ++v) { s += "  \"" + g.vertexName(v) + "\""; std::map<std::string, std::string>::const_iterator c = w.col.find(g.vertexName(v)); if (c != w.col.end()) s += "[color=\"" + c->second + "\",style=filled]"; s += ";\n"; }
        for (int i = 0; i < m; ++i) s += "  \"" + g.vertexName(g.edgeInfo(i).v1) + "\"--\"" + g.vertexName(g.edgeInfo(i).v2) + "\";\n";
        s += "}\n"; std::ostringstream os; os << g; CHECK(os.str() == s, "the dump does not list the vertices and edges");
    }
    if (m > 2) __cover("three edges"); if (nc) __cover("coloured"); if (pairs) __cover("pairs");
}
static const char* NAMES[] = { "", "b", "a", "10", "9", "x y", "B", "c" };
static std::vector<std::vector<std::string> > lines(std::string const& t) {
    std::vector<std::vector<std::string> > r(1); std::string w;
    for (size_t i = 0; i <= t.size(); ++i) {
        char c = i < t.size() ? t[i] : '\n';
        if (c == ' ' || c == '\n' || c == '\t' || c == '\r') { if (!w.empty()) r.back().push_back(w); w.clear(); if (c == '\n' && i < t.size()) r.push_back(std::vector<std::string>()); }
        else w += c;
    }
    return r;
}
// any text of up to 'len' characters
static std::string text(const char* abc, int len) { std::string t; int k = (int)strlen(abc); for (int i = 0; i < len; ++i) { int c = choose("ch", 0, k); if (c == k) break; t += abc[c]; } return t; }
struct Cin { std::istringstream in; std::streambuf* old; Cin(std::string const& t) : in(t), old(std::cin.rdbuf(in.rdbuf())) { std::cin.clear(); } ~Cin() { std::cin.rdbuf(old); } };
extern "C" void harness_main() {
    int what = P("what", 0); Graph g; Want w; std::string t;
    if (what == 0) { // edges one by one, any colouring
        int V = P("V", 4), m = P("m", 3), nv = 0;
        for (int i = 0; i < m; ++i) { int c = choose("edge", -1, V * V - 1); if (c < 0) break; int a = c / V + 1, b = c % V + 1; if (a > nv + 1) __end_path(); if (a > nv) nv = a; if (b > nv + 1) __end_path(); if (b > nv) nv = b; if (a == b && !P("loops", 1)) __end_path(); g.addEdge(NAMES[a], NAMES[b]); w.added.push_back(std::make_pair(std::string(NAMES[a]), std::string(NAMES[b]))); }
        int C = P("C", 2), how = P("how", 0);
        for (int v = 1; v <= nv && C; ++v) { int c = choose("col", 0, C); if (!c) continue; if (how) { g.setColor(NAMES[v], c * how); static const char* K[] = { "", "c1" }; (void)K; } else g.setColor(NAMES[v], std::string(1, (char)('z' - c))); w.col[NAMES[v]] = std::string(1, (char)('z' - c)); }
        g.update(); verify(g, w);
        int more = P("more", 0) ? choose("more", 0, 3) : 0;
        if (more == 1) { g.clearColors(); w.col.clear(); verify(g, w); g.update(); verify(g, w); }
        if (more == 2) { g.addEdge("new", nv ? NAMES[1] : "b"); w.added.push_back(std::make_pair(std::string("new"), std::string("b"))); g.update(); verify(g, w); }
        if (more == 3) { g.setColor("nowhere", "red"); CHECK(throwsUpdate(g), "colouring a vertex that does not exist is not reported"); }
    } else if (what == 1) { // an edge list
        t = text(P("tab", 0) ? "a \n\tb\r" : "ab \n", P("len", 6)); bool bad = false, thr = false; std::vector<std::vector<std::string> > l = lines(t);
        for (size_t i = 0; i < l.size(); ++i) if (l[i].size() == 2) w.added.push_back(std::make_pair(l[i][0], l[i][1])); else if (!l[i].empty()) bad = true;
        { Cin in(t); try { g.readEdges(""); } catch (std::runtime_error&) { thr = true; } }
        CHECK(thr == bad, "a well-formed edge list is rejected, or a malformed one accepted"); if (bad) __cover("malformed");
        if (!thr && !bad) verify(g, w);
    } else if (what == 2) { // an adjacency list
        t = text(P("tab", 0) ? "1 \n\t2\r" : "12 \n", P("len", 6)); std::vector<std::vector<std::string> > l = lines(t);
        for (size_t i = 0; i < l.size(); ++i) for (size_t k = 0; k < l[i].size(); ++k) { std::string a(1, (char)('1' + i)); w.added.push_back(std::make_pair(a, l[i][k])); }
        g.addEdge("old", "edge"); { Cin in(t); g.readAdjacencyList(""); } verify(g, w);
    } else if (what == 3) { // vertex groups of a fixed graph
        const char* E[][2] = { { "1", "2" }, { "2", "3" }, { "3", "1" }, { "11", "3" } }; for (int i = 0; i < 4; ++i) { g.addEdge(E[i][0], E[i][1]); w.added.push_back(std::make_pair(std::string(E[i][0]), std::string(E[i][1]))); } g.setColor("2", "old");
        t = text("123 \n", P("len", 5)); bool bad = false, thr = false; std::vector<std::vector<std::string> > l = lines(t);
        for (size_t i = 0; i < l.size(); ++i) for (size_t k = 0; k < l[i].size(); ++k) { std::string n = l[i][k]; if (n != "1" && n != "2" && n != "3" && n != "11") bad = true; __assume(!w.col.count(n)); w.col[n] = std::string(1, (char)('A' + i)); }
        { Cin in(t); try { g.readVertexGroups(""); } catch (std::runtime_error&) { thr = true; } }
        CHECK(thr == bad, "a vertex group list is rejected, or one with unknown vertices accepted");
        if (!thr && !bad) verify(g, w);
    } else if (what == 4) { // default terminals: the vertices named 1 and n
        int n = choose("n", 2, 5); for (int i = 1; i <= n; ++i) { std::string a(1, (char)('0' + i)), b(1, (char)('0' + (i < n ? i + 1 : choose("back", 1, n)))); g.addEdge(a, b); w.added.push_back(std::make_pair(a, b)); }
        g.update(); g.setColor("2", "x"); g.setDefaultPathColor(); w.col["1"] = w.col[std::string(1, (char)('0' + n))] = "#ff7777"; verify(g, w);
    } else if (what == 5) { // many groups keep apart
        int n = P("n", 60); for (int i = 0; i < n; ++i) { std::string a = "v" + std::string(1, (char)('A' + i % 26)) + std::string(1, (char)('a' + i / 26)); g.addEdge(a, "hub"); w.added.push_back(std::make_pair(a, std::string("hub"))); g.setColor(a, i + 1000 * choose("base", 0, 1)); w.col[a] = a; }
        g.update(); verify(g, w);
    } else if (what == 6) { // any two numbers of groups: different groups iff different numbers
        int a = symInt("a", 0, P("top", 4095)), b = symInt("b", 0, P("top", 4095));
        g.addEdge("p", "q"); g.setColor("p", a); g.setColor("q", b); g.update();
        CHECK((a == b) == (g.numColor() == 1), "groups with different numbers coincide, or one number gives two groups"); CHECK(g.numColor() <= 2 && g.hasColorPairs() == (a == b), "numbered groups are wrong");
        if (a == b) __cover("one group"); else __cover("two groups");
    } else if (what == 7) { // generated graphs: edges added, as an edge list or as an adjacency list; groups set or read
        u64 r = (u64)choose("gseed", 1, P("gseeds", 20)) * 7919 + P("seed", 0) * 104729; struct G { u64& r; int operator()(int k) { r = r * 6364136223846793005ULL + 1442695040888963407ULL; return (int)((r >> 33) % (u64)k); } } rnd = { r };
        for (int k = 0; k < 5; ++k) rnd(2);
        int V = 3 + rnd(P("V", 12)), m = 1 + rnd(P("m", 24)), how = choose("how", 0, 2); std::vector<std::string> nm(V + 1); for (int v = 1; v <= V; ++v) { std::ostringstream o; o << v; nm[v] = o.str(); }
        std::vector<std::pair<int, int> > e; for (int i = 0; i < m; ++i) e.push_back(std::make_pair(1 + rnd(V), 1 + rnd(V)));
        if (how == 2) std::stable_sort(e.begin(), e.end(), [](std::pair<int, int> const& x, std::pair<int, int> const& y) { return x.first < y.first; });
        for (int i = 0; i < m; ++i) w.added.push_back(std::make_pair(nm[e[i].first], nm[e[i].second]));
        if (how == 0) { for (int i = 0; i < m; ++i) g.addEdge(w.added[i].first, w.added[i].second); g.update(); }
        else if (how == 1) { for (int i = 0; i < m; ++i) t += w.added[i].first + " " + w.added[i].second + "\n"; Cin in(t); g.readEdges(""); }
        else { int i = 0; for (int v = 1; v <= V; ++v) { for (; i < m && e[i].first == v; ++i) t += (i && e[i - 1].first == v ? " " : "") + w.added[i].second; t += "\n"; } Cin in(t); g.readAdjacencyList(""); }
        verify(g, w);
        std::vector<std::string> line(1 + rnd(4)); for (int v = 1; v <= V; ++v) { bool on = false; for (int i = 0; i < m; ++i) on |= e[i].first == v || e[i].second == v; int c = rnd((int)line.size() + 2); if (!on || c >= (int)line.size()) continue; line[c] += (line[c].empty() ? "" : " ") + nm[v]; std::ostringstream o; o << "g" << c; w.col[nm[v]] = o.str(); }
        if (choose("groups", 0, 1)) { t.clear(); for (size_t i = 0; i < line.size(); ++i) t += line[i] + "\n"; Cin in(t); g.readVertexGroups(""); }
        else { for (std::map<std::string, std::string>::iterator c = w.col.begin(); c != w.col.end(); ++c) g.setColor(c->first, c->second); g.update(); }
        verify(g, w);
    }
    finish();
}

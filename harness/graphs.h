// Symbolic graphs and reference predicates over edge sets.
#pragma once
#include "common.h"
#include <tdzdd/util/Graph.hpp>
// with generated graphs (gseeds) the other choices are generated from the seed as well
static unsigned gSeed = 0;
static inline int pick(const char* n, int lo, int hi) { if (!gSeed) return choose(n, lo, hi); gSeed = Tab::mix(gSeed + 77); return lo + (int)(gSeed % (unsigned)(hi - lo + 1)); }
struct G {
    int nv; std::vector<std::pair<int, int> > e; // vertices 1..nv, distinct undirected edges in order
    std::vector<std::pair<int, int> > added;      // as added, with repetitions and both orientations
    bool has(int a, int b) const { for (size_t i = 0; i < e.size(); ++i) if ((e[i].first == a && e[i].second == b) || (e[i].first == b && e[i].second == a)) return true; return false; }
    void add(int a, int b) { added.push_back(std::make_pair(a, b)); if (!has(a, b)) e.push_back(std::make_pair(a, b)); if (a > nv) nv = a; if (b > nv) nv = b; }
    // every sequence of m edges on at most V vertices (numbered in order of first use)
    void any(int V, int m, bool dup) {
        nv = 0;
        for (int i = 0; i < m; ++i) {
            std::vector<std::pair<int, int> > c; int u = nv < V ? nv + 1 : V;
            for (int a = 1; a <= u; ++a) { int w = a > nv ? (a < V ? a + 1 : V) : u; for (int b = 1; b <= w; ++b) if (a != b && (dup ? true : !has(a, b)) && (P("orient", 0) || a < b || b > nv)) c.push_back(std::make_pair(a, b)); }
            if (c.empty()) break;
            std::pair<int, int> q = c[choose("edge", 0, (int)c.size() - 1)]; int a = q.first, b = q.second;
            add(a, b);
        }
    }
    // a fixed family with 'k' arbitrary edges inserted at position 'at'
    void known(int shape, int k, int at) {
        nv = 0; std::vector<std::pair<int, int> > l;
#define E_(a, b) l.push_back(std::make_pair(a, b))
        if (shape == 0) { for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) { int v = r * 3 + c + 1; if (c < 2) E_(v, v + 1); if (r < 2) E_(v, v + 3); } }
        else if (shape == 1) { for (int a = 1; a <= 5; ++a) for (int b = a + 1; b <= 5; ++b) E_(a, b); }
        else if (shape == 2) { for (int r = 0; r < 5; ++r) { int v = 2 * r + 1; E_(v, v + 1); if (r < 4) { E_(v, v + 2); E_(v + 1, v + 3); } } }
        else if (shape == 3) { for (int a = 1; a <= 4; ++a) for (int b = 1; b <= 3; ++b) E_(a, b + 4); }
        else if (shape == 4) { for (int a = 1; a <= 6; ++a) E_(a, a % 6 + 1); E_(1, 4); E_(7, 2); E_(7, 5); E_(7, 8); E_(8, 3); }
        else if (shape == 5) { E_(1, 2); E_(2, 3); E_(3, 4); E_(4, 1); E_(5, 1); E_(5, 2); E_(1, 3); E_(2, 4); }
        else if (shape == 100) { E_(1, 2); E_(2, 3); }
        else if (shape == 101) { E_(1, 2); E_(1, 3); E_(2, 3); E_(1, 4); }
        else { unsigned s = (unsigned)shape; int V = P("V0", 5) + shape % 4; for (int i = 0; i < P("m", 10); ++i) { s = Tab::mix(s + i); int a = 1 + s % V, b = 1 + (s >> 8) % V; if (a == b) b = a % V + 1; E_(a, b); } }
#undef E_
        // vertices renumbered in order of first use
        std::map<int, int> id; for (size_t i = 0; i < l.size(); ++i) { if (!id.count(l[i].first)) { int n = id.size() + 1; id[l[i].first] = n; } if (!id.count(l[i].second)) { int n = id.size() + 1; id[l[i].second] = n; } }
        for (size_t i = 0; i < l.size(); ++i) {
            if ((int)i == at) for (int j = 0; j < k; ++j) { int V = (int)id.size(), q = choose("edge", 0, V * (V - 1) / 2 - 1), a = 1; while (q >= V - a) { q -= V - a; ++a; } add(a, a + 1 + q); }
            add(id[l[i].first], id[l[i].second]);
        }
    }
    static G make() { G g; if (P("gseeds", 0)) { int k = choose("gseed", 1, P("gseeds", 0)); g.known(200 + k + 1000 * P("seed", 1), 0, 0); gSeed = Tab::mix(17 * k + 1001 * P("seed", 1)) | 1; } else if (P("shape", -1) >= 0) g.known(P("shape", 0), P("k", 1), P("at", 3)); else g.any(P("V", 4), P("m", 4), P("dup", 0)); return g; }
    static std::string name(int v) { char b[8]; snprintfInt(b, v); return b; }
    static void snprintfInt(char* b, int v) { int k = 0; char t[8]; do { t[k++] = (char)('0' + v % 10); v /= 10; } while (v); for (int i = 0; i < k; ++i) b[i] = t[k - 1 - i]; b[k] = 0; }
    void fill(Graph& g) const { for (size_t i = 0; i < added.size(); ++i) g.addEdge(name(added[i].first), name(added[i].second)); }
    int n() const { return (int)e.size(); }
};
// an arbitrary edge set: bit i = edge number i; the edge's level is n - i
struct ESet {
    G const& g; Assign<2> a; std::vector<u64> in, deg;
    explicit ESet(G const& g) : g(g), a(g.n()), in(g.n()), deg(g.nv + 1, 0) {
        for (int i = 0; i < g.n(); ++i) { in[i] = a.d[g.n() - i]; deg[g.e[i].first] += in[i]; deg[g.e[i].second] += in[i]; }
    }
    // vertices connected to the start vertices through chosen edges
    std::vector<u64> reach(std::vector<u64> s) const {
        for (int r = 0; r < g.nv - 1; ++r) {
            std::vector<u64> t = s;
            for (int i = 0; i < g.n(); ++i) { int x = g.e[i].first, y = g.e[i].second; t[x] |= in[i] & s[y]; t[y] |= in[i] & s[x]; }
            s = t;
        }
        return s;
    }
    std::vector<u64> reach(int v) const { std::vector<u64> s(g.nv + 1, 0); s[v] = 1; return reach(s); }
    u64 allEdgesIn(std::vector<u64> const& r) const { u64 ok = 1; for (int i = 0; i < g.n(); ++i) ok &= (u64)(in[i] <= r[g.e[i].first]); return ok; }
};

// Shared parts of the harnesses: symbolic assignments, the function a diagram represents,
// symbolic table-driven specifications and their reference meaning.
#pragma once
#include "sym.h"
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/DdSpecOp.hpp>
using namespace tdzdd;
typedef uint64_t u64;
enum Rule { BDDR, ZDDR };
static inline int P(const char* n, int d) { return (int)__param(n, d); }
static inline void finish(const char* what = "end") { __cover(what); if (P("twin", 0)) __check(0, "vacuity twin"); }

enum { MAXN = 280 };
// an arbitrary assignment of digits to levels 1..n
template<int AR> struct Assign {
    int n; u64 d[MAXN + 1];
    explicit Assign(int n) : n(n) {
        if (AR == 2 && n > 0 && n <= 64) { u64 x = __sym("x", n); for (int i = 1; i <= n; ++i) d[i] = (x >> (i - 1)) & 1; }
        else for (int i = 1; i <= n; ++i) d[i] = (u64)__sym_range("x", 0, AR - 1);
        d[0] = 0;
    }
    // truth of "levels lo+1..hi-1 may be skipped" under rule r
    u64 skip(int hi, int lo, Rule r) const { u64 v = 1; if (r == ZDDR) for (int k = lo + 1; k < hi; ++k) v &= (u64)(d[k] == 0); return v; }
};
// value (0/1) of the function represented by a diagram at an assignment of n variables
template<int AR> struct DdFun {
    DdStructure<AR> const& dd; Assign<AR> const& a; Rule r; std::map<u64, u64> memo; size_t nodes;
    DdFun(DdStructure<AR> const& dd, Assign<AR> const& a, Rule r) : dd(dd), a(a), r(r), nodes(0) {}
    u64 at(NodeId f, int from) { // f reached from level 'from'
        if (f == 0) return 0;
        int l = f.row();
        u64 s = a.skip(from, l, r);
        if (l == 0) return s;
        return s & node(f);
    }
    u64 node(NodeId f) {
        std::map<u64, u64>::iterator it = memo.find(f.code());
        if (it != memo.end()) return it->second;
        int l = f.row(); u64 v = 0;
        for (int b = 0; b < AR; ++b) {
            NodeId g = dd.child(f, b);
            CHECK(g.row() < l, "a branch leads to a level not below its node");
            v |= (u64)(a.d[l] == (u64)b) & at(g, l);
        }
        ++nodes;
        memo[f.code()] = v;
        return v;
    }
    u64 operator()() { return at(dd.root(), a.n + 1); }
};
template<int AR> u64 ddFun(DdStructure<AR> const& dd, Assign<AR> const& a, Rule r) { return DdFun<AR>(dd, a, r)(); }
// number of nodes reachable from the root
template<int AR> void collect(DdStructure<AR> const& dd, NodeId f, std::map<u64, int>& seen) {
    if (f.row() == 0 || seen.count(f.code())) return;
    seen[f.code()] = 1;
    for (int b = 0; b < AR; ++b) collect(dd, dd.child(f, b), seen);
}
template<int AR> size_t reachable(DdStructure<AR> const& dd) { std::map<u64, int> s; collect(dd, dd.root(), s); return s.size(); }

// A table of transitions; every entry is an arbitrary value fixed when first looked at.
// States of a level are numbered in order of first use (the numbering is immaterial).
struct Tab {
    int n, ar, w; int used[MAXN + 1]; std::map<int, std::pair<int, int> > t; int maxSkip; bool allowTerm; int rootLevel; int calls;
    const char* name;
    // generated tables: every entry is fixed by a pseudo-random rule except 'nsym' entries, which are arbitrary
    int seed, nsym, dead, far, every; bool gen; int full, acc;
    Tab(int n, int ar, int w, const char* name = "t", int maxSkip = 99) : n(n), ar(ar), w(w), maxSkip(maxSkip), allowTerm(true), rootLevel(-2), calls(0), name(name), seed(0), nsym(0), dead(10), far(0), every(1), gen(false), full(0), acc(P("acc", 0)) { for (int i = 0; i <= n; ++i) used[i] = 0; }
    // seed; how many entries are arbitrary; percentage of rejecting entries; percentage of long skips
    void generate(int sd, int k, int deadPct, int farPct, int ev = 1) { gen = true; seed = sd; nsym = k; dead = deadPct; far = farPct; every = ev; for (int i = 1; i <= n; ++i) used[i] = w; }
    static unsigned mix(unsigned x) { x ^= x >> 16; x *= 0x7feb352dU; x ^= x >> 15; x *= 0x846ca68bU; x ^= x >> 16; return x; }
    std::pair<int, int> rule(int level, int s, int b) {
        unsigned h = mix((unsigned)(((level * 131 + s) * 8 + b) * 17 + seed * 7919));
        int l = level - 1; unsigned q = h % 100, f = (h / 100) % 100; h = mix(h + 1);
        if (level > n) return std::make_pair(n, (int)(h % (unsigned)w));
        if (q < (unsigned)dead) return std::make_pair(0, 0);
        if (q < (unsigned)(dead + acc)) return std::make_pair(-1, 0);
        if (f < (unsigned)far) l -= (int)(h % (unsigned)(level + 1)); else if (f < (unsigned)far + 15) l -= 1;
        if (l <= 0) return std::make_pair(full || (h >> 8) % 4 ? -1 : 0, 0);
        return std::make_pair(l, (int)((h >> 12) % (unsigned)w));
    }
    std::pair<int, int> pickGen(int level, int s, int b) {
        if (nsym > 0 && level <= n && (calls++ % every) == every - 1) {
            --nsym;
            int c = choose(name, 0, 5), l = level - 1 - (c == 4 ? 1 : c == 5 ? level / 2 : 0);
            if (c == 0) return std::make_pair(0, 0);
            if (c == 1 || l < 1) return std::make_pair(-1, 0);
            return std::make_pair(l, c == 2 ? 0 : c == 3 ? 1 % w : (s + b) % w);
        }
        return rule(level, s, b);
    }
    std::pair<int, int> pick(int below) { // below: levels < below are possible
        int lo = below - 1 - maxSkip; if (lo < 1) lo = 1;
        int tot = 2; for (int l = below - 1; l >= lo; --l) tot += used[l] < w ? used[l] + 1 : w;
        int c = choose(name, 0, tot - 1);
        if (c == 0) return std::make_pair(0, 0);
        if (c == 1) return std::make_pair(-1, 0);
        c -= 2;
        for (int l = below - 1; l >= lo; --l) {
            int k = used[l] < w ? used[l] + 1 : w;
            if (c < k) { if (c == used[l]) used[l]++; return std::make_pair(l, c); }
            c -= k;
        }
        return std::make_pair(0, 0);
    }
    std::pair<int, int> get(int level, int s, int b) {
        int k = (level * 1024 + s) * 8 + b;
        std::map<int, std::pair<int, int> >::iterator it = t.find(k);
        if (it != t.end()) return it->second;
        std::pair<int, int> p = gen ? pickGen(level, s, b) : pick(level); t[k] = p; return p;
    }
    // all entries accept or move on (large counts)
    void tens(int on) { full = on; }
    std::pair<int, int> root() { return get(n + 1, 0, 0); }
};
// reference meaning of a table specification
template<int AR> struct TabFun {
    Tab& tab; Assign<AR> const& a; Rule r; std::map<int, u64> memo;
    TabFun(Tab& t, Assign<AR> const& a, Rule r) : tab(t), a(a), r(r) {}
    u64 at(std::pair<int, int> p, int from) {
        if (p.first == 0) return 0;
        if (p.first < 0) return a.skip(from, 0, r);
        return a.skip(from, p.first, r) & node(p.first, p.second);
    }
    u64 node(int l, int s) {
        std::map<int, u64>::iterator it = memo.find(l * 1024 + s);
        if (it != memo.end()) return it->second;
        u64 v = 0;
        for (int b = 0; b < AR; ++b) v |= (u64)(a.d[l] == (u64)b) & at(tab.get(l, s, b), l);
        memo[l * 1024 + s] = v; return v;
    }
    u64 operator()() { return at(tab.root(), a.n + 1); }
};
template<int AR> u64 tabFun(Tab& t, Assign<AR> const& a, Rule r) { return TabFun<AR>(t, a, r)(); }

// can any assignment reach the accepting terminal from this entry?
struct TabLive {
    Tab& tab; std::map<int, int> memo;
    explicit TabLive(Tab& t) : tab(t) {}
    bool at(std::pair<int, int> p) { return p.first < 0 || (p.first > 0 && node(p.first, p.second)); }
    bool node(int l, int s) {
        std::map<int, int>::iterator it = memo.find(l * 1024 + s);
        if (it != memo.end()) return it->second;
        bool v = false;
        for (int b = 0; b < tab.ar; ++b) if (at(tab.get(l, s, b))) v = true;
        memo[l * 1024 + s] = v; return v;
    }
};
// reference reduction: canonical node numbers by structural hashing (0 rejects, 1 accepts)
enum Red { RQ, RB, RZ, RN }; // RN: merging only
template<int AR> struct Canon {
    Red red; std::map<std::vector<u64>, u64> uniq; u64 next;
    explicit Canon(Red r) : red(r), next(2) {}
    u64 mk(int level, std::vector<u64> const& ch) {
        bool del = true;
        if (red == RB) { for (int b = 1; b < AR; ++b) if (ch[b] != ch[0]) del = false; }
        else { for (int b = red == RZ ? 1 : 0; b < AR; ++b) if (ch[b] != 0) del = false; }
        if (del && red != RN) return ch[0];
        std::vector<u64> k(ch); k.push_back(level);
        std::map<std::vector<u64>, u64>::iterator it = uniq.find(k);
        if (it != uniq.end()) return it->second;
        return uniq[k] = next++;
    }
    u64 ofDd(DdStructure<AR> const& dd, NodeId f, std::map<u64, u64>& memo) {
        if (f.row() == 0) return f == NodeId(0) ? 0 : 1;
        std::map<u64, u64>::iterator it = memo.find(f.code()); if (it != memo.end()) return it->second;
        std::vector<u64> ch; for (int b = 0; b < AR; ++b) ch.push_back(ofDd(dd, dd.child(f, b), memo));
        return memo[f.code()] = mk(f.row(), ch);
    }
    u64 of(DdStructure<AR> const& dd) { std::map<u64, u64> m; return ofDd(dd, dd.root(), m); }
    u64 ofTab(Tab& t, std::pair<int, int> p, std::map<int, u64>& memo) {
        if (p.first <= 0) return p.first < 0;
        std::map<int, u64>::iterator it = memo.find(p.first * 1024 + p.second); if (it != memo.end()) return it->second;
        std::vector<u64> ch; for (int b = 0; b < AR; ++b) ch.push_back(ofTab(t, t.get(p.first, p.second, b), memo));
        return memo[p.first * 1024 + p.second] = mk(p.first, ch);
    }
    u64 of(Tab& t) { std::map<int, u64> m; return ofTab(t, t.root(), m); }
    // nodes of the reference diagram reachable from a canonical number
    size_t nodes(u64 root) {
        std::map<u64, std::vector<u64> const*> inv; for (std::map<std::vector<u64>, u64>::iterator it = uniq.begin(); it != uniq.end(); ++it) inv[it->second] = &it->first;
        std::set<u64> seen; std::vector<u64> st(1, root);
        while (!st.empty()) { u64 f = st.back(); st.pop_back(); if (f < 2 || !seen.insert(f).second) continue; for (int b = 0; b < AR; ++b) st.push_back((*inv[f])[b]); }
        return seen.size();
    }
};
// no two equal nodes, no deletable node, no unreachable node
template<int AR> void checkCanonical(DdStructure<AR> const& dd, Red red) {
    std::map<u64, int> seen; collect(dd, dd.root(), seen);
    CHECK(seen.size() == dd.size(), "a node of the reduced diagram is not reachable from the root");
    std::set<std::vector<u64> > u;
    for (std::map<u64, int>::iterator it = seen.begin(); it != seen.end(); ++it) {
        NodeId f(it->first); std::vector<u64> k; bool del = true;
        for (int b = 0; b < AR; ++b) k.push_back(dd.child(f, b).code());
        if (red == RB) { for (int b = 1; b < AR; ++b) if (k[b] != k[0]) del = false; } else for (int b = red == RZ ? 1 : 0; b < AR; ++b) if (k[b] != 0) del = false;
        CHECK(!del, "the reduced diagram keeps a node that the deletion rule removes");
        k.push_back(f.row());
        CHECK(u.insert(k).second, "the reduced diagram keeps two equal nodes of one level");
    }
}
// The table a check works on, chosen by its bounds: all tables (small), or a generated one with arbitrary entries.
static inline Tab makeTab(int n, int ar, int w, const char* name = "t", int seedOff = 0) {
    Tab t(n, ar, w, name, P("skip", 99));
    if (P("gen", 0)) t.generate(P("seed", 1) + seedOff + (P("seeds", 0) ? 100 * choose("seed", 1, P("seeds", 0)) : 0), P("nsym", 2), P("dead", 10), P("far", 10), P("every", 3));
    return t;
}

enum HashKind { H_DEFAULT, H_CONST, H_SAMEBUCKET };
// scalar state
template<int AR> struct TabSpec : DdSpec<TabSpec<AR>, int, AR> {
    Tab* tab; int hk, mul;
    TabSpec(Tab& t, int hk = H_DEFAULT, int mul = 1) : tab(&t), hk(hk), mul(mul) {}
    int getRoot(int& s) { std::pair<int, int> p = tab->root(); s = p.second * mul; return p.first; }
    int getChild(int& s, int level, int b) { std::pair<int, int> p = tab->get(level, s / mul, b); s = p.second * mul; return p.first; }
    size_t hashCode(int const& s) const { return hk == H_CONST ? 7 : hk == H_SAMEBUCKET ? (size_t)s * 2 * 3 * 5 * 7 * 11 * 13 * 17 : this->rawHashCode(s); }
};
// array state; the number is kept in one element, which one depends on the level; the others are filler
template<int AR, typename T = int> struct TabArraySpec : PodArrayDdSpec<TabArraySpec<AR, T>, T, AR> {
    Tab* tab; int sz, hk;
    TabArraySpec(Tab& t, int sz) : tab(&t), sz(sz), hk(P("hk", 0)) { this->setArraySize(sz); }
    size_t hash_code(void const* p, int level) const { return hk ? 7 : PodArrayDdSpec<TabArraySpec<AR, T>, T, AR>::hash_code(p, level); }
    int pos(int level) const { return (2 * sz + (level > 0 ? level : 0) - 2) % sz; }
    void put(T* a, std::pair<int, int> p) { for (int i = 0; i < sz; ++i) a[i] = (T)3; a[pos(p.first)] = (T)p.second; }
    int getRoot(T* a) { std::pair<int, int> p = tab->root(); put(a, p); return p.first; }
    int getChild(T* a, int level, int b) { std::pair<int, int> p = tab->get(level, a[pos(level)], b); put(a, p); return p.first; }
};
// mixed state; the number is split over the scalar and the array
template<int AR, typename TS = short, typename TA = short> struct TabHybridSpec : HybridDdSpec<TabHybridSpec<AR, TS, TA>, TS, TA, AR> {
    Tab* tab; int sz, hk;
    TabHybridSpec(Tab& t, int sz) : tab(&t), sz(sz), hk(P("hk", 0)) { this->setArraySize(sz); }
    size_t hash_code(void const* p, int level) const { return hk ? 7 : HybridDdSpec<TabHybridSpec<AR, TS, TA>, TS, TA, AR>::hash_code(p, level); }
    int pos(int level) const { return (2 * sz + (level > 0 ? level : 0) - 2) % sz; }
    void put(TS& s, TA* a, std::pair<int, int> p) { int v = p.second; for (int i = 0; i < sz; ++i) a[i] = (TA)0; s = (TS)(sz ? v / 2 : v); if (sz) a[pos(p.first)] = (TA)(v % 2); }
    int num(TS& s, TA* a, int level) { return sz ? (int)s * 2 + (int)a[pos(level)] : (int)s; }
    int getRoot(TS& s, TA* a) { std::pair<int, int> p = tab->root(); put(s, a, p); return p.first; }
    int getChild(TS& s, TA* a, int level, int b) { std::pair<int, int> p = tab->get(level, num(s, a, level), b); put(s, a, p); return p.first; }
};
// no state
template<int AR> struct TabStateless : StatelessDdSpec<TabStateless<AR>, AR> {
    Tab* tab;
    TabStateless(Tab& t) : tab(&t) {}
    int getRoot() { return tab->root().first; }
    int getChild(int level, int b) { return tab->get(level, 0, b).first; }
};

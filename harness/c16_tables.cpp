// C16: the hash table, hash map and dynamic array behave as a set, a map and a sequence.
#include "common.h"
#include <tdzdd/util/MyHashTable.hpp>
#include <tdzdd/util/MyVector.hpp>
#include <tdzdd/util/MemoryPool.hpp>
// ---- tables
enum { KEYS = 4, MAXKEY = 400 };
static u64 hashOf[MAXKEY]; static int hmode;
struct E { int key; u64 tag; E() : key(0), tag(0) {} E(int k, u64 t = 0) : key(k), tag(t) {} bool operator==(E const& o) const { return key == o.key; } };
static u64 hk(int k) { return hmode == 1 ? 5 : hmode == 2 ? (u64)k * 314159257ULL : hmode == 3 ? ~(u64)0 - (u64)(k % 3) : hashOf[k]; }
struct HF { size_t operator()(E const& e) const { return (size_t)hk(e.key); } size_t operator()(int k) const { return (size_t)hk(k); } };
struct EF { bool operator()(E const& a, E const& b) const { return a.key == b.key; } bool operator()(int a, int b) const { return a == b; } };
typedef MyHashTable<E, HF, EF> T;
typedef std::map<int, u64> M;
static void checkTable(T const& t, M const& m, int keys, const char* what) {
    CHECK(t.size() == m.size() && t.empty() == m.empty(), what);
    CHECK(t.tableSize() == 0 || t.size() <= t.tableSize(), what);
    for (int k = 1; k <= keys; ++k) {
        E* p = t.get(E(k)); M::const_iterator it = m.find(k);
        CHECK((p != 0) == (it != m.end()), what);
        if (p) { CHECK(p->key == k, what); CHECK(p->tag == it->second, what); }
    }
    std::map<int, int> seen; int c = 0;
    for (T::const_iterator it = t.begin(); it != t.end(); ++it) { ++c; CHECK(m.count((*it).key) && it->key == (*it).key, what); seen[it->key]++; CHECK(seen[it->key] == 1, "iteration visits an element twice"); }
    CHECK((size_t)c == m.size(), "iteration misses an element");
}
static void tables() {
    int pre = P("pre", 0), steps = P("steps", 3), keys = KEYS + pre; u64 tag = __sym("tag", 32);
    hmode = P("hmode", 0);
    if (hmode == 0) for (int k = 1; k <= keys; ++k) { // an arbitrary hash function on the first keys
        static const u64 hv[] = {0, 10, 21, ~(u64)0};
        hashOf[k] = k <= P("hsym", 2) ? hv[choose("h", 0, 3)] : (u64)k * 7;
    }
    u64 live0 = __live_allocs();
    {
        T t[2]; M m[2];
        if (P("init", 0)) { t[0].initialize(choose("n0", 0, P("init", 0))); t[1] = T((size_t)3); }
        for (int i = 0; i < pre; ++i) { E& r = t[0].add(E(KEYS + 1 + i, tag + i)); CHECK(r.key == KEYS + 1 + i && r.tag == tag + i, "add returns another element"); m[0][KEYS + 1 + i] = tag + i; }
        for (int s = 0; s < steps; ++s) {
            int op = choose("op", 0, 9), i = choose("i", 0, 1); u64 g = tag + 1000 + s;
            switch (op) {
            case 0: case 1: { int k = choose("k", 1, op == 0 ? KEYS - 1 : 1) + (op == 1 ? (pre ? KEYS + 1 : KEYS - 1) - 1 : 0); E& r = t[i].add(E(k, g)); if (!m[i].count(k)) m[i][k] = g; CHECK(r.key == k && r.tag == m[i][k], "add does not return the first representative"); break; }
            case 2: t[i] = t[1 - i]; m[i] = m[1 - i]; break;
            case 3: { T const& r = t[i]; t[i] = r; break; }
            case 4: { T c(t[1 - i]); checkTable(c, m[1 - i], keys, "a copied table differs"); c.add(E(keys + 1, g)); break; }
            case 5: { size_t n = choose("n", 0, 2) * 13; t[i].rehash(n); break; }
            case 6: t[i].clear(); m[i].clear(); break;
            case 7: { size_t n = choose("n", 0, 2) * 13; t[i].initialize(n); m[i].clear(); break; }
            case 8: t[i].moveAssign(t[1 - i]); m[i] = m[1 - i]; m[1 - i].clear(); break;
            case 9: { T c(t[i], 40); checkTable(c, m[i], keys, "a copied table differs"); int nn = 0; for (T::iterator it = t[i].begin(); it != t[i].end(); ++it) { it->tag += 1; m[i][(*it).key] += 1; ++nn; } CHECK(nn == (int)m[i].size(), "iteration misses an element"); break; }
            }
            for (int j = 0; j < 2; ++j) checkTable(t[j], m[j], keys, "the table does not hold exactly the elements added");
        }
    }
    CHECK(__live_allocs() == live0, "a table leaks memory");
}
typedef MyHashMap<int, u64, HF, EF> HM;
static void checkMap(HM const& h, M const& m, int keys, const char* what) {
    CHECK(h.size() == m.size(), what);
    for (int k = 1; k <= keys; ++k) { u64* p = h.getValue(k); M::const_iterator it = m.find(k); CHECK((p != 0) == (it != m.end()), what); if (p) CHECK(*p == it->second, what); }
    size_t c = 0; for (HM::const_iterator it = h.begin(); it != h.end(); ++it) { ++c; M::const_iterator q = m.find(it->key); CHECK(q != m.end(), what); CHECK(q->second == it->value, what); } CHECK(c == m.size(), what);
}
static void maps() {
    int pre = P("pre", 0), steps = P("steps", 3), keys = KEYS + pre; u64 v = __sym("v", 64); hmode = P("hmode", 0);
    if (hmode == 0) for (int k = 1; k <= keys; ++k) { static const u64 hv[] = {0, 10, 21, ~(u64)0}; hashOf[k] = k <= 2 ? hv[choose("h", 0, 3)] : (u64)k * 7; }
    u64 live0 = __live_allocs();
    {
        HM h; M m;
        for (int i = 0; i < pre; ++i) { h[KEYS + 1 + i] = v + i; m[KEYS + 1 + i] = v + i; }
        for (int s = 0; s < steps; ++s) {
            int op = choose("op", 0, 5);
            switch (op) {
            case 0: { int k = choose("k", 1, KEYS); h[k] = v * (s + 2); m[k] = v * (s + 2); break; }
            case 1: { int k = choose("k", 1, 2); h[k] += 3; m[k] += 3; break; }
            case 2: { HM c(h); checkMap(c, m, keys, "a copied map differs"); c[1] = 99; break; }
            case 3: { HM c; c[2] = 1; c = h; checkMap(c, m, keys, "an assigned map differs"); break; }
            case 4: h.rehash(choose("n", 0, 1) * 20); break;
            case 5: { HM c(h, 30); checkMap(c, m, keys, "a copied map differs"); h.clear(); m.clear(); break; }
            }
            checkMap(h, m, keys, "the map does not hold the last value stored for every key");
        }
    }
    CHECK(__live_allocs() == live0, "a map leaks memory");
}
// ---- vectors; elements check that they are constructed and destroyed exactly once
static int liveL;
struct L {
    u64 v; u64 magic;
    enum : u64 { OK = 0x5a5a1234 };
    L() : v(0), magic(OK) { ++liveL; }
    L(u64 x) : v(x), magic(OK) { ++liveL; }
    L(L const& o) : v(o.v), magic(OK) { CHECK(o.magic == OK, "a dead element is copied"); ++liveL; }
    L& operator=(L const& o) { CHECK(magic == OK && o.magic == OK, "a dead element is assigned"); v = o.v; return *this; }
    ~L() { CHECK(magic == OK, "an element is destroyed twice"); magic = 0; --liveL; }
    bool operator==(L const& o) const { return v == o.v; }
    size_t hash() const { return v; }
};
static u64 val(L const& l) { CHECK(l.magic == L::OK, "a dead element is read"); return l.v; }
template<class X> static u64 val(X const& x) { return (u64)x; }
template<class V> static void checkVec(V& a, std::vector<u64> const& m, const char* what) {
    CHECK((size_t)a.size() == m.size() && a.empty() == m.empty(), what);
    CHECK((size_t)a.capacity() >= (size_t)a.size(), what);
    for (size_t i = 0; i < m.size(); ++i) { CHECK(val(a[i]) == m[i], what); CHECK(val(((V const&)a)[i]) == m[i], what); }
    size_t c = 0; for (typename V::const_iterator it = ((V const&)a).begin(); it != ((V const&)a).end(); ++it, ++c) { CHECK(c < m.size(), what); CHECK(val(*it) == m[c], "iteration differs"); } CHECK(c == m.size(), "iteration differs");
    if (!m.empty()) { CHECK(val(a.back()) == m.back() && val(*a.data()) == m[0], what); c = 0; for (typename V::reverse_iterator it = a.rbegin(); it != a.rend(); ++it) { ++c; CHECK(c <= m.size(), what); CHECK(val(*it) == m[m.size() - c], "reverse iteration differs"); } CHECK(c == m.size(), "reverse iteration differs"); }
}
template<class X, class S> static void vectors() {
    typedef MyVector<X, S> V; typedef std::vector<u64> R; int steps = P("steps", 3), pre = P("pre", 2), opmax = P("opmax", 17); u64 x = __sym("x", 32), y = __sym("y", 32);
    u64 live0 = __live_allocs();
    {
        V a[2]; R m[2];
        for (int i = 0; i < pre; ++i) { a[0].push_back(X(x + i)); m[0].push_back(x + i); }
        for (int s = 0; s < steps; ++s) {
            int op = choose("op", 0, opmax), i = P("one", 0) ? 0 : choose("i", 0, 1); u64 g = y + s * 100;
            switch (op) {
            case 0: a[i].push_back(X(g)); m[i].push_back(g); break;
            case 1: { int n = choose("n", 0, P("nmax", 6)); a[i].resize(n); m[i].resize(n); break; }
            case 2: a[i].pop_back(); if (!m[i].empty()) m[i].pop_back(); break;
            case 3: a[i].reserve(choose("n", 0, 2) * 3); break;
            case 4: { int n = choose("n", 0, 3); a[i].init(n); m[i] = R(n, 0); break; }
            case 5: a[i].clear(); m[i].clear(); break;
            case 6: a[i] = a[1 - i]; m[i] = m[1 - i]; break;
            case 7: { V const& r = a[i]; a[i] = r; break; }
            case 8: { V c(a[i]); checkVec(c, m[i], "a copied array differs"); CHECK(c == a[i], "a copy is not equal"); c.push_back(X(g)); CHECK(!(c == a[i]) && c.size() == a[i].size() + 1, "arrays of different lengths are equal"); if (!m[i].empty()) { c = a[i]; c[0] = X(g); CHECK((c == a[i]) == (g == m[i][0]), "equality is wrong"); } break; }
            case 9: a[i].swap(a[1 - i]); std::swap(m[i], m[1 - i]); break;
            case 10: if (!m[i].empty()) { int p = choose("p", 0, (int)m[i].size() - 1); X* r = a[i].erase(a[i].begin() + p); m[i].erase(m[i].begin() + p); CHECK(r == a[i].begin() + p, "erase returns the wrong position"); } break;
            case 11: { int p = choose("p", 0, (int)m[i].size()), q = choose("q", p, (int)m[i].size()); X* r = a[i].erase(a[i].begin() + p, a[i].begin() + q); m[i].erase(m[i].begin() + p, m[i].begin() + q); CHECK(r == a[i].begin() + p, "erase returns the wrong position"); break; }
            case 12: if (!m[i].empty()) { a[i].push_back(a[i][0]); u64 z = m[i][0]; m[i].push_back(z); } break;
            case 13: { R src(choose("n", 0, 3), g); V c(src); checkVec(c, src, "an array made from a vector differs"); a[i] = src; m[i] = src; break; }
            case 14: { int n = choose("n", 0, 3); V c((S)n, X(g)); R r(n, g); checkVec(c, r, "an array of n values differs"); V d((S)n); R r0(n, 0); checkVec(d, r0, "an array of n elements differs"); break; }
            case 15: for (size_t q = 0; q < m[i].size(); ++q) { a[i][q] = X(g + q); m[i][q] = g + q; } break;
            case 16: { int n = P("grow", 12); for (int q = 0; q < n; ++q) { a[i].push_back(X(g + q)); m[i].push_back(g + q); } break; }
            case 17: for (size_t q = 0; q < m[i].size(); ++q) a[i].pop_back(); m[i].clear(); CHECK(a[i].empty(), "removing all elements"); a[i].pop_back(); break;
            }
            for (int j = 0; j < 2; ++j) checkVec(a[j], m[j], "the array does not hold the same sequence as a standard vector");
        }
    }
    CHECK(liveL == 0, "an element is never destroyed");
    CHECK(__live_allocs() == live0, "an array leaks memory");
}
// vectors of pools: pools move with their contents
static void pools() {
    int steps = P("steps", 3); u64 x = __sym("x", 32); u64 live0 = __live_allocs();
    {
        MemoryPools ps; std::vector<u64*> p; std::vector<u64> v; ps.resize(1);
        for (int s = 0; s < steps; ++s) {
            int op = choose("op", 0, 4);
            switch (op) {
            case 0: case 1: { if (ps.empty()) break; size_t k = op ? ps.size() - 1 : 0; u64* q = ps[k].allocate<u64>(2); q[0] = x + s; q[1] = x ^ s; if (k == 0) { p.push_back(q); v.push_back(x + s); } break; }
            case 2: { int n = choose("n", 0, 3); if (n == 0) { p.clear(); v.clear(); } ps.resize(n); break; }
            case 3: { if (!ps.empty()) { ps[0].clear(); p.clear(); v.clear(); } ps.resize(ps.size() + 1); break; }
            case 4: if (ps.size() >= 2) { ps[0].splice(ps[1]); CHECK(ps[1].empty(), "a spliced pool is not empty"); } break;
            }
            for (size_t i = 0; i < p.size(); ++i) CHECK(*p[i] == v[i], "contents of a pool changed");
        }
    }
    CHECK(__live_allocs() == live0, "a pool leaks memory");
}
extern "C" void harness_main() {
    switch (P("what", 0)) {
    case 0: tables(); break;
    case 1: maps(); break;
    case 2: vectors<L, size_t>(); break;
    case 3: vectors<int64_t, size_t>(); break;
    case 4: vectors<L, unsigned>(); break;
    case 5: pools(); break;
    }
    finish();
}

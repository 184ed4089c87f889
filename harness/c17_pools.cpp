// C17: pooled lists, memory pools and integer sets keep their contents.
#include "common.h"
#include <stdexcept>
#include <algorithm>
#include <tdzdd/util/MemoryPool.hpp>
#include <tdzdd/util/MyList.hpp>
#include <tdzdd/util/MySet.hpp>
struct Blk { u64* p; int n; u64 tag; };
static void fillB(Blk& b) { for (int i = 0; i < b.n; ++i) b.p[i] = b.tag + (u64)i; }
static void checkB(Blk const& b, const char* what) { for (int i = 0; i < b.n; ++i) CHECK(b.p[i] == b.tag + (u64)i, what); }
// ---- lists
template<class L> static void checkList(L& l, std::vector<Blk> const& m) {
    CHECK(l.size() == m.size() && l.empty() == m.empty(), "the size of the list is wrong");
    size_t i = m.size(); for (typename L::iterator it = l.begin(); it != l.end(); ++it) { CHECK(i > 0, "the list yields too many elements"); --i; CHECK(*it == m[i].p, "the list is not in reverse order of insertion"); checkB(m[i], "an element of the list changed"); }
    CHECK(i == 0, "the list yields too few elements");
    if (!m.empty()) { CHECK(l.front() == m.back().p, "front is not the last element"); CHECK(((L const&)l).front() == m.back().p, "front is not the last element"); }
}
template<int B> struct Mal { typedef MyList<u64, B> L; static u64* alloc(L& l, MemoryPool&, int n, bool dflt) { return dflt ? l.alloc_front() : l.alloc_front(n); } };
struct Pool { typedef MyListOnPool<u64> L; static u64* alloc(L& l, MemoryPool& p, int n, bool dflt) { return dflt ? l.alloc_front(p) : l.alloc_front(p, n); } };
template<class K> static void lists() {
    int steps = P("steps", 5), nmax = P("nmax", 3); u64 x = __sym("x", 32); u64 live0 = __live_allocs();
    {
        MemoryPool pool; typename K::L l[2]; std::vector<Blk> m[2];
        for (int k = 0; k < P("load", 0); ++k) { Blk b; b.n = k % (nmax + 1); b.tag = x + 7 * k; b.p = K::alloc(l[k % 5 == 4 && P("two", 0)], pool, b.n, false); fillB(b); m[k % 5 == 4 && P("two", 0)].push_back(b); }
        for (int s = 0; s < steps; ++s) {
            int i = P("two", 0) ? choose("i", 0, 1) : 0, op = choose("op", 0, nmax + 3);
            if (op <= nmax) { Blk b; b.n = op; b.tag = x + 97 * s; b.p = K::alloc(l[i], pool, op, false); fillB(b); m[i].push_back(b); }
            else if (op == nmax + 1) { Blk b; b.n = 1; b.tag = x + 97 * s; b.p = K::alloc(l[i], pool, 1, true); fillB(b); m[i].push_back(b); }
            else if (op == nmax + 2) { if (!m[i].empty()) { l[i].pop_front(); m[i].pop_back(); } }
            else { l[i].clear(); m[i].clear(); typename K::L c(l[i]); CHECK(c.empty() && c.size() == 0, "a copy of an empty list is not empty"); c = l[i]; CHECK(c.empty(), "a copy of an empty list is not empty"); }
            checkList(l[0], m[0]); if (P("two", 0)) checkList(l[1], m[1]);
        }
        u64 t0 = __live_allocs(); if (!m[0].empty()) { bool thrown = false; try { typename K::L c(l[0]); } catch (std::exception&) { thrown = true; } CHECK(thrown, "copying a nonempty list is not refused"); checkList(l[0], m[0]); }
        live0 += __live_allocs() - t0; // the exception object
    }
    CHECK(__live_allocs() == live0, "a list leaks memory");
}
// elements whose size is no multiple of a cell
struct Odd { unsigned char c[11]; };
static void oddList() {
    int steps = P("steps", 4); u64 x = __sym("x", 8); MyList<Odd, 3> l; MemoryPool pool; MyListOnPool<Odd> lp; std::vector<std::pair<Odd*, int> > m, mp;
    for (int s = 0; s < steps; ++s) {
        int op = choose("op", 0, 3), k = op % 2 + 1;
        if (op < 2) { Odd* p = l.alloc_front(k); for (int i = 0; i < k; ++i) for (int j = 0; j < 11; ++j) p[i].c[j] = (unsigned char)(x + s + j); m.push_back(std::make_pair(p, k * 100 + s)); p = lp.alloc_front(pool, k); for (int i = 0; i < k; ++i) for (int j = 0; j < 11; ++j) p[i].c[j] = (unsigned char)(x + s + j); mp.push_back(std::make_pair(p, k * 100 + s)); }
        else if (op == 2) { if (!m.empty()) { l.pop_front(); m.pop_back(); lp.pop_front(); mp.pop_back(); } }
        for (int w = 0; w < 2; ++w) { std::vector<std::pair<Odd*, int> >& q = w ? mp : m; for (size_t e = 0; e < q.size(); ++e) for (int i = 0; i < q[e].second / 100; ++i) for (int j = 0; j < 11; ++j) CHECK(q[e].first[i].c[j] == (unsigned char)(x + q[e].second % 100 + j), "an element of the list changed"); }
    }
    size_t i = m.size(); for (MyList<Odd, 3>::iterator it = l.begin(); it != l.end(); ++it) { --i; CHECK(*it == m[i].first, "the list is not in reverse order of insertion"); } CHECK(i == 0 && l.size() == m.size(), "the size of the list is wrong");
    i = mp.size(); for (MyListOnPool<Odd>::const_iterator it = ((MyListOnPool<Odd> const&)lp).begin(); it != ((MyListOnPool<Odd> const&)lp).end(); ++it) { --i; CHECK(*it == mp[i].first, "the list is not in reverse order of insertion"); } CHECK(i == 0 && lp.size() == mp.size(), "the size of the list is wrong");
}
// ---- pools: objects carry a tag in their first and last words; extents may not overlap
struct Obj { char* p; size_t n; u64 tag; int owner; };
static void put(Obj const& o) { if (o.n >= 8) { u64 t = o.tag; memcpy(o.p, &t, 8); t = ~t; memcpy(o.p + o.n - 8, &t, 8); if (o.n < 16) { t = o.tag; memcpy(o.p, &t, 8); } } else for (size_t i = 0; i < o.n; ++i) o.p[i] = (char)(o.tag + i); }
static void see(Obj const& o) { u64 t; if (o.n >= 8) { memcpy(&t, o.p, 8); CHECK(t == o.tag, "contents of a pool object changed"); if (o.n >= 16) { memcpy(&t, o.p + o.n - 8, 8); CHECK(t == (u64)~o.tag, "contents of a pool object changed"); } } else for (size_t i = 0; i < o.n; ++i) CHECK(o.p[i] == (char)(o.tag + i), "contents of a pool object changed"); }
static void drop(std::vector<Obj>& v, int owner) { std::vector<Obj> r; for (size_t i = 0; i < v.size(); ++i) if (v[i].owner != owner) r.push_back(v[i]); v = r; }
static void pools() {
    static const size_t sz[] = {8, 40001, 100000, 40000, 420000, 1, 24, 39993}; int steps = P("steps", 4); u64 x = __sym("x", 32); u64 live0 = __live_allocs();
    {
        MemoryPool p[2]; std::vector<Obj> v; int owns[2] = {0, 1};
        for (int s = 0; s < steps; ++s) {
            int op = choose("op", 0, P("opmax", 12)); if (P("nsz", 8) < 8) __assume(op >= 8 || op < P("nsz", 8)); int i = P("two", 1) ? choose("i", 0, 1) : 0;
            if (op <= 7 || op == 8) {
                int rep = op == 8 ? 23 : 1; size_t n = op == 8 ? 39992 : sz[op];
                for (int r = 0; r < rep; ++r) {
                    Obj o; o.n = n; o.tag = x + 1000 * s + r; o.owner = i; o.p = r % 2 ? (char*)p[i].alloc(n) : p[i].allocate<char>(n);
                    for (size_t j = 0; j < v.size(); ++j) CHECK(o.p + o.n <= v[j].p || v[j].p + v[j].n <= o.p, "pool objects overlap");
                    CHECK(((uintptr_t)o.p & 7) == 0, "pool object is not aligned"); put(o); v.push_back(o); CHECK(!p[i].empty(), "a pool with objects is empty");
                }
            }
            else if (op == 9) { p[i].clear(); drop(v, i); CHECK(p[i].empty(), "a cleared pool is not empty"); }
            else if (op == 10) { p[i].reuse(); drop(v, i); }
            else if (op == 11) { p[i].splice(p[1 - i]); for (size_t j = 0; j < v.size(); ++j) v[j].owner = i; CHECK(p[1 - i].empty(), "a spliced pool is not empty"); }
            else { MemoryPool q(p[i]); CHECK(q.empty(), "a copy of a pool is not empty"); p[i].clear(); drop(v, i); p[i].moveFrom(p[1 - i]); for (size_t j = 0; j < v.size(); ++j) v[j].owner = i; CHECK(p[1 - i].empty(), "a moved pool is not empty"); }
            for (size_t j = 0; j < v.size(); ++j) see(v[j]);
        }
    }
    CHECK(__live_allocs() == live0, "a pool leaks memory"); (void)0;
}
// ---- bit sets
template<class B> static void checkBits(B const& b, std::set<size_t> const& m, size_t bits) {
    CHECK(b.empty() == m.empty(), "emptiness is wrong");
    for (size_t i = 0; i < bits; i += (i % 64 == 1 || i % 64 == 32) ? 30 : 1) CHECK(b.includes(i) == (m.count(i) != 0), "membership is wrong");
    std::set<size_t>::const_iterator t = m.begin();
    for (typename B::const_iterator it = b.begin(); it != b.end(); ++it, ++t) { CHECK(t != m.end(), "iteration yields too much"); CHECK(*it == *t, "iteration is not in order"); }
    CHECK(t == m.end(), "iteration yields too little");
}
static void bitset(MyBitSet<0>& b, MyBitSet<0>& c) { (void)b; (void)c; }
template<class B> static void bitops(B& b, B& c, size_t bits) {
    static const size_t ix[] = {0, 1, 63, 32, 62, 64, 127, 65, 128, 191}; int nix = bits <= 64 ? 5 : bits <= 128 ? 8 : 10, steps = P("steps", 3); std::set<size_t> m[2];
    B* s[2] = {&b, &c};
    for (int k = 0; k < P("pre", 0); ++k) { size_t i = ((size_t)k * 37 + 5) % bits; c.add(i); m[1].insert(i); }
    for (int k = 0; k < steps; ++k) {
        int op = choose("op", 0, 2), i = choose("which", 0, 1);
        if (op == 2) { s[i]->clear(); m[i].clear(); }
        else { size_t e = ix[choose("e", 0, nix - 1)]; if (op == 0) { s[i]->add(e); m[i].insert(e); } else { s[i]->remove(e); m[i].erase(e); } }
        for (int j = 0; j < 2; ++j) checkBits(*s[j], m[j], bits);
    }
    CHECK((b == c) == (m[0] == m[1]), "equality is wrong"); if (b == c) CHECK(b.hash() == c.hash(), "equal sets have different hash codes");
    bool in = false; for (std::set<size_t>::iterator t = m[0].begin(); t != m[0].end(); ++t) if (m[1].count(*t)) in = true; CHECK(b.intersects(c) == in && c.intersects(b) == in, "intersection is wrong");
    std::ostringstream o; o << b; std::ostringstream r; r << '{'; for (std::set<size_t>::iterator t = m[0].begin(); t != m[0].end(); ++t) { if (t != m[0].begin()) r << ','; r << *t; } r << '}'; CHECK(o.str() == r.str(), "the printed set is wrong");
}
static void bits() {
    int w = P("words", 1);
    if (w == 1) { MyBitSet<1> a, b; bitops(a, b, 64); } else if (w == 2) { MyBitSet<2> a, b; bitops(a, b, 128); } else if (w == 3) { MyBitSet<3> a, b; bitops(a, b, 192); }
    else { MemoryPool pool; u64* g0 = pool.allocate<u64>(1); *g0 = 77; MyBitSetOnPool *a = MyBitSetOnPool::newInstance(pool, w); u64* g1 = pool.allocate<u64>(1); *g1 = 78; MyBitSetOnPool* b = MyBitSetOnPool::newInstance(pool, w); u64* g2 = pool.allocate<u64>(1); *g2 = 79;
        CHECK(a->numWords() == (size_t)(w + 63) / 64, "wrong number of words"); bitops<MyBitSet<0> >(*a, *b, a->numWords() * 64); CHECK(*g0 == 77 && *g1 == 78 && *g2 == 79, "memory beside a bit set changed"); }
}
// arbitrary words and indices
static void symbits() {
    u64 x = __sym("x", 64), y = __sym("y", 64); MyBitSet<1> a(x), b(y); size_t i = (size_t)__sym_range("i", 0, 63), j = (size_t)__sym_range("j", 0, 63);
    CHECK(a.includes(i) == ((x >> i & 1) != 0), "membership is wrong"); CHECK((a == b) == (x == y), "equality is wrong"); CHECK(a.intersects(b) == ((x & y) != 0), "intersection is wrong"); CHECK(a.empty() == (x == 0), "emptiness is wrong");
    a.add(i); CHECK(a.includes(j) == (i == j || (x >> j & 1)), "adding changes another element"); b.remove(i); CHECK(b.includes(j) == (i != j && (y >> j & 1)), "removing changes another element"); CHECK(a.hash() != 0 || true, "");
    MyBitSet<1> c(x); MyBitSet<1>::const_iterator t = c.begin(); int first = choose("first", 0, 63); __assume(x != 0 && (x & ((u64(1) << first) - 1)) == 0 && (x >> first & 1));
    CHECK(t != c.end() && *t == (size_t)first, "the first element is wrong"); u64 rest = x & ~(u64(1) << first); ++t; if (rest == 0) CHECK(t == c.end(), "the end is wrong"); else { CHECK(t != c.end(), "the end is wrong"); size_t q = *t; CHECK((rest >> q & 1) && (rest & ((u64(1) << q) - 1)) == 0, "the second element is wrong"); }
}
// ---- small sets
template<class S> static void checkSmall(S const& s, std::set<long> const& m) {
    CHECK(s.size() == m.size() && s.empty() == m.empty(), "the size is wrong"); size_t k = 0;
    std::set<long>::const_iterator t = m.begin(); for (typename S::const_iterator it = s.begin(); it != s.end(); ++it, ++t, ++k) { CHECK(t != m.end(), "the set yields too much"); CHECK(*it == *t && s.get(k) == *t, "the set is not in order"); CHECK(s.includes(*t), "membership is wrong"); } CHECK(t == m.end(), "the set yields too little");
    std::set<long>::const_reverse_iterator r = m.rbegin(); if (!m.empty()) for (typename S::const_reverse_iterator it = s.rbegin(); it != s.rend(); ++it, ++r) { CHECK(r != m.rend(), "the set yields too much"); CHECK(*it == *r, "reverse iteration is wrong"); }
}
template<class S> static void smallops(S& a, S& b, size_t cap, bool bounded) {
    int steps = P("steps", 4), dom = P("dom", 4); std::set<long> m[2]; S* s[2] = {&a, &b}; static const int val[] = {5, 2, 9, 3, 7, 1, 8};
    for (int k = 0; k < P("pre", 0); ++k) { b.add(val[k]); m[1].insert(val[k]); }
    for (int k = 0; k < steps; ++k) {
        int op = choose("op", 0, 2), i = choose("which", 0, 1);
        if (op == 2) { s[i]->clear(); m[i].clear(); }
        else {
            int e = val[choose("e", 0, dom - 1)];
            if (op == 1) { s[i]->remove(e); m[i].erase(e); }
            else if (m[i].size() < cap || m[i].count(e)) { bool thrown = false; try { s[i]->add(e); } catch (std::out_of_range&) { thrown = true; } if (!thrown) m[i].insert(e); else CHECK(bounded && m[i].size() >= cap, "adding is refused below the capacity"); }
            else if (bounded) { bool thrown = false; try { s[i]->add(e); } catch (std::out_of_range&) { thrown = true; } CHECK(thrown, "adding beyond the capacity is not refused"); }
            CHECK(s[i]->includes(e) == (m[i].count(e) != 0), "membership is wrong");
        }
        for (int j = 0; j < 2; ++j) checkSmall(*s[j], m[j]);
    }
    bool eq = m[0] == m[1], in = false, all = true; for (std::set<long>::iterator t = m[1].begin(); t != m[1].end(); ++t) { if (m[0].count(*t)) in = true; else all = false; }
    CHECK((a == b) == eq && a.equals(b) == eq && a.equals(m[1]) == eq, "equality is wrong"); if (eq) CHECK(a.hash() == b.hash(), "equal sets have different hash codes");
    CHECK(a.intersects(b) == in && a.intersects(m[1]) == in, "intersection is wrong"); CHECK(a.containsAll(b) == all && a.containsAll(m[1]) == all, "containment is wrong");
    std::ostringstream o; o << a; std::ostringstream r; r << '{'; for (std::set<long>::iterator t = m[0].begin(); t != m[0].end(); ++t) { if (t != m[0].begin()) r << ','; r << *t; } r << '}'; CHECK(o.str() == r.str(), "the printed set is wrong");
}
static void smalls() {
    if (P("pool", 0)) {
        int cap = P("pool", 0); MemoryPool pool; typedef MySmallSetOnPool<long> S; u64* g0 = pool.allocate<u64>(1); *g0 = 77; S* a = S::newInstance(pool, cap); u64* g1 = pool.allocate<u64>(1); *g1 = 78; S* b = S::newInstance(pool, (size_t)cap); u64* g2 = pool.allocate<u64>(1); *g2 = 79;
        smallops<MySmallSet<long, 0> >(*a, *b, cap, false); CHECK(*g0 == 77 && *g1 == 78 && *g2 == 79, "memory beside a small set changed");
        std::vector<long> v(b->begin(), b->end()); S* c = S::newInstance(pool, v); u64* g3 = pool.allocate<u64>(1); *g3 = 80; CHECK(*c == *b, "a set made from a container differs"); if (!v.empty()) c->add(v[0]); CHECK(*c == *b && *g3 == 80, "adding a present element changes something");
    }
    else { MySmallSet<int, 4> a, b; smallops(a, b, 3, true); }
}
// arbitrary element values
static void symsmall() {
    MySmallSet<int, 6> s; int n = P("n", 4); std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back((int)__sym("v", 32));
    for (int i = 0; i < n; ++i) s.add(v[i]); int r = (int)__sym("r", 32), q = (int)__sym("q", 32); if (P("rem", 1)) s.remove(r);
    u64 want = 0; for (int i = 0; i < n; ++i) want |= (u64)(v[i] == q); if (P("rem", 1)) want &= (u64)(q != r);
    CHECK(s.includes(q) == (want != 0), "membership is wrong"); for (size_t i = 1; i < s.size(); ++i) CHECK(s.get(i - 1) < s.get(i), "the set is not in order");
}
// ---- collections of pools
static void poolVec() {
    int steps = P("steps", 4); u64 x = __sym("x", 32); u64 live0 = __live_allocs();
    {
        MemoryPools v; std::vector<Obj> m; int n = 0; // owner: number of the pool
        for (int s = 0; s < steps; ++s) {
            int op = choose("op", 0, 4);
            if (op <= 1) { // another size
                int k = op == 0 ? n + 1 + s % 2 : n / 2; v.resize(k); for (int i = k; i < n; ++i) drop(m, i); n = k;
                CHECK((int)v.size() == n, "the number of pools is wrong");
            }
            else if (op == 2) v.reserve(n + 3);
            else if (op == 3) { // objects in every pool
                for (int i = 0; i < n; ++i) for (int r = 0; r < 2; ++r) { Obj o; o.n = r ? 39000 : 24; o.tag = x + 1000 * s + 10 * i + r; o.owner = i; o.p = v[i].allocate<char>(o.n); for (size_t j = 0; j < m.size(); ++j) CHECK(o.p + o.n <= m[j].p || m[j].p + m[j].n <= o.p, "pool objects overlap"); put(o); m.push_back(o); }
            }
            else { v.clear(); m.clear(); n = 0; CHECK(v.empty(), "a cleared collection is not empty"); }
            for (size_t j = 0; j < m.size(); ++j) see(m[j]);
            for (int i = 0; i < n; ++i) { bool any = false; for (size_t j = 0; j < m.size(); ++j) if (m[j].owner == i) any = true; CHECK(v[i].empty() == !any, "emptiness of a pool in a collection is wrong"); }
        }
    }
    CHECK(__live_allocs() == live0, "a collection of pools leaks memory");
}
extern "C" void harness_main() {
    switch (P("what", 0)) {
    case 0: lists<Mal<2> >(); break;
    case 1: lists<Pool>(); break;
    case 2: pools(); break;
    case 3: bits(); break;
    case 4: smalls(); break;
    case 5: symbits(); break;
    case 6: symsmall(); break;
    case 7: oddList(); break;
    case 9: { u64 x = __sym("x", 64); int i = choose("i", 0, 2) * 32 + choose("j", 0, 31); MyBitSet<2> b[2]; b[0] = MyBitSet<2>(x); b[0].add(64 + (i & 7)); b[1].add(3); b[0].pullout(i < 64 ? i : i + 31 < 128 ? i + 31 : 127); CHECK(b[1].includes(3) && !b[1].includes(2) && !b[1].includes(4), "pulling an entry out of one set changes another"); break; }
    case 10: poolVec(); break;
    case 8: lists<Mal<1000> >(); break;
    }
    finish();
}

// A model of the SAPPORO BDD package (only what TdZdd calls): functions and families over at most 6
// variables as truth tables; bit k of the table is the value for the assignment k (bit l-1 of k: the
// variable at level l).  Variables have numbers and levels, which need not agree.
#pragma once
#include <vector>
#ifdef _OPENMP
#include <omp.h>
#endif
struct Sapporo {
    static int& used() { static int n = 0; return n; }
    static int* varOfLev() { static int v[8] = { 0 }; return v; }
    static long& calls() { static long c = 0; return c; }
    static void enter() { ++calls(); CHECK(calls() < 3000, "the external package is called without end");
#ifdef _OPENMP
        CHECK(omp_get_num_threads() == 1, "the external package is called by several threads at once");
#endif
    }
    static int levOfVar(int v) { if (v == 0) return 0; for (int l = 1; l <= used(); ++l) if (varOfLev()[l] == v) return l; return -1; }
    static u64 row(int l) { static u64 const r[] = { 0, 0xaaaaaaaaaaaaaaaaULL, 0xccccccccccccccccULL, 0xf0f0f0f0f0f0f0f0ULL, 0xff00ff00ff00ff00ULL, 0xffff0000ffff0000ULL, 0xffffffff00000000ULL }; return r[l]; }
    static u64 f0(u64 t, int l) { u64 x = t & ~row(l); return x | (x << (1 << (l - 1))); }
    static u64 f1(u64 t, int l) { u64 x = t & row(l); return x | (x >> (1 << (l - 1))); }
};
static inline int BDD_VarUsed() { Sapporo::enter(); return Sapporo::used(); }
static inline int BDD_NewVar() { Sapporo::enter(); int n = ++Sapporo::used(); CHECK(n <= 6, "more variables are created than the diagram has levels"); Sapporo::varOfLev()[n] = n; return n; }
static inline int BDD_LevOfVar(int v) { Sapporo::enter(); CHECK(v >= 0 && v <= Sapporo::used(), "the package is asked for the level of an unknown variable"); return Sapporo::levOfVar(v); }
static inline int BDD_VarOfLev(int l) { Sapporo::enter(); CHECK(l >= 0 && l <= Sapporo::used(), "the package is asked for the variable of an unknown level"); return l ? Sapporo::varOfLev()[l] : 0; }
class BDD {
public:
    u64 t;
    BDD() : t(0) {}
    BDD(int v) : t(v ? ~0ULL : 0) { CHECK(v == 0 || v == 1, "a constant that is not 0 or 1 is created"); }
    BDD(BDD const& f) : t(f.t) {}
    BDD& operator=(BDD const& f) { t = f.t; return *this; }
    static BDD of(u64 t) { BDD f; f.t = t; return f; }
    int Top() { Sapporo::enter(); for (int l = Sapporo::used(); l >= 1; --l) if (Sapporo::f0(t, l) != Sapporo::f1(t, l)) return Sapporo::varOfLev()[l]; return 0; }
    int Top() const { return BDD(*this).Top(); }
    BDD At0(int v) const { Sapporo::enter(); return of(Sapporo::f0(t, Sapporo::levOfVar(v))); }
    BDD At1(int v) const { Sapporo::enter(); return of(Sapporo::f1(t, Sapporo::levOfVar(v))); }
    BDD operator~() const { Sapporo::enter(); return of(~t); }
    u64 GetID() { return t; }
    friend BDD operator&(BDD const& f, BDD const& g) { Sapporo::enter(); return of(f.t & g.t); }
    friend BDD operator|(BDD const& f, BDD const& g) { Sapporo::enter(); return of(f.t | g.t); }
    friend BDD operator^(BDD const& f, BDD const& g) { Sapporo::enter(); return of(f.t ^ g.t); }
    friend int operator==(BDD const& f, BDD const& g) { return f.t == g.t; }
    friend int operator!=(BDD const& f, BDD const& g) { return f.t != g.t; }
};
static inline BDD BDDvar(int v) { Sapporo::enter(); return BDD::of(Sapporo::row(Sapporo::levOfVar(v))); }

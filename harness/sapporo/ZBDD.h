// A model of the ZBDD part of the SAPPORO package: bit k of the table says whether the set k belongs to the family.
#pragma once
#include "BDD.h"
class ZBDD {
public:
    u64 t;
    ZBDD() : t(0) {}
    ZBDD(int v) : t(v ? 1 : 0) { CHECK(v == 0 || v == 1, "a constant that is not 0 or 1 is created"); }
    ZBDD(ZBDD const& f) : t(f.t) {}
    ZBDD& operator=(ZBDD const& f) { t = f.t; return *this; }
    static ZBDD of(u64 t) { ZBDD f; f.t = t; return f; }
    int Top() { Sapporo::enter(); for (int l = Sapporo::used(); l >= 1; --l) if (t & Sapporo::row(l)) return Sapporo::varOfLev()[l]; return 0; }
    int Top() const { return ZBDD(*this).Top(); }
    ZBDD OffSet(int v) const { Sapporo::enter(); return of(t & ~Sapporo::row(Sapporo::levOfVar(v))); }
    ZBDD OnSet(int v) const { Sapporo::enter(); return of(t & Sapporo::row(Sapporo::levOfVar(v))); }
    ZBDD OnSet0(int v) const { Sapporo::enter(); int l = Sapporo::levOfVar(v); return of((t & Sapporo::row(l)) >> (1 << (l - 1))); }
    ZBDD Change(int v) const { Sapporo::enter(); int l = Sapporo::levOfVar(v), s = 1 << (l - 1); return of(((t & Sapporo::row(l)) >> s) | ((t & ~Sapporo::row(l)) << s)); }
    ZBDD& operator+=(ZBDD const& g) { Sapporo::enter(); t |= g.t; return *this; }
    friend ZBDD operator+(ZBDD const& f, ZBDD const& g) { Sapporo::enter(); return of(f.t | g.t); }
    friend ZBDD operator&(ZBDD const& f, ZBDD const& g) { Sapporo::enter(); return of(f.t & g.t); }
    friend ZBDD operator-(ZBDD const& f, ZBDD const& g) { Sapporo::enter(); return of(f.t & ~g.t); }
    u64 GetID() { return t; }
    friend int operator==(ZBDD const& f, ZBDD const& g) { return f.t == g.t; }
    friend int operator!=(ZBDD const& f, ZBDD const& g) { return f.t != g.t; }
};

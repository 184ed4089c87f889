// C12: size and linear constraints accept exactly the satisfying sets.
#include "common.h"
#include <tdzdd/spec/SizeConstraint.hpp>
#include <tdzdd/spec/LinearConstraints.hpp>
typedef DdStructure<2> Dd;
static u64 popcnt(Assign<2> const& a) { u64 s = 0; for (int i = 1; i <= a.n; ++i) s += a.d[i]; return s; }
static void both(Dd const& d, Assign<2> const& a, u64 want, const char* msg) { CHECK(ddFun(d, a, ZDDR) == want, msg); CHECK(ddFun(d, a, BDDR) == want, msg); }
struct BitSub : IntSubset { u64 m; int lo, up; bool contains(int x) const { return x >= 0 && x < 64 && (m >> x & 1); } int lowerBound() const { return lo; } int upperBound() const { return up; } };
struct Plain : IntSubset { u64 m; bool contains(int x) const { return x >= 0 && x < 64 && (m >> x & 1); } };
static void size(int n, int which) {
    Assign<2> a(n); int c = (int)popcnt(a); bool big = P("concrete", 0);
    if (which == 0) {
        int lo = P("szs", 0) ? 0 : big ? choose("lo", -1, n + 1) : symInt("lo", -2, n + 2), up = P("szs", 0) ? 0 : big ? choose("up", -1, n + 1) : symInt("up", -2, n + 2), st = big ? choose("st", 1, 3) : symInt("st", 1, 4);
        if (P("szs", 0)) { static const int at[] = { 3, 31, 33 }; lo = at[choose("lo2", 0, 2)]; up = at[choose("up2", 0, 2)] + choose("eps", 0, 1); }
        IntRange r(lo, up, st); Dd d(SizeConstraint(n, r));
        both(d, a, (u64)(c >= lo & c <= up) & (u64)((c - lo) % st == 0), "size constraint by range is wrong");
        int x = symInt("x", -5, n + 5); CHECK(r.contains(x) == (x >= lo && x <= up && (x - lo) % st == 0), "range membership is wrong"); CHECK(r.lowerBound() == lo && r.upperBound() == up, "range bounds are wrong");
    } else if (which == 1) {
        BitSub s; s.m = __sym("m", n + 1); s.lo = choose("lo", -1, n + 1); s.up = choose("up", -1, n + 1);
        for (int x = 0; x <= n; ++x) if (x < s.lo || x > s.up) __assume((s.m >> x & 1) == 0);
        Dd d(SizeConstraint(n, &s)); both(d, a, s.m >> c & 1, "size constraint by integer set is wrong");
    } else if (which == 2) { Plain s; s.m = __sym("m", n + 1); Dd d(SizeConstraint(n, s)); both(d, a, s.m >> c & 1, "size constraint by integer set with default bounds is wrong"); }
    else if (which == 3) { Dd d(SizeConstraint(n, (IntSubset const*)0)); both(d, a, 1, "absent size constraint rejects"); IntRange all; Dd e(SizeConstraint(n, all)); both(e, a, 1, "unlimited range rejects"); int lo = symInt("lo", -2, n + 2); IntRange at(lo); Dd f(SizeConstraint(n, at)); both(f, a, (u64)(c >= lo), "lower bound only is wrong"); }
    else { // as a combinand
        IntRange r(symInt("lo", 0, n), symInt("up", 0, n)); int lo = r.lowerBound(), up = r.upperBound(); Dd d(n); d.zddSubset(SizeConstraint(n, r)); d.zddReduce(); CHECK(ddFun(d, a, ZDDR) == (u64)(c >= lo & c <= up), "subsetting by size is wrong"); }
}
template<typename T> static void linear(int n, int nc) {
    Assign<2> a(n); u64 want = 1; LinearConstraints<T> lc(n); int mode = P("wmode", 0), seed = P("seeds", 0) ? P("seed", 1) * 977 + choose("seed", 1, P("seeds", 1)) : P("seed", 1);
    for (int k = 0; k < nc; ++k) {
        std::map<int, T> e; T sum = 0, mn = 0, mx = 0;
        for (int i = 1; i <= n; ++i) {
            int w; bool here = true; unsigned h = Tab::mix(seed * 1000 + k * 100 + i);
            if (mode == 0) { w = choose("w", -P("wmax", 2), P("wmax", 2)); here = w != 0 || P("zero", 0); }
            else if (mode == 1) { w = (int)(h % 7) - 3; here = h / 8 % 3 != 0; }
            else { w = ((int)(h % 2001) - 1000) * (mode == 2 ? 1 : 1000); here = h / 8192 % 3 != 0; }
            if (P("win", 0)) { unsigned g = Tab::mix(seed * 31 + k * 7 + 5); int lo = 1 + (int)(g % (unsigned)n), len = 1 + (int)(g / 64 % (unsigned)n); if (i < lo || i >= lo + len) here = false; } // windows that open and close at different variables
            if (P("band", 0) && !(i > k * n / nc && i <= (k + 1) * n / nc + 1)) here = false; // constraints over different variables
            if (P("hole", 0) && here) here = choose("here", 0, 1);
            if (!here) continue;
            e[i] = (T)w; sum += a.d[i] ? (T)w : (T)0; if (w > 0) mx += w; else mn += w;
        }
        T lb, ub;
        if (P("seeds", 0)) { unsigned g = Tab::mix(seed * 53 + k * 11 + 3); lb = (T)(mn + (T)(g % 5 == 0 ? -1 : (int)(g / 8 % (unsigned)(1 + (mx - mn) / 2)))); ub = (T)(lb + (T)(g / 4096 % (unsigned)(2 + (mx - mn)))); }
        else if (mode < 2) { int b = P("bmax", 3); lb = (T)choose("lb", -b, b); ub = (T)choose("ub", -b, b); }
        else { T q[5] = {mn, (T)((mn + mx) / 3), (T)((mn + mx) / 2), mx, (T)(mx - 1)}; lb = (T)(q[choose("lb", 0, 4)] - choose("eps", 0, 1)); ub = q[choose("ub", 0, 4)]; }
        lc.addConstraint(e, lb, ub); want &= (u64)(sum >= lb) & (u64)(sum <= ub);
    }
    lc.update();
    Dd d(lc); both(d, a, want, "linear constraints are wrong");
    if (P("subset", 0)) { Dd u(n); u.zddSubset(lc); u.zddReduce(); CHECK(ddFun(u, a, ZDDR) == want, "subsetting by linear constraints is wrong"); }
    if (d.empty()) __cover("infeasible"); else if (d.size() > (size_t)n) __cover("feasible");
}
extern "C" void harness_main() {
    int n = P("n", 3), which = P("which", 0);
    if (which < 10) size(n, which);
    else if (which == 10) linear<int>(n, P("nc", 1));
    else if (which == 11) linear<long long>(n, P("nc", 1));
    else linear<short>(n, P("nc", 1));
    finish();
}

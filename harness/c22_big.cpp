// C22: multi-word naturals compute exactly.
#include "common.h"
#include <tdzdd/util/BigNumber.hpp>
static const u64 MSB_ = 1ull << 63, M63 = MSB_ - 1, CANARY = 0x5a5a5a5a12345678ull;
enum { CAP = 24 };
struct Num { // storage with canaries; digits of 63 bits
    u64 a[CAP]; int len; BigNumber n;
    Num() : len(1) { for (int i = 0; i < CAP; ++i) a[i] = CANARY; a[0] = 0; n.setArray(a); }
    // an arbitrary number of exactly 'l' words (normal: no leading zero word)
    // (with 'pat': all but a window of the first and last words, split over all its values, follow a fixed pattern)
    void any(int l, const char* name, bool normal = true) {
        len = l;
        if (P("pat", 0)) {
            static const u64 B[] = {0, ~0ull, 0xAAAAAAAAAAAAAAAAull, 0x0123456789ABCDEFull}; u64 pat = B[choose("pat", 0, 3)]; int pos = choose("pos", 0, 3) * 16;
            for (int i = 0; i < l; ++i) { u64 v = pat; if (i == P("win", l - 1) % l || i == 0) v ^= (u64)choose(name, 0, (1 << P("bits", 3)) - 1) << pos; v &= M63; if (i == l - 1 && l > 1 && normal) __assume(v != 0); a[i] = v | (i < l - 1 ? MSB_ : 0); }
            return;
        }
        for (int i = 0; i < l; ++i) { u64 v = __sym(name, P("bits", 63)); if (i == l - 1 && l > 1 && normal) __assume(v != 0); a[i] = v | (i < l - 1 ? MSB_ : 0); }
    }
    u64 dig(int i) const { return i < len ? a[i] & M63 : 0; }
};
static void lens(Num const& r, int want, int ret) {
    CHECK(ret == want, "the reported length is not that of the stored number");
    CHECK(r.n.size() == want, "size() is not the stored length");
    for (int i = want; i < CAP; ++i) CHECK(r.a[i] == CANARY, "written beyond the number's storage");
}
static void opStore() {
    Num r; u64 v = __sym("v", 64); int w = (int)r.n.store(v);
    u64 big = v >> 63;
    CHECK((r.a[0] & M63) == (v & M63) && (w == 2) == (big == 1), "store(uint64_t) loses bits"); if (w == 2) CHECK((r.a[1] & M63) == 1 && !(r.a[1] & MSB_), "store(uint64_t) loses the top bit");
    lens(r, w, w);
    CHECK(r.n == v && !(r.n != v), "a stored integer differs from itself");
    u64 u = __sym("u", 64); CHECK((r.n == u) == (u == v), "comparison with an integer is wrong");
    CHECK(r.n.translate<u64>() == v, "translate<uint64_t> is wrong");
    Num s; int w2 = (int)s.n.store(r.n); lens(s, w, w2); CHECK(s.n == r.n && s.n.translate<u64>() == v, "copying a number changes it");
    BigNumber z; CHECK(z.size() == 1 && z == 0 && z.store((u64)0) == 1, "the null number is not zero");
    bool threw = false; try { z.store(v); } catch (std::exception&) { threw = true; } CHECK(threw == (v != 0), "storing into the null number");
    CHECK((z == r.n) == (v == 0) && (r.n == z) == (v == 0), "comparison with the null number is wrong");
    CHECK(z.divide(10) == 0, "dividing the null number");
}
static void opCopy(int L) {
    Num a, b, c; int la = choose("la", 1, L), lb = choose("lb", 1, L); a.any(la, "a"); b.any(lb, "b");
    bool eq = la == lb; u64 d = 0; if (eq) for (int i = 0; i < la; ++i) d |= a.a[i] ^ b.a[i];
    bool e1 = a.n == b.n, e2 = b.n == a.n; CHECK(e1 == (eq && d == 0), "== is wrong"); CHECK(e2 == e1 && (a.n != b.n) == !e1, "== is not symmetric or != is not its negation");
    int w = (int)c.n.store(a.n); lens(c, la, w); for (int i = 0; i < la; ++i) CHECK(c.a[i] == a.a[i], "copying a number changes it");
    BigNumber e(b.a); w = (int)c.n.store(e); for (int i = 0; i < lb; ++i) CHECK(c.a[i] == b.a[i], "overwriting a number leaves old digits"); CHECK(w == lb && c.n.size() == lb, "overwriting a number keeps the old length");
    u64 t = 0; for (int i = la - 1; i >= 0; --i) t = (t << 63) + a.dig(i); CHECK(a.n.translate<u64>() == t, "translate<uint64_t> is wrong modulo 2^64");
}
static void opAdd(int L) {
    Num a, b; int la = choose("la", 1, L), lb = choose("lb", 1, L); bool norm = choose("norm", 0, 1); a.any(la, "a", norm); b.any(lb, "b", norm);
    int l = la > lb ? la : lb; u64 c = 0, r[CAP];
    for (int i = 0; i < l; ++i) { u64 s = a.dig(i) + b.dig(i) + c; r[i] = s & M63; c = s >> 63; }
    int w = (int)a.n.add(b.n); a.len = w;
    bool grew = c != 0; if (grew) r[l++] = c;
    lens(a, l, w); for (int i = 0; i < l; ++i) CHECK(a.dig(i) == r[i], "the sum is wrong");
    for (int i = 0; i < l; ++i) CHECK((a.a[i] >> 63) == (u64)(i < l - 1), "the sum is not properly terminated");
    for (int i = 0; i < lb; ++i) CHECK((b.a[i] >> 63) == (u64)(i < lb - 1), "the addend was modified");
    if (grew) __cover("carry into a new word");
}
static void opAddSelf(int L) { // doubling, as used for multiplication
    Num a, t; int la = choose("la", 1, L); a.any(la, "a"); u64 s[CAP], c = 0; for (int i = 0; i < la; ++i) { u64 x = a.dig(i) * 2 + c; s[i] = x & M63; c = x >> 63; }
    t.n.store(a.n); int w = (int)a.n.add(t.n); a.len = w; int l = la; bool g = c != 0; if (g) s[l++] = c; lens(a, l, w); for (int i = 0; i < l; ++i) CHECK(a.dig(i) == s[i], "doubling is wrong");
}
static void opShift(int L, int K) {
    Num a; int la = choose("la", 1, L); a.any(la, "a"); int k = choose("k", 0, K);
    u64 src[CAP + 4]; for (int i = 0; i < CAP; ++i) src[i] = a.dig(i);
    int w = (int)a.n.shiftLeft(k); a.len = w;
    int dw = k / 63, dk = k % 63, hi = 0; u64 r[CAP];
    for (int i = 0; i < CAP; ++i) { u64 v = 0; if (i - dw >= 0) v |= src[i - dw] << dk & M63; if (dk && i - dw - 1 >= 0) v |= src[i - dw - 1] >> (63 - dk); r[i] = v; }
    for (int i = 0; i < CAP; ++i) { u64 v = i < w ? a.dig(i) : 0; CHECK(v == r[i], "the shifted number is wrong"); }
    CHECK(a.n.size() == w, "the length after a shift is wrong");
    for (int i = 0; i < w; ++i) CHECK((a.a[i] >> 63) == (u64)(i < w - 1), "the shifted number is not properly terminated");
    for (int i = la + dw + 1; i < CAP; ++i) CHECK(a.a[i] == CANARY, "a shift writes beyond the number's storage");
    (void)hi;
}
static const uint32_t DIV[] = {10, 3, 1, 2, 7, 16, 1000000000u, 2147483647u, 255, 65536};
static void opDiv(int L) {
    Num a; int la = choose("la", 1, L); a.any(la, "a"); uint32_t d = DIV[P("div", 0)];
    u64 src[CAP]; for (int i = 0; i < CAP; ++i) src[i] = a.dig(i);
    uint32_t r = a.n.divide(d); int w = a.n.size(); a.len = w;
    CHECK(r < d, "the remainder is not smaller than the divisor"); CHECK(w <= la, "the quotient is longer than the dividend");
    // quotient * d + remainder, in 32-bit and 31-bit half digits
    u64 c = r; for (int i = 0; i < la; ++i) { u64 q = a.dig(i), lo = (q & 0xffffffffu) * d + c, h = (q >> 32) * d + (lo >> 32); CHECK((lo & 0xffffffffu) == (src[i] & 0xffffffffu) && (h & 0x7fffffffu) == src[i] >> 32, "quotient times divisor plus remainder is not the dividend"); c = h >> 31; }
    CHECK(c == 0, "the quotient is too large");
    for (int i = 0; i < w; ++i) CHECK((a.a[i] >> 63) == (u64)(i < w - 1), "the quotient is not properly terminated");
}
static void opPrint() { // decimal numerals
    Num a; u64 v; int base = P("base", 0);
    if (P("rng", 0) == 0) v = (u64)__sym_range("v", 0, P("max", 999)); else { static const u64 B[] = {9999999990ull, 9223372036854775800ull, 9223372036854775807ull, 18446744073709551600ull, 1000000000000000000ull, 4294967290ull}; v = B[choose("p", 0, 5)] + (u64)choose("q", 0, 9); }
    (void)base; a.n.store(v); std::string s = a.n; std::ostringstream o; o << a.n; CHECK(o.str() == s, "<< and string conversion differ");
    u64 t = 0; CHECK(!s.empty() && s.size() <= 20, "numeral has a wrong length"); CHECK(s.size() == 1 || s[0] != '0', "numeral starts with 0");
    for (size_t i = 0; i < s.size(); ++i) { CHECK(s[i] >= '0' && s[i] <= '9', "numeral holds a character that is no digit"); t = t * 10 + (u64)(s[i] - '0'); }
    CHECK(t == v, "numeral does not denote the number"); CHECK(a.n == v, "printing changes the number");
}
static void opPrintBig() { // 10^k, 2^k +- small, by repeated addition
    Num a, t; a.n.store((u64)choose("start", 1, 9)); int s0 = (int)a.n.translate<u64>(); int k = choose("k", 0, P("digits", 45));
    for (int i = 0; i < k; ++i) { t.n.store(a.n); for (int j = 1; j < 10; ++j) a.n.add(t.n); }
    int low = choose("low", 0, k ? 9 : 0); t.n.store((u64)low); a.n.add(t.n);
    std::string s = a.n; CHECK((int)s.size() == k + 1 && s[0] == '0' + s0, "numeral of s*10^k is wrong"); for (int i = 1; i < k + 1; ++i) CHECK(s[i] == (i == k ? '0' + low : '0'), "numeral of s*10^k is wrong");
}
template<int S> static void opFixed(int which) {
    uint32_t x[S], y[S]; FixedBigNumber<S> a, b; for (int i = 0; i < S; ++i) x[i] = (uint32_t)__sym("x", 32), y[i] = (uint32_t)__sym("y", 32);
    memcpy((void*)&a, x, sizeof x); memcpy((void*)&b, y, sizeof y); // little-endian 32-bit words
    if (which == 0) {
        u64 c = 0; uint32_t r[S]; for (int i = 0; i < S; ++i) { c += (u64)x[i] + y[i]; r[i] = (uint32_t)c; c >>= 32; }
        bool threw = false; FixedBigNumber<S> s; try { s = a + b; } catch (std::exception&) { threw = true; }
        CHECK(threw == (c != 0), "overflow is not reported exactly when it happens"); if (!threw) { u64 d = 0; uint32_t* p = (uint32_t*)&s; for (int i = 0; i < S; ++i) d |= p[i] ^ r[i]; CHECK(d == 0, "fixed-size sum is wrong"); CHECK(!(s != s), "a number differs from itself"); }
        u64 e = 0; for (int i = 0; i < S; ++i) e |= x[i] ^ y[i]; CHECK((a == b) == (e == 0) && (a != b) == (e != 0), "fixed-size comparison is wrong");
    } else if (which == 1) {
        uint32_t k = (uint32_t)__sym("k", 32); u64 hi = 0; for (int i = 1; i < S; ++i) hi |= x[i];
        CHECK((a == k) == (x[0] == k && hi == 0) && (a != k) == !(x[0] == k && hi == 0), "fixed-size comparison with an integer is wrong");
        FixedBigNumber<S> c(k), z; CHECK(c == k && z == 0u, "fixed-size construction is wrong"); a = k; CHECK(a == k && a == c, "fixed-size assignment of an integer is wrong");
        u64 t = S > 1 ? (u64)y[S > 1 ? 1 : 0] << 32 : 0; t += y[0]; CHECK(b.template translate<u64>() == t, "fixed-size translate is wrong");
        b += c; // may throw
    } else if (which == 2) {
        uint32_t d = DIV[P("div", 0)], r = a.divide(d); uint32_t* q = (uint32_t*)&a; CHECK(r < d, "fixed-size remainder too large");
        u64 c = r; for (int i = 0; i < S; ++i) { c += (u64)q[i] * d; CHECK((uint32_t)c == x[i], "fixed-size quotient is wrong"); c >>= 32; } CHECK(c == 0, "fixed-size quotient too large");
    } else {
        FixedBigNumber<S> c((uint32_t)0); static const uint32_t B[] = {4294967286u, 1000, 99, 0}; u64 v = B[choose("p", 0, 3)]; v += choose("q", 0, 9); c = (uint32_t)v; u64 w = v; FixedBigNumber<S> d(c); if (S > 1) { for (int i = 0; i < 20; ++i) { d += d; w *= 2; } }
        std::ostringstream e; e << w; std::string s = d; CHECK(s == e.str(), "fixed-size numeral is wrong"); std::ostringstream o; o << d; CHECK(o.str() == s, "<< and conversion differ");
    }
}
extern "C" void harness_main() {
    int op = P("op", 0), L = P("L", 3);
    if (op == 0) opStore(); else if (op == 1) opCopy(L); else if (op == 2) opAdd(L); else if (op == 3) opAddSelf(L); else if (op == 4) opShift(L, P("K", 140)); else if (op == 5) opDiv(L);
    else if (op == 6) opPrint(); else if (op == 7) opPrintBig();
    else { int f = P("f", -1) < 0 ? choose("f", 0, 1) : P("f", 0); try { if (P("S", 3) == 1) opFixed<1>(f); else if (P("S", 3) == 2) opFixed<2>(f); else opFixed<3>(f); } catch (std::exception&) { __cover("overflow"); } }
    finish();
}

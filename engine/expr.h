// Hash-consed bit-vector expressions (width 1..64) with light simplification and
// translation to Z3.  Width-1 expressions are Booleans on the Z3 side.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <z3.h>

enum EOp : uint8_t {
    E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
    E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
    E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT
};

struct Expr {
    EOp op;
    uint8_t w;
    bool uninit;      // mentions a never-written byte
    uint8_t pad;
    uint32_t id;
    uint64_t c;       // constant value / variable index / extract low bit
    Expr* k[3];
    Z3_ast z;         // cached translation
    uint64_t memo;    // evaluation memo
    uint32_t epoch;
    uint32_t hash;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
    return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w);
}

struct VarInfo { std::string name; unsigned w; bool uninit; };

struct ExprPool {
    std::vector<Expr*> table;
    size_t count = 0;
    uint32_t nextId = 1;
    char* chunk = nullptr; size_t chunkLeft = 0;
    std::vector<VarInfo> vars;
    std::vector<Expr*> varExpr;
    std::vector<uint64_t> model;     // current satisfying assignment
    uint32_t epoch = 1;
    Z3_context ctx;

    ExprPool() : table(1 << 12) {}

    Expr* alloc() {
        if (chunkLeft < sizeof(Expr)) { chunkLeft = 1 << 18; chunk = (char*)malloc(chunkLeft); }
        Expr* e = (Expr*)chunk; chunk += sizeof(Expr); chunkLeft -= sizeof(Expr);
        return e;
    }
    static uint32_t hsh(EOp op, unsigned w, uint64_t c, Expr* a, Expr* b, Expr* d) {
        uint64_t h = op * 0x9E3779B97F4A7C15ULL + w * 0x1000193ULL;
        h = (h ^ c) * 0xff51afd7ed558ccdULL;
        h = (h ^ (a ? a->id : 0)) * 0xc4ceb9fe1a85ec53ULL;
        h = (h ^ (b ? b->id : 0)) * 0xff51afd7ed558ccdULL;
        h = (h ^ (d ? d->id : 0)) * 0xc4ceb9fe1a85ec53ULL;
        return (uint32_t)(h >> 32);
    }
    Expr* raw(EOp op, unsigned w, uint64_t c, Expr* a = 0, Expr* b = 0, Expr* d = 0) {
        uint32_t h = hsh(op, w, c, a, b, d);
        size_t m = table.size() - 1, i = h & m;
        for (; table[i]; i = (i + 1) & m) {
            Expr* e = table[i];
            if (e->hash == h && e->op == op && e->w == w && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
        }
        Expr* e = alloc();
        e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
        e->uninit = (a && a->uninit) || (b && b->uninit) || (d && d->uninit);
        e->id = nextId++; e->z = 0; e->epoch = 0; e->hash = h; e->memo = 0;
        table[i] = e;
        if (++count * 2 > table.size()) grow();
        return e;
    }
    void grow() {
        std::vector<Expr*> o(table.size() * 2); o.swap(table);
        size_t m = table.size() - 1;
        for (Expr* e : o) if (e) { size_t i = e->hash & m; while (table[i]) i = (i + 1) & m; table[i] = e; }
    }
    Expr* mkConst(uint64_t v, unsigned w) { return raw(E_CONST, w, v & maskw(w)); }
    Expr* mkVar(const std::string& name, unsigned w, bool uninit = false, uint64_t init = 0) {
        uint64_t i = vars.size();
        vars.push_back({name, w, uninit}); model.push_back(init & maskw(w));
        Expr* e = raw(E_VAR, w, i); e->uninit = uninit; varExpr.push_back(e);
        return e;
    }

    static uint64_t fold(EOp op, unsigned w, uint64_t a, uint64_t b) { // w: operand width
        uint64_t m = maskw(w);
        switch (op) {
        case E_ADD: return (a + b) & m;
        case E_SUB: return (a - b) & m;
        case E_MUL: return (a * b) & m;
        case E_UDIV: return b ? a / b : m;
        case E_UREM: return b ? a % b : a;
        case E_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
        case E_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
        case E_AND: return a & b;
        case E_OR: return a | b;
        case E_XOR: return a ^ b;
        case E_SHL: return b >= w ? 0 : (a << b) & m;
        case E_LSHR: return b >= w ? 0 : a >> b;
        case E_ASHR: return (uint64_t)(b >= w ? (sx(a, w) < 0 ? -1 : 0) : sx(a, w) >> b) & m;
        case E_EQ: return a == b;
        case E_ULT: return a < b;
        case E_ULE: return a <= b;
        case E_SLT: return sx(a, w) < sx(b, w);
        case E_SLE: return sx(a, w) <= sx(b, w);
        default: abort();
        }
    }
    static bool isCmp(EOp op) { return op >= E_EQ && op <= E_SLE; }

    Expr* mkNot(Expr* a) { // width 1
        if (a->op == E_CONST) return mkConst(!a->c, 1);
        if (a->op == E_XOR && a->w == 1 && a->k[1]->op == E_CONST && a->k[1]->c) return a->k[0];
        return raw(E_XOR, 1, 0, a, mkConst(1, 1));
    }
    // is e an ite tree with constant leaves (bounded depth)?
    static int constTree(Expr* e, int budget) {
        if (e->op == E_CONST) return 1;
        if (e->op != E_ITE || budget <= 0) return 0;
        int a = constTree(e->k[1], budget - 1); if (!a) return 0;
        int b = constTree(e->k[2], budget - 1); if (!b) return 0;
        return a + b;
    }
    Expr* mapTree(EOp op, Expr* t, Expr* c, bool left) {
        if (t->op == E_CONST) return left ? bin(op, t, c) : bin(op, c, t);
        return mkIte(t->k[0], mapTree(op, t->k[1], c, left), mapTree(op, t->k[2], c, left));
    }

    Expr* bin(EOp op, Expr* a, Expr* b) {
        unsigned w = a->w, rw = isCmp(op) ? 1 : w;
        if (a->op == E_CONST && b->op == E_CONST) return mkConst(fold(op, w, a->c, b->c), rw);
        // canonical: constant on the right for commutative
        switch (op) {
        case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR: case E_EQ:
            if (a->op == E_CONST || (b->op != E_CONST && a->id > b->id)) std::swap(a, b);
        default:;
        }
        uint64_t m = maskw(w);
        if (b->op == E_CONST) {
            uint64_t c = b->c;
            switch (op) {
            case E_ADD: if (!c) return a;
                if (a->op == E_ADD && a->k[1]->op == E_CONST) return bin(E_ADD, a->k[0], mkConst(a->k[1]->c + c, w));
                break;
            case E_SUB: return bin(E_ADD, a, mkConst(0 - c, w));
            case E_MUL: if (!c) return b; if (c == 1) return a;
                if ((c & (c - 1)) == 0) return bin(E_SHL, a, mkConst(__builtin_ctzll(c), w));
                break;
            case E_UDIV: if (c == 1) return a;
                if (c && (c & (c - 1)) == 0) return bin(E_LSHR, a, mkConst(__builtin_ctzll(c), w));
                break;
            case E_UREM: if (c == 1) return mkConst(0, w);
                if (c && (c & (c - 1)) == 0) return bin(E_AND, a, mkConst(c - 1, w));
                break;
            case E_SDIV: if (c == 1) return a; break;
            case E_AND: if (!c) return b; if (c == m) return a;
                if (a->op == E_AND && a->k[1]->op == E_CONST) return bin(E_AND, a->k[0], mkConst(a->k[1]->c & c, w));
                if (a->op == E_ZEXT && c == (c & maskw(a->k[0]->w)) && c == maskw(a->k[0]->w)) return a;
                if (a->op == E_ZEXT && (c & maskw(a->k[0]->w)) == 0) return mkConst(0, w);
                break;
            case E_OR: if (!c) return a; if (c == m) return b; break;
            case E_XOR: if (!c) return a;
                if (a->op == E_XOR && a->k[1]->op == E_CONST) return bin(E_XOR, a->k[0], mkConst(a->k[1]->c ^ c, w));
                break;
            case E_SHL: case E_LSHR: if (!c) return a; if (c >= w) return mkConst(0, w);
                if (a->op == op && a->k[1]->op == E_CONST) { uint64_t s = a->k[1]->c + c; return s >= w ? mkConst(0, w) : bin(op, a->k[0], mkConst(s, w)); }
                if (op == E_LSHR && a->op == E_ZEXT && c >= a->k[0]->w) return mkConst(0, w);
                break;
            case E_ASHR: if (!c) return a; break;
            case E_EQ:
                if (w == 1) return c ? a : mkNot(a);
                if (a->op == E_ZEXT) { if (c & ~maskw(a->k[0]->w)) return mkConst(0, 1); return bin(E_EQ, a->k[0], mkConst(c, a->k[0]->w)); }
                if (a->op == E_SEXT) { uint64_t t = c & maskw(a->k[0]->w); if (((uint64_t)sx(t, a->k[0]->w) & m) != c) return mkConst(0, 1); return bin(E_EQ, a->k[0], mkConst(t, a->k[0]->w)); }
                if (a->op == E_ADD && a->k[1]->op == E_CONST) return bin(E_EQ, a->k[0], mkConst(c - a->k[1]->c, w));
                if (a->op == E_XOR && a->k[1]->op == E_CONST) return bin(E_EQ, a->k[0], mkConst(c ^ a->k[1]->c, w));
                if (a->op == E_ITE && (a->k[1]->op == E_CONST || a->k[2]->op == E_CONST)) {
                    Expr* p = bin(E_EQ, a->k[1], b); Expr* q = bin(E_EQ, a->k[2], b); return mkIte(a->k[0], p, q);
                }
                if (a->op == E_CONCAT) { // hi, lo
                    unsigned lw = a->k[1]->w;
                    return bin(E_AND, bin(E_EQ, a->k[0], mkConst(c >> lw, a->k[0]->w)), bin(E_EQ, a->k[1], mkConst(c & maskw(lw), lw)));
                }
                break;
            case E_ULT: if (!c) return mkConst(0, 1);
                if (a->op == E_ZEXT) { unsigned kw = a->k[0]->w; if (c > maskw(kw)) return mkConst(1, 1); return bin(E_ULT, a->k[0], mkConst(c, kw)); }
                if (c == 1) return bin(E_EQ, a, mkConst(0, w));
                break;
            case E_ULE: if (c == m) return mkConst(1, 1); return bin(E_ULT, a, mkConst(c + 1, w));
            case E_SLT: if (a->op == E_ZEXT) { if (sx(c, w) <= 0) return mkConst(0, 1); return bin(E_ULT, a, b); } break;
            case E_SLE: if (a->op == E_ZEXT) { if (sx(c, w) < 0) return mkConst(0, 1); return bin(E_ULE, a, b); } break;
            default:;
            }
            if (a->op == E_ITE && op != E_EQ && constTree(a, 6)) return mapTree(op, a, b, true);
        }
        if (a->op == E_CONST) {
            uint64_t c = a->c;
            switch (op) {
            case E_SHL: case E_LSHR: case E_UDIV: case E_UREM: if (!c && op != E_UDIV) return a; break;
            case E_ULT: if (b->op == E_ZEXT) { unsigned kw = b->k[0]->w; if (c >= maskw(kw)) return mkConst(0, 1); return bin(E_ULT, mkConst(c, kw), b->k[0]); }
                if (c == m) return mkConst(0, 1);
                if (c == 0) return mkNot(bin(E_EQ, b, mkConst(0, w)));
                break;
            case E_ULE: if (!c) return mkConst(1, 1);
                return bin(E_ULT, mkConst(c - 1, w), b);
            case E_SLT: if (b->op == E_ZEXT) { if (sx(c, w) < 0) return mkConst(1, 1); return bin(E_ULT, a, b); } break;
            case E_SLE: if (b->op == E_ZEXT) { if (sx(c, w) <= 0) return mkConst(1, 1); return bin(E_ULE, a, b); } break;
            default:;
            }
            if (b->op == E_ITE && constTree(b, 6)) return mapTree(op, b, a, false);
        }
        if (a == b) switch (op) {
        case E_SUB: case E_XOR: return mkConst(0, w);
        case E_AND: case E_OR: return a;
        case E_EQ: case E_ULE: case E_SLE: return mkConst(1, 1);
        case E_ULT: case E_SLT: return mkConst(0, 1);
        default:;
        }
        if (w == 1 && (op == E_AND || op == E_OR)) {
            if (mkNot(a) == b) return mkConst(op == E_OR, 1);
        }
        if (op == E_EQ && a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return bin(E_EQ, a->k[0], b->k[0]);
        if (op == E_EQ && a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return bin(E_EQ, a->k[0], b->k[0]);
        return raw(op, rw, 0, a, b);
    }
    Expr* mkIte(Expr* c, Expr* a, Expr* b) {
        if (c->op == E_CONST) return c->c ? a : b;
        if (a == b) return a;
        if (c->op == E_XOR && c->k[1]->op == E_CONST && c->k[1]->c) return mkIte(c->k[0], b, a);
        if (a->w == 1) {
            if (a->op == E_CONST) return a->c ? bin(E_OR, c, b) : bin(E_AND, mkNot(c), b);
            if (b->op == E_CONST) return b->c ? bin(E_OR, mkNot(c), a) : bin(E_AND, c, a);
        }
        if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
        if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
        if (a == b) return a;
        return raw(E_ITE, a->w, 0, c, a, b);
    }
    Expr* mkZext(Expr* a, unsigned w) {
        if (a->w == w) return a;
        if (a->op == E_CONST) return mkConst(a->c, w);
        if (a->op == E_ZEXT) return mkZext(a->k[0], w);
        if (a->op == E_ITE && a->k[1]->op == E_CONST && a->k[2]->op == E_CONST) return mkIte(a->k[0], mkConst(a->k[1]->c, w), mkConst(a->k[2]->c, w));
        return raw(E_ZEXT, w, 0, a);
    }
    Expr* mkSext(Expr* a, unsigned w) {
        if (a->w == w) return a;
        if (a->op == E_CONST) return mkConst((uint64_t)sx(a->c, a->w), w);
        if (a->op == E_ZEXT) return mkZext(a->k[0], w);
        if (a->op == E_SEXT) return mkSext(a->k[0], w);
        if (a->op == E_ITE && constTree(a, 6)) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
        return raw(E_SEXT, w, 0, a);
    }
    Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
        if (lo == 0 && a->w == w) return a;
        if (a->op == E_CONST) return mkConst(a->c >> lo, w);
        if (a->op == E_EXTRACT) return mkExtract(a->k[0], lo + (unsigned)a->c, w);
        if (a->op == E_CONCAT) {
            unsigned lw = a->k[1]->w;
            if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
            if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        }
        if (a->op == E_ZEXT) {
            unsigned kw = a->k[0]->w;
            if (lo >= kw) return mkConst(0, w);
            if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
            if (lo == 0) return mkZext(a->k[0], w);
        }
        if (a->op == E_SEXT) {
            unsigned kw = a->k[0]->w;
            if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
            if (lo == 0) return mkSext(a->k[0], w);
        }
        if (a->op == E_ITE && constTree(a, 6)) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        if (a->op == E_AND || a->op == E_OR || a->op == E_XOR) {
            if (a->k[1]->op == E_CONST) return bin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        }
        if (lo == 0 && (a->op == E_ADD) && a->k[1]->op == E_CONST) return bin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        if (a->op == E_LSHR && a->k[1]->op == E_CONST && lo + a->k[1]->c + w <= a->w) return mkExtract(a->k[0], lo + (unsigned)a->k[1]->c, w);
        if (a->op == E_SHL && a->k[1]->op == E_CONST) {
            uint64_t s = a->k[1]->c;
            if (lo >= s) return mkExtract(a->k[0], lo - (unsigned)s, w);
            if (lo + w <= s) return mkConst(0, w);
        }
        return raw(E_EXTRACT, w, lo, a);
    }
    Expr* mkConcat(Expr* hi, Expr* lo) {
        unsigned w = hi->w + lo->w;
        if (hi->op == E_CONST && lo->op == E_CONST) return mkConst(hi->c << lo->w | lo->c, w);
        if (hi->op == E_CONST && hi->c == 0) return mkZext(lo, w);
        if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
            return mkExtract(hi->k[0], (unsigned)lo->c, w);
        return raw(E_CONCAT, w, 0, hi, lo);
    }

    uint64_t eval(Expr* e) { // under `model`; bump epoch whenever model changes
        if (e->op == E_CONST) return e->c;
        if (e->epoch == epoch) return e->memo;
        uint64_t r;
        switch (e->op) {
        case E_VAR: r = model[e->c]; break;
        case E_ITE: r = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]); break;
        case E_ZEXT: r = eval(e->k[0]); break;
        case E_SEXT: r = (uint64_t)sx(eval(e->k[0]), e->k[0]->w) & maskw(e->w); break;
        case E_EXTRACT: r = (eval(e->k[0]) >> e->c) & maskw(e->w); break;
        case E_CONCAT: r = eval(e->k[0]) << e->k[1]->w | eval(e->k[1]); break;
        default: r = fold(e->op, e->k[0]->w, eval(e->k[0]), eval(e->k[1]));
        }
        e->epoch = epoch; e->memo = r;
        return r;
    }

    // ---- Z3 ----
    Z3_sort bvs[65] = {};
    Z3_sort bv(unsigned w) { if (!bvs[w]) { bvs[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, (Z3_ast)bvs[w]); } return bvs[w]; }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
    Z3_ast b2v(Expr* e) { // bit-vector view
        Z3_ast a = toZ3(e);
        if (e->w != 1) return a;
        return Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1)));
    }
    Z3_ast toZ3(Expr* e) {
        if (e->z) return e->z;
        Z3_ast r;
        Expr *a = e->k[0], *b = e->k[1];
        switch (e->op) {
        case E_CONST: r = e->w == 1 ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, e->c, bv(e->w)); break;
        case E_VAR: {
            char nm[32]; snprintf(nm, sizeof nm, "v%u", (unsigned)e->c);
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), e->w == 1 ? Z3_mk_bool_sort(ctx) : bv(e->w)); break; }
        case E_ITE: r = Z3_mk_ite(ctx, toZ3(a), toZ3(b), toZ3(e->k[2])); break;
        case E_ZEXT: r = a->w == 1 ? Z3_mk_ite(ctx, toZ3(a), Z3_mk_unsigned_int64(ctx, 1, bv(e->w)), Z3_mk_unsigned_int64(ctx, 0, bv(e->w)))
                                   : Z3_mk_zero_ext(ctx, e->w - a->w, toZ3(a)); break;
        case E_SEXT: r = a->w == 1 ? Z3_mk_ite(ctx, toZ3(a), Z3_mk_unsigned_int64(ctx, maskw(e->w), bv(e->w)), Z3_mk_unsigned_int64(ctx, 0, bv(e->w)))
                                   : Z3_mk_sign_ext(ctx, e->w - a->w, toZ3(a)); break;
        case E_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, b2v(a));
            if (e->w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, bv(1)));
            break;
        case E_CONCAT: r = Z3_mk_concat(ctx, b2v(a), b2v(b)); break;
        case E_EQ: r = Z3_mk_eq(ctx, toZ3(a), toZ3(b)); break;
        case E_AND: if (e->w == 1) { Z3_ast x[2] = {toZ3(a), toZ3(b)}; r = Z3_mk_and(ctx, 2, x); } else r = Z3_mk_bvand(ctx, toZ3(a), toZ3(b)); break;
        case E_OR: if (e->w == 1) { Z3_ast x[2] = {toZ3(a), toZ3(b)}; r = Z3_mk_or(ctx, 2, x); } else r = Z3_mk_bvor(ctx, toZ3(a), toZ3(b)); break;
        case E_XOR: if (e->w == 1) { r = (b->op == E_CONST && b->c) ? Z3_mk_not(ctx, toZ3(a)) : Z3_mk_xor(ctx, toZ3(a), toZ3(b)); } else r = Z3_mk_bvxor(ctx, toZ3(a), toZ3(b)); break;
        default: {
            Z3_ast x = b2v(a), y = b2v(b);
            bool bit = e->w == 1 && !isCmp(e->op);
            switch (e->op) {
            case E_ADD: r = Z3_mk_bvadd(ctx, x, y); break;
            case E_SUB: r = Z3_mk_bvsub(ctx, x, y); break;
            case E_MUL: r = Z3_mk_bvmul(ctx, x, y); break;
            case E_UDIV: r = Z3_mk_bvudiv(ctx, x, y); break;
            case E_SDIV: r = Z3_mk_bvsdiv(ctx, x, y); break;
            case E_UREM: r = Z3_mk_bvurem(ctx, x, y); break;
            case E_SREM: r = Z3_mk_bvsrem(ctx, x, y); break;
            case E_SHL: r = Z3_mk_bvshl(ctx, x, y); break;
            case E_LSHR: r = Z3_mk_bvlshr(ctx, x, y); break;
            case E_ASHR: r = Z3_mk_bvashr(ctx, x, y); break;
            case E_ULT: r = Z3_mk_bvult(ctx, x, y); break;
            case E_ULE: r = Z3_mk_bvule(ctx, x, y); break;
            case E_SLT: r = Z3_mk_bvslt(ctx, x, y); break;
            case E_SLE: r = Z3_mk_bvsle(ctx, x, y); break;
            default: abort();
            }
            if (bit) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, bv(1)));
        } }
        keep(r);
        return e->z = r;
    }
};

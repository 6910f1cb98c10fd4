#include "expr.h"
#include <unordered_map>
#include <algorithm>
#include <sstream>

std::vector<uint16_t> symWidths;

static const size_t CHUNK = 4096;
static std::vector<Expr *> chunks;
static size_t nexprs = 0;
static std::vector<Expr *> table;
static size_t tableUsed = 0;
static std::vector<uint32_t> emptyVars;

size_t exprCount() { return nexprs; }

static uint32_t mixh(uint32_t h, uint64_t x) {
    uint64_t z = (uint64_t)h * 0x9E3779B97F4A7C15ull + x;
    z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32;
    return (uint32_t)z;
}

static const std::vector<uint32_t> *mergeVars(const std::vector<uint32_t> *a,
                                              const std::vector<uint32_t> *b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    if (std::includes(a->begin(), a->end(), b->begin(), b->end())) return a;
    if (std::includes(b->begin(), b->end(), a->begin(), a->end())) return b;
    auto *r = new std::vector<uint32_t>;
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(*r));
    return r;
}

static void growTable() {
    size_t n = table.empty() ? 65536 : table.size() * 2;
    std::vector<Expr *> t(n, nullptr);
    for (Expr *e : table) if (e) {
        size_t i = e->hash & (n - 1);
        while (t[i]) i = (i + 1) & (n - 1);
        t[i] = e;
    }
    table.swap(t);
}

static const Expr *intern(Kind k, unsigned w, const Expr *a, const Expr *b, const Expr *c,
                          uint32_t lo, u128 val) {
    if (tableUsed * 2 >= table.size()) growTable();
    uint32_t h = mixh(k * 131 + w, lo);
    if (a) h = mixh(h, a->id + 1);
    if (b) h = mixh(h, b->id + 7);
    if (c) h = mixh(h, c->id + 13);
    h = mixh(h, (u64)val); h = mixh(h, (u64)(val >> 64));
    size_t i = h & (table.size() - 1);
    while (Expr *e = table[i]) {
        if (e->hash == h && e->kind == k && e->width == w && e->lo == lo && e->k[0] == a &&
            e->k[1] == b && e->k[2] == c && e->val == val)
            return e;
        i = (i + 1) & (table.size() - 1);
    }
    if (nexprs % CHUNK == 0) chunks.push_back((Expr *)calloc(CHUNK, sizeof(Expr)));
    Expr *e = &chunks.back()[nexprs % CHUNK];
    e->kind = k; e->width = w; e->lo = lo; e->hash = h; e->id = nexprs++;
    e->k[0] = a; e->k[1] = b; e->k[2] = c; e->val = val;
    const std::vector<uint32_t> *v = &emptyVars;
    if (k == K_SYM) v = new std::vector<uint32_t>(1, lo);
    if (a) v = mergeVars(v, a->vars);
    if (b) v = mergeVars(v, b->vars);
    if (c) v = mergeVars(v, c->vars);
    e->vars = v;
    table[i] = e; tableUsed++;
    return e;
}

const Expr *mkConst(u128 v, unsigned w) { return intern(K_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
const Expr *mkSym(uint32_t id, unsigned w) {
    if (id >= symWidths.size()) symWidths.resize(id + 1, 0);
    symWidths[id] = w;
    return intern(K_SYM, w, 0, 0, 0, id, 0);
}

u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
    u128 m = maskw(w);
    a &= m; b &= m;
    __int128 sa = (__int128)sext128(a, w), sb = (__int128)sext128(b, w);
    switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? (a / b) & m : m;
    case K_UREM: return b ? (a % b) & m : a;
    case K_SDIV: return b ? ((u128)(sa / sb)) & m : (sa < 0 ? (u128)1 : m);
    case K_SREM: return b ? ((u128)(sa % sb)) & m : a;
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LSHR: return b >= w ? 0 : (a >> (unsigned)b) & m;
    case K_ASHR: return ((u128)(b >= w ? (sa < 0 ? -1 : 0) : (sa >> (unsigned)b))) & m;
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sa < sb;
    case K_SLE: return sa <= sb;
    default: assert(0); return 0;
    }
}

static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }

const Expr *mkNot(const Expr *a) {
    assert(a->width == 1);
    if (isC(a)) return mkConst(!a->val, 1);
    if (a->kind == K_NOT) return a->k[0];
    // push through comparisons
    if (a->kind == K_ULT) return mkBin(K_ULE, a->k[1], a->k[0]);
    if (a->kind == K_ULE) return mkBin(K_ULT, a->k[1], a->k[0]);
    if (a->kind == K_SLT) return mkBin(K_SLE, a->k[1], a->k[0]);
    if (a->kind == K_SLE) return mkBin(K_SLT, a->k[1], a->k[0]);
    return intern(K_NOT, 1, a, 0, 0, 0, 0);
}

const Expr *mkBin(Kind k, const Expr *a, const Expr *b) {
    unsigned w = a->width;
    assert(a->width == b->width);
    if (isC(a) && isC(b)) return mkConst(foldBin(k, a->val, b->val, w), isCmp(k) ? 1 : w);
    // canonical: constant on the right for commutative operators
    if (isC(a) && (k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ))
        std::swap(a, b);
    switch (k) {
    case K_ADD:
        if (isC(b)) {
            if (b->val == 0) return a;
            if (w == 1) return mkNot(a);
            if (a->kind == K_ADD && isC(a->k[1]))
                return mkBin(K_ADD, a->k[0], mkConst(a->k[1]->val + b->val, w));
            if (a->kind == K_ITE && isC(a->k[1]) && isC(a->k[2]))
                return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
        } else if (a->kind == K_ADD && isC(a->k[1]))
            return mkBin(K_ADD, mkBin(K_ADD, a->k[0], b), a->k[1]);
        else if (b->kind == K_ADD && isC(b->k[1]))
            return mkBin(K_ADD, mkBin(K_ADD, a, b->k[0]), b->k[1]);
        else if (w == 1) return mkBin(K_XOR, a, b);
        break;
    case K_SUB:
        if (a == b) return mkConst(0, w);
        if (isC(b)) return mkBin(K_ADD, a, mkConst((u128)0 - b->val, w));
        if (a->kind == K_ADD && a->k[0] == b) return a->k[1];
        if (a->kind == K_ADD && a->k[1] == b) return a->k[0];
        if (a->kind == K_ADD && isC(a->k[1]))
            return mkBin(K_ADD, mkBin(K_SUB, a->k[0], b), a->k[1]);
        if (b->kind == K_ADD && isC(b->k[1]))
            return mkBin(K_ADD, mkBin(K_SUB, a, b->k[0]), mkConst((u128)0 - b->k[1]->val, w));
        break;
    case K_MUL:
        if (isC(b)) {
            if (b->val == 0) return b;
            if (b->val == 1) return a;
        }
        break;
    case K_UDIV: case K_SDIV:
        if (isC(b) && b->val == 1) return a;
        break;
    case K_AND:
        if (a == b) return a;
        if (isC(b)) {
            if (b->val == 0) return b;
            if (b->val == maskw(w)) return a;
            if (a->kind == K_ZEXT) {
                unsigned iw = a->k[0]->width;
                if ((b->val & maskw(iw)) == maskw(iw)) return a;
                return mkZExt(mkBin(K_AND, a->k[0], mkConst(b->val, iw)), w);
            }
            if (a->kind == K_AND && isC(a->k[1]))
                return mkBin(K_AND, a->k[0], mkConst(a->k[1]->val & b->val, w));
            if (a->kind == K_ITE && isC(a->k[1]) && isC(a->k[2]))
                return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
            // low mask -> zext(extract)
            u128 v = b->val;
            if ((v & (v + 1)) == 0) {
                unsigned n = 0; while (v) { n++; v >>= 1; }
                return mkZExt(mkExtract(a, 0, n), w);
            }
        }
        if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
        break;
    case K_OR:
        if (a == b) return a;
        if (isC(b)) {
            if (b->val == 0) return a;
            if (b->val == maskw(w)) return b;
        }
        if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
        break;
    case K_XOR:
        if (a == b) return mkConst(0, w);
        if (isC(b)) {
            if (b->val == 0) return a;
            if (w == 1) return mkNot(a);
        }
        break;
    case K_SHL:
        if (isC(b)) {
            if (b->val == 0) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->val;
            return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        }
        break;
    case K_LSHR:
        if (isC(b)) {
            if (b->val == 0) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->val;
            return mkZExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K_ASHR:
        if (isC(b)) {
            if (b->val == 0) return a;
            unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K_EQ:
        if (a == b) return mkConst(1, 1);
        if (isC(b)) {
            if (w == 1) return b->val ? a : mkNot(a);
            if (a->kind == K_ZEXT) {
                unsigned iw = a->k[0]->width;
                if (b->val >> iw) return mkConst(0, 1);
                return mkEq(a->k[0], mkConst(b->val, iw));
            }
            if (a->kind == K_SEXT) {
                unsigned iw = a->k[0]->width;
                if ((sext128(b->val, iw) & maskw(w)) != b->val) return mkConst(0, 1);
                return mkEq(a->k[0], mkConst(b->val, iw));
            }
            if (a->kind == K_ADD && isC(a->k[1]))
                return mkEq(a->k[0], mkConst(b->val - a->k[1]->val, w));
            if (a->kind == K_XOR && isC(a->k[1]))
                return mkEq(a->k[0], mkConst(b->val ^ a->k[1]->val, w));
            if (a->kind == K_SUB && b->val == 0) return mkEq(a->k[0], a->k[1]);
            if (a->kind == K_XOR && b->val == 0) return mkEq(a->k[0], a->k[1]);
            if (a->kind == K_ITE) {
                if (isC(a->k[1]) && isC(a->k[2])) {
                    bool t = a->k[1]->val == b->val, f = a->k[2]->val == b->val;
                    if (t && f) return mkConst(1, 1);
                    if (t) return a->k[0];
                    if (f) return mkNot(a->k[0]);
                    return mkConst(0, 1);
                }
                if (isC(a->k[1]) || isC(a->k[2]))
                    return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
            }
            if (a->kind == K_CONCAT) {
                unsigned lw = a->k[1]->width;
                return mkAnd(mkEq(a->k[0], mkConst(b->val >> lw, w - lw)),
                             mkEq(a->k[1], mkConst(b->val, lw)));
            }
            if (a->kind == K_OR && b->val == 0)
                return mkAnd(mkEq(a->k[0], b), mkEq(a->k[1], b));
        } else {
            if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->k[0]->width == b->k[0]->width)
                return mkEq(a->k[0], b->k[0]);
            if (a->kind == K_SEXT && b->kind == K_SEXT && a->k[0]->width == b->k[0]->width)
                return mkEq(a->k[0], b->k[0]);
            if (a->kind == K_ADD && b->kind == K_ADD && a->k[1] == b->k[1])
                return mkEq(a->k[0], b->k[0]);
            if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->k[0]->width == b->k[0]->width)
                return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
        }
        if (a->id > b->id && !isC(b)) std::swap(a, b);
        break;
    case K_ULT:
        if (a == b) return mkConst(0, 1);
        if (isC(b) && b->val == 0) return mkConst(0, 1);
        if (isC(b) && b->val == 1) return mkEq(a, mkConst(0, w));
        if (isC(a) && a->val == maskw(w)) return mkConst(0, 1);
        if (isC(a) && a->val == 0) return mkNot(mkEq(b, a));
        goto zcmp;
    case K_ULE:
        if (a == b) return mkConst(1, 1);
        if (isC(a) && a->val == 0) return mkConst(1, 1);
        if (isC(b) && b->val == maskw(w)) return mkConst(1, 1);
        if (isC(b) && b->val == 0) return mkEq(a, b);
    zcmp:
        if (w == 1) break;
        if (a->kind == K_ZEXT && isC(b)) {
            unsigned iw = a->k[0]->width;
            if (b->val >> iw) return mkConst(1, 1);
            return mkBin(k, a->k[0], mkConst(b->val, iw));
        }
        if (b->kind == K_ZEXT && isC(a)) {
            unsigned iw = b->k[0]->width;
            if (a->val >> iw) return mkConst(0, 1);
            return mkBin(k, mkConst(a->val, iw), b->k[0]);
        }
        if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->k[0]->width == b->k[0]->width)
            return mkBin(k, a->k[0], b->k[0]);
        goto itecmp;
    case K_SLT: case K_SLE:
        if (a == b) return mkConst(k == K_SLE, 1);
        if (w == 1) break;
        // zext values are non-negative: use unsigned compare
        {
            auto nonneg = [](const Expr *e) {
                return (e->kind == K_ZEXT && e->k[0]->width < e->width) ||
                       (isC(e) && !((e->val >> (e->width - 1)) & 1));
            };
            if (nonneg(a) && nonneg(b)) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
            if (isC(b) && ((b->val >> (w - 1)) & 1) && nonneg(a)) return mkConst(0, 1);
            if (isC(a) && ((a->val >> (w - 1)) & 1) && nonneg(b)) return mkConst(1, 1);
            if (a->kind == K_SEXT && b->kind == K_SEXT && a->k[0]->width == b->k[0]->width)
                return mkBin(k, a->k[0], b->k[0]);
            if (a->kind == K_SEXT && isC(b) &&
                (sext128(b->val, a->k[0]->width) & maskw(w)) == b->val)
                return mkBin(k, a->k[0], mkConst(b->val, a->k[0]->width));
            if (b->kind == K_SEXT && isC(a) &&
                (sext128(a->val, b->k[0]->width) & maskw(w)) == a->val)
                return mkBin(k, mkConst(a->val, b->k[0]->width), b->k[0]);
        }
    itecmp:
        if (isC(b) && a->kind == K_ITE && (isC(a->k[1]) || isC(a->k[2])))
            return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
        if (isC(a) && b->kind == K_ITE && (isC(b->k[1]) || isC(b->k[2])))
            return mkIte(b->k[0], mkBin(k, a, b->k[1]), mkBin(k, a, b->k[2]));
        break;
    default: break;
    }
    return intern(k, isCmp(k) ? 1 : w, a, b, 0, 0, 0);
}

const Expr *mkConcat(const Expr *hi, const Expr *lo) {
    unsigned w = hi->width + lo->width;
    if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->width) | lo->val, w);
    if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
    if (hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->k[0] == lo->k[0] &&
        hi->lo == lo->lo + lo->width)
        return mkExtract(hi->k[0], lo->lo, w);
    // hi is extract(x), lo is concat(extract(x), y): regroup
    if (lo->kind == K_CONCAT && hi->kind == K_EXTRACT && lo->k[0]->kind == K_EXTRACT &&
        hi->k[0] == lo->k[0]->k[0] && hi->lo == lo->k[0]->lo + lo->k[0]->width)
        return mkConcat(mkExtract(hi->k[0], lo->k[0]->lo, hi->width + lo->k[0]->width), lo->k[1]);
    if (hi->kind == K_ZEXT && hi->k[0]->kind == K_EXTRACT && lo->kind == K_EXTRACT &&
        hi->k[0]->k[0] == lo->k[0] && hi->k[0]->lo == lo->lo + lo->width)
        return mkZExt(mkConcat(hi->k[0], lo), w);
    return intern(K_CONCAT, w, hi, lo, 0, 0, 0);
}

const Expr *mkExtract(const Expr *a, unsigned lo, unsigned w) {
    assert(lo + w <= a->width);
    if (lo == 0 && w == a->width) return a;
    switch (a->kind) {
    case K_CONST: return mkConst(a->val >> lo, w);
    case K_EXTRACT: return mkExtract(a->k[0], a->lo + lo, w);
    case K_CONCAT: {
        unsigned lw = a->k[1]->width;
        if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
        if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case K_ZEXT: {
        unsigned iw = a->k[0]->width;
        if (lo >= iw) return mkConst(0, w);
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        return mkZExt(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case K_SEXT: {
        unsigned iw = a->k[0]->width;
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        if (lo == 0) return mkSExt(a->k[0], w);
        break;
    }
    case K_ITE:
        if (isC(a->k[1]) || isC(a->k[2]) )
            return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        break;
    case K_AND: case K_OR: case K_XOR:
        return mkBin(a->kind, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case K_ADD: case K_SUB: case K_MUL:
        if (lo == 0) return mkBin(a->kind, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    default: break;
    }
    return intern(K_EXTRACT, w, a, 0, 0, lo, 0);
}

const Expr *mkZExt(const Expr *a, unsigned w) {
    if (w == a->width) return a;
    assert(w > a->width);
    if (isC(a)) return mkConst(a->val, w);
    if (a->kind == K_ZEXT) return mkZExt(a->k[0], w);
    if (a->kind == K_ITE && isC(a->k[1]) && isC(a->k[2]))
        return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
    return intern(K_ZEXT, w, a, 0, 0, 0, 0);
}

const Expr *mkSExt(const Expr *a, unsigned w) {
    if (w == a->width) return a;
    assert(w > a->width);
    if (isC(a)) return mkConst(sext128(a->val, a->width), w);
    if (a->kind == K_ZEXT) return mkZExt(a->k[0], w);
    if (a->kind == K_SEXT) return mkSExt(a->k[0], w);
    if (a->kind == K_ITE && isC(a->k[1]) && isC(a->k[2]))
        return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
    return intern(K_SEXT, w, a, 0, 0, 0, 0);
}

const Expr *mkIte(const Expr *c, const Expr *a, const Expr *b) {
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (c->kind == K_NOT) return mkIte(c->k[0], b, a);
    if (a->width == 1) {
        if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
        if (isC(a)) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isC(b)) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (a->kind == K_ITE && a->k[0] == c) a = a->k[1];
    if (b->kind == K_ITE && b->k[0] == c) b = b->k[2];
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if (b->kind == K_ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
    return intern(K_ITE, a->width, c, a, b, 0, 0);
}

static uint32_t evalEpoch = 0;

static u128 ev(const Expr *e, const Model *m, uint32_t sym, unsigned sv) {
    if (e->kind == K_CONST) return e->val;
    if (e->kind == K_SYM) {
        if (m) return m->get(e->lo) & maskw(e->width);
        return e->lo == sym ? (u128)sv & maskw(e->width) : 0;
    }
    if (e->evalTag == evalEpoch) return e->evalVal;
    u128 r;
    switch (e->kind) {
    case K_NOT: r = !ev(e->k[0], m, sym, sv); break;
    case K_CONCAT: r = (ev(e->k[0], m, sym, sv) << e->k[1]->width) | ev(e->k[1], m, sym, sv); break;
    case K_EXTRACT: r = (ev(e->k[0], m, sym, sv) >> e->lo) & maskw(e->width); break;
    case K_ZEXT: r = ev(e->k[0], m, sym, sv); break;
    case K_SEXT: r = sext128(ev(e->k[0], m, sym, sv), e->k[0]->width) & maskw(e->width); break;
    case K_ITE: r = ev(e->k[0], m, sym, sv) ? ev(e->k[1], m, sym, sv) : ev(e->k[2], m, sym, sv); break;
    default: r = foldBin(e->kind, ev(e->k[0], m, sym, sv), ev(e->k[1], m, sym, sv), e->k[0]->width); break;
    }
    e->evalTag = evalEpoch; e->evalVal = r;
    return r;
}

u128 evalExpr(const Expr *e, const Model &m) { evalEpoch++; return ev(e, &m, 0, 0); }
u128 evalExprByte(const Expr *e, uint32_t sym, unsigned val) { evalEpoch++; return ev(e, nullptr, sym, val); }

static const char *kn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor",
    "shl","lshr","ashr","eq","ult","ule","slt","sle","not","concat","extract","zext","sext","ite"};
std::string exprStr(const Expr *e, int depth) {
    std::ostringstream o;
    if (e->kind == K_CONST) { o << (u64)e->val << ":" << e->width; return o.str(); }
    if (e->kind == K_SYM) { o << "s" << e->lo; return o.str(); }
    if (depth == 0) return "..";
    o << "(" << kn[e->kind];
    if (e->kind == K_EXTRACT) o << "[" << e->lo << "+" << e->width << "]";
    for (int i = 0; i < 3 && e->k[i]; i++) o << " " << exprStr(e->k[i], depth - 1);
    o << ")";
    return o.str();
}

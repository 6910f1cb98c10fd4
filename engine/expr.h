// Hash-consed bit-vector expressions for mpsym.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <cstring>
#include <cassert>
typedef unsigned __int128 u128;
typedef uint64_t u64;

enum Kind : uint8_t {
    K_CONST, K_SYM,
    K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
    K_NOT,       // width 1 only
    K_CONCAT,    // k0 high, k1 low
    K_EXTRACT,   // lo
    K_ZEXT, K_SEXT, K_ITE
};

struct Expr {
    Kind kind;
    uint16_t width;
    uint32_t lo;          // extract offset / symbol id
    uint32_t hash;
    uint32_t id;
    const Expr *k[3];
    u128 val;
    // free symbols, sorted (shared when equal to a child's)
    const std::vector<uint32_t> *vars;
    mutable uint32_t evalTag;
    mutable u128 evalVal;
    mutable uint64_t *dom;   // 256-bit set of satisfying values (width 1, one 8-bit symbol)
    mutable void *z3;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline u128 sext128(u128 v, unsigned w) {
    if (w >= 128) return v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (v ^ m) - m;
}

extern std::vector<uint16_t> symWidths;   // width of every symbol id
const Expr *mkConst(u128 v, unsigned w);
const Expr *mkSym(uint32_t id, unsigned w);
const Expr *mkBin(Kind k, const Expr *a, const Expr *b);
const Expr *mkNot(const Expr *a);
const Expr *mkConcat(const Expr *hi, const Expr *lo);
const Expr *mkExtract(const Expr *a, unsigned lo, unsigned w);
const Expr *mkZExt(const Expr *a, unsigned w);
const Expr *mkSExt(const Expr *a, unsigned w);
const Expr *mkIte(const Expr *c, const Expr *a, const Expr *b);
static inline const Expr *mkEq(const Expr *a, const Expr *b) { return mkBin(K_EQ, a, b); }
static inline const Expr *mkTrue() { return mkConst(1, 1); }
static inline const Expr *mkFalse() { return mkConst(0, 1); }
static inline const Expr *mkAnd(const Expr *a, const Expr *b) { return mkBin(K_AND, a, b); }
static inline const Expr *mkOr(const Expr *a, const Expr *b) { return mkBin(K_OR, a, b); }
static inline bool isC(const Expr *e) { return e->kind == K_CONST; }
u128 foldBin(Kind k, u128 a, u128 b, unsigned w);
// evaluation under a model (symbol id -> value)
struct Model {
    std::vector<u128> v;
    u128 get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
    void set(uint32_t id, u128 x) { if (id >= v.size()) v.resize(id + 1, 0); v[id] = x; }
};
u128 evalExpr(const Expr *e, const Model &m);
u128 evalExprByte(const Expr *e, uint32_t sym, unsigned val); // single-symbol expression
std::string exprStr(const Expr *e, int depth = 6);
size_t exprCount();

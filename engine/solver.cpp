#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <array>
#include <unordered_set>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>

SharedStats *g_stats;
static Z3_context ctx;
static Z3_solver zs;
static u64 curRlimit;
static std::vector<const Expr *> *zcached;

static void z3err(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "mpsym: z3 error: %s\n", Z3_get_error_msg(c, e));
    _exit(2);
}

static void init(u64 rl) {
    if (ctx) return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, z3err);
    zs = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, zs);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)rl);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1);
    Z3_solver_set_params(ctx, zs, p);
    Z3_params_dec_ref(ctx, p);
    curRlimit = rl;
}

static Z3_ast mk(const Expr *e);
static Z3_ast mkc(u128 v, unsigned w) {
    char buf[64]; int n = 63; buf[63] = 0;
    do { buf[--n] = '0' + (int)(v % 10); v /= 10; } while (v);
    return Z3_mk_numeral(ctx, buf + n, Z3_mk_bv_sort(ctx, w));
}
// width-1 expressions are kept as Bool where they are predicates
static Z3_ast toBool(const Expr *e);
static Z3_ast toBV(const Expr *e) { return mk(e); }

// cache keyed by (expr, form)
static std::unordered_map<const Expr *, Z3_ast> cb, cv;

static Z3_ast toBool(const Expr *e) {
    assert(e->width == 1);
    auto it = cb.find(e);
    if (it != cb.end()) return it->second;
    Z3_ast r;
    switch (e->kind) {
    case K_CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case K_EQ:
        if (e->k[0]->width == 1) r = Z3_mk_iff(ctx, toBool(e->k[0]), toBool(e->k[1]));
        else r = Z3_mk_eq(ctx, toBV(e->k[0]), toBV(e->k[1]));
        break;
    case K_ULT: r = Z3_mk_bvult(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case K_ULE: r = Z3_mk_bvule(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case K_SLT: r = Z3_mk_bvslt(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case K_SLE: r = Z3_mk_bvsle(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case K_NOT: r = Z3_mk_not(ctx, toBool(e->k[0])); break;
    case K_AND: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
    case K_OR: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
    case K_XOR: r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1])); break;
    case K_ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    default: r = Z3_mk_eq(ctx, toBV(e), mkc(1, 1));
    }
    Z3_inc_ref(ctx, r);
    cb[e] = r;
    return r;
}

static Z3_ast mk(const Expr *e) {
    auto it = cv.find(e);
    if (it != cv.end()) return it->second;
    Z3_ast r;
    switch (e->kind) {
    case K_CONST: r = mkc(e->val, e->width); break;
    case K_SYM: {
        char nm[32]; snprintf(nm, 32, "s%u", e->lo);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, e->width));
        break;
    }
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: case K_NOT:
        r = Z3_mk_ite(ctx, toBool(e), mkc(1, 1), mkc(0, 1)); break;
    case K_ADD: r = Z3_mk_bvadd(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_SUB: r = Z3_mk_bvsub(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_MUL: r = Z3_mk_bvmul(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_UDIV: r = Z3_mk_bvudiv(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_SDIV: r = Z3_mk_bvsdiv(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_UREM: r = Z3_mk_bvurem(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_SREM: r = Z3_mk_bvsrem(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_AND: r = Z3_mk_bvand(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_OR: r = Z3_mk_bvor(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_XOR: r = Z3_mk_bvxor(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_SHL: r = Z3_mk_bvshl(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_LSHR: r = Z3_mk_bvlshr(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_ASHR: r = Z3_mk_bvashr(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_CONCAT: r = Z3_mk_concat(ctx, mk(e->k[0]), mk(e->k[1])); break;
    case K_EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->width - 1, e->lo, mk(e->k[0])); break;
    case K_ZEXT:
        if (e->k[0]->width == 1)
            r = Z3_mk_ite(ctx, toBool(e->k[0]), mkc(1, e->width), mkc(0, e->width));
        else r = Z3_mk_zero_ext(ctx, e->width - e->k[0]->width, mk(e->k[0]));
        break;
    case K_SEXT: r = Z3_mk_sign_ext(ctx, e->width - e->k[0]->width, mk(e->k[0])); break;
    case K_ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), mk(e->k[1]), mk(e->k[2])); break;
    default: abort();
    }
    Z3_inc_ref(ctx, r);
    cv[e] = r;
    return r;
}

std::string solverName() {
    unsigned a, b, c, d; Z3_get_version(&a, &b, &c, &d);
    char s[64]; snprintf(s, 64, "z3 %u.%u.%u", a, b, c); return s;
}

struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const {
    size_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
struct CacheEnt { SatRes r; std::map<uint32_t, u128> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> qcache;

static void collectSyms(const Expr *e, std::map<uint32_t, const Expr *> &out, std::set<const Expr *> &seen) {
    if (e->vars->empty() || !seen.insert(e).second) return;
    if (e->kind == K_SYM) { out[e->lo] = e; return; }
    for (int i = 0; i < 3 && e->k[i]; i++) collectSyms(e->k[i], out, seen);
}

SatRes Solver::z3check(const std::vector<const Expr *> &cs, std::map<uint32_t, u128> &m) {
    std::vector<uint32_t> key;
    for (auto c : cs) key.push_back(c->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = qcache.find(key);
    if (it != qcache.end()) {
        __sync_fetch_and_add(&g_stats->cacheHits, 1);
        m = it->second.m; return it->second.r;
    }
    init(rlimit);
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_reset(ctx, zs);
    for (auto c : cs) Z3_solver_assert(ctx, zs, toBool(c));
    Z3_lbool r = Z3_solver_check(ctx, zs);
    SatRes res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
    if (res == R_SAT) {
        Z3_model zm = Z3_solver_get_model(ctx, zs);
        Z3_model_inc_ref(ctx, zm);
        std::map<uint32_t, const Expr *> syms; std::set<const Expr *> seen;
        for (auto c : cs) collectSyms(c, syms, seen);
        for (auto &s : syms) {
            Z3_ast out;
            if (Z3_model_eval(ctx, zm, mk(s.second), true, &out)) {
                const char *str = Z3_get_numeral_string(ctx, out);
                u128 v = 0; for (const char *p = str; *p; p++) v = v * 10 + (*p - '0');
                m[s.first] = v;
            }
        }
        Z3_model_dec_ref(ctx, zm);
    }
    auto us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
    __sync_fetch_and_add(&g_stats->z3queries, 1);
    __sync_fetch_and_add(&g_stats->z3micros, (u64)us);
    __sync_fetch_and_add(res == R_SAT ? &g_stats->z3sat : res == R_UNSAT ? &g_stats->z3unsat : &g_stats->z3unknown, 1);
    if (qcache.size() > 400000) qcache.clear();
    if (res != R_UNKNOWN) qcache[key] = {res, m};
    return res;
}

void Solver::restore(const Mark &mk) {
    pc.resize(mk.pc);
    while (domTrail.size() > mk.dom) {
        doms[domTrail.back().sym] = domTrail.back().old; domTrail.pop_back();
    }
    while (known.size() > mk.known) {
        auto it = knownSet.find(known.back());
        if (it != knownSet.end() && --it->second <= 0) knownSet.erase(it);
        known.pop_back();
    }
}

void Solver::ensureSym(uint32_t id) {
    while (doms.size() <= id) doms.push_back(Dom{{~0ull, ~0ull, ~0ull, ~0ull}});
}

bool Solver::isUnaryByte(const Expr *e, uint32_t &s) const {
    if (e->vars->size() != 1) return false;
    s = (*e->vars)[0];
    return symWidths[s] <= 8;
}

const u64 *Solver::satset(const Expr *e) {
    if (e->dom) return e->dom;
    u64 *d = (u64 *)calloc(4, 8);
    uint32_t s = (*e->vars)[0];
    unsigned n = 1u << symWidths[s];
    for (unsigned i = 0; i < n; i++)
        if (evalExprByte(e, s, i)) d[i >> 6] |= 1ull << (i & 63);
    e->dom = d;
    return d;
}

bool Solver::hasMulti(uint32_t s) const {
    for (auto c : pc)
        if (std::binary_search(c->vars->begin(), c->vars->end(), s)) return true;
    return false;
}

void Solver::addKnown(const Expr *c) { known.push_back(c); knownSet[c]++; }

void Solver::add(const Expr *c) {
    if (isC(c)) { assert(c->val); return; }
    if (c->kind == K_AND) { add(c->k[0]); add(c->k[1]); return; }
    if (c->kind == K_NOT && c->k[0]->kind == K_OR) { add(mkNot(c->k[0]->k[0])); add(mkNot(c->k[0]->k[1])); return; }
    uint32_t s;
    if (isUnaryByte(c, s)) {
        ensureSym(s);
        const u64 *d = satset(c);
        domTrail.push_back({s, doms[s]});
        for (int i = 0; i < 4; i++) doms[s].b[i] &= d[i];
        return;
    }
    pc.push_back(c);
    addKnown(c);
}

// canonical expression of a byte domain
static const Expr *domExpr(uint32_t s, const Dom &d) {
    unsigned w = symWidths[s], n = 1u << w;
    const Expr *x = mkSym(s, w), *r = nullptr;
    for (unsigned i = 0; i < n;) {
        if (!d.has(i)) { i++; continue; }
        unsigned j = i; while (j + 1 < n && d.has(j + 1)) j++;
        const Expr *t;
        if (i == j) t = mkEq(x, mkConst(i, w));
        else t = mkAnd(mkBin(K_ULE, mkConst(i, w), x), mkBin(K_ULE, x, mkConst(j, w)));
        r = r ? mkOr(r, t) : t;
        i = j + 1;
    }
    return r ? r : mkFalse();
}

// each distinct (constraint, byte domain) verdict is confirmed by Z3
struct PairHash { size_t operator()(const std::pair<const Expr *, std::array<u64, 4>> &p) const {
    size_t h = (size_t)p.first; for (auto x : p.second) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); } return h; } };
static std::unordered_set<std::pair<const Expr *, std::array<u64, 4>>, PairHash> confirmed;
void Solver::confirm(const Expr *c, uint32_t s, bool sat) {
    std::pair<const Expr *, std::array<u64, 4>> k(c, {doms[s].b[0], doms[s].b[1], doms[s].b[2], doms[s].b[3]});
    if (!confirmed.insert(k).second) return;
    if (confirmed.size() > 2000000) confirmed.clear();
    std::map<uint32_t, u128> m;
    SatRes r = z3check({c, domExpr(s, doms[s])}, m);
    __sync_fetch_and_add(&g_stats->domConfirmed, 1);
    if (r != (sat ? R_SAT : R_UNSAT)) { fprintf(stderr, "mpsym: byte domain and Z3 disagree\n"); _exit(2); }
}

SatRes Solver::query(const Expr *c, Model *out, bool forceZ3) {
    if (isC(c) && !forceZ3) { if (c->val && out) *out = model; return c->val ? R_SAT : R_UNSAT; }
    uint32_t s;
    if (!forceZ3 && isUnaryByte(c, s)) {
        ensureSym(s);
        const u64 *d = satset(c);
        Dom x = doms[s];
        for (int i = 0; i < 4; i++) x.b[i] &= d[i];
        if (x.empty()) { __sync_fetch_and_add(&g_stats->domQueries, 1); confirm(c, s, false); return R_UNSAT; }
        if (!hasMulti(s)) {
            __sync_fetch_and_add(&g_stats->domQueries, 1); confirm(c, s, true);
            if (out) { *out = model; if (!x.has((unsigned)model.get(s))) out->set(s, x.first()); }
            return R_SAT;
        }
    }
    // slice
    std::vector<uint32_t> vs(*c->vars);
    std::vector<const Expr *> cs; cs.push_back(c);
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    std::set<uint32_t> vset(vs.begin(), vs.end());
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
            bool hit = false;
            for (auto v : *pc[i]->vars) if (vset.count(v)) { hit = true; break; }
            if (hit) {
                used[i] = 1; ch = true; cs.push_back(pc[i]);
                for (auto v : *pc[i]->vars) vset.insert(v);
            }
        }
    }
    for (auto v : vset) if (v < doms.size() && symWidths[v] <= 8) {
        unsigned w = symWidths[v];
        Dom full; for (int i = 0; i < 4; i++) full.b[i] = w == 8 ? ~0ull : (i == 0 && w < 6 ? (1ull << (1u << w)) - 1 : (w == 6 ? (i == 0 ? ~0ull : 0) : (w == 7 ? (i < 2 ? ~0ull : 0) : 0)));
        bool isfull = true;
        for (int i = 0; i < 4; i++) if ((doms[v].b[i] & full.b[i]) != full.b[i]) isfull = false;
        if (!isfull) cs.push_back(domExpr(v, doms[v]));
    }
    std::map<uint32_t, u128> m;
    SatRes r = z3check(cs, m);
    if (r == R_SAT && out) {
        *out = model;
        for (auto &kv : m) out->set(kv.first, kv.second);
    }
    return r;
}

bool Solver::checkModel() const {
    for (auto c : pc) if (!evalExpr(c, model)) return false;
    for (size_t i = 0; i < doms.size(); i++)
        if (symWidths[i] && symWidths[i] <= 8 && !doms[i].has((unsigned)model.get(i))) return false;
    return true;
}

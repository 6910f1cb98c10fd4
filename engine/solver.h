// Path condition + decision procedure (byte domains, Z3 for the rest).
#pragma once
#include "expr.h"
#include <unordered_map>
#include <map>
#include <set>

struct SharedStats {
    volatile u64 z3queries, z3sat, z3unsat, z3unknown, z3micros, cacheHits, domQueries, domConfirmed, decides;
    volatile u64 assertQueries, assertConcrete, pathsDone, pathsAssume, steps, branchesForked, maxSteps;
};
extern SharedStats *g_stats;

enum SatRes { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };

struct Dom { u64 b[4];
    bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); }
    bool has(unsigned i) const { return (b[i >> 6] >> (i & 63)) & 1; }
    unsigned first() const { for (unsigned i = 0; i < 4; i++) if (b[i]) return i * 64 + __builtin_ctzll(b[i]); return 0; }
    unsigned count() const { return __builtin_popcountll(b[0]) + __builtin_popcountll(b[1]) + __builtin_popcountll(b[2]) + __builtin_popcountll(b[3]); }
};

struct Solver {
    // state (restored on backtracking)
    std::vector<const Expr *> pc;           // multi-symbol / wide constraints
    std::vector<Dom> doms;                  // per symbol id (8-bit or narrower symbols)
    struct Undo { uint32_t sym; Dom old; };
    std::vector<Undo> domTrail;
    std::vector<const Expr *> known;        // stack of facts
    std::unordered_map<const Expr *, int> knownSet;
    Model model;
    u64 rlimit = 400000000ull;

    struct Mark { size_t pc, dom, known; };
    Mark mark() const { return {pc.size(), domTrail.size(), known.size()}; }
    void restore(const Mark &m);

    void ensureSym(uint32_t id);
    const u64 *satset(const Expr *e);
    bool isUnaryByte(const Expr *e, uint32_t &s) const;
    bool hasMulti(uint32_t s) const;
    void add(const Expr *c);
    void addKnown(const Expr *c);
    // is PC && c satisfiable?  On SAT, *out (if given) receives a full model.
    SatRes query(const Expr *c, Model *out, bool forceZ3);
    SatRes z3check(const std::vector<const Expr *> &cs, std::map<uint32_t, u128> &m);
    void confirm(const Expr *c, uint32_t s, bool sat);
    bool checkModel() const;                // debugging aid
};
std::string solverName();

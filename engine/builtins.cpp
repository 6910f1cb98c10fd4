#include "exec.h"
#include <cmath>
#include <ctime>
using namespace llvm;
std::map<std::string, BuiltinFn> &builtins() { static std::map<std::string, BuiltinFn> m; return m; }
#define ARGS Engine &E, const CallX &cx, std::vector<Val> &a, Val *ret
#define B(name) builtins()[name] = [](ARGS)
static u64 C(Engine &E, const Val &v) { return E.concretize(v, 64); }

static void doMalloc(Engine &E, u64 n, Val *ret, bool zero) {
    Obj *o = E.newObj(n, O_HEAP, 0, "heap");
    if (zero) { memset(o->data, 0, n); free(o->st); o->st = nullptr; }
    ret[0] = CV(o->addr);
}
static void doFree(Engine &E, u64 p) {
    if (!p) return;
    Obj *o = E.find(p);
    if (!o || o->kind != O_HEAP || o->addr != p) E.violation("bad-free", "free of invalid pointer");
    if (!o->alive) E.violation("double-free", "object freed twice");
    E.save(o); o->alive = false; E.S.liveHeap--;
}
static void doCopy(Engine &E, Val d, Val s, u64 n) {
    if (!n) return;
    u64 da = C(E, d), sa = C(E, s);
    u64 so, dof; Obj *os = E.resolve(CV(sa), n, false, so); Obj *od = E.resolve(CV(da), n, true, dof);
    E.copyBytes(od, dof, os, so, n);
}
static void doSet(Engine &E, Val d, Val c, u64 n) {
    if (!n) return;
    u64 off; Obj *o = E.resolve(CV(C(E, d)), n, true, off);
    Val b = c.e ? E.fromExpr(mkExtract(c.e, 0, 8)) : CV(c.v & 255);
    E.save(o);
    if (!b.e) { memset(o->data + off, (int)b.v, n); if (o->st) memset(o->st + off, 1, n); }
    else for (u64 i = 0; i < n; i++) E.storeObj(o, off + i, b, 8);
}
static void doMemcmp(Engine &E, Val x, Val y, Val nv, Val *ret) {
    u64 n = C(E, nv); if (!n) { ret[0] = CV(0); return; }
    u64 xa = C(E, x), ya = C(E, y);
    u64 xo, yo; Obj *ox = E.resolve(CV(xa), n, false, xo), *oy = E.resolve(CV(ya), n, false, yo);
    const Expr *eq = mkTrue(), *r = mkConst(0, 32);
    for (int64_t i = n - 1; i >= 0; i--) {
        const Expr *p = E.byteAt(ox, xo + i), *q = E.byteAt(oy, yo + i);
        const Expr *e = mkEq(p, q);
        eq = mkAnd(e, eq);
        r = mkIte(e, r, mkIte(mkBin(K_ULT, p, q), mkConst(0xffffffff, 32), mkConst(1, 32)));
    }
    ret[0] = E.fromExpr(mkIte(eq, mkConst(0, 32), r));
}
static const Expr *lower(const Expr *b) {
    if (isC(b)) return mkConst(b->val >= 'A' && b->val <= 'Z' ? b->val + 32 : b->val, 8);
    const Expr *up = mkAnd(mkBin(K_ULE, mkConst('A', 8), b), mkBin(K_ULE, b, mkConst('Z', 8)));
    return mkIte(up, mkBin(K_ADD, b, mkConst(32, 8)), b);
}
static void doStrcmp(Engine &E, Val x, Val y, u64 n, bool nocase, Val *ret) {
    u64 xa = C(E, x), ya = C(E, y);
    std::vector<std::pair<const Expr *, const Expr *>> ps;
    const Expr *reach = mkTrue();
    for (u64 i = 0; i < n; i++) {
        Obj *ox = E.find(xa + i), *oy = E.find(ya + i);
        bool okx = ox && ox->alive && xa + i >= ox->addr && xa + i < ox->addr + ox->size;
        bool oky = oy && oy->alive && ya + i >= oy->addr && ya + i < oy->addr + oy->size;
        if (!okx || !oky) {
            if (E.decide(reach)) { u64 o; E.resolve(CV(okx ? ya + i : xa + i), 1, false, o); }
            break;
        }
        const Expr *p = E.byteAt(ox, xa + i - ox->addr), *q = E.byteAt(oy, ya + i - oy->addr);
        if (nocase) { p = lower(p); q = lower(q); }
        ps.push_back({p, q});
        reach = mkAnd(reach, mkAnd(mkEq(p, q), mkNot(mkEq(p, mkConst(0, 8)))));
        if (isC(reach) && !reach->val) break;
    }
    const Expr *eq = mkTrue(), *r = mkConst(0, 32);
    for (int64_t i = (int64_t)ps.size() - 1; i >= 0; i--) {
        const Expr *p = ps[i].first, *q = ps[i].second, *e = mkEq(p, q), *z = mkEq(p, mkConst(0, 8));
        eq = mkAnd(e, mkOr(z, eq));
        r = mkIte(e, mkIte(z, mkConst(0, 32), r), mkIte(mkBin(K_ULT, p, q), mkConst(0xffffffff, 32), mkConst(1, 32)));
    }
    ret[0] = E.fromExpr(mkIte(eq, mkConst(0, 32), r));
}
static u64 doStrlen(Engine &E, Val x, u64 max) {
    u64 a = C(E, x);
    for (u64 i = 0; i < max; i++) {
        u64 off; Obj *o = E.resolve(CV(a + i), 1, false, off);
        if (!o->st || o->st[off] == 1) { if (!o->data[off]) return i; continue; }
        if (E.decide(mkEq(E.byteAt(o, off), mkConst(0, 8)))) return i;
    }
    return max;
}
static void doChr(Engine &E, Val s, Val c, u64 n, bool strz, Val *ret) {
    u64 a = C(E, s); const Expr *ch = mkExtract(E.toExpr(c, 32), 0, 8);
    for (u64 i = 0; i < n; i++) {
        u64 off; Obj *o = E.resolve(CV(a + i), 1, false, off);
        const Expr *b = E.byteAt(o, off);
        if (E.decide(mkEq(b, ch))) { ret[0] = CV(a + i); return; }
        if (strz && E.decide(mkEq(b, mkConst(0, 8)))) break;
    }
    ret[0] = CV(0);
}
static Val minmax(Engine &E, Val x, Val y, unsigned w, Kind k, bool max) {
    const Expr *p = E.toExpr(x, w), *q = E.toExpr(y, w);
    const Expr *c = mkBin(k, p, q);
    return E.fromExpr(max ? mkIte(c, q, p) : mkIte(c, p, q));
}
static void ovf(Engine &E, Val x, Val y, unsigned w, Kind k, bool sgn, Val *ret) {
    const Expr *p = E.toExpr(x, w), *q = E.toExpr(y, w);
    ret[0] = E.fromExpr(mkBin(k, p, q));
    unsigned W = std::min(128u, w * 2);
    const Expr *P = sgn ? mkSExt(p, W) : mkZExt(p, W), *Q = sgn ? mkSExt(q, W) : mkZExt(q, W);
    const Expr *full = mkBin(k, P, Q);
    const Expr *lo = mkExtract(full, 0, w);
    const Expr *back = sgn ? mkSExt(lo, W) : mkZExt(lo, W);
    ret[1] = E.fromExpr(mkNot(mkEq(full, back)));
}
static unsigned argW(Engine &E, const CallX &cx, unsigned i) { return cx.args[i].width; }
static int findMutex(Engine &E, u64 m) { for (size_t i = 0; i < E.S.mutexes.size(); i++) if (E.S.mutexes[i].first == m) return i; E.S.mutexes.push_back({m, -1}); return E.S.mutexes.size() - 1; }

void Engine::registerBuiltins() {
    B("malloc") { doMalloc(E, C(E, a[0]), ret, false); };
    builtins()["_Znwm"] = builtins()["_Znam"] = builtins()["malloc"];
    builtins()["_ZnwmRKSt9nothrow_t"] = builtins()["_ZnamRKSt9nothrow_t"] = builtins()["malloc"];
    builtins()["_ZnwmSt11align_val_t"] = builtins()["malloc"];
    B("calloc") { u64 n = C(E, a[0]), m = C(E, a[1]); doMalloc(E, n * m, ret, true); };
    B("free") { doFree(E, C(E, a[0])); };
    for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) builtins()[n] = builtins()["free"];
    B("realloc") {
        u64 p = C(E, a[0]), n = C(E, a[1]);
        if (!p) { doMalloc(E, n, ret, false); return; }
        Obj *o = E.find(p); if (!o || o->addr != p || o->kind != O_HEAP || !o->alive) E.violation("bad-free", "realloc of invalid pointer");
        Obj *d = E.newObj(n, O_HEAP, 0, "heap"); E.copyBytes(d, 0, o, 0, std::min(n, o->size)); doFree(E, p); ret[0] = CV(d->addr);
    };
    B("memcpy") { doCopy(E, a[0], a[1], C(E, a[2])); ret[0] = a[0]; };
    for (auto n : {"memmove", "llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "__memcpy_chk", "__memmove_chk"}) builtins()[n] = builtins()["memcpy"];
    B("mempcpy") { u64 n = C(E, a[2]); doCopy(E, a[0], a[1], n); ret[0] = CV(C(E, a[0]) + n); };
    B("memset") { doSet(E, a[0], a[1], C(E, a[2])); ret[0] = a[0]; };
    builtins()["llvm.memset"] = builtins()["llvm.memset.inline"] = builtins()["__memset_chk"] = builtins()["memset"];
    B("memcmp") { doMemcmp(E, a[0], a[1], a[2], ret); };
    builtins()["bcmp"] = builtins()["memcmp"];
    B("strcmp") { doStrcmp(E, a[0], a[1], ~0ull, false, ret); };
    B("strcasecmp") { doStrcmp(E, a[0], a[1], ~0ull, true, ret); };
    B("strncmp") { doStrcmp(E, a[0], a[1], C(E, a[2]), false, ret); };
    B("strncasecmp") { doStrcmp(E, a[0], a[1], C(E, a[2]), true, ret); };
    B("strlen") { ret[0] = CV(doStrlen(E, a[0], ~0ull)); };
    B("strnlen") { ret[0] = CV(doStrlen(E, a[0], C(E, a[1]))); };
    B("strchr") { doChr(E, a[0], a[1], ~0ull, true, ret); };
    builtins()["index"] = builtins()["strchr"];
    B("memchr") { doChr(E, a[0], a[1], C(E, a[2]), false, ret); };
    B("abort") { E.violation("abort", "abort()"); };
    B("_ZSt9terminatev") { E.violation("terminate", "std::terminate()"); };
    B("__cxa_pure_virtual") { E.violation("pure-virtual", "pure virtual call"); };
    B("exit") { E.violation("exit", "exit() called"); };
    builtins()["_exit"] = builtins()["exit"];
    B("__assert_fail") { E.violation("abort", "assert: " + E.cstr(a[0].v)); };
    B("__stack_chk_fail") { E.violation("abort", "stack check"); };
    // --- harness interface
    B("mp_sym") {
        u64 p = C(E, a[0]), n = C(E, a[1]); std::string nm = E.cstr(C(E, a[2])); u64 off;
        if (!n) return;
        Obj *o = E.resolve(CV(p), n, true, off);
        if (E.concrete) { std::string v; E.nextConcrete(nm.c_str(), v); for (u64 i = 0; i < n; i++) { unsigned x = 0; if (2 * i + 1 < v.size()) sscanf(v.substr(2 * i, 2).c_str(), "%x", &x); E.storeObj(o, off + i, CV(x), 8); } return; }
        Input in; in.name = nm; in.lo = 8; in.base = INT64_MIN + 1;
        for (u64 i = 0; i < n; i++) { Val v = E.freshSym(nm.c_str(), 8, false); E.storeObj(o, off + i, v, 8); in.syms.push_back((*v.e->vars)[0]); }
        E.inputs.push_back(in); E.S.ninputs = E.inputs.size();
    };
    B("mp_range") { // inclusive
        int64_t lo = (int32_t)C(E, a[0]), hi = (int32_t)C(E, a[1]); std::string nm = E.cstr(C(E, a[2]));
        if (lo == hi) { ret[0] = CV((u64)lo & 0xffffffff); return; }
        if (hi - lo < 256) {
            Val v = E.inputVal(nm.c_str(), 8, lo);
            if (!v.e) { ret[0] = CV((v.v + lo) & 0xffffffff); return; }
            E.assume(mkBin(K_ULE, v.e, mkConst(hi - lo, 8)));
            ret[0] = E.fromExpr(mkBin(K_ADD, mkZExt(v.e, 32), mkConst((u64)lo, 32)));
        } else {
            Val v = E.inputVal(nm.c_str(), 32, INT64_MIN);
            if (E.concrete) { std::string s; return; }
            E.assume(mkAnd(mkBin(K_SLE, mkConst((u64)lo, 32), v.e), mkBin(K_SLE, v.e, mkConst((u64)hi, 32))));
            ret[0] = v;
        }
    };
    B("mp_i32") { std::string nm = E.cstr(C(E, a[0])); if (E.concrete) { std::string s; E.nextConcrete(nm.c_str(), s); ret[0] = CV(s.empty() ? 0 : (u64)atoll(s.c_str() + 1) & 0xffffffff); return; } ret[0] = E.freshSym(nm.c_str(), 32, true, INT64_MIN); };
    B("mp_i64") { std::string nm = E.cstr(C(E, a[0])); if (E.concrete) { std::string s; E.nextConcrete(nm.c_str(), s); ret[0] = CV(s.empty() ? 0 : (u64)atoll(s.c_str() + 1)); return; } ret[0] = E.freshSym(nm.c_str(), 64, true, INT64_MIN); };
    B("mp_assume") { E.assume(mkNot(mkEq(E.toExpr(a[0], 32), mkConst(0, 32)))); };
    B("mp_assert") {
        std::string lb = E.cstr(C(E, a[1]));
        if (!a[0].e) { __sync_fetch_and_add(&g_stats->assertConcrete, 1); if (!a[0].v) E.violation("assert", lb); return; }
        const Expr *bad = mkEq(a[0].e, mkConst(0, 32));
        if (isC(bad)) { __sync_fetch_and_add(&g_stats->assertConcrete, 1); if (bad->val) E.violation("assert", lb); return; }
        __sync_fetch_and_add(&g_stats->assertQueries, 1);
        Model m; SatRes r = E.sol.query(bad, &m, true);
        if (r == R_UNKNOWN) E.engineError("solver gave up on assertion " + lb);
        if (r == R_SAT) { E.recordViolation("assert", lb, m); if (sh->stop) throw PathEnd(); E.assume(mkNot(bad)); return; }
        E.sol.addKnown(mkNot(bad));
    };
    B("mp_cover") { E.cover(E.cstr(C(E, a[0]))); };
    B("mp_end") { __sync_fetch_and_add(&g_stats->pathsAssume, 1); throw PathEnd(); };
    B("mp_note") { std::string s = E.cstr(C(E, a[0])) + " " + (a[1].e ? "sym~" + std::to_string((int64_t)(u64)evalExpr(a[1].e, E.sol.model)) : std::to_string((int64_t)a[1].v)); E.notes.push_back(s); E.S.nnotes = E.notes.size(); if (E.verbose) fprintf(stderr, "note %s\n", s.c_str()); };
    B("mp_notes") { std::string s = E.cstr(C(E, a[0])) + " '" + E.cstr(C(E, a[1])) + "'"; E.notes.push_back(s); E.S.nnotes = E.notes.size(); if (E.verbose) fprintf(stderr, "note %s\n", s.c_str()); };
    B("mp_concretize") { ret[0] = CV(C(E, a[0])); };
    B("mp_is_symbolic") { ret[0] = CV(a[0].e != nullptr); };
    B("mp_in_engine") { ret[0] = CV(1); };
    B("mp_heap_live") { ret[0] = CV(E.S.liveHeap); };
    // wait until all other threads are blocked
    B("mp_wait_idle") {
        for (auto &t : E.S.th) if (&t != &E.S.th[E.S.cur] && t.status == T_RUN) E.blockAndSwitch(T_BLOCK_IDLE, 0, 0, 0, 0, false, true);
    };
    B("mp_preempt") { E.S.preemptMem = C(E, a[0]) != 0; E.S.preemptBound = (int)C(E, a[1]); };
    B("mp_yield") { E.schedPoint(); };
    // readable(p, n): is every byte of [p,p+n) inside one live object?
    B("mp_readable") { u64 p = C(E, a[0]), n = C(E, a[1]); Obj *o = E.find(p); ret[0] = CV(o && o->alive && p >= o->addr && p + n <= o->addr + o->size); };
    // --- exceptions
    B("__cxa_allocate_exception") { Obj *o = E.newObj(C(E, a[0]), O_HEAP, 0, "exception"); E.S.liveHeap--; ret[0] = CV(o->addr); };
    B("__cxa_free_exception") {};
    B("__cxa_throw") { ExnInfo x{}; x.addr = a[0].v; x.ti = a[1].v; x.dtor = a[2].v; x.adjusted = a[0].v; E.S.exns.push_back(x); E.doThrow(x.addr); };
    B("__cxa_begin_catch") {
        u64 p = a[0].v; for (auto &x : E.S.exns) if (x.addr == p) { x.handlers++; x.rethrown = false; E.S.caught.push_back(p); ret[0] = CV(x.adjusted); return; }
        E.engineError("begin_catch of unknown exception");
    };
    B("__cxa_get_exception_ptr") { u64 p = a[0].v; for (auto &x : E.S.exns) if (x.addr == p) { ret[0] = CV(x.adjusted); return; } };
    B("__cxa_end_catch") {
        if (E.S.caught.empty()) return;
        u64 p = E.S.caught.back(); E.S.caught.pop_back();
        for (size_t i = 0; i < E.S.exns.size(); i++) if (E.S.exns[i].addr == p) {
            ExnInfo &x = E.S.exns[i]; x.handlers--;
            if (x.handlers > 0 || x.rethrown) return;
            u64 d = x.dtor; E.S.exns.erase(E.S.exns.begin() + i);
            if (d) { Fn *f = E.fnAt(d);
                // run the destructor as a call whose result is ignored; the frame returns to the next op
                if (f && !f->builtin && !f->unknown) { Thread *T = E.threads[E.S.cur]; Frame &fr = T->frames.back(); const Op &op = fr.fn->ops[fr.pc]; E.pushCall(f, {CV(p)}, nullptr, &op, 0); }
            }
            return;
        }
    };
    B("__cxa_rethrow") {
        if (E.S.caught.empty()) E.violation("terminate", "rethrow without exception");
        u64 p = E.S.caught.back(); for (auto &x : E.S.exns) if (x.addr == p) x.rethrown = true;
        E.doThrow(p);
    };
    B("_ZSt21ios_base_library_initv") {};
    B("_ZSt18uncaught_exceptionv") { ret[0] = CV(0); };
    B("_ZSt19uncaught_exceptionsv") { ret[0] = CV(0); };
    B("llvm.eh.typeid.for") { ret[0] = CV(a[0].v & 0x7fffffff); };
    B("__dynamic_cast") {
        u64 p = C(E, a[0]); u64 dst = a[2].v;
        if (!p) { ret[0] = CV(0); return; }
        u64 vp = C(E, E.load(CV(p), 64)); int64_t top = (int64_t)C(E, E.load(CV(vp - 16), 64)); u64 ti = C(E, E.load(CV(vp - 8), 64));
        int64_t adj; if (E.typeDerives(ti, dst, 0, p + top, adj)) ret[0] = CV(p + top + adj); else ret[0] = CV(0);
    };
    // --- threads
    B("pthread_mutex_lock") {
        E.schedPoint();
        u64 m = C(E, a[0]); int i = findMutex(E, m);
        if (E.S.mutexes[i].second == (int)E.S.cur) E.violation("deadlock", "mutex locked twice by its owner");
        if (E.S.mutexes[i].second >= 0) E.blockAndSwitch(T_BLOCK_MUTEX, m, 0, 0, 0, false, true);
        E.S.mutexes[i].second = E.S.cur; ret[0] = CV(0);
    };
    B("pthread_mutex_trylock") {
        E.schedPoint(); u64 m = C(E, a[0]); int i = findMutex(E, m);
        if (E.S.mutexes[i].second >= 0) { ret[0] = CV(16); return; }
        E.S.mutexes[i].second = E.S.cur; ret[0] = CV(0);
    };
    B("pthread_mutex_unlock") {
        u64 m = C(E, a[0]); int i = findMutex(E, m);
        if (E.S.mutexes[i].second != (int)E.S.cur) E.violation("bad-unlock", "mutex unlocked by a thread that does not hold it");
        E.S.mutexes[i].second = -1;
        for (auto &t : E.S.th) if (t.status == T_BLOCK_MUTEX && t.waitAddr == m) t.status = T_RUN;
        ret[0] = CV(0);
    };
    for (auto n : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_condattr_init", "pthread_condattr_setclock", "pthread_condattr_destroy", "pthread_attr_init", "pthread_attr_destroy", "pthread_attr_setstacksize", "pthread_detach"}) B(n) { ret[0] = CV(0); };
    BuiltinFn cw = [](ARGS) {
        u64 c = C(E, a[0]), m = C(E, a[1]); bool timed = a.size() > 2;
        ThState &me = E.S.th[E.S.cur]; int i = findMutex(E, m);
        if (me.phase == 0) {
            if (E.S.mutexes[i].second != (int)E.S.cur) E.violation("bad-unlock", "condition wait without holding the mutex");
            // release and block; decisions first
            auto r = E.runnableExcept(E.S.cur);
            for (uint32_t t = 0; t < E.S.th.size(); t++) if (t != E.S.cur && E.S.th[t].status == T_BLOCK_MUTEX && E.S.th[t].waitAddr == m) r.push_back(t);
            std::sort(r.begin(), r.end());
            E.addIdle(r);
            if (timed) r.push_back(E.S.cur);
            if (r.empty()) E.violation("deadlock", "no runnable thread (condition wait)");
            uint32_t p = E.S.preemptBound < 0 ? r[0] : E.chooseOf(r, "sched");
            E.S.mutexes[i].second = -1;
            for (auto &t : E.S.th) if (t.status == T_BLOCK_MUTEX && t.waitAddr == m) t.status = T_RUN;
            me.status = T_BLOCK_COND; me.waitAddr = c; me.mutexAddr = m; me.phase = 1; me.timed = timed;
            if (E.S.th[p].status == T_BLOCK_COND) { E.S.th[p].phase = 3; E.S.th[p].status = T_RUN; }
            if (E.S.th[p].status == T_BLOCK_IDLE) E.S.th[p].status = T_RUN;
            E.S.cur = p; E.touch(); throw Resched();
        }
        // woken (phase 2) or timed out (phase 3): take the mutex again
        if (E.S.mutexes[i].second >= 0) { uint8_t ph = me.phase; E.blockAndSwitch(T_BLOCK_MUTEX, m, 0, 0, ph, false, true); }
        E.S.mutexes[i].second = E.S.cur; ret[0] = CV(me.phase == 3 ? 110 : 0); me.phase = 0;
    };
    builtins()["pthread_cond_wait"] = builtins()["mp_cond_timedwait"] = builtins()["pthread_cond_clockwait"] = cw;
    B("pthread_cond_signal") {
        u64 c = C(E, a[0]); std::vector<uint32_t> w; ret[0] = CV(0);
        for (uint32_t i = 0; i < E.S.th.size(); i++) if (E.S.th[i].status == T_BLOCK_COND && E.S.th[i].waitAddr == c) w.push_back(i);
        if (w.empty()) return;
        uint32_t p = E.S.preemptBound < 0 ? w[0] : E.chooseOf(w, "wake"); E.S.th[p].status = T_RUN; E.S.th[p].phase = 2;
    };
    B("pthread_cond_broadcast") { u64 c = C(E, a[0]); for (auto &t : E.S.th) if (t.status == T_BLOCK_COND && t.waitAddr == c) { t.status = T_RUN; t.phase = 2; } ret[0] = CV(0); };
    B("pthread_create") {
        uint32_t tid = E.S.th.size(); if (tid > 60) E.engineError("too many threads");
        while (E.threads.size() <= tid) E.threads.push_back(new Thread);
        E.threads[tid]->frames.clear(); E.threads[tid]->allocas.clear();
        ThState t{}; t.status = T_RUN; t.sp = 0x700000000000ull + tid * (1ull << 32); E.S.th.push_back(t);
        u64 out = C(E, a[0]), fp = C(E, a[2]); Val arg = a[3];
        if (out) E.store(CV(out), CV(tid), 64);
        uint32_t c = E.S.cur; Fn *f = E.fnAt(fp); if (!f || f->unknown || f->builtin) E.engineError("bad thread function");
        E.S.cur = tid; E.pushCall(f, {arg}, nullptr, nullptr, 0); E.S.cur = c; ret[0] = CV(0);
    };
    B("pthread_join") {
        u64 t = C(E, a[0]); ret[0] = CV(0);
        if (E.S.th[t].status != T_DONE) E.blockAndSwitch(T_BLOCK_JOIN, 0, 0, (uint32_t)t, 0, false, true);
        u64 r = a.size() > 1 ? C(E, a[1]) : 0; if (r) E.store(CV(r), CV(E.S.th[t].retval), 64);
    };
    B("pthread_self") { ret[0] = CV(E.S.cur); };
    B("pthread_equal") { ret[0] = CV(C(E, a[0]) == C(E, a[1])); };
    // --- intrinsics
    for (auto n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.value", "llvm.dbg.declare", "llvm.dbg.label", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.invariant.end", "llvm.prefetch", "llvm.va_end", "llvm.stackrestore", "llvm.donothing", "llvm.sideeffect"}) B(n) {};
    B("llvm.invariant.start") { ret[0] = CV(0); };
    B("llvm.stacksave") { ret[0] = CV(0); };
    B("llvm.expect") { ret[0] = a[0]; };
    B("llvm.ptr.annotation") { ret[0] = a[0]; };
    B("llvm.launder.invariant.group") { ret[0] = a[0]; };
    B("llvm.strip.invariant.group") { ret[0] = a[0]; };
    B("llvm.threadlocal.address") { ret[0] = a[0]; };
    B("llvm.is.constant") { ret[0] = CV(0); };
    B("llvm.objectsize") { ret[0] = CV(~0ull & mask64(cx.retWidth)); };
    B("llvm.trap") { E.violation("trap", "llvm.trap"); };
    B("llvm.ubsantrap") { E.violation("trap", "llvm.ubsantrap"); };
    B("llvm.umax") { ret[0] = minmax(E, a[0], a[1], cx.retWidth, K_ULT, true); };
    B("llvm.umin") { ret[0] = minmax(E, a[0], a[1], cx.retWidth, K_ULT, false); };
    B("llvm.smax") { ret[0] = minmax(E, a[0], a[1], cx.retWidth, K_SLT, true); };
    B("llvm.smin") { ret[0] = minmax(E, a[0], a[1], cx.retWidth, K_SLT, false); };
    B("llvm.abs") { unsigned w = cx.retWidth; const Expr *x = E.toExpr(a[0], w); ret[0] = E.fromExpr(mkIte(mkBin(K_SLT, x, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), x), x)); };
    B("llvm.ctpop") { unsigned w = cx.retWidth; const Expr *x = E.toExpr(a[0], w), *r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZExt(mkExtract(x, i, 1), w)); ret[0] = E.fromExpr(r); };
    B("llvm.ctlz") { unsigned w = cx.retWidth; const Expr *x = E.toExpr(a[0], w), *r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); ret[0] = E.fromExpr(r); };
    B("llvm.cttz") { unsigned w = cx.retWidth; const Expr *x = E.toExpr(a[0], w), *r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); ret[0] = E.fromExpr(r); };
    B("llvm.bswap") { unsigned w = cx.retWidth; const Expr *x = E.toExpr(a[0], w), *r = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); ret[0] = E.fromExpr(r); };
    auto fsh = [](ARGS, bool left) {
        unsigned w = cx.retWidth; u64 s = C(E, a[2]) % w; const Expr *c = mkConcat(E.toExpr(a[0], w), E.toExpr(a[1], w));
        if (left) ret[0] = E.fromExpr(mkExtract(c, w - s, w)); else ret[0] = E.fromExpr(mkExtract(c, s, w));
        if (left && s == 0) ret[0] = a[0];
    };
    static auto fshs = fsh;
    B("llvm.fshl") { fshs(E, cx, a, ret, true); };
    B("llvm.fshr") { fshs(E, cx, a, ret, false); };
    B("llvm.uadd.with.overflow") { ovf(E, a[0], a[1], argW(E, cx, 0), K_ADD, false, ret); };
    B("llvm.sadd.with.overflow") { ovf(E, a[0], a[1], argW(E, cx, 0), K_ADD, true, ret); };
    B("llvm.usub.with.overflow") { ovf(E, a[0], a[1], argW(E, cx, 0), K_SUB, false, ret); };
    B("llvm.ssub.with.overflow") { ovf(E, a[0], a[1], argW(E, cx, 0), K_SUB, true, ret); };
    B("llvm.umul.with.overflow") { ovf(E, a[0], a[1], argW(E, cx, 0), K_MUL, false, ret); };
    B("llvm.smul.with.overflow") { ovf(E, a[0], a[1], argW(E, cx, 0), K_MUL, true, ret); };
    B("llvm.uadd.sat") { Val r[2]; ovf(E, a[0], a[1], cx.retWidth, K_ADD, false, r); ret[0] = E.fromExpr(mkIte(E.toExpr(r[1], 1), mkConst(~(u128)0, cx.retWidth), E.toExpr(r[0], cx.retWidth))); };
    B("llvm.usub.sat") { Val r[2]; ovf(E, a[0], a[1], cx.retWidth, K_SUB, false, r); ret[0] = E.fromExpr(mkIte(E.toExpr(r[1], 1), mkConst(0, cx.retWidth), E.toExpr(r[0], cx.retWidth))); };
    B("llvm.va_start") {
        u64 p = C(E, a[0]); Frame &f = E.threads[E.S.cur]->frames.back();
        E.store(CV(p), CV(48), 32); E.store(CV(p + 4), CV(304), 32); E.store(CV(p + 8), CV(f.va), 64); E.store(CV(p + 16), CV(0), 64);
    };
    B("llvm.va_copy") { doCopy(E, a[0], a[1], 24); };
    B("llvm.load.relative") { Val p = E.fromExpr(mkBin(K_ADD, E.toExpr(a[0], 64), mkSExt(E.toExpr(a[1], argW(E, cx, 1)), 64))); Val v = E.load(p, 32); ret[0] = E.fromExpr(mkBin(K_ADD, E.toExpr(a[0], 64), mkSExt(E.toExpr(v, 32), 64))); };
    B("llvm.ptrmask") { ret[0] = E.fromExpr(mkBin(K_AND, E.toExpr(a[0], 64), E.toExpr(a[1], 64))); };
    static auto fd = [](ARGS, double (*fn)(double)) { if (cx.retWidth == 64) { double d; u64 v = C(E, a[0]); memcpy(&d, &v, 8); d = fn(d); memcpy(&v, &d, 8); ret[0] = CV(v); } else { float d; uint32_t v = C(E, a[0]); memcpy(&d, &v, 4); d = fn(d); memcpy(&v, &d, 4); ret[0] = CV(v); } };
    B("llvm.fabs") { fd(E, cx, a, ret, fabs); };
    B("llvm.floor") { fd(E, cx, a, ret, floor); };
    B("llvm.ceil") { fd(E, cx, a, ret, ceil); };
    B("floor") { fd(E, cx, a, ret, floor); };
    B("ceil") { fd(E, cx, a, ret, ceil); };
    B("llvm.trunc") { fd(E, cx, a, ret, trunc); };
    B("llvm.fmuladd") { double x, y, z; u64 p = C(E, a[0]), q = C(E, a[1]), r = C(E, a[2]); memcpy(&x, &p, 8); memcpy(&y, &q, 8); memcpy(&z, &r, 8); x = x * y + z; memcpy(&p, &x, 8); ret[0] = CV(p); };
    // format a double (concrete) into a buffer: mp_fmt_double(char *buf, size_t n, const char *fmt, double v)
    B("mp_fmt_double") { u64 b = C(E, a[0]), n = C(E, a[1]); std::string f = E.cstr(C(E, a[2])); double d; u64 v = C(E, a[3]); memcpy(&d, &v, 8); char tmp[512]; int r = snprintf(tmp, sizeof tmp, f.c_str(), d); for (int i = 0; i <= r && (u64)i < n; i++) E.store(CV(b + i), CV((uint8_t)tmp[i]), 8); ret[0] = CV(r); };
    B("mp_debug") { fprintf(stderr, "[mpsym] %s\n", E.cstr(C(E, a[0])).c_str()); };
}

#include "exec.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <chrono>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>
using namespace llvm;

Shared *sh;
static const u64 FN_BASE = 0x10000, HEAP_BASE = 0x10000000ull, STACK_BASE = 0x700000000000ull, STACK_SPAN = 1ull << 32;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- memory
void Engine::linkGran(Obj *o, bool on) {
    std::vector<Obj *> *g; u64 base;
    if (o->kind == O_STACK) { g = &threads[o->tid]->gran; base = STACK_BASE + o->tid * STACK_SPAN; }
    else { g = &gran; base = HEAP_BASE; }
    u64 a = (o->addr - base) >> 6, b = (o->addr - base + o->size) >> 6;
    if (g->size() <= b + 1) g->resize(b + b / 2 + 1024, nullptr);
    for (u64 i = a; i <= b; i++) (*g)[i] = on ? o : nullptr;
}

Obj *Engine::find(u64 addr) {
    if (addr >= STACK_BASE) {
        u64 t = (addr - STACK_BASE) / STACK_SPAN;
        if (t >= threads.size()) return nullptr;
        u64 i = (addr - STACK_BASE - t * STACK_SPAN) >> 6;
        return i < threads[t]->gran.size() ? threads[t]->gran[i] : nullptr;
    }
    if (addr < HEAP_BASE) return nullptr;
    u64 i = (addr - HEAP_BASE) >> 6;
    return i < gran.size() ? gran[i] : nullptr;
}

Obj *Engine::newObj(u64 size, ObjKind k, uint32_t tid, const char *name) {
    if (size >> 40) violation("alloc", "allocation of " + std::to_string(size) + " bytes (a negative size)");
    if (size > (64u << 20)) engineError("allocation of " + std::to_string(size) + " bytes");
    Obj *o = new Obj;
    o->size = size; o->kind = k; o->alive = true; o->ro = false; o->tid = tid; o->name = name;
    o->epoch = o->cepoch = epoch; o->isNew = true;
    o->data = (uint8_t *)malloc(size + 1); o->st = (uint8_t *)calloc(1, size + 1); o->sx = nullptr;
    u64 span = ((size + 63) & ~63ull) + 64;
    if (k == O_STACK) { o->addr = S.th[tid].sp; S.th[tid].sp += span; threads[tid]->allocas.push_back(o); }
    else { o->addr = S.heapTop; S.heapTop += span; if (k == O_HEAP) S.liveHeap++; }
    linkGran(o, true);
    o->trailIdx = (size_t)-1;
    if (!choices.empty()) {
        o->trailIdx = trail.size();
        TrailE t{}; t.t = TrailE::ALLOC; t.o = o; trail.push_back(t);
    }
    return o;
}

void Engine::freeObjData(Obj *o) { free(o->data); free(o->st); free(o->sx); o->data = nullptr; o->st = nullptr; o->sx = nullptr; }

// stack object goes out of scope
void Engine::killObj(Obj *o) {
    linkGran(o, false);
    if (choices.empty() || o->cepoch == epoch) {
        if (o->trailIdx != (size_t)-1 && o->trailIdx < trail.size() && trail[o->trailIdx].o == o && trail[o->trailIdx].t == TrailE::ALLOC) {
            if (o->trailIdx + 1 == trail.size()) trail.pop_back();
            else { trail[o->trailIdx].t = TrailE::NOP; trail[o->trailIdx].o = nullptr; }
        }
        freeObjData(o); delete o;
        return;
    }
    TrailE t{}; t.t = TrailE::KILL; t.o = o; trail.push_back(t);
}

void Engine::save(Obj *o) {
    if (o->epoch == epoch || choices.empty()) { o->epoch = epoch; return; }
    TrailE t{}; t.t = TrailE::OBJ; t.o = o; t.data = o->data; t.st = o->st; t.sx = o->sx; t.epoch = o->epoch; t.alive = o->alive;
    trail.push_back(t);
    o->data = (uint8_t *)malloc(o->size + 1); memcpy(o->data, t.data, o->size);
    if (t.st) { o->st = (uint8_t *)malloc(o->size + 1); memcpy(o->st, t.st, o->size); }
    if (t.sx) { o->sx = (const Expr **)malloc((o->size + 1) * sizeof(Expr *)); memcpy(o->sx, t.sx, o->size * sizeof(Expr *)); }
    o->epoch = epoch;
}

void Engine::undoTo(size_t n) {
    while (trail.size() > n) {
        TrailE t = trail.back(); trail.pop_back();
        switch (t.t) {
        case TrailE::NOP: break;
        case TrailE::OBJ:
            freeObjData(t.o); t.o->data = t.data; t.o->st = t.st; t.o->sx = t.sx; t.o->epoch = t.epoch; t.o->alive = t.alive;
            break;
        case TrailE::ALLOC:
            linkGran(t.o, false);
            if (t.o->kind == O_STACK) { auto &al = threads[t.o->tid]->allocas; assert(!al.empty() && al.back() == t.o); al.pop_back(); }
            freeObjData(t.o); delete t.o;
            break;
        case TrailE::KILL:
            linkGran(t.o, true); threads[t.o->tid]->allocas.push_back(t.o);
            break;
        case TrailE::FRAME: {
            Thread *T = threads[t.tid];
            if (T->frames.size() <= t.fidx) T->frames.resize(t.fidx + 1);
            T->frames[t.fidx] = *t.fr;
            if (T->regs.size() < t.fr->regBase + t.fr->fn->nregs) T->regs.resize(t.fr->regBase + t.fr->fn->nregs + 4096);
            memcpy((void *)&T->regs[t.fr->regBase], t.regs, t.fr->fn->nregs * sizeof(Val));
            delete t.fr; free(t.regs);
            break;
        }
        }
    }
}

// make the top frame of the current thread private to this epoch
void Engine::touch() {
    Thread *T = threads[S.cur];
    Frame &f = T->frames.back();
    if (f.epoch == epoch) return;
    if (!choices.empty()) {
        TrailE t{}; t.t = TrailE::FRAME; t.tid = S.cur; t.fidx = T->frames.size() - 1; t.fr = new Frame(f);
        t.regs = (Val *)malloc((f.fn->nregs + 1) * sizeof(Val));
        memcpy((void *)t.regs, &T->regs[f.regBase], f.fn->nregs * sizeof(Val));
        trail.push_back(t);
    }
    f.epoch = epoch;
}

const Expr *Engine::byteAt(Obj *o, u64 off) {
    if (!o->st || o->st[off] == 1) return mkConst(o->data[off], 8);
    if (o->st[off] == 2) return o->sx[off];
    // uninitialised: arbitrary but stable value
    Val v = freshSym("uninit", 8, false);
    save(o);
    if (v.e) {
        if (!o->sx) o->sx = (const Expr **)calloc(o->size + 1, sizeof(Expr *));
        o->st[off] = 2; o->sx[off] = v.e;
        return v.e;
    }
    o->st[off] = 1; o->data[off] = (uint8_t)v.v;
    return mkConst(o->data[off], 8);
}

Val Engine::loadObj(Obj *o, u64 off, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (w <= 64) {
        bool plain = true;
        if (o->st) for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 1) { plain = false; break; }
        if (plain) {
            u64 v = 0; memcpy(&v, o->data + off, n);
            return CV(v & mask64(w));
        }
    }
    const Expr *r = byteAt(o, off);
    for (unsigned i = 1; i < n; i++) r = mkConcat(byteAt(o, off + i), r);
    if (r->width > w) r = mkExtract(r, 0, w);
    return fromExpr(r);
}

void Engine::storeObj(Obj *o, u64 off, Val v, unsigned w) {
    save(o);
    unsigned n = (w + 7) / 8;
    if (!v.e) {
        u64 x = v.v & mask64(w);
        memcpy(o->data + off, &x, n);
        if (o->st) memset(o->st + off, 1, n);
        return;
    }
    const Expr *e = v.e;
    if (e->width < n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) {
        const Expr *b = mkExtract(e, i * 8, 8);
        if (isC(b)) { o->data[off + i] = (uint8_t)b->val; if (o->st) o->st[off + i] = 1; continue; }
        if (!o->st) { o->st = (uint8_t *)malloc(o->size + 1); memset(o->st, 1, o->size); }
        if (!o->sx) o->sx = (const Expr **)calloc(o->size + 1, sizeof(Expr *));
        o->st[off + i] = 2; o->sx[off + i] = b;
    }
}

static std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }

Obj *Engine::resolve(Val addr, u64 size, bool write, u64 &off) {
    u64 a = addr.e ? concretize(addr, 64) : addr.v;
    Obj *o = find(a);
    if (!o || !o->alive || a < o->addr || a + size > o->addr + o->size || a + size < a) {
        std::string k = a < 4096 ? "null-deref" : !o ? "bad-pointer" : !o->alive ? "use-after-free" : "out-of-bounds";
        violation(k, std::string(write ? "write" : "read") + " of " + std::to_string(size) + " bytes at " + hex(a) +
                  (o ? " near object " + hex(o->addr) + "+" + std::to_string(o->size) + (o->name ? std::string(" ") + o->name : "") : ""));
    }
    if (write && o->ro) violation("write-to-constant", o->name ? o->name : "?");
    off = a - o->addr;
    return o;
}

Val Engine::load(Val addr, unsigned w) {
    u64 off; unsigned n = (w + 7) / 8;
    if (addr.e) {
        // table lookup by one byte-sized symbol: keep symbolic
        uint32_t s;
        if (sol.isUnaryByte(addr.e, s) && w <= 64) {
            sol.ensureSym(s);
            u64 a0 = (u64)evalExpr(addr.e, sol.model);
            Obj *o = find(a0);
            if (o && o->alive) {
                // in bounds of o?
                const Expr *lo = mkConst(o->addr, 64), *hi = mkConst(o->addr + o->size - n, 64);
                bool ok = o->size >= n;
                if (ok) {
                    const Expr *in = mkAnd(mkBin(K_ULE, lo, addr.e), mkBin(K_ULE, addr.e, hi));
                    if (decide(in)) {
                        std::map<u64, std::vector<unsigned>> byVal; bool allc = true;
                        Dom d = sol.doms[s]; unsigned nn = 1u << symWidths[s];
                        for (unsigned i = 0; i < nn && allc; i++) if (d.has(i)) {
                            u64 a = (u64)evalExprByte(addr.e, s, i);
                            if (a < o->addr || a + n > o->addr + o->size) continue; // excluded by 'in' under other constraints
                            u64 oo = a - o->addr;
                            for (unsigned j = 0; j < n; j++) if (o->st && o->st[oo + j] != 1) allc = false;
                            if (!allc) break;
                            u64 v = 0; memcpy(&v, o->data + oo, n); v &= mask64(w);
                            byVal[v].push_back(i);
                        }
                        if (allc && !byVal.empty() && byVal.size() <= 64) {
                            // most frequent value last (default)
                            std::vector<std::pair<u64, std::vector<unsigned>>> g(byVal.begin(), byVal.end());
                            std::sort(g.begin(), g.end(), [](auto &x, auto &y) { return x.second.size() < y.second.size(); });
                            const Expr *x = mkSym(s, symWidths[s]);
                            const Expr *r = mkConst(g.back().first, w);
                            for (int k = (int)g.size() - 2; k >= 0; k--) {
                                const Expr *c = nullptr; auto &v = g[k].second;
                                for (size_t i = 0; i < v.size();) {
                                    size_t j = i; while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++;
                                    const Expr *t = i == j ? mkEq(x, mkConst(v[i], symWidths[s]))
                                        : mkAnd(mkBin(K_ULE, mkConst(v[i], symWidths[s]), x), mkBin(K_ULE, x, mkConst(v[j], symWidths[s])));
                                    c = c ? mkOr(c, t) : t; i = j + 1;
                                }
                                r = mkIte(c, mkConst(g[k].first, w), r);
                            }
                            return fromExpr(r);
                        }
                    }
                }
            }
        }
    }
    Obj *o = resolve(addr, n, false, off);
    return loadObj(o, off, w);
}

void Engine::store(Val addr, Val v, unsigned w) {
    u64 off; Obj *o = resolve(addr, (w + 7) / 8, true, off);
    storeObj(o, off, v, w);
}

void Engine::copyBytes(Obj *d, u64 doff, Obj *s, u64 soff, u64 n) {
    if (!n) return;
    save(d);
    if (!s->st) {
        memmove(d->data + doff, s->data + soff, n);
        if (d->st) memset(d->st + doff, 1, n);
        return;
    }
    if (!d->st) { d->st = (uint8_t *)malloc(d->size + 1); memset(d->st, 1, d->size); }
    bool sym = false;
    if (s->sx) for (u64 i = 0; i < n; i++) if (s->st[soff + i] == 2) { sym = true; break; }
    if (sym && !d->sx) d->sx = (const Expr **)calloc(d->size + 1, sizeof(Expr *));
    memmove(d->data + doff, s->data + soff, n);
    memmove(d->st + doff, s->st + soff, n);
    if (sym) memmove(d->sx + doff, s->sx + soff, n * sizeof(Expr *));
}

std::string Engine::cstr(u64 a) {
    std::string r;
    for (;;) {
        Obj *o = find(a);
        if (!o || !o->alive || a < o->addr || a >= o->addr + o->size) return r + "<bad>";
        u64 off = a - o->addr;
        if (o->st && o->st[off] != 1) { r += '?'; }
        else { if (!o->data[off]) return r; r += (char)o->data[off]; }
        a++;
        if (r.size() > 400) return r;
    }
}

// ---------------------------------------------------------------- decisions
bool Engine::decide(const Expr *c) {
    assert(c->width == 1);
    if (isC(c)) return c->val != 0;
    __sync_fetch_and_add(&g_stats->decides, 1);
    if (sol.knownSet.count(c)) return true;
    const Expr *nc = mkNot(c);
    if (sol.knownSet.count(nc)) return false;
    bool v = evalExpr(c, sol.model) != 0;
    Model om;
    double q0 = now();
    SatRes r = sol.query(v ? nc : c, &om, false);
    double q1 = now();
    if (q1 - q0 > 5 && getenv("MPSYM_SLOW")) fprintf(stderr, "slow query %.1fs at %s\n", q1 - q0, loc().c_str());
    if (q1 - tstart > budget) { sh->stop = 1; sh->incomplete = 1; throw PathEnd(); }
    if (r == R_UNKNOWN) { engineError("solver gave up (rlimit) on a branch condition"); }
    if (r == R_UNSAT) { uint32_t s; if (!sol.isUnaryByte(c, s)) sol.addKnown(v ? c : nc); return v; }
    // fork
    __sync_fetch_and_add(&g_stats->branchesForked, 1);
    Choice *ch = new Choice;
    ch->trail = trail.size(); ch->other = v ? nc : c; ch->otherModel = std::move(om);
    ch->st = S; ch->st.nsyms = opNsyms; ch->st.ninputs = opNinputs; ch->st.nnotes = opNnotes;
    ch->mark = sol.mark(); ch->done = false;
    for (auto *t : threads) ch->nframes.push_back(t->frames.size());
    choices.push_back(ch);
    epoch = ++epochCtr;
    touch();
    sol.add(v ? c : nc);
    return v;
}

void Engine::restoreChoice(Choice *ch) {
    for (size_t i = 0; i < threads.size(); i++) {
        uint32_t n = i < ch->nframes.size() ? ch->nframes[i] : 0;
        if (threads[i]->frames.size() > n) threads[i]->frames.resize(n);
    }
    undoTo(ch->trail);
    for (size_t i = 0; i < threads.size(); i++) {
        uint32_t n = i < ch->nframes.size() ? ch->nframes[i] : 0;
        threads[i]->frames.resize(n);
    }
    S = ch->st;
    sol.restore(ch->mark);
    inputs.resize(S.ninputs); notes.resize(S.nnotes);
}

bool Engine::backtrack() {
    while (!choices.empty()) {
        Choice *ch = choices.back();
        if (ch->done) { // its other side was given to another worker: state below it is restored by the next one
            choices.pop_back(); delete ch; continue;
        }
        restoreChoice(ch);
        choices.pop_back();
        epoch = ++epochCtr;
        touch();
        sol.model = std::move(ch->otherModel);
        sol.add(ch->other);
        delete ch;
        return true;
    }
    return false;
}

void Engine::trySplit() {
    if (now() - tstart > budget) { sh->stop = 1; sh->incomplete = 1; }
    if (sh->stop) throw PathEnd();
    if (sh->active >= maxWorkers) return;
    size_t k = 0;
    while (k < choices.size() && choices[k]->done) k++;
    if (k >= choices.size()) return;
    int a = __sync_add_and_fetch(&sh->active, 1);
    if (a > maxWorkers) { __sync_sub_and_fetch(&sh->active, 1); return; }
    pid_t p = fork();
    if (p < 0) { __sync_sub_and_fetch(&sh->active, 1); return; }
    if (p == 0) {
        isMaster = false;
        // undo everything above choice k
        while (choices.size() > k + 1) {
            Choice *ch = choices.back(); restoreChoice(ch); choices.pop_back(); delete ch;
        }
        throw PathEnd();
    }
    choices[k]->done = true;
}

u64 Engine::concretize(const Val &v, unsigned w) {
    if (!v.e) return v.v;
    for (;;) {
        u128 a = evalExpr(v.e, sol.model);
        if (decide(mkEq(v.e, mkConst(a, v.e->width)))) return (u64)a;
    }
}

void Engine::assume(const Expr *c) {
    if (isC(c)) { if (c->val) return; __sync_fetch_and_add(&g_stats->pathsAssume, 1); throw PathEnd(); }
    if (evalExpr(c, sol.model)) { sol.add(c); return; }
    Model om;
    SatRes r = sol.query(c, &om, false);
    if (r == R_UNKNOWN) engineError("solver gave up on an assumption");
    if (r == R_UNSAT) { __sync_fetch_and_add(&g_stats->pathsAssume, 1); throw PathEnd(); }
    sol.model = om; sol.add(c);
}

Val Engine::freshSym(const char *name, unsigned w, bool input, int64_t base) {
    uint32_t seq = S.nsyms++;
    auto key = std::make_pair(seq, (uint32_t)w);
    auto it = symIds.find(key);
    uint32_t id;
    if (it == symIds.end()) { id = symWidths.size(); symIds[key] = id; mkSym(id, w); }
    else id = it->second;
    sol.ensureSym(id);
    const Expr *e = mkSym(id, w);
    if (w <= 8) { // stale model value must respect nothing: symbol is unconstrained or constrained on re-execution
        if (!sol.doms[id].has((unsigned)sol.model.get(id))) sol.model.set(id, sol.doms[id].first());
    }
    if (input) {
        Input in; in.name = name; in.syms.push_back(id); in.lo = w; in.base = base;
        inputs.push_back(in); S.ninputs = inputs.size();
    }
    return Val{e, 0};
}

bool Engine::nextConcrete(const char *name, std::string &v) {
    size_t i = inputs.size();
    Input in; in.name = name; in.lo = 8; in.base = 0; inputs.push_back(in); S.ninputs = inputs.size();
    if (i >= concreteIn.size()) { v = ""; return false; }
    std::string nm = name; for (char &c : nm) if (c == ' ') c = '_';
    if (concreteIn[i].first != nm) engineError(std::string("replay: expected input ") + concreteIn[i].first + ", program asked for " + name);
    v = concreteIn[i].second; return true;
}
Val Engine::inputVal(const char *name, unsigned w, int64_t base) {
    if (concrete) { std::string s; nextConcrete(name, s); return CV(s.empty() ? 0 : (u64)(atoll(s.c_str() + 1) - base) & mask64(w)); }
    return freshSym(name, w, true, base);
}

// ---------------------------------------------------------------- reporting
std::string Engine::loc() {
    Thread *T = threads[S.cur];
    for (int i = (int)T->frames.size() - 1; i >= 0; i--) {
        Frame &f = T->frames[i];
        const Op &op = f.fn->ops[f.pc];
        if (op.I && op.I->getDebugLoc()) {
            auto *dl = op.I->getDebugLoc().get();
            std::string fn = dl->getFilename().str();
            if (fn.find("/usr/") == 0) continue;
            return fn + ":" + std::to_string(dl->getLine());
        }
    }
    return "?";
}

std::string Engine::stack() {
    std::string r; Thread *T = threads[S.cur];
    for (int i = (int)T->frames.size() - 1; i >= 0 && i + 40 > (int)T->frames.size(); i--) {
        Frame &f = T->frames[i];
        const Op &op = f.fn->ops[f.pc];
        r += "  #" + std::to_string(T->frames.size() - 1 - i) + " " + f.fn->name;
        if (op.I && op.I->getDebugLoc()) { auto *dl = op.I->getDebugLoc().get(); r += " " + dl->getFilename().str() + ":" + std::to_string(dl->getLine()); }
        r += "\n";
    }
    return r;
}

void Engine::writeCex(const std::string &file, const std::string &kind, const std::string &label, const Model &m) {
    std::ofstream o(file);
    o << "# kind " << kind << "\n# label " << label << "\n# loc " << loc() << "\n";
    for (auto &in : inputs) {
        if (in.syms.empty()) continue;
        for (char c : in.name) o << (c == ' ' ? '_' : c);
        o << " ";
        if (in.lo <= 8 && in.base != INT64_MIN) { // bytes or small ranges
            if (in.base == INT64_MIN + 1) for (auto s : in.syms) { char b[4]; snprintf(b, 4, "%02x", (unsigned)m.get(s)); o << b; }
            else o << "=" << (int64_t)m.get(in.syms[0]) + in.base;
        } else {
            o << "=" << (int64_t)(u64)sext128(m.get(in.syms[0]), in.lo);
        }
        o << "\n";
    }
    for (auto &n : notes) o << "# note " << n << "\n";
    std::string st = stack(); std::istringstream is(st); std::string l;
    while (std::getline(is, l)) o << "# stack " << l << "\n";
}

static void lockSh() { while (__sync_lock_test_and_set(&sh->lock, 1)) usleep(10); }
static void unlockSh() { __sync_lock_release(&sh->lock); }

void Engine::violationModel(const std::string &kind, const std::string &label, const Model &m) { recordViolation(kind, label, m); throw PathEnd(); }
void Engine::recordViolation(const std::string &kind, const std::string &label, const Model &m) {
    std::string l = loc();
    lockSh();
    bool dup = false;
    for (int i = 0; i < sh->nviol && i < 32 && !dup; i++) {
        Viol &v = sh->viols[i];
        if (kind != v.kind) continue;
        if (kind == "assert" ? label.substr(0, 159) == v.label : l.substr(0, 199) == v.loc) {
            dup = true; v.hits++;
            // further counterexamples, at growing distances, for the replay
            if (!(v.hits & (v.hits - 1)) && v.alts < MAXALT) { writeCex(outdir + "/cex" + std::to_string(i) + "_" + std::to_string(v.alts) + ".txt", kind, label, m); v.alts++; }
        }
    }
    int n = sh->nviol;
    if (!dup && n < 32) {
        sh->viols[n].hits = 1; sh->viols[n].alts = 0;
        snprintf(sh->viols[n].label, 160, "%s", label.c_str());
        snprintf(sh->viols[n].kind, 40, "%s", kind.c_str());
        snprintf(sh->viols[n].loc, 200, "%s", l.c_str());
        writeCex(outdir + "/cex" + std::to_string(n) + ".txt", kind, label, m);
        sh->nviol = n + 1;
        if (sh->nviol >= maxViol) sh->stop = 1;
    }
    unlockSh();
}
void Engine::violation(const std::string &kind, const std::string &label) { violationModel(kind, label, sol.model); }

void Engine::engineError(const std::string &msg) {
    lockSh();
    sh->abandoned = sh->abandoned + 1;
    if (!sh->engineError) {
        std::string m = msg + " at " + (threads.empty() || threads[S.cur]->frames.empty() ? std::string("?") : loc() + "\n" + stack());
        snprintf(sh->errmsg, sizeof sh->errmsg, "%s", m.c_str());
        if (!threads.empty() && !threads[S.cur]->frames.empty()) writeCex(outdir + "/error.txt", "engine-error", msg, sol.model);
        sh->engineError = 1;
    }
    unlockSh();
    throw PathEnd();
}

void Engine::cover(const std::string &label) {
    for (int pass = 0; pass < 2; pass++) {
        for (int i = 0; i < sh->ncov; i++) if (label.substr(0, 95) == sh->covName[i]) { __sync_fetch_and_add(&sh->covHits[i], 1); if (pass) unlockSh(); return; }
        if (!pass) lockSh();
    }
    if (sh->ncov < MAXCOV) { snprintf(sh->covName[sh->ncov], 96, "%s", label.c_str()); sh->covHits[sh->ncov] = 1; sh->ncov++; if (!concrete) writeCex(outdir + "/cov" + std::to_string(sh->ncov - 1) + ".txt", "cover", label, sol.model); }
    unlockSh();
}

// ---------------------------------------------------------------- constants
u64 Engine::fnAddr(Function *F) { return fnMap[F]->addr; }
Fn *Engine::fnAt(u64 a) {
    if (a < FN_BASE || (a - FN_BASE) % 16) return nullptr;
    u64 i = (a - FN_BASE) / 16;
    return i < fns.size() ? fns[i] : nullptr;
}

static unsigned widthOf(Type *t, const DataLayout *DL) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isFP128Ty()) return 128;
    if (t->isVoidTy()) return 0;
    return DL->getTypeSizeInBits(t);
}
static void leavesOf(Type *t, const DataLayout *DL, u64 off, std::vector<std::pair<uint16_t, u64>> &out) {
    if (auto *s = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) leavesOf(s->getElementType(i), DL, off + sl->getElementOffset(i), out);
    } else if (auto *a = dyn_cast<ArrayType>(t)) {
        for (u64 i = 0; i < a->getNumElements(); i++) leavesOf(a->getElementType(), DL, off + i * DL->getTypeAllocSize(a->getElementType()), out);
    } else if (auto *v = dyn_cast<FixedVectorType>(t)) {
        unsigned ew = widthOf(v->getElementType(), DL);
        for (u64 i = 0; i < v->getNumElements(); i++) out.push_back({(uint16_t)ew, off + i * (ew / 8)});
    } else if (!t->isVoidTy()) out.push_back({(uint16_t)widthOf(t, DL), off});
}
static unsigned nLeaves(Type *t, const DataLayout *DL) { std::vector<std::pair<uint16_t, u64>> v; leavesOf(t, DL, 0, v); return v.size(); }

void Engine::constLeaves(Constant *c, std::vector<Val> &out) {
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        unsigned w = ci->getBitWidth();
        if (w <= 64) out.push_back(CV(ci->getZExtValue()));
        else { APInt a = ci->getValue(); u128 v = a.extractBitsAsZExtValue(64, 0); if (w > 64) v |= (u128)a.extractBitsAsZExtValue(std::min(64u, w - 64), 64) << 64; out.push_back(Val{mkConst(v, w), 0}); }
        return;
    }
    if (isa<ConstantPointerNull>(c)) { out.push_back(CV(0)); return; }
    if (auto *fp = dyn_cast<ConstantFP>(c)) {
        APInt a = fp->getValueAPF().bitcastToAPInt();
        if (a.getBitWidth() <= 64) out.push_back(CV(a.getZExtValue()));
        else out.push_back(Val{mkConst(0, a.getBitWidth()), 0});
        return;
    }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        std::vector<std::pair<uint16_t, u64>> l; leavesOf(t, DL, 0, l);
        for (auto &x : l) out.push_back(x.first <= 64 ? CV(0) : Val{mkConst(0, x.first), 0});
        return;
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (auto &o : ca->operands()) constLeaves(cast<Constant>(o), out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constLeaves(cd->getElementAsConstant(i), out); return; }
    if (auto *gv = dyn_cast<GlobalValue>(c)) {
        if (auto *ga = dyn_cast<GlobalAlias>(gv)) { constLeaves(ga->getAliasee(), out); return; }
        auto it = gaddr.find(gv);
        if (it == gaddr.end()) { fprintf(stderr, "no address for global %s\n", gv->getName().str().c_str()); _exit(2); }
        out.push_back(CV(it->second)); return;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        std::vector<Val> a;
        if (auto *g = dyn_cast<GEPOperator>(ce)) {
            std::vector<Val> b; constLeaves(cast<Constant>(g->getPointerOperand()), b);
            APInt off(64, 0);
            if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "bad const gep\n"); _exit(2); }
            out.push_back(CV(b[0].v + off.getSExtValue())); return;
        }
        for (auto &o : ce->operands()) constLeaves(cast<Constant>(o), a);
        unsigned w = widthOf(t, DL);
        switch (ce->getOpcode()) {
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast:
            out.push_back(CV(a[0].v & mask64(w))); return;
        case Instruction::Add: out.push_back(CV((a[0].v + a[1].v) & mask64(w))); return;
        case Instruction::Sub: out.push_back(CV((a[0].v - a[1].v) & mask64(w))); return;
        case Instruction::And: out.push_back(CV(a[0].v & a[1].v)); return;
        case Instruction::Or: out.push_back(CV(a[0].v | a[1].v)); return;
        case Instruction::Xor: out.push_back(CV(a[0].v ^ a[1].v)); return;
        case Instruction::Mul: out.push_back(CV((a[0].v * a[1].v) & mask64(w))); return;
        case Instruction::Shl: out.push_back(CV((a[0].v << a[1].v) & mask64(w))); return;
        case Instruction::LShr: out.push_back(CV(a[0].v >> a[1].v)); return;
        case Instruction::Select: out.push_back(a[0].v ? a[1] : a[2]); return;
        case Instruction::ICmp: {
            auto p = (CmpInst::Predicate)ce->getPredicate(); bool r = false;
            switch (p) { case CmpInst::ICMP_EQ: r = a[0].v == a[1].v; break; case CmpInst::ICMP_NE: r = a[0].v != a[1].v; break;
            case CmpInst::ICMP_ULT: r = a[0].v < a[1].v; break; case CmpInst::ICMP_UGT: r = a[0].v > a[1].v; break;
            case CmpInst::ICMP_ULE: r = a[0].v <= a[1].v; break; case CmpInst::ICMP_UGE: r = a[0].v >= a[1].v; break; default: break; }
            out.push_back(CV(r)); return; }
        default: break;
        }
    }
    if (isa<BlockAddress>(c)) { out.push_back(CV(0)); return; }
    std::string s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); _exit(2);
}

void Engine::writeConst(Obj *o, u64 off, Constant *c) {
    if (isa<ConstantAggregateZero>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = cd->getRawDataValues(); memcpy(o->data + off, raw.data(), raw.size()); return;
    }
    Type *t = c->getType();
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
        if (auto *s = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(s);
            for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), ca->getOperand(i));
        } else {
            Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType();
            u64 es = DL->getTypeAllocSize(et);
            for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + i * es, ca->getOperand(i));
        }
        return;
    }
    std::vector<Val> v; constLeaves(c, v);
    std::vector<std::pair<uint16_t, u64>> l; leavesOf(t, DL, 0, l);
    for (size_t i = 0; i < l.size(); i++) {
        if (v[i].e) { u128 x = v[i].e->val; memcpy(o->data + off + l[i].second, &x, (l[i].first + 7) / 8); }
        else memcpy(o->data + off + l[i].second, &v[i].v, (l[i].first + 7) / 8);
    }
}

void Engine::init(Module *m) {
    M = m; DL = &m->getDataLayout();
    registerBuiltins();
    S.cur = 0; S.heapTop = HEAP_BASE; S.nsyms = S.ninputs = S.nnotes = S.preempts = 0; S.preemptBound = preemptBound0; S.preemptMem = false; S.steps = 0; S.liveHeap = 0;
    ThState ts{}; ts.status = T_RUN; ts.sp = STACK_BASE; S.th.push_back(ts);
    threads.push_back(new Thread);
    for (auto &F : *M) {
        Fn *f = new Fn; f->F = &F; f->idx = fns.size(); f->addr = FN_BASE + 16 * f->idx; f->name = F.getName().str(); f->vararg = F.isVarArg();
        fns.push_back(f); fnMap[&F] = f;
        auto b = builtins().find(f->name);
        if (b != builtins().end()) f->builtin = b->second;
        else if (F.isDeclaration()) {
            // overloaded llvm intrinsics: longest registered prefix
            std::string n = f->name;
            if (n.rfind("llvm.", 0) == 0) {
                while (!f->builtin) { size_t d = n.rfind('.'); if (d == std::string::npos || d < 5) break; n = n.substr(0, d); auto i = builtins().find(n); if (i != builtins().end()) f->builtin = i->second; }
            }
            if (!f->builtin) f->unknown = true;
        }
        gaddr[&F] = (F.isDeclaration() && F.hasExternalWeakLinkage() && !f->builtin) ? 0 : f->addr;
    }
    for (auto &G : M->globals()) {
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 64;
        if (G.isDeclaration()) {
            if (G.hasExternalWeakLinkage()) { gaddr[&G] = 0; continue; }
            if (sz < 64) sz = 64;
        }
        Obj *o = newObj(sz, O_GLOBAL, 0, strdup(G.getName().str().c_str()));
        memset(o->data, 0, sz); free(o->st); o->st = nullptr;
        gaddr[&G] = o->addr;
    }
    for (auto &G : M->globals()) if (!G.isDeclaration()) {
        Obj *o = find(gaddr[&G]);
        writeConst(o, 0, G.getInitializer());
        o->ro = G.isConstant();
    }
}

// ---------------------------------------------------------------- compilation to ops
struct Compiler {
    Engine &E; Fn *f; const DataLayout *DL;
    DenseMap<const llvm::Value *, int32_t> slot; std::map<u64, int32_t> cpool; DenseMap<const Constant *, int32_t> cslot;
    DenseMap<const BasicBlock *, uint32_t> bbpc; std::vector<std::pair<Edge *, const BasicBlock *>> fix;
    int32_t opnd(const llvm::Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) {
            auto it = cslot.find(c); if (it != cslot.end()) return it->second;
            int32_t base = f->consts.size();
            std::vector<Val> l; E.constLeaves(const_cast<Constant *>(c), l);
            if (l.empty()) l.push_back(CV(0));
            // stored reversed so that leaf i of a constant operand is op - i (negative indices)
            for (auto &x : l) f->consts.push_back(x);
            int32_t r = -1 - base; cslot[c] = r; return r;
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return -1;
        auto it = slot.find(v);
        if (it == slot.end()) { fprintf(stderr, "no slot in %s\n", f->name.c_str()); v->print(errs()); _exit(2); }
        return it->second;
    }
    void edge(Edge &e, const BasicBlock *from, const BasicBlock *to) {
        for (auto &I : *to) {
            auto *p = dyn_cast<PHINode>(&I); if (!p) break;
            int32_t s = opnd(p->getIncomingValueForBlock(from)), d = slot[p];
            unsigned n = nLeaves(p->getType(), DL);
            for (unsigned i = 0; i < n; i++) e.copies.push_back({d + (int)i, s >= 0 ? s + (int)i : s - (int)i});
        }
        fix.push_back({&e, to});
    }
};

static int predSub(CmpInst::Predicate p) { return (int)p; }

void Engine::compile(Fn *f) {
    f->compiled = true;
    Compiler C{*this, f, DL};
    Function *F = f->F;
    uint32_t n = 0;
    for (auto &A : F->args()) { C.slot[&A] = n; n += nLeaves(A.getType(), DL); }
    f->nargLeaves = n;
    for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) { C.slot[&I] = n; n += std::max(1u, nLeaves(I.getType(), DL)); }
    f->nregs = n;
    for (auto &B : *F) {
        C.bbpc[&B] = f->ops.size();
        for (auto &I : B) {
            if (isa<PHINode>(&I)) continue;
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            Op op{}; op.I = &I; op.dst = I.getType()->isVoidTy() ? -1 : C.slot[&I]; op.n = 1;
            Type *T = I.getType();
            op.w = T->isSized() && !T->isAggregateType() && !T->isVectorTy() ? widthOf(T, DL) : 0;
            if (T->isVectorTy() && !isa<LoadInst>(&I) && !isa<CallBase>(&I)) { op.w = widthOf(cast<VectorType>(T)->getElementType(), DL); op.n = cast<FixedVectorType>(T)->getNumElements(); }
            auto unsup = [&]() { std::string s; raw_string_ostream os(s); I.print(os); fprintf(stderr, "mpsym: unsupported instruction in %s: %s\n", f->name.c_str(), os.str().c_str()); _exit(2); };
            switch (I.getOpcode()) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
            case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
                op.code = OP_BIN; op.a = C.opnd(I.getOperand(0)); op.b = C.opnd(I.getOperand(1));
                switch (I.getOpcode()) {
                case Instruction::Add: op.sub = K_ADD; break; case Instruction::Sub: op.sub = K_SUB; break; case Instruction::Mul: op.sub = K_MUL; break;
                case Instruction::UDiv: op.sub = K_UDIV; break; case Instruction::SDiv: op.sub = K_SDIV; break; case Instruction::URem: op.sub = K_UREM; break; case Instruction::SRem: op.sub = K_SREM; break;
                case Instruction::And: op.sub = K_AND; break; case Instruction::Or: op.sub = K_OR; break; case Instruction::Xor: op.sub = K_XOR; break;
                case Instruction::Shl: op.sub = K_SHL; break; case Instruction::LShr: op.sub = K_LSHR; break; default: op.sub = K_ASHR; break; }
                break; }
            case Instruction::ICmp: {
                op.code = OP_ICMP; op.a = C.opnd(I.getOperand(0)); op.b = C.opnd(I.getOperand(1));
                Type *ot = I.getOperand(0)->getType(); if (ot->isVectorTy()) ot = cast<VectorType>(ot)->getElementType();
                op.w = widthOf(ot, DL); op.sub = predSub(cast<ICmpInst>(&I)->getPredicate()); break; }
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
                Type *st = I.getOperand(0)->getType(); if (st->isVectorTy() != T->isVectorTy()) unsup();
                if (st->isAggregateType()) { op.code = OP_MOV; op.n = nLeaves(st, DL); op.a = C.opnd(I.getOperand(0)); break; }
                if (st->isVectorTy()) st = cast<VectorType>(st)->getElementType();
                unsigned sw = widthOf(st, DL);
                op.a = C.opnd(I.getOperand(0)); op.b = sw;
                if (I.getOpcode() == Instruction::SExt) op.code = OP_SEXT;
                else if (sw == op.w) op.code = OP_MOV;
                else if (sw > op.w) op.code = OP_TRUNC;
                else op.code = OP_ZEXT;
                break; }
            case Instruction::GetElementPtr: {
                op.code = OP_GEP; auto *x = new GepX; auto *g = cast<GEPOperator>(&I);
                if (T->isVectorTy()) unsup();
                op.a = C.opnd(g->getPointerOperand());
                MapVector<llvm::Value *, APInt> vo; APInt co(64, 0);
                if (!g->collectOffset(*DL, 64, vo, co)) unsup();
                x->off = co.getSExtValue();
                for (auto &p : vo) x->idx.push_back({C.opnd(p.first), {p.second.getSExtValue(), (uint16_t)widthOf(p.first->getType(), DL)}});
                op.x = x; break; }
            case Instruction::Load: {
                op.code = OP_LOAD; op.a = C.opnd(I.getOperand(0));
                auto *x = new MemX; leavesOf(T, DL, 0, x->leaves); op.x = x; op.n = x->leaves.size(); op.w = op.n == 1 ? x->leaves[0].first : 0; break; }
            case Instruction::Store: {
                op.code = OP_STORE; op.a = C.opnd(I.getOperand(1)); op.b = C.opnd(I.getOperand(0));
                auto *x = new MemX; leavesOf(I.getOperand(0)->getType(), DL, 0, x->leaves); op.x = x; op.n = x->leaves.size(); op.w = op.n == 1 ? x->leaves[0].first : 0; break; }
            case Instruction::Alloca: {
                auto *a = cast<AllocaInst>(&I); op.code = OP_ALLOCA; op.imm = DL->getTypeAllocSize(a->getAllocatedType()); op.a = C.opnd(a->getArraySize()); break; }
            case Instruction::Call: case Instruction::Invoke: {
                auto *cb = cast<CallBase>(&I);
                op.code = OP_CALL; auto *x = new CallX;
                if (cb->isInlineAsm()) { // treat empty asm as a compiler barrier
                    auto *ia = cast<InlineAsm>(cb->getCalledOperand());
                    if (ia->getAsmString() != "") unsup();
                    if (!T->isVoidTy()) { op.code = OP_MOV; op.a = C.opnd(cb->getArgOperand(0)); break; }
                    op.code = OP_FENCE; break;
                }
                llvm::Value *cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                if (auto *cf = dyn_cast<Function>(cv)) x->fn = fnMap[cf];
                else { x->indirect = true; x->calleeOp = C.opnd(cb->getCalledOperand()); }
                for (unsigned i = 0; i < cb->arg_size(); i++) {
                    llvm::Value *a = cb->getArgOperand(i);
                    if (a->getType()->isMetadataTy()) continue;
                    ArgInfo ai; ai.op = C.opnd(a); ai.nleaf = nLeaves(a->getType(), DL); ai.width = ai.nleaf == 1 && !a->getType()->isAggregateType() ? widthOf(a->getType(), DL) : 64;
                    ai.byval = cb->isByValArgument(i) ? (u64)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0;
                    x->args.push_back(ai);
                }
                x->retLeaves = T->isVoidTy() ? 0 : nLeaves(T, DL); x->retWidth = op.w;
                if (auto *inv = dyn_cast<InvokeInst>(cb)) {
                    x->invoke = true;
                    C.edge(x->normal, &B, inv->getNormalDest()); C.edge(x->unwind, &B, inv->getUnwindDest());
                    auto *lp = inv->getUnwindDest()->getLandingPadInst(); auto *L = new LPad; L->cleanup = lp->isCleanup();
                    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                        LPad::Clause cl; cl.isFilter = lp->isFilter(i);
                        std::vector<Val> v; constLeaves(lp->getClause(i), v);
                        for (auto &y : v) cl.tis.push_back(y.v);
                        L->clauses.push_back(cl);
                    }
                    x->lpad = L;
                }
                op.x = x; break; }
            case Instruction::Br: {
                auto *b = cast<BranchInst>(&I); auto *x = new BrX; op.x = x;
                if (b->isConditional()) { op.code = OP_CONDBR; op.a = C.opnd(b->getCondition()); C.edge(x->t, &B, b->getSuccessor(0)); C.edge(x->f, &B, b->getSuccessor(1)); }
                else { op.code = OP_BR; C.edge(x->t, &B, b->getSuccessor(0)); }
                break; }
            case Instruction::Switch: {
                auto *s = cast<SwitchInst>(&I); auto *x = new SwitchX; op.x = x; op.code = OP_SWITCH; op.a = C.opnd(s->getCondition()); op.w = widthOf(s->getCondition()->getType(), DL);
                C.edge(x->def, &B, s->getDefaultDest());
                x->cases.reserve(s->getNumCases());
                for (auto &cs : s->cases()) { x->cases.emplace_back(cs.getCaseValue()->getZExtValue(), Edge()); C.edge(x->cases.back().second, &B, cs.getCaseSuccessor()); x->map[x->cases.back().first] = x->cases.size() - 1; }
                break; }
            case Instruction::Ret: { op.code = OP_RET; auto *r = cast<ReturnInst>(&I); op.n = 0; if (r->getReturnValue()) { op.a = C.opnd(r->getReturnValue()); op.n = nLeaves(r->getReturnValue()->getType(), DL); } break; }
            case Instruction::Unreachable: op.code = OP_UNREACHABLE; break;
            case Instruction::Resume: op.code = OP_RESUME; op.a = C.opnd(I.getOperand(0)); break;
            case Instruction::LandingPad: op.code = OP_LANDINGPAD; break;
            case Instruction::Select: {
                op.code = OP_SELECT; op.a = C.opnd(I.getOperand(0)); op.b = C.opnd(I.getOperand(1)); op.c = C.opnd(I.getOperand(2));
                auto *x = new MemX; leavesOf(T, DL, 0, x->leaves); op.x = x; op.n = x->leaves.size(); op.imm = I.getOperand(0)->getType()->isVectorTy(); break; }
            case Instruction::ExtractValue: case Instruction::InsertValue: {
                ArrayRef<unsigned> idx; Type *at;
                if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { idx = ev->getIndices(); at = ev->getAggregateOperand()->getType(); }
                else { auto *iv = cast<InsertValueInst>(&I); idx = iv->getIndices(); at = iv->getType(); }
                unsigned off = 0; Type *t = at;
                for (unsigned k : idx) {
                    if (auto *s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; j++) off += nLeaves(s->getElementType(j), DL); t = s->getElementType(k); }
                    else { auto *a = cast<ArrayType>(t); off += k * nLeaves(a->getElementType(), DL); t = a->getElementType(); }
                }
                op.a = C.opnd(I.getOperand(0)); op.imm = off;
                if (isa<ExtractValueInst>(&I)) { op.code = OP_EXTRACTVALUE; op.n = nLeaves(t, DL); }
                else { op.code = OP_INSERTVALUE; op.b = C.opnd(I.getOperand(1)); op.n = nLeaves(at, DL); op.c = nLeaves(t, DL); }
                break; }
            case Instruction::ExtractElement: {
                if (!isa<ConstantInt>(I.getOperand(1))) unsup();
                op.code = OP_EXTRACTVALUE; op.a = C.opnd(I.getOperand(0)); op.imm = cast<ConstantInt>(I.getOperand(1))->getZExtValue(); op.n = 1; break; }
            case Instruction::InsertElement: {
                if (!isa<ConstantInt>(I.getOperand(2))) unsup();
                op.code = OP_INSERTVALUE; op.a = C.opnd(I.getOperand(0)); op.b = C.opnd(I.getOperand(1)); op.imm = cast<ConstantInt>(I.getOperand(2))->getZExtValue(); op.n = nLeaves(T, DL); op.c = 1; break; }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
                op.code = OP_FBIN; op.sub = I.getOpcode() - Instruction::FAdd; // FAdd,FSub order differs; store raw
                op.imm = I.getOpcode(); op.a = C.opnd(I.getOperand(0)); op.b = C.opnd(I.getOperand(1)); break;
            case Instruction::FNeg: op.code = OP_FNEG; op.a = C.opnd(I.getOperand(0)); break;
            case Instruction::FCmp: op.code = OP_FCMP; op.sub = cast<FCmpInst>(&I)->getPredicate(); op.a = C.opnd(I.getOperand(0)); op.b = C.opnd(I.getOperand(1)); op.w = widthOf(I.getOperand(0)->getType(), DL); break;
            case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc:
                op.code = OP_FCAST; op.imm = I.getOpcode(); op.a = C.opnd(I.getOperand(0)); op.b = widthOf(I.getOperand(0)->getType(), DL); break;
            case Instruction::AtomicRMW: op.code = OP_RMW; op.a = C.opnd(I.getOperand(0)); op.b = C.opnd(I.getOperand(1)); op.sub = cast<AtomicRMWInst>(&I)->getOperation(); break;
            case Instruction::AtomicCmpXchg: op.code = OP_CMPXCHG; op.a = C.opnd(I.getOperand(0)); op.b = C.opnd(I.getOperand(1)); op.c = C.opnd(I.getOperand(2)); op.w = widthOf(I.getOperand(1)->getType(), DL); break;
            case Instruction::Fence: op.code = OP_FENCE; break;
            default: unsup();
            }
            f->ops.push_back(op);
        }
    }
    for (auto &p : C.fix) p.first->target = C.bbpc[p.second];
}

// ---------------------------------------------------------------- calls, exceptions
static CallX dummyCX;
void Engine::pushCall(Fn *f, const std::vector<Val> &args, const CallX *cx, const Op *op, u64 va) {
    if (!f->compiled) compile(f);
    if (!sh->fnHit[f->idx & 0x1ffff]) sh->fnHit[f->idx & 0x1ffff] = 1;
    Thread *T = threads[S.cur];
    if (T->frames.size() > 3000) violation("stack-overflow", "call depth 3000 in " + f->name);
    Frame fr; fr.fn = f; fr.pc = 0; fr.regBase = T->frames.empty() ? 0 : T->frames.back().regBase + T->frames.back().fn->nregs;
    fr.allocaBase = T->allocas.size(); fr.callOp = op; fr.epoch = epoch; fr.va = va; fr.savedStack = S.th[S.cur].sp;
    if (T->regs.size() < fr.regBase + f->nregs) T->regs.resize((fr.regBase + f->nregs) * 2 + 4096);
    for (size_t i = 0; i < args.size() && i < f->nargLeaves; i++) T->regs[fr.regBase + i] = args[i];
    for (size_t i = args.size(); i < f->nargLeaves; i++) T->regs[fr.regBase + i] = CV(0);
    T->frames.push_back(fr);
    if (traceCalls) fprintf(stderr, "%*s%s\n", (int)T->frames.size(), "", f->name.c_str());
}

void Engine::popFrame() {
    Thread *T = threads[S.cur];
    Frame &f = T->frames.back();
    while (T->allocas.size() > f.allocaBase) { Obj *o = T->allocas.back(); T->allocas.pop_back(); killObj(o); }
    S.th[S.cur].sp = f.savedStack;
    T->frames.pop_back();
    if (!T->frames.empty()) touch();
}

bool Engine::typeDerives(u64 ti, u64 want, int64_t off, u64 objAddr, int64_t &adj) {
    if (ti == want) { adj = off; return true; }
    static u64 vsi = 0, vvmi = 0; static bool once = false;
    if (!once) {
        once = true;
        if (auto *g = M->getNamedGlobal("_ZTVN10__cxxabiv120__si_class_type_infoE")) vsi = gaddr[g] + 16;
        if (auto *g = M->getNamedGlobal("_ZTVN10__cxxabiv121__vmi_class_type_infoE")) vvmi = gaddr[g] + 16;
    }
    Obj *o = find(ti);
    if (!o || o->size < 16) return false;
    u64 vt; memcpy(&vt, o->data + (ti - o->addr), 8);
    u64 nm, nm2; memcpy(&nm, o->data + (ti - o->addr) + 8, 8);
    Obj *w = find(want);
    if (w && w->size >= 16 && nm) { memcpy(&nm2, w->data + (want - w->addr) + 8, 8); if (nm2 && (nm == nm2 || cstr(nm) == cstr(nm2))) { adj = off; return true; } }
    if (vt == vsi && vsi) { u64 b; memcpy(&b, o->data + (ti - o->addr) + 16, 8); return typeDerives(b, want, off, objAddr, adj); }
    if (vt == vvmi && vvmi) {
        uint32_t n; memcpy(&n, o->data + (ti - o->addr) + 20, 4);
        for (uint32_t i = 0; i < n; i++) {
            u64 b; int64_t fl; memcpy(&b, o->data + (ti - o->addr) + 24 + 16 * i, 8); memcpy(&fl, o->data + (ti - o->addr) + 32 + 16 * i, 8);
            int64_t boff = fl >> 8;
            if (fl & 1) { // virtual base: offset read from the vtable of the object
                if (!objAddr) { boff = 0; }
                else { u64 vp = load(CV(objAddr + off), 64).v; boff = (int64_t)load(CV(vp + boff), 64).v; }
            }
            if (typeDerives(b, want, off + boff, objAddr, adj)) return true;
        }
    }
    return false;
}

void Engine::doThrow(u64 exn) {
    Thread *T = threads[S.cur];
    ExnInfo *x = nullptr;
    for (auto &e : S.exns) if (e.addr == exn) x = &e;
    if (!x) engineError("throw of unknown exception object");
    u64 ti = x->ti;
    auto match = [&](LPad *L, bool &isClean, int64_t &sel, int64_t &adj) -> bool {
        isClean = L->cleanup;
        for (size_t i = 0; i < L->clauses.size(); i++) {
            auto &c = L->clauses[i];
            if (!c.isFilter) {
                if (c.tis[0] == 0) { sel = 1; adj = 0; return true; }
                if (typeDerives(ti, c.tis[0], 0, exn, adj)) { sel = (int64_t)(c.tis[0] & 0x7fffffff); return true; }
            } else {
                bool any = false; int64_t a2;
                for (u64 t : c.tis) if (t && typeDerives(ti, t, 0, exn, a2)) any = true;
                if (!any) { sel = -(int64_t)(i + 1); adj = 0; return true; }
            }
        }
        return false;
    };
    // phase 1
    bool found = false;
    for (int i = (int)T->frames.size() - 1; i >= 0 && !found; i--) {
        const Op &op = T->frames[i].fn->ops[T->frames[i].pc];
        if (op.code != OP_CALL) continue;
        auto *cx = (CallX *)op.x; if (!cx || !cx->invoke) continue;
        bool cl; int64_t sel, adj; if (match(cx->lpad, cl, sel, adj)) found = true;
    }
    if (!found) {
        Obj *o = find(ti); std::string nm = "?";
        if (o && o->size >= 16) { u64 p; memcpy(&p, o->data + (ti - o->addr) + 8, 8); if (p) nm = cstr(p); }
        violation("uncaught-exception", nm);
    }
    for (;;) {
        Frame &f = T->frames.back();
        const Op &op = f.fn->ops[f.pc];
        auto *cx = op.code == OP_CALL ? (CallX *)op.x : nullptr;
        if (cx && cx->invoke) {
            bool cl; int64_t sel = 0, adj = 0;
            bool m = match(cx->lpad, cl, sel, adj);
            if (m || cl) {
                if (m) x->adjusted = exn + adj;
                if (!m) sel = 0;
                takeEdge(f, cx->unwind);
                const Op &lp = f.fn->ops[f.pc];
                // landingpad is the first op of the block
                Val *R = &T->regs[f.regBase];
                R[lp.dst] = CV(exn); R[lp.dst + 1] = CV((u64)(uint32_t)(int32_t)sel);
                f.pc++;
                return;
            }
        }
        popFrame();
    }
}

void Engine::takeEdge(Frame &f, const Edge &e) {
    if (!e.copies.empty()) {
        Val *R = &threads[S.cur]->regs[f.regBase];
        auto &C = f.fn->consts;
        if (e.copies.size() == 1) { auto &c = e.copies[0]; R[c.first] = c.second >= 0 ? R[c.second] : C[-1 - c.second]; }
        else {
            Val tmp[64]; std::vector<Val> big; Val *t = tmp;
            if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); }
            size_t i = 0;
            for (auto &c : e.copies) t[i++] = c.second >= 0 ? R[c.second] : C[-1 - c.second];
            i = 0; for (auto &c : e.copies) R[c.first] = t[i++];
        }
    }
    f.pc = e.target;
}

static double bitsD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 dBits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float bitsF(u64 v) { float d; uint32_t x = v; memcpy(&d, &x, 4); return d; }
static u64 fBits(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

static bool icmpC(int p, u64 a, u64 b, unsigned w) {
    int64_t sa = (int64_t)(w >= 64 ? a : (u64)sext128(a, w)), sb = (int64_t)(w >= 64 ? b : (u64)sext128(b, w));
    switch (p) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sa > sb; case CmpInst::ICMP_SGE: return sa >= sb; case CmpInst::ICMP_SLT: return sa < sb; case CmpInst::ICMP_SLE: return sa <= sb;
    }
    return false;
}
static const Expr *icmpE(int p, const Expr *a, const Expr *b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_UGT: return mkBin(K_ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(K_ULE, b, a);
    case CmpInst::ICMP_ULT: return mkBin(K_ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(K_ULE, a, b);
    case CmpInst::ICMP_SGT: return mkBin(K_SLT, b, a); case CmpInst::ICMP_SGE: return mkBin(K_SLE, b, a);
    case CmpInst::ICMP_SLT: return mkBin(K_SLT, a, b); case CmpInst::ICMP_SLE: return mkBin(K_SLE, a, b);
    }
    return nullptr;
}

bool Engine::preemptible(u64 a) {
    if (threads.size() < 2 || !S.preemptMem) return false;
    if (a >= STACK_BASE && (a - STACK_BASE) / STACK_SPAN == S.cur) return false;
    Obj *o = find(a);
    if (!o || o->ro) return false;
    int live = 0; for (auto &t : S.th) if (t.status != T_DONE) live++;
    return live > 1;
}

std::vector<uint32_t> Engine::runnableExcept(int x) {
    std::vector<uint32_t> r;
    for (uint32_t i = 0; i < S.th.size(); i++) if ((int)i != x) {
        if (S.th[i].status == T_RUN || (S.th[i].status == T_BLOCK_COND && S.th[i].timed)) r.push_back(i);
    }
    return r;
}

void Engine::addIdle(std::vector<uint32_t> &r) { if (r.empty()) for (uint32_t i = 0; i < S.th.size(); i++) if (i != S.cur && S.th[i].status == T_BLOCK_IDLE) r.push_back(i); }

uint32_t Engine::chooseOf(const std::vector<uint32_t> &c, const char *nm) {
    if (c.size() == 1) return c[0];
    Val v = inputVal(nm, 8, 0);
    if (v.e) assume(mkBin(K_ULT, v.e, mkConst(c.size(), 8)));
    u64 i = concretize(v, 8);
    return c[i < c.size() ? i : 0];
}

static void wake(ThState &t) { if (t.status == T_BLOCK_IDLE) t.status = T_RUN; if (t.status == T_BLOCK_COND) { t.phase = 3; t.status = T_RUN; } }

void Engine::schedPoint() {
    int live = 0; for (auto &t : S.th) if (t.status != T_DONE) live++;
    if (live < 2) return;
    ThState &me = S.th[S.cur];
    if (me.sched) return;
    if ((int)S.preempts >= S.preemptBound) return;
    auto r = runnableExcept(S.cur);
    if (r.empty()) return;
    r.insert(r.begin(), S.cur);
    uint32_t p = chooseOf(r, "sched");
    S.th[S.cur].sched = true;
    if (p == S.cur) return;
    S.preempts++;
    wake(S.th[p]);
    S.cur = p;
    touch();
    throw Resched();
}

// block the current thread and run another one
void Engine::blockAndSwitch(ThStatus st, u64 a, u64 m, uint32_t j, uint8_t phase, bool timed, bool setSched) {
    auto r = runnableExcept(S.cur);
    addIdle(r);
    if (timed) r.push_back(S.cur); // may simply time out
    if (r.empty()) violation("deadlock", "no runnable thread");
    uint32_t p = S.preemptBound < 0 ? r[0] : chooseOf(r, "sched");
    ThState &me = S.th[S.cur];
    me.status = st; me.waitAddr = a; me.mutexAddr = m; me.joinTid = j; me.phase = phase; me.timed = timed; if (setSched) me.sched = true;
    wake(S.th[p]);
    S.cur = p;
    touch();
    throw Resched();
}

// ---------------------------------------------------------------- main loop
void Engine::exec() {
restart:
    Thread *T = threads[S.cur];
    if (T->frames.empty()) engineError("empty thread");
    Frame *f = &T->frames.back();
    Val *R = &T->regs[f->regBase];
    const Val *C = f->fn->consts.data();
    std::vector<Val> args;
#define V(o) ((o) >= 0 ? R[o] : C[-1 - (o)])
#define VL(o, i) ((o) >= 0 ? R[(o) + (i)] : C[-1 - (o) + (i)])
    for (;;) {
        const Op &op = f->fn->ops[f->pc];
        opNsyms = S.nsyms; opNinputs = S.ninputs; opNnotes = S.nnotes;
        S.steps++;
        if ((S.steps & 0xfff) == 0) {
            if (S.steps > stepLimit) violation("hang", "no termination within " + std::to_string(stepLimit) + " steps");
            if (sh->stop || (sh->active < maxWorkers && !choices.empty()) || (S.steps & 0xfffff) == 0) trySplit();
        }
        switch (op.code) {
        case OP_BIN: {
            for (unsigned l = 0; l < op.n; l++) {
                Val a = VL(op.a, l), b = VL(op.b, l);
                unsigned w = op.w;
                if (!a.e && !b.e && w <= 64) {
                    u64 r; u64 m = mask64(w);
                    switch (op.sub) {
                    case K_ADD: r = (a.v + b.v) & m; break; case K_SUB: r = (a.v - b.v) & m; break; case K_MUL: r = (a.v * b.v) & m; break;
                    case K_AND: r = a.v & b.v; break; case K_OR: r = a.v | b.v; break; case K_XOR: r = a.v ^ b.v; break;
                    case K_SHL: r = b.v >= w ? 0 : (a.v << b.v) & m; break; case K_LSHR: r = b.v >= w ? 0 : a.v >> b.v; break;
                    case K_UDIV: case K_SDIV: case K_UREM: case K_SREM:
                        if (!b.v) violation("div-by-zero", "division by zero");
                    default: r = (u64)foldBin((Kind)op.sub, a.v, b.v, w);
                    }
                    R[op.dst + l] = CV(r);
                } else {
                    const Expr *ea = toExpr(a, w), *eb = toExpr(b, w);
                    if (op.sub >= K_UDIV && op.sub <= K_SREM) {
                        if (decide(mkEq(eb, mkConst(0, w)))) violation("div-by-zero", "division by zero");
                    }
                    R[op.dst + l] = fromExpr(mkBin((Kind)op.sub, ea, eb));
                }
            }
            f->pc++; break; }
        case OP_ICMP: {
            for (unsigned l = 0; l < op.n; l++) {
                Val a = VL(op.a, l), b = VL(op.b, l);
                if (!a.e && !b.e && op.w <= 64) R[op.dst + l] = CV(icmpC(op.sub, a.v, b.v, op.w));
                else R[op.dst + l] = fromExpr(icmpE(op.sub, toExpr(a, op.w), toExpr(b, op.w)));
            }
            f->pc++; break; }
        case OP_TRUNC: for (unsigned l = 0; l < op.n; l++) { Val a = VL(op.a, l); R[op.dst + l] = a.e ? fromExpr(mkExtract(a.e, 0, op.w)) : CV(a.v & mask64(op.w)); } f->pc++; break;
        case OP_ZEXT: for (unsigned l = 0; l < op.n; l++) { Val a = VL(op.a, l); R[op.dst + l] = (a.e || op.w > 64) ? fromExpr(mkZExt(toExpr(a, op.b), op.w)) : a; } f->pc++; break;
        case OP_SEXT: for (unsigned l = 0; l < op.n; l++) { Val a = VL(op.a, l); R[op.dst + l] = (a.e || op.w > 64) ? fromExpr(mkSExt(toExpr(a, op.b), op.w)) : CV((u64)sext128(a.v, op.b) & mask64(op.w)); } f->pc++; break;
        case OP_MOV: for (unsigned l = 0; l < op.n; l++) R[op.dst + l] = VL(op.a, l); f->pc++; break;
        case OP_GEP: {
            auto *x = (GepX *)op.x; Val b = V(op.a);
            if (!b.e) {
                u64 acc = b.v + x->off; const Expr *se = nullptr;
                for (auto &i : x->idx) {
                    Val v = V(i.first); unsigned w = i.second.second;
                    if (!v.e) acc += (u64)sext128(v.v, w) * i.second.first;
                    else { const Expr *t = mkBin(K_MUL, mkSExt(v.e, 64), mkConst(i.second.first, 64)); se = se ? mkBin(K_ADD, se, t) : t; }
                }
                R[op.dst] = se ? fromExpr(mkBin(K_ADD, se, mkConst(acc, 64))) : CV(acc);
            } else {
                const Expr *e = mkBin(K_ADD, b.e, mkConst(x->off, 64));
                for (auto &i : x->idx) { Val v = V(i.first); e = mkBin(K_ADD, e, mkBin(K_MUL, mkSExt(toExpr(v, i.second.second), 64), mkConst(i.second.first, 64))); }
                R[op.dst] = fromExpr(e);
            }
            f->pc++; break; }
        case OP_LOAD: {
            Val a = V(op.a);
            if (!a.e && threads.size() > 1 && preemptible(a.v)) schedPoint();
            if (op.n == 1) {
                if (!a.e && op.w <= 64) { // fast path
                    unsigned nb = (op.w + 7) / 8; u64 off; Obj *o = find(a.v);
                    if (o && o->alive && a.v >= o->addr && (off = a.v - o->addr) + nb <= o->size) { R[op.dst] = loadObj(o, off, op.w); goto ldone; }
                }
                { Val r = load(a, op.w); R[op.dst] = r; }
            } else {
                auto *x = (MemX *)op.x; u64 base = a.e ? concretize(a, 64) : a.v;
                for (unsigned l = 0; l < op.n; l++) R[op.dst + l] = load(CV(base + x->leaves[l].second), x->leaves[l].first);
            }
        ldone:
            f->pc++; break; }
        case OP_STORE: {
            Val a = V(op.a);
            if (!a.e && threads.size() > 1 && preemptible(a.v)) schedPoint();
            if (op.n == 1) store(a, V(op.b), op.w);
            else {
                auto *x = (MemX *)op.x; u64 base = a.e ? concretize(a, 64) : a.v;
                for (unsigned l = 0; l < op.n; l++) store(CV(base + x->leaves[l].second), VL(op.b, l), x->leaves[l].first);
            }
            f->pc++; break; }
        case OP_ALLOCA: {
            u64 n = concretize(V(op.a), 64);
            Obj *o = newObj(op.imm * n, O_STACK, S.cur, "local");
            R[op.dst] = CV(o->addr); f->pc++; break; }
        case OP_BR: takeEdge(*f, ((BrX *)op.x)->t); break;
        case OP_CONDBR: {
            Val c = V(op.a); bool t = c.e ? decide(c.e) : (c.v & 1);
            takeEdge(*f, t ? ((BrX *)op.x)->t : ((BrX *)op.x)->f); break; }
        case OP_SWITCH: {
            auto *x = (SwitchX *)op.x; Val c = V(op.a);
            if (!c.e) { auto it = x->map.find(c.v); takeEdge(*f, it == x->map.end() ? x->def : x->cases[it->second].second); }
            else {
                // group cases by target edge so that equal targets stay merged
                int hit = -1;
                std::map<uint32_t, const Expr *> bytgt; std::vector<uint32_t> order; std::map<uint32_t, int> rep;
                for (size_t i = 0; i < x->cases.size(); i++) {
                    const Edge &e = x->cases[i].second; const Expr *q = mkEq(c.e, mkConst(x->cases[i].first, op.w));
                    if (e.copies.empty()) {
                        auto it = bytgt.find(e.target);
                        if (it == bytgt.end()) { bytgt[e.target] = q; order.push_back(e.target); rep[e.target] = i; } else it->second = mkOr(it->second, q);
                    }
                }
                for (size_t i = 0; i < x->cases.size() && hit < 0; i++) if (!x->cases[i].second.copies.empty()) if (decide(mkEq(c.e, mkConst(x->cases[i].first, op.w)))) hit = i;
                for (size_t i = 0; i < order.size() && hit < 0; i++) if (decide(bytgt[order[i]])) hit = rep[order[i]];
                takeEdge(*f, hit < 0 ? x->def : x->cases[hit].second);
            }
            break; }
        case OP_SELECT: {
            auto *x = (MemX *)op.x;
            Val r[16];
            std::vector<Val> big; Val *rr = r; if (op.n > 16) { big.resize(op.n); rr = big.data(); }
            for (unsigned l = 0; l < op.n; l++) {
                Val c = op.imm ? VL(op.a, l) : V(op.a);
                if (!c.e) rr[l] = c.v & 1 ? VL(op.b, l) : VL(op.c, l);
                else rr[l] = fromExpr(mkIte(c.e, toExpr(VL(op.b, l), x->leaves[l].first), toExpr(VL(op.c, l), x->leaves[l].first)));
            }
            for (unsigned l = 0; l < op.n; l++) R[op.dst + l] = rr[l];
            f->pc++; break; }
        case OP_EXTRACTVALUE: for (unsigned l = 0; l < op.n; l++) R[op.dst + l] = VL(op.a, op.imm + l); f->pc++; break;
        case OP_INSERTVALUE: {
            for (unsigned l = 0; l < op.n; l++) if (!(l >= op.imm && l < op.imm + op.c)) R[op.dst + l] = VL(op.a, l);
            for (int l = 0; l < op.c; l++) R[op.dst + op.imm + l] = VL(op.b, l);
            f->pc++; break; }
        case OP_FBIN: {
            u64 a = concretize(V(op.a), op.w), b = concretize(V(op.b), op.w);
            if (op.w == 64) { double x = bitsD(a), y = bitsD(b), r = 0; switch (op.imm) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } R[op.dst] = CV(dBits(r)); }
            else if (op.w == 32) { float x = bitsF(a), y = bitsF(b), r = 0; switch (op.imm) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf(x, y); } R[op.dst] = CV(fBits(r)); }
            else engineError("long double arithmetic");
            f->pc++; break; }
        case OP_FNEG: { u64 a = concretize(V(op.a), op.w); R[op.dst] = op.w == 64 ? CV(dBits(-bitsD(a))) : CV(fBits(-bitsF(a))); f->pc++; break; }
        case OP_FCMP: {
            u64 a = concretize(V(op.a), op.w), b = concretize(V(op.b), op.w);
            double x = op.w == 64 ? bitsD(a) : bitsF(a), y = op.w == 64 ? bitsD(b) : bitsF(b); bool un = x != x || y != y, r = false;
            int p = op.sub; bool eq = x == y, lt = x < y, gt = x > y;
            r = (un && (p & 8)) || (eq && (p & 1)) || (gt && (p & 2)) || (lt && (p & 4));
            R[op.dst] = CV(r); f->pc++; break; }
        case OP_FCAST: {
            u64 a = concretize(V(op.a), op.b); u64 r = 0;
            if (op.w > 64 || op.b > 64) engineError("long double cast");
            switch (op.imm) {
            case Instruction::UIToFP: r = op.w == 64 ? dBits((double)a) : fBits((float)a); break;
            case Instruction::SIToFP: { int64_t s = (int64_t)(u64)sext128(a, op.b); r = op.w == 64 ? dBits((double)s) : fBits((float)s); break; }
            case Instruction::FPToUI: r = (u64)(op.b == 64 ? bitsD(a) : bitsF(a)) & mask64(op.w); break;
            case Instruction::FPToSI: r = (u64)(int64_t)(op.b == 64 ? bitsD(a) : bitsF(a)) & mask64(op.w); break;
            case Instruction::FPExt: r = dBits(bitsF(a)); break;
            case Instruction::FPTrunc: r = fBits((float)bitsD(a)); break;
            }
            R[op.dst] = CV(r); f->pc++; break; }
        case OP_RMW: {
            Val a = V(op.a);
            if (!a.e && threads.size() > 1 && preemptible(a.v)) schedPoint();
            u64 addr = concretize(a, 64); Val old = load(CV(addr), op.w), v = V(op.b), nv;
            const Expr *eo = toExpr(old, op.w), *ev = toExpr(v, op.w);
            switch (op.sub) {
            case AtomicRMWInst::Xchg: nv = v; break;
            case AtomicRMWInst::Add: nv = fromExpr(mkBin(K_ADD, eo, ev)); break;
            case AtomicRMWInst::Sub: nv = fromExpr(mkBin(K_SUB, eo, ev)); break;
            case AtomicRMWInst::And: nv = fromExpr(mkBin(K_AND, eo, ev)); break;
            case AtomicRMWInst::Or: nv = fromExpr(mkBin(K_OR, eo, ev)); break;
            case AtomicRMWInst::Xor: nv = fromExpr(mkBin(K_XOR, eo, ev)); break;
            default: engineError("atomicrmw");
            }
            store(CV(addr), nv, op.w); R[op.dst] = old; f->pc++; break; }
        case OP_CMPXCHG: {
            Val a = V(op.a);
            if (!a.e && threads.size() > 1 && preemptible(a.v)) schedPoint();
            u64 addr = concretize(a, 64); Val old = load(CV(addr), op.w);
            bool eq = decide(mkEq(toExpr(old, op.w), toExpr(V(op.b), op.w)));
            if (eq) store(CV(addr), V(op.c), op.w);
            R[op.dst] = old; R[op.dst + 1] = CV(eq); f->pc++; break; }
        case OP_FENCE: f->pc++; break;
        case OP_UNREACHABLE: violation("unreachable", "reached unreachable code (undefined behaviour)");
        case OP_LANDINGPAD: engineError("landingpad executed");
        case OP_RESUME: {
            u64 exn = V(op.a).v;
            popFrame();
            doThrow(exn);
            goto restart; }
        case OP_RET: {
            Val rv[8]; std::vector<Val> big; Val *rr = rv; if (op.n > 8) { big.resize(op.n); rr = big.data(); }
            for (unsigned l = 0; l < op.n; l++) rr[l] = VL(op.a, l);
            const Op *callOp = f->callOp; unsigned n = op.n;
            popFrame();
            if (T->frames.empty()) {
                if (S.cur == 0) { // main function done
                    return;
                }
                // thread finished
                S.th[S.cur].status = T_DONE; S.th[S.cur].retval = n ? rr[0].v : 0;
                for (auto &t : S.th) if (t.status == T_BLOCK_JOIN && t.joinTid == S.cur) t.status = T_RUN;
                // the choice below may fork: the frame stack is empty, so choose in a safe way
                auto r = runnableExcept(S.cur);
                addIdle(r);
                if (r.empty()) { for (uint32_t i = 0; i < S.th.size(); i++) if (S.th[i].status != T_DONE) { S.cur = i; break; } violation("deadlock", "no runnable thread (the last one running has ended)"); }
                // deterministic hand-over to the lowest runnable thread; it is a scheduling point for that thread
                uint32_t p = r[0];
                wake(S.th[p]);
                S.cur = p; touch();
                S.th[p].sched = false;
                if (S.preempts > 0) S.preempts--; // thread end gives one free switch
                goto restart;
            }
            f = &T->frames.back(); R = &T->regs[f->regBase]; C = f->fn->consts.data();
            if (callOp) {
                auto *cx = (CallX *)callOp->x;
                if (callOp->dst >= 0) for (unsigned l = 0; l < n; l++) R[callOp->dst + l] = rr[l];
                if (cx->invoke) takeEdge(*f, cx->normal); else f->pc++;
            } else f->pc++;   // call pushed by a builtin (result ignored)
            S.th[S.cur].sched = false;
            break; }
        case OP_CALL: {
            auto *cx = (CallX *)op.x; Fn *fn = cx->fn;
            if (cx->indirect) {
                u64 a = concretize(V(cx->calleeOp), 64);
                fn = fnAt(a);
                if (!fn) violation("bad-call", "call of invalid function pointer " + hex(a));
            }
            args.clear();
            for (auto &ai : cx->args) for (unsigned l = 0; l < ai.nleaf; l++) args.push_back(VL(ai.op, l));
            if (fn->builtin) {
                Val ret[4] = {CV(0), CV(0), CV(0), CV(0)};
                size_t depth = T->frames.size(); uint32_t curBefore = S.cur;
                fn->builtin(*this, *cx, args, ret);
                if (S.cur != curBefore || T->frames.size() != depth || T->frames.back().fn != f->fn) { S.th[curBefore].sched = false; goto restart; }
                f = &T->frames.back(); R = &T->regs[f->regBase];
                if (f->pc != (uint32_t)(&op - f->fn->ops.data())) goto restart; // exception landed here
                if (op.dst >= 0) for (unsigned l = 0; l < cx->retLeaves && l < 4; l++) R[op.dst + l] = ret[l];
                if (cx->invoke) takeEdge(*f, cx->normal); else f->pc++;
                S.th[S.cur].sched = false;
                break;
            }
            if (fn->unknown) {
                engineError("call of unmodelled function " + fn->name);
            }
            // byval copies / varargs
            u64 va = 0; size_t fixedLeaves = 0;
            if (!fn->compiled) compile(fn);
            std::vector<std::pair<size_t, u64>> byv; size_t li = 0;
            for (auto &ai : cx->args) { if (ai.byval) byv.push_back({li, ai.byval}); li += ai.nleaf; }
            fixedLeaves = fn->nargLeaves;
            size_t abase = T->allocas.size(); u64 spbase = S.th[S.cur].sp;
            for (auto &b : byv) {
                u64 so; Obj *s = resolve(args[b.first], b.second, false, so);
                Obj *d = newObj(b.second, O_STACK, S.cur, "byval"); copyBytes(d, 0, s, so, b.second); args[b.first] = CV(d->addr);
            }
            if (fn->vararg) {
                size_t extra = 0, i = 0; std::vector<std::pair<Val, unsigned>> ex;
                for (auto &ai : cx->args) { for (unsigned l = 0; l < ai.nleaf; l++, i++) if (i >= fixedLeaves) { ex.push_back({args[i], ai.width}); extra++; } }
                Obj *d = newObj(extra * 8 + 8, O_STACK, S.cur, "varargs");
                for (size_t k = 0; k < ex.size(); k++) storeObj(d, k * 8, ex[k].first, ex[k].first.e ? ex[k].first.e->width : 64);
                va = d->addr;
            }
            pushCall(fn, args, cx, &op, va);
            T->frames.back().allocaBase = abase; T->frames.back().savedStack = spbase;
            f = &T->frames.back(); R = &T->regs[f->regBase]; C = f->fn->consts.data();
            break; }
        default: engineError("bad op");
        }
        if (threads.size() > 1 && op.code != OP_CALL) S.th[S.cur].sched = false;
    }
}

void Engine::run(Fn *entry) {
    tstart = now();
    pushCall(entry, {}, nullptr, nullptr, 0);
    bool first = true;
    for (;;) {
        try {
            for (;;) {
                try { exec(); __sync_fetch_and_add(&g_stats->pathsDone, 1); break; }
                catch (Resched &) { continue; }
            }
        } catch (PathEnd &) {}
        u64 st = S.steps; (void)first;
        __sync_fetch_and_add(&g_stats->steps, 1);
        if (st > g_stats->maxSteps) g_stats->maxSteps = st;
        if (sh->stop || now() - tstart > budget) { if (now() - tstart > budget) { sh->incomplete = 1; sh->stop = 1; } break; }
        if (!backtrack()) break;
    }
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    if ((u64)ru.ru_maxrss > sh->memPeak) sh->memPeak = ru.ru_maxrss;
    __sync_sub_and_fetch(&sh->active, 1);
    while (wait(nullptr) > 0) {}
}

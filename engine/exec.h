#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>

struct Val { const Expr *e; u64 v; };
static inline Val CV(u64 v) { return Val{nullptr, v}; }

enum ObjKind : uint8_t { O_GLOBAL, O_HEAP, O_STACK };
struct Obj {
    u64 addr; u64 size; ObjKind kind; bool alive; bool ro; bool isNew;
    uint32_t epoch, cepoch; size_t trailIdx; uint32_t tid;
    uint8_t *data;
    uint8_t *st;          // null: every byte concrete
    const Expr **sx;      // null: no symbolic byte
    const char *name;
};

struct Fn;
struct Edge { uint32_t target = 0; std::vector<std::pair<int32_t, int32_t>> copies; };
struct LPad { bool cleanup = false; struct Clause { bool isFilter; std::vector<u64> tis; }; std::vector<Clause> clauses; };
struct ArgInfo { int32_t op; uint16_t nleaf; uint16_t width; u64 byval; };
struct CallX {
    Fn *fn = nullptr; int32_t calleeOp = 0; bool indirect = false;
    std::vector<ArgInfo> args; uint16_t retWidth = 0; uint32_t retLeaves = 0;
    bool invoke = false; Edge normal, unwind; LPad *lpad = nullptr;
};
struct GepX { u64 off; std::vector<std::pair<int32_t, std::pair<u64, uint16_t>>> idx; };
struct SwitchX { Edge def; std::vector<std::pair<u64, Edge>> cases; std::unordered_map<u64, uint32_t> map; };
struct MemX { std::vector<std::pair<uint16_t, u64>> leaves; };
struct BrX { Edge t, f; };

enum OpCode : uint8_t {
    OP_BIN, OP_ICMP, OP_TRUNC, OP_ZEXT, OP_SEXT, OP_MOV, OP_GEP, OP_LOAD, OP_STORE, OP_ALLOCA, OP_CALL,
    OP_BR, OP_CONDBR, OP_SWITCH, OP_RET, OP_UNREACHABLE, OP_RESUME, OP_LANDINGPAD, OP_SELECT,
    OP_EXTRACTVALUE, OP_INSERTVALUE, OP_FBIN, OP_FCMP, OP_FCAST, OP_FNEG, OP_RMW, OP_CMPXCHG, OP_FENCE, OP_INDIRECTBR
};
struct Op {
    uint8_t code, sub; uint16_t w; int32_t dst, a, b, c; uint32_t n; void *x; const llvm::Instruction *I; u64 imm;
};
typedef void (*BuiltinFn)(struct Engine &, const CallX &, std::vector<Val> &args, Val *ret);
struct Fn {
    llvm::Function *F; uint32_t idx; u64 addr; bool compiled = false; BuiltinFn builtin = nullptr;
    std::vector<Op> ops; std::vector<Val> consts; uint32_t nregs = 0, nargLeaves = 0; bool vararg = false;
    std::string name; bool unknown = false;
};
struct Frame {
    Fn *fn; uint32_t pc, regBase, allocaBase; const Op *callOp; uint32_t epoch; u64 va; u64 savedStack;
};
enum ThStatus : uint8_t { T_RUN, T_BLOCK_MUTEX, T_BLOCK_COND, T_BLOCK_JOIN, T_BLOCK_IDLE, T_DONE };
struct Thread {
    std::vector<Frame> frames; std::vector<Val> regs; std::vector<Obj *> allocas; std::vector<Obj *> gran;
};
struct ThState { ThStatus status; u64 waitAddr, mutexAddr; uint32_t joinTid; bool sched; u64 startFn, startArg, retval; u64 sp; bool timed; uint8_t phase; };
struct ExnInfo { u64 addr, ti, dtor, adjusted; int handlers; bool rethrown; };
// small state copied at every choice point
struct State {
    uint32_t cur; std::vector<ThState> th;
    std::vector<ExnInfo> exns; std::vector<u64> caught;    // per path (single thread of exceptions assumed per throw)
    std::vector<std::pair<u64, int>> mutexes;              // addr -> owner tid
    u64 heapTop; uint32_t nsyms; uint32_t ninputs; uint32_t nnotes; uint32_t preempts; int preemptBound; bool preemptMem; u64 steps; u64 liveHeap;
};
struct Input { std::string name; std::vector<uint32_t> syms; unsigned lo; int64_t base; };
struct TrailE { enum T : uint8_t { NOP, OBJ, ALLOC, KILL, FRAME } t; Obj *o; uint8_t *data, *st; const Expr **sx;
    uint32_t epoch; bool alive; uint32_t tid, fidx; Frame *fr; Val *regs; };
struct Choice { size_t trail; const Expr *other; Model otherModel; State st; Solver::Mark mark; std::vector<uint32_t> nframes;
    bool done; };

struct PathEnd {};
struct Resched {};
struct Viol { char label[160], kind[40], loc[200]; u64 hits; int alts; };
#define MAXALT 16
#define MAXCOV 256
struct Shared {
    SharedStats s;
    volatile int active, stop, incomplete, engineError, nviol, lock; volatile u64 abandoned;
    char errmsg[1024];
    int ncov; char covName[MAXCOV][96]; volatile u64 covHits[MAXCOV];
    Viol viols[32];
    volatile unsigned char fnHit[1 << 17];
    volatile u64 memPeak;
};
extern Shared *sh;

struct Engine {
    llvm::Module *M; const llvm::DataLayout *DL;
    std::vector<Fn *> fns; std::unordered_map<const llvm::Function *, Fn *> fnMap;
    std::unordered_map<const llvm::GlobalValue *, u64> gaddr;
    std::vector<Obj *> gran;          // heap+globals
    std::vector<Thread *> threads;
    State S; State opS;
    Solver sol;
    std::vector<TrailE> trail; std::vector<Choice *> choices;
    uint32_t epoch = 1, epochCtr = 1;
    std::vector<Input> inputs; std::vector<std::string> notes;
    std::map<std::pair<uint32_t, uint32_t>, uint32_t> symIds;
    std::string outdir; int maxWorkers = 8; u64 stepLimit = 50000000; int maxViol = 4; double budget = 600; int preemptBound0 = 2;
    bool verbose = false, concrete = false, traceCalls = false; bool isMaster = true; double tstart; u64 lastSplitCheck = 0;
    std::vector<std::pair<std::string,std::string>> concreteIn;
    Val retTmp; uint32_t opNsyms=0, opNinputs=0, opNnotes=0;

    void init(llvm::Module *m);
    void compile(Fn *f);
    void run(Fn *entry);
    void exec();
    // memory
    Obj *newObj(u64 size, ObjKind k, uint32_t tid, const char *name);
    void killObj(Obj *o);
    void freeObjData(Obj *o);
    Obj *find(u64 addr);
    void save(Obj *o);
    void linkGran(Obj *o, bool on);
    Obj *resolve(Val addr, u64 size, bool write, u64 &off);   // may fork; concretises writes
    Val load(Val addr, unsigned w);
    void store(Val addr, Val v, unsigned w);
    Val loadObj(Obj *o, u64 off, unsigned w);
    void storeObj(Obj *o, u64 off, Val v, unsigned w);
    const Expr *byteAt(Obj *o, u64 off);
    void copyBytes(Obj *d, u64 doff, Obj *s, u64 soff, u64 n);
    std::string cstr(u64 addr);
    // values
    const Expr *toExpr(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }
    Val fromExpr(const Expr *e) { if (isC(e) && e->width <= 64) return CV((u64)e->val); return Val{e, 0}; }
    bool decide(const Expr *c);
    bool decideV(const Val &v) { return v.e ? decide(v.e) : (v.v & 1); }
    u64 concretize(const Val &v, unsigned w);
    void assume(const Expr *c);
    Val inputVal(const char*name,unsigned w,int64_t base); bool nextConcrete(const char*name,std::string&v);
    Val freshSym(const char *name, unsigned w, bool input, int64_t base = 0);
    // control
    bool backtrack();
    void undoTo(size_t n);
    void touch();
    void restoreChoice(Choice *c);
    void trySplit();
    void pushCall(Fn *f, const std::vector<Val> &args, const CallX *cx, const Op *op, u64 va);
    void popFrame();
    void doThrow(u64 exn);
    bool tiMatch(u64 thrown, u64 want, u64 objAddr, int64_t &adj);
    bool typeDerives(u64 ti, u64 want, int64_t off, u64 objAddr, int64_t &adj);
    void takeEdge(Frame &f, const Edge &e);
    [[noreturn]] void violation(const std::string &kind, const std::string &label);
    [[noreturn]] void violationModel(const std::string &kind, const std::string &label, const Model &m);
    void recordViolation(const std::string &kind, const std::string &label, const Model &m);
    [[noreturn]] void engineError(const std::string &msg);
    std::string loc(); std::string stack();
    void writeCex(const std::string &file, const std::string &kind, const std::string &label, const Model &m);
    void cover(const std::string &label);
    void constLeaves(llvm::Constant *c, std::vector<Val> &out);
    void writeConst(Obj *o, u64 off, llvm::Constant *c);
    u64 fnAddr(llvm::Function *F);
    Fn *fnAt(u64 addr);
    // threads
    uint32_t chooseOf(const std::vector<uint32_t>&c,const char*nm); void schedPoint(); void blockAndSwitch(ThStatus st,u64 a,u64 m,uint32_t j,uint8_t phase,bool timed,bool setSched); std::vector<uint32_t> runnableExcept(int x);
    bool preemptible(u64 addr); void addIdle(std::vector<uint32_t> &r);
    void registerBuiltins();
    u64 finalMem = 0;
};
std::map<std::string, BuiltinFn> &builtins();

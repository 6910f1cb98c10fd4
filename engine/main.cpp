#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <fstream>
#include <unistd.h>
#include <iostream>
#include <chrono>
using namespace llvm;
static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
int main(int argc, char **argv) {
    std::string bc, out = "/tmp/mpsym-out", entry = "mp_main", replay, srcroot;
    Engine E;
    for (int i = 1; i < argc; i++) {
        std::string s = argv[i];
        auto val = [&](const char *k) -> const char * { size_t n = strlen(k); return s.compare(0, n, k) == 0 ? s.c_str() + n : nullptr; };
        const char *v;
        if ((v = val("--out="))) out = v; else if ((v = val("--entry="))) entry = v; else if ((v = val("--workers="))) E.maxWorkers = atoi(v);
        else if ((v = val("--budget="))) E.budget = atof(v); else if ((v = val("--steps="))) E.stepLimit = atoll(v); else if ((v = val("--max-viol="))) E.maxViol = atoi(v);
        else if ((v = val("--replay="))) replay = v; else if ((v = val("--srcroot="))) srcroot = v; else if ((v = val("--rlimit="))) E.sol.rlimit = strtoull(v, 0, 10);
        else if (s == "-v") E.verbose = true; else if (s == "--trace") E.traceCalls = true; else bc = s;
    }
    struct rlimit rl = {512ul << 20, 512ul << 20}; setrlimit(RLIMIT_STACK, &rl);
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)sh, 0, sizeof *sh); g_stats = &sh->s; sh->active = 1;
    E.outdir = out;
    LLVMContext ctx; SMDiagnostic err;
    auto t0 = std::chrono::steady_clock::now();
    auto M = parseIRFile(bc, err, ctx);
    if (!M) { err.print("mpsym", errs()); return 2; }
    E.init(M.get());
    if (!replay.empty()) {
        E.concrete = true; E.maxWorkers = 1; std::ifstream in(replay); std::string l;
        while (std::getline(in, l)) { if (l.empty() || l[0] == '#') continue; size_t p = l.find(' '); E.concreteIn.push_back({l.substr(0, p), p == std::string::npos ? "" : l.substr(p + 1)}); }
    }
    Function *ef = M->getFunction(entry);
    if (!ef) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    // entry wrapper: call global constructors then the entry
    {
        auto *W = Function::Create(FunctionType::get(Type::getVoidTy(ctx), false), GlobalValue::ExternalLinkage, "__mp_start", M.get());
        auto *bb = BasicBlock::Create(ctx, "e", W);
        if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<uint64_t, Function *>> cs;
            for (auto &o : ca->operands()) { auto *s = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f}); }
            std::stable_sort(cs.begin(), cs.end(), [](auto &x, auto &y) { return x.first < y.first; });
            for (auto &c : cs) CallInst::Create(c.second->getFunctionType(), c.second, "", bb);
        }
        CallInst::Create(ef->getFunctionType(), ef, "", bb);
        ReturnInst::Create(ctx, bb);
        Fn *f = new Fn; f->F = W; f->idx = E.fns.size(); f->addr = 0x10000 + 16 * f->idx; f->name = "__mp_start"; E.fns.push_back(f); E.fnMap[W] = f;
        E.run(f);
    }
    if (!E.isMaster) _exit(0);
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    std::ofstream o(out + "/result.json");
    auto &s = sh->s;
    o << "{\n \"solver\": " << js(solverName()) << ",\n \"engine_error\": " << (sh->engineError ? js(sh->errmsg) : "null") << ",\n \"abandoned_paths\": " << sh->abandoned << ",\n \"incomplete\": " << (sh->incomplete ? "true" : "false")
      << ",\n \"paths_completed\": " << s.pathsDone << ",\n \"paths_total\": " << s.steps << ",\n \"paths_pruned_by_assumption\": " << s.pathsAssume << ",\n \"forks\": " << s.branchesForked
      << ",\n \"decisions\": " << s.decides << ",\n \"domain_queries\": " << s.domQueries << ",\n \"domain_verdicts_confirmed_by_z3\": " << s.domConfirmed << ",\n \"z3_queries\": " << s.z3queries << ",\n \"z3_sat\": " << s.z3sat << ",\n \"z3_unsat\": " << s.z3unsat
      << ",\n \"z3_unknown\": " << s.z3unknown << ",\n \"z3_seconds\": " << s.z3micros / 1e6 << ",\n \"query_cache_hits\": " << s.cacheHits << ",\n \"assert_queries\": " << s.assertQueries
      << ",\n \"assert_concrete\": " << s.assertConcrete << ",\n \"max_path_steps\": " << s.maxSteps << ",\n \"mem_peak_kb\": " << sh->memPeak << ",\n \"wall_s\": " << wall << ",\n \"covers\": {";
    for (int i = 0; i < sh->ncov; i++) o << (i ? ", " : "") << js(sh->covName[i]) << ": " << sh->covHits[i];
    o << "},\n \"violations\": [";
    for (int i = 0; i < sh->nviol; i++) o << (i ? ",\n  " : "\n  ") << "{\"kind\": " << js(sh->viols[i].kind) << ", \"label\": " << js(sh->viols[i].label) << ", \"loc\": " << js(sh->viols[i].loc) << ", \"cex\": " << js(out + "/cex" + std::to_string(i) + ".txt") << ", \"hits\": " << sh->viols[i].hits << ", \"alts\": " << sh->viols[i].alts << "}";
    o << "],\n \"functions\": [";
    bool first = true;
    for (auto *f : E.fns) if (sh->fnHit[f->idx & 0x1ffff]) if (auto *sp = f->F->getSubprogram()) {
        std::string fn = sp->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
        if (!srcroot.empty() && fn.compare(0, srcroot.size(), srcroot)) continue;
        o << (first ? "" : ", ") << js(f->name); first = false;
    }
    o << "]\n}\n";
    o.close();
    if (E.verbose || sh->engineError) fprintf(stderr, "mpsym: paths=%llu forks=%llu z3=%llu (%.1fs) viol=%d %s %s wall=%.1fs\n", (unsigned long long)s.steps, (unsigned long long)s.branchesForked, (unsigned long long)s.z3queries, s.z3micros / 1e6, sh->nviol, sh->engineError ? sh->errmsg : "", sh->incomplete ? "INCOMPLETE" : "", wall);
    _exit(sh->engineError ? 2 : sh->nviol ? 1 : sh->incomplete ? 3 : 0);
}

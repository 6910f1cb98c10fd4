#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property by symbolic
execution of /repo's current sources (engine: build/mpsym).

exit 0: held on everything explored; exit 1 + VIOLATION line: broken (replayed);
exit 2: the check itself could not decide (build failure, engine error, ...)."""
import argparse, concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time, hashlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MP_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
from specs import SPECS  # noqa: E402

NCPU = os.cpu_count() or 4
YAZ = ["-DYAZ_POSIX_THREADS=1", "-DYAZ_HAVE_XML2=1", "-DYAZ_HAVE_XSLT=1", "-DYAZ_HAVE_EXSLT=1", "-I/usr/include/libxml2"]
CONFIG = """#define HAVE_DLFCN_H 1
#define HAVE_DL_SUPPORT 1
#define HAVE_GETRLIMIT 1
#define HAVE_LOCALTIME_R 1
#define HAVE_SYS_SELECT_H 1
#define HAVE_SYS_SOCKET_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "metaproxy"
#define VERSION "1.21.0"
#define VERSION_SHA1 ""
"""
BCFLAGS = ["-std=gnu++17", "-O1", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-gline-tables-only", "-fno-pic", "-w", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_GTHREAD_USE_WEAK=0",
           "-DBOOST_REGEX_USE_C_LOCALE", "-DMP_ENGINE=1", "-mno-sse4.1", "-DBOOST_DISABLE_ASSERTS_X", "-fno-threadsafe-statics"]


class Trouble(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)


def must(cmd, timeout=600):
    r = sh(cmd, timeout)
    if r.returncode:
        raise Trouble("command failed: %s\n%s" % (" ".join(cmd[:1] + cmd[-3:]), r.stdout[:1500]))
    return r.stdout


def incs(work, part, native):
    d = [work]
    for s in part.get("shims", []):
        d.append(os.path.join(V, "shim", s))
    d += [os.path.join(V, "rt"), os.path.join(V, "harness"), os.path.join(REPO, "include"), os.path.join(REPO, "src")]
    return ["-I" + x for x in d]


def setup():
    """engine and models; rebuilt only when their sources changed"""
    os.makedirs(B, exist_ok=True)
    lock = os.path.join(B, ".lock")
    import fcntl
    with open(lock, "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        r = sh(["make", "-j%d" % NCPU, "-C", os.path.join(V, "engine"), "B=" + B])
        if r.returncode:
            raise Trouble("engine build failed\n" + r.stdout[-4000:])
        jobs = []
        md = os.path.join(V, "models")
        for f in sorted(os.listdir(md)):
            src = os.path.join(md, f)
            dst = os.path.join(B, f.rsplit(".", 1)[0] + ".bc")
            if f.endswith(".h"):
                continue
            deps = [src] + [os.path.join(md, h) for h in os.listdir(md) if h.endswith(".h")]
            if os.path.exists(dst) and os.path.getmtime(dst) >= max(os.path.getmtime(x) for x in deps):
                continue
            if f.endswith(".c"):
                jobs.append(["clang", "-O1", "-emit-llvm", "-c", "-fno-builtin", "-ffreestanding", "-fno-vectorize", "-fno-slp-vectorize",
                             "-fno-unroll-loops", "-fno-pic", "-w", "-U_FORTIFY_SOURCE", "-gline-tables-only"] + YAZ + ["-I" + os.path.join(V, "rt"), src, "-o", dst])
            elif f.endswith(".cpp"):
                jobs.append(["clang++"] + BCFLAGS + YAZ + ["-I" + os.path.join(V, "rt"), src, "-o", dst])
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(must, jobs))


SHARED = {}    # objects of sources that several parts of one run use


def compile_one(cmd, src, o, work):
    if src.startswith(os.path.join(V, "harness")):
        return must(cmd + [src, "-o", o])
    key = (src, tuple(x.replace(work, "") for x in cmd))
    if key not in SHARED:
        d = SHARED["dir"]
        must(cmd + [src, "-o", o])
        c = os.path.join(d, "%d-%s" % (abs(hash(key)), os.path.basename(o)))
        shutil.copyfile(o, c)
        SHARED[key] = c
    else:
        shutil.copyfile(SHARED[key], o)


def compile_part(part, tier, work, retry=False):
    defs = list(part.get("defs", [])) + list(part.get(tier, []))
    with open(os.path.join(work, "config.hpp"), "w") as f:
        f.write(CONFIG)
    jobs, outs = [], []
    files = [os.path.join(V, "harness", part["harness"])] + [os.path.join(REPO, "src", s + ".cpp") for s in part.get("srcs", [])] + \
            [os.path.join(V, "shim", s) for s in part.get("extra", [])]
    for f in files:
        o = os.path.join(work, os.path.basename(f).rsplit(".", 1)[0] + ("_h" if "/harness/" in f else "") + ".bc")
        jobs.append((["clang++"] + BCFLAGS + YAZ + incs(work, part, False) + (defs if not f.startswith(REPO) else part.get("srcdefs", [])), f, o, work))
        outs.append(o)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: compile_one(*j), jobs))
    linked = os.path.join(work, "all.bc")
    models = ["cxx", "cxxio", "libc"] + part.get("models", [])
    must(["llvm-link-18", "-o", os.path.join(work, "prog.bc")] + outs)
    must(["llvm-link-18", "-o", os.path.join(work, "models.bc")] + [os.path.join(B, m + ".bc") for m in models])
    # a harness may define a modelled function itself
    must(["llvm-link-18", "-o", linked, os.path.join(work, "models.bc"), "--override=" + os.path.join(work, "prog.bc")])
    final = os.path.join(work, "final.bc")
    must(["opt-18", "-passes=internalize,globaldce,scalarizer", "-internalize-public-api-list=mp_main", linked, "-o", final])
    if not retry:
        more = definers(part, final, work)
        if more:   # code moved to a file this part does not list yet
            part["srcs"] = part["srcs"] + more
            part["shims"] = part.get("shims") or ["."]
            return compile_part(part, tier, work, True)
    return final


def undefined(bc, only="U"):
    return set(l.split()[-1] for l in must(["llvm-nm-18", "--undefined-only" if only == "U" else "--defined-only", bc]).splitlines() if l.split() and "metaproxy_1" in l)


def definers(part, final, work):
    """sources of /repo/src that define what the linked program still lacks"""
    need = undefined(final) - set(part.get("undef_ok", []))
    if not need:
        return []
    have = set(part["srcs"]) | {"metaproxy_prog", "tstdl"}
    cand = [f[:-4] for f in sorted(os.listdir(os.path.join(REPO, "src"))) if f.endswith(".cpp") and not f.startswith("test_") and f[:-4] not in have]
    p2 = dict(part, shims=part.get("shims") or ["."])

    def comp(c):
        o = os.path.join(work, "cand_" + c + ".bc")
        r = sh(["clang++"] + BCFLAGS + YAZ + incs(work, p2, False) + [os.path.join(REPO, "src", c + ".cpp"), "-o", o])
        return c if r.returncode == 0 and undefined(o, "D") & need else None
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        return [c for c in ex.map(comp, cand) if c]


NATIVE_LIBS = ["-lyaz", "-lxml2", "-lxslt", "-lexslt", "-lboost_regex", "-lboost_thread", "-lboost_system", "-lpthread", "-ldl"]


def native_build(part, tier, work, asan=True):
    exe = os.path.join(work, "replay")
    defs = list(part.get("defs", [])) + list(part.get(tier, []))
    files = [os.path.join(V, "harness", part["harness"])] + [os.path.join(REPO, "src", s + ".cpp") for s in part.get("srcs", [])] + \
            [os.path.join(V, "rt", "native.cpp")] + [os.path.join(V, "shim", s) for s in part.get("extra", []) + part.get("native_extra", [])]
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if asan else []
    if part.get("fno_sanitize"):
        san += ["-fno-sanitize=" + part["fno_sanitize"]]
    base = ["g++", "-std=gnu++17", "-O1", "-g", "-w", "-c", "-ftrivial-auto-var-init=pattern"] + san + YAZ + incs(work, part, True)
    jobs, outs = [], []
    for f in files:
        o = os.path.join(work, os.path.basename(f).rsplit(".", 1)[0] + ("_h" if "/harness/" in f else "") + ".o")
        jobs.append((base + (defs if not f.startswith(REPO) else part.get("srcdefs", [])), f, o, work))
        outs.append(o)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: compile_one(*j), jobs))
    must(["g++"] + san + ["-o", exe] + outs + NATIVE_LIBS)
    return exe


def native_run(exe, cex, timeout=20, scratch=None):
    env = dict(os.environ, MP_REPLAY=cex, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="exitcode=98:print_stacktrace=1")
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env, cwd=scratch or os.path.dirname(exe))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return "timeout", out if isinstance(out, str) else out.decode(errors="replace")


def reproduced(v, rc, out):
    if v["kind"] == "assert":
        return rc == 77 and ("MP-VIOLATION assert " + v["label"]) in out
    if v["kind"] == "hang":
        return rc == "timeout"
    if rc == 3 or "MP-REPLAY-DIVERGED" in out:
        return False
    return rc not in (0, 3)   # sanitizer report, abort, signal or a failed assertion


def known_findings():
    p = os.path.join(V, "KNOWN_FINDINGS.jsonl")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l[0] == "{":
                e = json.loads(l)
                if e.get("status") == "known":
                    res.append(e)
    return res


def run_part(pid, i, part, tier, budget, keep):
    work = tempfile.mkdtemp(prefix="mpsym-%s-" % pid)
    pool = None
    try:
        t0 = time.time()
        part = dict(part)
        bc = compile_part(part, tier, work)
        tc = time.time() - t0
        out = os.path.join(work, "out")
        os.makedirs(out)
        opts = list(part.get("opts", [])) + list(part.get(tier + "_opts", []))
        cmd = [os.path.join(B, "mpsym"), bc, "--out=" + out, "--budget=%d" % budget, "--workers=%d" % NCPU, "--srcroot=" + REPO] + opts
        pool = concurrent.futures.ThreadPoolExecutor(1)
        nat = pool.submit(native_build, part, tier, work) if part.get("replay") != "engine" else None
        r = sh(cmd, timeout=budget + 120)
        rf = os.path.join(out, "result.json")
        if not os.path.exists(rf):
            raise Trouble("engine died on part %d (%s)\n%s" % (i, part["harness"], r.stdout[-3000:]))
        res = json.load(open(rf))
        res["compile_s"] = round(tc, 2)
        res["name"] = part.get("name", part["harness"])
        viol, unconfirmed, known = [], [], []
        if res["violations"]:
            kf = known_findings()
            for n, v in enumerate(res["violations"]):
                k = [e for e in kf if e["property"] == pid and e.get("kind") == v["kind"] and e.get("label") == v["label"]
                     and (not e.get("loc") or v["loc"].endswith(e["loc"]))]
                if part.get("replay") == "engine":
                    rr = sh([os.path.join(B, "mpsym"), bc, "--out=" + out, "--replay=" + v["cex"], "--budget=60"] + opts, timeout=120)
                    res2 = json.load(open(rf))
                    ok = any(x["kind"] == v["kind"] and x["label"] == v["label"] for x in res2["violations"])
                    log = rr.stdout
                else:
                    exe = nat.result()
                    for alt in [v["cex"]] + [v["cex"][:-4] + "_%d.txt" % q for q in range(v["alts"])]:
                        rc, log = native_run(exe, alt, 20)
                        ok = reproduced(v, rc, log)
                        log = "exit %s\n%s" % (rc, log)
                        if ok:
                            v["cex"] = alt
                            break
                rp = os.path.join(V, "evidence", "replay-%s-%d-%d.txt" % (pid, i, n))
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, "w") as f:
                    f.write("# property %s part %s (%s)\n# %s: %s\n# at %s\n" % (pid, res["name"], part["harness"], v["kind"], v["label"], v["loc"]))
                    f.write(open(v["cex"], errors="replace").read())
                    f.write("\n# --- replay on the real code (%s):\n" % ("confirmed" if ok else "NOT reproduced"))
                    f.write("".join("# " + l + "\n" for l in log[-6000:].splitlines()))
                if ok and k:
                    known.append((v, k[0]))
                elif ok:
                    viol.append((v, rp))
                else:
                    unconfirmed.append((v, rp))
        missing = [c for c in part.get("covers", []) if c not in res["covers"]]
        if res["engine_error"] and not viol and (missing or unconfirmed):
            raise Trouble("engine error on part %s: %s" % (res["name"], res["engine_error"]))
        res["missing_covers"] = missing
        res["samples"] = []
        for j, c in enumerate(res["covers"]):
            wf = os.path.join(out, "cov%d.txt" % j)
            if os.path.exists(wf) and len(res["samples"]) < 2:
                res["samples"].append({"part": res["name"], "reaches": c, "inputs": [l.strip() for l in open(wf, errors="replace") if l.strip() and l[0] != "#"][:40]})
        if not viol and part.get("replay") != "engine":
            # witnesses of the reachability labels also run on the native build
            exe = nat.result()
            okc = 0
            for j, c in enumerate(res["covers"]):
                wf = os.path.join(out, "cov%d.txt" % j)
                if os.path.exists(wf):
                    rc, log = native_run(exe, wf, 30)
                    if rc == 0:
                        okc += 1
                    else:
                        res.setdefault("witness_mismatch", []).append({"cover": c, "rc": str(rc), "log": log[-400:]})
            res["witnesses_replayed_natively"] = okc
        return res, viol, unconfirmed, known
    finally:
        if pool:
            pool.shutdown(wait=True)
        if keep:
            print("work dir", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--part", type=int)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    t0 = time.time()
    if a.prop == "setup":
        try:
            setup()
        except Trouble as e:
            print(e)
            return 2
        return 0
    spec = SPECS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    total = a.budget or (720 if tier == "quick" else 6 * 3600)
    rc = 0
    for f in (os.listdir(os.path.join(V, "evidence")) if os.path.isdir(os.path.join(V, "evidence")) else []):
        if f.startswith("replay-%s-" % a.prop):
            os.unlink(os.path.join(V, "evidence", f))
    parts = []
    viols, unconf, known = [], [], []
    err = None
    SHARED["dir"] = tempfile.mkdtemp(prefix="mpsym-shared-")
    try:
        setup()
        todo = [(i, p) for i, p in enumerate(spec["parts"]) if (a.part is None or i == a.part) and (tier == "thorough" or not p.get("thorough_only"))]
        for n, (i, p) in enumerate(todo):
            left = total - (time.time() - t0)
            res, v, u, k = run_part(a.prop, i, p, tier, max(20, left), a.keep)
            parts.append(res)
            viols += v
            unconf += u
            known += k
            if v:
                break
    except Trouble as e:
        err = str(e)
    except subprocess.TimeoutExpired as e:
        err = "timeout: %s" % e
    if SHARED.get("dir"):
        shutil.rmtree(SHARED["dir"], ignore_errors=True)
    wall = time.time() - t0
    for v, rp in viols:
        print("%s: %s at %s" % (v["kind"], v["label"], v["loc"]))
    if viols:
        print("VIOLATION property=%s replay=%s" % (a.prop, viols[0][1]))
        rc = 1
    else:
        for v, e in known:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, e["what"]))
        for v, rp in unconf:
            print("UNCONFIRMED %s: %s at %s (%s)" % (v["kind"], v["label"], v["loc"], rp))
        miss = [(p["name"], c) for p in parts for c in p["missing_covers"]]
        if err:
            print("ERROR " + err)
            rc = 2
        elif unconf:
            rc = 2
        elif miss and not any(p["incomplete"] for p in parts):
            print("ERROR vacuous: not reached: %s" % miss)
            rc = 2
    for p in parts:
        for m in p.get("witness_mismatch", []):
            print("note: witness for '%s' of '%s' behaves differently natively: rc=%s %s" % (m["cover"], p["name"], m["rc"], m["log"][-200:]))
        if p["abandoned_paths"]:
            print("note: %d of %d paths of '%s' were abandoned: %s" % (p["abandoned_paths"], p["paths_total"], p["name"], (p["engine_error"] or "")[:300]))
            p["incomplete"] = True
    inc = [p["name"] for p in parts if p["incomplete"]]
    if inc:
        print("note: budget ended before the stated bound was exhausted in: %s" % ", ".join(inc))
    ev = {
        "property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec.get("level", "model_checking"), "wall_s": round(wall, 2),
        "coverage": {
            "states": sum(p["paths_total"] for p in parts), "transitions": sum(p["forks"] for p in parts),
            "traces_validated_against_impl": sum(p.get("witnesses_replayed_natively") or 0 for p in parts),
            "samples": [x for p in parts for x in p.get("samples", [])][:12],
            "exhaustive": not inc and not err and not viols,
            "meaning": "states: symbolic paths (input classes) explored; transitions: feasible branch splits; traces: inputs synthesised by the solver for the reachability labels and replayed on a native sanitizer build of the same sources",
            "method": "symbolic execution of LLVM bitcode compiled from /repo's working tree on this run; branch feasibility and assertions decided by Z3 (QF_BV); constraints over one byte are first decided on the exact set of its values, and Z3 confirms each distinct such verdict",
            "bounds": spec.get("bounds", {}).get(tier, spec.get("bounds", "")) if isinstance(spec.get("bounds"), dict) else spec.get("bounds", ""),
            "outside_bounds": spec.get("outside", ""),
            "functions_encoded": sorted(set(f for p in parts for f in p["functions"]))[:400],
            "queries": {"z3": sum(p["z3_queries"] for p in parts), "z3_sat": sum(p["z3_sat"] for p in parts), "z3_unsat": sum(p["z3_unsat"] for p in parts),
                        "byte_domain": sum(p["domain_queries"] for p in parts), "byte_domain_verdicts_confirmed_by_z3": sum(p["domain_verdicts_confirmed_by_z3"] for p in parts), "cached": sum(p["query_cache_hits"] for p in parts),
                        "assertions_by_z3": sum(p["assert_queries"] for p in parts), "assertions_decided_by_path": sum(p["assert_concrete"] for p in parts)},
            "solver_seconds": round(sum(p["z3_seconds"] for p in parts), 3),
            "parts": [{k: p.get(k) for k in ("name", "paths_total", "paths_completed", "paths_pruned_by_assumption", "forks", "z3_queries", "z3_seconds", "max_path_steps", "mem_peak_kb",
                                             "wall_s", "compile_s", "incomplete", "abandoned_paths", "engine_error", "covers", "missing_covers", "witnesses_replayed_natively", "witness_mismatch")} for p in parts],
        },
        "result": "violation" if viols else "error" if rc == 2 else "held",
        "violations": len(viols), "violation_list": [{"kind": v["kind"], "label": v["label"], "loc": v["loc"], "replay": rp} for v, rp in viols],
        "assumptions": spec.get("assumes") if isinstance(spec.get("assumes"), list) else [spec["assumes"]] if spec.get("assumes") else [],
        "known_findings": [e["what"] for v, e in known],
        "unconfirmed": [{"kind": v["kind"], "label": v["label"], "loc": v["loc"]} for v, rp in unconf],
    }
    if err:
        ev["error"] = err[-2000:]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print("OK %s (%s): %d paths, %d Z3 queries, %.1f s" % (a.prop, tier, ev["coverage"]["states"], ev["coverage"]["queries"]["z3"], wall))
    return rc


if __name__ == "__main__":
    sys.exit(main())

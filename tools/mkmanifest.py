#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py, properties.jsonl and tools/na.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS
from na import NA
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in SPECS:
        assert p in NA, p
        continue
    s = SPECS[p]
    b = s["bounds"].get("quick") if isinstance(s["bounds"], dict) else s["bounds"]
    note = "Bounded: holds for every value within the stated bounds. Quick bounds: %s." % (b or "see specs.py")
    if s["outside"]: note += " Outside: %s." % s["outside"]
    note += " Trusts: clang's LLVM IR, the mpsym engine, Z3, and the models of libc/libstdc++/YAZ/libxml2 in /verif/models (solver witnesses are replayed on a native build with the real libraries)."
    if s["assumes"]: note += " Assumes: %s." % ("; ".join(s["assumes"]) if isinstance(s["assumes"], list) else s["assumes"])
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                       technique="symbolic execution of the compiled sources (LLVM IR) with SMT (Z3) deciding branches and assertions", level=s["level"], level_note=note))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NA.items() if p in props and p not in SPECS],
         notes="Engine: engine/ (mpsym). Harnesses: harness/. Driver: check.py. No hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(m["not_applicable"]), "not applicable")

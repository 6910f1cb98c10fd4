#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property (from properties.jsonl, specs.py, evidence/) + tools/design_tail.md."""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(T, "..")
sys.path[:0] = [V, T]
from specs import SPECS
from na import NA
from design_notes import NOTES
o = [open(T + "/design_head.md").read().rstrip(), "\n## Properties\n"]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; o.append("### %s %s\n" % (i, p["title"]))
    if i not in SPECS:
        o.append("Not applicable: %s\n" % NA[i]); continue
    s = SPECS[i]
    for q in s["parts"]:
        src = ", ".join("src/%s.cpp" % x for x in q["srcs"])
        o.append("- part *%s*: `harness/%s` over %s; models %s%s" % (q["name"], q["harness"], src, ", ".join(q.get("models", [])) or "none of libraries", "; counterexamples replayed by the engine on the recorded schedule" if q.get("replay") == "engine" else "; counterexamples replayed natively"))
    b = s["bounds"]
    for k in ("quick", "thorough"):
        if isinstance(b, dict) and b.get(k): o.append("- bounds (%s): %s" % (k, b[k]))
    if s["outside"]: o.append("- outside: %s" % s["outside"])
    if s["assumes"]: o.append("- assumed: %s" % (s["assumes"] if isinstance(s["assumes"], str) else "; ".join(s["assumes"])))
    n = NOTES.get(i)
    if n: o.append("- oracle and reach: %s" % n)
    o.append("")
import glob
rows = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); rows.append("| %s | %s | %s | check %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/"), m["property"]))
o.append(open(T + "/design_tail.md").read().rstrip().replace("SEEDTABLE", "\n".join(rows)))
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")

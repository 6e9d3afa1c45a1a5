#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = {"C11": "plus exhaustive scheduling of every interleaving within the preemption bound", "C12": "plus exhaustive scheduling of every interleaving within the preemption bound"}
props = [json.loads(l) for l in open(H + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    hs = sorted(glob.glob(H + "/harness/%s*.cpp" % i.lower()))
    if i in NA or not hs:
        na.append({"property": i, "reason": NA.get(i, "no harness yet")})
        continue
    b = []
    for h in hs:
        for l in open(h):
            if l.startswith("//@bounds "):
                b.append(l[10:].strip())
    checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                   "technique": "symbolic execution of the library's LLVM IR with Z3 (own engine), differential against a reference model, counterexamples replayed on compiled code" + ("; " + NOTE[i] if i in NOTE else ""),
                   "level": "model_checking",
                   "level_note": ("Every input, choice and (where relevant) schedule within the bounds is covered by an explored symbolic path; nothing is claimed outside them. Bounds: " + " | ".join(b))[:1800] +
                   " Trusts the engine in /verif/engine, clang's IR and Z3; sampled paths are replayed natively and must agree."})
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses use the public API. Findings: known_findings.json and DESIGN.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: every property with a harness is claimed, the others are listed with a reason."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
REASONS = {
    "C27": "The subject is compile-time metaprogramming: the quantifier ranges over types and programs, the instantiated code contains no run-time values, so there is nothing to execute symbolically and no SMT query whose verdict would decide it. The consequences visible at run time (overload selection, forwarding) are claimed under C14 and C25.",
}
NOTE = ("Bounded symbolic execution of the real headers (LLVM IR of clang 18 at -O1, regenerated from /repo on every run): every path within the stated bounds, "
        "every obligation decided by z3 over all values; counterexamples are replayed on a native ASan/UBSan build before they are reported, sample paths are replayed to validate the engine. "
        "Trusted: clang's IR, z3, engine/symex.cpp, rt/rt.cpp (stand-ins for the parts of libstdc++ that exist only as binaries). "
        "Bounds: %s")
TECH = "symbolic execution of LLVM IR with z3 (all values within bounds), native replay"
checks, na = [], []
hd = os.path.join(here, "harness")
for p in props:
    fs = [f for f in sorted(os.listdir(hd)) if re.fullmatch(p["id"] + r"[a-z]?\.cpp", f)]
    if not fs:
        na.append({"property": p["id"], "reason": REASONS.get(p["id"], "no check built yet")})
        continue
    b = []
    for f in fs:
        b += re.findall(r"^// BOUNDS?: (.*)$", open(os.path.join(hd, f)).read(), re.M)
    tech = TECH
    if p["id"] == "C26":
        tech = "symbolic execution of LLVM IR with z3, all interleavings at synchronisation points, happens-before race detection"
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": tech, "level": "model_checking", "level_note": NOTE % "; ".join(b)})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Defects repaired by fix: commits are recorded in known_findings.txt. DESIGN.md describes the machinery."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
"""Development aid: makes /verif/seeded/<id>/ from a description file (python dict) on stdin:
   id, property, needs, breaks, edits=[(file, old, new)], demo (C++ text), flags"""
import json, os, sys, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(sys.stdin.read(), ns)
for b in ns["bugs"]:
    d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkbug")
    diff = ""
    files = {}
    for f, o, n in b["edits"]:
        p = "include/mimic++/" + f
        if p not in files: files[p] = [open("/repo/" + p).read()] * 2
        assert files[p][1].count(o) == 1, (b["id"], f, o, files[p][1].count(o))
        files[p][1] = files[p][1].replace(o, n)
    for p, (a, c) in files.items():
        for x, y in (("a", a), ("b", c)):
            q = os.path.join(t, x, p); os.makedirs(os.path.dirname(q), exist_ok=True); open(q, "w").write(y)
        diff += subprocess.run(["diff", "-u", "a/" + p, "b/" + p], cwd=t, stdout=subprocess.PIPE, text=True).stdout
    diff = "\n".join(l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in diff.split("\n"))
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(b["demo"].lstrip())
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: the property holds for this program; nonzero: it does not
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
scratch=$(mktemp -d)
trap 'rm -rf -- "$scratch"' EXIT
g++ -std=c++20 -O1 -g -w -I"$repo/include" "$here/demo.cpp" -o "$scratch/demo" -pthread %s || exit 3
timeout 60 "$scratch/demo"
""" % b.get("flags", ""))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
    print(b["id"])

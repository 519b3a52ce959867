#!/usr/bin/env python3
"""Development aid: confirms planted changes in a scratch copy (/tmp/bug): the patch applies, builds, passes the
stable tests, its demo distinguishes, and (optionally) which checks see it.
usage: trybug.py ID[,ID..] [--check C01,C02] [--nocheck] [--notest]"""
import json, os, subprocess, sys, time
ids = sys.argv[1].split(",")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/bug/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs("/tmp/bug", exist_ok=True)
r = sh("rsync -a --delete --exclude _build /repo/ %s/ 2>/dev/null || (mkdir -p %s && cd /repo && tar --exclude=_build -cf - . | tar -xf - -C %s)" % (S, S, S))
checks = None
if "--check" in sys.argv: checks = sys.argv[sys.argv.index("--check")+1].split(",")
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "--notest" not in sys.argv else None
def demo(d):
    # demos use /repo by default; REPO overrides for development
    return sh("cd %s && REPO=%s timeout 300 bash %s/demo.sh" % (S, S, d))
for i in ids:
    d = os.path.join(V, "seeded", i)
    m = json.load(open(d + "/meta.json"))
    sh("git -C %s checkout -- ." % S)
    r = demo(d); b = r.returncode; bo = r.stdout
    r = sh("git -C %s apply %s/patch.diff" % (S, d))
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); continue
    r = demo(d); p = r.returncode
    if b != 0: print(bo[-1500:])
    ok = b == 0 and p != 0
    t = "-"
    if base is not None:
        r = sh("export CC=gcc CXX=g++; cmake -S /opt/vp/harness -B /tmp/bug/build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DREPO=%s >/dev/null && cmake --build /tmp/bug/build -j 8 && ctest --test-dir /tmp/bug/build -j 8 --timeout 300" % S)
        t = "tests ok" if r.returncode == 0 else "TESTS FAIL\n" + r.stdout[-1200:]
    res = []
    if "--nocheck" not in sys.argv:
        for c in checks or [m["property"]]:
            t0 = time.time()
            r = sh("python3 %s/check.py %s --src %s" % (V, c, S))
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            res.append("%s rc=%d %s %.0fs" % (c, r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed: " + r.stdout[-600:], time.time() - t0))
    print(i, "demo base=%d patched=%d %s" % (b, p, "ok" if ok else "BAD"), t, res, flush=True)
    if p != 0 and "-v" in sys.argv: print(r.stdout[-500:])
sh("git -C %s checkout -- ." % S)

#!/usr/bin/env python3
"""Decides one property of mimic++ by symbolic execution of the real headers.

usage: check.py <ID> [--tier quick|thorough] [--only entry[,entry]] [--keep] [--src /repo] [-v]

  1. compiles harness/<ID>*.cpp (which include /repo/include) to LLVM bitcode, links the runtime,
  2. runs engine/symex on every HARNESS entry: all paths, every obligation discharged by z3,
  3. replays each counterexample and the sample paths on a native sanitizer build of the same code,
  4. writes evidence/<ID>.json.
exit 0: property holds within the bounds; 1: VIOLATION; 2: error of the check.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "clang++-18"
LINK = "llvm-link-18"
OPT = "opt-18"
UBSAN = "signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bounds,bool,enum"
BC_FLAGS = ["-O1", "-g", "-std=c++20", "-fno-vectorize", "-fno-slp-vectorize", "-fno-threadsafe-statics",
            "-D_GLIBCXX_ASSERTIONS", "-DMIMICPP_VERIF_SYMEX", "-fsanitize=" + UBSAN, "-fsanitize-trap=all", "-w"]
NATIVE_FLAGS = ["-O1", "-g1", "-std=c++20", "-DSYM_NATIVE", "-D__NO_CTYPE", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
                "-fno-sanitize-recover=all", "-w", "-pthread"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def uniq(it):
    return list(dict.fromkeys(it))


class CheckError(Exception):
    pass


def ensure_tools():
    b = os.path.join(HERE, "build")
    os.makedirs(b, exist_ok=True)
    r = sh(["make", "-C", os.path.join(HERE, "engine"), "LLVM_CONFIG=llvm-config-18"])
    if r.returncode:
        raise CheckError("engine build failed:\n" + r.stdout[-3000:])
    rt, src = os.path.join(b, "rt.bc"), os.path.join(HERE, "rt", "rt.cpp")
    deps = [src, os.path.join(HERE, "rt", "pre.hpp"), os.path.join(HERE, "rt", "sym.hpp")]
    if not os.path.exists(rt) or any(os.path.getmtime(rt) < os.path.getmtime(d) for d in deps):
        tmp = rt + ".%d" % os.getpid()
        r = sh([CLANG, "-O1", "-g", "-std=c++20", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-w",
                "-fno-threadsafe-statics", "-I" + os.path.join(HERE, "rt"), "-emit-llvm", "-c", src, "-o", tmp])
        if r.returncode:
            raise CheckError("runtime build failed:\n" + r.stdout[-3000:])
        os.replace(tmp, rt)
    return os.path.join(b, "symex"), rt


def split_file(path, parts, work):
    """Splits the HARNESS blocks of one file over several translation units which keep everything else and all line numbers."""
    lines = open(path).read().split("\n")
    blocks, i = [], 0
    while i < len(lines):
        if lines[i].startswith("HARNESS("):
            j = i
            while lines[j] != "}" and not (j == i and lines[j].rstrip().endswith("}")):
                j += 1
            blocks.append((i, j))
            i = j
        i += 1
    n = min(parts, len(blocks))
    if n <= 1:
        return [(path, None)]
    load = [0] * n
    owner = {}
    for b in sorted(blocks, key=lambda b: b[0] - b[1]):
        k = load.index(min(load))
        load[k] += b[1] - b[0] + 5
        owner[b] = k
    res = []
    base = os.path.splitext(os.path.basename(path))[0]
    for k in range(n):
        out = list(lines)
        for b in blocks:
            if owner[b] != k:
                for x in range(b[0], b[1] + 1):
                    out[x] = ""
        f = os.path.join(work, "%s_%d.cpp" % (base, k))
        with open(f, "w") as o:
            o.write('#line 1 "%s"\n' % path + "\n".join(out))
        res.append((f, k))
    return res


class Unit:
    """one harness source file, or a part of it"""

    def __init__(self, path, orig=None, part=None, variant=None, flags=()):
        self.path = path
        self.orig = orig or path
        self.file = os.path.splitext(os.path.basename(self.orig))[0]
        self.name = os.path.splitext(os.path.basename(path))[0]
        t = open(path).read()
        self.text = t
        self.entries = re.findall(r"^HARNESS\((\w+)\)", t, re.M)
        self.bounds = re.findall(r"^// BOUNDS?: (.*)$", t, re.M)
        self.outside = re.findall(r"^// OUTSIDE: (.*)$", t, re.M)
        self.assumes = re.findall(r"^// ASSUMES?: (.*)$", t, re.M)
        self.opts = {}
        for m in re.finditer(r"^// OPTIONS (\S+): (.*)$", t, re.M):
            self.opts[m.group(1)] = m.group(2).split()
        if variant:  # the same entries once more, built in another configuration
            self.name += "." + variant
        self.flags = list(flags)
        for m in re.finditer(r"^// FLAGS: (.*)$", t, re.M):
            self.flags += m.group(1).split()
        self.second = [os.path.join(HERE, "harness", f) for f in re.findall(r"^// SECOND: (\S+)$", t, re.M)]  # further translation units
        self.broken = None
        self.labels = set(re.findall(r'sym::reach\("([^"]+)"\)', t))
        self.heapdir = "__sym_heap_dir" in t
        self.threads = "__sym_thread" in t
        self.nosamples = "// NO-SAMPLES" in t

    def second_args(self):
        return ["-x", "c++"] + self.second if self.second else []


def reduced(build, u, *args):
    """builds a unit; if that fails, without the parts that only some compilable programs need (SYM_REDUCED), so that a
    change which breaks those still gets an answer about the rest"""
    try:
        return build(u, *args)
    except CheckError as x:
        if "SYM_REDUCED" not in u.text:
            raise
        try:
            r = build(u, *args, extra=["-DSYM_REDUCED"])
        except CheckError:
            raise x
        u.broken = str(x)
        return r


def build_bc(u, work, rt, src, tier, extra=()):
    bc = os.path.join(work, u.name + ".bc")
    fl = u.flags + (["-DTHOROUGH=1"] if tier == "thorough" else ["-DTHOROUGH=0"]) + list(extra)
    inc = ["-I" + os.path.join(src, "include"), "-I" + os.path.join(HERE, "rt"), "-I" + os.path.join(HERE, "harness")]
    r = sh([CLANG] + BC_FLAGS + fl + inc + ["-emit-llvm", "-c", u.path, "-o", bc])
    if r.returncode:
        raise CheckError("harness %s does not compile against the current tree:\n%s" % (u.name, r.stdout[-4000:]))
    bcs = [bc]
    for k, path in enumerate(u.second):
        bcs.append(os.path.join(work, "%s.%d.bc" % (u.name, k)))
        r = sh([CLANG] + BC_FLAGS + fl + inc + ["-emit-llvm", "-c", "-x", "c++", path, "-o", bcs[-1]])
        if r.returncode:
            raise CheckError("harness %s does not compile against the current tree:\n%s" % (path, r.stdout[-4000:]))
    l = os.path.join(work, u.name + ".l.bc")
    r = sh([LINK] + bcs + [rt, "-o", l])
    if r.returncode:
        raise CheckError("link: " + r.stdout[-3000:])
    keep = ",".join(["harness_" + e for e in u.entries] + ["__libc_single_threaded"])
    out = os.path.join(work, u.name + ".L.bc")
    r = sh([OPT, "-passes=internalize,globaldce", "-internalize-public-api-list=" + keep, l, "-o", out])
    if r.returncode:
        raise CheckError("opt: " + r.stdout[-3000:])
    for b in bcs:
        os.unlink(b)
    os.unlink(l)
    return out


def build_native(u, work, src, tier, extra=()):
    exe = os.path.join(work, u.name + ".native")
    fl = u.flags + (["-DTHOROUGH=1"] if tier == "thorough" else ["-DTHOROUGH=0"]) + list(extra)
    if u.heapdir:
        fl.append("-DSYM_HEAPDIR")
    inc = ["-I" + os.path.join(src, "include"), "-I" + os.path.join(HERE, "rt"), "-I" + os.path.join(HERE, "harness")]
    r = sh(["g++"] + NATIVE_FLAGS + fl + inc + u.second_args() + [u.path, os.path.join(HERE, "rt", "native.cpp"), "-o", exe])
    if r.returncode:
        raise CheckError("native build of %s failed:\n%s" % (u.name, r.stdout[-4000:]))
    if u.threads:
        exe2 = os.path.join(work, u.name + ".tsan")
        nf = [f for f in NATIVE_FLAGS if not f.startswith("-fsanitize")] + ["-fsanitize=thread"]
        r = sh(["g++"] + nf + fl + inc + u.second_args() + [u.path, os.path.join(HERE, "rt", "native.cpp"), "-o", exe2])
        if r.returncode:
            raise CheckError("native tsan build of %s failed:\n%s" % (u.name, r.stdout[-4000:]))
    return exe


def run_native(exe, entry, inputs, work, tag, limit=60):
    f = "%s.in.%s.%s" % (exe, entry, tag)
    with open(f, "w") as o:
        for n, w, v in inputs:
            o.write("%s %d %d\n" % (n, w, v))
    env = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:alloc_dealloc_mismatch=1:detect_stack_use_after_return=1:abort_on_error=0",
               UBSAN_OPTIONS="exitcode=99:halt_on_error=1:print_stacktrace=1", TSAN_OPTIONS="exitcode=99:halt_on_error=1")
    try:
        p = subprocess.run([exe, entry, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=limit)
        out = p.stdout.decode("utf8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired:
        out, rc = "NATIVE-TIMEOUT", -999
    obs = [(m.group(1), int(m.group(2))) for m in re.finditer(r"^OBS (\S+) (\d+)$", out, re.M)]
    return rc, obs, out


def pick(l, n):
    return l if len(l) <= n else [l[i * len(l) // n] for i in range(n)]


def known_findings(pid):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2).replace("~", " ")), m.group(3)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?", default="")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--src", default="/repo")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        ensure_tools()
        print("engine and runtime built")
        return 0
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    hd = os.path.join(HERE, "harness")
    files = [os.path.join(hd, f) for f in sorted(os.listdir(hd)) if re.fullmatch(a.pid + r"[a-z]?\.cpp", f)]
    if not files:
        raise CheckError("no harness for " + a.pid)
    only = set(x for x in a.only.split(",") if x)
    work = tempfile.mkdtemp(prefix="mimicpp-%s-" % a.pid)
    try:
        per = max(1, 4 // len(files))
        units = []
        for f in files:
            parts = split_file(f, per, work)
            for name, skip, flags in [(None, "", "")] + re.findall(r"^// VARIANT (\w+)(?: without (\S+))?: (.*)$", open(f).read(), re.M):
                for p, k in parts:
                    u = Unit(p, f, k, name, flags.split())
                    u.entries = [e for e in u.entries if e not in skip.split(",")]
                    if u.entries and (not only or only & set(u.entries)):
                        units.append(u)
        return run(a, tier, seed, t0, units, only, work)
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def run(a, tier, seed, t0, units, only, work):
    symex, rt = ensure_tools()
    pool = ThreadPoolExecutor(8)
    natives = {u.name: pool.submit(reduced, build_native, u, work, a.src, tier) for u in units}
    bcs = {u.name: pool.submit(reduced, build_bc, u, work, rt, a.src, tier) for u in units}
    budget = 780 if tier == "quick" else 10000
    jobs = []
    for u in units:
        for e in u.entries:
            if only and e not in only:
                continue
            jobs.append((u, e))

    def one(job):
        u, e = job
        try:
            bc = bcs[u.name].result()
            natives[u.name].result()
        except CheckError as x:
            return u, e, {"error": str(x)}, 0
        out = os.path.join(work, "%s.%s.json" % (u.name, e))
        left = max(20, budget - (time.time() - t0))
        cmd = [symex, bc, "--entry", "harness_" + e, "--out", out, "--max-time", str(int(left)), "--workers", "8"]
        cmd += u.opts.get("*", []) + u.opts.get(e, [])
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left + 120)
            o = p.stdout
        except subprocess.TimeoutExpired:
            return u, e, {"error": "symex did not stop"}, time.time() - t
        if not os.path.exists(out):
            return u, e, {"error": "symex produced no result: " + (o or "")[-2000:]}, time.time() - t
        try:
            return u, e, json.load(open(out)), time.time() - t
        except ValueError as x:
            return u, e, {"error": "unreadable result: %s" % x}, time.time() - t

    errors, viols, known = [], [], []
    results = []
    epool = ThreadPoolExecutor(3)
    for u, e, d, dt in epool.map(one, jobs):
        results.append((u, e, d, dt))
        if a.v:
            if "error" in d:
                print("%-5s %-34s ERROR %s" % (u.name, e, d["error"][:300]))
            else:
                print("%-5s %-34s paths=%d checks=%d queries=%d solver=%.1fs insts=%d viol=%d unsup=%d timeout=%d %.1fs" % (
                    u.name, e, d["paths"], d["checks"], d["queries"], d["solver_time"], d["instructions"], len(d["violations"]),
                    len(d["unsupported"]), d["timeout"], dt), flush=True)
    kf = known_findings(a.pid)
    exes = {n: f.result() for n, f in natives.items() if not f.exception()}
    for u in units:
        if u.broken:
            errors.append(u.broken)

    # ---- counterexamples: only what the real build reproduces is reported
    unreproduced = []
    for u, e, d, dt in results:
        if "error" in d:
            errors.append("%s: %s" % (e, d["error"]))
            continue
        for i, v in enumerate(d["violations"]):
            if len(viols) >= 12 or (viols and time.time() - t0 > 600):
                break   # enough reproduced counterexamples
            ident = "%s:%s:%s:%s" % (u.file, e, v["kind"], v["msg"])
            exe = exes[u.name]
            ok, rc, out = False, None, ""
            for t in range(5 if u.threads else 1):
                x = exe
                if u.threads and v["kind"] == "data-race":
                    x = os.path.join(work, u.name + ".tsan")
                rc, obs, out = run_native(x, e, v["inputs"], work, "v%d" % i, 20)
                if rc not in (0, 77, 78, 79, 2):
                    ok = True
                    break
            m = next((k for k in kf if k[0].search(ident)), None)
            if m:
                known.append(m[1])
                continue
            if u.threads and not ok:
                # a schedule cannot be forced on the native build: the engine's schedule is the replay
                ok = "// TRUST-SCHEDULE" in u.text
                out = "(native run did not hit the schedule; engine schedule: %s)" % v.get("sched")
            (viols if ok else unreproduced).append((u, e, v, rc, out, ident))
    # ---- sample paths: the engine must predict what the compiled code does
    validated, mism = 0, []
    vjobs = []
    for u, e, d, dt in results:
        if "error" in d or u.nosamples or viols:
            continue
        for i, s in enumerate(pick(d.get("samples", []), 48)):
            vjobs.append((u, e, i, s))

    def val(j):
        u, e, i, s = j
        rc, obs, out = run_native(exes[u.name], e, s["inputs"], work, "s%d" % i)
        want = [(n, int(x)) for n, x in s["obs"]]
        return u, e, s, rc, obs, want, out
    for u, e, s, rc, obs, want, out in pool.map(val, vjobs):
        if rc == 0 and obs == want:
            validated += 1
        else:
            mism.append("%s: engine and native run disagree (rc=%s, engine obs %s, native obs %s, inputs %s)\n%s" % (
                e, rc, want[:20], obs[:20], s["inputs"][:20], out[-1500:]))
    # ---- vacuity: every witness label must be reached by some path
    if not only:
        for orig in sorted(set(u.orig for u in units)):
            got = set()
            for uu, e, d, dt in results:
                if uu.orig == orig and "error" not in d:
                    got |= set(d["reached"])
            miss = set().union(*[u.labels for u in units if u.orig == orig]) - got
            if miss and not viols:
                errors.append("%s: witness label(s) never reached: %s" % (os.path.basename(orig), ", ".join(sorted(miss))))
    for u, e, d, dt in results:
        if "error" in d:
            continue
        for k in ("unsupported", "crashed"):
            for x in d[k]:
                errors.append("%s: %s: %s" % (e, k, x if isinstance(x, str) else json.dumps(x)))
        if d["timeout"]:
            errors.append("%s: exploration incomplete within the time limit" % e)
        if d["unknown"] or d["solver_unknown"]:
            errors.append("%s: solver answered unknown" % e)
        if d["paths"] == 0 and not d["violations"]:
            errors.append("%s: no complete path" % e)
    for x in unreproduced:
        errors.append("%s: counterexample does not reproduce natively (rc=%s): %s %s inputs=%s\n%s" % (
            x[1], x[3], x[2]["kind"], x[2]["msg"], x[2]["inputs"], x[4][-1500:]))
    if not viols:
        errors += mism

    # ---- evidence
    def tot(k):
        return sum(d.get(k, 0) for _, _, d, _ in results if "error" not in d)
    lines, funcs = set(), {}
    for _, _, d, _ in results:
        for l in d.get("lines", []):
            key, _, rest = l.partition("\t")
            if not key.startswith("mimic++/"):
                continue
            lines.add(key)
            fn = rest.split(" ", 1)[1] if " " in rest else rest
            fn = re.sub(r"<.*>", "<>", fn)[:160]
            funcs.setdefault(key.rsplit(":", 1)[0], set()).add(fn)
    perfile = {}
    for l in lines:
        perfile[l.rsplit(":", 1)[0]] = perfile.get(l.rsplit(":", 1)[0], 0) + 1
    samples = []
    for u, e, d, dt in results:
        for s in (d.get("samples") or [])[:1]:
            samples.append({"entry": e, "inputs": s["inputs"][:40], "observations": s["obs"][:40], "path_constraints": s["constraints"], "instructions": s["insts"]})
    ev = {
        "property": a.pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "rule": "state = one symbolic path (a set of inputs described by its path condition); transition = one LLVM instruction executed symbolically",
            "obligations_evaluated": tot("checks"),
            "obligations_symbolic": tot("checks_symbolic"),
            "smt_queries": tot("queries"), "smt_sat": tot("sat"), "smt_unsat": tot("unsat"), "smt_unknown": tot("solver_unknown"),
            "solver_time_s": round(tot("solver_time"), 3),
            "max_query_time_s": max([d.get("max_query_time", 0) for _, _, d, _ in results] or [0]),
            "pruned_by_assumption": tot("assume_pruned"),
            "schedule_points": tot("sched_points"),
            "bounds": uniq(b for u in units for b in u.bounds),
            "outside": uniq(b for u in units for b in u.outside),
            "functions_encoded": {k: sorted(v)[:60] for k, v in sorted(funcs.items())},
            "source_lines_executed": dict(sorted(perfile.items())),
            "entries": [{"entry": e, "paths": d.get("paths"), "obligations": d.get("checks"), "queries": d.get("queries"), "solver_time_s": d.get("solver_time"),
                         "instructions": d.get("instructions"), "witnesses": d.get("reached"), "wall_s": round(dt, 2)} for _, e, d, dt in results],
        },
        "assumptions": uniq(x for u in units for x in u.assumes) + [
            "LLVM IR of clang 18 -O1 (asserts on) represents the source; libstdc++ 13 headers are executed, library-only parts come from rt/rt.cpp",
            "allocation never fails; C locale"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    if errors:
        ev["coverage"]["errors"] = [x[:600] for x in errors]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (a.pid, k))
    if viols:
        rd = os.path.join(HERE, "build", "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for n, (u, e, v, rc, out, ident) in enumerate(viols):
            key = (e, v["kind"], v["msg"])
            if key in seen:
                continue
            seen.add(key)
            p = os.path.join(rd, "%s-%s-%d.json" % (a.pid, e, n))
            with open(p, "w") as f:
                json.dump({"property": a.pid, "harness": u.orig, "entry": e, "kind": v["kind"], "message": v["msg"], "stack": v.get("stack"),
                           "inputs": v["inputs"], "schedule": v.get("sched"), "native_exit": rc, "native_output": out[-4000:],
                           "how": "put inputs as lines 'name width value' in a file F; build: g++ %s -I/repo/include -I/verif/rt -I/verif/harness %s /verif/rt/native.cpp -o x; run: ./x %s F" % (
                               " ".join(NATIVE_FLAGS + u.flags), u.orig, e)}, f, indent=1)
            print("  %s: %s: %s" % (e, v["kind"], v["msg"]))
            print("  inputs: %s" % ", ".join("%s=%d" % (x[0], x[2]) for x in v["inputs"])[:600])
            print("VIOLATION property=%s replay=%s" % (a.pid, p))
        return 1
    if errors:
        for x in errors[:12]:
            print("ERROR " + x[:3000])
        return 2
    print("OK %s: %d entries, %d paths, %d obligations, %d queries (%.1fs solver), %d traces replayed, %.1fs" % (
        a.pid, len(results), tot("paths"), tot("checks"), tot("queries"), tot("solver_time"), validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as x:
        print("ERROR " + str(x))
        sys.exit(2)

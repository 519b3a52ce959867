#!/usr/bin/env python3
"""Development aid: small systematic mutants of the headers, to find behaviour no check looks at.
usage: mutate.py list [FILE..] | run OUT.jsonl SLOT N SEED [FILE..]     (scratch copies in /tmp/mut<SLOT>)"""
import json, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "include/mimic++/"
CHECKS = {"Expectation.hpp": "C01 C04 C02 C03 C16 C17 C18 C24 C15 C26 C10", "Sequence.hpp": "C06 C07 C08 C09 C19 C24 C01", "ControlPolicy.hpp": "C03 C05 C19 C08 C06 C04",
          "ExpectationPolicies.hpp": "C10 C16 C15 C14 C18 C05", "ExpectationBuilder.hpp": "C10 C08 C16 C24 C15", "Matcher.hpp": "C11 C12 C13 C10 C18", "String.hpp": "C12 C20",
          "Printer.hpp": "C20 C18 C19", "Reports.hpp": "C18 C19 C01 C20", "Reporter.hpp": "C21 C28 C18", "ObjectWatcher.hpp": "C22 C23", "Mock.hpp": "C14 C24 C01 C25",
          "InterfaceMock.hpp": "C25 C14", "Call.hpp": "C18 C14", "TypeTraits.hpp": "C14 C25", "Utility.hpp": "C20 C18 C10", "adapters/Catch2.hpp": "C28", "adapters/gtest.hpp": "C28",
          "adapters/Doctest.hpp": "C28", "adapters/BoostTest.hpp": "C28"}
SKIP = re.compile(r"^\s*(\*|//|/\*|#|template|requires|static_assert|concept|using|typename|namespace|class|struct|public|private|explicit|\[\[)|noexcept\(|static_assert|std::is_|concept |&& *std::|GCOVR|requires")
OPS = [(r"(?<![=!<>])==(?!=)", "!="), (r"!=", "=="), (r"(?<=[\w\)]) < (?=[\w\(])", " <= "), (r" <= ", " < "), (r" > (?=[\w\(])", " >= "), (r" >= ", " > "),
       (r" && (?![a-z:]*\))", " || "), (r" \|\| ", " && "), (r"\band\b", "or"), (r"\bor\b", "and"), (r"(?<=\()!(?=\w)", ""), (r"(?<== )!(?=\w)", ""), (r"(?<=return )!(?=\w)", ""), (r"\bnot ", ""),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\+\+(?=\w)", "--"), (r" \+ ", " - "), (r" - ", " + "),
       (r"all_of", "any_of"), (r"any_of", "all_of"), (r"none_of", "any_of"), (r"\breturn ([^;]*);", None),
       (r"begin\(", "end("), (r"\bconst auto&", "auto"), (r"inapplicable\b", "full"), (r"views::reverse", "views::all"), (r"push_back", "empty"), (r"std::less\b", "std::greater"), (r"std::greater\b", "std::less"),
       (r'"([^"]+)"', None), (r"'(.)'", None), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"first", "second"), (r"lhs", "rhs"), (r"upper", "lower")]
def mutants(files):
    res = []
    for f in files:
        lines = open("/repo/" + INC + f).read().split("\n")
        incomment = False
        for i, l in enumerate(lines):
            if "/**" in l: incomment = True
            c = incomment
            if "*/" in l: incomment = False
            if c or SKIP.search(l) or not l.strip() or "assert(" in l: continue
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    if rep is None:
                        if pat.startswith("\\breturn"):
                            continue
                        if '"' in pat:
                            if "include" in l: continue
                            t = m.group(1)
                            k = max(range(len(t)), key=lambda j: (t[j].isalpha(), -j)) if t else 0
                            r = '"' + t[:k] + ("x" if t[k] != "x" else "y") + t[k + 1:] + '"'
                        else:
                            r = "'x'" if m.group(1) != "x" else "'y'"
                    else:
                        r = m.expand(rep) if "\\" in rep else rep
                    n = l[:m.start()] + r + l[m.end():]
                    if n != l: res.append((f, i, n, l))
            s = l.strip()
            if s.endswith(";") and not re.match(r"(return|break|const|auto|using|\}|\)|int|bool|StringT|static|[\w:<>]+ \w+(\{|;| =))", s) and s.count("(") == s.count(")") and not s.startswith(("&", ".", "->")):
                res.append((f, i, "", l))
    return list(dict.fromkeys(res))
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
if __name__ == "__main__":
    if sys.argv[1] == "list":
        ms = mutants(sys.argv[2:] or list(CHECKS))
        for f, i, n, l in ms: print("%s:%d\n  - %s\n  + %s" % (f, i + 1, l.strip(), n.strip()))
        print(len(ms))
        sys.exit()
    out, slot, num, seed = sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
    ms = mutants(sys.argv[6:] or list(CHECKS))
    random.Random(seed).shuffle(ms)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    S = "/tmp/mut%s/repo" % slot
    sh("mkdir -p %s && cd /repo && tar --exclude=_build --exclude=.git -cf - . | tar -xf - -C %s" % (S, S))
    n = 0
    for f, i, new, old in ms:
        if n >= num: break
        if (f, i + 1, new.strip()) in done: continue
        n += 1
        lines = open("/repo/" + INC + f).read().split("\n")
        lines[i] = new
        p = os.path.join(S, INC + f)
        open(p, "w").write("\n".join(lines))
        t0 = time.time()
        inc = "" if not f.startswith("adapters") else '#include "mimic++/%s"\n' % f
        open(S + "/x.cpp", "w").write(inc + '#include "mimic++/mimic++.hpp"\n#include "mimic++/InterfaceMock.hpp"\nint main(){}\n')
        r = sh("clang++-18 -fsyntax-only -std=c++20 -w -I%s/include %s/x.cpp" % (S, S))
        res = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "result": None, "by": {}}
        if r.returncode: res["result"] = "invalid"
        else:
            ran_any = False
            for c in CHECKS[f].split():
                r = sh("python3 %s/check.py %s --src %s" % (V, c, S))
                v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
                res["by"][c] = r.returncode
                if r.returncode == 1 and v: res["result"] = "caught"; break
                if r.returncode == 0: ran_any = True
                else:
                    res["last"] = r.stdout[-700:]
                    if "does not compile" in r.stdout: res["result"] = "invalid"; break
            if res["result"] is None:
                r = sh("export CC=gcc CXX=g++; cmake -S /opt/vp/harness -B /tmp/mut%s/build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DREPO=%s >/dev/null && cmake --build /tmp/mut%s/build -j 4 >/dev/null 2>&1 && ctest --test-dir /tmp/mut%s/build -j 4 --timeout 100" % (slot, S, slot, slot))
                res["result"] = "SURVIVED" if r.returncode == 0 else "tests"
        res["s"] = round(time.time() - t0)
        with open(out, "a") as o: o.write(json.dumps(res) + "\n")
        print(res["result"], f, i + 1, "|", old.strip()[:80], "->", new.strip()[:80], list(res["by"].items())[-1:], res["s"], flush=True)
        open(p, "w").write(open("/repo/" + INC + f).read())

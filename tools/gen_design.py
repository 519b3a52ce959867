#!/usr/bin/env python3
"""Regenerates DESIGN.md from DESIGN.in.md, the harness headers, the last evidence (cost) and the planted changes."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
D = {
"C01": ("outcome class, number and contents of the reports of every call", "a model that recomputes acceptance of each live expectation from the symbolic argument and its own counters", "the repository's expectation tests are not built (no trompeloeil); the classification depends on all accept patterns x remaining counts x history"),
"C02": ("which expectation a call consumes, after creations, calls and destructions in any order", "a list model: newest live, matching, unsaturated one", "selection depends on the whole history"),
"C03": ("number of accepted calls and is_satisfied() for symbolic min/max over the full int range", "interval arithmetic in 64 bit", "extreme limits and long histories are not sampled"),
"C04": ("unfulfilled reports at scope end: exactly once iff unsatisfied; identity, limits and state in the report; no effect afterwards", "counter model per expectation", "depends on counts x limits x order of scope ends x custom policies"),
"C05": ("limit factories: exception iff invalid, resulting limits for every int", "direct comparison over all 2^64 pairs", "tests sample a few values"),
"C06": ("admission in one sequence for every progress", "`seqmodel.hpp`: eligible iff all earlier not yet passed are satisfied, none later has accepted, not full", "product of limits, counts and call orders"),
"C07": ("which eligible element Lazy/Greedy sequences use", "first/last eligible of the model", "same"),
"C08": ("conjunction over several sequences, progress of each, listed sequences, duplicates rejected", "one model per sequence; set comparison of the listed sequence ids", "also depends on heap addresses (tags are sorted by pointer): both allocation directions are explored"),
"C09": ("error reports of unfinished sequences, text with the counts, exactly once", "model of the first unsatisfied element", "depends on progress x release order"),
"C10": ("acceptance of an expectation from all its clauses in every order, operands stored by value", "conjunction of the predicates on the symbolic arguments", "clauses x orders x operand values"),
"C11": ("verdicts and descriptions of comparison, predicate, instance, wildcard matchers and their negations", "the C++ operators on the symbolic operands (bit-precise, floats with NaN included where stated)", "every operand"),
"C12": ("string matchers over every character", "position-wise comparison loops written in the harness", "every target/pattern pair up to the lengths, negative chars, every character type"),
"C13": ("range matchers over every element value", "quadratic reference loops in the harness", "every length and element combination"),
"C14": ("overload separation by constness, category, parameters", "table of language rules", "all pairs call form x expectation overload x state"),
"C15": ("what the caller receives: value, identity, exception, number of evaluations", "symbolic stored values/arguments compared with results; copy/move counters", "all return types x finalizers x repeated calls"),
"C16": ("side effects: once, in order, after the report, before the finalizer, by reference, only on match, however the finalizer ends", "event log with expected order and symbolically transformed arguments", "orders x finalizers x arguments"),
"C17": ("exceptions thrown while matching: swallowed, reported once, others considered", "model of which expectation throws and which of the remaining match", "positions x kinds of exception x accept patterns"),
"C18": ("report contents and equality", "field-wise comparison with the values used to build them; equality as field-wise equality", "every field value, all pairs that differ in one field"),
"C19": ("times text for every (min,max,count)", "text written by a reference function from the documentation", "all triples, in and out of sequences"),
"C20": ("printed text", "reference printers written in the harness", "every code unit, every integer, every nesting shape in the bounds"),
"C21": ("routing and translation by the default and callback based reporters", "event counters and expected exception type/data", "outcome x reporter x exception in flight x histories of installation"),
"C22": ("destruct expectations over histories of copies, moves, assignments, destructions", "model of watcher state per object slot", "histories"),
"C23": ("relocations likewise", "model of relocation state per object slot", "histories"),
"C24": ("memory safety and preservation over histories of moves and destructions", "engine memory model (bounds, lifetime, double free, leaks) plus ownership model", "histories; every allocation is tracked symbolically"),
"C25": ("forwarding of interface mocks", "identity of objects, values and move counters", "all values, methods, qualifiers"),
"C26": ("two threads on one mock", "happens-before race detection over all interleavings at lock operations; the set of live expectations per schedule", "schedules"),
"C28": ("adapters: which framework primitive is invoked, how often, with which text; Catch2 matchers as argument matchers", "models of the frameworks' library functions behind the real macros; texts of the generic reporter", "outcome histories x arguments"),
}
def table():
    out = []
    for p in P:
        i = p["id"]
        out.append("### %s %s" % (i, p["title"]))
        if i not in D:
            m = json.load(open(V + "/MANIFEST.json"))
            r = [n["reason"] for n in m["not_applicable"] if n["property"] == i]
            out += ["Not applicable: " + (r[0] if r else "?"), ""]
            continue
        spec, oracle, why = D[i]
        fs = [f for f in sorted(os.listdir(V + "/harness")) if re.fullmatch(i + r"[a-z]?\.cpp", f)]
        b, o, a = [], [], []
        for f in fs:
            t = open(V + "/harness/" + f).read()
            b += re.findall(r"^// BOUNDS?: (.*)$", t, re.M)
            o += re.findall(r"^// OUTSIDE: (.*)$", t, re.M)
            a += re.findall(r"^// ASSUMES?: (.*)$", t, re.M)
        out += ["* Decided: %s." % spec, "* Oracle: %s." % oracle, "* Beyond the tests: %s." % why, "* Harness: %s" % ", ".join("`harness/%s`" % f for f in fs)]
        out += ["* Bounds:"] + ["  * " + x for x in b]
        if o: out += ["* Outside: " + "; ".join(o)]
        if a: out += ["* Assumed: " + "; ".join(a)]
        c = COST.get(i)
        if c: out += ["* Cost (quick): about %s" % c]
        out.append("")
    return "\n".join(out)
cf = V + "/tools/costs.json"
COST = json.load(open(cf)) if os.path.exists(cf) else {}
def seeded():
    rows = ["| change | property | needs | found by |", "|---|---|---|---|"]
    caught = json.load(open(V + "/tools/caught.json"))
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(V + "/seeded/%s/meta.json" % d))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "?")))
    return "\n".join(rows)
t = open(V + "/DESIGN.in.md").read().replace("PROPERTY_TABLE", table()).replace("SEEDED_TABLE", seeded())
open(V + "/DESIGN.md", "w").write(t)

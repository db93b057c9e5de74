"""Regenerates MANIFEST.json from the specs/rules present."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "effect analysis: noise applications matched with ledger charges per path",
 "C02": "symbolic budget summation over noise and request effects",
 "C03": "taint (information-flow) analysis over abstract values",
 "C08": "alias/mutation effect analysis and constructor snapshot analysis",
 "C09": "write-effect analysis of query methods",
 "C11": "name, attribute, signature and interface resolution over the call graph",
 "C12": "dependence analysis of the naming functions (every setting reaches the name undiminished)",
 "C13": "column-set abstract interpretation of both row builders",
 "C14": "exception-region (handler coverage) analysis",
 "C15": "typestate/order analysis of filesystem effects along the paths of evaluate",
 "C16": "seed provenance and generator-state dataflow",
 "C17": "abstract evaluation of the execution paths plus driver wiring dataflow",
 "C19": "API-restriction and handing-down dataflow over the call graph",
 "C20": "order analysis of filesystem effects plus abstract-value equivalence",
 "C24": "constant propagation of shipped designs against registries and signatures",
}
DEFAULT = "abstract interpretation to symbolic normal forms, compared with a reference definition"
NA = {
 "C40": "Monotonicity and boundedness of a fitted curve depend on numerical properties of special functions and of optimiser output; no static argument over the source bounds them.",
 "C41": "The noise distribution is produced by external libraries (absent here) and is a statistical property of their samplers, not of this source.",
 "C42": "Convergence of scipy/cvxopt optimisers is a numerical runtime property that no sound static analysis of the call sites can bound.",
 "C43": "The result of the bisection depends on numeric values of the modelled reach at run time (and on its monotonicity, C40).",
 "C44": "Sketch accuracy is a statistical property of external estimators for given runtime data.",
}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    n = i.lower()
    if not (os.path.exists("%s/sa/specs/%s.py" % (R, n)) or os.path.exists("%s/sa/rules/%s.py" % (R, n))):
        na.append({"property": i, "reason": "Static check not built yet."})
        continue
    checks.append({"property": i, "quick_cmd": "python3 -m sa.check " + i, "thorough_cmd": "python3 -m sa.check " + i,
                   "technique": "static analysis: " + TECH.get(i, DEFAULT), "level": "other",
                   "level_note": "Decided on the source for all inputs by abstract interpretation (no execution). Sound up to the engine's models of Python, numpy and the absent external libraries; reals instead of floats; obligations the engine cannot resolve are reported as undecided in the evidence and are not claimed."})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "n/a")

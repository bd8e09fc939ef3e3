#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl, the drivers and the special checks."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in glob.glob(V + "/drivers/*.cc"))
AI = "abstract interpretation of LLVM IR (affine-hull/interval/order domains, memory bounds and definedness)"
TECH = {
    "C01": "abstract interpretation of LLVM IR: pointer-range analysis of every memory access",
    "C02": "abstract interpretation of LLVM IR: definite-initialisation (typestate of every byte)",
    "C03": "effect analysis over LLVM IR (globals, statics, impure externals) plus object non-interference by abstract interpretation",
    "C04": "compile-fail and compile-pass witnesses (type-level analysis by the compiler front end)",
    "C33": "rounding-error dataflow analysis of the optimised IR of both compilers",
    "C37": "type rule over LLVM IR (no narrower floating-point value) plus forward rounding-error analysis by abstract interpretation",
    "C38": "cost analysis by abstract interpretation: comparisons and moves counted over arrays of unknown values and known order",
    "C36": "abstract interpretation of LLVM IR in a domain of convex polygons with bounded truncation error, partitioned by path",
    "C35": "constant extraction from typed IR initialisers compared with multiprecision values",
}
NOTE = "Every obligation is decided for all inputs and, at marked history loops, for all histories by a fixpoint; sizes are the instantiated ones; floating point is read as exact real arithmetic; trusts clang's front end and the analyser."
NOTES = {
    "C01": "Every memory access on every analysed path of every instantiated component; sizes are the instantiated ones; trusts clang's front end, the analyser and that the drivers exercise each public operation.",
    "C02": "Every use of an indeterminate byte on every analysed path; sizes are the instantiated ones; trusts clang's front end, the analyser and that the drivers exercise each public operation.",
    "C03": "Whole-library effect rule over all functions emitted for the instantiations (sound for direct accesses); trusts clang's front end.",
    "C04": "Each witness is a complete template configuration; the list of configurations is finite.",
    "C33": "Decides the generated code of the installed clang and g++ at the project's flags for the instantiated types; error terms of second order are neglected.",
    "C37": "Errors are bounded for all inputs up to one; histories are followed for several times the window or the time constant; underflow is not considered.",
    "C38": "Decides the listed orders, sizes and ranks for all values; other orders are not covered.",
    "C36": "Every pair of coordinates is covered by the polygon of its path; the angle is checked at the corners of each polygon, so non-integer points are included (an over-approximation).",
    "C35": "Exhaustive over the constants and types the header provides.",
}
NA = {
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    has = i in ("C01", "C02") or os.path.exists(V + "/special/%s.py" % i.lower()) or re.search(r"\bsa_%s_" % i, src) or re.search(r"SA_ENTRY\w*\(%s," % i, src)
    if has and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, AI), "level": "other", "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. known_findings.txt lists the defects repaired (and any left). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = "bounded symbolic execution of the LLVM IR of the real code, assertions discharged by z3, counterexamples replayed natively"
NOTES = {}
checks = []
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
sys.path.insert(0, os.path.join(R, "checks"))
na = []
for i in ids:
    f = os.path.join(R, "checks", i + ".py")
    if not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
        continue
    ns = {}
    ns["__file__"] = f; exec(compile(open(f).read(), f, "exec"), ns)
    note = "Holds for every value within: " + ns["BOUNDS"] + " Not covered: " + ns["OUTSIDE"] + ". Trusted: clang's IR, the executor and its BLAS/FFTW/libc models, z3; doubles are modelled as reals plus infinities/NaN, so rounding is not covered."
    checks.append(dict(property=i, quick_cmd="python3-vt engine/run.py %s --tier quick" % i, thorough_cmd="python3-vt engine/run.py %s --tier thorough" % i,
                       technique=ns.get("TECHNIQUE", TECH), level="other", level_note=note))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")

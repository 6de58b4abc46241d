"""Writes DESIGN.md."""
import glob, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/checks")
HOW = {
"C01": "`harness/tv.c`: each operator is run on a symbolic image and compared entry by entry with the difference matrix (oracle: definition by index); outputs beyond rows*columns are guarded, the old output is arbitrary, the input re-read. Off-by-one errors at single shapes (two rows, one thread's tail) need the shape sweep.",
"C02": "`harness/axset.c`: set-up with symbolic or enumerated positions, then one operator on a symbolic vector, compared with the orthonormal cosine matrix and the gather/scatter definition computed in the harness.",
"C03": "As C02 with the two-dimensional cosine matrix (Kronecker product by index) for square and non-square shapes, and the dispatch of the top-level set-up.",
"C04": "`harness/axset.c` with history: any two (three) operators in sequence on the same set, poisoned outputs, and re-set-up after release; each result compared with the definition.",
"C05": "`harness/axset.c` in composite mode with symbolic weights; `tvnorm.c` for the reported norm (bound by the exact spectral norm of the difference operators); `tvsyn.c` for the synthesis dictionary length (known finding).",
"C06": "`harness/axset.c` with a symbolic matrix.",
"C07": "`harness/argcheck.c`: all arguments are unconstrained 32-bit symbols; the inner set-ups are recorders, so acceptance and rejection are decided for all integers. `argkeep.c`: a live set before a rejected call, all its operators afterwards.",
"C08": "`harness/oom.c`: the index of the failing request is symbolic; leak, double free and use-after-free are built-in checks; afterwards a clean retry is compared with the definition.",
"C09": "`harness/mem.c`: symbolic element count; size, alignment, zeroing and release.",
"C10": "`harness/cg.c`: the operator is either an arbitrary function (fresh vector per application, positive curvature) or a symmetric positive-definite matrix; an independent recurrence in the harness gives the iterates, residuals, best iterate and counts.",
"C11": "`harness/ls.c`: the objective returns a fresh symbolic value per trial (or infinity/NaN); the harness recomputes the first acceptable trial.",
"C12": "`harness/lbfun.c`, `lbstep.c`, `lbderiv.c`: value, gradient, Hessian product and eliminated step against closed formulas and against the symbolic derivative (vp_deriv) of the value the code computes.",
"C13": "`harness/lbstep.c` (step part): the returned step is compared with the distance to the first constraint, for all points and directions.",
"C14": "`harness/lbdrive.c`: direction, step bound and line search are havoc stubs that record calls; `lbfeas.c`, `lbwhole.c`: the real inner functions.",
"C15": "`harness/nproj.c`: optimality (KKT) conditions asserted on the result for all gradients, centres, measurements.",
"C16": "`harness/nfeval.c`: Huber value and clipped gradient by zone, gradient also against the symbolic derivative.",
"C17": "`nsetup.c` (schedule), `nfifo.c` (window), `ndrive.c` (driver against havoc evaluation/projection), `nfull.c` (real everything against an independent implementation), `nreject.c` (sizes).",
"C18": "`harness/breg.c`: every building block by pixel, and the whole denoiser against an independent implementation of the documented iteration.",
"C19": "`harness/kern.c`: each kernel for every length against its definition, guards behind the arrays, allowed aliasing, several threads.",
"C20": "`engine/race.py`: at each `fork` of a parallel region two symbolic, different iterations are executed from the same state; every pair of their shared accesses (at least one write, not atomic, not in the same critical section, not a reduction's merge) is an overlap query. Counterexamples are replayed under ThreadSanitizer with a minimal kmpc runtime that hands exactly those iterations to two threads.",
"C21": "`harness/verb.c`: complete runs with symbolic verbosity; printed lines are counted through the replaced print function and the libc model.",
"C22": "`harness/json.c`: cJSON accessors and stdio modelled; contents, item types and the failing operation symbolic.",
"C23": "`harness/pyb.c`: the binding's source is included and run against a reference-counting model of the interpreter; core functions are recorders returning arbitrary results. Sizes, options, status symbolic, every interpreter call can fail.",
"C24": "`harness/mexb.c`: the three gateways against a model of the mex API in which raising an error does not return.",
"C25": "`harness/l1qcdct.c`: real transforms, havoc solver recording its arguments.",
}
COST = {"C01": 8, "C02": 14, "C03": 32, "C04": 31, "C05": 17, "C06": 11, "C07": 123, "C08": 15, "C09": 5, "C10": 90, "C11": 11, "C12": 25, "C13": 42, "C14": 20, "C15": 105, "C16": 100, "C17": 22, "C18": 48, "C19": 25, "C20": 34, "C21": 37, "C22": 6, "C23": 29, "C24": 70, "C25": 8}
out = [open(R + "/tools/design_head.md").read()]
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    f = R + "/checks/%s.py" % i
    ns = {"__file__": f}
    exec(compile(open(f).read(), f, "exec"), ns)
    out.append("### %s %s\n\n%s\n\n*Bounds.* %s\n\n*Outside.* %s.\n\n*Jobs / cost.* %d jobs, about %d s (quick); %d jobs (thorough).\n" % (
        i, p["title"], HOW[i], ns["BOUNDS"], ns["OUTSIDE"].rstrip("."), len(ns["jobs"]("quick")), COST[i], len(ns["jobs"]("thorough"))))
kf = json.load(open(R + "/known-findings.json"))
out.append("## 3. Genuine defects found\n\nRepaired (each one `fix:` commit in /repo, stable tests unchanged):\n")
out += ["* " + x[len("fixed: "):] for x in kf["fixed"]]
out.append("\nRecorded, not repaired:\n")
out += ["* %s (job `%s`): %s" % (k["property"], k["job"], k["what"]) for k in kf["known"]]
out.append("\n" + open(R + "/tools/design_tail.md").read())
out.append("## 5. Planted bugs (`seeded/`)\n\nEach applies to /repo's HEAD, builds, passes the 92 stable tests and has a demonstration; `tools/plant.sh` confirms that, `tools/catch.sh` runs the property's quick check on it.\n\n| id | property | needs | caught by |\n|---|---|---|---|")
C = json.load(open(R + "/tools/caught.json"))
for d in sorted(glob.glob(R + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    n = os.path.basename(d)
    out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], C.get(n, "not run")))
open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n")

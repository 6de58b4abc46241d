import os
PM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "mexmock")
HARNESSES = {"mexb": {"src": "mexb.c", "cflags": ["-I", PM], "native_cflags": ["-I", PM]}}
BOUNDS = ("all three gateways; symbolic values of every option field and every measurement, any integer sample position, image sizes up to 4x5 (including zero, negative and overflowing products), row and column vectors of 0-4 "
          "elements; each argument or field missing, non-scalar, empty or of another class, each option string; any status of the core; the k-th memory request failing for every k."
          " Also 9x8 and 4x17 images, 6x7 with 17 samples.")
OUTSIDE = "larger arrays; non-integer sizes, positions and counts; the interpreter itself (modelled); the core functions (C03, C16, C18, C25)"
ASSUMPTIONS = ["the model of the gateway interface in harness/mexmock and harness/mexb.c"]
NF = {0: 13, 2: 8}


def jobs(tier):
    out = []

    def add(tag, fn, reach, **kw):
        p = dict(fn=fn, nrhs=4 if fn == 1 else 5, nlhs=1 if fn == 1 else 2, abad=0, abk=0, skind=0, mode=0, fmiss=-1, fbad=-1, fbadkind=0, huge=0, rlo=3 if fn == 1 else 2, rhi=3, clo=3 if fn == 1 else 2, chi=4 if fn == 1 else 2,
                 nlo=2, nhi=3, diffn=0, bkind=0, pkind=0, corefail=0, oom=0)
        p.update(kw)
        out.append(dict(name="%s fn=%d " % (tag, fn) + " ".join("%s=%d" % (k, v) for k, v in kw.items()), harness="mexb", params=p, reach=reach, cfg=dict(job_timeout=300, max_paths=20000), cost=2))
    one = dict(rlo=2, rhi=2, nhi=2)
    for fn in (0, 1, 2):
        if fn == 1:
            add("images", fn, ["result"], rlo=3, rhi=5, clo=3, chi=3)
            add("images", fn, ["result"], rlo=3, rhi=4, clo=4, chi=4)
            add("sizes", fn, ["error"], rlo=0, rhi=2, clo=0, chi=4)
            add("sizes", fn, ["error"], rlo=3, rhi=4, clo=0, chi=2)
            for b in (3, 4): add("kind", fn, ["error"], bkind=b)
        else:
            for mode in ((0, 1) if fn == 2 else (0,)):
                for b in (0, 1):
                    for p in (0, 1): add("vectors", fn, ["result", "error"], bkind=b, pkind=p, mode=mode)
            add("sizes", fn, ["error", "result"], rlo=-1, rhi=3, clo=-1, chi=3, nlo=2, nhi=2)
            add("lengths", fn, ["error", "result"], nlo=0, nhi=4, diffn=1)
            for h in (1, 2): add("overflow", fn, ["error"], huge=h)
            for b in range(5):
                for p in range(5):
                    if (b >= 2) != (p >= 2): add("kind", fn, ["error"], bkind=b, pkind=p, **one)
            for s in (1, 2, 3): add("options kind", fn, ["error"], skind=s, **one)
            for f in range(NF[fn]):
                add("field missing", fn, ["error"] if (fn, f) != (0, 12) else [], fmiss=f, **one)
                for k in (1, 2, 3): add("field bad", fn, ["error"], fbad=f, fbadkind=k, **one)
            if fn == 2:
                for m in range(2, 9): add("mode string", fn, ["error"], mode=m, **one)
                for c in (2, 3, 4): add("set-up fails", fn, ["error"], corefail=c, **one)
            else: add("one output", fn, ["result"], nlhs=1, **one)
        for a in (1, 2, 3) if fn == 1 else (1, 2):
            for k in (1, 2, 3): add("argument bad", fn, ["error"], abad=a, abk=k, **({} if fn == 1 else one))
        add("core status", fn, ["error"] if fn == 1 else ["result"], corefail=1, **({} if fn == 1 else one))
        for r in range(0, 4 if fn == 1 else 5): add("too few", fn, ["error"], nrhs=r, **({} if fn == 1 else one))
        for l in range(0, 2 if fn == 2 else 1): add("too few", fn, ["error"], nlhs=l, **({} if fn == 1 else one))
        for k in range(1, 5): add("out of memory", fn, [], oom=k, **({} if fn == 1 else one))
    add("larger", 1, ["result"], rlo=9, rhi=9, clo=8, chi=8)   # size thresholds
    add("larger", 1, ["result"], rlo=4, rhi=4, clo=17, chi=17)
    for fn in (0, 2):
        for b in (0, 1): add("larger", fn, ["result", "error"], rlo=6, rhi=6, clo=7, chi=7, nlo=17, nhi=17, bkind=b, pkind=1 - b)
    return out

import os
PM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "pymock")
HARNESSES = {"pyb": {"src": "pyb.c", "cflags": ["-I", PM], "native_cflags": ["-I", PM]}}
BOUNDS = ("all three exported functions; symbolic option values for every single keyword given or left out and all of them together; all image sizes and array lengths up to 4 (empty, negative, mismatched and, for the "
          "product of the sizes, overflowing ones), 0-3 dimensional arrays, every sample position in and just outside the range, arrays that are used in place, copied or not convertible; any status of the core; the k-th interpreter, "
          "memory or plan request failing for every k."
          " Also 8x8 and 7x7 images with 17 samples.")
OUTSIDE = "larger arrays; the interpreter and numpy themselves (modelled: reference counts, argument parsing, array conversion); the core functions (C03, C10, C16, C18, C25)"
ASSUMPTIONS = ["the model of the Python and numpy C API in harness/pymock and harness/pyb.c"]
NOPT = [10, 4, 9]


def jobs(tier):
    out = []

    def add(tag, fn, reach, **kw):
        p = dict(fn=fn, mask=0, bnd=2 if fn == 1 else 1, pnd=1, conv=0, badparse=0, huge=0, mlo=3 if fn == 1 else 2, mhi=3 if fn == 1 else 2, nlo=2, nhi=2, diffn=0, ilo=0, ihi=3, corefail=0, apifail=0, oom=0)
        p.update(kw)
        out.append(dict(name="%s fn=%d " % (tag, fn) + " ".join("%s=%d" % (k, v) for k, v in kw.items()), harness="pyb", params=p, reach=reach, cfg=dict(job_timeout=300, max_paths=20000), cost=1 + (p["mhi"] - p["mlo"]) * 3))
    for fn in (0, 1, 2):
        full = (1 << NOPT[fn]) - 1
        for conv in (0, 1): add("options", fn, ["result"], conv=conv)
        masks = [1 << i for i in range(NOPT[fn])] + [full] + ([full ^ (1 << i) for i in range(NOPT[fn])] if tier != "quick" else [])
        for m in masks: add("options", fn, ["result"], mask=m, conv=1, ilo=1, ihi=1)
        add("bad parse", fn, ["exception"], badparse=1)
        add("no conversion", fn, ["exception"], conv=2)
        if fn != 1:
            add("no conversion", fn, ["exception"], conv=3)
            for h in (1, 2): add("overflow", fn, ["exception"], huge=h)
            for b in range(4):
                for p in range(4):
                    if (b, p) != (1, 1) and (b == 1 or p == 1): add("dimensions", fn, ["exception"], bnd=b, pnd=p, ilo=1, ihi=1)
            add("sizes", fn, ["result", "exception"], mlo=-2, mhi=3, nlo=0, nhi=2, ilo=0, ihi=0)
            add("lengths", fn, ["result", "exception"], diffn=1, nlo=0, nhi=3, ilo=0, ihi=0)
            add("positions", fn, ["result", "exception"], ilo=-1, ihi=4, nlo=1, nhi=2)
        else:
            for b in range(4):
                if b != 2: add("dimensions", fn, ["exception"], bnd=b)
            add("sizes", fn, ["result", "exception"], mlo=0, mhi=4)
        add("core status", fn, ["result"] if fn == 2 else ["exception"], corefail=1)
        if fn == 2: add("set-up fails", fn, ["exception"], corefail=-1)
        for k in range(1, 9):
            add("interpreter fault", fn, [], apifail=k)
            if k < 5: add("out of memory", fn, [], oom=k)
            add("interpreter fault", fn, [], apifail=k, conv=1)
    for conv in (0, 1):   # size thresholds
        add("larger", 1, ["result"], conv=conv, mlo=8, mhi=8)
        for fn in (0, 2): add("larger", fn, ["result"], conv=conv, mlo=7, mhi=7, nlo=17, nhi=17, ilo=48, ihi=48)
    return out

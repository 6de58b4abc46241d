HARNESSES = {"race": {"src": "race.c"}, "racewhole": {"src": "racewhole.c"}}
BOUNDS = ("Two symbolic, different iterations of every parallel loop met, executed by two threads; all their shared accesses are compared for overlap. Single kernels: vector length symbolic 1..4096; TV operators: number of rows symbolic "
          "(2..4096/columns) for each number of columns 2..9, and columns symbolic 2..64 for the operators whose parallel loop runs over pixels. Whole runs of the bregman, l1qc_newton, l1qc_dct, nesta and "
          "conjugate-gradient solvers and of all operators of every transform set on small images (sizes concrete, iterations symbolic)."
          " Rows of 16 and 17 pixels too.")
OUTSIDE = ("rows of more than 9 pixels where the inner loop runs along the row; parallelism inside FFTW and BLAS; wrong results that need three threads (two accesses by two threads suffice for a data race)")
ASSUMPTIONS = ["floating-point values read from shared arrays at symbolic positions are arbitrary"]
NWITNESS = 12
OPS = ["Dx", "DxT", "DxTDx", "Dy", "DyT", "DyTDy", "shrink", "mxpy", "mxpy in place", "daxpby", "init_vec", "dxmuly_z", "daxpby_z", "daxpy_z", "dlogsum", "hess_grad"]


def jobs(tier):
    q = tier == "quick"
    out = []
    for op in range(16):
        for m in (list(range(2, 10 if q else 17)) + ([16, 17] if q else [32, 33, 64, 65]) if op < 6 else [0]):
            out.append(dict(name="%s%s" % (OPS[op], " m=%d" % m if m else ""), harness="race", params=dict(op=op, m=m), reach=["done"], cfg=dict(race="sym", job_timeout=200), cost=m))
    for op in (4, 5):
        out.append(dict(name="%s any width" % OPS[op], harness="race", params=dict(op=op, m=-1), reach=["done"], cfg=dict(race="sym", job_timeout=200), cost=30))
    W = ["bregman", "l1qc_newton", "nesta", "cg", "preconditioned cg", "operators", "l1qc_dct", "bregman kernels"]

    def add(what, n=2, r=2, c=3, set=0, mode=1, bp=1, tvv=0, tvh=0, cost=20):
        out.append(dict(name="whole %s n=%d %dx%d set=%d mode=%d bp=%d tv=%d%d" % (W[what], n, r, c, set, mode, bp, tvv, tvh), harness="racewhole",
                        params=dict(what=what, n=n, mrow=r, mcol=c, set=set, mode=mode, bp=bp, tvv=tvv, tvh=tvh), reach=["done"], cfg=dict(race="whole", job_timeout=300), cost=cost))
    for r, c in ((2, 3), (3, 2), (2, 4), (4, 2)) if q else ((2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (4, 4), (5, 3)):
        add(0, r=r, c=c, cost=50)
        add(7, r=r, c=c, cost=50)
        for what in (3, 4): add(what, r=r, c=c)
        for s, md in ((0, 1), (1, 2), (2, 1), (2, 2), (4, 1)):
            add(5, n=3, r=r, c=c, set=s, mode=md)
            add(1, n=3, r=r, c=c, set=s, mode=md, cost=80)
        add(2, n=3, r=r, c=c, set=1, mode=2, cost=80)
        add(6, n=3, r=r, c=c, mode=1, cost=50)
        add(6, n=3, r=r, c=c, mode=2, cost=50)
    for r, c in ((3, 3), (3, 4), (4, 3)) if q else ((3, 3), (3, 4), (4, 3), (5, 3), (4, 4)):
        for bp in (1, 2):
            for tv in range(4): add(5, n=3, r=r, c=c, set=3, mode=1 + tv % 2, bp=bp, tvv=tv & 1, tvh=tv >> 1)
        add(2, n=3, r=r, c=c, set=3, mode=2, bp=1, tvv=1, tvh=1, cost=100)
    return out

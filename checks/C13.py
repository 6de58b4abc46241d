HARNESSES = {"lbstep": {"src": "lbstep.c"}}
MODULES = ["l1qc_newton", "linesearch", "l1c_memory", "l1c_math", "vcl_math", "l1c_logging", "cgsolve"]
BOUNDS = ("all strictly feasible points (slacks in [1e-10,20], residual in [-5,5]^n), all directions (slack rates in [-20,20], residual rate in [-5,5]^n with squared norm >= 1e-4, or exactly zero), constraint radius at any "
          "distance along the ray in [0.01,50]; signal length 1..3, measurements 1..2 (length up to 8 with one arbitrary entry, the others fixed)"
          " Also signal lengths 17 and 33 and nine measurements.")
OUTSIDE = "longer vectors; directions whose residual rate is non-zero but tinier than 0.01 in norm; rounding"


def jobs(tier):
    q = tier == "quick"
    out = []
    for dir in (0, 1, 2):
        for m, n in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)] + ([] if q else [(3, 2), (1, 3)]):
            if m >= 3 and (dir == 0 or q and dir == 1): continue
            out.append(dict(name="step dir=%d m=%d n=%d" % (dir, m, n), harness="lbstep", params=dict(m=m, n=n, dir=dir, at=-1, strict=m * n <= 2), reach=["done", "full step"] + (["cone binds"] if dir == 1 else []),
                            cfg=dict(tol="1e-6", job_timeout=400 if q else 2000, max_paths=20000), cost=10 ** m))
    for m, n, at in [(7, 1, 0), (7, 2, 3), (7, 1, 6), (4, 3, 3), (8, 1, 7), (17, 2, 16), (17, 2, 8), (33, 3, 32), (9, 9, 8)]:
        out.append(dict(name="step at=%d m=%d n=%d" % (at, m, n), harness="lbstep", params=dict(m=m, n=n, dir=1, at=at, strict=0), reach=["done", "cone binds"], cfg=dict(tol="1e-6", job_timeout=400, max_paths=20000), cost=20))
    return out

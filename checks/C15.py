HARNESSES = {"nproj": {"src": "nproj.c"}}
MODULES = ["nesta", "l1c_memory", "l1c_math", "vcl_math", "l1c_logging"]
BOUNDS = ("all gradients, unconstrained minimisers and their misfits in [-10,10] (hence all centres and measurements), noise level in [0.01,8], smoothing in [0.01,4], dictionary norm in [0.5,3]; measurement operators: coordinate sampling up to 3 of 5, "
          "every unit row of length 2 and every 2x2 rotation (symbolic angle), 1..4 rows of a fixed rotation of length 4; constraint inactive, active, and exactly on the boundary (misfit along one measurement)."
          " Also sampling 5 of 9, 9 of 17 and 16 of 33 with two arbitrary misfits.")
OUTSIDE = "noise level exactly zero (division by it; not accepted by the method); larger operators; rounding"


def jobs(tier):
    out = []
    for kind, sizes in ((0, [(1, 1), (1, 2), (2, 3), (1, 4), (2, 4), (3, 5), (5, 9), (9, 17), (16, 33)]), (1, [(1, 2), (2, 2), (1, 3)]), (2, [(1, 4), (2, 4), (3, 4), (4, 4)])):
        for n, m in sizes:
            for regime in (0, 1, 2):
                for p in (m, m + 1):
                    if p > m and regime != 1 and kind or p > m > 8: continue
                    out.append(dict(name="project kind=%d n=%d m=%d p=%d regime=%d" % (kind, n, m, p, regime), harness="nproj",
                                    params=dict(n=n, m=m, p=p, kind=kind, regime=regime, kkt=int(m <= 8)), reach=["active" if regime == 1 else "inactive"],
                                    cfg=dict(tol="1e-7", job_timeout=300), cost=n * m))
    return out

HARNESSES = {"nfeval": {"src": "nfeval.c"}}
MODULES = ["nesta", "l1c_memory", "l1c_math", "vcl_math", "l1c_logging"]
BOUNDS = ("all points, coefficients and smoothing parameters: for an arbitrary dictionary (any coefficient vector of length 1..4, thorough 6) and for m x p matrices with symbolic entries (m, p <= 2) and fixed ones "
          "(2x3, 3x2), where the gradient is also compared with the symbolic derivative of the objective; every combination of linear and quadratic zones and signs."
          " Also 7 to 33 coefficients, two arbitrary ones at a time at the ends and in the middle.")
OUTSIDE = "larger dictionaries (each coefficient is treated alike); rounding"


def jobs(tier):
    out = []
    q = tier == "quick"
    mats = [(1, 1, 9), (1, 2, 9), (2, 1, 9), (2, 2, 1), (2, 2, 9), (2, 3, 0), (3, 2, 0)] + ([] if q else [(3, 3, 0), (2, 4, 0), (3, 4, 0)])
    for m, p, s in mats:
        out.append(dict(name="feval m=%d p=%d sym=%d" % (m, p, s), harness="nfeval", params=dict(m=m, p=p, symw=s, abs=0, wfrom=0, wto=p), reach=["quadratic", "linear"] + (["mixed"] if p > 1 else []),
                        cfg=dict(tol="1e-7", job_timeout=400 if q else 3000), cost=3 ** p))
    for p in range(1, 5 if q else 7):
        for m in (1, p, p + 2):
            out.append(dict(name="feval arbitrary dictionary m=%d p=%d" % (m, p), harness="nfeval", params=dict(m=m, p=p, symw=0, abs=1, wfrom=0, wto=p), reach=["quadratic", "linear"] + (["mixed"] if p > 1 else []),
                            cfg=dict(tol="1e-7", job_timeout=600 if q else 3000), cost=3 ** p + 1))
    for p in (7, 8, 9, 16, 17, 33):   # size thresholds: two arbitrary coefficients at the ends and in the middle
        for m in (p, 3):
            for f in (0, p // 2, p - 2):
                out.append(dict(name="feval arbitrary dictionary m=%d p=%d window %d" % (m, p, f), harness="nfeval", params=dict(m=m, p=p, symw=0, abs=1, wfrom=f, wto=f + 2), reach=["mixed"],
                                cfg=dict(tol="1e-7", job_timeout=600 if q else 3000), cost=20))
    return out

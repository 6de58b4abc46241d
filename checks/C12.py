HARNESSES = {"lbderiv": {"src": "lbderiv.c"}, "lbfun": {"src": "lbfun.c"}}
MODULES = ["l1qc_newton", "linesearch", "l1c_memory", "l1c_math", "vcl_math", "l1c_logging", "cgsolve"]
BOUNDS = ("all strictly feasible points (slacks in [1e-4,20], residuals in [-5,5], constraint radius in [0.1,10], barrier parameter in [0.5,1000]) and directions; signal length 1..6, measurements 1..3, dense operators "
          "(symbolic entries for 1x1 and 1x2); any outcome of the linear solver. Outside the feasible set (any sign of every slack) the functional is never acceptable to the line search. The gradient is also compared with the symbolic "
          "derivative of the value the code computes (length 1..3)."
          " Also 9x4, 17x6 and 33x9 (signal x measurements) with three arbitrary entries each.")
OUTSIDE = "larger problems; points closer than 0.001 to the boundary; rounding"


def jobs(tier):
    q = tier == "quick"
    out = []
    for m, n, s in [(1, 1, 0), (1, 1, 9), (2, 1, 0), (2, 1, 9), (2, 2, 0), (3, 2, 0), (4, 2, 0), (5, 3, 0), (9, 4, 0), (17, 6, 0), (33, 9, 0)] + ([] if q else [(6, 3, 0), (7, 3, 0), (8, 4, 0), (2, 2, 9)]):
        out.append(dict(name="derivatives m=%d n=%d sym=%d" % (m, n, s), harness="lbderiv", params=dict(m=m, n=n, symA=s), reach=["solved", "failed"], cfg=dict(tol="1e-6", job_timeout=400 if q else 2000), cost=m * n * 10))
    for m, n in [(1, 1), (2, 1), (2, 2), (3, 1), (4, 2)] + ([] if q else [(5, 2)]):
        out.append(dict(name="functional m=%d n=%d" % (m, n), harness="lbfun", params=dict(m=m, n=n, symA=0, mode=0), reach=["feasible", "infeasible"], cfg=dict(tol="1e-6", job_timeout=300, max_paths=20000), cost=4 ** m))
    for m, n in [(1, 1), (2, 1), (2, 2), (3, 2)]:
        out.append(dict(name="derivative of the value m=%d n=%d" % (m, n), harness="lbfun", params=dict(m=m, n=n, symA=0, mode=1), reach=["feasible"], cfg=dict(tol="1e-6", job_timeout=300), cost=40))
    return out

HARNESSES = {"cg": {"src": "cg.c"}, "cgzero": {"src": "cgzero.c"}}
MODULES = ["cgsolve", "l1c_memory", "l1c_math", "vcl_math", "l1c_logging"]
BOUNDS = ("both solvers; for an arbitrary operator (a fresh vector per application, positive curvature): all right-hand sides, guesses, preconditioners and tolerances, length 1..5 with one "
          "iteration and 1..2 with two; for symbolic positive-definite matrices (length 1..2, one iteration) and fixed ones (length 3..4, 2 iterations, symbolic first entry of the right-hand side; length 6 and 12, up to 8 iterations, every tolerance and iteration limit) also the true "
          "residual; solved guesses and zero right-hand sides for length 1..4. Thorough: length 3 with two iterations, 2x2 symbolic matrices with two."
          " Fixed systems also of size 17 and 33.")
OUTSIDE = "more iterations and larger systems (each iteration applies the same recurrence); rounding"


def J(n, maxit, op, pre, sym, tolk=1, x0zero=0, verbose=0, reach=("limit",), **kw):
    return dict(name="cg pre=%d n=%d maxit=%d op=%d sym=%d tol=%d x0zero=%d" % (pre, n, maxit, op, sym, tolk, x0zero), harness="cg",
                params=dict(n=n, maxit=maxit, op=op, pre=pre, sym=sym, tolk=tolk, x0zero=x0zero, verbose=verbose), reach=list(reach), cfg=dict(tol="1e-6", job_timeout=400), cost=n * maxit * 10, **kw)


def jobs(tier):
    out = []
    for pre in (0, 1):
        for n in (1, 2, 3, 5):
            out.append(J(n, 0, 0, pre, n, reach=["limit"]))
            out.append(J(n, 1, 0, pre, n, reach=["limit", "converged"] if 1 < n < 4 and not pre else ["converged"]))
        for n in (1, 2): out.append(J(n, 2, 0, pre, n, reach=["converged"]))
        for n in (1, 2): out.append(J(n, 1, 1, pre, n, reach=["converged"]))
        for tolk in (0, 2):
            for n in (2, 4): out.append(J(n, 1, 0, pre, n, tolk=tolk, reach=["limit" if tolk == 0 else "converged"]))
            out.append(J(3, 2, 2, pre, 1, tolk=tolk, reach=["limit" if tolk == 0 else "converged"]))
        out.append(J(3, 1, 0, pre, 3, x0zero=1, reach=["converged"]))
        out.append(J(2, 1, 1, pre, 2, x0zero=1, reach=["converged"]))
        for x0zero in (0, 1):
            for n in (6, 12, 17, 33): out.append(J(n, 8, 3, pre, 0, x0zero=x0zero, reach=["limit"] if pre or n > 12 else ["converged", "limit"]))
        out.append(J(4, 2, 2, pre, 1, x0zero=1, reach=["converged"]))
        for n in (1, 2, 4):
            for z in (0, 1):
                out.append(dict(name="cg pre=%d n=%d %s" % (pre, n, "zero rhs" if z else "solved guess"), harness="cgzero", params=dict(n=n, pre=pre, zero=z, maxit=3), reach=["done"], cfg=dict(tol="1e-6"), cost=5))
        if tier != "quick":
            out.append(J(3, 2, 0, pre, 3, reach=["converged"]))
            out.append(J(6, 2, 2, pre, 1, reach=["converged"]))
            out.append(J(2, 2, 1, pre, 2, reach=["converged"]))
            out.append(J(6, 1, 0, pre, 6, reach=["converged"]))
    return out

HARNESSES = {"verb": {"src": "verb.c"}, "lbdrive": {"src": "lbdrive.c"}}
MODULES = ["cgsolve", "nesta", "l1qc_newton", "linesearch", "l1c_memory", "l1c_math", "vcl_math", "l1c_logging", "l1qc_dct", "dct"]
BOUNDS = ("all 32-bit verbosity values (both verbosity options of the constrained solver) and, for conjugate gradients, all tolerances in [1e-9,0.5]; complete runs of each solver on fixed data (up to 12 unknowns, 12 CG iterations, "
          "up to 3 continuation/barrier rounds); silence of the constrained solver's driver for all outcomes of its inner steps within the bounds of C14.")
OUTSIDE = "longer runs; the text of the messages; standard error"


def jobs(tier):
    out = []

    def add(what, n, maxit, v=-99, cv=-99, ncont=1, reach=("silent", "printed"), cost=20):
        out.append(dict(name="%s n=%d maxit=%d v=%d cv=%d rounds=%d" % (["cg", "preconditioned cg", "nesta", "l1qc_newton", "l1qc_dct"][what], n, maxit, v, cv, ncont), harness="verb",
                        params=dict(what=what, n=n, maxit=maxit, v=v, cv=cv, ncont=ncont), reach=list(reach), cfg=dict(tol="1e-6", job_timeout=400, max_steps=20000000), cost=cost))
    for what in (0, 1):
        for n, mi in ((2, 3), (4, 6), (12, 8), (12, 12)): add(what, n, mi)
        add(what, 3, 0, reach=["silent"])
        add(what, 3, 4, v=0, reach=["silent"])
    for nc in (1, 2, 3): add(2, 4, 0, ncont=nc)
    add(2, 4, 0, v=1, reach=["printed"])
    for nc in (1, 2):
        add(3, 4, 0, cv=0, ncont=nc)
        add(3, 4, 0, v=0, ncont=nc)
        add(3, 4, 0, v=0, cv=0, ncont=nc, reach=["silent"])
        add(3, 4, 0, v=2, cv=3, ncont=nc, reach=["printed"])
    add(4, 4, 0, cv=0)
    add(4, 4, 0, v=0)
    add(4, 4, 0, v=1, cv=1, reach=["printed"])
    D = dict(n=1, m=1, nmax=3, warm=0, big=0, zero=0, symx=0, symr=0, symmu=1, lbiter=2, verbose=0, maxdir=9, conc=0)
    for m, n, lb in ((1, 1, 2), (2, 2, 1)):
        out.append(dict(name="silent driver m=%d n=%d rounds=%d" % (m, n, lb), harness="lbdrive", params=dict(D, m=m, n=n, lbiter=lb), reach=["solved", "continue"], cfg=dict(tol="1e-6", job_timeout=400, max_paths=20000), cost=100))
    return out

HARNESSES = {"breg": {"src": "breg.c"}}
MODULES = ["bregman", "TV.c", "l1c_math", "l1c_memory", "vcl_math"]
BOUNDS = ("building blocks: every pixel of images 3x3 to 5x4 (threshold and subtraction up to 12 entries), all pixel values in [-5,5] and all weights in [0.1,10]; "
          "whole denoiser: 3x3 to 4x4 images, 0..4 rounds of 0..3 sweeps, (a) every pixel symbolic around images whose differences lie on known sides of the threshold (flat, ramp, vertical edge, horizontal edges), "
          "(b) fixed images with every tolerance in [1e-6,2], (c) fixed images with every weight in a range, (d) single symbolic pixels crossing the threshold."
          " Building blocks also on 9x4, 4x9, 12x13, 17x3, 3x33 and vectors up to 1025 (a few arbitrary entries).")
OUTSIDE = "larger images and more rounds; images with fewer than three rows or columns; rounding (a change within 1e-9 of the tolerance is excluded)"


def J(name, what, n, m, sym=-1, cost=5, reach=("done",), **kw):
    p = dict(what=what, n=n, m=m, sym=sym, coef=0, pat=0, maxit=1, sweeps=1, symtol=0, symmu=0, mu="1.25", mulo="0.1", muhi="5", tol="0", delta="0.05", usetol=0)
    p.update(kw)
    return dict(name=name + " %dx%d" % (n, m) + "".join(" %s=%s" % (k, v) for k, v in kw.items()) + (" sym=%d" % sym if sym >= 0 else ""), harness="breg", params=p, reach=list(reach), cfg=dict(tol="1e-7", job_timeout=300, fork_select=1), cost=cost)


def jobs(tier):
    q = tier == "quick"
    out = []
    for n, m, s in ((1, 1, -1), (1, 2, -1), (1, 3, -1), (2, 2, 2), (1, 7, 3), (3, 4, 5), (4, 3, 4)): out.append(J("threshold", 0, n, m, s))
    for n, m in ((1, 1), (1, 5), (3, 4)): out.append(J("difference", 1, n, m))
    shapes = ((3, 3), (3, 4), (4, 3), (5, 3), (3, 5), (4, 4), (5, 4))
    for n, m in shapes:
        out.append(J("sweep", 2, n, m))
        out.append(J("sweep", 2, n, m, coef=2))
        out.append(J("right-hand side", 3, n, m))
        out.append(J("inverse diagonal", 4, n, m))
        out.append(J("Jacobi", 5, n, m))
        out.append(J("Hessian", 6, n, m))
    for n, m in ((9, 4), (4, 9), (12, 13), (17, 3), (3, 33)):   # size thresholds
        for k, nm in enumerate(("difference", "sweep", "right-hand side", "inverse diagonal", "Jacobi", "Hessian")):
            out.append(J(nm, k + 1, n, m, 7 if nm == "sweep" and n * m > 60 else -1, cost=20))
    for n, m in ((1, 64), (9, 9), (1, 1025)): out.append(J("threshold", 0, n, m, n * m // 2)); out.append(J("threshold", 0, n, m, n * m - 1))
    out.append(J("sweep", 2, 3, 3, coef=1))
    out.append(J("sweep", 2, 3, 3, coef=1, sym=4))
    for n, m in ((3, 3), (3, 4), (4, 3)) if q else ((3, 3), (3, 4), (4, 3), (4, 4), (5, 3)):
        for pat in range(4):
            for it, sw in ((1, 1), (2, 1), (3, 1), (2, 2), (1, 3), (0, 1), (2, 0)) + (() if q else ((4, 1), (3, 2), (4, 2))):
                out.append(J("denoiser all pixels", 7, n, m, pat=pat, maxit=it, sweeps=sw, delta="0.05" if pat == 1 else "0.002", cost=50))
        for pat in (1, 4, 2):
            out.append(J("denoiser tolerance", 7, n, m, sym=0, pat=pat, maxit=4 if q else 8, symtol=1, usetol=1, sweeps=1, reach=["done", "converged"], cost=100))
            out.append(J("denoiser tolerance", 7, n, m, sym=0, pat=pat, maxit=3 if q else 6, symtol=1, usetol=1, sweeps=2, reach=["done", "converged"], cost=100))
        for pat in (1, 4):
            out.append(J("denoiser weight", 7, n, m, sym=0, pat=pat, maxit=2 if q else 3, symmu=1, cost=100))
    for k in (0, 1, 4, 5, 8):
        for pat in (1, 4):
            out.append(J("denoiser pixel", 7, 3, 3, sym=100 + k, pat=pat, maxit=2, delta="2" if pat == 4 else "30", cost=100))
    return out

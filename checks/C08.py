from axcommon import *
HARNESSES = {"oom": {"src": "oom.c"}}
MODULES = MODS + ["bregman", "nesta", "l1qc", "cgsolve", "linesearch", "l1c_logging"]
BOUNDS = ("the failing request is an arbitrary k in 1..60 (every request each call makes; the check asserts fewer than 60 are made), for all five kinds of set-up (all weight/mode combinations of the composite set), the two solvers, the denoiser, "
          "the one-call cosine recovery and the two-dimensional allocators; first use and use after an earlier set-up was released; followed by a clean retry whose operators are compared with their definition for all data values. Sizes: one or two small shapes each.")
OUTSIDE = "two or more failures in one call; failures inside FFTW, BLAS or the OpenMP runtime themselves; a set-up that fails while another set of the same kind is still in use (the sets are singletons)"
NAMES = {0: "dct1 set-up", 1: "dct2 set-up", 2: "dct set-up", 3: "dctTV set-up", 4: "matrix set-up", 10: "l1qc_newton", 11: "nesta", 12: "breg_anistropic_TV", 13: "l1qc_dct", 14: "2-D allocator"}


def J(what, n, r, c, earlier, mode=1, bp=ANA, tvv=0, tvh=0, cal=0):
    return dict(name="%s n=%d %dx%d mode=%d bp=%d tv=%d%d earlier=%d cal=%d" % (NAMES[what], n, r, c, mode, bp, tvv, tvh, earlier, cal), harness="oom",
                params=dict(what=what, n=n, mrow=r, mcol=c, mode=mode, bp=bp, tvv=tvv, tvh=tvh, earlier=earlier, cal=cal),
                reach=["fault", "failed call", "no fault", "retry"], cfg=dict(tol="1e-6", job_timeout=300), cost=100 if what >= 10 else 10)


def jobs(tier):
    out = []
    for e in (0, 1, 2):
        out += [J(0, 3, 5, 1, e), J(1, 3, 2, 3, e), J(2, 3, 2, 3, e, mode=2), J(2, 3, 2, 3, e, mode=1), J(2, 2, 1, 4, e, mode=2), J(4, 2, 3, 1, e), J(4, 3, 2, 1, e)]
        for bp in (ANA, SYN):
            for v, h in ((1, 1), (1, 0), (0, 1), (0, 0)):
                out += [J(3, 3, 3, 3, e, mode=m, bp=bp, tvv=v, tvh=h) for m in (1, 2)]
    for e in (0, 1):
        for mode in (1, 2):
            out += [J(10, 2, 2, 2, e, mode=mode), J(11, 2, 2, 2, e, mode=mode), J(13, 2, 2, 2, e, mode=mode)]
        out += [J(10, 2, 1, 4, e), J(13, 2, 1, 4, e)]
        out += [J(12, 1, 3, 3, e), J(14, 1, 2, 2, e), J(14, 1, 2, 2, e, cal=1)]
    return out

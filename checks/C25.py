from axcommon import *
HARNESSES = {"l1qcdct": {"src": "l1qcdct.c"}, "oom": {"src": "oom.c"}}
MODULES = MODS + ["l1qc_dct", "l1c_logging"]
BOUNDS = ("all measurements, old output contents and option values, arbitrary solver outcomes (solution, statistics, any status), 1-D and 2-D modes, image shapes up to 3x4 including single rows and columns, all index sets of small "
          "images, unaligned measurement arrays; every out-of-range position, every non-positive size, sizes whose product exceeds the integer range; the k-th memory or plan request failing for every k."
          " Also 5x7, 33x1, 2x13, 6x7.")
OUTSIDE = "larger images; the behaviour of the solver itself (C10-C14)"


def jobs(tier):
    out = []

    def add(n, r, c, mode, idx=1, op=-1, shift=0, bad=0, fail=0, verbose=0):
        out.append(dict(name="n=%d %dx%d mode=%d idx=%d op=%d shift=%d bad=%d fail=%d verbose=%d" % (n, r, c, mode, idx, op, shift, bad, fail, verbose), harness="l1qcdct",
                        params=dict(n=n, mrow=r, mcol=c, mode=mode, idxmode=idx, op=op, shift=shift, bad=bad, fail=fail, verbose=verbose),
                        reach=["rejected"] if bad else ["failed"] if fail else ["solved"], cfg=dict(tol="1e-6", job_timeout=300), cost=r * c))
    for n, r, c in ((3, 5, 1), (2, 1, 4), (3, 2, 3), (4, 3, 2), (5, 3, 4), (1, 1, 1), (4, 2, 2)):
        for n, r, c, mode in ((11, 5, 7, 2), (17, 33, 1, 1), (9, 2, 13, 2), (20, 6, 7, 1)): add(n, r, c, mode, shift=1)   # size thresholds
    for mode in (1, 2):
            for shift in (0, 1): add(n, r, c, mode, shift=shift, verbose=shift)
            add(n, r, c, mode, fail=1)
    for n, r, c, mode in ((11, 5, 7, 2), (17, 33, 1, 1), (9, 2, 13, 2), (20, 6, 7, 1)): add(n, r, c, mode, shift=1)   # size thresholds
    for mode in (1, 2):
        add(2, 2, 2, mode, idx=0, shift=1)
        add(2, 3, 1, mode, idx=0)
        for op in range(9): add(3, 2, 3, mode, op=op)
        for bad in (1, 2, 3, 4, 5, 6): add(3, 2, 3, mode, bad=bad)
    import C08
    out += [j for j in C08.jobs(tier) if j["name"].startswith("l1qc_dct")]
    return out

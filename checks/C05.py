from axcommon import *
HARNESSES = {"axset": {"src": "axset.c"}, "tvnorm": {"src": "tvnorm.c"}, "tvsyn": {"src": "tvsyn.c"}}
MODULES = MODS
BOUNDS = ("Composite set, analysis and synthesis, 1-D and 2-D cosine part, every combination of zero/positive weights in [0.01,20]; all vectors with "
          "entries in [-10,10]; shapes 3x3, 3x4, 4x3 (quick) plus 4x4, 5x3, 3x6 (thorough) and 1xk/kx1/2x2 without weights; arbitrary single sample "
          "position, fixed spread and reversed patterns; all nine operators; reported norm for shapes up to 40x40."
          " Also 5x7, 8x3 and 3x9.")
OUTSIDE = "larger images; more general sample patterns; rounding"


def jobs(tier):
    q = tier == "quick"
    out = []
    for sh in [(3, 3), (3, 4), (4, 3)] + ([] if q else [(4, 4), (5, 3), (3, 6)]):
        m = sh[0] * sh[1]
        for bp in (ANA, SYN):
            for tv in range(4):
                if q and tv == 0 and sh != (3, 4): continue
                for op in range(9):
                    for n, idx in ((4, 1), (m, 2)) + (() if q else ((1, 0),)):
                        if q and idx == 2 and sh != (3, 4): continue
                        out.append(job(S_TV, n, sh[0], sh[1], op, mode=2 if (tv + sh[1]) % 2 or tv == 3 else 1, bp=bp, tvv=tv & 1, tvh=tv >> 1, idx=idx))
    for sh, mode in (((1, 5), 2), ((5, 1), 2), ((2, 2), 2), ((2, 3), 1)):
        for bp in (ANA, SYN):
            for op in range(9): out.append(job(S_TV, 2, sh[0], sh[1], op, mode=mode, bp=bp, idx=1))
    for sh in ((5, 7), (8, 3), (3, 9)) if q else ((5, 7), (7, 5), (9, 4), (4, 9)):   # size thresholds
        for bp in (ANA, SYN):
            for tv in (1, 2, 3):
                for op in range(9):
                    if q and (op + tv + sh[0]) % 2: continue
                    out.append(job(S_TV, sh[0] * sh[1] // 3, sh[0], sh[1], op, mode=2, bp=bp, tvv=tv & 1, tvh=tv >> 1, idx=1))
    for (a, b) in [(3, 3), (3, 4), (7, 3), (40, 40)]:
        for tv in range(4):
            for bp in (ANA, SYN):
                out.append(dict(name="norm %dx%d tv=%d bp=%d" % (a, b, tv, bp), harness="tvnorm", params=dict(mrow=a, mcol=b, tvv=tv & 1, tvh=tv >> 1, bp=bp),
                                cfg=dict(tol="1e-6"), reach=["done"]))
    for tv in range(4):
        out.append(dict(name="synthesis dictionary size tv=%d" % tv, harness="tvsyn", params=dict(tvv=tv & 1, tvh=tv >> 1), reach=["done"]))
    return out

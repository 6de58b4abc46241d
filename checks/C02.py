from axcommon import *
HARNESSES = {"axset": {"src": "axset.c"}}
MODULES = MODS
BOUNDS = ("1-D set (direct and through the top-level setup, single-row, single-column and 1-D mode images); all signals/measurements with entries "
          "in [-10,10]; all ordered lists of distinct positions for signal length <= 4 (quick) / <= 5 (thorough), fixed spread and reversed "
          "patterns up to length 12 / 24; all nine operators; prior output contents arbitrary."
          " Also lengths 16, 17, 31 and 33 for every operator and 64, 130 and 300 for the sampling and identity ones.")
OUTSIDE = "longer signals; rounding"


def jobs(tier):
    q = tier == "quick"
    out = []
    for m in range(1, 5 if q else 6):
        for n in range(1, m + 1):
            if q and m == 4 and n == 4: continue
            for op in range(9): out.append(job(S_DCT1, n, m, 1, op, idx=0))
    for m in ((5, 6, 7, 8, 9, 12) if q else range(5, 25)):
        for n in sorted({1, m // 2, m}):
            for op in range(9):
                out.append(job(S_DCT1, n, m, 1, op, idx=1))
                if n > 1: out.append(job(S_DCT1, n, m, 1, op, idx=2))
    for m in ((16, 17, 31, 33) if q else (31, 32, 33, 48, 64, 65)):   # size thresholds
        for op in range(9): out.append(job(S_DCT1, m // 3, m, 1, op, idx=1 + op % 2))
    for m in (64, 130, 300):
        for op in range(5, 9): out.append(job(S_DCT1, m // 3, m, 1, op, idx=1 + op % 2))
    # through the dispatcher
    for (mr, mc, mode) in [(1, 5, 1), (1, 5, 2), (5, 1, 1), (5, 1, 2), (2, 3, 1), (3, 2, 1), (4, 3, 1)]:
        for op in range(9): out.append(job(S_DCT, 2, mr, mc, op, mode=mode, idx=1))
    return out

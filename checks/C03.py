from axcommon import *
HARNESSES = {"axset": {"src": "axset.c"}}
MODULES = MODS
BOUNDS = ("2-D set, direct and through the top-level setup; all images/measurements with entries in [-10,10]; all ordered lists of distinct positions "
          "for 2x2 and all pairs for 2x3, 3x2 (quick; plus 3x3, 2x4, 4x2 thorough), fixed spread and reversed patterns for shapes up to 5x4, 2x9, 9x2 (quick) "
          "/ 8x8 (thorough); all nine operators; prior output contents arbitrary."
          " Also 8x4, 4x8, 6x7, 2x17, 17x2, 12x3 for every operator and 12x11, 17x15 for the sampling and identity ones.")
OUTSIDE = "larger images; rounding"


def jobs(tier):
    q = tier == "quick"
    out = []
    for op in range(9):
        for n in (1, 2, 3, 4): out.append(job(S_DCT2, n, 2, 2, op, mode=2, idx=0))
        for sh in [(2, 3), (3, 2)] + ([] if q else [(3, 3), (2, 4), (4, 2)]):
            out.append(job(S_DCT2, 2, sh[0], sh[1], op, mode=2, idx=0))
        for sh in ([(3, 3), (3, 4), (4, 3), (5, 2), (2, 5), (5, 4), (2, 9), (9, 2)] if q else [(a, b) for a in range(2, 9) for b in range(2, 9)] + [(2, 17), (17, 2)]):
            m = sh[0] * sh[1]
            for n in sorted({1, m // 2, m}): out.append(job(S_DCT2, n, sh[0], sh[1], op, mode=2, idx=1))
            out.append(job(S_DCT2, m - 1, sh[0], sh[1], op, mode=2, idx=2))
        for sh in ((8, 4), (4, 8), (6, 7), (2, 17), (12, 3), (17, 2)) if q else ((8, 16), (16, 8), (11, 10), (33, 2), (2, 33)):   # size thresholds
            out.append(job(S_DCT2, sh[0] * sh[1] // 3, sh[0], sh[1], op, mode=2, idx=1 + op % 2))
        for sh in ((12, 11), (17, 15)):
            if op > 4: out.append(job(S_DCT2, sh[0] * sh[1] // 3, sh[0], sh[1], op, mode=2, idx=1 + op % 2))
        for sh in [(2, 2), (2, 3), (3, 2), (4, 3), (2, 5)]:
            out.append(job(S_DCT, 2, sh[0], sh[1], op, mode=2, idx=1))
    return out

from axcommon import *
HARNESSES = {"axset": {"src": "axset.c"}}
MODULES = MODS
BOUNDS = ("every matrix with entries in [-5,5] of every shape up to 6x6 (quick) / 9x9 (thorough) plus 2x17, 3x16; all vectors in [-10,10]; all nine operators, after another operator call"
          " Also up to 33 rows or columns on selected shapes.")
OUTSIDE = "larger matrices; rounding"


def jobs(tier):
    M = 6 if tier == "quick" else 9
    out = []
    for m in range(1, M + 1):
        for n in range(1, M + 1):
            for op in range(9):
                out.append(job(S_MAT, n, m, 1, op))
    for (n, m) in ((2, 17), (3, 16), (1, 33), (33, 1), (17, 2), (9, 8), (8, 9), (12, 5), (4, 20)):
        for op in range(9): out.append(job(S_MAT, n, m, 1, op))
    for pre in range(9):
        for op in range(9): out.append(job(S_MAT, 2, 3, 1, op, pre=pre))
    return out

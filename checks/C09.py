HARNESSES = {"mem": {"src": "mem.c"}}
MODULES = ["l1c_memory", "l1c_math", "vcl_math"]
BOUNDS = ("l1c_malloc_double and each row of l1c_malloc_double_2D: every 32-bit element count >= 0; zeroing variants: counts 0..40 (thorough 0..130) plus 64, 65, 127; "
          "2-D: 0..5 rows (thorough 0..9), every position of a single failing allocation."
          " Also zeroed counts up to 4097, 2-D up to 33 rows and 1000 columns.")
OUTSIDE = "negative counts; the _mm_malloc configuration (not the configured one); zeroing of longer arrays"


def jobs(tier):
    q = tier == "quick"
    J = lambda name, kind, n, nrow, fail, reach: dict(name=name, harness="mem", params=dict(kind=kind, n=n, nrow=nrow, fail=fail), reach=reach, cost=n * max(nrow, 1))
    out = [J("malloc any count", 0, 0, 3, 0, ["got"]), J("malloc any count, failing", 0, 0, 3, 1, ["null"])]
    for n in (list(range(0, 41)) + [64, 65, 127, 128, 129, 512, 513, 1000, 4097] if q else list(range(0, 131)) + [512, 513, 1000, 4097, 10001]):
        out.append(J("calloc %d" % n, 1, n, 2, 0, ["got"]))
    out.append(J("calloc failing", 1, 5, 1, 1, ["null"]))
    for nr in range(0, 6 if q else 10):
        out.append(J("malloc_2D %d rows" % nr, 2, 0, nr, 0, ["got"]))
        for n in (0, 1, 2, 3, 7, 8, 9, 16, 17) if q else range(0, 40):
            out.append(J("calloc_2D %dx%d" % (nr, n), 3, n, nr, 0, ["got"]))
        for f in range(1, nr + 2):
            out.append(J("malloc_2D %d rows, allocation %d fails" % (nr, f), 2, 0, nr, f, ["null"]))
            out.append(J("calloc_2D %d rows, allocation %d fails" % (nr, f), 3, 3, nr, f, ["null"]))
    for nr, n in ((9, 5), (17, 2), (33, 3), (3, 200), (2, 1000)): out.append(J("calloc_2D %dx%d" % (nr, n), 3, n, nr, 0, ["got"]))
    for nr in (17, 33): out.append(J("malloc_2D %d rows" % nr, 2, 0, nr, 0, ["got"]))
    for nr in (9, 17): out.append(J("malloc_2D %d rows, allocation %d fails" % (nr, nr + 1), 2, 0, nr, nr + 1, ["null"]))
    return out

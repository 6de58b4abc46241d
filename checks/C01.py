HARNESSES = {"tv": {"src": "tv.c"}}
MODULES = ["TV.c"]
LEVEL = "other"
BOUNDS = ("All real pixel values in [-100,100] and scale factors in [-50,50], six operators; every shape with 2..6 rows and columns plus "
          "2x33, 33x2, 9x17 and 17x8 (quick); 2..12 by 2..12 plus 2x129, 129x2, 31x33 (thorough); 1 and 3 OpenMP threads."
          " also 40x25, 25x40, 130x2, 2x130, 64x5, 5x64, 65x3, 3x65, 300x3, 3x300, 1030x2, 2x1030.")
OUTSIDE = "other shapes; floating-point rounding"
NAMES = ["Dx", "DxT", "DxTDx", "Dy", "DyT", "DyTDy"]


def jobs(tier):
    if tier == "quick":
        shapes = [(n, m) for n in range(2, 7) for m in range(2, 7)] + [(2, 33), (33, 2), (9, 17), (17, 8), (40, 25), (25, 40), (2, 130), (130, 2), (64, 5), (5, 64), (65, 3), (3, 65), (300, 3), (3, 300), (1030, 2), (2, 1030)]
    else:
        shapes = [(n, m) for n in range(2, 13) for m in range(2, 13)] + [(2, 129), (129, 2), (31, 33)]
    out = []
    for o in range(6):
        for n, m in shapes:
            out.append(dict(name="%s %dx%d" % (NAMES[o], n, m), params=dict(n=n, m=m, op=o, threads=1 if (n + m) % 2 else 3),
                            cfg=dict(tol="1e-6"), reach=["done"], cost=n * m))
    return out

HARNESSES = {"nfifo": {"src": "nfifo.c"}, "nsetup": {"src": "nsetup.c"}, "ndrive": {"src": "ndrive.c"}, "nreject": {"src": "nreject.c"}, "nfull": {"src": "nfull.c"}}
MODULES = ["nesta", "l1c_memory", "l1c_math", "vcl_math", "l1c_logging"]
BOUNDS = ("sizes: all 32-bit values; window: every sequence of 1..25 values; schedule: all measurements, back-projections and coefficients, all smoothing and tolerance targets, 1..6 rounds, up to 10 coefficients "
          "(4 symbolic at a time); driver: for arbitrary outcomes of the evaluation and the projection (C15, C16), every sequence of objective values of up to 24 iterations of one round (thorough 40; all "
          "tolerances) and 4 iterations in each of 2..3 rounds, symbolic vectors for up to 12 iterations, and the 10000-iteration cap on one sequence; whole solver with real evaluation and projection on fixed data for "
          "every tolerance, against an independent implementation of the method.")
OUTSIDE = "longer histories; zero continuation rounds; objective values that are zero or negative; rounding"


def D(name, reach=("short",), to=400, cost=50, **kw):
    p = dict(n=1, m=1, p=1, K=3, ncont=1, cap=0, gsym=0, verbose=0, conc=0)
    p.update(kw)
    return dict(name="driver " + name, harness="ndrive", params=p, reach=list(reach), cfg=dict(tol="1e-7", job_timeout=to, max_steps=20000000), cost=cost)


def jobs(tier):
    q = tier == "quick"
    out = [dict(name="sizes", harness="nreject", params={}, reach=["rejected"], cfg={}, cost=1)]
    for k in (1, 9, 10, 11, 12, 20, 21, 25): out.append(dict(name="window %d" % k, harness="nfifo", params=dict(pushes=k), reach=["done"], cfg=dict(tol="1e-9"), cost=1))
    for nc in (1, 2, 3, 5, 6):
        for n, m, p, fr, to in ((1, 1, 1, 0, 1), (2, 3, 3, 0, 3), (1, 2, 4, 0, 4), (2, 3, 9, 5, 9), (2, 2, 10, 0, 3), (2, 4, 2, 0, 2)):
            if nc in (3, 6) and p > 4 and q: continue
            out.append(dict(name="schedule n=%d m=%d p=%d ncont=%d" % (n, m, p, nc), harness="nsetup", params=dict(n=n, m=m, p=p, ncont=nc, missing=0, which=to - 1, **{"from": fr, "to": to}), reach=["done"], cfg=dict(tol="1e-7", job_timeout=300), cost=20))
    for miss in (1, 2, 3, 4):
        out.append(dict(name="missing operator %d" % miss, harness="nsetup", params=dict(n=1, m=1, p=1, ncont=1, missing=miss, which=0, **{"from": 0, "to": 1}), reach=["rejected"], cfg={}, cost=1))
    out.append(D("history", K=24 if q else 40, reach=["short", "long"], cost=1000))
    out.append(D("history m=2 vectors", K=12, m=2, n=2, p=3, gsym=1, cost=500))
    out.append(D("history m=3 vectors", K=6, m=3, n=2, p=2, gsym=1, cost=400))
    out.append(D("two rounds", K=3, m=1, ncont=2, cost=300))
    out.append(D("two rounds vectors", K=2, m=2, ncont=2, gsym=1, cost=300))
    out.append(D("three rounds", K=2, m=1, ncont=3, cost=300))
    out.append(D("four rounds fixed values", K=14, m=3, n=2, p=4, ncont=4, conc=1, reach=[], cost=300))
    out.append(D("iteration cap", cap=1, ncont=1, m=1, reach=["cap"], cost=2000))
    for s, nc in ((0, 1), (1, 1), (2, 1), (3, 2), (4, 1), (5, 2)):
        out.append(dict(name="whole solver data=%d ncont=%d" % (s, nc), harness="nfull", params=dict(seed=s, ncont=nc, maxk=25 if q else 60), reach=["done"], cfg=dict(tol="1e-6", job_timeout=500, max_steps=20000000), cost=1500))
    return out

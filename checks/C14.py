HARNESSES = {"lbdrive": {"src": "lbdrive.c"}, "lbfeas": {"src": "lbfeas.c"}, "lbwhole": {"src": "lbwhole.c"}}
MODULES = ["l1qc_newton", "linesearch", "l1c_memory", "l1c_math", "vcl_math", "l1c_logging", "cgsolve"]
BOUNDS = ("driver loop: all outcomes of direction, step bound and line search, all options (newton_tol in [0.01,1], l1_tol in [0.001,1], mu in [1.5,20]), warm-start modes 0,1,2, up to 3 rounds and 4 Newton steps per round, length 1..3; "
          "starting points: all in [-20,20]^m (norm >= 0.01) and the zero vector, residuals in [-5,5]^n, radius in [0.1,4], m,n 1..3; number of rounds for all tolerances exp([-4,2]); feasibility of what is returned: all starts, directions "
          "and functional values for length 1; complete runs on fixed data (length 2..4) for all values of both Newton stop tolerances in [1e-4,0.1]"
          " Also starts of length 9 and complete runs of length 9 and 17.")
OUTSIDE = "more rounds/steps, larger problems, rounding; complete runs on arbitrary data (composed from C10-C13)"
D = dict(n=1, m=1, nmax=3, warm=0, big=0, zero=0, symx=0, symr=0, symmu=1, lbiter=2, verbose=0, maxdir=9, conc=0)


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(name, reach, cost=10, **kw):
        out.append(dict(name=name, harness="lbdrive", params=dict(D, **kw), reach=reach, cfg=dict(tol="1e-6", job_timeout=400 if q else 2000, max_paths=20000), cost=cost))
    allr = ["line search failed", "gradient small", "l1 stalls", "continue", "solved"]
    for warm in (0, 1, 2):
        add("loop warm=%d m=1" % warm, allr, warm=warm)
        add("loop warm=%d m=2 n=2" % warm, allr, warm=warm, m=2, n=2)
    add("loop one round, 4 steps", allr, nmax=5, lbiter=1, m=2, warm=2)
    add("loop three rounds", allr, nmax=3, lbiter=3)
    add("long round", ["solved", "continue"], nmax=70, lbiter=1, m=2, warm=1, conc=1)
    add("many rounds", ["solved", "continue"], nmax=4, lbiter=24, m=1, warm=2, conc=1)
    add("no Newton steps", ["solved"], nmax=1, lbiter=2)
    for big in (0, 1):
        for m, n in [(1, 1), (2, 1), (1, 2), (3, 2), (9, 5)]:
            add("start big=%d m=%d n=%d" % (big, m, n), ["infeasible", "solved"], m=m, n=n, big=big, symx=1, symr=1, lbiter=1, nmax=2, maxdir=0)
    add("zero start m=1 n=1", ["infeasible", "solved"], zero=1, symr=1, lbiter=0)
    add("zero start m=2 n=3", ["infeasible", "solved"], zero=1, symr=1, lbiter=0, m=2, n=3)
    add("rounds m=1", ["solved"], lbiter=0, symmu=0, nmax=2, maxdir=0)
    add("rounds m=3", ["solved"], lbiter=0, symmu=0, nmax=2, m=3, maxdir=0)
    for sg, vs in [(1, 1), (1, -1), (-1, 1), (-1, -1)]:
        out.append(dict(name="feasible sign=%d,%d" % (sg, vs), harness="lbfeas", params=dict(sign=sg, vs=vs, halve=3 if q else 8), reach=["stepped"], cfg=dict(tol="1e-6", job_timeout=200 if q else 1500, max_paths=20000), cost=50))
    for m, n, w in [(2, 1, 0), (3, 2, 1), (4, 2, 2), (9, 4, 0), (17, 6, 1)]:
        out.append(dict(name="whole m=%d n=%d" % (m, n), harness="lbwhole", params=dict(m=m, n=n, warm=w, nmax=30), reach=["done"], cfg=dict(tol="1e-6", job_timeout=400, max_paths=20000), cost=50))
    return out

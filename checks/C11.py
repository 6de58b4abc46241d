HARNESSES = {"ls": {"src": "ls.c"}}
MODULES = ["linesearch", "l1c_memory", "l1c_math", "vcl_math", "l1c_logging"]
BOUNDS = ("both line searches; vector length 1..3 (quick) / 1..5 (thorough); every start, direction and objective value sequence (values in [-100,100], each of the first four and the last "
          "also infinite or NaN); every slope, alpha in [0.001,0.5], start step in (0,1] and shrink factor in [0.05,0.95] (start 0.75 and factor 0.5 for the long runs); all 33 outcomes."
          " Also length 8, 17 and 65.")
OUTSIDE = "longer vectors; NaN slopes; objective functions that keep references to the trial arrays"


def jobs(tier):
    q = tier == "quick"
    out = []
    for two in (0, 1):
        for m in range(1, 4 if q else 6):
            out.append(dict(name="ls two=%d m=%d" % (two, m), harness="ls", params=dict(m=m, two=two, special=-1, fixed=1), reach=["accepted", "failed"],
                            cfg=dict(tol="1e-9", job_timeout=600), cost=100))
        for m in (8, 17, 65):   # size thresholds
            out.append(dict(name="ls two=%d m=%d" % (two, m), harness="ls", params=dict(m=m, two=two, special=-1, fixed=1), reach=["accepted", "failed"],
                            cfg=dict(tol="1e-9", job_timeout=600), cost=150))
        sp = [1, 2, 3, 1 + 4 * 2, 2 + 4 * 1, 2 + 4 * 2 + 16 * 2, 4 * 2, 4 * 3, 16 * 2, 16 * 1 + 64 * 2, 256, 512, 768, 513] if q else range(1, 1024)
        for s in sp:
            out.append(dict(name="ls two=%d special values %d" % (two, s), harness="ls", params=dict(m=1, two=two, special=s, fixed=1), reach=["accepted"],
                            cfg=dict(tol="1e-9", job_timeout=600), cost=80))
        out.append(dict(name="ls two=%d any shrink factor" % two, harness="ls", params=dict(m=2, two=two, special=-1, fixed=0), reach=["accepted"],
                        cfg=dict(tol="1e-9", job_timeout=600), cost=200))
    return out

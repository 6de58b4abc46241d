from axcommon import *
HARNESSES = {"argcheck": {"src": "argcheck.c"}, "argmat": {"src": "argmat.c"}, "argkeep": {"src": "argkeep.c"}}
MODULES = MODS
BOUNDS = ("All 32-bit values of rows, columns and positions, every count up to 2 (thorough: 4) including all negative ones, both cosine modes and problem modes, weights "
          "zero/positive/negative in [-100,100]; the underlying 1-D/2-D set-ups are replaced by recorders here (their own behaviour is C02/C03/C08). "
          "Matrix set-up: all 32-bit sizes for rejection, 1..5 for acceptance. Live-set preservation: 3x4 sets of each kind against every rejected call, all operators.")
OUTSIDE = "lists longer than 2 (4); not-a-number weights"


def jobs(tier):
    k = 2 if tier == "quick" else 4
    out = [dict(name="dct arguments mode=%d" % m, harness="argcheck", params=dict(which=0, mode=m, bp=1, k=k), reach=["rejected", "1d"] + ["2d"] * (m == 2), cost=100, cfg=dict(job_timeout=800))
           for m in (1, 2)]
    out += [dict(name="dctTV arguments mode=%d bp=%d" % (m, bp), harness="argcheck", params=dict(which=1, mode=m, bp=bp, k=k), reach=["rejected", "1d"] + ["2d"] * (m == 2),
                 cost=100, cfg=dict(job_timeout=800)) for m in (1, 2) for bp in (1, 2)]
    out += [
           dict(name="matrix arguments", harness="argmat", params={}, reach=["rejected", "accepted"])]
    sets = [(S_DCT, 1, 1, 0, 0), (S_DCT, 2, 1, 0, 0), (S_TV, 2, ANA, 1, 1), (S_TV, 2, SYN, 1, 0), (S_TV, 1, SYN, 0, 1), (S_TV, 2, ANA, 0, 0), (S_MAT, 1, 1, 0, 0)]
    for (s, mode, bp, v, h) in sets:
        for which in (0, 1, 2):
            for op in range(9):
                if tier == "quick" and (op + which + mode) % 3 != (0 if s != S_TV else op % 3): continue
                out.append(dict(name="live set %d mode=%d bp=%d tv=%d%d, rejected call to set-up %d, then %s" % (s, mode, bp, v, h, which, OPS[op]), harness="argkeep",
                                params=dict(set=s, mode=mode, bp=bp, tvv=v, tvh=h, which=which, op=op), cfg=dict(tol="1e-6"), reach=["done"]))
    return out

from axcommon import *
HARNESSES = {"axset": {"src": "axset.c"}}
MODULES = MODS
BOUNDS = ("every ordered pair of operator calls on each kind of set (1-D, 2-D, cosine+differences in both modes and all weight on/off combinations, matrix), selected triples "
          "(thorough: all triples on the 1-D, 2-D and composite sets), "
          "and set-up / use / release / set-up again with larger, smaller and transposed sizes; all data values in [-10,10], arbitrary old output contents; signals of 4 to 9 entries.")
OUTSIDE = "longer histories (each operator's persistent state is overwritten by every call, which the pairs exercise); larger sizes; rounding"


def jobs(tier):
    q = tier == "quick"
    out = []
    sets = [(S_DCT1, 3, 5, 1, 1, ANA, 0, 0), (S_DCT2, 4, 3, 2, 2, ANA, 0, 0), (S_MAT, 2, 3, 1, 1, ANA, 0, 0)]
    sets += [(S_TV, 3, 3, 3, mode, bp, v, h) for bp in (ANA, SYN) for (v, h, mode) in ((1, 1, 2), (1, 0, 1), (0, 1, 2), (0, 0, 2))]
    for (s, n, r, c, mode, bp, v, h) in sets:
        for op in range(9):
            for pre in range(9):
                if q and s == S_TV and not (v and h) and (op + pre) % 2: continue
                out.append(job(s, n, r, c, op, mode=mode, bp=bp, tvv=v, tvh=h, pre=pre))
                if s == S_MAT or (s == S_TV and v != h): continue
                for pre2 in range(9):
                    if q and (op * 3 + pre + pre2 * 5) % 27: continue
                    out.append(job(s, n, r, c, op, mode=mode, bp=bp, tvv=v, tvh=h, pre=pre, pre2=pre2))
        for op in range(9):
            if s == S_MAT: alts = [(1, 2, 1), (3, 4, 1), (1, 1, 1)]
            elif s == S_DCT1: alts = [(2, 3, 1), (4, 9, 1), (3, 5, 1), (5, 5, 1)]
            elif s == S_DCT2: alts = [(3, 2, 3), (6, 4, 4), (2, 2, 2), (4, 3, 2)]
            else: alts = [(5, 3, 4), (2, 3, 3)]
            for k, (n2, r2, c2) in enumerate(alts):
                for ag in ((1, 3) if s == S_TV else (1,)):
                    if q and s == S_TV and (op + k + ag // 2) % 2: continue
                    out.append(job(s, n, r, c, op, mode=mode, bp=bp, tvv=v, tvh=h, again=ag, n2=n2, mrow2=r2, mcol2=c2, premask=(0x1ff if op % 2 else 1 << op)))
    return out

S_DCT1, S_DCT2, S_DCT, S_TV, S_MAT = range(5)
OPS = ["Mx", "Mty", "Ax", "Aty", "AtAx", "Rx", "Rty", "Wz", "Wtx"]
ANA, SYN = 1, 2
MODS = ["dct", "TV.c", "matrix_transforms", "l1c_memory", "l1c_math", "vcl_math"]
FFTW_NOTE = "plan creation is modelled as leaving the arrays untouched or, for planning effort above ESTIMATE, as arbitrary; execution is the exact REDFT matrix product"


def job(set, n, mrow, mcol, op, mode=1, bp=ANA, tvv=0, tvh=0, idx=1, pre=-1, pre2=-1, again=0, n2=1, mrow2=1, mcol2=1, premask=0, tol="1e-6", **kw):
    nm = ["dct1", "dct2", "dct", "dctTV", "matrix"][set]
    name = "%s n=%d %dx%d mode=%d bp=%d tv=%d%d idx=%d %s" % (nm, n, mrow, mcol, mode, bp, tvv, tvh, idx, OPS[op])
    if pre >= 0: name += " after " + OPS[pre] + ("," + OPS[pre2] if pre2 >= 0 else "")
    if again: name += " re-setup%d from n=%d %dx%d" % (again, n2, mrow2, mcol2)
    d = dict(name=name, harness="axset", params=dict(set=set, n=n, mrow=mrow, mcol=mcol, op=op, mode=mode, bp=bp, tvv=tvv, tvh=tvh, idxmode=idx,
             pre=pre, pre2=pre2, again=again, n2=n2, mrow2=mrow2, mcol2=mcol2, premask=premask), cfg=dict(tol=tol), reach=["done"], cost=mrow * mcol)
    d.update(kw)
    return d

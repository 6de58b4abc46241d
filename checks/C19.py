HARNESSES = {"kern": {"src": "kern.c"}}
MODULES = ["l1c_math", "vcl_math", "l1c_memory", "l1c_logging"]
BOUNDS = ("every kernel, every length 0..19 (quick) / 0..40 and 64..67 (thorough), all values in [-1000,1000] (positive with magnitude 0.001..1000 for the logarithm sums, plus "
          "fixed entries of 1e120 and 1e-120 around a symbolic one), all scale factors; maximum, absolute values and 1-norm: all values for length 0..7, windows of 4 symbolic entries that together cover every position beyond; "
          "arrays exactly as long as requested and longer ones with guard entries behind; two and three threads."
          " Also lengths 31..33, 63..65, 100, 127..129, 255..257, 1000, 1025 (windows of four arbitrary entries for the kernels that distinguish cases per entry).")
OUTSIDE = "other lengths; the accuracy of the vendored vector logarithm (modelled as log per lane); rounding"
NAMES = ["daxpby", "init_vec", "dxmuly_z", "daxpby_z", "daxpy_z", "dnorm1", "dsum", "dlogsum", "dnrm2_rel_err", "dnrm2_err", "max_vec", "abs_vec", "abs_vec in place",
         "vcl_logsum", "vcl_sum", "vcl_dxMy_pz", "daxpby macro"]


def J(k, n, pad, fr, to, big=0, neg=0, th=2):
    return dict(name="%s n=%d pad=%d sym=%d..%d big=%d neg=%d threads=%d" % (NAMES[k], n, pad, fr, to, big, neg, th), harness="kern",
                params=dict(kernel=k, n=n, pad=pad, to=to, big=big, neg=neg, **{"from": fr}), reach=["done"], cfg=dict(tol="1e-9", nthreads=th), cost=n)


def jobs(tier):
    out = []
    sizes = list(range(0, 20)) if tier == "quick" else list(range(0, 41)) + [64, 65, 66, 67]
    for k in range(17):
        for n in sizes:
            for pad in (0, 1):
                if k == 8 and n == 0: continue
                if k in (5, 10, 11, 12) and n > 7:   # a sign or an order per entry may be a case distinction
                    fs = range(0, n - 3) if pad else (0, n - 4)
                    if k != 10: fs = sorted(set(range(0, n - 3, 4)) | {n - 4})
                    for f in fs: out.append(J(k, n, pad, f, f + 4))
                    continue
                out.append(J(k, n, pad, 0, n, th=3 if pad else 2))
                if k in (7, 13) and n:
                    out.append(J(k, n, pad, 0, n, neg=1))
                    if n > 2:
                        for big in (1, 2):
                            out.append(J(k, n, pad, 0, 1, big=big))
                            out.append(J(k, n, pad, n - 1, n, big=big))
    # beyond the small lengths: thresholds (unrolling, blocking, parallel cut-offs) live at powers of two
    for k in range(17):
        for n in ((31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025) if tier == "quick" else
                  (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097)):
            if k in (5, 8, 9, 10, 11, 12):
                for f in (0, n // 2, n - 4): out.append(J(k, n, n % 2, f, f + 4))
            elif k in (7, 13):
                out.append(J(k, n, n % 2, n - 4, n))
                out.append(J(k, n, n % 2, n // 2, n // 2 + 4))
            else:
                out.append(J(k, n, n % 2, 0, n, th=3))
    return out

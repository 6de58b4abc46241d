HARNESSES = {"json": {"src": "json.c"}}
BOUNDS = ("all byte contents of files of 1..12 bytes (any byte; no zero byte for the parsed variant); every single file operation failing, every allocation failing; all item types, missing names, names differing in case or by a prefix, NULL document, "
          "all integer values and all numbers in [-1e6,1e6], arrays of 0..6 numbers, every allocation failing."
          " Also files of 64 and 255 bytes and arrays of 17 and 64 numbers.")
OUTSIDE = "the JSON parser itself (modelled); arrays that hold non-numbers; empty files; longer files and arrays"
ASSUMPTIONS = ["fopen/fseek/ftell/rewind/fread/fclose and the cJSON accessors are modelled after their documentation; a failing fread delivers a prefix"]


def jobs(tier):
    out = []

    def add(name, reach, **kw):
        p = dict(what=2, len=0, ops=0, mem=0, dir=0, parses=1, n=0, kind=0, null=0, order=0)
        p.update(kw)
        out.append(dict(name=name + "".join(" %s=%d" % (k, v) for k, v in kw.items()), harness="json", params=p, reach=reach, cfg=dict(tol="1e-9"), cost=5))
    for ln in (1, 2, 3, 7, 12, 64, 255):
        add("text", ["loaded"], what=0, len=ln)
        for d in (0, 1): add("text file fault", ["loaded", "fault"], what=0, len=ln, ops=1, dir=d)
        add("text memory fault", ["loaded", "fault"], what=0, len=ln, mem=1)
        add("json", ["loaded"], what=1, len=ln)
        add("json bad text", ["no parse"], what=1, len=ln, parses=0)
        add("json file fault", ["loaded", "fault"], what=1, len=ln, ops=1)
        add("json memory fault", ["loaded", "fault"], what=1, len=ln, mem=1)
    for kind in (0, 1, 2, 3):
        for order in (0, 1, 2): add("item", ["found", "refused"] if order < 2 else ["refused"], kind=kind, order=order, n=2)
        add("item", ["refused"], kind=kind, null=1, n=1)
    for kind in (2, 3):
        for n in (0, 1, 3, 6, 17, 64):
            add("array", ["found", "refused"], kind=kind, n=n)
            add("array memory fault", ["fault"] if n else [], kind=kind, n=n, mem=1)
    return out

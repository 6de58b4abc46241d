#!/opt/veriftools/pyvenv/bin/python3
"""Driver:  run.py <PROPERTY> [--tier quick|thorough]  [--job SUBSTR] [-v]

Regenerates the encoding from /repo's working tree, runs every job of the property's specification
(checks/<PROPERTY>.py) through the symbolic executor, replays counterexamples against a native build of the
same sources, and writes /verif/evidence/<PROPERTY>.json.
exit 0: held on everything decided within the bounds (an INCOMPLETE line names what was not decided);
1: violation (reproduced natively); 2: no verdict (machinery failure, or more than half of the jobs undecided)."""
import argparse
import glob
import importlib.util
import json
import multiprocessing
import os
import pickle
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "checks"))

CLANG_FLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-fopenmp", "-march=x86-64-v3",
               "-D_GNU_SOURCE", "-w"]
OPT = ["opt", "-passes=function(sroa<modify-cfg>,simplifycfg)", "-S"]
WRAPS = ("malloc calloc posix_memalign aligned_alloc free fftw_plan_r2r_1d fftw_plan_r2r_2d fftw_plan_r2r "
         "fftw_execute fftw_execute_r2r cblas_ddot cblas_dnrm2 cblas_dasum cblas_idamax cblas_dcopy cblas_dswap cblas_dscal cblas_daxpy cblas_daxpby cblas_dgemv "
         "fftw_destroy_plan printf vprintf puts putchar fprintf fputs fputc fwrite fflush").split()
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-sanitize=float-divide-by-zero"]


class Fatal(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise Fatal("command failed: %s\n%s" % (" ".join(cmd), (r.stderr or r.stdout)[-3000:]))
    return r.stdout


def repo_sources():
    fs = sorted(glob.glob(REPO + "/src/*.c")) + sorted(glob.glob(REPO + "/src/vcl/*.cpp"))
    out = []
    for f in fs:
        t = open(f, errors="replace").read()
        if os.path.basename(f) == "check_pthreads.c" and re.search(r"\bmain\s*\(", t):
            continue
        out.append(f)
    return out


def incs():
    return ["-I", HERE + "/include", "-I", REPO + "/include", "-I", REPO + "/include/vcl", "-I", REPO + "/src", "-I", REPO + "/src/vcl", "-I", REPO]


def to_ir(src, out, extra=()):
    std = ["-std=gnu++11", "-fno-exceptions", "-fno-rtti"] if src.endswith(".cpp") else ["-std=gnu11"]
    cc = "clang++" if src.endswith(".cpp") else "clang"
    raw = out + ".raw.ll"
    sh([cc] + CLANG_FLAGS + std + incs() + list(extra) + ["-S", "-emit-llvm", src, "-o", raw])
    sh(OPT + [raw, "-o", out])
    return out


class Native:
    """native builds for replay, made on demand"""

    def __init__(self, scratch, spec):
        self.scratch = scratch
        self.spec = spec
        self.objs = {}
        self.exes = {}
        self.vg = 0

    def repo_objs(self, kind):
        if kind in self.objs: return self.objs[kind]
        d = os.path.join(self.scratch, "nat_" + kind)
        os.makedirs(d, exist_ok=True)
        pre = os.path.join(d, "pre.h")
        with open(pre, "w") as f:
            f.write("#ifndef VPPRE\n#define VPPRE\n#include <stddef.h>\n#ifdef __cplusplus\nextern \"C\"\n#endif\n"
                    "void* vp_assume_aligned(const void*, size_t, ...);\n#endif\n")

        def one(s):
            o = os.path.join(d, os.path.basename(s) + ".o")
            cc, std = ("g++", "-std=gnu++11") if s.endswith(".cpp") else ("gcc", "-std=gnu11")
            if kind == "tsan": cc = {"gcc": "clang", "g++": "clang++"}[cc]
            fl = self.flags(kind) + ["-include", pre]
            if not s.endswith(".cpp"):
                fl.append("-D__builtin_assume_aligned(p,a)=vp_assume_aligned(p,a)")
            sh([cc, std] + fl + incs() + ["-c", s, "-o", o])
            if not s.endswith(".cpp"):
                sh(["objcopy", "--weaken", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            self.objs[kind] = list(ex.map(one, repo_sources()))
        return self.objs[kind]

    def flags(self, kind):
        base = ["-U_FORTIFY_SOURCE", "-g", "-fPIC", "-w", "-fno-builtin", "-fopenmp", "-march=x86-64-v3", "-D_GNU_SOURCE", "-ffp-contract=off"]
        if kind == "asan":
            return base + ["-O1", "-ftrivial-auto-var-init=pattern"] + SAN
        if kind == "asan0":  # the optimiser may sink or drop an overflowing operation
            return base + ["-O0", "-ftrivial-auto-var-init=pattern"] + SAN
        if kind == "tsan":
            return base + ["-O0", "-fsanitize=thread", "-Domp_get_thread_num=vp_omp_thread_num", "-Domp_get_num_threads=vp_omp_num_threads"]
        return base + ["-O0"]

    def exe(self, harness, kind):
        k = (harness, kind)
        if k in self.exes: return self.exes[k]
        h = self.spec.HARNESSES[harness]
        objs = self.repo_objs(kind) if h.get("repo", True) else []
        d = os.path.join(self.scratch, "nat_" + kind)
        src = os.path.join(ROOT, "harness", h["src"])
        cc = "g++" if src.endswith(".cpp") else "gcc"
        if kind == "tsan": cc = {"gcc": "clang", "g++": "clang++"}[cc]
        ho = os.path.join(d, "h_%s.o" % harness)
        sh([cc] + self.flags(kind) + incs() + h.get("cflags", []) + h.get("native_cflags", []) + ["-I", ROOT + "/harness", "-c", src, "-o", ho])
        no = os.path.join(d, "vp_native.o")
        if not os.path.exists(no):
            sh(["clang" if kind == "tsan" else "gcc"] + [f for f in self.flags(kind) if f != "-fno-builtin"] + ["-I", HERE + "/include", "-c", HERE + "/native/vp_native.c", "-o", no])
        drop = h.get("drop", [])
        objs = [o for o in objs if not any(os.path.basename(o).startswith(x) for x in drop)]
        out = os.path.join(d, "replay_%s" % harness)
        san = SAN[:1] if kind.startswith("asan") else []
        wr = [w for w in WRAPS if w not in h.get("nowrap", [])]
        omp = ["-fopenmp"]
        cxx = "g++"
        if kind == "tsan":   # own runtime, so that the sanitizer sees the synchronisation
            ko = os.path.join(d, "kmpc.o")
            sh(["clang", "-O0", "-g", "-w", "-fPIC", "-fsanitize=thread", "-c", HERE + "/native/kmpc_tsan.c", "-o", ko])
            cxx, san, omp = "clang++", ["-fsanitize=thread"], [ko, "-lgomp", "-lpthread"]
        sh([cxx] + san + ["-o", out, ho, no] + omp[:1] + objs + ["-Wl," + ",".join("--wrap=" + w for w in wr)] +
           h.get("libs", []) + omp[1:] + ["-Wl,--no-as-needed", "-lfftw3_omp", "-lfftw3", "-lcjson"] + blas() + ["-lm"])
        self.exes[k] = out
        return out

    def run(self, harness, kind, params, tol, inputs, path=None, timeout=60):
        exe = self.exe(harness, kind)
        p = path or tempfile.mktemp(dir=self.scratch, suffix=".replay")
        write_replay(p, params, tol, inputs)
        return self.run_file(exe, kind, p, timeout)

    def run_file(self, exe, kind, p, timeout=60):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=76:allocator_may_return_null=1:abort_on_error=0",
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=76:print_stacktrace=0", OPENBLAS_NUM_THREADS="1", TSAN_OPTIONS="exitcode=76:halt_on_error=1:report_thread_leaks=0",
                   OMP_NUM_THREADS=os.environ.get("VP_OMP", "2"), OMP_WAIT_POLICY="passive")
        cmd = [exe, p]
        if kind == "vg":
            env["VP_NOFILL"] = "1"
            cmd = ["valgrind", "-q", "--error-exitcode=76", "--undef-value-errors=yes"] + cmd
            timeout = 60
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
            return r.returncode, r.stderr.decode("latin-1")[-1500:]
        except subprocess.TimeoutExpired:
            return -14, "timeout"


_blas = None


def blas():
    global _blas
    if _blas is None:
        _blas = ["-lblas"]
        for c in (["-lopenblas"], ["-lcblas", "-lblas"], ["-lblas"]):
            with tempfile.TemporaryDirectory() as d:
                f = d + "/t.c"
                open(f, "w").write("double cblas_ddot(int,double*,int,double*,int);int main(){return cblas_ddot!=0?0:1;}")
                if subprocess.run(["gcc", f, "-o", d + "/t"] + c, stderr=subprocess.DEVNULL).returncode == 0:
                    _blas = c
                    break
    return _blas


def write_replay(p, params, tol, inputs):
    with open(p, "w") as f:
        for k, v in params.items():
            f.write("P %s %s\n" % (k, v))
        if tol is not None: f.write("T tol %s\n" % float(tol))
        for k, n, v in inputs:
            f.write("%s %s %s\n" % (k, n, repr(v) if k == "r" else v))


REPRO = {76, 77, -11, -6, -7, -8, -4}


def reproduced(rc, kind):
    if rc in REPRO: return True
    if rc == -14 and kind == "termination": return True
    return False


# ------------------------------------------------------------------ job execution (in a forked child)
G = {}


def run_job(job):
    import exec as X
    import externs
    import z3
    sys.setrecursionlimit(20000)
    z3.set_param("memory_max_size", 4000)
    z3.set_param("smt.random_seed", int(os.environ.get("VERIF_SEED", "1") or 1))
    cfg = dict(job.get("cfg", {}))
    cfg["params"] = job.get("params", {})
    cfg["rng"] = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    ov = job.get("overrides")
    if ov: cfg["overrides"] = getattr(G["spec"], ov)
    mods = [G["hmods"][job["harness"]]] + (G["mods"] if G["spec"].HARNESSES[job["harness"]].get("repo", True) else [])
    if G["spec"].HARNESSES[job["harness"]].get("drop"):
        mods = [m for m in mods if not any(m.name.startswith(x) for x in G["spec"].HARNESSES[job["harness"]]["drop"])]
    eng = X.Engine(mods, externs.EXT, cfg)
    hook = job.get("hook")
    if hook: getattr(G["spec"], hook)(eng, job)
    eng.run_all(job.get("entry", "vp_main"))
    if cfg.get("race"): eng.findings = [f for f in eng.findings if f["kind"] == "race"]
    return dict(stats=eng.stats, functions=sorted(eng.functions), findings=eng.findings, undecided=eng.undecided,
                reached=eng.reached, witnesses=eng.sat_witnesses, worst=eng.worst, wall=time.time() - eng.t0,
                notes=getattr(eng, "notes", []))


def child(job, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        r = run_job(job)
    except MemoryError:
        r = dict(error="out of memory")
    except Exception:
        r = dict(error=traceback.format_exc()[-3000:])
    try:
        conn.send(r)
    except Exception as e:
        conn.send(dict(error="send: %s" % e))
    conn.close()


def pool(jobs, ncpu, hard_deadline, verbose, on_result=None):
    ctx = multiprocessing.get_context("fork")
    pend = list(enumerate(jobs))
    # longest first where a hint is given
    pend.sort(key=lambda x: -x[1].get("cost", 0))
    live = {}
    res = [None] * len(jobs)
    stop = False
    while pend or live:
        if stop:
            for i, j in pend: res[i] = dict(skipped="not started: a violation was already confirmed")
            for i, (p, a, t, j) in live.items():
                p.kill()
                p.join()
                res[i] = dict(skipped="stopped: a violation was already confirmed")
            break
        if time.time() > hard_deadline:
            for i, j in pend: res[i] = dict(skipped="not started within the time limit of this tier")
            pend = []
        while pend and len(live) < ncpu:
            i, j = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(j, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time(), j)
        done = []
        multiprocessing.connection.wait([v[1] for v in live.values()], timeout=1.0)
        for i, (p, a, t, j) in live.items():
            if a.poll():
                try:
                    res[i] = a.recv()
                except EOFError:
                    p.join(1)
                    res[i] = dict(error="job process died (exit %s)" % p.exitcode)
                done.append(i)
            elif not p.is_alive():
                res[i] = dict(error="job process died (exit %s)" % p.exitcode)
                done.append(i)
            elif time.time() - t > j.get("cfg", {}).get("job_timeout", 300) + 120 or time.time() > hard_deadline:
                p.kill()
                res[i] = dict(skipped="stopped at its time limit")
                done.append(i)
        for i in done:
            p, a, t, j = live.pop(i)
            a.close()
            p.join()
            if verbose:
                r = res[i]
                print("  job %-40s %6.1fs %s" % (j["name"], time.time() - t, r.get("error") or r.get("skipped") or
                      "paths=%(paths)d feas=%(feasible)d q=%(queries)d solver=%(solver_s).1f asserts=%(asserts)d norm=%(normalised)d" % r["stats"]), flush=True)
                if not r.get("error") and not r.get("skipped"):
                    for x in r["undecided"][:4]: print("     UNDECIDED", x)
                    for x in r["findings"][:4]: print("     FINDING", x["kind"], x["label"])
            if on_result and not stop and res[i].get("findings"): stop = on_result(j, res[i]["findings"])
    return res


def load_spec(pid):
    s = importlib.util.spec_from_file_location("spec_" + pid, os.path.join(ROOT, "checks", pid + ".py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def known_findings():
    out = []
    p = os.path.join(ROOT, "known-findings.json")
    if os.path.exists(p):
        out = json.load(open(p)).get("known", [])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--ncpu", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % a.pid)
    try:
        rc = go(a, scratch, t0)
    except Fatal as e:
        print("NO-VERDICT property=%s %s" % (a.pid, e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def go(a, scratch, t0):
    from ir import Module
    spec = load_spec(a.pid)
    jobs = spec.jobs(a.tier)
    if a.job: jobs = [j for j in jobs if a.job in j["name"]]
    for j in jobs: j.setdefault("harness", next(iter(spec.HARNESSES)))
    used = sorted(set(j["harness"] for j in jobs))
    # --- encoding
    work = []
    if any(spec.HARNESSES[h].get("repo", True) for h in used):
        for s in repo_sources():
            work.append((s, os.path.join(scratch, os.path.basename(s) + ".ll"), []))
    for h in used:
        hh = spec.HARNESSES[h]
        work.append((os.path.join(ROOT, "harness", hh["src"]), os.path.join(scratch, "harness_%s.ll" % h), ["-I", ROOT + "/harness"] + hh.get("cflags", [])))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda w: to_ir(*w), work))
    G["spec"] = spec
    G["mods"], G["hmods"] = [], {}
    for s, o, _ in work:
        b = os.path.basename(o)
        if b.startswith("harness_"):
            G["hmods"][b[8:-3]] = Module(open(o).read(), b)
        else:  # every module: code may move between files
            G["mods"].append(Module(open(o).read(), b))
    t_enc = time.time() - t0
    limit = getattr(spec, "TIME_LIMIT", {}).get(a.tier, 640 if a.tier == "quick" else 6 * 3600)
    nat = Native(scratch, spec)
    if not a.no_native:
        import threading
        pre = threading.Thread(target=lambda: prebuild(nat, used))
    kf = [k for k in known_findings() if k["property"] == a.pid]

    def known(j, f):
        for k in kf:
            if re.fullmatch(k["job"], j["name"]) and re.search(k["label"], f["kind"] + ": " + f["label"]): return k
    replayed = {}

    def early(j, fs):
        """replays a job's first findings at once; a confirmed one ends the run"""
        hit = False
        for f in fs[:2]:
            if known(j, f) is not None or len(replayed) > 40 or time.time() > t0 + limit: continue
            replayed[id(f)] = replay(nat, j, f)
            hit = hit or replayed[id(f)][0]
            if hit: break
        return hit
    res = pool(jobs, a.ncpu, t0 + limit, a.v, None if a.no_native else early)
    # --- aggregate
    tot = {}
    funcs = set()
    undec, errors, finds, wit = [], [], [], []
    reached = {}
    badjobs = set()
    for j, r in zip(jobs, res):
        if r.get("error"):
            errors.append("%s: %s" % (j["name"], r["error"]))
            continue
        if r.get("skipped"):
            undec.append("%s: %s" % (j["name"], r["skipped"]))
            badjobs.add(j["name"])
            continue
        if r["undecided"]: badjobs.add(j["name"])
        for k, v in r["stats"].items(): tot[k] = tot.get(k, 0) + v
        funcs |= set(r["functions"])
        for x in r["undecided"]: undec.append("%s: %s" % (j["name"], x))
        for f in r["findings"]: finds.append((j, f))
        for w in r["witnesses"][:2]: wit.append((j, w))
        for k, v in r["reached"].items(): reached[k] = reached.get(k, 0) + v
        miss = [l for l in j.get("reach", []) if l not in r["reached"]]
        if (miss or r["stats"]["feasible"] == 0) and not r["findings"]: badjobs.add(j["name"])
        if miss and not r["findings"]:
            undec.append("%s: required point not reached on any feasible path: %s" % (j["name"], ", ".join(miss)))
        if r["stats"]["feasible"] == 0 and not r["findings"]:
            undec.append("%s: no feasible path completed" % j["name"])
    # --- replay
    viol, unrepro, knownhit = [], [], set()
    rdir = os.path.join(ROOT, "replays")
    seen = set()
    finds = [x for x in finds if id(x[1]) in replayed and replayed[id(x[1])][0]] + [x for x in finds if not (id(x[1]) in replayed and replayed[id(x[1])][0])]
    head, tail = finds[:8], finds[8:]
    random.Random(1).shuffle(tail)
    for j, f in head + tail:
        if time.time() > t0 + limit + 150: break
        key = (j["name"], f["kind"], f["label"])
        if len(viol) >= 3 or len(unrepro) >= 150 or viol and id(f) not in replayed: break
        if key in seen: continue
        hit = known(j, f)
        if hit is not None:
            knownhit.add(hit["what"])
            continue
        if a.no_native:
            unrepro.append((j, f, "not replayed"))
            continue
        ok, detail, used_inputs, kind = replayed.get(id(f)) or replay(nat, j, f)
        if ok:
            seen.add(key)
            os.makedirs(rdir, exist_ok=True)
            base = os.path.join(rdir, "%s_%s_%d" % (a.pid, re.sub(r"\W+", "_", j["name"])[:60], len(viol)))
            write_replay(base + ".in", dict(j.get("params", {}), **f.get("extra", {})), j.get("cfg", {}).get("tol"), used_inputs)
            with open(base + ".sh", "w") as s:
                s.write("#!/bin/sh\n# %s: %s\n# %s\nexec %s %s --replay %s --harness %s --kind %s\n" % (
                    a.pid, (f["kind"] + " " + f["label"]).replace("\n", " "), detail.replace("\n", "\n# ")[:800], os.path.join(HERE, "replay.py"), a.pid, base + ".in", j["harness"], kind))
            os.chmod(base + ".sh", 0o755)
            viol.append((j, f, detail, base + ".sh"))
        else:
            unrepro.append((j, f, detail))
    # --- validate the encoding on sat witnesses
    nval = mism = 0
    mnotes = []
    if not a.no_native and not viol:
        rnd = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        wit = [w for w in wit if w[0].get("native", True)]
        rnd.shuffle(wit)
        sel = wit[:getattr(spec, "NWITNESS", 24)]
        for h in sorted(set(j["harness"] for j, _ in sel)): nat.exe(h, "asan")

        def one(w):
            j, inp = w
            return j, nat.run(j["harness"], "asan", j.get("params", {}), j.get("cfg", {}).get("tol"), inp)
        with ThreadPoolExecutor(8) as ex:
            for j, (rc, d) in ex.map(one, sel):
                nval += 1
                if rc != 0:
                    mism += 1
                    mnotes.append("%s: rc=%s %s" % (j["name"], rc, d.strip()[:300]))
    wall = time.time() - t0
    level = getattr(spec, "LEVEL", "other")
    ev = dict(property=a.pid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, wall_s=round(wall, 2),
              coverage=dict(
                  explanation="Solver-based symbolic execution of the compiled (LLVM IR) sources; every listed obligation was decided over all "
                              "values of the symbolic inputs within the bounds. " + spec.BOUNDS,
                  functions_encoded=sorted(f for f in funcs),
                  functions_encoded_count=len(funcs),
                  bounds=spec.BOUNDS, outside_bounds=getattr(spec, "OUTSIDE", ""),
                  jobs=len(jobs), paths_explored=tot.get("paths", 0), feasible_paths=tot.get("feasible", 0),
                  assertions=tot.get("asserts", 0), assertions_discharged_by_normalisation=tot.get("normalised", 0),
                  solver_queries=tot.get("queries", 0), solver_unsat=tot.get("unsat", 0), solver_sat=tot.get("sat", 0), solver_unknown=tot.get("unknown", 0),
                  solver_seconds=round(tot.get("solver_s", 0.0), 2), encode_seconds=round(t_enc, 2), loop_steps=tot.get("steps", 0),
                  reached=reached, undecided=len(undec) + len(errors), counterexamples_unreproduced=len(unrepro),
                  witnesses_replayed_natively=nval, witness_mismatches=mism, witness_mismatch_notes=mnotes[:5],
                  samples=[dict(job=j["name"], params=j.get("params", {})) for j in jobs[:3]]),
              assumptions=getattr(spec, "ASSUMPTIONS", []) + COMMON_ASSUME,
              violations=len(viol))
    ev["coverage"]["violation_details"] = [dict(job=j["name"], kind=f["kind"], label=f["label"], replay=p, native=d.strip()[-400:]) for j, f, d, p in viol]
    ev["coverage"]["undecided_details"] = (errors + undec)[:20] + ["%s: %s: %s (counterexample of the encoding not reproduced natively)" % (j["name"], f["kind"], f["label"]) for j, f, d in unrepro[:10]]
    if level == "model_checking":
        ev["coverage"].update(states=tot.get("paths", 0), transitions=tot.get("queries", 0), traces_validated_against_impl=nval)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not a.job:
        with open(os.path.join(ROOT, "evidence", a.pid + ".json"), "w") as fo:
            json.dump(ev, fo, indent=1, default=str)
            fo.write("\n")
    for k in kf:
        if k["what"] in knownhit:
            print("KNOWN-FINDING: property=%s %s" % (a.pid, k["what"]))
    print("%s tier=%s jobs=%d paths=%d queries=%d (unsat %d, sat %d, unknown %d) solver=%.1fs asserts=%d normalised=%d witnesses=%d/%d wall=%.1fs" % (
        a.pid, a.tier, len(jobs), tot.get("paths", 0), tot.get("queries", 0), tot.get("unsat", 0), tot.get("sat", 0), tot.get("unknown", 0),
        tot.get("solver_s", 0), tot.get("asserts", 0), tot.get("normalised", 0), nval - mism, nval, wall))
    for m in mnotes[:5]: print("WITNESS-MISMATCH", m)
    if viol:
        for j, f, d, p in viol:
            print("job %s: %s: %s" % (j["name"], f["kind"], f["label"]))
            print("   native: %s" % d.strip().splitlines()[0][:300] if d.strip() else "")
            print("VIOLATION property=%s replay=%s" % (a.pid, p))
        return 1
    for e in errors[:5]: print("ERROR", e)
    for u in undec[:10]: print("UNDECIDED", u)
    for j, f, d in unrepro[:5]:
        print("UNREPRODUCED counterexample in %s: %s: %s | %s" % (j["name"], f["kind"], f["label"], d[:400]))
        if a.v: print("     ", f["inputs"][:40])
    badjobs |= set(j["name"] for j, _, _ in unrepro)
    if errors or len(badjobs) * 2 > len(jobs):
        print("NO-VERDICT property=%s" % a.pid)
        return 2
    if badjobs:
        # what was decided held; the rest is stated here and in the evidence, not passed over in silence
        print("INCOMPLETE property=%s %d of %d jobs not fully decided" % (a.pid, len(badjobs), len(jobs)))
    return 0


def prebuild(nat, used):
    try:
        nat.repo_objs("asan")
    except Fatal:
        pass


def replay(nat, j, f):
    if f["kind"] == "race":
        i, k = f["race"]
        last = ""
        for extra in ({"vp_race_i": i, "vp_race_j": k}, {}) if j.get("cfg", {}).get("race") == "sym" else ({}, {"vp_race_i": i, "vp_race_j": k}):
            rc, d = nat.run(j["harness"], "tsan", dict(j.get("params", {}), **extra), j.get("cfg", {}).get("tol"), f["inputs"], timeout=120)
            last = "native rc=%s %s" % (rc, d.strip()[:500])
            if rc == 76:
                f["extra"] = extra
                return True, d, f["inputs"], "tsan"
        return False, last, f["inputs"], "tsan"
    tries = [f["inputs"]] + list(f.get("alts", []))
    last = ""
    kinds = ["asan"]
    if f["kind"] in ("uninitialised",) and nat.vg < 3:
        kinds.append("vg")
        nat.vg += 1
    if f["kind"] == "ub": kinds.append("asan0")
    for kind in kinds:
        for inp in tries:
            if any(x is None for _, _, x in inp): continue
            rc, d = nat.run(j["harness"], kind, j.get("params", {}), j.get("cfg", {}).get("tol"), inp)
            last = "native rc=%s %s" % (rc, d.strip()[:500])
            if reproduced(rc, f["kind"]):
                return True, d, inp, kind
    return False, last, f["inputs"], "asan"


COMMON_ASSUME = [
    "double arithmetic is modelled as exact real arithmetic plus the special values NaN/+-inf where they arise from constants, division by zero, "
    "sqrt/log of a non-positive argument; equalities on computed values are decided up to the stated tolerance",
    "BLAS level 1/2 routines and FFTW REDFT plans are modelled by their mathematical definition; clang -O0 code plus SROA is what is executed symbolically",
]

if __name__ == "__main__":
    main()

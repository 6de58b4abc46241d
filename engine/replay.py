#!/opt/veriftools/pyvenv/bin/python3
"""replay.py <PROPERTY> --replay FILE --harness NAME [--kind asan|vg]: rebuild from /repo and run one counterexample."""
import argparse, os, shutil, sys, tempfile
import run
ap = argparse.ArgumentParser()
ap.add_argument("pid"); ap.add_argument("--replay"); ap.add_argument("--harness"); ap.add_argument("--kind", default="asan")
a = ap.parse_args()
d = tempfile.mkdtemp(prefix="vp_replay_")
try:
    n = run.Native(d, run.load_spec(a.pid))
    rc, out = n.run_file(n.exe(a.harness, a.kind), a.kind, a.replay)
    print(out)
    print("REPRODUCED" if run.reproduced(rc, "termination") else "not reproduced", "rc=%d" % rc)
    sys.exit(1 if run.reproduced(rc, "termination") else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)

#!/usr/bin/python3
"""selftest.py [C01 ...]: runs checks with other numbers of workers and other hash seeds; every run must go the same way.

Compares the recorded result of each run (what was executed, counts, digest of outcomes and schedule)."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [f"C{n:02d}" for n in [*range(1, 16), 24, 25, 26, 27]]
N = {"C01": 24, "C05": 24, "C10": 60, "C11": 24}


def runs(check, workers, hashseed, d):
    path = os.path.join(d, f"{check}-{workers}-{hashseed}")
    env = dict(os.environ, JVOSIM_WORKERS=str(workers), JVOSIM_HASHSEED=str(hashseed), JVOSIM_N=os.environ.get("JVOSIM_N", str(N.get(check, 160))),
               JVOSIM_RESULTS=path)
    q = subprocess.run([sys.executable, os.path.join(HERE, "run_check.py"), check], env=env, cwd=HERE, capture_output=True, text=True)
    if q.returncode:
        print(q.stdout + q.stderr)
        return None
    with open(path) as f:
        out = [json.loads(l) for l in f]
    for x in out:
        x[2].get("counts", {}).pop("processes", None)       # a worker asks the oracle only once per question
    return out


bad = 0
for check in sys.argv[1:] or CHECKS:
    with tempfile.TemporaryDirectory(prefix="jvosim-self-") as d:
        a, b = runs(check, 2, 0, d), runs(check, 5, 4242, d)
    if a is None or b is None or len(a) != len(b):
        bad += 1
        print(f"{check}: no comparison")
        continue
    diff = [(x, y) for x, y in zip(a, b) if x != y]
    print(f"{check}: {len(a)} runs, {len(diff)} differ", flush=True)
    if diff:
        bad += 1
        x, y = diff[0]
        for k in sorted(set(x[2]) | set(y[2])):
            if x[2].get(k) != y[2].get(k):
                print("   ", x[1], k, str(x[2].get(k))[:300], "|", str(y[2].get(k))[:300])
sys.exit(bool(bad))

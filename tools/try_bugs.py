#!/usr/bin/python3
"""Developer's tool: tries planted bugs of /verif/seeded against their demonstrations, the stable test and the checks.

usage: try_bugs.py [--no-check] [--checks C01,C02] [id ...]
Everything happens in scratch copies of /repo under /tmp, which are removed again.
"""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def sh(cmd, cwd, env=None, timeout=1000):
    t = time.monotonic()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout,
                           errors="replace")
        return p.returncode, p.stdout + p.stderr, time.monotonic() - t
    except subprocess.TimeoutExpired:
        return 999, "timeout", timeout


def main():
    args = sys.argv[1:]
    nocheck = "--no-check" in args
    checks = None
    if "--checks" in args:
        checks = args[args.index("--checks") + 1].split(",")
        del args[args.index("--checks"):][:0]
        i = args.index("--checks")
        del args[i:i + 2]
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    for b in ids:
        d = os.path.join(SEEDED, b)
        meta = json.load(open(d + "/meta.json"))
        copy = f"/tmp/tb-{os.getpid()}"
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        line = [f"{b:34s} {meta['property']}"]
        out = ""
        try:
            demo = f"/tmp/td-{os.getpid()}"
            shutil.rmtree(demo, ignore_errors=True)
            shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            rc, o, t0 = sh(["sh", demo + "/demo.sh"], copy)
            line.append(f"clean={rc}({t0:.0f}s)")
            if rc:
                out += o[-600:]
            rc, o, _ = sh(["git", "apply", d + "/patch.diff"], copy)
            if rc:
                print(b, "patch does not apply", o)
                continue
            rc, o, t = sh(["sh", demo + "/demo.sh"], copy)
            line.append(f"patched={rc}({t:.0f}s)")
            if rc in (0, 999) or "-v" in args:
                out += o[-600:]
            else:
                line.append((o.strip().splitlines() or [""])[-1][:110])
            rc, o, _ = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests/test_other.py",
                           "-k", "test_is_gismu_dictionary"], copy + "/py",
                          {"PYTHONPATH": copy + "/py", "PYTHONDONTWRITEBYTECODE": "1"})
            line.append("test=ok" if "1 passed" in o else "test=FAIL " + o[-300:])
            print(" ".join(line), flush=True)
            for c in ([] if nocheck else checks or [meta["property"]]):
                rc, o, t = sh([sys.executable, os.path.join(VERIF, "run_check.py"), c, "--tier", "quick"], VERIF,
                              {"JVOSIM_REPO": copy, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                v = [x for x in o.splitlines() if "VIOLATION" in x or "violation" in x.lower()]
                print(f"    {b} {c}: {'CAUGHT' if rc == 1 else 'missed' if rc == 0 else 'ERROR'} {t:.0f}s {' '.join(v)[:400]}"
                      + (o[-800:] if rc not in (0, 1) else ""), flush=True)
        finally:
            if out:
                print(out)
            shutil.rmtree(copy, ignore_errors=True)
            shutil.rmtree(demo, ignore_errors=True)


main()

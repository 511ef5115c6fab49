#!/usr/bin/python3
"""run_check.py <property> | run_check.py --replay <file>

Decides one property by deterministic simulation with fault injection.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  2: harness error."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


def clean_environment():
    """Start over in a fixed environment, so that nothing outside the seed decides a run."""
    keep = {k: os.environ[k] for k in ("VERIF_SEED", "VERIF_TIER", "JVOSIM_REPO", "JVOSIM_WORKERS", "JVOSIM_HASHSEED", "JVOSIM_N", "JVOSIM_RESULTS", "JVOSIM_SHIM", "LD_PRELOAD")
            if k in os.environ}
    env = dict(PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME="/root",
               LC_ALL="C.UTF-8", PYTHONHASHSEED=os.environ.get("JVOSIM_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1",
               JVOSIM_CLEAN="1", TMPDIR=os.environ.get("TMPDIR", "/tmp"))
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            env[k] = os.environ[k]
    if os.environ.get("PATH"):
        env["PATH"] = os.environ["PATH"] + ":" + env["PATH"]
    env.update(keep)
    os.execve(sys.executable, [sys.executable, "-s", os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    if os.environ.get("JVOSIM_CLEAN") != "1":
        clean_environment()
    sys.path.insert(0, HERE)
    from jvosim import core
    core.patient_popen()
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        with open(args[1]) as f:
            data = json.load(f)
        mod = importlib.import_module("jvosim." + data["property"].lower())
        msg = mod.replay(data)
        if msg:
            print(f"reproduced: {msg}")
            print(f"VIOLATION property={data['property']} replay={os.path.abspath(args[1])}")
            return 1
        print("not reproduced on this tree")
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print(f"{prop}: VERIF_SEED={seed} tier={tier}", flush=True)
    mod = importlib.import_module("jvosim." + prop.lower())
    ck = core.Check(prop, tier, seed)
    try:
        return mod.main(ck)
    finally:
        import shutil
        shutil.rmtree(ck.scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("HARNESS ERROR (not a verdict on the property)", flush=True)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

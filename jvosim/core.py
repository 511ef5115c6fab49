"""Core of the simulator: seeds, worker pool, run isolation, evidence, replay files.

One integer (VERIF_SEED) decides everything: run number i of check c uses the
PRNG seeded by H(VERIF_SEED, c, i) and nothing else, so the set of runs does not
depend on how many workers execute them or how fast they are.
"""
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
import gc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JVOSIM_REPO", "/repo")   # overridden only by developers, to try a scratch copy
_monotonic = time.monotonic
_sleep = time.sleep


def h64(*parts) -> int:
    s = "\x1f".join(str(p) for p in parts).encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.sha256(s).digest()[:8], "big")


def rng_for(*parts) -> random.Random:
    return random.Random(h64(*parts))


class HarnessError(Exception):
    """Something is wrong with the machinery (not with the code under test)."""


# ---------------------------------------------------------------- isolation

def read_exact(fd, n, deadline):
    buf = b""
    while len(buf) < n:
        if deadline is not None:
            left = deadline - _monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
        chunk = os.read(fd, min(1 << 16, n - len(buf)))
        if not chunk:
            return b"" if not buf else None
        buf += chunk
    return buf


def cpu_seconds(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            parts = f.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def patiently(start):
    """start(), again and again while the machine has no process to spare."""
    for i in range(100):
        try:
            return start()
        except BlockingIOError:
            _sleep(.05 + .01 * i)
    return start()


def fork():
    return patiently(os.fork)


def patient_popen():
    real = subprocess.Popen._execute_child

    def execute(*a, **k):
        return patiently(lambda: real(*a, **k))
    subprocess.Popen._execute_child = execute


def fork_call(fn, timeout=120.0):
    """Run fn() in a forked child; return ("ok", value), ("err", traceback),
    ("died", status) or ("timeout", cpu_seconds)."""
    r, w = os.pipe()
    pid = fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                payload = pickle.dumps(("ok", fn()))
            except BaseException:
                payload = pickle.dumps(("err", traceback.format_exc()))
            view = memoryview(struct.pack(">Q", len(payload)) + payload)
            while view:
                view = view[os.write(w, view):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    deadline = _monotonic() + timeout
    try:
        head = read_exact(r, 8, deadline)
        if head:
            body = read_exact(r, struct.unpack(">Q", head)[0], deadline)
            if body:
                return pickle.loads(body)
        if head is None:
            cpu = cpu_seconds(pid)
            return ("timeout", cpu)
        return ("died", None)
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)


# ---------------------------------------------------------------- worker pool

def ncpu():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 4


def run_pool(run_one, n_runs, wall_cap, nproc=None, stop_on_violation=True, progress=None):
    """Execute run_one(i) for i in range(n_runs) on forked workers.

    Returns (results: {i: result}, truncated: bool).  run_one returns a dict; a dict
    with a true "violation" entry makes the pool finish only the lower indices, so
    the violation that is reported does not depend on worker timing.
    """
    if stop_on_violation:                                # the runs of a check
        n_runs = min(n_runs, int(os.environ.get("JVOSIM_N", n_runs)))      # tools/selftest.py wants only some
    nproc = min(nproc or int(os.environ.get("JVOSIM_WORKERS", "0")) or ncpu(), max(1, n_runs))
    import mmap
    shared = mmap.mmap(-1, 8)      # lowest violating index so far, +1 (0 = none)
    shared[:8] = struct.pack(">Q", 0)
    t_end = _monotonic() + wall_cap
    procs = []
    gc.collect()
    gc.freeze()
    for w in range(nproc):
        r, wr = os.pipe()
        pid = fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for p in procs:
                    os.close(p[1])
                out = os.fdopen(wr, "wb", buffering=1 << 16)
                for i in range(w, n_runs, nproc):
                    stop = struct.unpack(">Q", shared[:8])[0]
                    if stop_on_violation and stop and i > stop - 1:
                        continue
                    if _monotonic() > t_end:
                        break
                    try:
                        res = run_one(i)
                    except BaseException:
                        res = {"harness_error": traceback.format_exc()}
                    if res.get("violation"):
                        cur = struct.unpack(">Q", shared[:8])[0]
                        if not cur or i + 1 < cur:
                            shared[:8] = struct.pack(">Q", i + 1)
                    pickle.dump((i, res), out)
                    out.flush()
                out.close()
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        procs.append((pid, r, w))
    results = {}
    bufs = {r: b"" for _, r, _ in procs}
    open_fds = set(bufs)
    import io
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 5.0)
        if not ready and _monotonic() > t_end + 300:
            break
        for fd in ready:
            chunk = os.read(fd, 1 << 18)
            if not chunk:
                open_fds.discard(fd)
                os.close(fd)
                continue
            bufs[fd] += chunk
            while bufs[fd]:
                f = io.BytesIO(bufs[fd])
                try:
                    i, res = pickle.load(f)
                except (EOFError, pickle.UnpicklingError, AttributeError, IndexError, ValueError, struct.error):
                    break
                results[i] = res
                bufs[fd] = bufs[fd][f.tell():]
    bad = []
    for pid, _, w in procs:
        try:
            if open_fds:
                os.kill(pid, signal.SIGKILL)
            _, st = os.waitpid(pid, 0)
            if st:
                bad.append((w, st))
        except ChildProcessError:
            pass
    if bad:
        raise HarnessError(f"workers ended abnormally: {bad}")
    if stop_on_violation and os.environ.get("JVOSIM_RESULTS"):
        with open(os.environ["JVOSIM_RESULTS"], "a") as f:
            for i in sorted(results):
                f.write(json.dumps([n_runs, i, results[i]], sort_keys=True, default=repr) + "\n")
    expected = n_runs
    viol = [i for i, r in results.items() if r.get("violation")]
    truncated = len(results) < expected and not viol
    return results, truncated


# ---------------------------------------------------------------- check context

class Check:
    """Book-keeping of one check run: counters, violations, evidence."""

    def __init__(self, prop, tier, seed, level="exploration"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = _monotonic()
        self.cov = {}
        self.assumptions = []
        self.violations = []     # list of (fingerprint, message, case)
        self.known_hits = {}
        self.known = load_known(prop)
        self.scratch = tempfile.mkdtemp(prefix=f"jvosim-{prop}-")

    def quick(self):
        return self.tier != "thorough"

    def scale(self, quick, thorough):
        return quick if self.quick() else thorough

    def report(self, fingerprint, message, case):
        """Record a violation unless the known-findings file lists its fingerprint."""
        if fingerprint in self.known:
            self.known_hits[fingerprint] = self.known[fingerprint]
            return False
        self.violations.append((fingerprint, message, case))
        return True

    def finish(self, evaluations, distinct, rule, samples, **coverage):
        wall = _monotonic() - self.t0
        cov = dict(evaluations=int(evaluations), distinct_nontrivial=int(distinct), rule=rule,
                   samples=samples if samples else ["(none)"])
        cov.update(coverage)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
            f.write("\n")
        os.replace(tmp, os.path.join(d, f"{self.prop}.json"))
        for fp, what in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if not self.violations:
            print(f"{self.prop}: held on {evaluations} evaluations, {distinct} distinct non-trivial, {wall:.1f}s")
            return 0
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, (fp, msg, case) in enumerate(self.violations[:5]):
            path = os.path.join(rdir, f"{self.prop}-seed{self.seed}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, verif_seed=self.seed, fingerprint=fp, message=msg, case=case),
                          f, indent=1, ensure_ascii=True)
                f.write("\n")
            print(f"{self.prop}: {msg}")
            print(f"VIOLATION property={self.prop} replay={path}")
        return 1


def load_known(prop):
    """known_findings.txt: 'known: property=<id> fingerprint=<fp> <what fails>'."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                parts = line.strip().split(" ", 3)
                if len(parts) == 4 and parts[0] == "known:" and parts[1] == f"property={prop}" \
                        and parts[2].startswith("fingerprint="):
                    out[parts[2].split("=", 1)[1]] = parts[3]
    return out


def merge_counts(results, key="counts"):
    total = {}
    for i in sorted(results):
        for k, v in results[i].get(key, {}).items():
            total[k] = total.get(k, 0) + v
    return total


def check_harness_errors(results):
    errs = [(i, r["harness_error"]) for i, r in sorted(results.items()) if r.get("harness_error")]
    if errs:
        raise HarnessError(f"{len(errs)} runs failed in the harness; first is run {errs[0][0]}:\n{errs[0][1]}")


def ddmin(items, fails, max_tests=400):
    """Smallest sublist (by delta debugging) for which fails(sublist) is true."""
    items = list(items)
    tests = 0
    n = 2
    while len(items) >= 1 and tests < max_tests:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and tests < max_tests:
            cand = items[:i] + items[i + size:]
            tests += 1
            if fails(cand):
                items = cand
                reduced = True
                n = max(2, n - 1)
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def per_hour(n, wall):
    return int(n * 3600 / wall) if wall > 0 else 0

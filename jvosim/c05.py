"""C05: every interpreter process gives the same answers."""
import json
import os
import pty
import subprocess
import sys
import threading

from . import core, lib, sched
from .c01 import show
from .pool import Pool

RULE = ("a case is one fresh interpreter process configured by the seed (hash seed, -O/-OO, isolation and UTF-8 flags, locale, "
        "environment, working directory, time zone, clock, random generator, process id, allocator, junk allocations, garbage "
        "collector, recursion limit and stack depth, terminal or closed standard streams, thread, import order, identity of argument strings) that makes a batch of "
        "calls; an evaluation is one call; non-trivial: the process differs from the reference process in its hash seed and at "
        "least one other respect; distinct: by the configuration and the batch")


def gen(pool, env_names, seed, i, nfam):
    r = core.rng_for(seed, "C05", "run", i)
    flags = []
    if r.random() < .4:
        flags.append(r.choice(["-O", "-OO"]))
    for f, p in (("-I", .1), ("-S", .1), ("-s", .1), ("-b", .1), ("-u", .1), ("-q", .05)):
        if r.random() < p:
            flags.append(f)
    if r.random() < .3:
        flags += ["-X", r.choice(["utf8=0", "utf8=1", "dev", "frozen_modules=off", "no_debug_ranges", "tracemalloc"])]
    if "-I" in flags:
        flags.remove("-I")
        flags.append("-P")
    env = {"PYTHONHASHSEED": str(r.choice([0, 1, r.randrange(1 << 32), r.randrange(1 << 32), r.randrange(1 << 32)])),
           "PATH": "/usr/bin:/bin", "HOME": r.choice(["/root", "/nonexistent", "/"])}
    if r.random() < .7:
        env["LC_ALL"] = r.choice(["C", "POSIX", "C.UTF-8", "en_US.UTF-8", "tr_TR.UTF-8", ""])
    if r.random() < .3:
        env["LANG"] = r.choice(["C", "tr_TR", "jbo", "de_DE.ISO-8859-1"])
    if r.random() < .5:
        env["TZ"] = r.choice(["UTC", "Pacific/Kiritimati", "America/St_Johns", "garbage"])
    if r.random() < .3:
        env["PYTHONMALLOC"] = r.choice(["malloc", "pymalloc", "debug", "malloc_debug"])
    for n in env_names:
        if r.random() < .7:
            env[n] = r.choice(["1", "0", "", "true", "false", "x", "ALLOW_Y", "FORCE_Y", "TWO_CONSONANTS", "/tmp", str(r.randrange(100))])
    for _ in range(r.choice([0, 0, 3])):
        env[r.choice(["LOJBAN", "DEBUG", "USER", "TERM", "COLUMNS", "EDITOR", "JVOZBA", "LATKERLO_JVOTCI"])] = r.choice(["1", "", "x" * 50])
    env["SIM_CLOCK"] = str(r.choice([0, 1, 951782400, 1700000000, 2147483647, 2147483648, 4102444800, r.randrange(1, 1 << 32)]))
    env["SIM_CLOCK_STEP"] = str(r.choice([1, 1000, 10 ** 6, 10 ** 9, 3600 * 10 ** 9]))
    env["SIM_RANDOM"] = str(r.randrange(1 << 60))
    env["SIM_PID"] = str(r.randrange(2, 1 << 22))
    mods = [lib.PKG] + [f"{lib.PKG}.{m}" for m in lib.MODULES]
    imports = r.sample(mods, r.randrange(0, len(mods) + 1))
    fams = []
    want = r.choice([8, 16, 30]) if nfam is None else nfam
    for _ in range(want):
        fams.append(pool.pick_family(r))
    calls = [c for f in fams for c in f]
    r.shuffle(calls)
    deep = r.random() < .3
    headroom = r.choice([[3, 4, 5, 6, 7, 8, 9, 10, 12], [4, 6, 8, 12, 16, 24, 40], [8, 15, 30, 60, 100]]) if r.random() < .15 else []
    return {"headroom": headroom, "calls": calls, "flags": flags, "env": env, "imports": imports, "seed": r.randrange(1 << 30), "rng": r.randrange(1 << 30),
            "junk": r.choice([0, 0, 100, 3000]), "gc": r.choice(["on", "on", "off", "busy"]), "thread": r.random() < .2,
            "noise": r.random() < .4, "limit": r.choice([0, 0, 600, 3000, 20000]), "depth": r.choice([10, 100, 200]) if deep else 0,
            "cwd": r.choice(["/", "/tmp", "/usr", core.REPO]),
            "streams": [r.choice([None, None, None, "tty", "closed"]) for _ in range(3)] if r.random() < .5 else None}


def drain(fd):
    """Reads what a process writes to its terminal."""
    try:
        while os.read(fd, 65536):
            pass
    except OSError:
        pass
    finally:
        os.close(fd)


class Env:
    """Scratch files of this check: the process seam and the job files."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.so = os.path.join(scratch, "procsim.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", self.so, os.path.join(core.VERIF, "shim", "procsim.c")], check=True)

    def run(self, case, timeout=120):
        name = os.path.join(self.scratch, f"job-{os.getpid()}")
        with open(name, "w") as f:
            json.dump({k: v for k, v in case.items() if k not in ("env", "flags")}, f)
        env = dict(case["env"], LD_PRELOAD=self.so, JVOSIM_REPO=core.REPO)
        argv = ["/usr/bin/setarch", "-R", sys.executable] + case["flags"] + \
            [os.path.join(core.VERIF, "jvosim", "c05_child.py"), name, name + ".out"]
        kw = {"stdin": subprocess.DEVNULL, "stdout": subprocess.PIPE, "stderr": subprocess.PIPE}
        ends = []
        for n, (how, which) in enumerate(zip(case.get("streams") or [None] * 3, ("stdin", "stdout", "stderr"))):
            if how == "tty":
                if not ends:
                    ends = list(pty.openpty())
                    threading.Thread(target=drain, args=(ends[0],), daemon=True).start()
                kw[which] = ends[1]
            elif how == "closed":
                argv = ["/bin/sh", "-c", f'exec "$@" {n}>&-', "sh"] + argv
        try:
            p = subprocess.run(argv, env=env, cwd=case["cwd"], timeout=timeout, **kw)
        except subprocess.TimeoutExpired:
            return {"failed": f"no end after {timeout} s of processor or wall time"}
        finally:
            if ends:
                os.close(ends[1])       # the last one of the terminal's side: the reader ends, and closes its own
        if p.returncode != 0 or not os.path.exists(name + ".out"):
            return {"failed": f"exit status {p.returncode}: {(p.stderr or b'').decode(errors='replace')[-1500:]}"}
        with open(name + ".out") as f:
            rec = json.load(f)
        os.unlink(name + ".out")
        return rec


def judge(case, rec, expect):
    if "failed" in rec:
        return (None, f"the process failed: {rec['failed']}")
    for c, o in zip(case["calls"], rec["out"]):
        e = expect(c)
        if o != e and not (case.get("headroom") and o == ["exhausted"]):
            return (c, f"{show(c)} gave {json.dumps(o)}, the reference process gives {json.dumps(e)}")
    return None


NEUTRAL = dict(headroom=[], streams=None, flags=[], imports=[], junk=0, gc="on", thread=False, noise=False, limit=0, depth=0, cwd="/")


def minimise(env, case, call, expect):
    """One call, and the fewest differences from a plain process."""
    def fails(c):
        return judge(c, env.run(c), expect) is not None
    best = case
    if call is not None:
        one = dict(case, calls=[call])
        if fails(one):
            best = one
    for k, v in NEUTRAL.items():
        cand = dict(best, **{k: v})
        if best[k] != v and fails(cand):
            best = cand
    for k in sorted(best["env"]):
        if k in ("PATH",):
            continue
        e = dict(best["env"])
        e.pop(k)
        if k == "PYTHONHASHSEED":
            e[k] = "0"
        cand = dict(best, env=e)
        if fails(cand):
            best = cand
    return best


def confirm(env, case, call, expect):
    """A difference that needs the earlier calls of the batch is a matter of C02, not of C05."""
    if call is None:
        return True
    return judge(dict(case, calls=[call]), env.run(dict(case, calls=[call])), expect) is not None


def setup(ck):
    lib.load()
    pool = Pool(ck.seed, "C05", n_families=ck.scale(500, 1500))
    return pool, Env(ck.scratch)


def main(ck):
    pool, env = setup(ck)
    # pilot: which environment variables does the package read at all?
    names = set()
    for n in range(4):
        c = gen(pool, [], ck.seed, -1 - n, 60)
        c.update(NEUTRAL, pilot=True)
        rec = env.run(c)
        names |= set(rec.get("env", []))
    names = sorted(names)[:20]
    n = ck.scale(1500, 30_000)

    def one(i):
        case = gen(pool, names, ck.seed, i, None)
        rec = env.run(case)
        v = judge(case, rec, pool.expect)
        counts = {"calls": len(case["calls"]), "hash_seeds": 1, "optimised": int(any(f.startswith("-O") for f in case["flags"])),
                  "locale": int("LC_ALL" in case["env"]), "deep_stack": int(case["depth"] > 0),
                  "stack_nearly_used_up": int(bool(case["headroom"])),
                  "terminal_streams": (case["streams"] or []).count("tty"), "closed_streams": (case["streams"] or []).count("closed"),
                  "calls_out_of_stack": sum(o == ["exhausted"] for o in rec.get("out", [])),
                  "low_recursion_limit": int(case["limit"] == 600), "gc_busy": int(case["gc"] == "busy"),
                  "gc_off": int(case["gc"] == "off"), "import_orders": int(bool(case["imports"])), "in_thread": int(case["thread"])}
        res = {"counts": counts, "digest": core.h64(json.dumps(case, sort_keys=True))}
        if i < 2:
            res["sample"] = dict({k: v for k, v in case.items() if k != "calls"}, calls=[show(c) for c in case["calls"][:8]])
        if v:
            if confirm(env, case, v[0], pool.oracle.get):
                res["violation"] = (v, case)
            else:
                counts["history_dependent_not_counted"] = 1
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(70, 2400))
    core.check_harness_errors(results)
    viol = sorted((i, r["violation"]) for i, r in results.items() if r.get("violation"))
    for i, (v, case) in viol[:1]:
        small = minimise(env, case, v[0], pool.oracle.get)
        vv = judge(small, env.run(small), pool.oracle.get) or v
        if "reference" not in small:
            small = dict(small, reference=[pool.oracle.get(c) for c in small["calls"]][:5])
        ck.report("process", f"run {i}: {vv[1]}", small)
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(
        counts.get("calls", 0), len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
        [r["sample"] for i, r in sorted(results.items()) if r.get("sample")],
        processes=len(results), counts=counts, environment_names_read=names, pool_calls=len(pool.calls),
        package_lines_reached=len(pool.lines), runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
        faults={k: v for k, v in counts.items() if k != "calls"},
        simulated_time="each process has its own clock: start between 1970 and 2106, 1 ns to 1 h per reading",
        real_code="the whole Python package in real, separate CPython processes",
        stubs="clock, getrandom, getpid of the process (LD_PRELOAD)")


def replay(data):
    import shutil
    import tempfile
    lib.load()
    oracle = lib.Oracle()
    d = tempfile.mkdtemp(prefix="jvosim-replay-")
    try:
        v = judge(data["case"], Env(d).run(data["case"]), oracle.get)
    finally:
        shutil.rmtree(d)
    return v[1] if v else None

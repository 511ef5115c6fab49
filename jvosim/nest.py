"""Runs of calls that start calls: from a signal handler or finalizer in the middle of a call, and in a process forked there.

An op is {"call": c}; with "at" (a step) and perhaps "line"/"nth" and with "nest" (ops), the ops are run in the middle of the
call, on its thread, where CPython would run a signal handler or a finalizer; {"fork": ops} runs the ops in a forked child
that consists of the forking thread alone; with "goes_on", the child then also finishes what it was forked in the middle of."""
import ctypes
import json
import os
import pickle
import random
import signal
import sys
import warnings

from . import core, lib, sched
from .c03 import eligible

LIBC = ctypes.CDLL(None)
FORKING = []        # (scheduler, task) while a simulated thread forks


def _before():
    if FORKING:
        s, t = FORKING[-1]
        s._sync(t)
        s.cur = sched.SIM = None        # the interpreter's own work around a fork is one step


def _after(child=False):
    if FORKING:
        s, t = FORKING[-1]
        if child:
            for x in s.tasks:
                if x is not t:
                    x.blocked_on, x.deadline = "gone", None
                    s.by_ident.pop(x.ident, None)
            s.st = {"kind": "rw", "p": 1e-3}
            s.p = 1e-3
            s.rng = random.Random(s.steps)
            s._draw_gap()
            t.alarm = None
            s.max_steps = s.steps + 20_000_000
        s.cur, sched.SIM = t, s
        s._arm(t)


# registered before the package is loaded: these run next to the fork, inside whatever the package registers
os.register_at_fork(before=_before, after_in_parent=_after, after_in_child=lambda: _after(True))


def calls_of(ops):
    for o in ops:
        if "call" in o:
            yield o["call"]
        yield from calls_of(o.get("nest", ()))
        yield from calls_of(o.get("fork", ()))


def forked(s, t, fn, timeout=60):
    """fn() in a forked child in which only the thread of task t exists."""
    r, w = os.pipe()
    FORKING.append((s, t))
    pid = os.fork()
    FORKING.pop()
    if pid == 0:
        try:
            LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)      # ends with its parent
            os.close(r)
            try:
                res = ("ok", fn())
            except sched.SimAbort:
                res = ("fail", s.failure)
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        except BaseException as e:
            os.write(2, f"harness: {e!r}\n".encode())
        finally:
            os._exit(0)
    os.close(w)
    return collect(r, pid, timeout)


def split(s, t, mine=False):
    """(in_child, answer) as of snapshot(), by a fork of the program: what the package registered for forks runs."""
    r, w = os.pipe()
    if not mine:
        FORKING.append((s, t))
        pid = os.fork()
        FORKING.pop()
    else:
        pid = PYC.fork()
    if pid == 0:
        LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)
        os.close(r)

        def finish(rec):
            try:
                with os.fdopen(w, "wb") as f:
                    pickle.dump(rec, f)
            finally:
                os._exit(0)
        return True, finish
    os.close(w)
    return False, (r, pid)


def execute(case):
    warnings.simplefilter("ignore")
    for c in case.get("warm") or []:
        lib.invoke(c)
    sched.install_clock()
    random.seed(case["seed"])
    s = sched.Sched(case["seed"], case["strategy"], case["gran"], case["max_steps"])
    out, fired, depth_seen = [], [], [0]
    pend = {}
    active = {}
    live_forks = [0, 0]
    goes_on = []        # in a child that finishes the calls it was forked in the middle of: how it ends

    def hook(t, code, where):
        op, path = pend[t.tid]
        if code is None:
            return t.steps + 1
        if case["gran"] == "instr":
            if not eligible(code, where, "KeyboardInterrupt"):
                return t.steps + 1
            line = next((l for st, en, l in code.co_lines() if st <= where < en), 0)
        else:
            line = where
        at = op.get("line")
        if at and (code.co_name != at[0] or line != at[1]):
            return t.steps + 1
        if op["left"] > 1:
            op["left"] -= 1
            return t.steps + 1
        fired.append([code.co_name, line or 0, len(path)])
        depth_seen[0] = max(depth_seen[0], len(path))
        t.alarm = None
        s._arm(t)
        sys.call_tracing(do, (t, op["nest"], path))      # events go on being counted inside
        pend[t.tid] = (op, path)
        return None

    s.hook = hook

    def do(t, ops, path):
        """Run the ops on task t; outcomes go to `out` with the place of the op."""
        for n, op in enumerate(ops):
            here = path + (n,)
            if "fork" in op:
                live_forks[0] += 1
                if any(v for k, v in active.items() if k != t.tid) or len(path) > 1:
                    live_forks[1] += 1

                if op.get("goes_on"):
                    in_child, v = split(s, t)
                    if in_child:
                        goes_on.append(v)
                        del out[:]
                        do(t, op["fork"], here + ("f",))
                        continue
                    st, v = collect(*v, 60)
                else:
                    def child():
                        del out[:]
                        do(t, op["fork"], here + ("f",))
                        return out
                    st, v = forked(s, t, child)
                if st == "ok":
                    out.extend(v)
                else:
                    out.append((here, "fork", v))
                continue
            args = lib.fresh_args(op["call"])
            if "nest" in op:
                s._sync(t)
                pend[t.tid] = (dict(op, left=op.get("nth", 1)), here)
                t.alarm = t.steps + op["at"]
                s._arm(t)
            active[t.tid] = active.get(t.tid, 0) + 1
            o = lib.invoke(op["call"], args)
            active[t.tid] -= 1
            if "nest" in op:
                t.alarm = None
                s._sync(t)
                s._arm(t)
            out.append((here + ("f",) if goes_on and "f" not in here else here, op["call"], o))

    def body(t, ops, n):
        try:
            do(t, ops, (n,))
        except sched.SimAbort:
            if not goes_on:
                raise
            goes_on[-1](("fail", s.failure))
        except BaseException as e:
            if not goes_on:
                raise
            goes_on[-1](("fail", ("harness", repr(e))))
        if goes_on:
            goes_on[-1](("ok", out))

    for n, ops in enumerate(case["threads"]):
        s.add(lambda t, n=n, ops=ops: body(t, ops, n))
    s.run()
    after = None
    if s.failure is None:
        after = [lib.invoke(c) for c in case["after"]]
    return {"out": out, "after": after, "failure": s.failure, "steps": s.steps, "fired": fired, "digest": s.digest.hexdigest(),
            "preempted": s.preempted, "depth": depth_seen[0], "forks": live_forks, "switches": s.switches, "blocks": s.blocks}


# ------------------------------------------------------------ sweeps: one call, and something else at each of its points

PYC = ctypes.PyDLL(None)


def snapshot(timeout=60):
    """(in_child, answer): the process goes on twice; the child ends by calling the function it gets as answer with its record.
    A snapshot is the simulator's own: at-fork handlers do not run."""
    child, v = split(None, None, True)
    return child, v if child else collect(*v, timeout)


def collect(r, pid, timeout):
    data, end = b"", core._monotonic() + timeout
    while True:
        left = end - core._monotonic()
        if left <= 0 or not core.select.select([r], [], [], left)[0]:
            data = None
            break
        x = os.read(r, 1 << 16)
        if not x:
            break
        data += x
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    os.waitpid(pid, 0)
    if data is None:
        return ("fail", ("stuck", "calls never finish"))
    try:
        return pickle.loads(data)
    except Exception:
        return ("fail", ("died", "the process ended without an answer"))


def execute_sweep(case, only, dry=False):
    """The outer call; at each of its points (or those of `only`) a snapshot is taken in which the nested call is made there
    ("nested": on its thread, by a handler; "fork": in a process forked there by another thread; "self-fork": in a process forked
    there by a handler, which also finishes the outer call); with "storm", the nested calls
    are made one after the other in one process."""
    warnings.simplefilter("ignore")
    for c in case["warm"]:
        lib.invoke(c)
    sched.install_clock()
    random.seed(case["seed"])
    forking = case["mode"] == "fork"
    s = sched.Sched(case["seed"], {"kind": "rw", "p": 1e-12}, "line" if forking else "instr", 30_000_000)
    seen, out, sites = {}, [], []
    st = {"k": -1, "finish": None, "job": None, "stop": False}
    nested = case["nested"]

    def do(t, call, where, res):
        res.append((where, call, lib.invoke(call, lib.fresh_args(call))))

    def hook(t, code, where):
        if st["finish"]:
            return None
        if t.tid or code is None or not forking and not eligible(code, where, "KeyboardInterrupt"):
            return t.steps + 1
        key = (code, where)
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > case["occ"]:
            return t.steps + 1
        st["k"] += 1
        k = st["k"]
        if dry or only is not None and k not in only:
            return t.steps + 1
        call = nested[k % len(nested)]
        sites.append([code.co_name, where])
        t.alarm = None
        if forking:
            st["job"] = (call, k)
            forker.blocked_on = None
            s.handover(t, forker)
        elif case["mode"] == "storm":
            sys.monitoring.set_events(sched.TOOL, 0)
            do(t, call, k, out)
            sys.monitoring.set_events(sched.TOOL, sys.monitoring.events.INSTRUCTION)
        else:
            if case["mode"] == "self-fork":
                child, v = split(s, t)
                v = v if child else collect(*v, 60)
            else:
                child, v = snapshot()
            if child:
                st["finish"] = v
                sys.monitoring.set_events(sched.TOOL, 0)
                do(t, call, k, out)
            elif v[0] == "fail":
                out.append((k, "stuck", v[1]))
            else:
                out.extend(v[1])
        return None if st["finish"] else t.steps + 1

    def outer(t):
        s._sync(t)
        t.alarm = t.steps + 1
        s._arm(t)
        o = lib.invoke(case["outer"], lib.fresh_args(case["outer"]))
        t.alarm = None
        s._arm(t)
        out.append((-1 if not st["finish"] else st["k"], case["outer"], o))
        if st["finish"]:
            st["finish"](("ok", out[-2:]))
        st["stop"] = True
        for x in s.tasks:
            x.blocked_on = None

    def fork_server(t):
        while not st["stop"]:
            t.blocked_on = "idle"
            s.handover(t, s.tasks[0])
            if st["stop"]:
                break
            call, k = st["job"]

            def child():
                res = []
                do(t, call, k, res)
                return res
            kind, v = forked(s, t, child)
            if kind == "ok":
                out.extend(v)
            else:
                out.append((k, "stuck", v))
    s.hook = hook
    s.add(outer)
    if forking:
        forker = s.add(fork_server)
        s.st["start"] = 1
    s.run()
    if st["finish"]:
        st["finish"](("fail", s.failure))
    return {"out": out, "failure": s.failure, "points": st["k"] + 1, "sites": sites, "steps": s.steps}


def run_sweep(case, timeout=200):
    def go(*a):
        st, v = core.fork_call(lambda: execute_sweep(case, *a), timeout=timeout)
        if st == "ok":
            return v
        if st == "err":
            raise core.HarnessError(v)
        return {"failure": ("stuck", f"the process {st}"), "out": [], "points": 0, "sites": [], "steps": 0}
    only = case.get("only")
    if only is None:
        n = go(None, True)["points"]
        only = set(random.Random(case["seed"]).sample(range(n), min(n, case["cap"])))
    return go(set(only))


def judge_sweep(case, rec, expect, show):
    """(fingerprint, message, point)"""
    if rec["failure"]:
        kind, msg = rec["failure"]
        if kind == "harness":
            raise core.HarnessError(msg)
        return ("hang", f"the calls never finish ({kind}: {msg})", None)
    outer = show(case["outer"])
    how = {"fork": "in a process forked by another thread", "self-fork": "in a process forked by a handler"}.get(case["mode"], "from a handler")
    for k, c, o in rec["out"]:
        if c == "stuck":
            if o[0] == "harness":
                raise core.HarnessError(o[1])
            return ("hang", f"during {outer}, at point {k}: a call {how} makes calls never finish ({o[0]}: {o[1]})", k)
        e = expect(c)
        if o != e:
            what = f"{show(c)} {how}" if c != case["outer"] or case["mode"] == "fork" else show(c) + (" in either process" if case["mode"] == "self-fork" else "")
            return ("wrong", f"during {outer}, at point {k}: {what} gave {json.dumps(o)}, alone it gives {json.dumps(e)}", k)
    return None


def judge(case, rec, expect, show):
    if rec["failure"]:
        kind, msg = rec["failure"]
        if kind == "harness":
            raise core.HarnessError(msg)
        return ("hang", f"the calls never finish ({kind}: {msg})")
    for here, c, o in rec["out"]:
        if c == "fork":
            if o[0] == "harness":
                raise core.HarnessError(o[1])
            return ("fork-hang", f"in a process forked by thread {here[0]}, calls never finish ({o[0]}: {o[1]})")
        e = expect(c)
        if o != e:
            where = ("in a process forked while calls were in progress, " if "f" in here else
                     "a call made from within another: " if len(here) > 2 else "")
            return ("wrong", f"thread {here[0]}: {where}{show(c)} gave {json.dumps(o)}, alone it gives {json.dumps(e)}")
    for c, o in zip(case["after"], rec["after"]):
        e = expect(c)
        if o != e:
            return ("residue", f"afterwards, {show(c)} gave {json.dumps(o)}, alone it gives {json.dumps(e)}")
    return None


def run_case(case, timeout=200):
    st, v = core.fork_call(lambda: execute(case), timeout=timeout)
    if st == "ok":
        return v
    if st == "err":
        raise core.HarnessError(v)
    return {"failure": ("stuck", f"the process {st}"), "out": [], "after": [], "steps": 0, "fired": [], "digest": st, "preempted": 0,
            "depth": 0, "forks": [0, 0], "switches": [], "blocks": 0}


def smaller(ops):
    """The op lists that arise by dropping one op, or by taking the inside of one out of it."""
    for n, op in enumerate(ops):
        rest = ops[:n], ops[n + 1:]
        yield rest[0] + rest[1]
        for k in ("nest", "fork"):
            if op.get(k):
                for x in smaller(op[k]):
                    if x or k == "fork":
                        yield rest[0] + [dict(op, **{k: x})] + rest[1]
        if "nest" in op:
            yield rest[0] + [{"call": op["call"]}] + rest[1]


def minimise(case, rec, fails):
    """fails(case) -> the record of the run if it fails in the same way."""
    t_end = core._monotonic() + 80
    best = case
    rep = dict(case, strategy={"kind": "replay", "switches": [list(x) for x in rec["switches"]],
                               "start": rec["switches"][0][0] if rec["switches"] else 0})
    if fails(rep):
        best = rep
    if best.get("warm"):
        w = core.ddmin(best["warm"], lambda x: core._monotonic() < t_end and fails(dict(best, warm=x)) is not None, 60)
        best = dict(best, warm=w)
    if fails(dict(best, after=[])):
        best = dict(best, after=[])
    changed = True
    while changed and core._monotonic() < t_end:
        changed = False
        for n in range(len(best["threads"])):
            for ops in smaller(best["threads"][n]):
                if core._monotonic() > t_end:
                    break
                c = dict(best, threads=best["threads"][:n] + [ops] + best["threads"][n + 1:])
                if fails(c):
                    best, changed = c, True
                    break
            if changed:
                break
    st = best["strategy"]
    if st["kind"] == "replay":
        def with_sw(sw):
            return dict(best, strategy=dict(st, switches=sw))
        sw = core.ddmin(st["switches"], lambda x: core._monotonic() < t_end and fails(with_sw(x)) is not None, 200)
        if fails(with_sw(sw)):
            best = with_sw(sw)
    return best


def check(ck, prop, pool, gen, n, rule, faults, **extra):
    """The main function of C24 and C25."""
    from .c01 import show

    more = [f for f in (pool.corpus.pair_family(4) for _ in range(400))]
    pool.table_only([c for f in more for c in f])
    pool.pairs = [f for f in more if all(pool.expect(c)[0] in ("ok", "exc") for c in f)]

    pool.by_f = {}
    for f in pool.families:
        for c in f:
            if len(c["a"]) == 1:
                pool.by_f.setdefault(c["f"], []).append(c)

    def one(i):
        case = gen(pool, ck.seed, i)
        if "outer" in case:
            rec = run_sweep(case)
            v = judge_sweep(case, rec, pool.oracle.get, show)
            made = len(rec["sites"])
            return {"counts": {case["mode"] + "_sweeps": 1, "points_swept": made, "points": rec["points"], "steps": rec["steps"],
                               "nested_handlers_run" if case["mode"] != "fork" else "forks_with_calls_in_progress": made},
                    "digest": core.h64(json.dumps(case), made) if made else None, "sites": [tuple(x) for x in rec["sites"]],
                    "violation": v and (v, case, rec)}
        rec = run_case(case)
        v = judge(case, rec, pool.expect, show)
        counts = {"runs": 1, "steps": rec["steps"], "preemptions": rec["preempted"], "nested_handlers_run": len(rec["fired"]),
                  "forks": rec["forks"][0], "forks_with_calls_in_progress": rec["forks"][1], "calls": len(rec["out"]),
                  f"depth_{rec['depth']}": 1, "lock_blocks": rec["blocks"], "strategy_" + case["strategy"]["kind"]: 1,
                  "granularity_" + case["gran"]: 1, "runs_in_warm_processes": bool(case.get("warm"))}
        live = rec["fired"] if prop == "C24" else rec["forks"][1]
        res = {"counts": counts, "digest": core.h64(json.dumps(rec["fired"]), rec["digest"], json.dumps(case["threads"])) if live else None,
               "sites": [tuple(x[:2]) for x in rec["fired"]] if prop == "C24" else []}
        if i < 3:
            res["sample"] = {"threads": json.loads(json.dumps(case["threads"]))[:3], "strategy": case["strategy"], "ran_in": rec["fired"]}
        if v:
            res["violation"] = (v, case, rec)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(170, 2400))
    core.check_harness_errors(results)
    viol = sorted((i, r["violation"]) for i, r in results.items() if r.get("violation"))
    for i, (v, case, rec) in viol[:1]:
        if "outer" in case:
            def bad(c):
                x = judge_sweep(c, run_sweep(c, 90), pool.oracle.get, show)
                return x if x and x[0] == v[0] else None
            small = case if v[2] in (None, -1) else dict(case, only=[v[2]])
            t_end = core._monotonic() + 60
            if not bad(small):
                ks = sorted({k for k, c, o in rec["out"] if k >= 0})
                ks = core.ddmin(ks, lambda x: core._monotonic() < t_end and bad(dict(case, only=x)) is not None, 60)
                small = dict(case, only=ks)
            if not bad(small):
                small = case
            small = dict(small, warm=core.ddmin(small["warm"], lambda w: core._monotonic() < t_end and bad(dict(small, warm=w)) is not None, 60))
            x = bad(small) or v
            ck.report(v[0], f"run {i}: {x[1]}", small)
            continue
        def fails(c):
            r = run_case(c, 90)
            x = judge(c, r, pool.oracle.get, show)
            return (x, r) if x and x[0] == v[0] else None
        small = minimise(case, rec, fails)
        again = fails(small)
        if not again:
            small, again = case, (v, rec)
        ck.report(v[0], f"run {i}: {again[0][1]}", small)
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    sites = {s for r in results.values() for s in r.get("sites", [])}
    return ck.finish(
        len(results), len({r["digest"] for r in results.values() if r.get("digest")}), rule,
        [r["sample"] for i, r in sorted(results.items()) if r.get("sample")], counts=counts,
        runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc, distinct_sites=len(sites),
        package_lines_reached=len(pool.lines), faults={k: counts.get(k, 0) for k in faults},
        simulated_time="no timers in scope; time.* is a virtual clock advanced by readings",
        real_code="the whole Python package", stubs="threading/_thread locks, thread start, queue.SimpleQueue, time", **extra)


def replay(data):
    from .c01 import show
    sched.install_seams()
    lib.load()
    oracle = lib.Oracle()
    case = data["case"]
    if "outer" in case:
        v = judge_sweep(case, run_sweep(case), oracle.get, show)
    else:
        v = judge(case, run_case(case), oracle.get, show)
    return v[1] if v else None

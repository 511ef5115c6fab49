"""C06: loading the library can be interrupted, retried and raced."""
import importlib
import importlib.machinery
import json
import os
import random
import sys

from . import core, lib, sched
from .c01 import show
from .c03 import EXC

RULE = ("a case is a process that has not imported the package: up to three import attempts through seeded forms (package, "
        "module, from-import of a function, star import) are interrupted by an exception at a seeded line of the package's module "
        "code or by a read error of one of its files, then one to four threads race imports through seeded forms and call what "
        "they got, interleaved by the scheduler, then everything is imported and called once more; non-trivial: an interruption was delivered or a thread was preempted "
        "during an import; distinct: by the delivered interruptions and the schedule digest")
HOME = {"get_lujvo": "jvozba", "get_lujvo_with_analytics": "jvozba", "get_veljvo": "katna", "score_lujvo": "katna",
        "is_brivla": "tools", "analyse_brivla": "tools", "get_rafsi_indices": "tools"}


def where(c):
    """(module, name) of the function that a call wants."""
    f = c["f"]
    return tuple(f.split(".")) if "." in f else (HOME[f], f)


def public_names(m):
    """What a star import of the module gives in an undisturbed process."""
    ns = {}
    exec(f"from {m} import *", ns)
    return sorted(n for n in ns if n != "__builtins__" and f"{lib.PKG}.{n}" not in sys.modules)


def reference(seed, n_families):
    """In a forked process: calls, their oracle, the names each module offers, the line events of an import."""
    def go():
        from .pool import Pool
        sched.install_seams()
        before = set(sys.modules)
        events, small, by_module = [0], [0], {}
        mon = sys.monitoring
        mon.use_tool_id(2, "count")

        def on(code, line):
            if "/latkerlo_jvotci/" in code.co_filename:
                events[0] += 1
                small[0] += len(code.co_code) < 20000
                m = code.co_filename.rsplit("/", 1)[-1]
                by_module[m] = by_module.get(m, 0) + 1
                return None
            return mon.DISABLE
        mon.register_callback(2, mon.events.LINE, on)
        mon.set_events(2, mon.events.LINE)
        lib.load()
        mon.set_events(2, 0)
        mon.free_tool_id(2)
        names = {}
        for m in [lib.PKG] + [f"{lib.PKG}.{x}" for x in lib.MODULES]:
            names[m] = public_names(m)
        pool = Pool(seed, "C06", n_families=n_families, rounds=2)
        # a small set of main-function calls that together reach (almost) every line the pool reaches
        chosen, covered = [], set()
        extra = [f for f in lib.EXTRA if lib.resolve(f) is not None]
        main = [k for k in sorted(pool.calls) if (pool.calls[k]["f"] in HOME or "." in pool.calls[k]["f"]) and pool.oracle.table[k][0] in ("ok", "exc")
                and pool.steps(pool.calls[k]) < 4000]
        main.sort(key=lambda k: (-len(pool.cov[k][0]), k))
        for k in main:
            new = {tuple(x) for x in pool.cov[k][0]} - covered
            if new:
                covered |= new
                chosen.append(k)
        rng = core.rng_for(seed, "C06", "calls")
        chosen += rng.sample(main, min(len(main), 200))
        for f in sorted(extra):
            mine = [k for k in main if pool.calls[k]["f"] == f]
            chosen += rng.sample(mine, min(len(mine), 12))
        return {"calls": [pool.calls[k] for k in chosen], "table": {k: pool.oracle.table[k] for k in chosen}, "names": names,
                "events": events[0], "small_events": small[0], "by_module": by_module, "extra": extra, "lines": len(covered)}
    st, v = core.fork_call(go, timeout=900)
    if st != "ok":
        raise core.HarnessError(str(v))
    return v


def gen(ref, seed, i):
    r = core.rng_for(seed, "C06", "run", i)
    all_lines = r.random() < .1
    lines = ref["events"] if all_lines else ref["small_events"]
    before = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        op = {"form": form(r, ref)}
        if r.random() < .8:
            x = r.random()
            if x < .5:
                # a line of a module of its choice (most lines belong to tables)
                op["module"] = r.choice(sorted(ref["by_module"]))
                op["at"] = r.randrange(1, max(2, min(400, ref["by_module"][op["module"]])))
            else:
                op["at"] = r.randrange(1, max(2, lines)) if x < .8 else r.randrange(1, 120)
            op["exc"] = r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "HandlerTimeout", "Cancelled"])
        else:
            op["io"] = r.randrange(8)
        before.append(op)
    nthreads = r.choices([1, 2, 3, 4], [3 if before else 0, 5, 3, 2])[0]
    threads = [{"imports": [form(r, ref) for _ in range(r.choice([1, 1, 2]))],
                "calls": [r.choice(ref["calls"]) for _ in range(r.choice([1, 2, 4]))]} for _ in range(nthreads)]
    x = r.random()
    total = lines
    if x < .5:
        st = {"kind": "rw", "p": 10 ** r.uniform(-2.5, -.2)}
    elif x < .8:
        plan = [[t, r.randrange(1, max(2, total)) if r.random() < .5 else r.randrange(1, 200), r.randrange(nthreads)]
                for t in range(nthreads) for _ in range(r.choice([1, 1, 2]))]
        st = {"kind": "burst", "plan": plan, "start": 0}
    else:
        st = {"kind": "pct", "at": sorted(r.randrange(1, 2 * total) for _ in range(r.choice([1, 2, 4])))}
    after = r.sample(ref["calls"], min(len(ref["calls"]), 25))
    return {"before": before, "all_lines": all_lines, "threads": threads, "after": after, "strategy": st, "seed": core.h64(seed, "C06", "s", i),
            "max_steps": 30_000_000}


def form(r, ref):
    x = r.random()
    if x < .2:
        return ["import_module", lib.PKG]
    if x < .45:
        return ["import_module", f"{lib.PKG}.{r.choice(lib.MODULES)}"]
    if x < .7:
        m, f = where({"f": r.choice(sorted(HOME) * 2 + sorted(ref["extra"]))})
        return ["from", f"{lib.PKG}.{m}", f]
    if x < .85:
        return ["from", lib.PKG, r.choice(sorted(HOME))]
    if x < .95:
        return ["star", f"{lib.PKG}.{r.choice(lib.MODULES)}"]
    return ["from", lib.PKG, r.choice(lib.MODULES)]


def do_import(fm):
    """Returns (module name, function that looks a name up in what was obtained)."""
    if fm[0] == "import_module":
        m = importlib.import_module(fm[1])
        return fm[1], lambda n: getattr(m, n)
    ns = {}
    if fm[0] == "from":
        exec(compile(f"from {fm[1]} import {fm[2]}", "<caller>", "exec"), ns)
    else:
        exec(compile(f"from {fm[1]} import *", "<caller>", "exec"), ns)
    return fm[1], ns.__getitem__


def obtained(get, want):
    """name -> value, and the wanted names that are not there."""
    ns, missing = {}, []
    for n in want:
        try:
            ns[n] = get(n)
        except (KeyError, AttributeError):
            missing.append(n)
    return ns, missing


def check_import(fm, names):
    """An import statement of a caller that nobody interrupts."""
    try:
        mname, get = do_import(fm)
        ns, missing = obtained(get, [fm[2]] if fm[0] == "from" else names[mname])
    except sched.SimAbort:
        raise
    except BaseException as e:
        return ["failed", fm, lib.outcome_of_exc(e)], {}
    return ["got", fm, missing], ns


def small_codes():
    """Every code object of the package except the bodies of modules that are one huge table (instrumenting those costs
    more than the rest of a run; one run in ten instruments them too)."""
    out, todo = [], list(lib.COMPILED.values())
    while todo:
        c = todo.pop()
        if len(c.co_code) < 20000:
            out.append(c)
        todo += [x for x in c.co_consts if hasattr(x, "co_code")]
    return out


def execute(case, names):
    if not lib.COMPILED:
        lib.precompile()
    lib.use_compiled()
    codes = None if case["all_lines"] else small_codes()
    lib.prepare_path()
    sched.install_seams()
    sched.install_clock()
    random.seed(case["seed"])
    log = {"before": [], "threads": [[] for _ in case["threads"]], "after": [], "final": []}
    pend, fired, io, left = [None], [], [None], [None, 0]
    rec = {"log": log, "failure": None, "fired": fired, "digest": "", "preempted": 0, "blocks": 0, "steps": 0}

    def phase(strategy, bodies, hook=None):
        s = sched.Sched(case["seed"], strategy, "line", case["max_steps"], codes=codes)
        if hook:
            s.hook = hook
        for b in bodies:
            s.add(b)
        s.run()
        sys.monitoring.free_tool_id(sched.TOOL)
        rec["digest"] += s.digest.hexdigest()
        rec["preempted"] += s.preempted
        rec["blocks"] += s.blocks
        rec["steps"] += s.steps
        if s.failure and not rec["failure"]:
            rec["failure"] = s.failure
        return s

    def hook(t, code, where):
        if code is None:
            return t.steps + 1
        if left[0]:
            if not code.co_filename.endswith("/" + left[0]):
                return t.steps + 1
            left[1] -= 1
            if left[1] > 0:
                return t.steps + 1
        t.alarm = None
        fired.append([code.co_filename.rsplit("/", 1)[-1], code.co_name, where, type(pend[0]).__name__])
        sched.SIM._arm(t)
        raise pend[0]
    orig = importlib.machinery.SourceFileLoader.get_data

    def get_data(self, path):
        if io[0] is not None and path.endswith(".py") and f"/{lib.PKG}/" in path:
            if io[0] == 0:
                io[0] = None
                fired.append([path.rsplit("/", 1)[-1], "get_data", 0, "OSError"])
                raise pend[0]
            io[0] -= 1
        return orig(self, path)
    importlib.machinery.SourceFileLoader.get_data = get_data

    def interrupted(t):
        for op in case["before"]:
            if "at" in op:
                pend[0] = EXC[op["exc"]]("injected by the simulator")
                sched.SIM._sync(t)
                left[:] = [op.get("module"), op["at"]]
                t.alarm = t.steps + (1 if op.get("module") else op["at"])
                sched.SIM._arm(t)
            else:
                pend[0] = OSError(5, "Input/output error (injected)")
                io[0] = op["io"]
            try:
                mname, get = do_import(op["form"])
                t.alarm = io[0] = None
                log["before"].append(["got", op["form"], obtained(get, [op["form"][2]] if op["form"][0] == "from"
                                                                  else names[mname])[1]])
            except sched.SimAbort:
                raise
            except BaseException as e:
                t.alarm = io[0] = None
                log["before"].append(["failed", op["form"], "injected" if e is pend[0] else lib.outcome_of_exc(e)])

    def racer(tid):
        def go(t):
            for fm in case["threads"][tid]["imports"]:
                e, ns = check_import(fm, names)
                log["threads"][tid].append(e)
                for c in case["threads"][tid]["calls"]:
                    if where(c)[1] in ns:
                        log["threads"][tid].append(["call", c, invoke_fn(ns[where(c)[1]], c)])
            for c in case["threads"][tid]["calls"]:
                e, ns = check_import(["from", f"{lib.PKG}.{where(c)[0]}", where(c)[1]], names)
                log["threads"][tid].append(e)
                if where(c)[1] in ns:
                    log["threads"][tid].append(["call", c, invoke_fn(ns[where(c)[1]], c)])
        return go

    def last(t):
        for m in sorted(names):
            e, ns = check_import(["import_module", m], names)
            log["final"].append(e)
        for c in case["after"]:
            for m in (f"{lib.PKG}.{where(c)[0]}", lib.PKG):
                if where(c)[1] in names[m]:
                    log["after"].append(["call", c, invoke_fn(getattr(importlib.import_module(m), where(c)[1]), c)])
    if case["before"]:
        phase({"kind": "rw", "p": .001}, [interrupted], hook)
    if rec["failure"] is None:
        phase(case["strategy"], [racer(n) for n in range(len(case["threads"]))])
    if rec["failure"] is None:
        last(None)
    return rec


def invoke_fn(fn, c):
    a, k = lib.fresh_args(c)
    try:
        return ["ok", lib.freeze(fn(*a, **k))]
    except sched.SimAbort:
        raise
    except Exception as e:
        return lib.outcome_of_exc(e)


def judge(case, rec, table):
    if rec["failure"]:
        if rec["failure"][0] == "harness":
            raise core.HarnessError(rec["failure"][1])
        return ("hang", f"an import or the calls after it never finish: {rec['failure']}")
    log = rec["log"]
    history = [("interrupted import", log["before"])] + [(f"thread {n}", x) for n, x in enumerate(log["threads"])] + \
        [("at the end", log["final"] + log["after"])]
    for who, entries in history:
        for e in entries:
            if e[0] == "got" and e[2]:
                return ("half", f"{who}: import {e[1]} succeeded but lacks {e[2][:5]}")
            if e[0] == "failed" and e[2] != "injected":
                return ("import", f"{who}: import {e[1]} failed with {json.dumps(e[2])} although it was not interrupted")
            if e[0] == "call":
                x = table[lib.ckey(e[1])]
                if e[2] != x:
                    return ("call", f"{who}: {show(e[1])} gave {json.dumps(e[2])}, in an undisturbed process {json.dumps(x)}")
    return None


def run_case(case, names, timeout=200):
    st, v = core.fork_call(lambda: execute(case, names), timeout=timeout)
    if st == "ok":
        return v
    if st == "err":
        raise core.HarnessError(v)
    return {"failure": ("stuck", f"the process {st}"), "log": {}, "fired": [], "digest": st, "preempted": 0, "blocks": 0,
            "steps": 0}


def minimise(case, ref, cls):
    t_end = core._monotonic() + 60

    def fails(c):
        if core._monotonic() > t_end:
            return False
        v = judge(c, run_case(c, ref["names"]), ref["table"])
        return bool(v and v[0] == cls)
    best = case
    items = [("b", 0, x) for x in case["before"]] + [("i", t, x) for t, th in enumerate(case["threads"]) for x in th["imports"]] + \
            [("c", t, x) for t, th in enumerate(case["threads"]) for x in th["calls"]] + [("a", 0, x) for x in case["after"]]

    def build(its):
        th = [{"imports": [], "calls": []} for _ in case["threads"]]
        be, af = [], []
        for k, t, x in its:
            {"a": af, "b": be, "i": th[t]["imports"], "c": th[t]["calls"]}[k].append(x)
        return dict(case, before=be, threads=th, after=af)
    out = build(core.ddmin(items, lambda its: fails(build(its)), 200))
    return out if fails(out) else case


def main(ck):
    ref = reference(ck.seed, ck.scale(150, 500))
    lib.precompile()
    n = ck.scale(int(os.environ.get('JVOSIM_N', 3000)), 120_000)

    def one(i):
        case = gen(ref, ck.seed, i)
        rec = run_case(case, ref["names"])
        v = judge(case, rec, ref["table"])
        entries = [e for x in [rec["log"].get("before", []), *rec["log"].get("threads", []), rec["log"].get("final", []),
                               rec["log"].get("after", [])] for e in x]
        counts = {"preemptions": rec["preempted"], "lock_blocks": rec["blocks"], "steps": rec["steps"]}
        for e in entries:
            k = {"got": "imports_succeeded", "failed": "imports_failed", "call": "calls"}[e[0]]
            counts[k] = counts.get(k, 0) + 1
        for f in rec["fired"]:
            counts["injected_" + f[3]] = counts.get("injected_" + f[3], 0) + 1
        res = {"counts": counts, "sites": [tuple(f[:3]) for f in rec["fired"]],
               "digest": core.h64(json.dumps(rec["fired"]), rec["digest"]) if rec["fired"] or rec["preempted"] else None}
        if i < 3:
            res["sample"] = {"interrupted": case["before"], "threads": [t["imports"] for t in case["threads"]], "delivered": rec["fired"],
                             "strategy": case["strategy"]["kind"], "preemptions": rec["preempted"]}
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(80, 2400))
    core.check_harness_errors(results)
    viol = sorted((i, r["violation"]) for i, r in results.items() if r.get("violation"))
    for i, (v, case) in viol[:1]:
        small = minimise(case, ref, v[0])
        vv = judge(small, run_case(small, ref["names"]), ref["table"]) or v
        ck.report(v[0], f"run {i}: {vv[1]}", small)
    counts = core.merge_counts(results)
    sites = {s for r in results.values() for s in r.get("sites", [])}
    wall = core._monotonic() - ck.t0
    return ck.finish(
        len(results), len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
        [r["sample"] for i, r in sorted(results.items()) if r.get("sample")],
        counts=counts, import_line_events=ref["events"], distinct_interruption_sites=len(sites),
        runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
        faults={k: v for k, v in counts.items() if k.startswith("injected_") or k in ("preemptions", "lock_blocks")},
        simulated_time="no timers in scope", real_code="the whole Python package, CPython's import system",
        stubs="threading/_thread locks (the import system's module locks included), time")


def replay(data):
    case = data["case"]
    calls = [c for t in case["threads"] for c in t["calls"]] + case["after"]

    def go():
        sched.install_seams()
        lib.load()
        names = {}
        for m in [lib.PKG] + [f"{lib.PKG}.{x}" for x in lib.MODULES]:
            names[m] = public_names(m)
        return names, {lib.ckey(c): lib.alone(c) for c in calls}
    st, v = core.fork_call(go)
    if st != "ok":
        raise core.HarnessError(str(v))
    names, table = v
    x = judge(case, run_case(case, names), table)
    return x[1] if x else None

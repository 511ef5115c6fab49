"""C03: an interrupted call never answers wrongly and leaves no residue."""
import dis
import json
import os
import random
import sys

from . import core, lib, sched
from .c01 import show
from .pool import Pool

RULE = ("a case is one to three threads making library calls; one to four of the calls are interrupted by an exception "
        "delivered at a seeded point (KeyboardInterrupt and handler exceptions where CPython polls for them, MemoryError at "
        "allocating instructions, RecursionError at calls or by really lowering the recursion limit), and calls on the same and "
        "other words follow in the same and in a new thread; non-trivial: at least one exception was delivered inside "
        "package code; distinct: by (function, line or instruction, exception, schedule digest)")


class HandlerTimeout(Exception):
    """What a user's SIGALRM handler might raise."""


class Cancelled(BaseException):
    """What a task framework might raise asynchronously."""


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RecursionError": RecursionError,
       "HandlerTimeout": HandlerTimeout, "Cancelled": Cancelled, "SystemExit": SystemExit}
ALLOC = {"BUILD_LIST", "BUILD_TUPLE", "BUILD_STRING", "BUILD_MAP", "BUILD_SET", "BUILD_SLICE", "CALL", "BINARY_OP", "LIST_APPEND",
         "LIST_EXTEND", "FORMAT_VALUE", "BINARY_SLICE", "CALL_FUNCTION_EX", "MAKE_FUNCTION", "GET_ITER", "BINARY_SUBSCR",
         "STORE_SUBSCR", "SET_ADD", "MAP_ADD", "DICT_UPDATE", "LOAD_ATTR", "FOR_ITER", "STORE_GLOBAL"}
CALLS = {"CALL", "CALL_FUNCTION_EX"}
POLL_AFTER = {"CALL", "CALL_FUNCTION_EX", "RESUME"}

# methods of locks and containers, written in C: these calls cannot exhaust the stack, and the first few never allocate
NO_ALLOC = {"release", "acquire", "__enter__", "__exit__", "discard", "clear", "pop", "remove", "popitem"}
IN_C = NO_ALLOC | {"add", "append", "extend", "update", "setdefault", "get", "keys", "items", "values", "copy"}

_instr = {}


def callee(ins, n):
    """Name of the method the CALL at index n calls, "with" for the end of a with statement."""
    argc = ins[n].arg
    if argc == 2 and n >= 3 and all(x.opname == "LOAD_CONST" and x.argval is None for x in ins[n - 3:n]):
        return "with"
    while argc > 0 and n > 0:
        n -= 1
        try:
            argc -= dis.stack_effect(ins[n].opcode, ins[n].arg if ins[n].opcode >= dis.HAVE_ARGUMENT else None)
        except ValueError:
            return None
    return ins[n - 1].argval if n > 0 and argc == 0 and ins[n - 1].opname == "LOAD_ATTR" else None


def eligible(code, off, kind):
    tab = _instr.get(id(code))
    if tab is None:
        tab, prev = {}, None
        ins = list(dis.get_instructions(code))
        for n, x in enumerate(ins):
            tab[x.offset] = (x.opname, prev, callee(ins, n) if x.opname == "CALL" else None)
            prev = x.opname
        _instr[id(code)] = tab
        _instr[("keep", id(code))] = code
    op, prev, name = tab.get(off, (None, None, None))
    if kind == "MemoryError":
        return op in ALLOC and name != "with" and name not in NO_ALLOC
    if kind == "RecursionError":
        return op in CALLS and name != "with" and name not in IN_C
    return prev in POLL_AFTER or op == "FOR_ITER"


def gen(pool, seed, i):
    r = core.rng_for(seed, "C03", "run", i)
    fams = [pool.pick_family(r)] + ([pool.pick_family(r)] if r.random() < .4 else [])
    near = lambda: r.choice(r.choice(fams))
    nthreads = r.choices([1, 2, 3], [7, 2, 1])[0]
    if i % 40 == 7:
        return storm(pool, r, fams, i, seed)
    if i % 2:
        return at_each_line(pool, r, i, seed)
    threads = []
    for t in range(nthreads):
        ops = []
        if t == 0 or r.random() < .3:
            for _ in range(r.choice([0, 0, 1])):
                ops.append({"call": near()})
            for _ in range(r.choice([1, 1, 1, 2, 4])):
                c = near() if r.random() < .8 else pool.pick_call(r)
                if nthreads == 1 and r.random() < .15:
                    ops.append({"call": c, "limit": r.randrange(1, 14)})
                else:
                    n = max(8, pool.steps(c) * 5)
                    # uniformly over the call, or near one of its ends
                    x = r.random()
                    k = r.randrange(1, n) if x < .7 else r.randrange(1, 60) if x < .85 else max(1, n - r.randrange(1, 200))
                    kind = r.choices(list(EXC), [5, 3, 1.5, 2, 1.5, .5])[0]
                    op = {"call": c, "at": k, "exc": kind}
                    where = pool.cov[lib.ckey(c)][0]
                    if n < 200_000 and where and r.random() < .5:
                        # at one of the lines the call reaches, however briefly it is there
                        op.update(at=1, line=list(r.choice(where)), nth=r.choice([1, 1, 2, 3, 5, 9]))
                    ops.append(op)
                if r.random() < .7:
                    ops.append({"call": c})
                ops.append({"call": near()})
        else:
            for _ in range(r.choice([1, 2, 3])):
                ops.append({"call": near()})
        threads.append(ops)
    after = [near(), pool.pick_call(r), threads[0][0]["call"]]
    return {"threads": threads, "after": after, "seed": core.h64(seed, "C03", "s", i),
            "strategy": {"kind": "rw", "p": 10 ** r.uniform(-3.5, -1)},
            "max_steps": 2_000_000 + 60 * sum(pool.steps(o["call"]) for t in threads for o in t)}


def line_kinds(pool):
    """(line, kind) for every line the calls reach and every kind of interruption that can come at one of its instructions."""
    if not hasattr(pool, "line_kinds"):
        out = []
        for name in sorted({l[0] for l in pool.line_calls}):
            kinds = {}
            for code in codes_of(name):
                for st, en, line in code.co_lines():
                    for off in range(st, en, 2):
                        for k in ("MemoryError", "RecursionError", "KeyboardInterrupt"):
                            if eligible(code, off, k):
                                kinds.setdefault(line, set()).add(k)
            out += [(l, k) for l in sorted(pool.line_calls) if l[0] == name and pool.line_calls[l] for k in sorted(kinds.get(l[1], ()))]
        pool.line_kinds = out
    return pool.line_kinds


def at_each_line(pool, r, i, seed):
    """Every line of the package in turn is interrupted, in calls that reach it, and calls that reach it follow."""
    pairs = line_kinds(pool)
    line, kind = pairs[i // 2 * 7919 % len(pairs)]
    some = pool.line_calls[line]
    some = [c for c in (pool.calls[k] for k in r.sample(some, min(len(some), 12))) if pool.steps(c) < 30_000][:6] \
        or [pool.calls[r.choice(some)]]
    ops = [{"call": r.choice(some)} for _ in range(r.choice([0, 0, 0, 1]))]
    for n in range(r.choice([1, 2, 2])):
        c = r.choice(some)
        ops.append({"call": c, "at": 1, "line": list(line), "nth": 1 if n == 0 else r.choice([1, 2, 3, 4]),
                    "exc": r.choice(["KeyboardInterrupt", "HandlerTimeout", "Cancelled"]) if kind == "KeyboardInterrupt" else kind})
        if r.random() < .8:
            ops.append({"call": c})
    ops += [{"call": r.choice(some)} for _ in range(3)]
    return {"threads": [ops], "after": [r.choice(some), pool.pick_call(r)], "seed": core.h64(seed, "C03", "s", i),
            "strategy": {"kind": "rw", "p": 1e-3}, "max_steps": 2_000_000 + 60 * sum(pool.steps(o["call"]) for o in ops), "within": line[0]}


def codes_of(name):
    """The package's code objects of this name: nothing else need be watched when there is one thread and one line to wait for."""
    root = os.path.join(core.REPO, "py")
    out, seen = [], set()

    def walk(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        if c.co_name == name and c.co_filename.startswith(root):
            out.append(c)
        for x in c.co_consts:
            if hasattr(x, "co_code"):
                walk(x)

    def look(f, depth=0):
        for g in (f, getattr(f, "__func__", None), getattr(f, "__wrapped__", None), getattr(f, "fget", None)):
            c = getattr(g, "__code__", None)
            if c is not None:
                walk(c)
                for cell in getattr(g, "__closure__", None) or ():
                    try:
                        v = cell.cell_contents
                    except ValueError:
                        continue
                    if depth < 3 and callable(v):
                        look(v, depth + 1)
        if isinstance(f, type) and depth < 3 and f.__module__.startswith(lib.PKG):
            for v in list(vars(f).values()):
                look(v, depth + 1)
    for m in [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == lib.PKG]:
        for v in list(vars(m).values()):
            look(v)
    return out


def storm(pool, r, fams, i, seed):
    """Hundreds of interruptions in the life of one process: what each of them leaves behind adds up."""
    cheap = [c for f in fams + [pool.pick_family(r) for _ in range(6)] for c in f if pool.steps(c) < 1500] or fams[0]
    few = r.sample(cheap, min(len(cheap), r.choice([1, 2, 5, 20])))
    ops, kinds = [], r.choice([["KeyboardInterrupt"], ["MemoryError"], list(EXC), list(EXC)])
    for n in range(r.choice([80, 160, 320])):
        c = r.choice(few)
        ops.append({"call": c, "at": r.randrange(1, max(8, pool.steps(c) * 5)), "exc": r.choice(kinds)})
        if n % 20 == 19:
            ops.append({"call": r.choice(few)})
    ops += [{"call": c} for c in few[:5]]
    return {"threads": [ops], "after": [r.choice(few), pool.pick_call(r)], "seed": core.h64(seed, "C03", "s", i),
            "strategy": {"kind": "rw", "p": 1e-3}, "max_steps": 100_000_000}


def call_at_depth(call, headroom):
    fn = lib.resolve(call["f"])
    a, k = lib.fresh_args(call)
    old = sys.getrecursionlimit()
    depth = len_stack()
    v = e = None
    try:
        sys.setrecursionlimit(depth + 1 + headroom)
        try:
            v = fn(*a, **k)
        finally:
            sys.setrecursionlimit(old)
    except RecursionError as x:
        return ["interrupted"]
    except Exception as x:
        return lib.outcome_of_exc(x)
    return ["ok", lib.freeze(v)]


def len_stack():
    f, n = sys._getframe(), 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def execute(case):
    sched.install_clock()
    random.seed(case["seed"])
    codes = codes_of(case["within"]) if case.get("within") else None
    s = sched.Sched(case["seed"], case["strategy"], "instr", case["max_steps"], codes=codes)
    out = [[] for _ in case["threads"]]
    fired = []
    pend = {}

    def hook(t, code, where):
        kind, exc, at_line, nth = pend[t.tid]
        if code is None or not eligible(code, where, kind):
            return t.steps + 1
        line = next((l for st, en, l in code.co_lines() if st <= where < en), 0)
        if at_line and (code.co_name != at_line[0] or line != at_line[1]):
            return t.steps + 1
        if nth > 1:
            pend[t.tid] = (kind, exc, at_line, nth - 1)
            return t.steps + 1
        t.alarm = None
        fired.append([code.co_name, line or 0, kind])
        s._arm(t)
        raise exc

    s.hook = hook

    def body(tid):
        def go(t):
            for op in case["threads"][tid]:
                c = op["call"]
                if "limit" in op:
                    o = call_at_depth(c, op["limit"])
                    if o == ["interrupted"]:
                        fired.append([c["f"], op["limit"], "recursion-limit"])
                elif "exc" in op:
                    exc = EXC[op["exc"]]("injected by the simulator")
                    pend[tid] = (op["exc"], exc, op.get("line"), op.get("nth", 1))
                    args = lib.fresh_args(c)
                    fn = lib.resolve(c["f"])
                    nf = len(fired)
                    s._sync(t)
                    t.alarm = t.steps + op["at"]
                    s._arm(t)
                    try:
                        v = fn(*args[0], **args[1])
                        o = ["ok", lib.freeze(v)]
                    except sched.SimAbort:
                        raise
                    except BaseException as e:
                        o = ["interrupted"] if e is exc else lib.outcome_of_exc(e)
                    t.alarm = None
                else:
                    o = lib.invoke(c)
                out[tid].append(o)
        return go
    for n in range(len(case["threads"])):
        s.add(body(n))
    s.run()
    rec = {"out": out, "failure": s.failure, "steps": s.steps, "fired": fired, "digest": s.digest.hexdigest(), "after": None,
           "preempted": s.preempted}
    if s.failure is None:
        s2 = sched.Sched(1, {"kind": "rw", "p": .001}, "line", 50_000_000, codes=None if codes is None else [])
        after = []
        s2.add(lambda t: after.extend(lib.invoke(c) for c in case["after"]))
        sys.monitoring.free_tool_id(sched.TOOL)
        s2.run()
        rec["after"] = after
        if s2.failure:
            rec["failure"] = ("after", s2.failure[1])
    return rec


def judge(case, rec, expect):
    if rec["failure"]:
        kind, msg = rec["failure"]
        if kind == "harness":
            raise core.HarnessError(msg)
        return ("hang", f"after an interrupted call, calls no longer finish ({kind}: {msg})")
    for tid, (ops, outs) in enumerate(zip(case["threads"], rec["out"])):
        hit = False
        for op, o in zip(ops, outs):
            e = expect(op["call"])
            if o == ["interrupted"] and ("exc" in op or "limit" in op):
                hit = True
                continue
            if o != e:
                what = ("an interrupted call: " if "exc" in op or "limit" in op else
                        "after an interruption: " if hit else "a call beside an interrupted one: ")
                how = f" (interrupted by {op.get('exc', 'stack exhaustion')})" if what.startswith("an i") else ""
                return ("wrong", f"thread {tid}, {what}{show(op['call'])}{how} gave {json.dumps(o)}, alone it gives {json.dumps(e)}")
    for c, o in zip(case["after"], rec["after"]):
        e = expect(c)
        if o != e:
            return ("residue", f"after interrupted calls, {show(c)} gave {json.dumps(o)}, alone it gives {json.dumps(e)}")
    return None


def run_case(case, timeout=200):
    st, v = core.fork_call(lambda: execute(case), timeout=timeout)
    if st == "ok":
        return v
    if st == "err":
        raise core.HarnessError(v)
    return {"failure": ("stuck", f"the process {st}"), "out": [], "after": [], "steps": 0, "fired": [], "digest": st, "preempted": 0}


def minimise(case, expect, cls):
    t_end = core._monotonic() + 60

    def fails(c):
        if core._monotonic() > t_end:
            return False
        v = judge(c, run_case(c), expect)
        return bool(v and v[0] == cls)
    best = case
    if len(best["threads"]) > 1:
        for n in range(len(best["threads"])):
            cand = dict(best, threads=[best["threads"][n]])
            if fails(cand):
                best = cand
                break
    flat = [(t, n) for t in range(len(best["threads"])) for n in range(len(best["threads"][t]))]
    items = [(t, op) for t in range(len(best["threads"])) for op in best["threads"][t]] + [(-1, c) for c in best["after"]]

    def build(its):
        th = [[] for _ in best["threads"]]
        af = []
        for t, x in its:
            (af if t < 0 else th[t]).append(x)
        return dict(best, threads=th, after=af)
    items = core.ddmin(items, lambda its: fails(build(its)), 300)
    return build(items)


def setup(seed, quick=True):
    sched.install_seams()
    lib.load()
    return Pool(seed, "C03", n_families=250 if quick else 900)


def main(ck):
    pool = setup(ck.seed, ck.quick())
    n = ck.scale(4800, 140_000)

    def one(i):
        case = gen(pool, ck.seed, i)
        rec = run_case(case)
        v = judge(case, rec, pool.expect)
        counts = {"steps": rec["steps"], "preemptions": rec["preempted"]}
        for f, l, k in rec["fired"]:
            counts["injected_" + k] = counts.get("injected_" + k, 0) + 1
        counts["planned"] = sum(1 for t in case["threads"] for o in t if "exc" in o or "limit" in o)
        counts["absorbed_or_not_reached"] = counts["planned"] - sum(1 for outs in rec["out"] for o in outs if o == ["interrupted"])
        counts["calls"] = sum(map(len, rec["out"]))
        res = {"counts": counts, "digest": core.h64(json.dumps(rec["fired"]), rec["digest"]) if rec["fired"] else None,
               "sites": [tuple(x) for x in rec["fired"]]}
        if i < 3:
            res["sample"] = {"threads": [[show(o["call"]) + (f" <- {o.get('exc')} at step {o.get('at')}" if "exc" in o else
                                                             f" <- headroom {o['limit']}" if "limit" in o else "")
                                          for o in t] for t in case["threads"]], "delivered": rec["fired"]}
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(70, 2400))
    core.check_harness_errors(results)
    viol = sorted((i, r["violation"]) for i, r in results.items() if r.get("violation"))
    for i, (v, case) in viol[:1]:
        small = minimise(case, lambda c: pool.oracle.get(c), v[0])
        vv = judge(small, run_case(small), lambda c: pool.oracle.get(c))
        if not vv:
            small, vv = case, v
        ck.report(v[0], f"run {i}: {vv[1]}", small)
    counts = core.merge_counts(results)
    sites = {s for r in results.values() for s in r.get("sites", [])}
    wall = core._monotonic() - ck.t0
    return ck.finish(
        len(results), len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
        [r["sample"] for i, r in sorted(results.items()) if r.get("sample")],
        counts=counts, distinct_injection_sites=len(sites), package_lines_reached=len(pool.lines),
        runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
        faults={k: v for k, v in counts.items() if k.startswith("injected_")},
        simulated_time="no timers in scope", real_code="the whole Python package; CPython's own exception propagation",
        stubs="threading/_thread locks, time; the injected exceptions stand for signals, failed allocations and stack exhaustion")


def replay(data):
    sched.install_seams()
    lib.load()
    oracle = lib.Oracle()
    v = judge(data["case"], run_case(data["case"]), oracle.get)
    return v[1] if v else None

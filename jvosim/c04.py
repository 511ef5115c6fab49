"""C04: callers' data stays the callers'."""
import copy
import json
import random
import sys

from . import core, lib, sched
from .c01 import show
from .pool import Pool

RULE = ("a case is one to three threads that make calls, keep the argument lists and the results, edit them in seeded ways "
        "(append, delete, clear, reverse, replace, nested lists too), reuse edited lists as arguments, and call on; or a thread that "
        "replaces or appends one element of a list while another thread's call on it is in progress; non-trivial: at least one "
        "edit of an argument or result followed by a call, or an edit during a call; distinct: by the operations and schedule digest")
JUNK = ["junk", "klama", "-x-", "", "mlatu", "'", "a"]
MAKERS = ["get_lujvo", "get_lujvo_with_analytics"]


def gen(pool, seed, i):
    r = core.rng_for(seed, "C04", "run", i)
    if r.random() < .35:
        return gen_concurrent(pool, r, core.h64(seed, "C04", "s", i))
    threads = []
    fams = [pool.pick_family(r) for _ in range(r.choice([1, 1, 2]))]
    for _ in range(r.choices([1, 2, 3], [7, 2, 1])[0]):
        ops = []
        h = 0
        for _ in range(r.choice([3, 5, 8, 15])):
            x = r.random()
            if x < .55 or h == 0:
                c = r.choice(r.choice(fams)) if r.random() < .85 else pool.pick_call(r)
                if isinstance(c["a"][0], str) and c["f"] in MAKERS and r.random() < .5:
                    c = dict(c, a=[c["a"][0].split()] + c["a"][1:])
                op = {"op": "call", "call": c}
                if h and r.random() < .35:
                    op["reuse"] = r.randrange(1000)
                ops.append(op)
                h += 1
            else:
                ops.append({"op": "edit", "h": r.randrange(1000), "which": r.choice(["arg", "res", "res"]),
                            "edit": r.choice(["append", "pop", "clear", "reverse", "set", "insert", "extend", "del0", "sort"]),
                            "v": r.choice(JUNK), "n": r.randrange(10)})
                if r.random() < .6 and ops[-2]["op"] == "call":
                    ops.append({"op": "call", "call": ops[-2]["call"]})      # the same call again, right after the edit
        threads.append(ops)
    return {"kind": "edit", "threads": threads, "seed": core.h64(seed, "C04", "s", i),
            "strategy": {"kind": "rw", "p": 10 ** r.uniform(-3, -1)}, "max_steps": 20_000_000}


def gen_concurrent(pool, r, seed):
    while True:
        c = r.choice(pool.pick_family(r))
        if c["f"] in MAKERS:
            break
    a0 = c["a"][0]
    lst = a0.split() if isinstance(a0, str) else list(a0)
    c = dict(c, a=[lst] + c["a"][1:])
    other = r.choice([pool.corpus.keys[r.randrange(len(pool.corpus.keys))], r.choice(JUNK), "klama"])
    edit = ["set", r.randrange(len(lst)), other] if lst and r.random() < .6 else ["append", 0, other]
    n = max(30, pool.steps(c))
    at = r.randrange(1, 8 + 12 * len(lst)) if r.random() < .75 else r.randrange(1, n)
    return {"kind": "concurrent", "call": c, "edit": edit, "seed": seed, "gran": "line" if r.random() < .8 else "instr",
            "strategy": {"kind": "burst", "plan": [[0, at if r.random() < .8 else at * 6, 1]], "start": 0}, "max_steps": 5_000_000}


def lists_in(v, out, seen):
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, list):
        out.append(v)
    if isinstance(v, (list, tuple)):
        for x in v:
            lists_in(x, out, seen)


def apply_edit(lst, op):
    e, v, n = op["edit"], op["v"], op["n"]
    if e == "append":
        lst.append(v)
    elif e == "pop" and lst:
        lst.pop()
    elif e == "clear":
        lst.clear()
    elif e == "reverse":
        lst.reverse()
    elif e == "set" and lst:
        lst[n % len(lst)] = v
    elif e == "insert":
        lst.insert(n % (len(lst) + 1), v)
    elif e == "extend":
        lst.extend([v, v])
    elif e == "del0" and lst:
        del lst[0]
    elif e == "sort":
        lst.sort(key=repr)


def execute(case):
    sched.install_clock()
    random.seed(case["seed"])
    return (execute_edit if case["kind"] == "edit" else execute_concurrent)(case)


def execute_edit(case):
    s = sched.Sched(case["seed"], case["strategy"], "line", case["max_steps"])
    log = [[] for _ in case["threads"]]
    stats = {"edits": 0, "calls": 0, "calls_after_edit": 0}

    def body(tid):
        def go(t):
            handles = []            # [args list, result or None, frozen args, frozen result]
            edited = False
            for op in case["threads"][tid]:
                if op["op"] == "call":
                    c = op["call"]
                    a, k = lib.fresh_args(c)
                    if "reuse" in op and handles:
                        h = handles[op["reuse"] % len(handles)]
                        if h[0] and isinstance(h[0][0], list) and isinstance(a[0], list):
                            a[0] = h[0][0]      # the same list object again, whatever is in it now
                    eff = {"f": c["f"], "a": copy.deepcopy(a), "k": dict(k)}
                    before = lib.freeze(a)
                    box = []
                    o = lib.invoke(c, (a, k), keep=box)
                    stats["calls"] += 1
                    stats["calls_after_edit"] += edited
                    log[tid].append(["call", eff, o])
                    if lib.freeze(a) != before or k != eff["k"]:
                        log[tid].append(["bad", f"{show(eff)} changed its argument to {json.dumps(lib.freeze(a))}"])
                    handles.append([a, box[0] if box else None, lib.freeze(a), lib.freeze(box[0]) if box else None, eff])
                elif handles:
                    h = handles[op["h"] % len(handles)]
                    found = []
                    lists_in(h[0] if op["which"] == "arg" else h[1], found, {id(h[0])} if False else set())
                    if op["which"] == "arg" and found and found[0] is h[0]:
                        found = found[1:]       # the argument vector itself is the simulator's
                    if found:
                        apply_edit(found[op["n"] % len(found)], op)
                        edited = True
                        stats["edits"] += 1
                        for g in handles:       # aliases the caller made itself
                            g[2], g3 = lib.freeze(g[0]), lib.freeze(g[1]) if g[1] is not None else None
                            if g is h or g3 == g[3]:
                                g[3] = g3
                            else:
                                log[tid].append(["bad", f"editing data of {show(h[4])} changed what {show(g[4])} had returned"])
                                g[3] = g3
                for g in handles:
                    if lib.freeze(g[0]) != g[2]:
                        log[tid].append(["bad", f"the argument kept from {show(g[4])} changed"])
                        g[2] = lib.freeze(g[0])
                    if g[1] is not None and lib.freeze(g[1]) != g[3]:
                        log[tid].append(["bad", f"the result kept from {show(g[4])} changed by itself to {json.dumps(lib.freeze(g[1]))}"])
                        g[3] = lib.freeze(g[1])
        return go
    for n in range(len(case["threads"])):
        s.add(body(n))
    s.run()
    return {"log": log, "failure": s.failure, "digest": s.digest.hexdigest(), "stats": stats, "nontrivial": stats["calls_after_edit"] > 0}


def execute_concurrent(case):
    s = sched.Sched(case["seed"], case["strategy"], case["gran"], case["max_steps"])
    c = case["call"]
    a, k = lib.fresh_args(c)
    state = {"in": False, "during": False, "o": None}
    before = list(a[0])

    def caller(t):
        state["in"] = True
        state["o"] = lib.invoke(c, (a, k))
        state["in"] = False

    def editor(t):
        e = case["edit"]
        state["during"] = state["in"]
        state["early"] = not state["in"] and state["o"] is None
        if e[0] == "set":
            a[0][e[1]] = e[2]
        else:
            a[0].append(e[2])
    s.add(caller)
    s.add(editor)
    s.run()
    after = list(before)
    e = case["edit"]
    if e[0] == "set":
        after[e[1]] = e[2]
    else:
        after.append(e[2])
    bad = []
    if a[0] != after:
        bad = [["bad", f"the list is {a[0]!r} after the call, the caller made it {after!r}"]]
    mk = lambda l: {"f": c["f"], "a": [l] + c["a"][1:], "k": c.get("k", {})}
    return {"log": [[["either", [mk(before), mk(after)], state["o"]]] + bad], "failure": s.failure,
            "digest": s.digest.hexdigest(), "stats": {"edits_during_call": int(state["during"]), "calls": 1},
            "nontrivial": state["during"]}


def judge(case, rec, expect):
    if rec["failure"]:
        if rec["failure"][0] == "harness":
            raise core.HarnessError(rec["failure"][1])
        return ("hang", f"the calls do not finish: {rec['failure']}")
    for tid, log in enumerate(rec["log"]):
        for e in log:
            if e[0] == "call":
                x = expect(e[1])
                if e[2] != x:
                    return ("outcome", f"thread {tid}: {show(e[1])} gave {json.dumps(e[2])} after the caller edited its own data, "
                                       f"in a fresh process it gives {json.dumps(x)}")
            elif e[0] == "either":
                xs = [expect(c) for c in e[1]]
                if e[2] not in xs:
                    return ("mixture", f"{show(e[1][0])}, made {show(e[1][1])} by another thread meanwhile, gave {json.dumps(e[2])}, "
                                       f"neither {json.dumps(xs[0])} nor {json.dumps(xs[1])}")
            else:
                return ("changed", f"thread {tid}: {e[1]}")
    return None


def run_case(case, timeout=200):
    st, v = core.fork_call(lambda: execute(case), timeout=timeout)
    if st == "ok":
        return v
    if st == "err":
        raise core.HarnessError(v)
    return {"failure": ("stuck", f"the process {st}"), "log": [], "digest": st, "stats": {}, "nontrivial": False}


def minimise(case, expect, cls):
    if case["kind"] != "edit":
        return case
    t_end = core._monotonic() + 60

    def fails(c):
        if core._monotonic() > t_end:
            return False
        v = judge(c, run_case(c), expect)
        return bool(v and v[0] == cls)
    items = [(t, op) for t in range(len(case["threads"])) for op in case["threads"][t]]

    def build(its):
        th = [[] for _ in case["threads"]]
        for t, x in its:
            th[t].append(x)
        return dict(case, threads=[t for t in th if t] or [[]])
    out = build(core.ddmin(items, lambda its: fails(build(its)), 300))
    return out if fails(out) else case


def setup(seed, quick=True):
    sched.install_seams()
    lib.load()
    return Pool(seed, "C04", n_families=250 if quick else 900)


def main(ck):
    pool = setup(ck.seed, ck.quick())
    n = ck.scale(9000, 200_000)

    def one(i):
        case = gen(pool, ck.seed, i)
        rec = run_case(case)
        v = judge(case, rec, pool.oracle.get)
        res = {"counts": dict(rec["stats"], **{"kind_" + case["kind"]: 1}),
               "digest": core.h64(json.dumps(case), rec["digest"]) if rec["nontrivial"] else None}
        if i < 4:
            res["sample"] = case
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(70, 2400))
    core.check_harness_errors(results)
    viol = sorted((i, r["violation"]) for i, r in results.items() if r.get("violation"))
    for i, (v, case) in viol[:1]:
        small = minimise(case, pool.oracle.get, v[0])
        vv = judge(small, run_case(small), pool.oracle.get) or v
        ck.report(v[0], f"run {i}: {vv[1]}", small)
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(
        len(results), len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
        [r["sample"] for i, r in sorted(results.items()) if r.get("sample")],
        counts=counts, package_lines_reached=len(pool.lines), runs_per_hour=core.per_hour(len(results), wall),
        truncated_by_wall=trunc, faults={k: counts.get(k, 0) for k in ("edits", "edits_during_call")},
        simulated_time="no timers in scope", real_code="the whole Python package", stubs="threading/_thread locks, time")


def replay(data):
    sched.install_seams()
    lib.load()
    oracle = lib.Oracle()
    v = judge(data["case"], run_case(data["case"]), oracle.get)
    return v[1] if v else None

"""C02: a library answer never depends on earlier calls."""
import gc
import json
import os
import random
import threading
import time

from . import core, lib, sched
from .c01 import show
from .pool import Pool

RULE = ("a case is a history of library calls in one process (2 to tens of thousands, from a few families of related calls, "
        "with repeats, failing calls, other threads, clock jumps, garbage collections, reseeded random, and forks in "
        "between); non-trivial: at least two calls; distinct: by the digest of the sequence of calls and events")


def gen(pool, seed, i, n_long):
    r = core.rng_for(seed, "C02", "run", i)
    if i < pool.n_sweep:
        # pairs of calls that differ in one respect and in their outcomes, each in a random order
        ops = []
        pairs = r.sample(pool.pairs, len(pool.pairs))
        p_ev = r.choice([0, 0, .01])
        for a, b in pairs[:r.choice([50, 500, len(pairs), len(pairs)])]:
            a, b = (a, b) if r.random() < .5 else (b, a)
            ops += [["c", a], ["c", b]]
            if r.random() < .2:
                ops.append(["c", a])
            if r.random() < p_ev:
                ops.append(r.choice([["clock", 3601], ["gc"], ["seed", r.randrange(1 << 30)]]))
        return {"ops": ops, "seed": core.h64(seed, "C02", "s", i)}
    if i < pool.n_sweep + n_long:
        # one long history over everything: caches fill up, counters grow
        ks = sorted(pool.calls)
        ks = [k for k in ks if pool.oracle.table[k][0] in ("ok", "exc")]
        cheap = [k for k in ks if pool.steps(pool.calls[k]) < 400]
        ops = []
        n = pool.long_len
        src = [cheap, ks][i % 2] or ks
        # every distinct call in random order, then revisits
        order = src[:]
        r.shuffle(order)
        while len(ops) < n:
            if order and r.random() < .7:
                ops.append(["c", pool.calls[order.pop()]])
            else:
                ops.append(["c", pool.calls[r.choice(src)]])
        return {"ops": ops, "seed": core.h64(seed, "C02", "s", i)}
    fams = [pool.pick_family(r) for _ in range(r.choice([1, 1, 2, 3, 8]))]
    n = r.choice([2, 3, 4, 6, 10, 20, 40, 100, 300])
    p_fam = r.choice([1, 1, .9, .5])
    p_ev = r.choice([0, 0, .05, .2])
    work = [c for f in fams for c in f]
    if r.random() < .3:
        work = r.sample(work, min(len(work), r.choice([2, 3, 4])))
    ops = []
    thr = r.random() < .25
    for _ in range(n):
        if r.random() < p_ev:
            ev = r.choice(["clock", "gc", "seed", "fork", "env"])
            if ev == "clock":
                ops.append(["clock", r.choice([1e-3, 1, 61, 3601, 86400, 1e7, -5, -3600])])
            elif ev == "seed":
                ops.append(["seed", r.randrange(1 << 30)])
            else:
                ops.append([ev])
        c = r.choice(work) if r.random() < p_fam else pool.pick_call(r)
        ops.append(["t" if thr and r.random() < .4 else "c", c])
        if r.random() < .1:
            ops.append(["c", c])
    return {"ops": ops, "seed": core.h64(seed, "C02", "s", i)}


def execute(case, expect):
    """Run the history; returns the first divergence."""
    sched.install_clock()
    random.seed(case["seed"])
    gc.enable()
    r = random.Random(case["seed"])
    kept = []
    ncalls = 0
    counts = {}

    def run(ops, base):
        nonlocal ncalls
        for n, op in enumerate(ops):
            kind = op[0]
            counts[kind] = counts.get(kind, 0) + 1
            if kind in ("c", "t"):
                c = op[1]
                e = expect(c)
                if kind == "c":
                    o = lib.invoke(c, keep=kept if r.random() < .2 else None)
                else:
                    box = []
                    th = threading.Thread(target=lambda: box.append(lib.invoke(c)))
                    th.start()
                    th.join()
                    o = box[0]
                ncalls += 1
                if o != e:
                    return [base + n, c, o, e]
                if len(kept) > 50:
                    del kept[:25]
            elif kind == "clock":
                sched.CLOCK.tick(op[1])
                sched.CLOCK.t += 0
            elif kind == "gc":
                gc.collect()
            elif kind == "seed":
                random.seed(op[1])
            elif kind == "env":
                os.environ["JVOSIM_NOISE"] = str(r.random())
            elif kind == "fork":
                rest, b = ops[n + 1:], base + n + 1
                st, v = core.fork_call(lambda: (run(rest, b), ncalls, counts), timeout=300)
                if st != "ok":
                    return [b, None, ["fork", st], None]
                d, ncalls, cnt = v
                counts.update(cnt)
                return d
        return None
    d = run(case["ops"], 0)
    return {"div": d, "ncalls": ncalls, "counts": counts}


def run_case(case, expect, timeout=400):
    st, v = core.fork_call(lambda: execute(case, expect), timeout=timeout)
    if st == "err":
        raise core.HarnessError(v)
    if st != "ok":
        return {"div": [len(case["ops"]) - 1, None, ["no-answer", st], None], "ncalls": 0, "counts": {}}
    return v


def message(div):
    n, c, o, e = div
    if c is None:
        return f"step {n}: the process {json.dumps(o)}"
    return f"after {n} earlier steps {show(c)} gave {json.dumps(o)}, in a fresh process it gives {json.dumps(e)}"


def words_of(op):
    if op[0] not in "ct":
        return set()
    a = op[1]["a"][0] if op[1]["a"] else ""
    s = " ".join(map(str, a)) if isinstance(a, list) else str(a)
    return {s} | set(s.split())


def minimise(case, expect):
    t_end = core._monotonic() + 60
    d = run_case(case, expect)["div"]
    ops = case["ops"][:d[0] + 1]
    last = ops[-1]

    def fails(prefix):
        if core._monotonic() > t_end:
            return False
        return run_case(dict(case, ops=prefix + [last]), expect)["div"] is not None
    pre = ops[:-1]
    # a long prefix: perhaps only its end matters, or only the calls that share a word with the last one
    mine = words_of(last)
    tries = [pre[-n:] for n in (1, 2, 4, 16, 64, 512) if n < len(pre)]
    tries += [[op for op in pre if words_of(op) & mine]]
    for t in sorted(tries, key=len):
        if fails(t):
            pre = t
            break
    pre = core.ddmin(pre, fails, 400)
    out = dict(case, ops=pre + [last])
    return out if run_case(out, expect)["div"] is not None else dict(case, ops=ops)


def setup(seed, quick=True):
    sched.install_seams()
    lib.load()
    pool = Pool(seed, "C02", n_families=300 if quick else 900)
    extra = []
    c = pool.corpus
    for w in sorted(set(c.gismu + c.zihevla + c.jvs_lujvo + c.keys))[: 6000 if quick else 20000]:
        extra.append({"f": c.rng.choice(["is_brivla", "analyse_brivla", "analyse_brivla", "get_veljvo", "tools.normalise"]),
                      "a": [w], "k": {}})
    pool.pairs = []
    for g in c.group_keys:
        l = c.groups[g]
        pool.pairs += c.rng.sample(l, min(len(l), 10 ** 6 if not quick else 60 if g[0] in lib.SETTING_NAMES else 20))
    pool.n_sweep = 32 if quick else 400
    extra += [x for p in pool.pairs for x in p]
    pool.table_only(extra)
    extra = [x for x in extra if pool.oracle.table[lib.ckey(x)][0] in ("ok", "exc")]
    pool.pairs = [p for p in pool.pairs if all(pool.oracle.table[lib.ckey(x)][0] in ("ok", "exc") for x in p)]
    pool.extra = extra
    pool.long_len = 24_000 if quick else 150_000
    return pool


def main(ck):
    pool = setup(ck.seed, ck.quick())
    n_long = ck.scale(8, 24)
    n = ck.scale(8_000, 200_000)

    def one(i):
        case = gen(pool, ck.seed, i, n_long)
        rec = run_case(case, pool.expect)
        res = {"counts": dict(rec["counts"], calls=rec["ncalls"]),
               "digest": core.h64(json.dumps(case["ops"])) if rec["ncalls"] >= 2 else None,
               "len": rec["ncalls"]}
        if pool.n_sweep + n_long <= i < pool.n_sweep + n_long + 3:
            res["sample"] = [op[0] + " " + (show(op[1]) if op[0] in "ct" else str(op[1:])) for op in case["ops"][:12]]
        if rec["div"]:
            res["violation"] = (message(rec["div"]), case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(70, 2400))
    core.check_harness_errors(results)
    viol = sorted((i, r["violation"]) for i, r in results.items() if r.get("violation"))
    for i, (msg, case) in viol[:1]:
        small = minimise(case, lambda c: pool.oracle.get(c))
        d = run_case(small, lambda c: pool.oracle.get(c))["div"]
        ck.report("history", f"run {i}: {message(d) if d else msg}", small)
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(
        len(results), len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
        [r["sample"] for i, r in sorted(results.items()) if r.get("sample")],
        counts=counts, longest_history=max((r["len"] for r in results.values() if "len" in r), default=0), pool_calls=len(pool.calls),
        package_lines_reached=len(pool.lines), runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
        simulated_time="virtual clock, jumps of -1 h to 10^7 s between calls",
        faults={k: counts.get(k, 0) for k in ("clock", "gc", "seed", "fork", "env", "t")},
        real_code="the whole Python package", stubs="time (virtual clock)")


def replay(data):
    sched.install_seams()
    lib.load()
    oracle = lib.Oracle()
    for op in data["case"]["ops"]:
        if op[0] in "ct":
            oracle.get(op[1])
    d = run_case(data["case"], oracle.get)["div"]
    return message(d) if d else None

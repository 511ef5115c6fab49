"""C01: concurrent library calls never influence one another."""
import json
import random

from . import core, lib, sched
from .pool import Pool

RULE = ("a case is 2-6 threads (crowds: 8-20), each making 1-6 library calls drawn from one family (one word, other settings and "
        "functions) and from the pool at large, under one seeded schedule, in a fresh process or (warm runs) in one that has "
        "made up to a thousand calls before; non-trivial: at least one preemption inside "
        "package code while another call was in progress; distinct: by the digest of the schedule actually executed")


def gen(pool, seed, i, warm=None):
    r = core.rng_for(seed, "C01", "run", i)
    nthreads = r.choices([2, 3, 4, 6], [6, 3, 2, 1])[0]
    fam = pool.pick_family(r)
    fams = [fam] + ([pool.pick_family(r)] if r.random() < .5 else [])
    p_fam = r.choice([1, .9, .7, .3])
    nops = r.choice([1, 1, 2, 3, 6])
    crowd = not warm and r.random() < .07
    if crowd:
        # many calls under way at once, often of one function
        nthreads, nops = r.choice([8, 10, 12, 16, 20]), r.choice([1, 1, 2])
        if r.random() < .7:
            f = r.choice(["get_lujvo", "get_lujvo_with_analytics", "get_veljvo", "analyse_brivla", "score_lujvo", "jvokaha", "is_brivla"])
            mine = [c for _ in range(60) for c in pool.pick_family(r) if c["f"] == f]
            fams = [mine or fam]
            p_fam = 1
    threads = []
    for _ in range(nthreads):
        threads.append([r.choice(r.choice(fams)) if r.random() < p_fam else pool.pick_call(r)
                        for _ in range(r.randint(1, nops))])
    if warm:
        # some threads ask again for what the process has answered before
        threads = [[r.choice(warm[-r.choice([3, 30, 300]):]) if r.random() < .5 else c for c in t] for t in threads]
    gran = "instr" if r.random() < .3 else "line"
    f = 7 if gran == "instr" else 1
    est = [max(20, sum(pool.steps(c) for c in t) * f) for t in threads]
    total = sum(est)
    kind = "rw" if crowd else r.choices(["rw", "burst", "pct", "loc"], [4, 4, 2, 3 if not warm else 12])[0]
    if kind == "rw":
        st = {"kind": "rw", "p": min(1.0, 10 ** (r.uniform(-1.7, -.3) if crowd else r.uniform(-3.5, -0.3)))}
    elif kind == "burst":
        plan = []
        for _ in range(r.choice([1, 1, 1, 2, 3, 4, 8])):
            t = r.randrange(nthreads)
            to = r.choice([x for x in range(nthreads) if x != t])
            plan.append([t, r.randrange(1, est[t]), to])
        st = {"kind": "burst", "plan": plan, "start": plan[0][0]}
    elif kind == "pct":
        st = {"kind": "pct", "at": sorted(r.randrange(1, total) for _ in range(r.choice([1, 2, 3, 5])))}
    else:
        line_pool = [l for c in (c for t in threads for c in t) for l in pool.cov[lib.ckey(c)][0]]
        if warm:
            # lines that only a process with a past reaches
            some = [c for t in threads for c in t]
            some = r.sample(some, min(4, len(some)))
            late = sorted({tuple(l) for c in some for l in lib.alone_cov(c)[1][0]} -
                          {tuple(l) for c in some for l in pool.cov[lib.ckey(c)][0]})
            if late and r.random() < .8:
                line_pool = late
        st = {"kind": "loc", "locs": [list(r.choice(line_pool)) for _ in range(r.choice([1, 2, 4, 8]))] if line_pool else [],
              "p": r.choice([1, .5, .2])}
        gran = "line"
    after = [pool.pick_call(r) for _ in range(2)] + [r.choice(r.choice(threads))]
    return {"threads": threads, "after": after, "gran": gran, "strategy": st, "seed": core.h64(seed, "C01", "s", i),
            "max_steps": 200_000 + 40 * total, "warm": list(warm or [])}


def batch(pool, seed, b, runs):
    """One process that goes on making calls; between them it is forked for concurrent runs."""
    r = core.rng_for(seed, "C01", "warm", b)
    first, step = r.choice([(0, 2), (0, 6), (100, 5), (200, 10), (900, 8)])
    some = [c for _ in range(r.choice([3, 20, 100])) for c in pool.pick_family(r)] if r.random() < .5 else None

    def more(k):
        cs = [r.choice(some) if some and r.random() < .7 else pool.pick_call(r) for _ in range(k)]
        for c in cs:
            lib.invoke(c)
        return cs
    made = more(first)
    out = []
    for j in range(runs):
        made += more(r.randint(1, 2 * step))
        case = gen(pool, seed, f"warm-{b}-{j}", made)
        rec = run_case(dict(case, warm=[]))
        v = judge(case, rec, pool.expect)
        out.append((case if v or j == 0 else dict(case, warm=len(made)), rec, v))
        if v:
            break
    return out


def execute(case):
    """Run one case in this (forked, pristine) process; returns the record of the run."""
    for c in case.get("warm") or []:
        lib.invoke(c)
    sched.install_clock()
    random.seed(case["seed"])
    s = sched.Sched(case["seed"], case["strategy"], case["gran"], case["max_steps"])
    out = [[] for _ in case["threads"]]
    overlap = [0]
    active = set()

    def body(tid):
        def go(t):
            for c in case["threads"][tid]:
                args = lib.fresh_args(c)
                active.add(tid)
                o = lib.invoke(c, args)
                active.discard(tid)
                out[tid].append(o)
        return go
    for n in range(len(case["threads"])):
        s.add(body(n))
    orig = s.handover

    def handover(frm, to):
        if to.tid in active and frm.tid in active:
            overlap[0] += 1
        orig(frm, to)
    s.handover = handover
    s.run()
    after = None
    if s.failure is None:
        after = [lib.invoke(c) for c in case["after"]]
    return {"out": out, "after": after, "failure": s.failure, "steps": s.steps, "switches": s.switches,
            "preempted": s.preempted, "overlap": overlap[0], "blocks": s.blocks, "digest": s.digest.hexdigest(),
            "sites": sorted(s.trace_sites)}


def judge(case, rec, expect):
    """None or (class, message)."""
    if rec["failure"]:
        kind, msg = rec["failure"]
        if kind == "harness":
            raise core.HarnessError(msg)
        if kind in ("deadlock", "stuck"):
            return ("deadlock", f"threads deadlock: {msg}")
        return (kind, f"the calls do not finish: {msg}")
    for tid, (calls, outs) in enumerate(zip(case["threads"], rec["out"])):
        for c, o in zip(calls, outs):
            e = expect(c)
            if o != e:
                return ("outcome", f"thread {tid}: {show(c)} gave {json.dumps(o)}, alone it gives {json.dumps(e)}")
    for c, o in zip(case["after"], rec["after"]):
        e = expect(c)
        if o != e:
            return ("residue", f"after the threads ended: {show(c)} gave {json.dumps(o)}, alone it gives {json.dumps(e)}")
    return None


def show(c):
    a = [json.dumps(x, ensure_ascii=False) for x in c["a"]] + [f"{k}={v!r}" for k, v in sorted(c.get("k", {}).items())]
    return f"{c['f']}({', '.join(a)})"


def run_case(case, timeout=150):
    st, v = core.fork_call(lambda: execute(case), timeout=timeout)
    if st == "ok":
        return v
    if st == "err":
        raise core.HarnessError(v)
    return {"failure": ("stuck", f"the process {st}"), "out": [], "after": [], "steps": 0, "switches": [],
            "preempted": 0, "overlap": 0, "blocks": 0, "digest": st, "sites": []}


def as_replay(case, rec):
    c = dict(case)
    c["strategy"] = {"kind": "replay", "switches": [list(x) for x in rec["switches"]], "start": first_of(case, rec)}
    return c


def first_of(case, rec):
    return rec["switches"][0][0] if rec["switches"] else 0


def minimise(case, rec, expect, cls):
    """Fewer calls, then fewer context switches, the same class of violation."""
    import time
    t_end = core._monotonic() + 60

    def fails(c):
        if core._monotonic() > t_end:
            return None
        r = run_case(c)
        v = judge(c, r, expect)
        return (r, v) if v and v[0] == cls else None
    best, brec = case, rec
    # 1. drop calls; each reduced workload is tried under the old schedule and under fresh ones
    changed = True
    while changed and core._monotonic() < t_end:
        changed = False
        for tid in range(len(best["threads"])):
            for k in range(len(best["threads"][tid]) - 1, -1, -1):
                if sum(map(len, best["threads"])) <= 1:
                    break
                th = [list(t) for t in best["threads"]]
                del th[tid][k]
                cand = dict(best, threads=th)
                cand["after"] = [c for c in best["after"]]
                tries = [cand]
                rr = random.Random(core.h64(json.dumps(th), "min"))
                for n in range(12):
                    tries.append(dict(cand, seed=n, gran="line", strategy={"kind": "rw", "p": 10 ** rr.uniform(-3, -.5)}))
                hit = None
                for c in tries:
                    f = fails(c)
                    if f:
                        hit = (c, f[0])
                        break
                if hit:
                    best, brec = hit
                    changed = True
                    break
            if changed:
                break
    if cls != "residue":
        best = dict(best, after=[])
    f = fails(best)
    if f:
        brec = f[0]
    if best.get("warm"):
        w = core.ddmin(best["warm"], lambda x: fails(dict(best, warm=x)) is not None, 60)
        best = dict(best, warm=w)
        f = fails(best)
        if f:
            brec = f[0]
    # 2. explicit schedule, then delta debugging on the switches
    rep = as_replay(best, brec)
    f = fails(rep)
    if f:
        start = rep["strategy"]["start"]

        def with_sw(sw):
            return dict(rep, strategy={"kind": "replay", "switches": sw, "start": start})
        sw = core.ddmin(rep["strategy"]["switches"], lambda x: fails(with_sw(x)) is not None, 300)
        rep = with_sw(sw)
        if fails(rep):
            return rep
    return best


def setup(seed, quick=True):
    sched.install_seams()
    lib.load()
    return Pool(seed, "C01", n_families=250 if quick else 900)


def main(ck):
    pool = setup(ck.seed, ck.quick())
    n = ck.scale(5000, 100_000)
    per_batch = 25
    batches = ck.scale(60, 3000)

    def report(case, rec, v, sample):
        counts = {"runs": 1, "steps": rec["steps"], "preemptions": rec["preempted"], "overlapping_switches": rec["overlap"],
                  "lock_blocks": rec["blocks"], "calls": sum(map(len, case["threads"])),
                  "strategy_" + case["strategy"]["kind"]: 1, "granularity_" + case["gran"]: 1}
        if case["warm"]:
            counts["warm_runs"] = 1
        if len(case["threads"]) >= 8:
            counts["crowds"] = 1
        res = {"counts": counts, "digests": [rec["digest"]] if rec["overlap"] else [], "sites": rec["sites"][:200]}
        if sample:
            res["sample"] = {"threads": [[show(c) for c in t] for t in case["threads"]], "gran": case["gran"],
                             "calls_before": case["warm"] if isinstance(case["warm"], int) else len(case["warm"]),
                             "strategy": case["strategy"], "steps": rec["steps"], "preemptions": rec["preempted"]}
        if v:
            res["violation"] = (v, case, rec)
        return res

    def one(i):
        if i < n:
            case = gen(pool, ck.seed, i)
            rec = run_case(case)
            return report(case, rec, judge(case, rec, pool.expect), i < 3)
        st, rs = core.fork_call(lambda: batch(pool, ck.seed, i - n, per_batch), timeout=600)
        if st != "ok":
            raise core.HarnessError(f"warm batch {i - n}: {st} {rs}")
        all_ = [report(case, rec, v, i == n and j == 0) for j, (case, rec, v) in enumerate(rs)]
        res = {"counts": core.merge_counts(dict(enumerate(all_))), "digests": sorted({d for x in all_ for d in x["digests"]}),
               "sites": sorted({tuple(s) for x in all_ for s in x["sites"]})}
        for x in all_:
            for k in ("sample", "violation"):
                if k in x:
                    res[k] = x[k]
        return res
    results, trunc = core.run_pool(one, n + batches, wall_cap=ck.scale(80, 2400))
    core.check_harness_errors(results)
    viol = sorted((i, r["violation"]) for i, r in results.items() if r.get("violation"))
    for i, (v, case, rec) in viol[:1]:
        small = minimise(case, rec, lambda c: pool.oracle.get(c), v[0])
        vv = judge(small, run_case(small), lambda c: pool.oracle.get(c)) or v
        ck.report(f"{v[0]}", f"run {i}: {vv[1]}", small)
    counts = core.merge_counts(results)
    sites = {tuple(s) for r in results.values() for s in r.get("sites", [])}
    wall = core._monotonic() - ck.t0
    runs = counts.get("runs", 0)
    return ck.finish(
        runs, len({d for r in results.values() for d in r.get("digests", [])}), RULE,
        [r["sample"] for i, r in sorted(results.items()) if r.get("sample")],
        counts=counts, distinct_preemption_sites=len(sites), package_lines_reached=len(pool.lines),
        pool_calls=len(pool.calls), runs_per_hour=core.per_hour(runs, wall), truncated_by_wall=trunc,
        simulated_time="no timers in scope; time.* is a virtual clock advanced by readings",
        faults={"preemptions": counts.get("preemptions", 0)},
        real_code="the whole Python package", stubs="threading/_thread locks, thread start, queue.SimpleQueue, time")


def replay(data):
    sched.install_seams()
    lib.load()
    oracle = lib.Oracle()
    case = data["case"]
    rec = run_case(case)
    v = judge(case, rec, oracle.get)
    return v[1] if v else None

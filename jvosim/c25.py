"""C25: processes forked while calls are in progress."""
from . import core, lib, nest, sched
from .c24 import sweep
from .pool import Pool

RULE = ("either a sweep: a call during which, at each of up to 300 lines, another thread or a handler forks a child that makes a call (and, forked by a handler, also finishes the call it was forked in); or a run: "
        "one to four threads making library calls while one of them forks, so that the child consists of that thread alone "
        "and of memory as the other threads left it in the middle of their calls; child and parent go on calling; in a fresh process or "
        "after earlier calls; non-trivial: some call was in progress at a fork; distinct: by (calls, schedule digest)")


def gen(pool, seed, i):
    r = core.rng_for(seed, "C25", "run", i)
    x = r.random()
    if x < .2:
        return sweep(pool, seed, "C25", r, i, "fork" if x < .11 else "self-fork")
    fams = [pool.pick_family(r)] + ([pool.pick_family(r)] if r.random() < .4 else [])
    pick = lambda: r.choice(r.choice(fams)) if r.random() < .8 else pool.pick_call(r)
    warm = [pick() for _ in range(r.choice([1, 3, 20, 150]))] if r.random() < .3 else []
    mode = r.choices(["threads", "handler", "tree"], [8, 3, 1])[0]

    def child(depth=0):
        ops = [{"call": pick()} for _ in range(r.choice([1, 2, 4]))]
        if depth:
            ops.insert(r.randrange(len(ops) + 1), {"fork": child(depth - 1)})
        return ops
    if mode == "handler":
        # a signal handler in the middle of a call forks
        threads = []
        for _ in range(r.choice([1, 1, 2])):
            c = pick()
            o = {"call": c, "at": r.randrange(1, max(8, pool.steps(c) * 5)), "nest": [{"fork": child(), "goes_on": r.random() < .6}] + [{"call": pick()}] * r.randrange(2)}
            where = pool.cov[lib.ckey(c)][0]
            if pool.steps(c) < 6000 and where and r.random() < .5:
                o.update(at=1, line=list(r.choice(where)), nth=r.choice([1, 1, 2, 3, 5, 9]))
            threads.append([o, {"call": pick()}])
        gran, st = "instr", {"kind": "rw", "p": 1e-3}
    else:
        n = r.choice([1, 1, 2, 3]) if mode == "threads" else r.choice([0, 1])
        threads = [[{"call": pick()} for _ in range(r.choice([1, 2, 4]))] for _ in range(n)]
        forker = [{"fork": child(2 if mode == "tree" else 0)}]
        if r.random() < .5:
            forker.insert(0, {"call": pick()})
        if r.random() < .5:
            forker.append({"call": pick()})
        if r.random() < .3:
            forker.append({"fork": child()})
        threads.append(forker)
        gran = "instr" if r.random() < .3 else "line"
        f = 7 if gran == "instr" else 1
        est = [max(20, sum(pool.steps(c) for c in nest.calls_of(t)) * f) for t in threads]
        kind = r.choices(["burst", "rw", "loc"], [4, 2, 4])[0]
        if kind == "burst" and n:
            plan = [[r.randrange(n), 0, n] for _ in range(r.choice([1, 1, 2]))]
            for x in plan:
                x[1] = r.randrange(1, est[x[0]])
            st = {"kind": "burst", "plan": plan, "start": plan[0][0]}
        elif kind == "loc" and n:
            gran = "line"
            lines = [l for t in threads[:-1] for c in nest.calls_of(t) for l in pool.cov[lib.ckey(c)][0]]
            st = {"kind": "loc", "locs": [list(r.choice(lines)) for _ in range(r.choice([1, 2, 4]))] if lines else [], "p": r.choice([1, .5, .2])}
        else:
            st = {"kind": "rw", "p": 10 ** r.uniform(-3.5, -.5)}
    return {"threads": threads, "after": [pick(), pool.pick_call(r)], "warm": warm, "gran": gran, "seed": core.h64(seed, "C25", "s", i),
            "strategy": st, "max_steps": 2_000_000 + 60 * sum(pool.steps(c) for t in threads for c in nest.calls_of(t))}


def main(ck):
    sched.install_seams()
    lib.load()
    pool = Pool(ck.seed, "C25", n_families=250 if ck.quick() else 900)
    return nest.check(ck, "C25", pool, gen, ck.scale(1700, 60_000), RULE, ["forks", "forks_with_calls_in_progress", "preemptions"])


replay = nest.replay

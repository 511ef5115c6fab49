"""C24: calls made from signal handlers and finalizers in the middle of other calls."""
from . import core, lib, nest, sched
from .pool import Pool

RULE = ("either a sweep: a call during which, at each of up to 300 points, a handler makes a further call (in a snapshot, or one after the other); or a run: "
        "one to three threads making library calls; in the middle of some of them, at a seeded point where CPython runs signal handlers and finalizers, one to three further calls are made on the same thread, to a depth of up to four (in some runs up to forty); "
        "in a fresh process or after earlier calls; non-trivial: at least one nested call ran inside package code; distinct: by "
        "(calls, places, schedule digest)")


def sweep(pool, seed, prop, r, i, mode):
    """A call that is no longer than most, and what is called at its points: itself, its neighbours, the same with other settings."""
    if mode == "storm" and r.random() < .6:
        # the groups of pairs in turn: a call whose outcome hangs on a setting, among calls under another value of it
        keys = [g for g in pool.corpus.group_keys if g[0] in lib.SETTING_NAMES]
        g = keys[i % len(keys)]
        outer, mate = r.sample(r.choice(pool.corpus.groups[g]), 2)
        alike = pool.by_f.get(g[1]) or [mate]
        nested = r.sample([mate] + [dict(r.choice(alike), k=mate["k"]) for _ in range(2)], r.choice([1, 2, 3]))
        return {"outer": outer, "nested": nested, "mode": mode, "warm": [], "occ": r.choice([1, 3]), "cap": r.choice([150, 400]),
                "seed": core.h64(seed, prop, "s", i)}
    if r.random() < .5:
        fam = r.choice(pool.pairs)
        outer, mate = r.sample(fam[:2], 2)
        if r.random() < .3:
            outer, mate = r.sample(fam, 2)
        if r.random() < .4:         # another function on the word, under the one settings and the other
            w = outer["a"][0]
            f = r.choice(lib.TANRU_F if outer["f"] in lib.TANRU_F else lib.WORD_F + ["get_veljvo"] * 2)
            if isinstance(w, str) or f in lib.TANRU_F:
                acc = lib.EXTRA_KW.get(f, lib.KW + (["generate_cmevla"] if f in lib.TANRU_F else []))
                outer, mate = ({"f": f, "a": [w], "k": {n: v for n, v in c["k"].items() if n in acc}} for c in (outer, mate))
        warm = [r.choice(fam) for _ in range(r.choice([0, 0, 1, 2]))]
        nested = [mate]
        if r.random() < .6:         # and on other words, under the other settings
            alike = pool.by_f.get(outer["f"]) or [mate]
            nested = r.sample([mate] + [dict(r.choice(alike), k=mate["k"]) for _ in range(2)], r.choice([1, 2, 3]))
        return {"outer": outer, "nested": nested, "mode": mode, "warm": warm, "occ": r.choice([1, 2]), "cap": r.choice([60, 150, 300]),
                "seed": core.h64(seed, prop, "s", i)}
    fam = pool.pick_family(r)
    short = [c for c in fam if pool.steps(c) < 12_000]
    outer = r.choice(short) if short else min(fam, key=pool.steps)
    nested = r.sample([outer] + [r.choice(fam) for _ in range(3)] + [pool.pick_call(r)], r.choice([1, 1, 2, 3]))
    if outer not in nested and r.random() < .4:
        nested[0] = outer
    warm = [r.choice(fam) for _ in range(r.choice([1, 2, 5]))] if r.random() < .6 else []
    if outer in warm and r.random() < .7:
        warm = [c for c in warm if c != outer]
    return {"outer": outer, "nested": nested, "mode": mode, "warm": warm, "occ": r.choice([1, 2, 3]), "cap": r.choice([60, 150, 300]),
            "seed": core.h64(seed, prop, "s", i)}


def gen(pool, seed, i):
    r = core.rng_for(seed, "C24", "run", i)
    x = r.random()
    if x < .65:
        return sweep(pool, seed, "C24", r, i, "nested" if x < .08 else "storm")
    fams = [pool.pick_family(r)] + ([pool.pick_family(r)] if r.random() < .4 else [])
    pick = lambda: r.choice(r.choice(fams)) if r.random() < .8 else pool.pick_call(r)
    gran = "instr" if r.random() < .7 else "line"

    def op(depth, again=None):
        c = again if again and r.random() < .3 else pick()
        o = {"call": c}
        if depth:
            n = max(8, pool.steps(c) * (5 if gran == "instr" else 1))
            x = r.random()
            o["at"] = r.randrange(1, n) if x < .7 else r.randrange(1, 60) if x < .85 else max(1, n - r.randrange(1, 200))
            where = pool.cov[lib.ckey(c)][0]
            if n < 30_000 and where and r.random() < .5:
                o.update(at=1, line=list(r.choice(where)), nth=r.choice([1, 1, 2, 3, 5, 9]))
            o["nest"] = [op(depth - 1 if r.random() < .6 else 0, c) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        return o
    if x > .95:
        # a tower: handlers interrupted by handlers, deeper than anyone would plan for
        o = {"call": pick()}
        for _ in range(r.choice([6, 12, 20, 40])):
            c = o["call"] if r.random() < .5 else pick()
            o = {"call": c, "at": r.randrange(1, max(2, min(150, pool.steps(c)))) if r.random() < .8 else r.randrange(1, max(2, pool.steps(c))), "nest": [o]}
        gran = "line"
        return {"threads": [[o, op(0)]], "after": [pick()], "warm": [], "gran": gran, "seed": core.h64(seed, "C24", "s", i),
                "strategy": {"kind": "rw", "p": .001}, "max_steps": 2_000_000 + 60 * sum(pool.steps(c) for c in nest.calls_of([o]))}
    nthreads = r.choices([1, 2, 3], [8, 2, 1])[0]
    threads = []
    for t in range(nthreads):
        threads.append([op(r.choice([1, 1, 1, 2, 2, 3]) if r.random() < .8 else 0) for _ in range(r.choice([1, 1, 2, 3, 5]))] + [op(0)])
    warm = [pick() for _ in range(r.choice([1, 3, 20, 150]))] if r.random() < .3 else []
    return {"threads": threads, "after": [pick(), pool.pick_call(r)], "warm": warm, "gran": gran, "seed": core.h64(seed, "C24", "s", i),
            "strategy": {"kind": "rw", "p": 10 ** r.uniform(-3.5, -1)},
            "max_steps": 2_000_000 + 60 * sum(pool.steps(c) for t in threads for c in nest.calls_of(t))}


def main(ck):
    sched.install_seams()
    lib.load()
    pool = Pool(ck.seed, "C24", n_families=250 if ck.quick() else 900)
    return nest.check(ck, "C24", pool, gen, ck.scale(3000, 100_000), RULE, ["nested_handlers_run", "preemptions"])


replay = nest.replay

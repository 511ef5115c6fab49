"""C15: the Rust program's output is a function of its arguments and input bytes."""
import json

from . import core, rust

RULE = ("a case is one set of arguments and input, run once plainly and then several times with other hash seeds, environments, heap "
        "layouts, clocks, process ids and names, and with its reads and writes split, interrupted and delayed; non-trivial: more than "
        "the prompt was printed; distinct: by arguments, input and variants")


def gen(lines, seed, i):
    r = core.rng_for(seed, "C15", "run", i)
    x = r.random()
    args, ls = [], []
    if x < .35:
        s = rust.apply(rust.DEFAULT, "".join(r.choice(rust.FLAGS) for _ in range(r.choice([0, 0, 1, 2, 3]))))
        words = lines.line(r, .2)[:2000] or "a"
        if r.random() < .15:
            words = r.choice(lines.shared)
        words = words.replace("\0", "?")
        args = rust.args_of(s) + (words.split(" ") if r.random() < .5 else [words])
        y = r.random()
        if y < .05:
            args = [r.choice(["-h", "--help", "-x", "--", "-", "/c", "/q", " /q", "-c", "-cq"])] + args[:r.choice([0, 1])]
    else:
        if r.random() < .06:
            # many close calls under one hash seed after the other
            some = lines.close if r.random() < .6 else lines.shared
            k = r.choice([20, 60, 150])
            return dict(args=args, lines=[lines.command(r)] * (r.random() < .5) + r.sample(some, min(k, len(some))),
                        variants=[variant(r) for _ in range(4)])
        ls = lines.session(r, nmax=30, commands=r.choice([.1, .3]), garbage=.1) + [r.choice(lines.good) for _ in range(r.choice([1, 4, 12]))]
        if r.random() < .3:
            args = rust.args_of(rust.apply(rust.DEFAULT, "".join(r.choice(rust.FLAGS) for _ in range(2))))
    return dict(args=args, lines=ls, variants=[variant(r) for _ in range(r.choice([3, 4, 6]))])


def variant(r):
    env = {}
    for k, vs in ENV.items():
        if r.random() < .2:
            env[k] = r.choice(vs)
    for k in READ:
        if r.random() < .5:
            env[k] = r.choice(["", "0", "1", "2", "3", "10", "4096", "x", "en", "yes", "/tmp", "-1"])
    return dict(rnd=r.randrange(1, 1 << 62), heap=r.choice([0, 0, 1000, 100000, 3000000]), env=env,
                clock=r.choice([0, 1, 1700000000, 2**31, 2**33, -10]), pid=r.choice([1, 2, 4242, 99999]),
                pin=rust.pieces(r, r.choice([0, 10, 100])), pout=rust.pieces(r, r.choice([0, 10, 100])),
                argv0=r.choice([None, None, "jvotci", "x", "/a b/é"]), cwd=r.choice(["/", "/tmp", "/usr"]))


ENV = {"LANG": ["C", "tr_TR.UTF-8", "ja_JP.eucJP", ""], "LC_ALL": ["C", "POSIX", "jbo"], "TERM": ["dumb", "xterm-256color", ""],
       "NO_COLOR": ["1"], "CLICOLOR_FORCE": ["1"], "COLUMNS": ["1", "20", "x"], "HOME": ["/", "/nonexistent"], "USER": ["nobody"],
       "RUST_BACKTRACE": ["1", "full"], "RUST_MIN_STACK": ["100000"], "RUST_LOG": ["trace"], "TZ": ["Asia/Tokyo"], "PWD": ["/x"],
       "JVOTCI": ["1"], "DEBUG": ["1"], "CI": ["true"], "FILLER": ["x" * 5000], "MALLOC_ARENA_MAX": ["1"], "MALLOC_PERTURB_": ["170"]}

READ = []   # the names the program under test asks for, found by a pilot

PLAIN = dict(rnd=1, heap=0, env={}, clock=1700000000, pid=4242, pin=[], pout=[], argv0=None, cwd="/")


def execute(prog, case, v):
    data = "".join(l + "\n" for l in case["lines"]).encode()
    env = dict(v["env"], SIM_CLOCK=str(v["clock"]), SIM_PID=str(v["pid"]))
    return prog.run(case["args"], data, ",".join(v["pin"]), ",".join(v["pout"]), env=env,
                    ops=600 + 80 * len(case["lines"]) + len(v["pin"]) + len(v["pout"]),
                    rnd=v["rnd"], heap=v["heap"], argv0=v["argv0"], cwd=v["cwd"])


def differs(prog, case, base, v):
    rec = execute(prog, case, v)
    if (rec["out"], rec["status"]) == (base["out"], base["status"]):
        return None, rec
    a, b = base["out"], rec["out"]
    n = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return (f"arguments {case['args']}, lines {json.dumps(case['lines'], ensure_ascii=False)[:300]}: one process prints {a[max(0, n - 40):n + 60]!r} "
            f"and ends with {rust.status(base['status'])}, another prints {b[max(0, n - 40):n + 60]!r} and ends with "
            f"{rust.status(rec['status'])}; it differs in {[k for k in PLAIN if v[k] != PLAIN[k]]}"), rec


def check(prog, case):
    base = execute(prog, case, PLAIN)
    if base["log"] and base["log"][-1][0] == "X":
        return f"arguments {case['args']}, lines {case['lines'][:3]}: the program does not stop", None, base, []
    recs = []
    for v in case["variants"]:
        msg, rec = differs(prog, case, base, v)
        recs.append(rec)
        if msg:
            return msg, v, base, recs
    return None, None, base, recs


def names_read(prog, lines):
    """Environment variables a few sessions and one-shot runs look at."""
    r = core.rng_for(1, "C15", "names")
    names = set()
    for args in [[], ["-h"], ["--help"], ["-A"], ["klama", "bajra"]] + [[l] for l in r.sample(lines.good, min(5, len(lines.good)))]:
        data = "".join(l + "\n" for l in ["/h", "/A"] + r.sample(lines.good, min(20, len(lines.good)))).encode()
        names |= set(prog.run(args, data, env={"SIM_NAMES": "1"}, ops=5000)["names"])
    # what may be given any value: not what decides how the process itself is run
    return sorted(n for n in names if n and "=" not in n and not n.startswith(("LD_", "SIM_", "MALLOC_", "GLIBC_", "RUST_MIN_STACK")) and n != "PATH")


def main(ck):
    prog = rust.Program(ck.scratch)
    lines = rust.Lines(core.rng_for(ck.seed, "C15", "lines"), ck.scale(2500, 8000))
    n = ck.scale(5000, 120_000)
    READ[:] = names_read(prog, lines)

    def one(i):
        case = gen(lines, ck.seed, i)
        msg, v, base, recs = check(prog, case)
        c = {"cases": 1, "processes": 1 + len(recs), "hash_seeds": len(recs), "one_shot": int(not case["lines"])}
        for rec in recs:
            c["interrupted_ops"] = c.get("interrupted_ops", 0) + sum(1 for w, a, g in rec["log"] if g == -4)
            c["short_ops"] = c.get("short_ops", 0) + sum(1 for w, a, g in rec["log"] if w == "w" and 0 <= g < a)
            c["operations"] = c.get("operations", 0) + len(rec["log"])
        for w in case["variants"]:
            for k in ("heap", "env", "clock", "pid", "argv0"):
                if w[k] != PLAIN[k]:
                    c["varied_" + k] = c.get("varied_" + k, 0) + 1
            if any(x[0] == "J" for x in w["pin"] + w["pout"]):
                c["varied_delay"] = c.get("varied_delay", 0) + 1
        res = {"counts": c}
        if len(base["out"]) > 40:
            res["digest"] = core.h64(json.dumps(case, sort_keys=True), base["out"])
        if i < 4:
            res["sample"] = {"args": case["args"], "lines": case["lines"][:5], "variants": len(case["variants"]), "bytes": len(base["out"]),
                             "status": base["status"]}
        if msg:
            res["violation"] = (msg, case, v)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(90, 3000))
    core.check_harness_errors(results)
    for i, r in sorted(results.items()):
        if r.get("violation"):
            msg, case, v = r["violation"]
            small = minimise(prog, case, v)
            ck.report("differs" if v else "endless", f"run {i}: {check(prog, small)[0] or msg}", small)
            break
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(len(results), len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
                     [r["sample"] for i, r in sorted(results.items()) if r.get("sample")], counts=counts, environment_names_read=READ,
                     runs_per_hour=core.per_hour(counts.get("processes", 0), wall), truncated_by_wall=trunc,
                     faults={k: counts.get(k, 0) for k in ("interrupted_ops", "short_ops", "varied_delay", "varied_clock")},
                     simulated_time="clock jumps of up to a day at I/O operations; start times from 1969 to 2242",
                     real_code="the whole Rust program and library, built from the working tree, with its standard library",
                     stubs="read, write, clock, randomness (hash seeds) and process id of the C library")


def minimise(prog, case, v):
    if v is None:
        return dict(case, lines=core.ddmin(case["lines"], lambda ls: check(prog, dict(case, lines=ls))[0] is not None, 60), variants=[])
    # several hash seeds at once, so that the failure stays likely while the input shrinks
    more = [dict(v, rnd=k) for k in range(1, 13)] if v["rnd"] != 1 else []

    def fails(c):
        return check(prog, c)[0] is not None
    best = dict(case, variants=[v] + more)
    if best["lines"]:
        best = dict(best, lines=core.ddmin(best["lines"], lambda ls: fails(dict(best, lines=ls)), 80))
    elif len(best["args"]) > 1:
        best = dict(best, args=core.ddmin(best["args"], lambda a: fails(dict(best, args=a)), 60))
    v = check(prog, best)[1]
    if v is None:
        return dict(case, variants=case["variants"])
    for k, d in PLAIN.items():
        c = dict(best, variants=[dict(v, **{k: d})])
        if v[k] != d and fails(c):
            v = c["variants"][0]
    for k in ("pin", "pout"):
        if v[k]:
            v = dict(v, **{k: core.ddmin(v[k], lambda p: fails(dict(best, variants=[dict(v, **{k: p})])), 60)})
    return dict(best, variants=[v])


def replay(data):
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="jvosim-C15-")
    try:
        prog = rust.Program(d)
        return check(prog, data["case"])[0]
    finally:
        shutil.rmtree(d, ignore_errors=True)

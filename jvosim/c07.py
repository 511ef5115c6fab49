"""C07: an interactive session follows exactly the lines typed so far."""
import json

from . import core, lib, repl

RULE = ("a case is one session of one of the two Python programs: a seeded list of setting lines, words, repeated words and "
        "garbage up to an empty line, delivered in seeded pieces with interrupted and short system calls, compared with a "
        "settings model whose answers are library calls in fresh processes; non-trivial: the session answers a line after a "
        "setting changed or its bytes arrived in other units than lines; distinct: by settings and answers history and I/O pattern")


def gen(lines, seed, i):
    r = core.rng_for(seed, "C07", "run", i)
    program = r.choice(["jvozba", "jvozba", "katna"])
    ls = lines.walk(r, program) if r.random() < .35 else lines.session(r, program, nmax=r.choice([14, 14, 40]))
    tail = [lines.pick(r, program, .2) for _ in range(r.choice([0, 0, 1, 3]))]
    return dict(program=program, lines=ls + [""] + tail, fault=None, seed=core.h64(seed, "C07", "s", i), **repl.io_plan(r))


def judge(case, rec, answers):
    script, ended = repl.transcript(case["program"], case["lines"], answers)
    if any(x == ["no-answer\n"] for _, x in script if x):
        return None, script
    out = rec["out"].decode("utf-8", "replace")
    if rec["end"][0] not in ("returned", "exit") or rec["end"] == ["exit", "1"]:
        return ("end", f"{case['program']} ended with {rec['end']} after {repl.shorten(out)}"), script
    ok, prompts, pos = repl.match(out, script, True)
    if not ok:
        want = script[prompts - 1] if prompts else script[0]
        return ("transcript", f"{case['program']}: typed {repl.shorten(case['lines'][:prompts])}, after {pos} characters expected "
                              f"{repl.shorten(want)}, got {repl.shorten(out[pos:])}"), script
    # every time the program waits, everything up to its prompt is on the screen
    data = case["input"].encode()
    for pos, shown in rec["waits"]:
        n = data.count(b"\n", 0, pos)
        t = rec["out"][:shown].decode("utf-8", "replace")
        if n >= len(script):
            return ("reads-on", f"{case['program']} asks for input after the empty line"), script
        ok, prompts, _ = repl.match(t, script, False)
        if not (ok and prompts == n + 1 and t.endswith(script[n][0])):
            return ("display", f"{case['program']} waits for line {n + 1} while only {repl.shorten(t)} is displayed"), script
    return None, script


def build(case, lines):
    # an empty line always ends the session that is typed
    ls = [l for l in lines]
    if "" not in ls:
        ls.append("")
    return dict(case, lines=ls, input="".join(l + "\n" for l in ls))


def main(ck):
    lib.load()
    lib.precompile()
    lines = repl.Lines(core.rng_for(ck.seed, "C07", "lines"))
    repl.find_environment(lines)
    n = ck.scale(7000, 300_000)
    answers = repl.Answers()

    def one(i):
        case = gen(lines, ck.seed, i)
        case = build(case, case["lines"])
        rec = repl.run(case)
        v, script = judge(case, rec, answers)
        c = dict(rec["counts"], sessions=1, paused_seconds=int(rec["paused"]), varied_env=int(bool(case["env"])), lines=len(script), reads=len(rec["waits"]), writes=rec["writes"], bytes_out=len(rec["out"]))
        nontrivial = len({p for p, a in script}) > 1 or case["in"]["chunk"] != "line"
        res = {"counts": c, "digest": core.h64(json.dumps(repl.shape(case, script)), rec["out"]) if nontrivial else None}
        if i < 3:
            res["sample"] = {"program": case["program"], "lines": [repl.shorten(x, 60) for x in case["lines"]],
                             "in": case["in"], "out": case["out"], "transcript_end": rec["out"].decode()[-200:]}
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(90, 2400))
    core.check_harness_errors(results)
    for i, r in sorted(results.items()):
        if not r.get("violation"):
            continue
        v, case = r["violation"]

        def fails(c):
            x = judge(c, repl.run(c), answers)[0]
            return x is not None and x[0] == v[0]
        best = repl.minimise(case, case["lines"], fails, lambda ls: build(case, ls))
        small = build(case, best)
        if not fails(small):
            small = case
        small = repl.simplify(small, fails)
        x = judge(small, repl.run(small), answers)[0] or v
        ck.report(x[0], f"run {i}: {x[1]}", small)
        break
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(len(results), len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
                     [r["sample"] for i, r in sorted(results.items()) if r.get("sample")], counts=counts,
                     runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
                     faults={k: v for k, v in counts.items() if "EINTR" in k or "short" in k},
                     simulated_time=f"{counts.get('paused_seconds', 0)} s of pauses between reads; clocks from 1970 to 2242", environment_names_read=repl.READ,
                     real_code="the __main__ blocks of jvozba.py and katna.py, the whole package, CPython's text and buffer layers",
                     stubs="the raw devices behind standard input, output and error")


def replay(data):
    lib.load()
    lib.precompile()
    case = data["case"]
    x = judge(case, repl.run(case), repl.Answers())[0]
    return x[1] if x else None

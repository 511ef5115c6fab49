"""C08: only an empty line or an outside fault ends an interactive session."""
import json

from . import core, lib, repl

RULE = ("a case is one session of one of the two Python programs under mostly unprocessable lines, ended by an empty line or by an "
        "outside fault at a seeded point (end of input at a byte, read error, write error, full disk after n bytes, broken pipe, "
        "Ctrl-C while reading or at an executed line of the package); non-trivial: the fault struck, or the session served a line "
        "after an unprocessable one; distinct: by session, I/O pattern and where the fault struck")


def gen(lines, seed, i):
    r = core.rng_for(seed, "C08", "run", i)
    program = r.choice(["jvozba", "katna"])
    ls = lines.session(r, program, garbage=r.choice([.3, .9]), nmax=20)
    case = dict(program=program, seed=core.h64(seed, "C08", "s", i), fault=None, **repl.io_plan(r))
    data = "".join(l + "\n" for l in ls).encode()
    x = r.random()
    if x < .4:
        ls.append("")
    elif x < .55:
        # mostly at the end of a line or in the middle of one
        n = r.randrange(len(data) + 1)
        while r.random() < .5 and 0 < n < len(data) and data[n - 1:n] != b"\n":
            n += 1
        while n < len(data) and data[n] & 0xc0 == 0x80:
            n += 1
        case["fault"] = {"kind": r.choice(["eof", "eof", "read_error"]), "n": n}
    elif x < .65:
        case["fault"] = {"kind": "full", "n": r.choice([0, 1, 10, 30, 60, 100, 200, r.randrange(3000)])}
    elif x < .8:
        e = r.choice([("EPIPE", 32), ("EIO", 5), ("ENOSPC", 28)])
        case["fault"] = {"kind": "write_error", "n": r.choice([1, 2, 3, 4, 6, 10, 20]), "errno": e[1], "errno_name": e[0],
                         "lasting": e[0] == "EPIPE" or r.random() < .5, "times": r.choice([1, 1, 2, 3])}
    elif x < .88:
        case["fault"] = {"kind": "sigint_read", "n": r.randrange(1, max(2, len(ls) + 2))}
    else:
        case["fault"] = {"kind": "sigint_line", "n": int(10 ** r.uniform(0, 4.5))}
    if case["fault"] and lasting(case["fault"]) and r.random() < .2:
        some = [lines.pick(r, program, .3) for _ in range(6)]
        ls += [r.choice(some) for _ in range(400)]       # enough to fill every buffer
    if case["fault"] and r.random() < .5:
        ls.append("")
    return dict(case, lines=ls)


def build(case, lines):
    return dict(case, lines=list(lines), input="".join(l + "\n" for l in lines))


def lasting(f):
    return f["kind"] == "full" or f.get("lasting", False)


def typed(case):
    """The lines the program gets to see, in the order typed."""
    f = case["fault"]
    if f and f["kind"] in ("eof", "read_error"):
        data = case["input"].encode()[:f["n"]].decode("utf-8", "ignore")
        parts = data.split("\n")
        last = parts.pop()
        if f["kind"] == "eof" and last:
            parts.append(last)
        return parts
    return case["lines"]


def judge(case, rec, answers):
    script, ended = repl.transcript(case["program"], typed(case), answers)
    if any(x == ["no-answer\n"] for _, x in script if x):
        return None, script
    prog = case["program"]
    out = rec["out"].decode("utf-8", "ignore")
    if rec["end"][0] in ("endless", "stuck"):
        return ("endless", f"{prog} does not stop: {rec['end'][1]}; typed {repl.shorten(case['lines'])}, fault {case['fault']}"), script
    ok, prompts, pos = repl.match(out, script, False)
    if not ok:
        return ("wrong", f"{prog}: typed {repl.shorten(typed(case))}, fault {case['fault']}: after {pos} characters the output is "
                         f"not that of an undisturbed session: {repl.shorten(out[pos:])}"), script
    if not rec["fired"]:
        # nothing but the lines can have ended it
        whole, prompts, pos = repl.match(out, script, True)
        if not ended or not whole or rec["end"][0] == "exc":
            return ("died", f"{prog} ended with {rec['end']} after typing {repl.shorten(case['lines'][:prompts])}; "
                            f"output ends {repl.shorten(out[-150:])}"), script
        return None, script
    before = rec["out"][:rec["at_fault"]].decode("utf-8", "ignore")
    n0 = repl.match(before, script, False)[1]
    if rec["fired"] in ("eof", "read_EIO"):
        # everything typed before the fault has been answered
        if not repl.match(out, script, True)[0]:
            return ("lost", f"{prog}: input {rec['fired']} after {repl.shorten(typed(case))}, output ends {repl.shorten(out[-150:])}"), script
        return None, script
    data = case["input"].encode()
    served = max([data.count(b"\n", 0, p) for p, shown in rec["waits"]] or [0])
    if rec["fired"].startswith("sigint"):
        if prompts > n0 + 1 or served > n0 + 2 and case["in"]["chunk"] == "line":
            return ("goes-on", f"{prog} goes on after Ctrl-C ({rec['fired']}): {prompts - n0} more prompts, {served} lines read; "
                               f"typed {repl.shorten(case['lines'])}"), script
        return None, script
    if not lasting(case["fault"]):
        # CPython's input() ignores an error of the flush before it reads: a failure may go unnoticed
        if rec["end"][0] == "returned" and not repl.match(out, script, True)[0]:
            return ("lost", f"{prog} returned normally although output was lost: {repl.shorten(out[-150:])}"), script
        return None, script
    later = [(l, a) for l, (p, a) in zip(typed(case), script)][n0:served]
    lost = sum(len(p) + max(map(len, a or [""])) for p, a in script[n0:served])
    if case["in"]["chunk"] == "line" and (case["tty"] and sum(1 for l, a in later if a and a != [""]) > 2):
        return ("goes-on", f"{prog} goes on although its output failed for good: {served} lines read, {n0} prompts shown, "
                           f"{lost} characters lost"), script
    return None, script


def main(ck):
    lib.load()
    lib.precompile()
    lines = repl.Lines(core.rng_for(ck.seed, "C08", "lines"))
    repl.find_environment(lines)
    n = ck.scale(7000, 300_000)
    answers = repl.Answers()

    def one(i):
        case = gen(lines, ck.seed, i)
        case = build(case, case["lines"])
        rec = repl.run(case)
        v, script = judge(case, rec, answers)
        c = dict(rec["counts"], sessions=1, paused_seconds=int(rec["paused"]), varied_env=int(bool(case["env"])), lines=len(script), faults_delivered=int(bool(rec["fired"])),
                 sessions_ended_by_empty_line=int(not rec["fired"]))
        res = {"counts": c, "fired": rec["fired"], "digest": core.h64(json.dumps(repl.shape(case, script)), rec["out"], rec["fired"],
                                               rec["at_fault"]) if rec["fired"] or len(script) > 2 else None}
        if i < 4:
            res["sample"] = {"program": case["program"], "lines": [repl.shorten(x, 60) for x in case["lines"]], "fault": case["fault"],
                             "struck": rec["fired"], "ended": rec["end"]}
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(90, 2400))
    core.check_harness_errors(results)
    for i, r in sorted(results.items()):
        if not r.get("violation"):
            continue
        v, case = r["violation"]

        def fails(c):
            x = judge(c, repl.run(c), answers)[0]
            return x is not None and x[0] == v[0]
        small = build(case, repl.minimise(case, case["lines"], fails, lambda ls: build(case, ls)))
        if not fails(small):
            small = case
        small = repl.simplify(small, fails)
        x = judge(small, repl.run(small), answers)[0] or v
        ck.report(x[0], f"run {i}: {x[1]}", small)
        break
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(len(results), len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
                     [r["sample"] for i, r in sorted(results.items()) if r.get("sample")], counts=counts,
                     runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
                     faults={k: v for k, v in counts.items() if k in ("eof", "short_write") or "E" in k or "sigint" in k},
                     simulated_time=f"{counts.get('paused_seconds', 0)} s of pauses between reads; clocks from 1970 to 2242", environment_names_read=repl.READ,
                     real_code="the __main__ blocks of jvozba.py and katna.py, the whole package, CPython's text and buffer layers",
                     stubs="the raw devices behind standard input, output and error; delivery of SIGINT")


def replay(data):
    lib.load()
    lib.precompile()
    case = data["case"]
    x = judge(case, repl.run(case), repl.Answers())[0]
    return x[1] if x else None

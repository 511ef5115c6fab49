"""C14: the Rust program's interactive session."""
import json

from . import core, rust

RULE = ("a case is one session of the Rust program (or one call with words as arguments): starting flags, typed lines, a plan of splits, signals and faults for its reads and "
        "writes; non-trivial: a fault struck, or a setting changed during the session, or an input line followed an earlier one; "
        "distinct: by lines, plans and where the fault struck")


def gen_call(lines, r, seed, i):
    """Words as arguments: the program answers once and ends."""
    s = rust.apply(rust.DEFAULT, "".join(r.choice(rust.FLAGS) for _ in range(r.choice([0, 0, 1, 2, 3]))))
    words = (lines.line(r, .3)[:2000] or "a").replace("\0", "?")
    x = r.random()
    if x < .12:
        words = lines.command(r) if r.random() < .7 else r.choice(["/q", " /q", "\u3000/h", " /h klama", "/c klama gasnu"])
    args = [words] if r.random() < .6 else words.split(" ")
    if x > .9:
        args = [r.choice(["", " ", "\t", "\u3000"])] + args
    while args[0].startswith("-") and not rust.args_of(s):
        args = args[1:] or ["klama"]
    return dict(args=rust.args_of(s) + args, words=args, flags=rust.args_of(s), lines=[], pin=[], pout=rust.pieces(r, r.choice([0, 5, 40])),
                alloc=0, err=0, cut=None, fault="call", seed=core.h64(seed, "C14", i) % 10**9)


def gen(lines, seed, i):
    r = core.rng_for(seed, "C14", "run", i)
    if r.random() < .15:
        case = gen_call(lines, r, seed, i)
        x = r.random()
        k = r.randrange(12)
        if x < .15:
            case["pout"] = case["pout"][:k] + [r.choice(["E5", "P5", "P32", "E28", "K"])]
        elif x < .25:
            case["alloc"] = int(10 ** r.uniform(0, 4)) * r.choice([1, -1])
        return case
    s = rust.DEFAULT
    if r.random() < .4:
        s = rust.apply(s, "".join(r.choice(rust.FLAGS) for _ in range(r.choice([1, 2, 3, 5]))))
    ls = lines.session(r, nmax=r.choice([14, 14, 14, 30]), commands=r.choice([.15, .4]), garbage=r.choice([.1, .5]))
    data = "".join(l + "\n" for l in ls).encode()
    if r.random() < .25:
        ls.append(r.choice(["/q", "/q", " /q", "/q "]))
        ls += lines.session(r, nmax=3)
    case = dict(args=rust.args_of(s), lines=ls, pin=rust.pieces(r, r.choice([0, 5, 40, 200])),
                pout=rust.pieces(r, r.choice([0, 5, 40, 200])), alloc=0, err=0, cut=None, fault=None, seed=core.h64(seed, "C14", i) % 10**9)
    f = r.choice(["none", "none", "none", "eof", "eof", "eof0", "read_error", "write_error", "write_error", "kill", "alloc", "bytes"])
    case["fault"] = f
    n_in, n_out = len(ls) // 3 + 1, 6 * len(ls) + 2
    if f == "eof":
        case["cut"] = cut(r, data)
    elif f == "eof0":
        case["pin"] = chunked(r, case, data) + ["Z"]
    elif f == "read_error":
        case["pin"] = chunked(r, case, data) + [r.choice(["E5", "P5", "P9", "E11", "E12"])]
    elif f == "write_error":
        k = r.randrange(n_out)
        e = r.choice([5, 32, 28, 11, 27])
        case["pout"] = case["pout"][:k] + [r.choice(["E", "P"]) + str(e)] if r.random() < .85 else ["P9"]
        case["err"] = r.choice([0, 0, 32])
    elif f == "kill":
        if r.random() < .5:
            case["pin"] = chunked(r, case, data) + ["K"]
        else:
            case["pout"] = case["pout"][:r.randrange(n_out)] + ["K"]
    elif f == "alloc":
        case["alloc"] = int(10 ** r.uniform(0, 4)) * r.choice([1, 1, -1])
    elif f == "bytes":
        case["bad"] = r.randrange(len(ls) + 1)
        case["badbytes"] = r.choice([[255], [0xc3], [0xed, 0xa0, 0x80], [97, 0x80, 98], [0xf4, 0x90, 0x80, 0x80]])
    return case


def chunked(r, case, data):
    """Reads of a few bytes up to where the fault shall strike."""
    n = cut(r, data)
    out = []
    got = 0
    while got < n:
        k = min(r.choice([1, 3, 10, 50, 1000]), n - got)
        out += [str(k)] + (["I"] if r.random() < .1 else [])
        got += k
    return out


def cut(r, data):
    n = r.randrange(len(data) + 1)
    if r.random() < .5:
        n = data.find(b"\n", n) + 1 or len(data)
    return n


def raw(case):
    ls = [(l + "\n").encode() for l in case["lines"]]
    if case["fault"] == "bytes":
        ls.insert(min(case["bad"], len(ls)), bytes(case["badbytes"]) + b"\n")
    data = b"".join(ls)
    return data if case["cut"] is None else data[:case["cut"]]


def start(case):
    return rust.apply(rust.DEFAULT, case["args"][0][1:]) if case["args"] else rust.DEFAULT


def execute(prog, case):
    data = raw(case)
    return prog.run(case["args"], data, ",".join(case["pin"]), ",".join(case["pout"]),
                    ops=300 + 80 * len(case["lines"]) + len(case["pin"]) + len(case["pout"]),
                    alloc=case["alloc"], err=case["err"], rnd=case["seed"])


def struck(rec):
    for what, asked, got in rec["log"]:
        if what in "KAZX":
            return {"K": "kill", "A": "alloc", "Z": "eof", "X": "steps"}[what]
        if got < 0 and got != -4:
            return ("read" if what == "r" else "write") + f"_errno_{-got}"
    return None


def judge(case, rec, answers):
    hit = struck(rec)
    show = f"flags {case['args']}, lines {short(case['lines'])}, fault {hit or case['fault']}"
    if hit == "steps" and case["fault"] != "call":
        return ("endless", f"the program does not stop: {show}; {len(rec['log'])} operations")
    if rec["status"] == -24 or rec["status"] == -9 and hit != "kill":
        return ("endless", f"the program computes without end: {show}")
    if case["fault"] == "call":
        return judge_call(case, rec, answers, hit)
    # what the program was given
    received = raw(case)[:sum(n for w, _, n in rec["log"] if w == "r" and n > 0)]
    whole, _, tail = received.rpartition(b"\n")
    lines = (whole + b"\n").split(b"\n")[:-1] if whole or received.startswith(b"\n") else []
    ended_well = hit in (None, "eof", "read_errno_9")       # Rust's standard library takes a closed descriptor for the end of input
    bad = None
    typed = []
    for l in lines + ([tail] if tail and ended_well else []):
        try:
            typed.append(l.decode())
        except UnicodeDecodeError:
            bad = l
            break
    text, s = answers.transcript(start(case), typed)
    out = rec["out"]
    if s is not None:
        text += answers.prompt(s)
    if bad is not None and s is not None and ended_well:
        # a line that is no text: how it is answered is left open
        if not out.startswith(text):
            return ("wrong", f"{show}: the output {at(out, text)}")
        return None
    if ended_well:
        if out != text:
            return ("wrong", f"{show}: status {rust.status(rec['status'])}; the output {at(out, text)} {rec['err'][:150]}")
        if rec["status"] != 0:
            return ("status", f"{show}: the program ends with status {rust.status(rec['status'])}: {rec['err'][:150]}")
        return None
    if hit.startswith("read"):
        # all complete lines were answered
        if not out.startswith(text):
            return ("wrong", f"{show}: the output {at(out, text)}")
        if s is not None and out != text and not text.startswith(out):
            return ("wrong", f"{show}: after the failed read the output {at(out, text)}")
        return None
    if tail:
        try:
            text2, _ = answers.transcript(start(case), typed + [tail.decode()])
            text = max(text, text2, key=len) if text2.startswith(out) else text
        except UnicodeDecodeError:
            pass
    if not text.startswith(out):
        return ("wrong", f"{show}: the output {at(out, text)}")
    return None


def judge_call(case, rec, answers, hit):
    """The call ends; its output ends with what a session answers to the same words."""
    show = f"arguments {case['args']}, fault {hit}"
    text = " ".join(case["words"])
    plain = answers.program.run(case["args"], b"", ops=600)
    if plain["log"] and plain["log"][-1][0] == "X" or plain["status"] == -24:
        return ("endless", f"called with arguments {case['args']} the program does not stop")
    if plain["status"] not in (0, 1):
        return ("died", f"called with arguments {case['args']} the program ends with {rust.status(plain['status'])}: {plain['err'][:150]}")
    if hit is None:
        if (rec["out"], rec["status"]) != (plain["out"], plain["status"]):
            return ("wrong", f"{show}: the output {at(rec['out'], plain['out'])}")
    elif not plain["out"].startswith(rec["out"]):
        return ("wrong", f"{show}: the output {at(rec['out'], plain['out'])}")
    if not any(rust.is_command(w) for w in case["words"]) and not rust.is_command(text) and "\n" not in text:
        s = start(dict(case, args=case["flags"]))
        answer = answers.served(s, text)[len(answers.prompt(s)):]
        if not plain["out"].endswith(answer):
            return ("call", f"called with arguments {case['args']} the program prints {plain['out'][-200:]!r}; a session answers {answer[-200:]!r}")
    return None


def short(ls):
    t = json.dumps(ls, ensure_ascii=False)
    return t if len(t) < 300 else t[:300] + "..."


def at(out, text):
    n = next((k for k, (a, b) in enumerate(zip(out, text)) if a != b), min(len(out), len(text)))
    return f"differs from that of an undisturbed session at byte {n}: {out[max(0, n - 30):n + 50]!r} instead of {text[max(0, n - 30):n + 50]!r}"


def check(prog, answers, case):
    try:
        rec = execute(prog, case)
        return judge(case, rec, answers), rec
    except rust.Broken as e:
        return (e.kind, str(e)), None


def main(ck):
    prog = rust.Program(ck.scratch)
    lines = rust.Lines(core.rng_for(ck.seed, "C14", "lines"), ck.scale(160, 600))
    n = ck.scale(10_000, 200_000)
    answers = rust.Answers(prog)

    def one(i):
        case = gen(lines, ck.seed, i)
        before = prog.runs
        v, rec = check(prog, answers, case)
        hit = rec and struck(rec)
        c = {"sessions": 1, "lines": len(case["lines"]), "fault_" + (hit or "none"): 1, "calls_with_words": int(case["fault"] == "call"), "processes": prog.runs - before}
        if rec:
            c["short_or_interrupted_ops"] = sum(1 for w, a, g in rec["log"] if w in "rw" and (g == -4 or w == "w" and 0 <= g < a))
            c["operations"] = len(rec["log"])
        res = {"counts": c}
        if hit or len(case["lines"]) > 1 or case["fault"] == "call":
            res["digest"] = core.h64(json.dumps(case, sort_keys=True), hit, rec and rec["out"])
        if i < 4:
            res["sample"] = {"flags": case["args"], "lines": case["lines"][:6], "fault": case["fault"], "struck": hit,
                             "status": rec and rec["status"]}
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(90, 3000))
    core.check_harness_errors(results)
    for i, r in sorted(results.items()):
        if r.get("violation"):
            v, case = r["violation"]
            small = minimise(prog, answers, case, v[0])
            x = check(prog, answers, small)[0] or v
            ck.report(x[0], f"run {i}: {x[1]}", small)
            break
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(len(results), len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
                     [r["sample"] for i, r in sorted(results.items()) if r.get("sample")], counts=counts,
                     runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
                     faults={k: v for k, v in counts.items() if k.startswith("fault_") and k != "fault_none"},
                     simulated_time="the clock only moves when a plan says so; the program reads no clock",
                     real_code="the whole Rust program and library, built from the working tree, with its standard library",
                     stubs="read, write, allocation, clock, randomness and process id of the C library")


def minimise(prog, answers, case, kind):
    def fails(c):
        x = check(prog, answers, c)[0]
        return x is not None and x[0] == kind
    best = case
    if case["fault"] == "call":
        c = dict(case, pout=[], alloc=0)
        return c if fails(c) else case
    for k, v in (("pin", []), ("pout", []), ("err", 0), ("alloc", 0), ("args", []), ("cut", None)):
        c = dict(best, **{k: v})
        if best[k] != v and fails(c):
            best = c
    if best["fault"] != "none" and not best["alloc"] and fails(dict(best, fault="none")):
        best = dict(best, fault="none")
    best = dict(best, lines=core.ddmin(best["lines"], lambda ls: fails(dict(best, lines=ls)), 120))
    for k in ("pin", "pout"):
        if best[k]:
            best = dict(best, **{k: core.ddmin(best[k], lambda p: fails(dict(best, **{k: p})), 100)})
    return best if fails(best) else case


def replay(data):
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="jvosim-C14-")
    try:
        prog = rust.Program(d)
        x = check(prog, rust.Answers(prog), data["case"])[0]
        return x[1] if x else None
    finally:
        shutil.rmtree(d, ignore_errors=True)

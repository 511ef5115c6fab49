"""C26: the JavaScript library in realms of any age: histories, edits by callers, exhausted stacks, locales, collections."""
import json
import os
import resource
import subprocess

from . import core, lib

RULE = ("a case is one realm with the compiled scripts or the sources loaded, and 2 to 2000 steps: calls, edits of arrays and objects passed or "
        "returned earlier, calls with the same array or settings object again, calls close to the end of the stack, settings with accessors that "
        "call the library, clock jumps and timers, collections; the user's locale and the random numbers vary; non-trivial: at least two calls had "
        "the same word or a kept object; distinct: by steps")
SNAKE = {"jvokaha_2": "jvokaha2"}
KWN = {"y_hyphens": "yHyphens", "exp_rafsi_shapes": "expRafsiShapes", "consonants": "consonants", "glides": "glides", "allow_mz": "allowMZ",
       "generate_cmevla": "generateCmevla", "require_zihevla": "requireZihevla"}
POSITIONAL = {"isGismu", "isValidRafsi"}
LOCALES = ["en", "tr", "lt", "az", "de"]
OVERFLOW = "Maximum call stack size exceeded"


def js_call(c):
    """The JavaScript call that says what a Python call says: [name, args]."""
    f = c["f"].split(".")[-1]
    f = SNAKE.get(f) or "".join(w if not n else w[0].upper() + w[1:] for n, w in enumerate(f.split("_")))
    a, k = list(c["a"]), dict(c["k"])
    if len(a) > 1 and c["f"] in lib.TANRU_F + lib.WORD_F:
        names = (["generate_cmevla"] if c["f"] in lib.TANRU_F else []) + lib.KW
        k.update(zip(names, a[1:]))
        a = a[:1]
    o = {}
    for n, v in k.items():
        if n not in KWN:
            return None
        if n in ("y_hyphens", "consonants"):
            v = {"$e": ["YHyphenSetting" if n == "y_hyphens" else "ConsonantSetting", v]}
        o[KWN[n]] = v
    if f in POSITIONAL:
        return [f, a + ([o["allowMZ"]] if "allowMZ" in o else [])]
    return [f, a + ([o] if o else [])]


class Ended(core.HarnessError):
    pass


class Node:
    """A node process, started again now and then so that dead realms do not pile up."""

    def __init__(self, limit=400):
        self.p, self.n, self.limit = None, 0, limit

    def ask(self, q, weight=1):
        p, n = self.p, self.n
        if p is not None and n > self.limit:
            self._end(p)
            p = None
        if p is None:
            p = subprocess.Popen(["node", "--no-warnings", "--no-opt", "--no-sparkplug", "--no-maglev", "--no-lazy", "--no-flush-bytecode",
                                  "--no-regexp-tier-up", "--stack-size=700", "--expose-gc", "--max-old-space-size=1500",
                                  os.path.join(core.VERIF, "js", "lib_sim.js"), core.REPO],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, encoding="utf-8",
                                 env=dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC"), preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
            n = 0
        self.p, self.n = p, n + weight
        p.stdin.write(json.dumps(q) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            self._end(p)
            self.p = None
            raise Ended("node ended")
        a = json.loads(line)
        if "failed" in a:
            raise core.HarnessError(a["failed"])
        return a

    def alone(self, tree, calls):
        return self.ask({"op": "alone", "tree": tree, "calls": calls}, weight=len(calls))["answers"]

    def _end(self, p):
        try:
            p.stdin.close()
        except BrokenPipeError:
            pass
        p.stdout.close()
        p.wait()

    def close(self):
        if self.p:
            self._end(self.p)
        self.p = None


def key(call):
    return json.dumps(call, sort_keys=True)


class Oracle:
    """The answer of the library in a fresh realm, per tree."""

    def __init__(self, node):
        self.node, self.table = node, {}

    def get(self, tree, call):
        k = (tree, key(call))
        if k not in self.table:
            self.table[k] = self.node.alone(tree, [call])[0]
        return self.table[k]


def build_pool(seed, n):
    rng = core.rng_for(seed, "C26", "pool")
    c = lib.Corpus(rng)
    fams = []
    while len(fams) < n:
        x = rng.random()
        fam = c.tie_family(6) if x < .06 else c.family(8) if x < .5 else c.pair_family(8)
        fam = [j for j in (js_call(q) for q in fam) if j]
        if fam:
            fams.append(fam)
    return fams


SMALL = {"score": 1, "rafsiTarmi": 1, "normalise": 1, "searchSelrafsiFromRafsi": 4, "splitVowelCluster": 1, "tarmiIgnoringHyphen": 1, "stripHyphens": 1,
         "isZihevlaMiddleCluster": 1, "isZihevlaInitialCluster": 1, "isOnlyLojbanCharacters": 1, "containsConsonant": 1, "tiebreak": 1}


def small(r, words):
    """A call of one of the smaller functions, on a piece of a word."""
    w = r.choice(words).strip("-") or "zda"
    f = r.choices(list(SMALL), list(SMALL.values()))[0]
    if f in ("isZihevlaMiddleCluster", "isZihevlaInitialCluster"):
        w = "".join(c if c not in "aeiouy',.-" else " " for c in w).split()
        return [f, [r.choice(w or ["zd"])]]
    if f == "splitVowelCluster":
        w = "".join(c if c in "aeiou" else " " for c in w).split()
        return [f, [r.choice(w or ["au"])]]
    n = r.choice([3, 3, 3, 4, 4, 5, len(w)])
    i = r.randrange(max(1, len(w) - n + 1))
    return [f, [w[i:i + n]]]


def near_end(r, first=.15):
    return {"first": True, "k": r.randrange(-2, 26)} if r.random() < first else {"k": r.randrange(8, 50)}


def gen(fams, seed, i):
    r = core.rng_for(seed, "C26", "run", i)
    mine = [r.choice(fams) for _ in range(r.choice([1, 1, 2, 4]))]
    n = r.choices([3, 8, 25, 80, 400, 2000], [6, 10, 6, 3, .4, .04])[0]
    if n >= 400:
        mine += [r.choice(fams) for _ in range(n // 20)]
    words = [w for f in mine for _, a in f if a and isinstance(a[0], str) for w in a[0].split()] or ["gerku"]
    pick = lambda: r.choice(r.choice(mine))
    p_deep = r.choice([0, 0, .1, .3])
    p_edit = r.choice([0, .1, .4])
    steps = []
    last = None
    x = r.random()
    lazy = r.random() < (.6 if .08 < x < .36 else .05)
    plain = lambda: dict(zip(("f", "args"), json.loads(json.dumps(pick()))))
    if x < .08:
        # the same calls cut off ever later, others in between
        mine = mine[:1] if r.random() < .5 else mine
        few = [pick() for _ in range(r.choice([1, 1, 2, 3]))]
        for k in range(r.randrange(8, 13), r.randrange(20, 60)):
            f, a = json.loads(json.dumps(r.choice(few)))
            steps += [{"f": f, "args": a, "deep": {"k": k}}, plain()]
        n = 0
    elif x < .36:
        # functions not called before in the realm near the end of the stack
        steps = [plain() for _ in range(r.choice([0, 0, 1, 2]))]
        by = sorted({f for fam in fams for f, a in fam} | {"small"})
        for _ in range(r.choice([1, 1, 2])):
            f = r.choice(by + ["small"] * 3)
            c = small(r, words) if f == "small" else r.choice([c for fam in mine for c in fam if c[0] == f] or [c for fam in fams for c in fam if c[0] == f])
            f, a = json.loads(json.dumps(c))
            steps.append({"f": f, "args": a, "deep": near_end(r, .8 if lazy else .3)})
        steps += [plain() for _ in range(r.choice([1, 3, 6]))]
        n = 0
    while len(steps) < n:
        x = r.random()
        if x < p_edit:
            steps.append({"edit": {"of": r.randrange(1 << 20) if r.random() < .5 else -1, "pick": r.randrange(1 << 20), "with": r.choice(words),
                                   "flag": r.random() < .5, "how": r.choice(["clear", "push", "set", "reverse", "shift", "fill"])}})
            if r.random() < .6 and last:
                steps.append(dict(last))
            continue
        if x > .98:
            steps.append(r.choice([{"advance": 10 ** r.uniform(0, 11)}, {"gc": True}]))
            continue
        f, a = small(r, words) if r.random() < .1 else pick()
        st = {"f": f, "args": json.loads(json.dumps(a))}
        if st["args"] and isinstance(st["args"][0], str) and f in ("getLujvo", "getLujvoWithAnalytics") and r.random() < .5:
            st["args"][0] = st["args"][0].split()
        if st["args"] and isinstance(st["args"][0], list) and f != "getRafsiIndices" and r.random() < .3:
            st["args"][0] = {"$list": r.randrange(1 << 20)}
        if len(st["args"]) == 2 and isinstance(st["args"][1], dict):
            if r.random() < .15:
                st["args"][1] = {"$opts": r.randrange(1 << 20)}
            elif r.random() < .06 and st["args"][1]:
                g, b = pick()
                st["getter"] = {"key": r.choice(sorted(st["args"][1])), "f": g, "args": b}
        if r.random() < p_deep:
            st["deep"] = near_end(r)
        steps.append(st)
        last = st
        if r.random() < .15:
            steps.append(dict(json.loads(json.dumps({"f": f, "args": a}))))
    return {"tree": r.choice(["docs", "src"]), "seed": core.h64(seed, "C26", "s", i) & 0xFFFFFFFF, "wall": r.uniform(0, 4e12), "lazy": lazy,
            "locale": r.choice(LOCALES), "steps": steps}


STRATA = sorted(set(lib_f for lib_f in SMALL) | {
    "getLujvo", "getLujvoWithAnalytics", "getVeljvo", "scoreLujvo", "analyseBrivla", "isBrivla", "getRafsiIndices", "isGismuOrLujvo", "isSlinkuhi",
    "checkZihevlaOrRafsi", "jvokaha", "jvokaha2", "selrafsiListFromRafsiList", "getRafsiListList", "processTanru", "isGismu", "isValidRafsi"})


def sweep(fams, seed, i):
    """One call as the first of a realm, cut off at every depth near the end of the stack in turn, and what other calls then say."""
    r = core.rng_for(seed, "C26", "sweep", i)
    f = STRATA[i % len(STRATA)]
    lazy = bool(i // len(STRATA) % 2)
    tree = "src" if i // len(STRATA) % 4 in (1, 2) else "docs"
    words = [w for fam in r.sample(fams, 5) for _, a in fam if a and isinstance(a[0], str) for w in a[0].split()] or ["gerku"]
    if f in SMALL:
        while True:
            c = small(r, words)
            if c[0] == f:
                break
    else:
        c = r.choice([c for fam in fams for c in fam if c[0] == f] or [[f, [r.choice(words)]]])
    probes = [c] + [small(r, words) if r.random() < .3 else r.choice(r.choice(fams)) for _ in range(5)]
    st = lambda c, **k: dict(json.loads(json.dumps({"f": c[0], "args": c[1]})), **k)
    before = [st(r.choice(r.choice(fams)))] if r.random() < .3 else []
    for k in range(-2, 30) if lazy else range(8, 48):
        yield {"tree": tree, "seed": 1, "wall": 0, "lazy": lazy, "locale": "en",
               "steps": before + [st(c, deep={"first": True, "k": k} if lazy else {"k": k})] + [st(p) for p in probes]}


def long(fams, seed, i):
    r = core.rng_for(seed, "C26", "long", i)
    mine = [c for fam in r.sample(fams, min(len(fams), r.choice([5, 40, 120]))) for c in fam]
    return {"tree": "src" if i % 2 else "docs", "seed": 1, "wall": 0, "lazy": False, "locale": "en",
            "steps": [dict(zip(("f", "args"), r.choice(mine))) for _ in range(r.choice([4000, 9000]))]}


def show(tree, f, raw):
    return f"{f}({raw[1:-1]}) of js/{tree}"


def run_case(case, node, oracle):
    try:
        rec = session(case, node)
    except Ended:
        # V8 ends the process when a regular expression is to be compiled without stack left: that is the engine's answer, not the library's
        if not any("deep" in s for s in case["steps"]):
            raise
        case = dict(case, steps=[{k: v for k, v in s.items() if k != "deep"} for s in case["steps"]])
        rec = session(case, node)
        rec["out"][0].append("engine")
    return rec["out"], judge(case, rec["out"], oracle)


def session(case, node):
    return node.ask({"op": "session", "tree": case["tree"], "seed": case["seed"], "wall": case["wall"], "locale": case["locale"], "lazy": case["lazy"],
                     "steps": case["steps"]},
                    weight=1 + len(case["steps"]) // 20)


def judge(case, out, oracle):
    tree = case["tree"]
    for n, (st, o) in enumerate(zip(case["steps"], out)):
        if o[0] != "called" or o[1][0] == "none" and "deep" not in st:
            continue
        _, res, after, nested, raw = o[:5]
        what = show(tree, st["f"], raw)
        e = oracle.get(tree, [st["f"], json.loads(raw)])
        cut = "deep" in st and (res[0] == "none" or res[0] == "exc" and res[2] == OVERFLOW)
        # V8 words its own TypeErrors less precisely when the stack is nearly gone
        vague = "deep" in st and res[:2] == e[:2] == ["exc", "TypeError"]
        if res != e and not cut and not vague:
            return ("wrong", f"step {n}: {what} gave {json.dumps(res)}, in a fresh realm it gives {json.dumps(e)}"
                    + (" (near the end of the stack)" if "deep" in st else ""))
        if after is not None:
            return ("arguments", f"step {n}: {what} left its arguments as {after}")
        if nested is not None and st.get("getter"):
            g = st["getter"]
            e = oracle.get(tree, [g["f"], g["args"]])
            if nested != e and nested[0] != "none" and not ("deep" in st and nested[0] == "exc" and (nested[2] == OVERFLOW or nested[:2] == e[:2])):
                return ("wrong", f"step {n}: {show(tree, g['f'], json.dumps(g['args']))} from an accessor of a setting gave {json.dumps(nested)}, "
                        f"in a fresh realm it gives {json.dumps(e)}")
    return None


def main(ck):
    fams = build_pool(ck.seed, ck.scale(400, 3000))
    n = ck.scale(2600, 120_000)
    sweeps = ck.scale(116, 1160)
    box = {}

    def one(i):
        if "node" not in box:
            box["node"] = Node()
            box["oracle"] = Oracle(box["node"])
        cases = list(sweep(fams, ck.seed, i)) if i < sweeps else [long(fams, ck.seed, i)] if i % 500 == 0 else [gen(fams, ck.seed, i)]
        res = {"counts": {}}
        for case in cases:
            got = one_case(case)
            res["counts"] = core.merge_counts({0: res, 1: got})
            res.update({k: got[k] for k in ("digest", "sample", "violation") if k in got})
            if "violation" in res:
                break
        if len(cases) > 1:
            res["digest"] = core.h64("sweep", i)
            res["counts"]["sweeps"] = 1
        if i >= sweeps + 3:
            res.pop("sample", None)
        return res

    def one_case(case):
        out, v = run_case(case, box["node"], box["oracle"])
        called = [(s, o) for s, o in zip(case["steps"], out) if o[0] == "called"]
        cut = sum("deep" in s and (o[1][0] == "none" or o[1][0] == "exc" and o[1][2] == OVERFLOW) for s, o in called)
        texts = [o[4].split("]")[0] for s, o in called]
        live = len(set(texts)) < len(texts)
        counts = {"runs": 1, "calls": len(called), "calls_near_end_of_stack": sum("deep" in s for s, o in called), "cut_short_by_stack": cut,
                  "edits": sum(o == ["edited", True] for o in out), "accessors_that_call": sum(o[3] is not None for s, o in called),
                  "collections": sum("gc" in s for s in case["steps"]), "clock_jumps": sum("advance" in s for s in case["steps"]),
                  "calls_on_kept_objects": sum("$list" in json.dumps(s["args"]) or "$opts" in json.dumps(s["args"]) for s, o in called),
                  "engine_aborts": int(out[0][-1] == "engine"), "lazy_realms": int(case["lazy"]), "tree_" + case["tree"]: 1, "locale_" + case["locale"]: 1}
        res = {"counts": counts, "digest": core.h64(json.dumps(case)) if live else None}
        res["sample"] = case["steps"][:4]
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(150, 2400))
    core.check_harness_errors(results)
    node = Node()
    oracle = Oracle(node)
    for i, (v, case) in sorted((i, r["violation"]) for i, r in results.items() if r.get("violation"))[:1]:
        t_end = core._monotonic() + 100

        def fails(c):
            x = run_case(c, node, oracle)[1]
            return x if x and x[0] == v[0] else None
        steps = core.ddmin(case["steps"], lambda s: core._monotonic() < t_end and fails(dict(case, steps=s)) is not None, 400)
        small = dict(case, steps=steps)
        x = fails(small)
        if not x:
            small, x = case, v
        ck.report(v[0], f"run {i}: {x[1]}", small)
    node.close()
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(
        len(results), len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
        [r["sample"] for i, r in sorted(results.items()) if r.get("sample")], counts=counts,
        runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
        faults={k: counts.get(k, 0) for k in ("cut_short_by_stack", "edits", "accessors_that_call", "collections", "clock_jumps")},
        simulated_time="virtual clock per realm; jumps of up to three years between calls",
        real_code="js/docs/*.js as loaded by index.html; js/src/*.ts with types stripped by node",
        stubs="Date, performance, Math.random, timers, console and the locale-sensitive string functions of the realm; V8 runs interpreted so that stack frames are repeatable")


def replay(data):
    node = Node()
    try:
        v = run_case(data["case"], node, Oracle(node))[1]
    finally:
        node.close()
    return v[1] if v else None

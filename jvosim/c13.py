"""C13: the debug page shows the result for the controls as they stand."""
import json

from . import core, lib, page
from .c12 import B, C, EDITS, Y, brief

PAGE = "debug-ts.html"
CONTROLS = ["mode", "the", "cmevla", "y_hyphens", "exp_rafsi", "consonants", "glides", "mz"]
WATCH = CONTROLS + ["ko", "default", "out"]
RULE = ("a case is one browser session on the debug page: seeded edits, choices, clicks, resets and runs, with time passing in between; "
        "non-trivial: at least two runs; distinct: by event sequence")
MODES = ["getLujvo", "getVeljvo", "analyseBrivla"]
DEFAULTS = {"cmevla": False, "y_hyphens": "standard", "exp_rafsi": False, "consonants": "cluster", "glides": False, "mz": False}


def expr(s):
    t = json.dumps(s["the"])
    o = (f"{{generateCmevla:{B[s['cmevla']]},expRafsiShapes:{B[s['exp_rafsi']]},allowMZ:{B[s['mz']]},glides:{B[s['glides']]},"
         f"yHyphens:YHyphenSetting.{s['y_hyphens'].upper()},consonants:ConsonantSetting.{s['consonants'].upper()}}}")
    if s["mode"] == "getLujvo":
        f = f"(r=>[String(r[0]),String(r[1]),r[2].map(i=>i.join('-')).join(', ')])(getLujvoWithAnalytics({t},{o}))"
    elif s["mode"] == "getVeljvo":
        f = f"[getVeljvo({t},{o}).join(' ')]"
    else:
        f = f"(r=>[r[0].toLowerCase().replace(/_/g,' '),r[1].join(' ')])(analyseBrivla({t},{o}))"
    return "(()=>{try{return[false," + f + "]}catch(e){return[true,[String(e.message)]]}})()"


FUNCTIONS = {"get_lujvo": "getLujvo", "get_lujvo_with_analytics": "getLujvo", "get_veljvo": "getVeljvo", "score_lujvo": "getVeljvo",
             "analyse_brivla": "analyseBrivla", "is_brivla": "analyseBrivla"}
_pairs = []


def pairs():
    """Pairs of calls whose outcomes differ (when they were mined) and that differ in one setting or in the spelling of the text."""
    if not _pairs:
        g = lib.sensitive()
        for k in sorted(g):
            if k[1] in FUNCTIONS:
                _pairs.append((4 if k[0] in lib.SETTING_NAMES else 1, [p for p in g[k] if isinstance(p[0]["a"][0], str) and isinstance(p[1]["a"][0], str)]))
    return [p for p in _pairs if p[1]]


def walk(r, seed, i):
    """The same texts under settings that matter to them, back and forth."""
    ev, s = [], dict(DEFAULTS, mode="getLujvo", the="")

    def go(want):
        todo = [k for k in want if want[k] != s[k]]
        r.shuffle(todo)
        for k in todo:
            ev.append(["type", "the", want[k], "insertText"] if k == "the" else ["click", k] if isinstance(s[k], bool) else ["choose", k, want[k]])
        s.update(want)
        ev.append(["click", "ko"])

    def state(call):
        k = call["k"]
        return dict(mode=FUNCTIONS[call["f"]], the=call["a"][0], cmevla=bool(k.get("generate_cmevla")), exp_rafsi=bool(k.get("exp_rafsi_shapes")),
                    glides=bool(k.get("glides")), mz=bool(k.get("allow_mz")), y_hyphens=k.get("y_hyphens", "STANDARD").lower(),
                    consonants=k.get("consonants", "CLUSTER").lower())
    seen = []
    groups = pairs()
    for _ in range(r.choice([2, 4, 7])):
        a, b = r.choice(r.choices([g[1] for g in groups], [g[0] for g in groups])[0])
        two = [state(a), state(b)]
        if r.random() < .5:
            two.reverse()
        if r.random() < .3:
            m = r.choice(MODES)
            two = [dict(x, mode=m) for x in two]
        seen += two
        for x in two + r.choice([[], two[:1], [r.choice(seen)]]):
            go(x)
        if r.random() < .3:
            for _ in range(r.choice([1, 3, 6])):
                go(dict(s, mode=r.choice([s["mode"], s["mode"], r.choice(MODES)]), y_hyphens=r.choice(["standard", "allow_y", "force_y"]),
                        consonants=r.choice(["cluster", "two_consonants", "one_consonant"]), exp_rafsi=r.random() < .5, glides=r.random() < .3,
                        mz=r.random() < .3, cmevla=r.random() < .3))
    return {"events": ev, "seed": core.h64(seed, "C13", "s", i), "wall": 1.7e12}


def gen(seed, i, groups):
    r = core.rng_for(seed, "C13", "run", i)
    if r.random() < .5:
        return walk(r, seed, i)
    ev = []
    p = r.choice([.2, .35, .5])
    mode = "getLujvo"
    tanru = [g for g in groups if " " in g[-1].strip()]
    words = [g for g in groups if " " not in g[-1].strip()]
    for _ in range(r.choice([4, 8, 15, 25])):
        x = r.random()
        if x < p:
            ev.append(["click", "ko"])
        elif x < p + .25:
            g = r.choice((tanru if mode == "getLujvo" else words) if r.random() < .8 else groups)
            for t in (g if r.random() < .4 else [g[-1]] if r.random() < .7 else [r.choice(g)]):
                ev.append(["type", "the", t, r.choice(EDITS)])
            if r.random() < .4:
                ev.append(["blur", "the"])
        elif x < p + .33:
            mode = r.choice(MODES)
            ev.append(["choose", "mode", mode])
        elif x < p + .41:
            ev.append(["choose", "y_hyphens", r.choice(["standard", "allow_y", "force_y"])])
        elif x < p + .48:
            ev.append(["choose", "consonants", r.choice(["cluster", "two_consonants", "one_consonant"])])
        elif x < .93:
            ev.append(["click", r.choice(["cmevla", "exp_rafsi", "glides", "mz"])])
        else:
            ev.append(["click", "default"])
        if r.random() < .15:
            ev.append(r.choice([["tick", 20], ["fire"], ["settle", 500], ["clock", -3.6e6], ["hide", True]]))
    ev += [["click", "ko"], ["settle", 1000]]
    return {"events": ev, "seed": core.h64(seed, "C13", "s", i), "wall": 1.7e12}


class Oracle:
    def __init__(self, b):
        self.table, self.b = {}, b

    def get(self, s):
        x = expr(s)
        if x not in self.table:
            if len(self.table) > 50000:
                self.table.clear()
            self.table[x] = self.b.library(PAGE, [x])[0]
        a = self.table[x]
        if "err" in a:
            raise core.HarnessError(f"oracle: {a['err']} for {s}")
        return a["ok"]


def text_of(html):
    """The displayed text of the output element: lines."""
    import re
    from html import unescape
    s = re.sub(r"<br\b[^>]*>", "\n", html)
    return unescape(re.sub(r"<[^>]*>", "", s))


def judge(case, rec, oracle):
    st = {"runs": 0, "errors_shown": 0, "resets": 0, "events": len(case["events"]), "error_then_success": 0}
    s = dict(DEFAULTS, mode="getLujvo", the="")
    want_out = None
    out, ctl, was_err = None, {}, False
    for n, step in enumerate(rec["steps"]):
        ev = case["events"][n - 1] if n else ["load"]
        where = f"after event {n} of {len(case['events'])} {json.dumps(ev, ensure_ascii=False)} (events so far {brief(case['events'][:n])})"
        if rec["errors"]:
            where += f"; the page reported {rec['errors'][0]!r}"
        for k, v in step["changed"].items():
            if v is None:
                return ("page", f"{where}: the page has no element {k}"), st
            if k == "out":
                out = v
            else:
                ctl[k] = v
        if n == 0:
            want_out = (text_of(out["html"]), "err" in out["cls"].split())
            if want_out[0].strip() or want_out[1]:
                return ("page", f"on loading, the page shows {want_out}"), st
        if ev[0] in ("type", "choose"):
            s[ev[1]] = ev[2]
        elif ev[0] == "click" and step["did"]:
            if ev[1] == "ko":
                st["runs"] += 1
                # the controls as they stand
                now = dict(s)
                err, lines = oracle.get(now)
                want_out = ("\n".join(lines), err)
                st["errors_shown"] += err
                st["error_then_success"] += was_err and not err
                was_err = err
            elif ev[1] == "default":
                st["resets"] += 1
                s.update(DEFAULTS)
            elif ev[1] in s:
                s[ev[1]] = not s[ev[1]]
        elif ev[0] == "click" and ev[1] in ("ko", "default"):
            return ("button", f"{where}: the button {ev[1]} is disabled"), st
        for k in CONTROLS:
            v = ctl[k]["checked"] if isinstance(s[k], bool) else ctl[k]["value"]
            if v != s[k]:
                fp = "reset" if ev[0] == "click" and ev[1] == "default" else "controls"
                return (fp, f"{where}: the control {k} stands at {v!r}, it should be {s[k]!r}"), st
        got = (text_of(out["html"]), "err" in out["cls"].split())
        if got != want_out:
            fp = "result" if ev[0] == "click" and ev[1] == "ko" else "between"
            return (fp, f"{where}: controls {s}: the page shows {got[0]!r}{' as an error' if got[1] else ''}, it should show {want_out[0]!r}"
                        f"{' as an error' if want_out[1] else ''}"), st
    return None, st


def run_case(b, case):
    return b.session(PAGE, WATCH, case["events"], case["seed"], case["wall"])


def minimise(b, case, oracle, fp):
    def fails(ev):
        c = dict(case, events=ev)
        v, _ = judge(c, run_case(b, c), oracle)
        return v is not None and v[0] == fp
    return dict(case, events=core.ddmin(case["events"], fails, 150))


def main(ck):
    rng = core.rng_for(ck.seed, "C13", "texts")
    groups = page.texts(rng, ck.scale(400, 3000))
    n = ck.scale(5000, 400_000)
    b = page.Browser()
    oracle = Oracle(b)

    def one(i):
        case = gen(ck.seed, i, groups)
        rec = run_case(b, case)
        v, st = judge(case, rec, oracle)
        res = {"counts": dict(st, sessions=1, simulated_ms=int(rec["steps"][-1]["now"])), "digest": core.h64(json.dumps(case["events"])) if st["runs"] > 1 else None}
        if i < 3:
            res["sample"] = {"events": brief(case["events"]), "runs": st["runs"]}
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(80, 2400))
    core.check_harness_errors(results)
    for i, r in sorted(results.items()):
        if r.get("violation"):
            v, case = r["violation"]
            small = minimise(b, case, oracle, v[0])
            v2, _ = judge(small, run_case(b, small), oracle)
            if v2:
                v, case = v2, small
            ck.report(v[0], f"run {i}: {v[1]}", case)
            break
    b.close()
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(counts["runs"], len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
                     [r["sample"] for i, r in sorted(results.items()) if r.get("sample")], counts=counts,
                     runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
                     faults={k: counts[k] for k in ("errors_shown", "error_then_success", "resets")},
                     simulated_time=f"{counts['simulated_ms'] / 1000:.0f} s of page time",
                     real_code="debug-ts.html with its script and the JavaScript library it loads, run by node",
                     stubs="document, window, timers, clocks and Math.random")


def replay(data):
    b = page.Browser()
    v, _ = judge(data["case"], run_case(b, data["case"]), Oracle(b))
    return v[1] if v else None

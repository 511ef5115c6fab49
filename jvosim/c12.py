"""C12: the demo page settles on the current input and mode."""
import functools
import itertools
import json

from . import core, page
from .repl import shorten

PAGE = "index.html"
WATCH = ["hard-mode", "brivla", "cmevla", "ezmode", "source"]
RULE = ("a case is one browser session on the demo page: seeded edits, clicks, ticks of the clock, timers fired on time, late or overtaken by "
        "user events; non-trivial: the table was rendered while a timer was pending or after a mode change; distinct: by event sequence")
Y = ["STANDARD", "ALLOW_Y", "FORCE_Y"]
C = ["CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"]
NAMES = {"STANDARD": (0, 0), "ALLOW_Y": (0, 1), "FORCE_Y": (0, 2), "STD_RAF": (1, 0), "EXP_RAF": (1, 1), "CLUSTER": (2, 0), "2_CON": (2, 1), "1_CON": (2, 2),
         "NO_GLIDE": (3, 0), "GLIDE": (3, 1), "NOMZ": (4, 0), "MZ": (4, 1)}
ALL = list(itertools.product(range(3), range(2), range(3), range(2), range(2)))
DEFAULT = (0, 0, 0, 0, 0)
B = ["false", "true"]


def expr(text, cmevla, s):
    """What the page is to show for one text under one combination of settings, by the library."""
    o = f"yHyphens:YHyphenSetting.{Y[s[0]]},expRafsiShapes:{B[s[1]]},consonants:ConsonantSetting.{C[s[2]]},glides:{B[s[3]]},allowMZ:{B[s[4]]}"
    return ("(()=>{const t=" + json.dumps(text) + ".trim();const n=t.split(/\\s+/).length;if(!t)return[\"\",\"\"];if(n===1){try{const[b,p]=analyseBrivla(t,{" + o +
            "});let c=String(b)+\"\\n[\"+p.join(\", \")+\"]\";if([BrivlaType.LUJVO,BrivlaType.EXTENDED_LUJVO,BrivlaType.CMEVLA].includes(b))c+=\"\\n\"+selrafsiListFromRafsiList(p,{" + o +
            "}).join(\" \");return[c,b===BrivlaType.CMEVLA?\"yellow\":\"green\"]}catch(e){return[\"NOT BRIVLA\",\"red\"]}}try{return[getLujvo(t,{generateCmevla:" + B[cmevla] + "," + o +
            "}),\"" + ("yellow" if cmevla else "green") + "\"]}catch(e){return[\"NO LUJVO FOUND\",\"red\"]}})()")


class Oracle:
    def __init__(self, texts):
        ex = []
        for t in texts:
            for cm in ((0, 1) if len(t.split()) > 1 or "\u00a0" in t else (0,)):
                ex += [expr(t, cm, s) for s in ALL]
        self.n = len(set(ex))
        self.table = page.fill(PAGE, ex)
        self.b = None

    def get(self, text, cm, s):
        x = expr(text, cm, s)
        if x not in self.table:
            x0 = expr(text, 0, s)
            if len(text.split()) <= 1 and "\u00a0" not in text and x0 in self.table:
                x = x0
            else:
                if self.b is None:
                    self.b = page.Browser()
                ask = [expr(text, cm, k) for k in ALL]
                for e, a in zip(ask, self.b.library(PAGE, ask)):
                    self.table[e] = a
        a = self.table[x]
        if "err" in a:
            raise core.HarnessError(f"oracle: {a['err']} for {text!r}")
        return tuple(a["ok"])


COLOURS = {"red", "green", "yellow", "blue"}


@functools.lru_cache(maxsize=4000)
def cells(html):
    """[(setting -> value, text, class)] of every result cell, or a string saying why not."""
    g = page.grid(html)
    if not g:
        return "the table is empty"
    seen, out = set(), []
    label = {id(c): c["tag"] == "th" or c["text"].strip() in NAMES for c in g.values()}
    for (y, x), c in sorted(g.items()):
        if id(c) in seen or label[id(c)]:
            continue
        seen.add(id(c))
        # the row labels to the left and the column labels above
        lab = {}
        for (yy, xx), d in g.items():
            if d is c or not label[id(d)]:
                continue
            if (yy == y and xx < x) or (xx == x and yy < y):
                if d["text"].strip() and d["text"].strip() in NAMES:
                    k, v = NAMES[d["text"].strip()]
                    if lab.get(k, v) != v:
                        return f"a cell is labelled with two values of one setting: {d['text']}"
                    lab[k] = v
                elif d["text"].strip():
                    return f"unknown label {d['text'].strip()!r}"
        out.append((tuple(sorted(lab.items())), c["text"], " ".join(sorted(COLOURS & set((c["cls"] or "").split())))))
    return tuple(out)


def shows(html, oracle, text, cm, ez):
    """None if the table is the complete answer, otherwise what is wrong."""
    key = (html, text, cm, ez)
    if key not in _seen:
        if len(_seen) > 20000:
            _seen.clear()
        _seen[key] = _shows(html, oracle, text, cm, ez)
    return _seen[key]


_seen = {}


def _shows(html, oracle, text, cm, ez):
    cs = cells(html)
    if isinstance(cs, str):
        return cs
    if not cs:
        return "the table has no result cells"
    if ez and len(cs) != 1:
        return f"easy mode shows {len(cs)} results"
    for s in ([DEFAULT] if ez else ALL):
        want = oracle.get(text, cm, s)
        match = [c for c in cs if all(s[k] == v for k, v in c[0])]
        name = name_of(s)
        if len(match) != 1:
            return f"{len(match)} cells for {name}"
        if match[0][1:] != want:
            return f"for {name} it shows {match[0][1]!r} ({match[0][2]}), the library answers {want[0]!r} ({want[1]})"
    return None


def name_of(s):
    inv = {v: k for k, v in NAMES.items()}
    return "/".join(inv[i, v] for i, v in enumerate(s))


EDITS = ["insertText", "insertText", "deleteContentBackward", "insertFromPaste", "insertFromDrop", "deleteByCut", "insertReplacementText",
         "historyUndo", "compose-end-last", "compose-input-last"]


def gen(seed, i, groups):
    r = core.rng_for(seed, "C12", "run", i)
    ev, last = [], ""
    hard = r.random()
    if hard < .5:
        ev.append(["click", "ezmode"])
    p_click = r.choice([.1, .25, .5])
    for _ in range(r.choice([3, 5, 8, 12])):
        x = r.random()
        if x < p_click:
            ev.append(["click", r.choice(["brivla", "cmevla", "cmevla", "ezmode"])])
        else:
            g = r.choice(groups)
            seq = g if r.random() < .6 else [r.choice(g)]
            if r.random() < .15:
                seq = seq + [last]
            for t in seq:
                ev.append(["type", "source", t, r.choice(EDITS)])
                last = t
                ev += pause(r)
        ev += pause(r)
        if r.random() < .06:
            ev.append(r.choice([["blur", "source"], ["clock", r.choice([-3.6e6, 8.64e7, -1])], ["hide", True], ["hide", False]]))
        if r.random() < .15:
            ev.append(["settle", 1000])
    if r.random() < .3:
        ev.append(["click", r.choice(["brivla", "cmevla", "ezmode"])])
    ev.append(["settle", 1000])
    return {"events": ev, "seed": core.h64(seed, "C12", "s", i), "wall": r.choice([1.7e12, 0, 4.1e12])}


def pause(r):
    out = []
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        out.append(["tick", r.choice([1, 5, 14, 15, 16, 20, 40, 100, 1000])])
        for _ in range(r.choice([0, 0, 1, 2])):
            out.append(["fire"])
    return out


def judge(case, rec, oracle):
    """(violation or None, statistics)"""
    text, cm, ez = "", False, False
    html, cls, value = "", {}, ""
    since = [("", False, False)]
    acted = False
    st = {"renders": 0, "mode_changes": 0, "settles": 0, "typed": 0, "pending_clicks": 0, "fired": rec["fired"]}
    pend = False
    for n, step in enumerate(rec["steps"]):
        ev = case["events"][n - 1] if n else ["load"]
        where = f"after event {n} of {len(case['events'])} {json.dumps(ev, ensure_ascii=False)} (events so far {brief(case['events'][:n])})"
        if rec["errors"]:
            where += f"; the page reported {rec['errors'][0]!r}"
        changed_mode = False
        if ev[0] == "click" and step["did"]:
            old = (cm, ez)
            if ev[1] == "brivla":
                cm = False
            elif ev[1] == "cmevla":
                cm = True
            else:
                ez = not ez
            changed_mode = old != (cm, ez)
            acted = acted or changed_mode
            st["mode_changes"] += changed_mode
            st["pending_clicks"] += pend
        elif ev[0] == "type":
            text, acted, pend = ev[2], True, True
            st["typed"] += 1
        ch = step["changed"]
        for b in ("brivla", "cmevla", "ezmode"):
            if b in ch:
                if ch[b] is None:
                    return ("page", f"{where}: the page has no {b} button"), st
                cls[b] = ch[b]["cls"].split()
        for b, on in (("brivla", not cm), ("cmevla", cm), ("ezmode", ez)):
            if ("active" in cls.get(b, [])) != on:
                return ("highlight", f"{where}: the {b} button is {'not ' if on else ''}highlighted, the mode is {'cmevla' if cm else 'brivla'}"
                                     f"{', easy' if ez else ''}"), st
        now = (text, cm, ez)
        if since[-1] != now:
            since.append(now)
        if "hard-mode" in ch:
            if ch["hard-mode"] is None:
                return ("page", f"{where}: the page has no result table"), st
            if n:
                html = ch["hard-mode"]["html"]
                st["renders"] += 1
                why = None
                for t, c, e in reversed(since):
                    w = shows(html, oracle, t, c, e)
                    if w is None:
                        why = None
                        break
                    why = why or w
                if why:
                    return ("partial", f"{where}: the table is not the complete answer for a text and mode in force: {why}"), st
                since = [now]
        if changed_mode:
            why = shows(html, oracle, text, cm, ez)
            if why:
                return ("click", f"{where}: the click is not reflected at once; text {text!r}, {'cmevla' if cm else 'lujvo'}{', easy' if ez else ''}: {why}"), st
        if ev[0] == "settle":
            st["settles"] += 1
            pend = False
            if acted:
                why = shows(html, oracle, text, cm, ez)
                if why:
                    return ("settle", f"{where}: {ev[1]} ms after the last event the table is not the answer for text {text!r}, "
                                      f"{'cmevla' if cm else 'lujvo'}{', easy' if ez else ''}: {why}"), st
    return None, st


def brief(ev):
    return shorten(" ".join(f"type {e[2]!r}" if e[0] == "type" else f"{e[0]} {e[1]}" if len(e) > 1 else e[0] for e in ev), 400)


def run_case(b, case):
    return b.session(PAGE, WATCH, case["events"], case["seed"], case["wall"])


def minimise(b, case, oracle, fp):
    def fails(ev):
        c = dict(case, events=ev)
        v, _ = judge(c, run_case(b, c), oracle)
        return v is not None and v[0] == fp
    return dict(case, events=core.ddmin(case["events"], fails, 150))


def main(ck):
    rng = core.rng_for(ck.seed, "C12", "texts")
    groups = page.texts(rng, ck.scale(160, 1500))
    oracle = Oracle([""] + [t for g in groups for t in g])
    n = ck.scale(1800, 100_000)
    b = page.Browser()

    def one(i):
        case = gen(ck.seed, i, groups)
        rec = run_case(b, case)
        v, st = judge(case, rec, oracle)
        c = dict(st, sessions=1, page_errors=len(rec["errors"]), simulated_ms=int(rec["steps"][-1]["now"]))
        res = {"counts": c, "digest": core.h64(json.dumps(case["events"])) if st["renders"] and (st["mode_changes"] or st["typed"]) else None}
        if i < 3:
            res["sample"] = {"events": brief(case["events"]), "renders": st["renders"]}
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(80, 2400))
    core.check_harness_errors(results)
    for i, r in sorted(results.items()):
        if r.get("violation"):
            v, case = r["violation"]
            small = minimise(b, case, oracle, v[0])
            v2, _ = judge(small, run_case(b, small), oracle)
            if v2:
                v, case = v2, small
            ck.report(v[0], f"run {i}: {v[1]}", case)
            break
    b.close()
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(counts["renders"] + counts["settles"], len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
                     [r["sample"] for i, r in sorted(results.items()) if r.get("sample")], counts=counts, texts=sum(map(len, groups)), oracle_answers=oracle.n,
                     runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
                     faults={"timers_fired": counts["fired"], "clicks_with_a_timer_pending": counts["pending_clicks"]},
                     simulated_time=f"{counts['simulated_ms'] / 1000:.0f} s of page time",
                     real_code="index.html, demo_page.js and the JavaScript library it loads, run by node",
                     stubs="document, window, timers, clocks and Math.random; the browser's HTML parser and table layout are models")


def replay(data):
    case = data["case"]
    oracle = Oracle([])
    b = page.Browser()
    v, _ = judge(case, run_case(b, case), oracle)
    return v[1] if v else None

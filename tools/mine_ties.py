#!/usr/bin/python3
"""Developer's tool: mines corpus/ties.json, tanru for which several lujvo are equally good, so that the order in which candidates are
tried decides.  The file only serves to generate inputs.
usage: mine_ties.py SECONDS
"""
import inspect
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from jvosim import core, lib


def variants(jv):
    src = inspect.getsource(jv.get_lujvo_from_list)
    ns = dict(jv.__dict__)
    exec(src.replace("lujvo_and_score[1] < best_score", "lujvo_and_score[1] <= best_score"), ns)
    last_letter = ns["get_lujvo_from_list"]
    ns = dict(jv.__dict__)
    exec(inspect.getsource(jv.update_current_best).replace("[1] > res_score", "[1] >= res_score"), ns)
    exec(src, ns)
    last_candidate = ns["get_lujvo_from_list"]
    ns = dict(jv.__dict__)
    orig = jv.get_rafsi_list_list
    ns["get_rafsi_list_list"] = lambda *a: [list(reversed(x)) for x in orig(*a)]
    exec(src, ns)
    return {"letter": last_letter, "candidate": last_candidate, "rafsi": ns["get_lujvo_from_list"]}


def outcome(f, ws, k):
    try:
        return f(ws, **k)
    except Exception as e:
        return repr(e)


def one(seed, secs):
    lib.load()
    import importlib
    jv = importlib.import_module(lib.PKG + ".jvozba")
    vs = variants(jv)
    r = random.Random(seed)
    c = lib.Corpus(r)
    rich = c.rich
    found, tried, end = {}, 0, time.monotonic() + secs
    while time.monotonic() < end:
        n = r.choice([2, 2, 3, 3, 4, 5, 6])
        ws = [r.choice(rich) if r.random() < .85 else c.word() for _ in range(n)]
        k = c.settings()
        if r.random() < .5:
            k["generate_cmevla"] = True
        tried += 1
        base = outcome(jv.get_lujvo_from_list, ws, k)
        for name, f in vs.items():
            if outcome(f, ws, k) != base:
                found.setdefault((name, n, bool(k.get("generate_cmevla"))), []).append([" ".join(ws), k])
    return {"r": (tried, found)}


def main():
    secs = float(sys.argv[1])
    res, _ = core.run_pool(lambda i: one(i, secs), 8, wall_cap=secs * 2 + 60)
    all_, tried = {}, 0
    for n, f in (x["r"] for x in res.values()):
        tried += n
        for k, v in f.items():
            all_.setdefault(k, []).extend(v)
    print(tried, {k: len(v) for k, v in sorted(all_.items())})
    out = {}
    for (name, n, cm), v in sorted(all_.items()):
        v.sort(key=lambda x: (len(x[0]), x[0]))
        out.setdefault(name, []).extend(v[:40])
    with open(os.path.join(core.VERIF, "corpus", "ties.json"), "w") as f:
        json.dump(out, f, ensure_ascii=False, indent=0, sort_keys=True)
        f.write("\n")


main()

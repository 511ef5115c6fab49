#!/usr/bin/python3
"""Developer's tool: mines corpus/sensitive.json, pairs of library calls that differ in one respect and in their outcomes.

The file only serves to generate inputs: whatever it says, every outcome is judged against the tree under test in a fresh process.
usage: mine.py SECONDS
"""
import collections
import json
import os
import random
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from jvosim import core, lib

W = ["analyse_brivla", "is_brivla", "get_veljvo", "score_lujvo", "tools.check_zihevla_or_rafsi", "tools.is_slinkuhi",
     "tools.is_gismu_or_lujvo", "katna.jvokaha", "katna.jvokaha_2", "tarmi.is_gismu", "tarmi.is_valid_rafsi"]
T = ["get_lujvo", "get_lujvo_with_analytics", "jvozba.get_rafsi_list_list"]
ACCEPTS = {f: lib.KW for f in W[:4] + T}
ACCEPTS.update({"tools.check_zihevla_or_rafsi": ["require_zihevla", "y_hyphens", "exp_rafsi_shapes", "allow_mz"],
                "tools.is_slinkuhi": ["y_hyphens", "allow_mz"], "tools.is_gismu_or_lujvo": ["y_hyphens", "allow_mz"],
                "katna.jvokaha": ["y_hyphens", "consonants", "glides", "allow_mz"], "katna.jvokaha_2": ["y_hyphens", "allow_mz"],
                "tarmi.is_gismu": ["allow_mz"], "tarmi.is_valid_rafsi": ["allow_mz"]})
for f in T[:2]:
    ACCEPTS[f] = lib.KW + ["generate_cmevla"]
VALUES = {"y_hyphens": lib.Y, "exp_rafsi_shapes": [False, True], "consonants": lib.C, "glides": [False, True],
          "allow_mz": [False, True], "generate_cmevla": [False, True], "require_zihevla": [False, True]}
PER_SIG = 60


def kind(f, o):
    if o[0] != "ok":
        return o[0] + " " + str(o[1]) + " " + re.sub(r"\{.*", "", str(o[2:]))[:40]
    v = o[1]
    if isinstance(v, list) and v and isinstance(v[1], list) and v[1]:
        return f"ok {v[1][0] if isinstance(v[1][0], str) and v[1][0].isupper() else ''} {min(len(v[1]), 4)}"
    return "ok " + (str(v) if isinstance(v, bool) or v is None else type(v).__name__)


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.c = lib.Corpus(self.r)

    def syl(self):
        r = self.r
        C, V = "bcdfgjklmnprstvxz", "aeiou"
        return r.choice([
            lambda: r.choice(C) + r.choice(V), lambda: r.choice(C) + r.choice(V) + "'" + r.choice(V),
            lambda: r.choice(C) + r.choice(["ai", "ei", "oi", "au", "ia", "ua", "ie"]), lambda: r.choice(V) + "'" + r.choice(V),
            lambda: r.choice(["ia", "ue", "io", "ui", "iau", "uai", "u'u", "i'a", "o'o'o", "ku'a'u", "a'i'u"]),
            lambda: r.choice(C) + r.choice(V) + r.choice(C), lambda: r.choice(["bl", "kl", "sp", "st", "jb", "ml", "tc", "dz", "zb", "str", "cn"]) + r.choice(V),
            lambda: r.choice(["am", "em", "om", "mam", "tom"]) + "z" + r.choice(V), lambda: r.choice(self.c.rafsi),
            lambda: r.choice(self.c.rafsi), lambda: r.choice(self.c.keys), lambda: r.choice(C) + r.choice(V) + r.choice(C) + r.choice(C),
        ])()

    def word(self):
        r = self.r
        x = r.random()
        if x < .15:     # few consonants, many glides
            s = ""
            for i in range(r.choice([2, 2, 3])):
                s += r.choice([r.choice("bdfgjklmnprstvxz") + r.choice("aeiou") + "'" + r.choice("aeiou"), r.choice(["ia", "iau", "ue", "uo", "io'a", "ui'a", "i'a", "a'u", "o'i'o"]),
                               r.choice("bdfgjklmnprstvxz") + r.choice(["ai", "ei", "oi", "au"]), r.choice(self.c.rafsi)]) + r.choice(["", "'y", "y", "'", "'y"])
            return s.rstrip("'y") or "a"
        if x < .4:
            return self.c.a_lujvo()
        if x < .45:
            return self.c.decorate(self.c.word().strip("-"))
        n = r.choice([1, 2, 2, 3, 3, 4])
        s = ""
        for i in range(n):
            s += self.syl()
            if i < n - 1:
                s += r.choice(["", "", "", "y", "'y", "r", "n", "'"])
        if r.random() < .12:
            s += r.choice("bcdfgjklmnprstvxz")
        return s

    def tanru(self):
        r = self.r
        if r.random() < .3:
            return self.c.a_tanru()
        out = []
        for _ in range(r.choice([2, 2, 2, 3, 3, 4])):
            x = r.random()
            if x < .4:
                out.append(self.c.word())
            elif x < .6:
                out.append("-" + self.syl() + "-")
            elif x < .65:
                out.append("-" + r.choice(["ia", "iau", "ue", "uo", "io'a", "ui'a", "i'a", "a'u", "o'i'o", "gau", "ge'u", "cai"]) + "-")
            elif x < .7:
                out.append(self.syl() + "-")
            elif x < .8:
                out.append(self.word())
            else:
                out.append(r.choice(self.c.rich))
        return " ".join(out)

    def near(self, s):
        """A similar word: (component, word)."""
        r = self.r
        x = r.randrange(8)
        if x == 0:
            return "dash", s.strip("-") if "-" in s else "-" + s + "-" if r.random() < .5 else s + "-"
        if x == 1:
            return "case", s.upper() if r.random() < .5 else s.capitalize()
        if x == 2:
            return "h", s.replace("'", "h")
        if x == 3:
            return "comma", s[:2] + "," + s[2:]
        if x == 4:
            return "dot", "." + s
        if x == 5:
            return "last", s[:-1] + r.choice("aeiouybdklmnrz")
        if x == 6:
            return "prefix", s[:-1] if r.random() < .5 else s + r.choice("aeiouy")
        i = r.randrange(len(s))
        return "letter", s[:i] + r.choice("aeiouy'bcdfgjklmnprstvxz") + s[i + 1:]

    def near_tanru(self, s):
        r = self.r
        w = s.split()
        x = r.randrange(6)
        if x == 0 and len(w) > 1:
            return "order", " ".join(w[::-1])
        if x == 1 and len(w) > 1:
            return "joined", w[0] + " ".join(w[1:])
        if x == 2 and len(w) > 1:
            return "onelist", [s]
        if x == 3 and len(w) > 2:
            return "shorter", " ".join(w[:-1])
        i = r.randrange(len(w))
        n, y = self.near(w[i])
        return "w" + n, " ".join(w[:i] + [y] + w[i + 1:])


def main():
    secs = float(sys.argv[1])
    lib.EXTRA += [f for f in W + T if "." in f and f not in lib.EXTRA]
    lib.load()

    def one(i):
        g = Gen(1000 + i)
        r = g.r
        t_end = time.monotonic() + secs
        keep = collections.defaultdict(list)
        seen = collections.Counter()
        n = 0
        while time.monotonic() < t_end:
            n += 1
            tanru = r.random() < .45
            base = g.tanru() if tanru else g.word()
            if not base or len(base) > 40:
                continue
            f = r.choice(T if tanru else W)
            acc = ACCEPTS[f]
            k = {x: r.choice(VALUES[x]) for x in acc if r.random() < r.choice([0, 0, .3, .6])}
            arg = base
            if tanru and (f.startswith("jvozba.") or r.random() < .2):
                arg = base.split()
            a = {"f": f, "a": [arg], "k": k}
            oa = lib.invoke(a)
            if oa[0] == "exc" and r.random() < .7 and oa[1] not in ("NotBrivlaError", "NoLujvoFoundError"):
                continue
            for x in acc:
                for v in VALUES[x]:
                    if v == k.get(x, VALUES[x][0]):
                        continue
                    b = {"f": f, "a": [arg], "k": dict(k, **{x: v})}
                    ob = lib.invoke(b)
                    if ob != oa:
                        sig = (x, f, str(k.get(x, VALUES[x][0])), str(v), kind(f, oa), kind(f, ob))
                        seen[sig] += 1
                        if len(keep[sig]) < PER_SIG:
                            keep[sig].append([a, b])
            for _ in range(2):
                comp, s2 = g.near_tanru(base) if tanru else g.near(base)
                if not s2:
                    continue
                if isinstance(arg, list) and isinstance(s2, str):
                    s2 = s2.split()
                b = {"f": f, "a": [s2], "k": dict(k)}
                ob = lib.invoke(b)
                if ob != oa and oa[0] == "ok":
                    sig = (comp, f, "", "", kind(f, oa), kind(f, ob))
                    seen[sig] += 1
                    if len(keep[sig]) < 8:
                        keep[sig].append([a, b])
        return {"keep": dict(keep), "seen": seen, "n": n}
    res, _ = core.run_pool(one, core.ncpu(), wall_cap=secs + 100, nproc=core.ncpu())
    core.check_harness_errors(res)
    keep, seen, n = collections.defaultdict(list), collections.Counter(), 0
    for i in sorted(res):
        n += res[i]["n"]
        seen.update(res[i]["seen"])
        for sig, l in res[i]["keep"].items():
            keep[sig] += l
    out = []
    rr = random.Random(5)
    comps = collections.Counter()
    groups = collections.defaultdict(list)
    for sig in sorted(keep):
        rr.shuffle(keep[sig])
        groups[sig[:2]].append(keep[sig])
    for g in sorted(groups):
        cap = 160 if g[0] in VALUES else 40
        depth = 0
        while comps[g] < cap and any(len(l) > depth for l in groups[g]):
            for l in groups[g]:
                if len(l) > depth and comps[g] < cap:
                    a, b = l[depth]
                    out.append([g[0], a["f"], a["a"], a["k"], b["a"], b["k"]])
                    comps[g] += 1
            depth += 1
    with open(os.path.join(core.VERIF, "corpus", "sensitive.json"), "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(x, separators=(",", ":")) for x in out) + "\n]\n")
    print(n, "candidates", len(keep), "signatures", len(out), "pairs")
    for c in sorted(comps):
        print(c, comps[c])


main()

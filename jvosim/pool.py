"""The pool of calls of one check run: families of related calls, their oracle outcomes and
the lines they reach, grown towards lines that few calls reach."""
from . import core, lib


class Pool:
    def __init__(self, seed, prop, n_families=300, size=8, rounds=2):
        rng = core.rng_for(seed, prop, "pool")
        self.corpus = lib.Corpus(rng)
        self.oracle = lib.Oracle()
        self.families = []
        self.cov = {}
        for _ in range(n_families):
            if rng.random() < .03:
                self.families.append(self.corpus.tie_family(size))
                continue
            self.families.append(self.corpus.family(size) if rng.random() < .5 else self.corpus.pair_family(size))
        self._eval(self.families)
        for rd in range(rounds):
            # more calls for rarely reached lines: variants of the calls that reach them
            by_line = self.by_line()
            rare = sorted(l for l, ks in by_line.items() if len(ks) < 12)
            new = []
            for l in rare:
                ks = sorted(by_line[l])
                for _ in range(2):
                    fam = [c for c in (self.variant(self.calls[rng.choice(ks)]) for _ in range(size)) if c]
                    if fam:
                        new.append(fam)
            new = new[:120]
            self.families += new
            self._eval(new)
        # calls without an answer of their own cannot be judged here
        self.families = [[c for c in f if self.oracle.table[lib.ckey(c)][0] in ("ok", "exc")] for f in self.families]
        self.families = [f for f in self.families if f]
        self.line_calls = {l: sorted(ks) for l, ks in self.by_line().items()}
        self.lines = sorted(self.line_calls)
        self.fam_of = {}
        for n, f in enumerate(self.families):
            for c in f:
                self.fam_of.setdefault(lib.ckey(c), n)
        self.rare_lines = sorted(self.lines, key=lambda l: (len(self.line_calls[l]), l))[:max(1, len(self.lines) // 3)]

    def _eval(self, fams):
        calls = [c for f in fams for c in f]
        if not hasattr(self, "calls"):
            self.calls = {}
        for c in calls:
            self.calls[lib.ckey(c)] = c
        self.cov.update(self.oracle.fill(calls, with_cov=True))

    def table_only(self, calls):
        """Outcomes of further calls, without the lines they reach."""
        self.oracle.fill(calls)

    def by_line(self):
        out = {}
        for k, (lines, n) in self.cov.items():
            for l in lines:
                out.setdefault(tuple(l), []).append(k)
        return out

    def variant(self, c):
        r = self.corpus.rng
        if not c["a"]:
            return None
        base = c["a"][0]
        if isinstance(base, list):
            if not base or not all(isinstance(x, str) for x in base):
                return None
            if c["f"] == "katna.selrafsi_list_from_rafsi_list" or c["f"].startswith("jvozba.get_"):
                return {"f": c["f"], "a": c["a"], "k": {x: v for x, v in self.corpus.settings(0).items()
                                                      if x in lib.EXTRA_KW.get(c["f"], lib.KW)}}
            base = " ".join(base)
        if not isinstance(base, str):
            return None
        if "." in c["f"]:
            s = self.corpus.mutate(base) if r.random() < .6 and base else base
            return {"f": c["f"], "a": [s] + c["a"][1:], "k": c["k"]}
        if r.random() < .5 and base:
            base = self.corpus.mutate(base)
        k = c["k"] if r.random() < .5 else None
        if k is not None:
            k = {x: v for x, v in k.items() if x != "generate_cmevla"}
        kind = "t" if c["f"] in ("get_lujvo", "get_lujvo_with_analytics", "get_rafsi_indices") else "w"
        f = c["f"] if r.random() < .7 else None
        return self.corpus.call_for((kind, base), f=f, k=k)

    def steps(self, call):
        return self.cov.get(lib.ckey(call), ([], 500))[1]

    def expect(self, call):
        return self.oracle.table[lib.ckey(call)]

    def pick_family(self, rng):
        """A family, biased towards those that reach rare lines."""
        if rng.random() < .5:
            line = rng.choice(self.rare_lines if rng.random() < .7 else self.lines)
            return self.families[self.fam_of[rng.choice(self.line_calls[line])]] \
                if self.line_calls[line] else rng.choice(self.families)
        return rng.choice(self.families)

    def pick_call(self, rng):
        if rng.random() < .4:
            line = rng.choice(self.rare_lines if rng.random() < .7 else self.lines)
            return self.calls[rng.choice(self.line_calls[line])]
        return rng.choice(rng.choice(self.families))

"""The system under test (the Python package), its calls, the corpus and the oracle.

A call is a JSON value {"f": function, "a": [positional...], "k": {keyword...}}.
Its oracle is the outcome of the same call made as the only call of a process
forked from a zygote that has imported the package and done nothing else.
"""
import csv
import importlib
import importlib.machinery
import json
import os
import re
import sys

from . import core

MAIN = ["get_lujvo", "get_lujvo_with_analytics", "get_veljvo", "score_lujvo", "analyse_brivla", "is_brivla",
        "get_rafsi_indices"]
MODULES = ["tarmi", "data", "rafsi", "jvozba", "katna", "tools", "exceptions"]
PKG = "latkerlo_jvotci"
Y = ["STANDARD", "ALLOW_Y", "FORCE_Y"]
C = ["CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"]
KW = ["y_hyphens", "exp_rafsi_shapes", "consonants", "glides", "allow_mz"]

_fn_cache = {}


def prepare_path():
    p = os.path.join(core.REPO, "py")
    if p not in sys.path:
        sys.path.insert(0, p)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/jvosim-no-pyc"   # never load a cached .pyc of another tree


def load():
    prepare_path()
    pkg = importlib.import_module(PKG)
    f = os.path.realpath(pkg.__file__)
    if not f.startswith(os.path.realpath(os.path.join(core.REPO, "py")) + os.sep):
        raise core.HarnessError(f"imported {f}, not the tree under test")
    for m in MODULES:
        importlib.import_module(f"{PKG}.{m}")
    resolve_all()
    return pkg


COMPILED = {}


def precompile():
    """Compile the package's sources once (as .pyc files would): every run then executes the same code objects."""
    d = os.path.join(core.REPO, "py", PKG)
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            path = os.path.join(d, f)
            with open(path, "rb") as fh:
                data = fh.read()
            try:
                COMPILED[path, data] = compile(data, path, "exec", dont_inherit=True)
            except (SyntaxError, ValueError):
                pass


def source_to_code(self, data, path, *, _optimize=-1):
    code = COMPILED.get((path, bytes(data)))
    return code if code is not None else real_source_to_code(self, data, path, _optimize=_optimize)


real_source_to_code = importlib.machinery.SourceFileLoader.source_to_code


def use_compiled():
    importlib.machinery.SourceFileLoader.source_to_code = source_to_code


def resolve_all():
    """Resolve every function of the corpus once, in the zygote, so that calls do no attribute look-ups."""
    for name in MAIN + EXTRA:
        resolve(name)


def resolve(name):
    if name not in _fn_cache:
        if "." in name:
            mod, fn = name.split(".")
            _fn_cache[name] = getattr(sys.modules.get(f"{PKG}.{mod}"), fn, None)
        else:
            _fn_cache[name] = getattr(sys.modules[PKG], name, None)
    return _fn_cache[name]


# public functions that live in the modules and take a word plus settings
EXTRA = ["tools.normalise", "tools.is_slinkuhi", "tools.is_gismu_or_lujvo", "tools.is_gismu", "tools.check_zihevla_or_rafsi",
         "katna.jvokaha", "katna.search_selrafsi_from_rafsi", "jvozba.get_rafsi_list_list",
         "tarmi.rafsi_tarmi", "jvozba.get_lujvo_from_list", "katna.selrafsi_list_from_rafsi_list",
         "jvozba.score", "jvozba.process_tanru", "katna.jvokaha_2", "tarmi.is_gismu", "tarmi.is_valid_rafsi"]

EXTRA_KW = {"tools.is_gismu_or_lujvo": ("y_hyphens", "allow_mz"), "tools.is_slinkuhi": ("y_hyphens", "allow_mz"),
            "katna.jvokaha": ("y_hyphens", "consonants", "glides", "allow_mz"), "tools.is_gismu": ("allow_mz",),
            "katna.jvokaha_2": ("y_hyphens", "allow_mz"), "tarmi.is_gismu": ("allow_mz",), "tarmi.is_valid_rafsi": ("allow_mz",),
            "tools.check_zihevla_or_rafsi": ("y_hyphens", "exp_rafsi_shapes", "allow_mz"),
            "katna.selrafsi_list_from_rafsi_list": ("y_hyphens", "allow_mz"),
            "jvozba.get_rafsi_list_list": KW, "jvozba.get_lujvo_from_list": KW}

_ADDR = re.compile(r" at 0x[0-9a-f]+")


def freeze(v):
    if v is None or isinstance(v, (bool, int, float)) and type(v) in (bool, int, float):
        return v
    if type(v) is str:
        return v
    if isinstance(v, str):
        return ["S", type(v).__name__, str.__str__(v)]
    if isinstance(v, (list, tuple)):
        return ["l" if isinstance(v, list) else "t", [freeze(x) for x in v]]
    if isinstance(v, (set, frozenset)):
        return ["s", sorted((freeze(x) for x in v), key=repr)]
    if isinstance(v, dict):
        return ["d", [[freeze(k), freeze(x)] for k, x in v.items()]]
    return ["o", type(v).__name__, _ADDR.sub("", repr(v))]


def outcome_of_exc(e):
    try:
        msg = str(e)
    except Exception as e2:       # an exception whose own str() fails
        msg = f"<str failed: {type(e2).__name__}>"
    return ["exc", type(e).__name__, _ADDR.sub("", msg)]


def fresh_args(call):
    """New argument objects for each call (the callee may keep or change them)."""
    return (json.loads(json.dumps(call["a"])), dict(call.get("k", {})))


def invoke(call, args=None, keep=None):
    """Make the call, return its outcome.  keep: list to which the raw result is appended."""
    fn = resolve(call["f"])
    if fn is None:
        return ["missing"]
    a, k = args if args is not None else fresh_args(call)
    try:
        v = fn(*a, **k)
    except Exception as e:
        return outcome_of_exc(e)
    if keep is not None:
        keep.append(v)
    return ["ok", freeze(v)]


def ckey(call):
    return json.dumps([call["f"], call["a"], sorted(call.get("k", {}).items())], ensure_ascii=True)


class Oracle:
    """Outcome of each call alone in a fresh process, memoised."""

    def __init__(self):
        self.table = {}

    def get(self, call):
        k = ckey(call)
        if k not in self.table:
            self.table[k] = alone(call)
        return self.table[k]

    def fill(self, calls, with_cov=False):
        """Evaluate many calls, each in its own fork, on all cores."""
        todo, seen = [], set(self.table)
        for c in calls:
            k = ckey(c)
            if k not in seen:
                seen.add(k)
                todo.append(c)
        nw = core.ncpu()
        chunks = [todo[i::nw] for i in range(nw)]

        def one(i):
            return {"out": [(ckey(c), *(alone_cov(c) if with_cov else (alone(c), None))) for c in chunks[i]]}
        res, trunc = core.run_pool(one, nw, wall_cap=600, nproc=nw, stop_on_violation=False)
        core.check_harness_errors(res)
        cov = {}
        for i in res:
            for k, o, cv in res[i]["out"]:
                self.table[k] = o
                if with_cov:
                    cov[k] = cv
        return cov


HANG_CPU = 60.0


def alone(call):
    st, v = core.fork_call(lambda: invoke(call), timeout=HANG_CPU)
    if st == "ok":
        return v
    if st == "err":
        raise core.HarnessError(v)
    return ["no-answer", st]


def alone_cov(call):
    """Outcome, the (function, line) pairs of the package that the call executes, number of line events."""
    def go():
        lines = set()
        n = 0
        mon = sys.monitoring
        mon.use_tool_id(4, "jvosim-cov")
        root = os.path.join(core.REPO, "py")

        def on_line(code, line):
            nonlocal n
            if code.co_filename.startswith(root):
                lines.add((code.co_name, line))
                n += 1
                return None
            return mon.DISABLE
        mon.register_callback(4, mon.events.LINE, on_line)
        mon.set_events(4, mon.events.LINE)
        o = invoke(call)
        mon.set_events(4, 0)
        return o, (sorted(lines), n)
    st, v = core.fork_call(go, timeout=HANG_CPU)
    if st == "ok":
        return v
    if st == "err":
        raise core.HarnessError(v)
    return ["no-answer", st], ([], 0)


# ---------------------------------------------------------------- corpus

def _rows(name):
    with open(os.path.join(core.VERIF, "corpus", name), encoding="utf-8") as f:
        return [r for r in csv.reader(f, delimiter="\t")]


def base_corpus():
    """(tanru strings, lujvo-like words, plain words) from the committed corpus files."""
    tanru, words = [], []
    for name in ("jvozba_test_list.tsv", "basic_test_list.tsv", "katna_test_list.tsv"):
        for r in _rows(name):
            if not r or (r[0] and r[0][0] == "#"):
                continue
            for cell in r[:3]:
                cell = cell.strip()
                if not cell or len(cell) > 60 or cell.isupper() and len(cell) > 3:
                    continue
                (tanru if " " in cell else words).append(cell)
    return sorted(set(tanru)), sorted(set(words))


SETTING_NAMES = KW + ["generate_cmevla", "require_zihevla"]
_sensitive = {}


def sensitive():
    """(component, function) -> pairs of calls that differ in this component, and (when mined) in their outcomes."""
    if not _sensitive:
        with open(os.path.join(core.VERIF, "corpus", "sensitive.json"), encoding="utf-8") as f:
            for comp, fn, a1, k1, a2, k2 in json.load(f):
                _sensitive.setdefault((comp, fn), []).append(({"f": fn, "a": a1, "k": k1}, {"f": fn, "a": a2, "k": k2}))
    return _sensitive


def ties():
    """(tanru, settings) for which several lujvo were equally good when this was mined."""
    with open(os.path.join(core.VERIF, "corpus", "ties.json"), encoding="utf-8") as f:
        d = json.load(f)
    return [x for k in sorted(d) for x in d[k]]


def ambiguous(words):
    """Beginnings that several words share."""
    n = {}
    for w in words:
        for k in range(3, len(w)):
            n.setdefault(w[:k], []).append(w)
    return sorted({p for p, ws in n.items() if len(ws) > 1 and (len(p) == 4 or len(ws) == 2)})


WORD_F = ["analyse_brivla", "is_brivla", "get_veljvo", "score_lujvo"]
WORD_X = ["tools.check_zihevla_or_rafsi", "tools.is_slinkuhi", "tools.is_gismu_or_lujvo", "katna.jvokaha", "katna.jvokaha_2",
          "tarmi.is_gismu", "tarmi.is_valid_rafsi"]
TANRU_F = ["get_lujvo", "get_lujvo_with_analytics"]


class Corpus:
    def __init__(self, rng):
        self.rng = rng
        self.tanru, self.words = base_corpus()
        with open(os.path.join(core.VERIF, "corpus", "words.json"), encoding="utf-8") as f:
            d = json.load(f)
        self.gismu, self.zihevla, self.jvs_lujvo = d["gismu"], d["zihevla"], d["lujvo"]
        self.rafsi_of = d["rafsi"]                # word -> rafsi (a frozen copy of the shipped table)
        self.rafsi = sorted({r for v in self.rafsi_of.values() for r in v})
        self.keys = sorted(self.rafsi_of)
        self.rich = [w for w in self.keys if len(self.rafsi_of[w]) >= 2]
        self.groups = sensitive()
        self.ties = ties()
        self.ambiguous = ambiguous(self.keys)
        self.group_keys = sorted(self.groups)
        self.group_weight = [4 if g[0] in SETTING_NAMES else 1 for g in self.group_keys]

    def settings(self, p_default=0.35):
        r = self.rng
        if r.random() < p_default:
            return {}
        k = {}
        if r.random() < .5:
            k["y_hyphens"] = r.choice(Y)
        if r.random() < .5:
            k["exp_rafsi_shapes"] = r.random() < .7
        if r.random() < .5:
            k["consonants"] = r.choice(C)
        if r.random() < .4:
            k["glides"] = r.random() < .7
        if r.random() < .4:
            k["allow_mz"] = r.random() < .7
        return k

    def word(self):
        r = self.rng
        x = r.random()
        if x < .45:
            return r.choice(self.rich if r.random() < .6 else self.keys)
        if x < .6:
            return r.choice(self.gismu)
        if x < .75:
            return r.choice(self.zihevla)
        if x < .85:
            return "-" + r.choice(self.rafsi) + "-"
        if x < .93:
            return r.choice(self.words)
        return self.mutate(r.choice(self.gismu + self.zihevla))

    def mutate(self, s):
        r = self.rng
        i = r.randrange(len(s) + 1)
        op = r.randrange(4)
        ch = r.choice("aeiouybcdfgjklmnprstvxz',.hq -")
        if op == 0:
            return s[:i] + ch + s[i:]
        if op == 1:
            return s[:i] + s[i + 1:]
        if op == 2:
            return s[:i] + ch + s[i + 1:]
        return s[:i] + s[i:][::-1] if r.random() < .3 else s.replace("'", "h")

    def a_tanru(self):
        r = self.rng
        if r.random() < .35:
            return r.choice(self.tanru)
        if r.random() < .05:
            return r.choice(self.ties)[0]
        n = r.choice([1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5])
        return " ".join(self.word() for _ in range(n))

    def a_lujvo(self):
        """A word to take apart."""
        r = self.rng
        x = r.random()
        if x < .3:
            return r.choice(self.words)
        if x < .5:
            return r.choice(self.jvs_lujvo)
        if x < .6:
            return r.choice(self.gismu)
        if x < .7:
            return r.choice(self.zihevla)
        n = r.choice([2, 2, 3, 3, 4])
        out = ""
        for i in range(n):
            w = r.choice(self.rich if r.random() < .6 else self.keys)
            rf = self.rafsi_of[w]
            if i == n - 1 and r.random() < .5:
                piece = w
            elif rf and r.random() < .8:
                piece = r.choice(rf)
            else:
                piece = w[:4]
            out += piece
            if i < n - 1:
                out += r.choice(["", "", "", "y", "r", "n", "y", "'y"])
        if r.random() < .15:
            out = out[:-1]
        if r.random() < .2:
            out = self.mutate(out)
        return out or "a"

    def decorate(self, s):
        r = self.rng
        if r.random() < .08:
            s = r.choice(["." + s, s.upper(), s.replace("'", "h"), s[:2] + "," + s[2:], s.capitalize()])
        return s

    def call_for(self, base, f=None, k=None):
        """A call on the given base (("t", tanru) or ("w", word))."""
        r = self.rng
        kind, s = base
        s = self.decorate(s)
        if k is None:
            k = self.settings()
        k = dict(k)
        if kind == "t":
            if f is None:
                f = r.choices(["get_lujvo", "get_lujvo_with_analytics", "get_rafsi_indices", "jvozba.process_tanru"],
                              [8, 8, 1, .3])[0]
            if f == "get_rafsi_indices":
                return {"f": f, "a": [s.split()], "k": {}}
            if f.startswith("jvozba."):
                return {"f": f, "a": [s], "k": {}}
            if r.random() < .15:
                k["generate_cmevla"] = True
            arg = s.split() if r.random() < .25 else s
            if r.random() < .2:      # positional style
                a = [arg, k.get("generate_cmevla", False), k.get("y_hyphens", Y[0]), k.get("exp_rafsi_shapes", False),
                     k.get("consonants", C[0]), k.get("glides", False), k.get("allow_mz", False)]
                return {"f": f, "a": a[:r.choice([2, 4, 7, 7, 7])], "k": {}}
            return {"f": f, "a": [arg], "k": k}
        if f is None:
            f = r.choices(["get_veljvo", "score_lujvo", "analyse_brivla", "is_brivla", "x"], [7, 5, 7, 4, 1.5])[0]
        if f == "x":
            f = r.choice([x for x in EXTRA if x not in ("jvozba.process_tanru",)])
            k = {x: k[x] for x in EXTRA_KW.get(f, ()) if x in k}
            if f in ("jvozba.get_rafsi_list_list", "jvozba.get_lujvo_from_list"):
                lst = [self.word() for _ in range(r.randrange(2, 4))]
                return {"f": f, "a": [lst], "k": k}
            if f == "katna.selrafsi_list_from_rafsi_list":
                return {"f": f, "a": [[r.choice(self.rafsi), r.choice(self.rafsi)]], "k": k}
            if f in ("tarmi.rafsi_tarmi", "katna.search_selrafsi_from_rafsi", "jvozba.score") and r.random() < .7:
                return {"f": f, "a": [r.choice(self.rafsi)], "k": {}}
            return {"f": f, "a": [s], "k": k}
        if r.random() < .2:
            a = [s, k.get("y_hyphens", Y[0]), k.get("exp_rafsi_shapes", False), k.get("consonants", C[0]),
                 k.get("glides", False), k.get("allow_mz", False)]
            return {"f": f, "a": a[:r.choice([1, 2, 3, 6, 6])], "k": {}}
        return {"f": f, "a": [s], "k": k}

    def pair(self):
        """Two calls that differ in one respect and, as far as is known, in their outcomes."""
        r = self.rng
        g = r.choices(self.group_keys, self.group_weight)[0]
        return g[0], *r.choice(self.groups[g])

    def pair_family(self, size):
        """Such a pair, and other functions on the same word under the same two sets of settings."""
        r = self.rng
        comp, a, b = self.pair()
        out = [a, b]
        fs = TANRU_F + ["jvozba.get_rafsi_list_list"] if a["f"] in TANRU_F + ["jvozba.get_rafsi_list_list"] else \
            WORD_F + WORD_F + WORD_X
        while len(out) < size:
            f = r.choice(fs)
            k = dict(r.choice([a, b])["k"])
            if r.random() < .2:
                k.update(self.settings(0))
            acc = EXTRA_KW.get(f, KW + (["generate_cmevla"] if f in TANRU_F else []))
            arg = r.choice([a, b])["a"][0]
            if f.startswith("jvozba.") and isinstance(arg, str):
                arg = arg.split()
            elif isinstance(arg, list) and r.random() < .3:
                arg = " ".join(arg)
            c = {"f": f, "a": [arg], "k": {x: v for x, v in k.items() if x in acc}}
            if r.random() < .15 and f in WORD_F + TANRU_F:      # positional style
                names = (["generate_cmevla"] if f in TANRU_F else []) + KW
                dflt = {"y_hyphens": Y[0], "consonants": C[0]}
                c = {"f": f, "a": [arg] + [c["k"].get(x, dflt.get(x, False)) for x in names], "k": {}}
            out.append(c)
        return out

    def tie_family(self, size):
        r = self.rng
        return [{"f": r.choice(TANRU_F), "a": [t], "k": dict(k)} for t, k in (r.choice(self.ties) for _ in range(size))]

    def base(self):
        return ("t", self.a_tanru()) if self.rng.random() < .55 else ("w", self.a_lujvo())

    def family(self, size):
        """Calls on one word or tanru: other settings, other functions, other argument styles."""
        r = self.rng
        b = self.base()
        out = []
        for _ in range(size):
            x = r.random()
            if x < .8:
                out.append(self.call_for(b))
            elif b[0] == "t":       # the same words in another order, or a part of them
                w = b[1].split()
                r.shuffle(w)
                out.append(self.call_for(("t", " ".join(w))))
            else:
                out.append(self.call_for(("w", self.mutate(b[1]))))
        return out

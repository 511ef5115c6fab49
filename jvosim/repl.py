"""The Python interactive programs (lujvo maker, decomposer) under simulated standard streams.

The real program runs with runpy as __main__ in a forked process that has not imported the package;
its stdin, stdout and stderr are CPython's own text and buffer layers over simulated raw devices that
decide how bytes arrive in pieces, when a call is interrupted, and when the input or output fails.
"""
import io
import os
import random
import runpy
import sys
import time

from . import core, lib

PROGRAMS = {"jvozba": ("tanru", True), "katna": ("lujvo", False)}
WORDS = {"cmevla": ("cmevla", True), "brivla": ("cmevla", False), "standard": ("y", "STANDARD"), "allow": ("y", "ALLOW_Y"),
         "force": ("y", "FORCE_Y"), "more": ("raf", True), "less": ("raf", False), "cluster": ("con", "CLUSTER"),
         "2c": ("con", "TWO_CONSONANTS"), "1c": ("con", "ONE_CONSONANT"), "glide": ("glide", True),
         "glidnt": ("glide", False), "mz": ("mz", True), "mznt": ("mz", False)}


# ------------------------------------------------------------ reference model

class Model:
    """Settings in force and what must be printed."""

    def __init__(self, program, answers):
        self.program, self.answers = program, answers
        self.s = {"y": "STANDARD", "raf": False, "con": "CLUSTER", "glide": False, "mz": False}
        if program == "jvozba":
            self.s["cmevla"] = False

    def prompt(self):
        s = self.s
        flags = s["y"][0] + str(s["raf"])[0] + s["con"][0] + str(s["glide"])[0] + str(s["mz"])[0]
        if self.program == "jvozba":
            flags = str(s["cmevla"])[0] + flags
        return f"({flags}) Enter a {PROGRAMS[self.program][0]}: "

    def line(self, text):
        """(texts any of which answers the line, session goes on)"""
        if text == "":
            return [""], False
        if text[0] == "/":
            for w in text[1:].lower().split():
                if w in WORDS and WORDS[w][0] in self.s:
                    k, v = WORDS[w]
                    self.s[k] = v
            return [""], True
        k = {"y_hyphens": self.s["y"], "exp_rafsi_shapes": self.s["raf"], "consonants": self.s["con"],
             "glides": self.s["glide"], "allow_mz": self.s["mz"]}
        if self.program == "jvozba":
            kind, msg = self.answers("get_lujvo_with_analytics", text, dict(k, generate_cmevla=self.s["cmevla"]))
            return [msg + "\n"], True
        kind, a = self.answers("analyse_brivla", text, k)
        if kind != "ok":
            return [f"Error: {a}\n"], True
        kind, v = self.answers("get_veljvo", text, k)
        if kind == "ok":
            return [f"{a}\n{v}\n"], True
        return [f"{a}\nError: {v}\n", f"Error: {v}\n"], True


class Answers:
    """What a library function prints as for a line, each computed alone in a fresh process."""

    def __init__(self):
        self.table = {}

    def __call__(self, f, text, k):
        key = (f, text, tuple(sorted(k.items())))
        if key not in self.table:
            def go():
                try:
                    return "ok", str(lib.resolve(f)(text, **k))
                except Exception as e:
                    return type(e).__name__, str(e)
            st, v = core.fork_call(go, timeout=lib.HANG_CPU)
            if st == "err":
                raise core.HarnessError(v)
            if st != "ok":
                v = ("no-answer", st)
            self.table[key] = v
        return self.table[key]


def transcript(program, lines, answers):
    """[(prompt, [possible answers])...], whether the lines end the session."""
    m = Model(program, answers)
    out = []
    for text in lines:
        p = m.prompt()
        a, go_on = m.line(text)
        out.append((p, a))
        if not go_on:
            return out, True
    out.append((m.prompt(), None))
    return out, False


def match(out, script, whole):
    """Is out (text) the script, or (whole=False) a prefix of it?  Returns (ok, number of prompts begun, position)."""
    pos, prompts = 0, 0
    for p, a in script:
        rest = out[pos:]
        if not rest and not whole:
            return True, prompts, pos
        prompts += 1
        if not rest.startswith(p):
            return (not whole and p.startswith(rest)), prompts, pos
        pos += len(p)
        if a is None:
            break
        rest = out[pos:]
        hit = [x for x in a if rest.startswith(x)]
        if not hit:
            return (not whole and any(x.startswith(rest) for x in a)), prompts, pos
        # the longest alternative that fits; alternatives never extend each other
        pos += len(max(hit, key=len))
    return pos == len(out), prompts, pos


# ------------------------------------------------------------ simulated devices

class Ended(BaseException):
    """The harness gives up on a program that does not stop."""


class Stop(Exception):
    pass


class RawIn(io.RawIOBase):
    """Delivers data in pieces; then end of input or an error."""

    def __init__(self, w, data, rng, how):
        self.w, self.data, self.rng, self.how, self.pos = w, data, rng, how, 0
        self.ctrl_c_at = None

    def readable(self):
        return True

    def isatty(self):
        return self.w.case["tty"]

    def readinto(self, b):
        w = self.w
        w.reads += 1
        w.log_read(self.pos)
        if w.reads > w.max_reads:
            raise Ended("reads without end")
        if self.how["eintr"] and self.rng.random() < self.how["eintr"]:
            w.count("read_EINTR")
            raise InterruptedError(4, "Interrupted system call")
        if w.case["fault"] and w.case["fault"]["kind"] == "sigint_read" and w.reads >= w.case["fault"]["n"] and not w.fired:
            w.fire("sigint_read")
            raise KeyboardInterrupt
        if w.case["fault"] and w.case["fault"]["kind"] == "read_error" and self.pos >= w.limit_in and self.pos >= 0:
            w.fire("read_EIO")
            raise OSError(5, "Input/output error")
        left = min(len(self.data), w.limit_in) - self.pos
        if left <= 0:
            w.fire("eof")
            w.eofs += 1
            if w.eofs > 40:
                raise Ended("reads on after the end of the input")
            return 0
        n = self.how["chunk"]
        if n == "line":
            i = self.data.find(b"\n", self.pos)
            k = (i + 1 if i >= 0 else len(self.data)) - self.pos
        elif n == "random":
            k = self.rng.choice([1, 2, 3, 5, 17, 100, 9000])
        elif n == "all":
            k = len(self.data)
        else:
            k = n
        k = max(1, min(k, left, len(b)))
        if w.case.get("pause"):
            d = self.rng.choice(w.case["pause"])
            w.clock.now += d
            w.paused += d
        b[:k] = self.data[self.pos:self.pos + k]
        self.pos += k
        return k


class RawOut(io.RawIOBase):
    def __init__(self, w, rng, how, main):
        self.w, self.rng, self.how, self.main, self.buf = w, rng, how, main, bytearray()
        self.writes = 0

    def writable(self):
        return True

    def isatty(self):
        return self.w.case["tty"]

    def write(self, b):
        w = self.w
        b = bytes(b)
        if self.main:
            self.writes += 1
            if self.writes > 200_000:
                raise Ended("writes without end")
            f = w.case["fault"]
            if f and f["kind"] == "write_error" and self.writes >= f["n"] and (f["lasting"] or self.writes < f["n"] + f["times"]):
                w.fire("write_" + f["errno_name"])
                w.write_failures += 1
                if w.write_failures > 20 * w.max_reads:
                    raise Ended("writes on after its output failed")
                raise OSError(f["errno"], os.strerror(f["errno"]))
            if f and f["kind"] == "full" and len(self.buf) + len(b) > f["n"]:
                k = f["n"] - len(self.buf)
                if k <= 0:
                    w.fire("write_ENOSPC")
                    w.write_failures += 1
                    if w.write_failures > 20 * w.max_reads:
                        raise Ended("writes on after its output failed")
                    raise OSError(28, "No space left on device")
                self.buf += b[:k]
                w.count("short_write")
                return k
            if self.how["eintr"] and self.rng.random() < self.how["eintr"]:
                w.count("write_EINTR")
                raise InterruptedError(4, "Interrupted system call")
            if self.how["short"] and len(b) > 1 and self.rng.random() < self.how["short"]:
                k = self.rng.randrange(1, len(b))
                self.buf += b[:k]
                w.count("short_write")
                return k
        self.buf += b
        return len(b)


class Clock:
    """Virtual time: it passes while the program waits for input, while it sleeps, and a little whenever it is asked for."""

    def __init__(self, wall):
        self.now, self.wall = 1000.0, wall

    def monotonic(self):
        self.now += 1e-5
        return self.now

    def time(self):
        return self.wall + self.monotonic()

    def sleep(self, d):
        self.now += max(0, d)

    def install(self):
        time.time, time.sleep = self.time, self.sleep
        time.monotonic = time.perf_counter = time.process_time = self.monotonic
        time.time_ns = lambda: int(self.time() * 1e9)
        time.monotonic_ns = time.perf_counter_ns = lambda: int(self.monotonic() * 1e9)


def record_environment(names):
    root = os.path.join(core.REPO, "py")
    orig = os._Environ.__getitem__

    def getitem(self, key):
        f = sys._getframe(1)
        while f is not None:
            if f.f_code.co_filename.startswith(root):
                names.add(str(key))
                break
            f = f.f_back
        return orig(self, key)
    os._Environ.__getitem__ = getitem


class World:
    def __init__(self, case):
        self.case = case
        rng = random.Random(case["seed"])
        self.data = case["input"].encode("utf-8")
        f = case["fault"]
        self.limit_in = f["n"] if f and f["kind"] in ("eof", "read_error") else len(self.data)
        self.counts = {}
        self.fired = None
        self.reads = self.eofs = self.write_failures = 0
        self.paused = 0
        self.clock = Clock(case.get("clock", 1_700_000_000))
        self.max_reads = 20 * len(self.data) + 2000
        self.waits = []           # (bytes delivered, bytes displayed) each time the program asks for input
        self.at_fault = None      # bytes displayed when the fault struck
        self.rin = RawIn(self, self.data, rng, case["in"])
        self.rout = RawOut(self, rng, case["out"], True)
        self.rerr = RawOut(self, rng, case["out"], False)

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def fire(self, what):
        self.count(what)
        if self.fired is None:
            self.fired = what
            self.at_fault = len(self.rout.buf)

    def log_read(self, pos):
        if len(self.waits) < 5000:
            self.waits.append((pos, len(self.rout.buf)))


def session(case):
    """Runs in a forked process.  Returns the record of the session."""
    for m in [m for m in sys.modules if m == lib.PKG or m.startswith(lib.PKG + ".")]:
        del sys.modules[m]
    lib.prepare_path()
    lib.use_compiled()
    w = World(case)
    w.clock.install()
    random.seed(case["seed"])
    names = set()
    if case.get("pilot"):
        record_environment(names)
    os.environ.update(case.get("env") or {})
    old = sys.stdin, sys.stdout, sys.stderr, sys.argv
    tty = case["tty"]
    sys.stdin = io.TextIOWrapper(io.BufferedReader(w.rin), encoding="utf-8", newline="\n")
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(w.rout), encoding="utf-8", newline="\n", line_buffering=tty)
    sys.stderr = io.TextIOWrapper(io.BufferedWriter(w.rerr), encoding="utf-8", errors="backslashreplace", line_buffering=True)
    out = sys.stdout
    f = case["fault"]
    lines = 0
    mon = sys.monitoring
    if f and f["kind"] == "sigint_line":
        mon.use_tool_id(3, "jvosim-sigint")
        root = os.path.join(core.REPO, "py")

        def on(code, line):
            nonlocal lines
            if not code.co_filename.startswith(root):
                return mon.DISABLE
            if len(code.co_code) > 20000:
                return mon.DISABLE
            lines += 1
            if lines == f["n"] and w.fired is None:
                w.fire("sigint_line")
                mon.set_events(3, 0)
                raise KeyboardInterrupt
        mon.register_callback(3, mon.events.LINE, on)
        mon.set_events(3, mon.events.LINE)
    end = ["returned", None]
    try:
        runpy.run_module(f"{lib.PKG}.{case['program']}", run_name="__main__", alter_sys=True)
    except SystemExit as e:
        end = ["exit", str(e.code)]
    except Ended as e:
        end = ["endless", str(e)]
    except BaseException as e:
        end = ["exc", type(e).__name__ + ": " + str(e)[:200]]
    if f and f["kind"] == "sigint_line":
        mon.set_events(3, 0)
        mon.free_tool_id(3)
    try:
        out.flush()                # the interpreter's own flush at exit
    except Ended as e:
        end = ["endless", str(e)]
    except BaseException as e:
        end = ["exit", "120"] if end[0] == "returned" else end     # as CPython reports it
    sys.stdin, sys.stdout, sys.stderr, sys.argv = old
    return {"out": bytes(w.rout.buf), "end": end, "waits": w.waits, "fired": w.fired, "counts": w.counts,
            "at_fault": w.at_fault, "names": sorted(names), "paused": w.paused, "delivered": w.rin.pos, "lines": lines, "writes": w.rout.writes}


def run(case, timeout=150):
    st, v = core.fork_call(lambda: session(case), timeout=timeout)
    if st == "ok":
        return v
    if st == "err":
        raise core.HarnessError(v)
    return {"out": b"", "end": ["stuck", f"the session {st}"], "waits": [], "fired": None, "counts": {}, "at_fault": None,
            "delivered": 0, "lines": 0, "writes": 0, "names": [], "paused": 0}


# ------------------------------------------------------------ generation

JUNK = "aeiouybcdfgjklmnprstvxz',.hq -\t\x00\x7f\r\x0b\x0c\x1c\x85\u2028\u0130\u212aé\\\"'AEIKZ😀0123456789{}%"


MARKS = list("!\"#$%&()*+,-.:;<=>?@[\\]^_`{|}~") + ["//", "--", "\\n", "..", "&&", "||", "$(", "<<", ">>", "#!", "\x04", "\x1a", "\x08", "^C"]


def literals(program):
    """Short words among the string literals of a program's file; only input material."""
    import ast
    try:
        tree = ast.parse(open(os.path.join(core.REPO, "py", lib.PKG, program + ".py"), encoding="utf-8").read())
    except (OSError, SyntaxError):
        return []
    ws = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 20:
            ws |= {w for w in n.value.split() if w[0] != "/" and w.lower() not in WORDS and w.isprintable()}
    return sorted(ws)


class Lines:
    """A pool of lines shared by many sessions (so that the library answers are reused)."""

    def __init__(self, rng, n=700):
        self.rng = rng
        c = lib.Corpus(rng)
        tan = [c.a_tanru() for _ in range(n // 2)] + ["klama gasnu", "lujvo zbasu", "broda", "lo", "gerku zdani", "mleca mlatu",
                                                      "lojban-", "Fred- zdani", "mzkala zdani", "barda zmadu"]
        luj = [c.a_lujvo() for _ in range(n // 2)] + ["lujvozba", "gerzda", "klama", "a'yyk", "y", "''", "be'i'oi"]
        self.good = {"jvozba": tan * 2 + luj, "katna": luj * 2 + tan}
        bad = []
        for _ in range(n // 3):
            x = rng.random()
            if x < .4:
                s = "".join(rng.choice(JUNK) for _ in range(rng.choice([1, 1, 2, 3, 5, 9, 20])))
            elif x < .7:
                s = rng.choice(tan + luj)
                for _ in range(rng.choice([1, 2, 3])):
                    s = c.mutate(s) if s else s
            elif x < .75:
                # marks that other programs give a meaning to
                s, m = rng.choice(tan + luj), rng.choice(MARKS)
                s = rng.choice([s + m, s + " " + m, m + s, m + " " + s, s.replace(" ", m), m, s + m + s])
            elif x < .85:
                s = rng.choice(tan).upper() if rng.random() < .5 else rng.choice(luj) + rng.choice([" ", "  ", "\t", ".", ","])
            else:
                s = rng.choice(JUNK) * rng.choice([1, 2, 30, 300])
            s = s.replace("\n", " ")
            if s and s[0] != "/":
                bad.append(s)
        bad += ["quit", "exit", "q", "None", "-", "- -", " ", "\t", ".", ",", "'", "0", "klama  gasnu", " klama gasnu ",
                "--", "-a-", "-klam-", "a" * 9000, "klama " * 60, "kla" * 100, "yy", "gerku zdani\r", "\x1b[A", "help"]
        # words that the programs themselves mention
        self.own = {p: literals(p) for p in PROGRAMS}
        self.bad = bad

    def slash(self, r, program):
        words = list(WORDS)
        ws = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 6])):
            w = r.choice(words)
            x = r.random()
            if x < .12:
                w = r.choice(self.own[program] or ["c"]) if r.random() < .3 else r.choice(["mor", "moree", "allow_y", "std", "2", "1", "c", "glides", "-more", "/more", "ALLOWY", "cmevlax", "mz,", "b"])
            elif x < .3:
                w = w.upper() if r.random() < .5 else w.capitalize()
            ws.append(w)
        return "/" + r.choice(["", "", "", " ", "\t"]) + r.choice([" ", " ", " ", "  ", "\t", "\u2003"]).join(ws) + r.choice(["", "", " "])

    def pick(self, r, program, garbage):
        x = r.random()
        if x < garbage:
            if self.own[program] and r.random() < .1:
                w = r.choice(self.own[program])
                return w if r.random() < .8 else w.upper()
            return r.choice(self.bad)
        return r.choice(self.good[program])

    def walk(self, r, program):
        """The same texts under settings that matter to them, back and forth."""
        fns = ("get_lujvo", "get_lujvo_with_analytics") if program == "jvozba" else ("analyse_brivla", "get_veljvo", "is_brivla", "score_lujvo")
        groups = []
        g = lib.sensitive()
        for key in sorted(g):
            if key[1] in fns:
                ps = [p for p in g[key] if all(isinstance(c["a"][0], str) and c["a"][0] and c["a"][0][0] != "/" and "\n" not in c["a"][0] for c in p)]
                if ps:
                    groups.append((4 if key[0] in lib.SETTING_NAMES else 1, ps))
        word = {v: w for w, v in WORDS.items()}
        s = {"y": "STANDARD", "raf": False, "con": "CLUSTER", "glide": False, "mz": False}
        if program == "jvozba":
            s["cmevla"] = False
        out = []

        def go(want, text):
            todo = [k for k in want if k in s and want[k] != s[k]] if r.random() < .8 else [k for k in want if k in s]
            r.shuffle(todo)
            s.update({k: want[k] for k in todo})
            ws = [word[k, want[k]] for k in todo]
            while ws:
                n = r.choice([1, len(ws), len(ws)])
                out.append("/" + " ".join(ws[:n]))
                ws = ws[n:]
            out.append(text)

        def state(call):
            k = call["k"]
            return {"y": k.get("y_hyphens", "STANDARD"), "raf": bool(k.get("exp_rafsi_shapes")), "con": k.get("consonants", "CLUSTER"),
                    "glide": bool(k.get("glides")), "mz": bool(k.get("allow_mz")), "cmevla": bool(k.get("generate_cmevla"))}
        seen = []
        for _ in range(r.choice([1, 2, 4])):
            a, b = r.choice(r.choices([x[1] for x in groups], [x[0] for x in groups])[0])
            two = [(state(a), a["a"][0]), (state(b), b["a"][0])]
            if r.random() < .5:
                two.reverse()
            seen += two
            for x in two + r.choice([[], two[:1], [r.choice(seen)]]):
                go(*x)
            if r.random() < .4:
                # from one of them, one setting for another
                for _ in range(r.choice([1, 3, 6])):
                    w, t = r.choice(two)
                    w = dict(w)
                    for k in r.sample(["raf", "glide", "mz", "y", "con"] + (["cmevla"] if program == "jvozba" else []), r.choice([1, 2, 2, 3])):
                        w[k] = r.choice([v for kk, v in WORDS.values() if kk == k])
                    go(w, t)
        return out

    def session(self, r, program, garbage=.2, nmax=14):
        n = r.choice([0, 1, 2, 3, 5, 8, nmax])
        out = []
        if r.random() < .004:
            # a very long session over few lines
            some = [self.pick(r, program, garbage) for _ in range(r.choice([2, 5, 9]))]
            few = [x for x in some if len(x) < 100] or ["gerku zdani"]
            sl = [self.slash(r, program) for _ in range(3)]
            return [r.choice(sl) if r.random() < .1 else r.choice(few) for _ in range(r.choice([150, 600, 1500, 3000]))]
        while len(out) < n:
            x = r.random()
            if x < .35:
                out.append(self.slash(r, program))
            elif x < .5 and any(l and l[0] != "/" for l in out):
                out.append(r.choice([l for l in out if l and l[0] != "/"]))      # the same line again, maybe under other settings
            else:
                out.append(self.pick(r, program, garbage))
        return out


READ = []      # environment variables the programs ask for, found by a pilot
ENV = {"NO_COLOR": ["1"], "TERM": ["dumb", "xterm-256color", ""], "COLUMNS": ["1", "20", "x"], "LINES": ["5"], "LANG": ["C", "tr_TR.UTF-8", "jbo"],
       "LC_ALL": ["C", "tr_TR.UTF-8"], "PYTHONIOENCODING": ["ascii"], "HOME": ["/", "/nonexistent"], "DEBUG": ["1"], "CI": ["true"], "EDITOR": ["vi"]}


def find_environment(lines):
    r = core.rng_for(1, "repl", "names")
    names = set()
    for program in ("jvozba", "katna"):
        for k in range(4):
            ls = lines.session(r, program, nmax=8) + lines.walk(r, program) + ["/help", "ui klama bajra", "klabajra", ""]
            case = {"program": program, "lines": ls, "input": "".join(l + "\n" for l in ls), "fault": None, "seed": k, "pilot": True, "tty": k % 2 == 1,
                    "in": {"chunk": "line", "eintr": 0}, "out": {"short": 0, "eintr": 0}}
            names |= set(run(case)["names"])
    READ[:] = sorted(n for n in names if n and "=" not in n and "\0" not in n)


def surroundings(r):
    env = {}
    if r.random() < .4:
        for k, vs in sorted(ENV.items()):
            if r.random() < .3:
                env[k] = r.choice(vs)
    for k in READ:
        if r.random() < .5:
            env[k] = r.choice(["", "0", "1", "2", "10", "4096", "x", "en", "yes", "/tmp", "-1"])
    return {"env": env, "pause": r.choice([None, [0], [0, .001, .2], [0, .5, 5], [1, 61, 400], [0, 3700, 90000], [0, 0, 0, 31 * 86400]]),
            "clock": r.choice([1_700_000_000, 0, 2 ** 31 - 30, 2 ** 33])}


def io_plan(r):
    return {**surroundings(r),
            "in": {"chunk": r.choice(["line", "line", "line", "random", "random", "all", 1]), "eintr": r.choice([0, 0, .1, .5])},
            "out": {"short": r.choice([0, 0, .2, .9]), "eintr": r.choice([0, 0, .1, .5])}, "tty": r.random() < .5}


def shape(case, script):
    return [case["program"], [(p, len(a) if a else 0) for p, a in script], case["in"], case["out"], case["tty"], case["fault"], case["pause"], case["env"]]


def shorten(x, n=300):
    t = repr(x)
    return t if len(t) <= n else t[:n // 2] + " ... " + t[-n // 2:]


def minimise(case, lines, fails, make):
    """Smallest list of lines that still fails."""
    t_end = core._monotonic() + 60

    def f(ls):
        return core._monotonic() < t_end and fails(make(ls))
    return core.ddmin(lines, f, 120)


def simplify(case, fails):
    """Without the surroundings the failure does not need."""
    for k in sorted(case["env"]):
        c = dict(case, env={a: b for a, b in case["env"].items() if a != k})
        if fails(c):
            case = c
    for change in ({"pause": None}, {"clock": 1_700_000_000}, {"in": {"chunk": "line", "eintr": 0}}, {"out": {"short": 0, "eintr": 0}}, {"tty": False}):
        c = dict(case, **change)
        if fails(c):
            case = c
    return case

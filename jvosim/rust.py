"""The Rust program under simulated standard input, output, allocator, clock and randomness.

A session is {"args": [...], "input": text, "in": plan, "out": plan, ...}; see shim/ttysim.c for the plans."""
import os
import re
import shutil
import signal
import subprocess

from . import core, lib, repl

FLAGS = "cSAFC21rgz"
WHITE = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
DEFAULT = ("S", "C", frozenset())


def build(scratch):
    """Build the program from the working tree in a scratch copy; returns the path of the binary."""
    given = os.environ.get("JVOSIM_RS_BIN")       # developers only
    if given:
        return given
    d = os.path.join(scratch, "rs")
    shutil.copytree(os.path.join(core.REPO, "rs"), d, ignore=shutil.ignore_patterns("target", "Cargo.lock", "rust-toolchain.toml"))
    path = os.path.join(d, "Cargo.toml")
    with open(path) as f:
        toml = f.read()
    # the versions that are in the offline cargo cache
    for name, v in (("indexmap", "2"), ("itertools", "0.15"), ("regex", "1")):
        toml = re.sub(rf'(?m)^{name} = .*$', f'{name} = "{v}"', toml)
    with open(path, "w") as f:
        f.write(toml)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(scratch, "target"), CARGO_PROFILE_DEV_DEBUG="0",
               CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false", CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false",
               CARGO_PROFILE_DEV_INCREMENTAL="false", CARGO_NET_OFFLINE="true")
    env.pop("LD_PRELOAD", None)
    last = ""
    for tool in (["cargo", "+nightly"], ["cargo"]):
        p = subprocess.run(tool + ["build", "--offline", "--bin", "jvotci"], cwd=d, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if p.returncode == 0:
            return os.path.join(scratch, "target", "debug", "jvotci")
        last = p.stdout.decode(errors="replace")[-3000:]
    raise core.HarnessError("the Rust program does not build:\n" + last)


class Program:
    def __init__(self, scratch):
        self.bin = build(scratch)
        self.so = os.path.join(scratch, "ttysim.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", self.so, os.path.join(core.VERIF, "shim", "ttysim.c"),
                        os.path.join(core.VERIF, "shim", "procsim.c")], check=True)
        self.runs = 0

    def run(self, args=(), data=b"", plan_in="", plan_out="", env=None, ops=None, alloc=0, rnd=1, heap=0, err=0, argv0=None, cwd="/"):
        self.runs += 1
        e = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0", "SIM_RANDOM": str(rnd), "SIM_CLOCK": "1700000000", "SIM_PID": "4242"}
        e.update(env or {})
        e["SIM_CPU"] = "30"
        if plan_in:
            e["SIM_IN"] = plan_in
        if plan_out:
            e["SIM_OUT"] = plan_out
        if ops:
            e["SIM_OPS"] = str(ops)
        if alloc:
            e["SIM_ALLOC"] = str(alloc)
        if heap:
            e["SIM_HEAP"] = str(heap)
        if err:
            e["SIM_ERR"] = str(err)
        fds = [os.memfd_create("x") for _ in range(4)]
        try:
            os.write(fds[0], data)
            os.lseek(fds[0], 0, 0)
            os.set_inheritable(fds[3], True)
            e["SIM_LOG"] = str(fds[3])
            # setarch -R: one address layout; LD_PRELOAD is set for the program only
            p = subprocess.Popen(["/usr/bin/setarch", "-R", "/usr/bin/env", f"LD_PRELOAD={self.so}"] +
                                 ([f"--argv0={argv0}"] if argv0 else []) + [self.bin] + list(args),
                                 stdin=fds[0], stdout=fds[1], stderr=fds[2], env=e, close_fds=False, cwd=cwd)
            status = p.wait()
            out, err, log = [read_all(fd) for fd in fds[1:]]
        finally:
            for fd in fds:
                os.close(fd)
        return {"status": status, "out": out, "err": err.decode("utf-8", "replace"),
                "names": [l[2:] for l in log.decode("utf-8", "replace").splitlines() if l.startswith("! ")],
                "log": [(l.split()[0], int(l.split()[1]), int(l.split()[2])) for l in log.decode("utf-8", "replace").splitlines() if l[0] != "!"]}


def read_all(fd):
    n = os.lseek(fd, 0, 2)
    return os.pread(fd, n, 0) if n else b""


# ---------------------------------------------------------------- the settings

def flags_of(s):
    y, c, on = s
    return "".join(sorted(on)) + (y if y != "S" else "") + (c if c != "C" else "")


def args_of(s):
    f = flags_of(s)
    return ["-" + f] if f else []


def apply(s, arg):
    """The settings after the flag line '/' + arg."""
    y, c, on = s
    if arg == "":
        return DEFAULT
    if any(ch not in FLAGS for ch in arg):
        return s
    for ch in arg:
        if ch in "crgz":
            on = on ^ {ch}
        elif ch in "AF":
            y = "S" if y == ch else ch
        elif ch == "S":
            y = "S"
        elif ch in "12":
            c = "C" if c == ch else ch
        else:
            c = "C"
    return (y, c, frozenset(on))


def is_command(line):
    return line.strip(WHITE).startswith("/")


def step(s, line):
    """(settings after the line, whether the line quits)"""
    t = line.strip(WHITE)
    if not t.startswith("/"):
        return s, False
    arg = t[1:]
    if "q" in arg:
        return s, True
    if "h" in arg:
        return s, False
    return apply(s, arg), False


ANSI = re.compile(r"\x1b\[[0-9;]*m")


class Answers:
    """What a fresh process answers: (settings, line) -> bytes from the prompt up to the next prompt."""

    def __init__(self, program):
        self.program = program
        self.prompts = {}
        self.table = {}

    def prompt(self, s):
        if s not in self.prompts:
            r = self.program.run(args_of(s), b"", ops=200)
            if r["status"] != 0:
                raise Broken("prompt", f"started with {args_of(s)} and ended at once, the program exits with {r['status']}")
            shown = ANSI.sub("", r["out"].decode("utf-8", "replace"))
            if sorted(re.findall(r"[A-Za-z0-9]", shown)) != sorted(flags_of(s)):
                raise Broken("prompt", f"started with {args_of(s)}, the program shows the settings as {shown!r}")
            self.prompts[s] = r["out"]
        return self.prompts[s]

    def served(self, s, line):
        k = (s, line)
        if k not in self.table:
            s2, quits = step(s, line)
            r = self.program.run(args_of(s), (line + "\n").encode(), ops=1000)
            if r["status"] != 0:
                raise Broken("died", f"a session started with {args_of(s)} ends with status {r['status']} on the line {line!r}: {r['err'][:200]}")
            p, tail = self.prompt(s), b"" if quits else self.prompt(s2)
            if not r["out"].startswith(p):
                raise Broken("prompt", f"started with {args_of(s)}, the program shows {r['out'][:60]!r}")
            if quits:
                if len(r["out"]) > len(p) + 40:
                    raise Broken("quit", f"a session started with {args_of(s)} goes on after the line {line!r}")
            elif len(r["out"]) < len(p) + len(tail) or not r["out"].endswith(tail):
                raise Broken("settings", f"in a session started with {args_of(s)}, the line {line!r} should leave the settings "
                                         f"{flags_of(s2)!r}; the output ends {r['out'][-60:]!r}")
            if p not in line.encode() and p in r["out"][len(p):len(r["out"]) - len(tail)]:
                raise Broken("prompts", f"a session started with {args_of(s)} asks for more than one further line on the line {line[:100]!r}"
                                        f" of {len(line)} characters")
            self.table[k] = r["out"][:len(r["out"]) - len(tail)]
        return self.table[k]

    def transcript(self, s, lines):
        """(bytes, whether a line quit).  The output for the lines, without the last prompt."""
        out = []
        for line in lines:
            out.append(self.served(s, line))
            s, quits = step(s, line)
            if quits:
                return b"".join(out), None
        return b"".join(out), s


class Broken(Exception):
    def __init__(self, kind, what):
        super().__init__(what)
        self.kind = kind


# ---------------------------------------------------------------- lines

def literals():
    """Short words among the literals of the program's source; only input material."""
    ws = set()
    d = os.path.join(core.REPO, "rs", "src")
    for f in sorted(os.listdir(d)):
        if f.endswith(".rs") and f not in ("rafsi.rs", "test_list.rs"):
            with open(os.path.join(d, f), encoding="utf-8", errors="replace") as fh:
                text = re.sub(r"(?m)^\s*//.*$", "", fh.read())
            for x in re.findall(r'"((?:[^"\\\n]|\\.)*)"', text) + re.findall(r"'([^'\\\n]|\\.)'", text):
                x = x.replace("\\n", " ").replace("\\\\", "\\").replace("\\'", "'").replace('\\"', '"')
                ws |= {w for w in x.split() if len(w) < 20 and w.isprintable() and not w.startswith("/") and encodable(w)}
    return sorted(ws)


class Lines:
    def __init__(self, rng, n=600):
        pool = repl.Lines(rng, n)
        self.good = pool.good["jvozba"] + pool.good["katna"]
        self.bad = pool.bad + ["\ufeffklama", "é", "klamé gasnu", "😀a", "a’a", "\x00", "\x1b[m", "ai'y'aiiai", "kraiy'aai", "0/c", "-c", "?"]
        ok = lambda l: len(l) < 400 and len(l.split()) < 12 and not is_command(l) and encodable(l)
        self.good = sorted({l for l in self.good if ok(l)})
        self.bad = sorted({l for l in self.bad if ok(l)})
        self.rng = rng
        self.own = literals()
        c = lib.Corpus(rng)
        # tanru whose best lujvo is a close call, and beginnings that several words share
        self.close = [t for t, _ in c.ties]
        self.shared = [w + x for w in c.ambiguous for x in ("", "", "a", "ygerku", "y'y")] + ["gerky" + w for w in c.ambiguous]

    def line(self, r, garbage):
        x = r.random()
        if x < garbage:
            y = r.random()
            if y < .15 and self.own:
                w = r.choice(self.own)
                g = r.choice(self.good)
                return r.choice([w, w.upper(), w + " " + g, g + " " + w, g + w, w + g])
            if y < .2:
                # a long one
                n = r.choice([300, 1000, 1024, 4096, 8200, 70000])
                g = r.choice(self.good)
                return r.choice([g + " " * n + g, g + "." * n, r.choice(",.x'0q") * n, "a" * min(n, 1024), "é" * (n // 2 + 1), " " * n + g])
            return r.choice(self.bad)
        if x > .95:
            return r.choice(self.close if x > .975 else self.shared)
        return r.choice(self.good)

    def command(self, r):
        x = r.random()
        if x < .1:
            t = "/"
        elif x < .15:
            t = "/h"
        elif x < .25:
            t = "/" + r.choice(["x", "b", "cx", "xc", "c r", "C7", "cé", "-c", "//", "/c", "c\tr", "Cr\u2003x", "s", "a", "G", "c,r", "3"])
        else:
            t = "/" + "".join(r.choice(FLAGS) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])))
        if r.random() < .1:
            t = r.choice([" ", "\t", "\u3000"]) + t + r.choice(["", " ", "\u2003"])
        return t

    def session(self, r, nmax=14, commands=.35, garbage=.2):
        out = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8, nmax])):
            x = r.random()
            said = [l for l in out if not is_command(l)]
            if x < commands:
                out.append(self.command(r))
            elif x < commands + .15 and said:
                out.append(r.choice(said))
            else:
                out.append(self.line(r, garbage))
        return out


def encodable(s):
    try:
        s.encode()
        return "\n" not in s
    except UnicodeEncodeError:
        return False


def pieces(r, n, write=False):
    """A plan that splits and interrupts but harms nothing."""
    out = []
    style = r.choice(["bytes", "small", "mixed", "signals", "none"])
    for _ in range(n if style != "none" else 0):
        x = r.random()
        if style == "signals" and x < .7 or x < .15:
            out.append("I")
        elif x < .2:
            out.append(f"J{r.choice([1, 1000, 86400000, -3600000])}")
        elif style == "bytes":
            out.append("1")
        else:
            out.append(str(r.choice([1, 2, 3, 5, 8, 13, 40, 200])))
    return out


SIGNALS = {s.value: s.name for s in signal.Signals}


def status(n):
    return SIGNALS.get(-n, str(n)) if n < 0 else str(n)

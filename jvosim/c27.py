"""C27: the Rust library: calls in many threads and long histories, under a scheduler at every basic block."""
import os
import re
import resource
import shutil
import subprocess
import tempfile

from . import core, lib

RULE = ("a case is one process of 1 to 4 threads with 1 to 1200 library calls each, and a schedule: a script of switches at seeded basic blocks "
        "(counted by number or by first visit) or random switches, spurious and interrupted futex waits; non-trivial: another thread ran in the "
        "middle of a call, or a call followed one with the same word; distinct: by calls and switches")
NAME = {"analyse_brivla": "analyze_brivla", "normalise": "normalize", "get_rafsi_list_list": "grll", "get_lujvo_from_list": "get_lujvo_with_analytics",
        "jvokaha_2": "jvokaha2"}
KNOWN = {"get_lujvo", "get_lujvo_with_analytics", "get_veljvo", "score_lujvo", "analyze_brivla", "is_brivla", "normalize", "grll", "jvokaha", "jvokaha2",
         "is_slinkuhi", "is_gismu_or_lujvo", "search_selrafsi_from_rafsi", "get_rafsi_indices", "check_zihevla_or_rafsi", "is_valid_rafsi", "is_gismu",
         "rafsi_tarmi", "strip_hyphens", "split_vowel_cluster", "is_zihevla_middle_cluster", "score"}
MAIN = ["get_lujvo", "get_lujvo_with_analytics", "grll", "get_veljvo", "score_lujvo", "analyze_brivla", "is_brivla", "jvokaha"]
LISTS = ["selrafsi_list_from_rafsi_list", "selrafsi_list_from_rafsi_list", "get_lujvo_from_list", "get_rafsi_list_list", "process_tanru", "compare_lujvo_pieces"]
SMALL = ["search_selrafsi_from_rafsi"] * 4 + ["rafsi_tarmi", "strip_hyphens", "split_vowel_cluster", "is_zihevla_middle_cluster", "score", "normalize"]
ODD = [(f, "SC", a) for f in ("jvokaha", "jvokaha", "jvokaha2", "get_veljvo", "get_lujvo", "analyze_brivla", "score_lujvo", "grll", "normalize")
       for a in ("", "", " ", "'", "y", "--", "a", "xx", "ъ", "lujvo zo'e", "lujvo  lujvo", "zzz zzz", "bangrxxx")]
POINTS, NOVEL, CALLS, END = range(4)
HOOKS = ["-Cpasses=sancov-module", "-Cllvm-args=-sanitizer-coverage-level=3", "-Cllvm-args=-sanitizer-coverage-trace-pc"]


# hooks in the basic blocks of the library only; the same program wherever it is built
WRAP = """#!/bin/sh
rustc=$1; shift
case " $* " in *" --crate-name latkerlo_jvotci "*|*" --crate-name jvosim_rust "*) ;; *) exec "$rustc" "$@";; esac
hooks=
case " $* " in *" --crate-name latkerlo_jvotci "*) hooks="{hooks}";; esac
for a in "$@"; do
    case $a in metadata=*) a=metadata=jvosim;; esac
    set -- "$@" "$a"; shift
done
exec "$rustc" "$@" --remap-path-prefix={d}=/jvosim $hooks
"""


def flags(k):
    s = {"STANDARD": "S", "ALLOW_Y": "A", "FORCE_Y": "F"}.get(k.get("y_hyphens"), "S")
    s += {"CLUSTER": "C", "TWO_CONSONANTS": "2", "ONE_CONSONANT": "1"}.get(k.get("consonants"), "C")
    return s + "".join(c for c, n in zip("crgz", ("generate_cmevla", "exp_rafsi_shapes", "glides", "allow_mz")) if k.get(n))


def rs_call(c):
    """The Rust call that says what a Python call says: (name, flags, text)."""
    f = c["f"].split(".")[-1]
    f = NAME.get(f, f)
    a, k = list(c["a"]), dict(c["k"])
    if len(a) > 1 and c["f"] in lib.TANRU_F + lib.WORD_F:
        k.update(zip((["generate_cmevla"] if c["f"] in lib.TANRU_F else []) + lib.KW, a[1:]))
    if f == "check_zihevla_or_rafsi" and k.get("require_zihevla"):
        f = "check_zihevla"
    a = a[0] if a else ""
    if isinstance(a, list):
        a = " ".join(str(x) for x in a)
    if f not in KNOWN and f != "check_zihevla" or not isinstance(a, str):
        return None
    try:
        a.encode()
    except UnicodeEncodeError:
        return None
    return (f, flags(k), a)


def build(scratch):
    d = os.path.join(scratch, "rl")
    os.makedirs(os.path.join(d, "h", "src"))
    shutil.copytree(os.path.join(core.REPO, "rs"), os.path.join(d, "rs"),
                    ignore=shutil.ignore_patterns("target", "Cargo.lock", "rust-toolchain.toml"))
    p = os.path.join(d, "rs", "Cargo.toml")
    with open(p) as f:
        toml = f.read()
    for name, v in (("indexmap", "2"), ("itertools", "0.15"), ("regex", "1")):
        toml = re.sub(rf'(?m)^{name} = .*$', f'{name} = "{v}"', toml)
    with open(p, "w") as f:
        f.write(toml)
    with open(os.path.join(d, "h", "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "jvosim-rust"\nversion = "0.1.0"\nedition = "2024"\n'
                '[dependencies]\nlatkerlo-jvotci = { path = "../rs" }\n'
                '[profile.dev]\ndebug = 0\noverflow-checks = false\ndebug-assertions = false\nincremental = false\n')
    shutil.copy(os.path.join(core.VERIF, "rust", "main.rs"), os.path.join(d, "h", "src", "main.rs"))
    subprocess.run(["gcc", "-O1", "-c", os.path.join(core.VERIF, "rust", "sched.c"), "-o", os.path.join(d, "sched.o")], check=True)
    wrap = os.path.join(d, "wrap.sh")
    with open(wrap, "w") as f:
        f.write(WRAP.format(d=d, hooks=" ".join(HOOKS)))
    os.chmod(wrap, 0o755)
    last = ""
    for cfg in (["--cfg", "more"], []):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_NET_OFFLINE="true", RUSTC_WRAPPER=wrap,
                   RUSTFLAGS=" ".join([f"-Clink-arg={d}/sched.o", "-Clink-arg=-rdynamic", "-Awarnings"] + cfg))
        env.pop("LD_PRELOAD", None)
        q = subprocess.run(["cargo", "+nightly", "build", "--offline"], cwd=os.path.join(d, "h"), env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode == 0:
            path = os.path.join(d, "target", "debug", "jvosim-rust")
            list_sync(path)
            return path
        last = q.stdout.decode(errors="replace")[-3000:]
    raise core.HarnessError("the Rust library does not build:\n" + last)


def list_sync(path):
    """Where in the program the code of locks, cells and atomics is, relative to the scheduler's variable nt."""
    syms = [w.split() for w in subprocess.run(["nm", "-nS", path], check=True, capture_output=True, text=True).stdout.splitlines()]
    base = next(int(w[0], 16) for w in syms if w[-1] == "nt")
    with open(path + ".sync", "w") as f:
        for w in syms:
            if len(w) == 4 and w[2] in "tTwW" and re.search("Mutex|RwLock|Condvar|OnceLock|4Once|mpsc|LocalKey|RefCell|4cell|6atomic|4sync", w[3]) \
                    and "LazyLock" not in w[3]:
                f.write(f"{int(w[0], 16) - base} {int(w[1], 16)}\n")


class Server:
    """The harness process; every request runs in a fork of it, in which nothing of the library has run before."""

    def __init__(self, path):
        self.path = path
        self.p = None
        self.table = {}

    def ask(self, case):
        if self.p is None:
            fixed = ["/usr/bin/setarch", "-R"]          # the same addresses every time, where the sandbox allows it
            if subprocess.run(fixed + ["true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                fixed = []
            self.p = subprocess.Popen(fixed + [self.path, self.path + ".sync"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                      text=True, encoding="ascii", env={"PATH": "/usr/bin:/bin"},
                                      preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        cap = 20_000_000 if sum(map(len, case["threads"])) == 1 else 5_000_000 + 2 * sum(self.alone(c)[2] for calls in case["threads"] for c in calls)
        m = [f"run {case['seed']} {case['gap']} {case['rare']} {case['sync']} {case['spurious']} {case['wall']} {cap}"]
        m += [f"seg {t} {k} {n}" for t, k, n in case["script"]]
        for calls in case["threads"]:
            m.append("thread")
            m += [f"call {f} {s} {a.encode().hex()}" for f, s, a in calls]
        self.p.stdin.write("\n".join(m) + "\ngo\n")
        self.p.stdin.flush()
        out = {"o": [[None] * len(c) for c in case["threads"]], "novel": [], "points": [], "log": [], "end": None}
        while out["end"] is None:
            w = self.p.stdout.readline().split()
            if not w:
                raise core.HarnessError("the harness process ended")
            if w[0] == "o":
                out["o"][int(w[1])][int(w[2])] = bytes.fromhex(w[3]).decode()
            elif w[0] == "t":
                out["points"].append(int(w[2]))
                out["novel"].append(int(w[3]))
            elif w[0] == "l":
                out["log"] = [tuple(map(int, x.split(":"))) for x in w[1:]]
            elif w[0] == "s":
                out["stats"] = list(map(int, w[1:]))
            elif w[0] == "end":
                out["end"] = int(w[1])
            elif w[0] == "died":
                out["end"] = ("died", os.waitstatus_to_exitcode(int(w[1])))
        return out

    def alone(self, call):
        """(outcome, first visits to basic blocks, basic blocks) of the call as the only one of a process."""
        if call not in self.table:
            r = self.ask({"seed": 1, "gap": 0, "rare": 0, "sync": 0, "spurious": 0, "wall": 17 * 10 ** 8, "script": [], "threads": [[call]]})
            if r["end"] != 0:
                self.table[call] = (f"ended {r['end']}", 0, 0)
            else:
                self.table[call] = (r["o"][0][0], r["novel"][0], r["points"][0])
        return self.table[call]

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()


def pieces(rng, w):
    """A word as a list of pieces, as the functions for lists take it."""
    c = [p for p in re.split(r"('?y'?|-| )", w) if p.strip()] or [w]
    if rng.random() < .5:
        c += [rng.choice(["y", "'y", "r"]), rng.choice(["zda", "klama", "gerku", "jamza"])]
    return " ".join(c)


class Pool:
    def __init__(self, seed, n):
        rng = core.rng_for(seed, "C27", "pool")
        c = lib.Corpus(rng)
        self.fams = []
        while len(self.fams) < n:
            x = rng.random()
            fam = c.tie_family(6) if x < .06 else c.family(8) if x < .5 else c.pair_family(8)
            fam = [j for j in (rs_call(q) for q in fam) if j]
            w = next((a for f, s, a in fam), "zda").replace("-", " ").split() or ["zda"]
            for _ in range(2):
                p = rng.choice(w)
                i = rng.randrange(max(1, len(p) - 2))
                fam.append((rng.choice(SMALL), "SC", p[i:i + rng.choice([3, 4, 5])]))
            if rng.random() < .4:
                f, s, a = rng.choice(fam)
                fam.append((rng.choice(LISTS), s, pieces(rng, a)))
            self.fams.append(fam)
        # pairs of calls that differ in one respect, and as far as is known in their outcomes, by that respect and function
        self.pairs = []
        for key in sorted(c.groups):
            g = []
            for a, b in c.groups[key]:
                a, b = rs_call(a), rs_call(b)
                if a and b and a != b:
                    g.append((a, b))
                    if key[1] == "is_brivla":
                        x = pieces(rng, a[2])
                        g.append((("selrafsi_list_from_rafsi_list", a[1], x), ("selrafsi_list_from_rafsi_list", b[1], x)))
            if g:
                self.pairs.append(rng.sample(g, min(len(g), 40)))
        self.by_function = {}
        for fam in self.fams:
            for call in fam:
                self.by_function.setdefault(call[0], []).append(call)


def gen(pool, seed, i, server):
    r = core.rng_for(seed, "C27", "run", i)
    fams = pool.fams
    mine = [r.choice(fams) for _ in range(r.choice([1, 1, 2, 3]))]
    odd = r.choice([0, 0, .02, .1])                     # calls that panic or are refused early
    pick = lambda: (r.choice(ODD)[:1] + (r.choice(["SC", "ACcrgz"]),) + r.choice(ODD)[2:]) if r.random() < odd else r.choice(r.choice(mine))
    case = {"seed": core.h64(seed, "C27", i) & 0x7FFFFFFFFFFF, "gap": 0, "rare": 0, "sync": 0, "spurious": 0, "wall": r.choice([17 * 10 ** 8, 1, 4 * 10 ** 9]), "script": []}
    x = r.random()
    if i % 300 == 7:                                    # a long history, every other one mostly of one function on many words
        mine += r.sample(fams, min(len(fams), 60))
        case["threads"] = [[pick() for _ in range(r.choice([300, 900]))]]
        if i // 300 % 2:
            f = MAIN[i // 600 % len(MAIN)]
            case["threads"] = [[(f,) + c[1:] for c in (r.choice(r.choice(fams)) for _ in range(900))] + [pick() for _ in range(20)]]
        return case
    if i % 8 == 3:                                      # calls that differ in one respect, after one another or at the same time
        g = pool.pairs[i // 8 % len(pool.pairs)]
        k = r.choice([1, 1, 2, 4])
        calls = [c[r.randrange(2)] for c in (r.choice(g) for _ in range(k))] + list(r.sample(r.choice(g), 2))
        case["threads"] = [calls + calls[:2]]
        if i // 8 // len(pool.pairs) % 2:
            case["threads"] = [calls, list(reversed(calls))]
            case["gap"], case["rare"] = r.choice([(0, 300), (30, 0), (1000, 0), (0, 2000), (0, 50)])
            case["sync"] = r.choice([0, 120, 300]) if case["rare"] else 0
        return case
    if i % 8 == 6:                                      # a few functions, again and again, in every thread
        fs = [r.choice(MAIN) for _ in range(2)]
        case["threads"] = []
        for t in range(r.choices([2, 3, 4], [5, 2, 1])[0]):
            few = []
            for f in fs[t % 2:] + fs[:1]:
                few += r.sample(pool.by_function[f], min(len(pool.by_function[f]), 6))
            x = r.randrange(3)
            if x:                                       # cheap ones, or ones that go well
                few.sort(key=lambda c: server.alone(c)[2] if x == 1 else not server.alone(c)[0].startswith("ok"))
                few = few[:r.choice([2, 4])]
            case["threads"].append([r.choice(few) for _ in range(r.choice([4, 8, 16]))])
        case["rare"], case["gap"] = r.choice([(3, 0), (30, 0), (100, 0), (100, 0), (500, 0), (3000, 0), (0, 30), (0, 500)])
        case["sync"] = r.choice([0, 120, 300, 300]) if not case["gap"] else 0
        case["spurious"] = r.choice([0, 0, 300])
        return case
    if x < .12:                                         # a history in one thread
        case["threads"] = [[pick() for _ in range(r.choice([3, 6, 12, 40]))]]
        return case
    n = r.choices([2, 3, 4], [6, 2, 1])[0]
    case["threads"] = [[pick() for _ in range(r.choices([1, 2, 4, 10], [5, 4, 2, 1])[0])] for _ in range(n)]
    if r.random() < .3:
        case["threads"][1] = list(case["threads"][0])
    if x < .62:                                         # a few switches, at first visits to basic blocks or at any
        done = [0] * n
        if r.random() < .45:                            # what happens once has happened
            for t in range(n):
                case["threads"][t].insert(0, pick())
                case["script"].append((t, CALLS, 1))
                done[t] = 1
        for _ in range(r.choice([1, 1, 2, 2, 3, 5])):
            t = r.randrange(n)
            if r.random() < .5:
                k = server.alone(case["threads"][t][0])
                size = max(2, k[1]) if r.random() < .6 else 30 + k[1] // 4
                base = k[1] * .85 if done[t] else 0
                case["script"].append((t, NOVEL, int(base + r.randrange(1, size))))
            else:
                size = sum(server.alone(c)[2] for c in case["threads"][t]) or 2
                base = server.alone(case["threads"][t][0])[2] if done[t] else 0
                case["script"].append((t, POINTS, min(10 ** 9, int(base + 10 ** r.uniform(0, max(.5, len(str(size))))))))
        order = list(range(n))
        r.shuffle(order)
        case["script"] += [(t, END, 0) if r.random() < .7 else (t, CALLS, 1 + done[t]) for t in order[:r.choice([1, n, n])]]
        case["gap"] = r.choice([0, 300])
    else:
        case["gap"], case["rare"] = (int(10 ** r.uniform(.3, 4.5)), 0) if r.random() < .6 else (0, int(10 ** r.uniform(1, 3.7)))
        case["sync"] = r.choice([0, 30, 120, 300]) if case["rare"] else 0
    case["spurious"] = r.choice([0, 0, 300])
    return case


def show(c):
    return f"{c[0]}({c[2]!r}) with settings {c[1]}"


def judge(case, out, server):
    """The first thing wrong, as (kind, text), or None."""
    for t, (calls, got) in enumerate(zip(case["threads"], out["o"])):
        for n, (c, o) in enumerate(zip(calls, got)):
            if o is None:
                continue
            e = server.alone(c)[0]
            if o != e:
                return ("wrong", f"thread {t}, call {n}: {show(c)} gave {o}, alone in a fresh process {e}")
    if out["end"] != 0:
        unable = [c for calls in case["threads"] for c in calls if server.alone(c)[0].startswith("ended")]
        if unable:
            return None         # a call that ends the process by itself says nothing about other calls
        if out["end"] == 1:
            w = [(t, g.index(None)) for t, g in enumerate(out["o"]) if None in g]
            return ("stuck", "no thread can go on: " + "; ".join(f"thread {t} in {show(case['threads'][t][n])}" for t, n in w))
        if out["end"] == 2:
            return ("endless", "the threads do not come to an end within several times the steps they take alone")
        return ("died", f"the process died: {out['end'][1]}")
    return None


def main(ck):
    path = build(ck.scratch)
    pool = Pool(ck.seed, ck.scale(400, 3000))
    n = ck.scale(14_000, 600_000)
    box = {}

    def one(i):
        if "s" not in box:
            box["s"] = Server(path)
        s = box["s"]
        case = gen(pool, ck.seed, i, s)
        out = s.ask(case)
        v = judge(case, out, s)
        st = out.get("stats", [0] * 5)
        mid = st[1] > 2 * len(case["threads"])
        words = [c[2] for c in case["threads"][0]]
        counts = {"runs": 1, "calls": sum(map(len, case["threads"])), "switches": st[1], "futex_waits": st[2], "spurious_wakeups": st[3],
                  "pairs": int(i % 8 == 3), "scripted": int(bool(case["script"])), "histories": int(len(case["threads"]) == 1), "basic_blocks": sum(out["points"]),
                  "panics_in_calls": sum(bool(o) and o.startswith("panic") for g in out["o"] for o in g)}
        res = {"counts": counts}
        if mid or len(case["threads"]) > 1 or len(set(words)) < len(words):
            res["digest"] = core.h64(repr(case["threads"]) + repr(out["log"]))
        if i < 3:
            res["sample"] = {k: case[k] for k in ("gap", "rare", "sync", "script", "threads")}
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(110, 2400))
    core.check_harness_errors(results)
    for i, (v, case) in sorted((i, r["violation"]) for i, r in results.items() if r.get("violation"))[:1]:
        s = Server(path)
        small, x = shrink(case, v, s)
        ck.report(v[0], f"run {i}: {x[1]}", small)
        s.close()
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(
        len(results), len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
        [r["sample"] for i, r in sorted(results.items()) if r.get("sample")], counts=counts,
        runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
        faults={k: counts.get(k, 0) for k in ("switches", "futex_waits", "spurious_wakeups", "panics_in_calls")},
        simulated_time="virtual clock, 10 ns per basic block and on to the next timer when all threads wait",
        real_code="rs/src compiled with a hook in every basic block, the Rust standard library, regex and the other dependencies",
        stubs="the kernel's futexes, thread scheduler, clock, sleep and random numbers (rust/sched.c); memory is sequentially consistent")


def shrink(case, v, s):
    t_end = core._monotonic() + 60

    def fails(c):
        if core._monotonic() > t_end:
            return None
        x = judge(c, s.ask(c), s)
        return x if x and x[0] == v[0] else None

    def norm(flat, c):
        th = [[] for _ in c["threads"]]
        for t, call in flat:
            th[t].append(call)
        return dict(c, threads=[x for x in th])
    flat = [(t, c) for t, calls in enumerate(case["threads"]) for c in calls]
    flat = core.ddmin(flat, lambda f: fails(norm(f, case)) is not None, 150)
    small = norm(flat, case) if fails(norm(flat, case)) else case
    if small["script"]:
        sc = core.ddmin(small["script"], lambda q: fails(dict(small, script=q)) is not None, 60)
        if fails(dict(small, script=sc)):
            small = dict(small, script=sc)
    else:
        log = s.ask(small)["log"]
        q = dict(small, script=[(t, POINTS, p) for t, p in log], gap=0, rare=0, sync=0)
        if len(log) < 400 and fails(q):
            sc = core.ddmin(q["script"], lambda z: fails(dict(q, script=z)) is not None, 150)
            small = dict(q, script=sc) if fails(dict(q, script=sc)) else q
    x = judge(small, s.ask(small), s)
    return (small, x) if x else (case, v)


def replay(data):
    case = data["case"]
    case["threads"] = [[tuple(c) for c in calls] for calls in case["threads"]]
    d = tempfile.mkdtemp(prefix="jvosim-C27-")
    try:
        s = Server(build(d))
        v = judge(case, s.ask(case), s)
        s.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return v[1] if v else None

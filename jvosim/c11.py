"""C11: generated files are a function of the input, and the four tables agree."""
import ast
import json
import os
import pickle
import re
import subprocess
import sys

from . import core, gensim
from .c09 import dec, enc
from .repl import shorten

RULE = ("a case is one input and 2-4 runs of a generator script in separate interpreters that differ in hash seed, flags, locale, environment, "
        "clock, delivery of the response, previous contents of the outputs and earlier aborted runs; every case is non-trivial; "
        "distinct: by script, input and configurations")


READ = []       # environment variables the scripts themselves ask for, found by a pilot


def find_environment(env):
    names = set()
    for script in ("make_rafsi_list.py", "make_dictionary_test_list.py", "make_js_tests.py"):
        for k in range(3):
            r = core.rng_for(k, "C11", "names")
            inp = an_input(r, script)
            cfg = gen_config(r, script, inp)
            t = gensim.Tree(env.scratch, env.source, {})
            try:
                for p, b in inp["files"].items():
                    t.put(p, b)
                net = dict(gensim.GOOD_NET, responses=[gensim.http(200, inp["body"])]) if inp["body"] else None
                names |= set(env.execute(t, script, cfg, net, None, True).get("names", ()))
            finally:
                t.remove()
    READ[:] = sorted(n for n in names if n and "=" not in n and not n.startswith(("LD_", "PYTHON", "SIM_", "JVOSIM")) and n not in ("PATH", "HOME"))


def gen_config(r, script, other):
    flags = []
    if r.random() < .3:
        flags.append(r.choice(["-O", "-OO", "-B", "-u"]))
    env = {"PYTHONHASHSEED": str(r.choice([0, 1, r.randrange(1 << 32), r.randrange(1 << 32)])), "PATH": "/usr/bin:/bin", "HOME": "/nonexistent"}
    x = r.random()
    if x < .25:
        env.update(LC_ALL=r.choice(["C", "POSIX"]), PYTHONCOERCECLOCALE="0", PYTHONUTF8="0")
    elif x < .4:
        env.update(LC_ALL="C.UTF-8")
    elif x < .5:
        env.update(LANG="tr_TR.UTF-8", PYTHONUTF8="1")
    if r.random() < .4:
        env["TZ"] = r.choice(["UTC", "Pacific/Kiritimati", "America/St_Johns"])
    if r.random() < .3:
        env[r.choice(["USER", "DEBUG", "LANGUAGE", "COLUMNS", "JBOVLASTE"])] = r.choice(["1", "", "jbo"])
    for k in READ:
        if r.random() < .5:
            env[k] = r.choice(["", "0", "1", "2", "10", "x", "en", "jbo", "yes", "-1"])
    clock = r.choice([1, 951782400, 1700000000, 2147483647, 4102444800, r.randrange(1, 1 << 32)])
    env.update(SIM_CLOCK=str(clock), SIM_CLOCK_STEP=str(r.choice([1, 1000, 10 ** 9])), SIM_RANDOM=str(r.randrange(1 << 60)),
               SIM_PID=str(r.randrange(2, 1 << 22)))
    aborted = []
    for _ in range(r.choice([0, 0, 1, 2])):
        aborted.append({"kind": r.choice(["kill_before", "kill_after", "kill_mid", "fail"]), "at": r.randrange(1, 18), "part": r.choice([1, 50, 99]),
                        "err": 28, "times": r.choice([1, 10 ** 6]), "other": r.random() < .6})
    return {"flags": flags, "env": env, "clock": clock, "rng": r.randrange(1 << 30), "files": gensim.previous(r, script), "aborted": aborted,
            "seed": r.randrange(1 << 30)}


def an_input(r, script):
    if script == "make_js_tests.py":
        return {"files": gensim.a_js_input(r), "entries": None, "body": None}
    e = gensim.an_export(r, r.choice([2, 10, 60, 60, 300]))
    return {"files": {}, "entries": e, "body": gensim.export_xml(e, r)}


def gen(seed, i):
    r = core.rng_for(seed, "C11", "run", i)
    script = r.choice(["make_rafsi_list.py", "make_rafsi_list.py", "make_rafsi_list.py", "make_dictionary_test_list.py", "make_js_tests.py"])
    inp, other = an_input(r, script), an_input(r, script)
    runs = []
    for _ in range(r.choice([2, 2, 3, 4])):
        c = gen_config(r, script, other)
        c["delivery"] = {k: v for k, v in gensim.deliver(r, inp["body"]).items()} if inp["body"] else None
        runs.append(c)
    return {"script": script, "input": inp, "other": other, "runs": runs}


class Env:
    def __init__(self, scratch):
        self.scratch = scratch
        self.proc = os.path.join(scratch, "procsim.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", self.proc, os.path.join(core.VERIF, "shim", "procsim.c")], check=True)
        self.node = None
        self.source = gensim.source_tree()

    def execute(self, t, script, cfg, net, disk, pilot=False):
        name = os.path.join(self.scratch, f"job-{os.getpid()}")
        with open(name, "wb") as f:
            pickle.dump({"root": t.root, "script": script, "net": net, "disk": disk, "seed": cfg["seed"], "rng": cfg["rng"], "clock": float(cfg["clock"]),
                         "pilot": pilot}, f)
        env = dict(cfg["env"], LD_PRELOAD=self.proc + " " + os.environ["LD_PRELOAD"], JVOSIM_REPO=core.REPO)
        try:
            p = subprocess.run([sys.executable, "-s"] + cfg["flags"] + [os.path.join(core.VERIF, "jvosim", "gen_exec.py"), name], env=env, cwd="/",
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            return {"code": "stuck", "err": "no end after 120 s", "ops": 0, "fired": 0}
        if p.returncode == gensim.DEAD and disk:
            return {"code": "killed", "err": None, "ops": 0, "fired": 1}
        if p.returncode != 0:
            raise core.HarnessError(f"child: {p.returncode} {p.stderr.decode(errors='replace')[-1500:]}")
        with open(name + ".out", "rb") as f:
            rec = pickle.load(f)
        os.unlink(name + ".out")
        return rec

    def eval(self, src, expr, ts=False):
        if self.node is None:
            env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
            self.node = subprocess.Popen(["node", "--no-warnings", os.path.join(core.VERIF, "jvosim", "tables.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                         text=True, encoding="utf-8", env=env)
        self.node.stdin.write(json.dumps({"src": src, "expr": expr, "ts": ts}) + "\n")
        self.node.stdin.flush()
        line = self.node.stdout.readline()
        if not line:
            raise core.HarnessError("node ended")
        return json.loads(line)


# ------------------------------------------------------------ what the files mean

def rust_table(s):
    """The (word, rafsi) pairs of HashMap::from([...])."""
    m = re.search(r"HashMap::from\(\[(.*)\]\)", s, re.S)
    if not m:
        raise ValueError("no HashMap::from([...])")
    body = re.sub(r"//[^\n]*", "", m.group(1))
    out, pos = [], 0
    string = r'"(?:[^"\\]|\\.)*"'
    item = re.compile(r'\s*\(\s*(%s)\s*,\s*vec!\s*\[\s*((?:%s\s*,?\s*)*)\]\s*,?\s*\)\s*(,|$)' % (string, string))
    while pos < len(body) and body[pos:].strip():
        m = item.match(body, pos)
        if not m:
            raise ValueError(f"not an entry: {body[pos:pos + 60]!r}")
        out.append([json.loads(m.group(1)), [json.loads(x) for x in re.findall(string, m.group(2))]])
        pos = m.end()
    return out


def python_table(s):
    tree = ast.parse(s)
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "RAFSI_LIST" or \
                isinstance(node, ast.AnnAssign) and getattr(node.target, "id", "") == "RAFSI_LIST":
            return [[k, list(v)] for k, v in ast.literal_eval(node.value).items()]
    raise ValueError("no RAFSI_LIST")


def model(entries):
    """word -> set of rafsi, by the documented rules."""
    gim = {w[:4] for w, t, *_ in entries if t == "gismu"}
    table, official, proposed = {}, set(), {}
    for w, t, off, notes, says in entries:
        if t not in ("gismu", "experimental gismu", "cmavo", "experimental cmavo") or t == "experimental gismu" and w[:4] in gim:
            continue
        if "gismu" in t:
            table.setdefault(w, set())
        for x in off:
            official.add(x)
            table.setdefault(w, set()).add(x)
        if says:
            proposed[w] = {x for x in notes if x not in ("zna", "tna", "bda", "mza")}
    for w, l in gensim.EXCEPTIONS.items():
        table.setdefault(w, set()).update(l)
        official.update(l)
    for w, l in proposed.items():
        l = l - official
        if l:
            table.setdefault(w, set()).update(l)
    return table


def judge_tables(env, inp, files):
    t = {}
    dec8 = {p: b.decode("utf-8") for p, b in files.items()}
    try:
        t["Python"] = python_table(dec8["py/latkerlo_jvotci/rafsi.py"])
    except (ValueError, SyntaxError) as e:
        return ("table", f"the Python table cannot be read: {e}")
    for name, p in (("TypeScript", "js/src/rafsi.ts"), ("JavaScript", "js/docs/rafsi.js")):
        v = env.eval(dec8[p], "[...RAFSI_LIST]", ts=p.endswith(".ts"))
        if "err" in v:
            return ("table", f"the {name} table cannot be read: {v['err']}")
        t[name] = v["ok"]
    try:
        t["Rust"] = rust_table(dec8["rs/src/rafsi.rs"])
    except ValueError as e:
        return ("table", f"the Rust table cannot be read: {e}")
    ref = t["Python"]
    for n, v in t.items():
        words = [w for w, _ in v]
        if len(set(words)) != len(words):
            return ("table", f"the {n} table has a word twice: {[w for w in words if words.count(w) > 1][:3]}")
        a, b = dict(map(lambda x: (x[0], x[1]), ref)), dict(map(lambda x: (x[0], x[1]), v))
        if a != b:
            d = [w for w in sorted(set(a) | set(b)) if a.get(w) != b.get(w)][0]
            return ("tables differ", f"the Python table has {d}: {a.get(d)}, the {n} table {b.get(d)}")
    want = model(inp["entries"])
    got = {w: set(l) for w, l in ref}
    for w, l in ref:
        if len(set(l)) != len(l):
            return ("table", f"{w} has a rafsi twice: {l}")
    if got != want:
        d = [w for w in sorted(set(got) | set(want)) if got.get(w) != want.get(w)][0]
        e = [x for x in inp["entries"] if x[0] == d]
        return ("content", f"{d} has {sorted(got[d]) if d in got else 'no entry'}, the export (word, type, official, proposed, under 'rafsi') {e} calls for "
                           f"{sorted(want[d]) if d in want else 'no entry'}")
    return None


def judge_words(inp, files):
    v = json.loads(files["tests/jvs_words.json"].decode("utf-8"))
    kind = {"gismu": "GISMU", "experimental gismu": "GISMU", "lujvo": "LUJVO", "fu'ivla": "ZIhEVLA"}
    want = {"GISMU": [], "LUJVO": [], "ZIhEVLA": [], "OTHER": []}
    for w, t, *_ in inp["entries"]:
        want[kind.get(t, "OTHER")].append(w)
    for k in want:
        if sorted(v.get(k, [])) != sorted(want[k]):
            d = sorted(set(want[k]) ^ set(v.get(k, [])))[:3]
            return ("content", f"{k} is not the list of such entries of the export: {d or 'a word occurs a different number of times'}")
    return None


def judge_js(env, inp, files):
    src = files["tests/js_tests.js"].decode("utf-8")
    v = env.eval(src, "({l: [BASIC_TEST_LIST, JVOZBA_TEST_LIST, KATNA_TEST_LIST], w: [...JVS_WORDS]})")
    if "err" in v:
        return ("content", f"tests/js_tests.js cannot be read: {v['err']}")
    for n, got in zip(gensim.LISTS, v["ok"]["l"]):
        want = []
        for line in inp["files"][f"tests/{n}.tsv"].decode("utf-8").split("\n"):
            row = line.split("\t")
            if len(row) < 2 and not row[0].startswith("#") and row[0]:
                got = [g for g in got if g != row]       # one cell: used or not, the tests need two
                continue
            if len(row) < 2 or not row[0] and not row[1] or row[0][:1] in ("#", ""):
                continue
            want.append(row)
        if got != want:
            d = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            return ("content", f"{n.upper()} has {len(got)} rows, {n}.tsv {len(want)}; first difference at {d}: {got[d:d + 1]} / {want[d:d + 1]}")
    words = json.loads(inp["files"]["tests/jvs_words.json"].decode("utf-8"))
    if v["ok"]["w"] != [[k, x] for k, x in words.items()]:
        return ("content", "JVS_WORDS is not what tests/jvs_words.json holds")
    return None


def run_case(case, env):
    first, stats = None, {"script_runs": 0, "aborted": 0}
    script = case["script"]
    for n, cfg in enumerate(case["runs"]):
        t = gensim.Tree(env.scratch, env.source, cfg["files"])
        try:
            for a in cfg["aborted"]:
                src = case["other"] if a["other"] else case["input"]
                for p, b in src["files"].items():
                    t.put(p, b)
                net = dict(gensim.GOOD_NET, responses=[gensim.http(200, src["body"])]) if src["body"] else None
                rec = env.execute(t, script, cfg, net, {"kind": gensim.KINDS[a["kind"]], "at": a["at"], "part": a["part"], "err": a["err"], "times": a["times"]})
                stats["script_runs"] += 1
                stats["aborted"] += rec["fired"] > 0
            for p, b in case["input"]["files"].items():
                t.put(p, b)
            net = dict(gensim.GOOD_NET, **cfg["delivery"]) if cfg["delivery"] else None
            rec = env.execute(t, script, cfg, net, None)
            stats["script_runs"] += 1
            after = t.state(script)
        finally:
            t.remove()
        conf = f"(flags {cfg['flags']}, environment { {k: v for k, v in cfg['env'].items() if not k.startswith('SIM')} }, clock {cfg['clock']}, " \
               f"aborted runs before {len(cfg['aborted'])})"
        if rec["code"] != 0:
            return ("failed", f"{script}: run {n + 1} fails on a good input: {rec['err']} {conf}"), stats
        if first is None:
            first = after
            if any(b is None for b in after.values()):
                return ("missing", f"{script}: exit status 0 without {[p for p, b in after.items() if b is None]}"), stats
            try:
                v = judge_tables(env, case["input"], after) if script == "make_rafsi_list.py" else judge_words(case["input"], after) \
                    if script == "make_dictionary_test_list.py" else judge_js(env, case["input"], after)
            except (UnicodeDecodeError, json.JSONDecodeError) as e:
                v = ("content", f"a generated file cannot be read: {e}")
            if v:
                return (v[0], f"{script}: {v[1]}"), stats
        elif after != first:
            p = [p for p in after if after[p] != first[p]][0]
            a, b = first[p] or b"", after[p] or b""
            d = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
            return ("differs", f"{script}: run {n + 1} {conf} wrote another {p} than run 1 from the same input: "
                               f"{shorten(a[max(0, d - 30):d + 30])} / {shorten(b[max(0, d - 30):d + 30])}"), stats
    return None, stats


def minimise(case, env, fp):
    def fails(c):
        v, _ = run_case(c, env)
        return v is not None and v[0] == fp
    best = case
    if len(best["runs"]) > 2:
        for k in range(1, len(case["runs"])):
            c = dict(case, runs=[case["runs"][0], case["runs"][k]])
            if fails(c):
                best = c
                break
    for k in range(len(best["runs"])):
        for change in ({"aborted": []}, {"flags": []}, {"files": {}}, {"env": {"PYTHONHASHSEED": "0", "PATH": "/usr/bin:/bin"}},
                       {"env": {"PYTHONHASHSEED": best["runs"][k]["env"].get("PYTHONHASHSEED", "0"), "PATH": "/usr/bin:/bin"}}):
            runs = list(best["runs"])
            runs[k] = dict(runs[k], **change)
            c = dict(best, runs=runs)
            if fails(c):
                best = c
    return best


def main(ck):
    gensim.with_shim()
    env = Env(ck.scratch)
    n = ck.scale(500, 40_000)
    find_environment(env)

    def one(i):
        case = gen(ck.seed, i)
        v, st = run_case(case, env)
        c = {"cases": 1, "script_runs": st["script_runs"], "aborted_runs": st["aborted"], "hash_seeds": len({x["env"]["PYTHONHASHSEED"] for x in case["runs"]}),
             "ascii_locale": sum(x["env"].get("PYTHONUTF8") == "0" for x in case["runs"]), "script_" + case["script"]: 1}
        res = {"counts": c, "digest": core.h64(repr(case))}
        if i < 3:
            res["sample"] = {"script": case["script"], "runs": [{"env": x["env"], "flags": x["flags"], "aborted": x["aborted"]} for x in case["runs"]]}
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(90, 2400))
    core.check_harness_errors(results)
    for i, r in sorted(results.items()):
        if r.get("violation"):
            v, case = r["violation"]
            small = minimise(case, env, v[0])
            v2, _ = run_case(small, env)
            if v2:
                v, case = v2, small
            ck.report(v[0], f"run {i}: {v[1]}", enc(case))
            break
    gensim.drop_shim()
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(counts["script_runs"], len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
                     [r["sample"] for i, r in sorted(results.items()) if r.get("sample")], counts=counts, environment_names_read=READ,
                     runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
                     faults={k: counts.get(k, 0) for k in ("aborted_runs", "hash_seeds", "ascii_locale")},
                     simulated_time="clocks start between 1970 and 2106; response delays advance them",
                     real_code="the three generator scripts and what they import, in real, separate CPython processes; node evaluates the tables",
                     stubs="the network, clock, getrandom, getpid; libc file calls pass through a fault layer")


def replay(data):
    gensim.with_shim()
    import tempfile, shutil
    base = tempfile.mkdtemp(prefix="jvosim-C11-")
    try:
        v, _ = run_case(dec(data["case"]), Env(base))
    finally:
        shutil.rmtree(base, ignore_errors=True)
        gensim.drop_shim()
    return v[1] if v else None

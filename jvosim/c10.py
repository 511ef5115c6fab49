"""C10: generated files are never torn, and a rerun repairs everything."""
from . import core, gensim
from .c09 import dec, enc
from .repl import shorten

RULE = ("a case is a sequence of 1-3 runs of one generator script, each with its own good input and one or two disk or process faults at "
        "seeded operations (killed before, in the middle of or after a file operation, an operation that fails (and death while the script deals with that), a short write, a full disk, "
        "an interrupted call, Ctrl-C, a failed allocation), then a run without faults; non-trivial: at least one fault struck while files were "
        "being written; distinct: by script, operations and kinds struck")
ERRNO = {"ENOSPC": 28, "EIO": 5, "EDQUOT": 122, "EROFS": 30, "EACCES": 13, "EMFILE": 24, "EFBIG": 27, "EBUSY": 16, "ENOMEM": 12, "EXDEV": 18, "EPERM": 1, "EINTR": 4}


def gen(seed, i):
    r = core.rng_for(seed, "C10", "run", i)
    if i < 14 * STRATA:
        return stratum(r, seed, i)
    script = r.choice(["make_rafsi_list.py", "make_rafsi_list.py", "make_dictionary_test_list.py", "make_js_tests.py"])
    size = r.choice([1, 5, 40, 40, 400, 1500]) if script != "make_dictionary_test_list.py" else r.choice([1, 40, 400, 1500])
    inputs = []
    for _ in range(r.choice([1, 2, 2])):
        if script == "make_js_tests.py":
            inputs.append({"files": gensim.a_js_input(r), "net": None})
        else:
            body = gensim.export_xml(gensim.an_export(r, r.choice([size, size, 3])), r)
            inputs.append({"files": {}, "net": dict(gensim.GOOD_NET, **gensim.deliver(r, body))})
    faults = []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choices(["kill_before", "kill_mid", "kill_after", "fail", "short", "full", "eintr", "ctrl_c", "line"], [4, 4, 4, 5, 1, 3, 1, 2, 2])[0]
        faults.append({"input": r.randrange(len(inputs)), "kind": k, "place": r.random(), "times": r.choice([1, 1, 2, 10 ** 6]),
                       "part": r.choice([0, 1, 10, 50, 90, 99]), "err": r.choice(sorted(ERRNO)),
                       "exc": r.choice(["KeyboardInterrupt", "MemoryError"])})
        if k == "fail" and r.random() < .5:
            # what the script does about the failure is struck as well
            faults[-1]["then"] = [r.choice(["kill_before", "kill_mid", "kill_mid", "kill_after"]), r.choice([1, 1, 2, 2, 3, 4, 6]), r.choice([1, 50, 99])]
            faults[-1]["times"] = 1
        if k in ("fail", "kill_before", "kill_after", "ctrl_c") and r.random() < .4:
            faults[-1]["op"] = r.choice(["rename", "rename", "open"])
    return {"script": script, "files": gensim.previous(r, script), "inputs": inputs, "faults": faults, "last": r.randrange(len(inputs)),
            "like_new": like_new(r), "seed": core.h64(seed, "C10", "s", i)}


def like_new(r):
    """Previous outputs that look like what the (last) run is to write."""
    return r.choice([None, None, "flip", "flip", "cut", "more", "same", "rest"])


def resemble(how, b, x):
    if not b or how == "same":
        return b
    n = int(x * len(b))
    if how == "flip":
        return b[:n] + bytes([b[n] ^ 1]) + b[n + 1:]
    if how == "cut":
        return b[:n]
    if how == "more":
        return b + b[n:]
    return b"x" + b[1:]


STRATA = 50


def stratum(r, seed, i):
    """One fault on large outputs (several writes to each file), its place drawn from the i-th part of the run."""
    k, script, times = [("fail", 0, 1), ("fail", 1, 1), ("fail", 2, 1), ("fail", 0, 1), ("kill_before", 0, 1), ("kill_mid", 0, 1), ("short", 0, 1),
                        ("fail", 0, 10 ** 6), ("full", 0, 1), ("line", 0, 1), ("fail", 0, 1), ("fail", 0, 1), ("fail", 1, 1), ("fail", 2, 1)][i // STRATA]
    script = ["make_rafsi_list.py", "make_dictionary_test_list.py", "make_js_tests.py"][script]
    if script == "make_js_tests.py":
        inp = {"files": gensim.a_js_input(r), "net": None}
    else:
        inp = {"files": {}, "net": dict(gensim.GOOD_NET, responses=[gensim.http(200, gensim.export_xml(gensim.an_export(r, 1500), r))])}
    f = {"input": 0, "kind": k, "place": (i % STRATA + r.random()) / STRATA, "times": times, "part": r.choice([0, 1, 50, 99]),
         "err": r.choice(["ENOSPC", "EIO"]), "exc": "KeyboardInterrupt"}
    if i >= 10 * STRATA:
        # a file cannot take its place, and the script dies while it deals with that
        f["op"] = "rename"
        f["err"] = r.choice(["EXDEV", "EXDEV", "EACCES", "EPERM", "EBUSY", "ENOSPC", "EIO"])
        f["then"] = [r.choice(["kill_before", "kill_mid", "kill_after"]), r.choice([1, 2, 2, 3, 4]), r.choice([1, 50, 99])]
        f["place"] = r.random()
    return {"script": script, "files": gensim.previous(r, script), "inputs": [inp], "faults": [f], "last": 0, "like_new": like_new(r),
            "seed": core.h64(seed, "C10", "s", i)}


def one_run(t, case, which, disk=None, line=None):
    inp = case["inputs"][which]
    for p, b in inp["files"].items():
        t.put(p, b)
    return gensim.run_script(t, case["script"], inp["net"], disk, case["seed"], line=line)


def run_case(case, source, base):
    script = case["script"]
    new, ops, lines, sizes, logs = {}, {}, {}, {}, {}
    stats = {"struck": [], "sim": 1, "kinds": {}, "failed": 0, "killed": 0}
    for w in sorted({f["input"] for f in case["faults"]} | {case["last"]}):
        t = gensim.Tree(base, source, case["files"])
        try:
            rec = one_run(t, case, w, line=(-1, "MemoryError"))
            if rec["code"] != 0:
                return ("baseline", f"{script}: fails on a good input without faults: {rec['err']}"), stats
            new[w], ops[w], lines[w] = t.state(script), rec["ops"], rec["lines"]
            logs[w] = [x.split(" ")[0] for x in rec["log"].split("; ")]
            sizes[w] = sum(len(b or b"") for b in new[w].values())
            # a plain run may take a different number of operations from the place numbers below: nothing depends on it
        finally:
            t.remove()
    t = gensim.Tree(base, source, case["files"])
    try:
        if case.get("like_new"):
            for p, b in new[case["last"]].items():
                t.put(p, resemble(case["like_new"], b, (case["seed"] % 997) / 997))
        for n, f in enumerate(case["faults"]):
            w = f["input"]
            at = 1 + int(f["place"] * ops[w])
            named = [j for j, x in enumerate(logs[w]) if x == f.get("op")]
            if named:
                at = 1 + named[int(f["place"] * len(named))]
            disk, line = {"at": at}, None
            k = f["kind"]
            if k == "full":
                disk = {"budget": int(f["place"] * (sizes[w] + 1))}
            elif k == "line":
                # towards the end, where the files are written
                line = (1 + int(lines[w] * (1 - (1 - f["place"]) ** 2)), f["exc"])
            else:
                disk.update(kind=gensim.KINDS[k], times=f["times"], part=f["part"], err=ERRNO[f["err"]])
                if f.get("then"):
                    disk["then"] = [gensim.KINDS[f["then"][0]]] + f["then"][1:]
            before = t.state(script)
            rec = one_run(t, case, w, disk if k != "line" else None, line)
            stats["sim"] += 1
            where = f"{script}, run {n + 1}, {k}" + (f" {f['err']}" if k == "fail" else f" {f['exc']}" if k == "line" else "") + \
                    (f" at line event {line[0]} of {lines[w]}" if line else f" after {disk['budget']} bytes" if k == "full" else f" at file operation {at} of {ops[w]}") + \
                    (f" ({rec['log'].split('; ')[-1]})" if rec["log"] else "")
            if rec["code"] == "stuck":
                return ("stuck", f"{where}: {rec['err']}"), stats
            after = t.state(script)
            if rec["fired"]:
                stats["struck"].append((k, at if k != "line" else -1))
                stats["kinds"][k] = stats["kinds"].get(k, 0) + 1
            stats["killed"] += rec["code"] == "killed"
            stats["failed"] += rec["code"] not in (0, "killed")
            for p in after:
                if after[p] not in (before[p], new[w][p]):
                    return ("torn", f"{where}: afterwards {p} is neither its previous content ({length(before[p])}) nor the complete new one "
                                    f"({length(new[w][p])}), but {length(after[p])}: ...{shorten((after[p] or b'')[-60:])}"), stats
            if rec["code"] == 0:
                missing = [p for p in after if after[p] != new[w][p]]
                if missing:
                    return ("success", f"{where}: exit status 0, but {missing} was not written"), stats
            elif not rec["fired"]:
                return ("baseline", f"{where}: it failed although no fault struck: {rec['err']}"), stats
        w = case["last"]
        rec = one_run(t, case, w)
        if rec["code"] != 0:
            return ("rerun", f"{script}: after {[f['kind'] for f in case['faults']]} a run without faults fails: {rec['err']}"), stats
        after = t.state(script)
        wrong = [p for p in after if after[p] != new[w][p]]
        if wrong:
            p = wrong[0]
            return ("rerun", f"{script}: after {[f['kind'] for f in case['faults']]} a run without faults leaves {p} with {length(after[p])} where an "
                             f"undisturbed run writes {length(new[w][p])}: ...{shorten((after[p] or b'')[-60:])}"), stats
        return None, stats
    finally:
        t.remove()


def length(b):
    return "no file" if b is None else f"{len(b)} bytes"


def minimise(case, source, base, fp):
    def fails(faults):
        v, _ = run_case(dict(case, faults=faults), source, base)
        return v is not None and v[0] == fp
    return dict(case, faults=core.ddmin(case["faults"], fails, 20)) if len(case["faults"]) > 1 else case


def main(ck):
    gensim.with_shim()
    source = gensim.source_tree()
    n = ck.scale(2000, 100_000)

    def one(i):
        case = gen(ck.seed, i)
        v, st = run_case(case, source, ck.scratch)
        c = {"cases": 1, "script_runs": st["sim"] + len(case["inputs"]), "struck": len(st["struck"]), "runs_killed": st["killed"], "runs_failed": st["failed"]}
        for k, m in st["kinds"].items():
            c["fault_" + k] = m
        res = {"counts": c, "digest": core.h64(case["script"], str(st["struck"])) if st["struck"] else None}
        if i < 4:
            res["sample"] = {"script": case["script"], "faults": [f["kind"] for f in case["faults"]], "struck_at_operation": st["struck"]}
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(90, 2400))
    core.check_harness_errors(results)
    for i, r in sorted(results.items()):
        if r.get("violation"):
            v, case = r["violation"]
            small = minimise(case, source, ck.scratch, v[0])
            v2, _ = run_case(small, source, ck.scratch)
            if v2:
                v, case = v2, small
            ck.report(v[0], f"run {i}: {v[1]}", enc(case))
            break
    gensim.drop_shim()
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(counts["script_runs"], len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
                     [r["sample"] for i, r in sorted(results.items()) if r.get("sample")], counts=counts,
                     runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
                     faults={k: v for k, v in counts.items() if k.startswith("fault_")},
                     simulated_time="none: the scripts have no timers beyond the response delays",
                     real_code="the three generator scripts, the modules they import, CPython's file objects, the kernel's file system in a scratch directory",
                     stubs="the network; libc file calls pass through a fault layer that kills, fails, shortens or interrupts them")


def replay(data):
    gensim.with_shim()
    source = gensim.source_tree()
    import tempfile, shutil
    base = tempfile.mkdtemp(prefix="jvosim-C10-")
    try:
        v, _ = run_case(dec(data["case"]), source, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
        gensim.drop_shim()
    return v[1] if v else None

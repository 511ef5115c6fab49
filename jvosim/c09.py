"""C09: a generator run without a good input changes nothing."""
import json
import os
import xml.etree.ElementTree as ET

from . import core, gensim
from .repl import shorten

RULE = ("a case is one run of a generator script in a scratch tree with seeded previous outputs whose input fails: the connection, "
        "the TLS handshake, the request, the response at a seeded byte, the HTTP status, the page, or a local input file; "
        "non-trivial: the fault was delivered; distinct: by script, kind and place of the fault")


def bad_page(r, good):
    x = r.randrange(9)
    return [b"", b"   \n", b"<html><body><h1>Service Unavailable</h1></body></html>", b'{"error": "not available"}',
            b"<!DOCTYPE html>\n<html><head><title>valsi</title><body><p>Just a moment...<br></body></html>",
            b'<?xml version="1.0"?>\n<dictionary>\n<direction from="lojban" to="English">\n</direction>\n</dictionary>\n',
            good[:r.randrange(max(1, len(good) - 20))], good.replace(b"</valsi>", b"", 1), b"\x1f\x8b\x08\x00" + os.urandom(0) + good[::-1]][x]


def gen(seed, i):
    """(case, must fail?)"""
    r = core.rng_for(seed, "C09", "run", i)
    script = r.choice(["make_rafsi_list.py", "make_rafsi_list.py", "make_dictionary_test_list.py", "make_dictionary_test_list.py", "make_js_tests.py"])
    case = {"script": script, "files": gensim.files_for(r, script), "net": None, "disk": None, "seed": core.h64(seed, "C09", "s", i)}
    if script == "make_js_tests.py":
        k = r.choice(["missing", "read", "read", "open", "json", "utf8"])
        p = r.choice(gensim.INPUTS)
        if k == "missing":
            case["files"][p] = None
        elif k == "read":
            case["disk"] = {"rkind": r.choice([1, 5]), "rat": r.randrange(1, 12), "rerr": r.choice([5, 116, 110])}
        elif k == "open":
            case["disk"] = {"rkind": 4, "rat": r.randrange(1, 5), "rerr": r.choice([13, 24, 5])}
        elif k == "json":
            b = case["files"]["tests/jvs_words.json"]
            case["files"]["tests/jvs_words.json"] = b[:r.randrange(len(b))]
        else:
            b = case["files"][p]
            n = r.randrange(len(b) + 1)
            case["files"][p] = b[:n] + r.choice([b"\xff", b"\xc3(", b"\xed\xa0\x80"]) + b[n:]
        return dict(case, kind=k, must_fail=k != "read")
    body = gensim.export_xml(gensim.an_export(r, r.choice([1, 3, 10, 60])), r)
    case["body"] = body
    net = dict(gensim.GOOD_NET, **gensim.deliver(r, body))
    k = r.choices(["connect", "tls", "send", "cut", "status", "page", "length", "garbage"], [2, 1, 1, 10, 4, 5, 3, 2])[0]
    must = True
    if k == "connect":
        net["connect"] = r.choice(["refused", "dns", "timeout", "unreachable"])
    elif k == "tls":
        net["tls"] = True
    elif k == "send":
        net["send"] = r.choice(["EPIPE", "ECONNRESET"])
    elif k == "cut":
        net["responses"] = net["responses"][-1:]
        data = net["responses"][0]
        head = data.index(b"\r\n\r\n") + 4
        net["cut"] = r.choice([r.randrange(len(data)), r.randrange(head + 1), len(data) - r.randrange(1, 60), len(data)])
        net["cut"] = max(0, net["cut"])
        net["end"] = r.choice(["reset", "timeout", "eof", "eof", "unreachable", "ssl", "ssl_eof"])
        # a body that arrived whole may be used
        must = complete_at(data, net["cut"], body) is False
    elif k == "status":
        s = r.choice([403, 404, 429, 500, 502, 503, 301])
        b = r.choice([body, b"<html/>", b""])
        net["responses"] = [gensim.http(s, b, headers=["Location: https://jbovlaste.lojban.org/x"] if s == 301 else [])]
    elif k == "page":
        net["responses"] = [gensim.http(200, bad_page(r, body), chunked=r.choice([None, 100]))]
    elif k == "length":
        n = r.choice([len(body) + r.randrange(1, 1000), r.randrange(max(1, len(body) - 20))])
        net["responses"] = [gensim.http(200, body, length=n)]
        if n > len(body):
            net["cut"] = len(net["responses"][0])
            net["end"] = r.choice(["eof", "reset", "timeout"])
    else:
        data = r.choice([b"", b"\r\n", b"HTP/1.1 200 OK\r\n\r\n", b"HTTP/1.1 abc OK\r\n\r\n" + body, body,
                         b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" + body,
                         gensim.http(200, body, chunked=50)[:-5].replace(b"\r\n32\r\n", b"\r\nQ2\r\n", 1) if len(body) > 200 else b"\x00" * 100])
        net["responses"] = [data]
    case["net"] = net
    return dict(case, kind=k, must_fail=must)


def complete_at(data, cut, body):
    """Did the whole body arrive in data[:cut]?  None: so nearly that either answer is right."""
    if cut >= len(data):
        return True if cut > len(data) else None
    head, rest = data.split(b"\r\n\r\n", 1)
    got = data[:cut]
    if b"chunked" in head.lower():
        # complete once the last chunk of data is there; the script may insist on the terminator or not
        return None if cut >= len(data) - len(b"0\r\n\r\n") else False
    missing = len(data) - cut
    if b"content-length" in head.lower():
        return False
    # delimited by the end of the connection: a prefix that is a document is the document
    try:
        return None if ET.fromstring(got.split(b"\r\n\r\n", 1)[1]).find(".//valsi") is not None else False
    except (ET.ParseError, IndexError):
        return False


def run_case(case, source, base):
    t = gensim.Tree(base, source, case["files"])
    try:
        before = t.state(case["script"])
        rec = gensim.run_script(t, case["script"], case["net"], case["disk"], case["seed"])
        rec["before"], rec["after"] = before, t.state(case["script"])
        rec["new"] = None
        if rec["after"] != before:
            # what a good run would have written
            good = dict(gensim.GOOD_NET, responses=[gensim.http(200, case["body"])]) if case["net"] else None
            r2 = gensim.run_script(t, case["script"], good, None, 0)
            rec["new"] = t.state(case["script"]) if r2["code"] == 0 else None
        return rec
    finally:
        t.remove()


def judge(case, rec):
    what = f"{case['script']}, input fault {case['kind']}"
    if rec["code"] == "stuck":
        return ("stuck", f"{what}: {rec['err']}")
    changed = [p for p in rec["before"] if rec["before"][p] != rec["after"][p]]
    delivered = case["must_fail"] or rec["fired"]
    if rec["code"] != 0:
        if changed:
            return ("changed", f"{what}: it failed ({rec['err']}) but changed {changed}: {shorten(rec['after'][changed[0]])}")
        return None
    if case["must_fail"] or (case["kind"] == "read" and rec["fired"]):
        return ("success", f"{what} ({describe(case)}): exit status 0" + (f", and it replaced {changed}" if changed else ""))
    if rec["new"] is not None and rec["after"] != rec["new"]:
        return ("wrong", f"{what}: exit status 0, but {[p for p in changed if rec['new'][p] != rec['after'][p]]} is not what the input gives")
    return None


def describe(case):
    n = case["net"]
    if not n:
        return json.dumps(case["disk"])
    return f"connect={n['connect']} tls={n['tls']} send={n['send']} cut={n['cut']} of {len(n['responses'][0])} end={n['end']}, " \
           f"response {shorten(n['responses'][0], 160)}"


def enc(x):
    if isinstance(x, bytes):
        return {"__b": x.decode("latin-1")}
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return x


def dec(x):
    if isinstance(x, dict):
        if set(x) == {"__b"}:
            return x["__b"].encode("latin-1")
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def main(ck):
    gensim.with_shim()
    source = gensim.source_tree()
    n = ck.scale(6000, 300_000)

    def one(i):
        case = gen(ck.seed, i)
        rec = run_case(case, source, ck.scratch)
        v = judge(case, rec)
        c = {"runs": 1, "failed_as_required": int(rec["code"] != 0), "succeeded": int(rec["code"] == 0), "kind_" + case["kind"]: 1,
             "disk_faults": rec["fired"]}
        for k, m in rec["net"].items():
            c["net_" + k] = m
        place = (case["net"] or {}).get("cut")
        res = {"counts": c, "digest": core.h64(case["script"], case["kind"], describe(case), json.dumps(case["disk"])) if case["must_fail"] or rec["fired"] or
               place is not None else None}
        if i < 4:
            res["sample"] = {"script": case["script"], "kind": case["kind"], "fault": describe(case)[:300], "exit": rec["code"], "error": rec["err"]}
        if v:
            res["violation"] = (v, case)
        return res
    results, trunc = core.run_pool(one, n, wall_cap=ck.scale(90, 2400))
    gensim.drop_shim()
    core.check_harness_errors(results)
    for i, r in sorted(results.items()):
        if r.get("violation"):
            v, case = r["violation"]
            ck.report(v[0], f"run {i}: {v[1]}", enc(case))
            break
    counts = core.merge_counts(results)
    wall = core._monotonic() - ck.t0
    return ck.finish(len(results), len({r["digest"] for r in results.values() if r.get("digest")}), RULE,
                     [r["sample"] for i, r in sorted(results.items()) if r.get("sample")], counts=counts,
                     runs_per_hour=core.per_hour(len(results), wall), truncated_by_wall=trunc,
                     faults={k: v for k, v in counts.items() if k.startswith(("net_", "kind_", "disk"))},
                     simulated_time="response delays and timeouts advance a virtual clock",
                     real_code="the three generator scripts, the modules they import, urllib, http.client, ElementTree, csv, json, file objects",
                     stubs="socket.create_connection, SSLContext.wrap_socket, time; libc file calls pass through a fault layer")


def replay(data):
    gensim.with_shim()
    source = gensim.source_tree()
    import tempfile, shutil
    base = tempfile.mkdtemp(prefix="jvosim-C09-")
    try:
        case = dec(data["case"])
        x = judge(case, run_case(case, source, base))
    finally:
        shutil.rmtree(base, ignore_errors=True)
        gensim.drop_shim()
    return x[1] if x else None

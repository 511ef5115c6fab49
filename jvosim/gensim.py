"""The generator scripts under a simulated network and a simulated disk.

The real scripts run with runpy in a scratch copy of the parts of the repository they use.  The network
seam is socket.create_connection and SSLContext.wrap_socket, below the real urllib and http.client; the disk seam is
shim/disksim.c, loaded into the whole process, below CPython's file objects.
"""
import ctypes
import gc
import io
import json
import os
import random
import runpy
import shutil
import signal
import socket
import ssl
import subprocess
import sys
import tempfile
import time
import urllib.request
import xml.etree.ElementTree as ET
from html import escape

from . import core, lib

SCRIPTS = {
    "make_rafsi_list.py": ["py/latkerlo_jvotci/rafsi.py", "js/src/rafsi.ts", "js/docs/rafsi.js", "rs/src/rafsi.rs"],
    "make_dictionary_test_list.py": ["tests/jvs_words.json"],
    "make_js_tests.py": ["tests/js_tests.js"],
}
NETWORK = ("make_rafsi_list.py", "make_dictionary_test_list.py")
LISTS = ["basic_test_list", "jvozba_test_list", "katna_test_list"]
HOSTS = []


def with_shim():
    """Start this check over with the disk seam loaded (built from source on every run)."""
    if os.environ.get("JVOSIM_SHIM"):
        return
    d = tempfile.mkdtemp(prefix="jvosim-shim-")
    so = os.path.join(d, "disksim.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(core.VERIF, "shim", "disksim.c"), "-ldl"], check=True)
    os.environ["JVOSIM_SHIM"] = d
    os.environ["LD_PRELOAD"] = so
    os.execve(sys.executable, [sys.executable, "-s", os.path.join(core.VERIF, "run_check.py")] + sys.argv[1:], os.environ)


def drop_shim():
    d = os.environ.get("JVOSIM_SHIM", "")
    if d.startswith(tempfile.gettempdir() + "/jvosim-shim-"):
        shutil.rmtree(d, ignore_errors=True)


_c = None


def shim():
    global _c
    if _c is None:
        _c = ctypes.CDLL(None)
        _c.disksim_config.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_long, ctypes.c_int,
                                      ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int]
        for f in ("ops", "rops", "fired"):
            getattr(_c, "disksim_" + f).restype = ctypes.c_long
        _c.disksim_then.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_long]
        _c.disksim_log.restype = ctypes.c_char_p
    return _c


# ------------------------------------------------------------ the tree

def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def source_tree():
    """path -> bytes of everything a generator needs, from the tree under test."""
    out = {}
    for s in SCRIPTS:
        out[s] = read(os.path.join(core.REPO, s))
        if out[s] is None:
            raise core.HarnessError(f"{s} is not in the tree")
    for d, sub, fs in os.walk(core.REPO):
        rel = os.path.relpath(d, core.REPO)
        # top-level scripts and whatever they may import
        sub[:] = sorted(x for x in sub if x[0] != "." and x not in ("tests", "__pycache__") and (rel != "." or x == "py"))
        for f in sorted(fs):
            if f.endswith(".py"):
                out[os.path.normpath(os.path.join(rel, f))] = read(os.path.join(d, f))
    return out


class Tree:
    def __init__(self, base, source, files):
        self.root = tempfile.mkdtemp(prefix="tree-", dir=base)
        for d in (f"py/{lib.PKG}", "py/tests", "js/src", "js/docs", "rs/src", "tests"):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for p, b in {**source, **files}.items():
            self.put(p, b)

    def put(self, p, b):
        full = os.path.join(self.root, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if b is None:
            if os.path.exists(full):
                os.unlink(full)
            return
        with open(full, "wb") as f:
            f.write(b)

    def state(self, script):
        return {p: read(os.path.join(self.root, p)) for p in SCRIPTS[script]}

    def inputs(self, script):
        return {p: read(os.path.join(self.root, p)) for p in INPUTS if script == "make_js_tests.py"}

    def remove(self):
        shutil.rmtree(self.root, ignore_errors=True)


INPUTS = [f"tests/{x}.tsv" for x in LISTS] + ["tests/jvs_words.json"]


# ------------------------------------------------------------ the network

class NetError(Exception):
    pass


class RawResponse(io.RawIOBase):
    """Bytes of one response, in pieces, then the end or an error."""

    def __init__(self, net, data, rng):
        self.net, self.data, self.rng, self.pos, self.done_reads = net, data, rng, 0, 0

    def readable(self):
        return True

    def readinto(self, b):
        net = self.net
        CLOCK[0] += self.rng.choice([0, 0, .001, .1, 3, 40]) if net["delay"] else 0
        limit = net["cut"] if net["cut"] is not None else len(self.data)
        left = min(limit, len(self.data)) - self.pos
        if left <= 0:
            how = net["end"] if net["cut"] is not None else "eof"
            if how == "eof":
                self.done_reads += 1
                if self.done_reads > 1000:
                    raise core.HarnessError("reads on after the end of the response")
                return 0
            STATS[how] = STATS.get(how, 0) + 1
            CLOCK[0] += 120 if how == "timeout" else 0
            raise {"reset": ConnectionResetError(104, "Connection reset by peer"),
                   "timeout": TimeoutError(110, "Connection timed out"),
                   "unreachable": OSError(113, "No route to host"),
                   "ssl": ssl.SSLError(1, "[SSL] decryption failed or bad record mac"),
                   "ssl_eof": ssl.SSLEOFError(8, "EOF occurred in violation of protocol")}[how]
        k = net["chunk"] if net["chunk"] else self.rng.choice([1, 2, 7, 100, 1460, 8192, 65536])
        k = max(1, min(k, left, len(b)))
        b[:k] = self.data[self.pos:self.pos + k]
        self.pos += k
        STATS["reads"] = STATS.get("reads", 0) + 1
        return k


class Sock:
    def __init__(self, world):
        self.world, self.sent, self.resp, self.timeout = world, b"", None, None

    def sendall(self, b, *a):
        net = self.world.net
        if net["send"]:
            STATS["send_" + net["send"]] = STATS.get("send_" + net["send"], 0) + 1
            raise BrokenPipeError(32, "Broken pipe") if net["send"] == "EPIPE" else ConnectionResetError(104, "Connection reset by peer")
        self.sent += bytes(b)

    def send(self, b, *a):
        self.sendall(b)
        return len(b)

    def _response(self):
        if self.resp is None:
            self.resp = RawResponse(self.world.net, self.world.respond(self.sent), self.world.rng)
        return self.resp

    def makefile(self, mode="r", buffering=None, **k):
        return io.BufferedReader(self._response())

    def recv_into(self, b, n=0, *a):
        v = memoryview(b)
        return self._response().readinto(v[:n] if n else v)

    def recv(self, n, *a):
        b = bytearray(n)
        k = self._response().readinto(b)
        return bytes(b[:k])
    read = recv

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def getpeername(self):
        return ("203.0.113.7", 443)

    def getpeercert(self, *a):
        return {}

    def setsockopt(self, *a):
        pass

    def setblocking(self, *a):
        pass

    def shutdown(self, *a):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


CLOCK = [1_700_000_000.0]
STATS = {}


class Server:
    """net: dict(connect, send, response(bytes list), cut, end, chunk, delay)."""

    def __init__(self, net, seed):
        self.net, self.rng, self.n, self.connects = net, random.Random(seed), 0, 0

    def connect(self, *a, **k):
        self.connects += 1
        if self.connects > 200:
            raise core.HarnessError("the script connects without end")
        c = self.net["connect"]
        CLOCK[0] += 1 if self.net["delay"] else 0
        if c:
            STATS["connect_" + c] = STATS.get("connect_" + c, 0) + 1
            raise {"refused": ConnectionRefusedError(111, "Connection refused"), "dns": socket.gaierror(-3, "Temporary failure in name resolution"),
                   "timeout": TimeoutError(110, "Connection timed out"), "unreachable": OSError(101, "Network is unreachable")}[c]
        return Sock(self)

    def respond(self, request):
        r = self.net["responses"]
        out = r[min(self.n, len(r) - 1)]
        self.n += 1
        return out


def install_network(net, seed):
    srv = Server(net, seed)
    socket.create_connection = srv.connect

    def wrap(self, sock, *a, **k):
        if net["tls"]:
            STATS["tls_failure"] = STATS.get("tls_failure", 0) + 1
            raise ssl.SSLCertVerificationError(1, "certificate verify failed")
        return sock
    ssl.SSLContext.wrap_socket = wrap
    ssl.SSLContext.set_default_verify_paths = lambda self: None      # no certificates to load: the peer is simulated

    def no_connect(self, *a):
        raise core.HarnessError("the script opened a real socket")
    socket.socket.connect = no_connect
    time.sleep = lambda s: CLOCK.__setitem__(0, CLOCK[0] + s)
    time.monotonic = time.perf_counter = lambda: CLOCK[0] - 1_600_000_000.0
    time.time = lambda: CLOCK[0]
    return srv


def http(status, body, headers=(), length="right", chunked=None):
    reason = {200: "OK", 206: "Partial Content", 301: "Moved Permanently", 302: "Found", 403: "Forbidden", 404: "Not Found",
              429: "Too Many Requests", 500: "Internal Server Error", 502: "Bad Gateway", 503: "Service Unavailable"}.get(status, "X")
    h = [f"HTTP/1.1 {status} {reason}", "Server: nginx", "Content-Type: text/xml; charset=utf-8", *headers, "Connection: close"]
    if chunked:
        h.append("Transfer-Encoding: chunked")
        out, i = b"", 0
        while i < len(body):
            c = body[i:i + chunked]
            out += b"%x\r\n" % len(c) + c + b"\r\n"
            i += chunked
        body = out + b"0\r\n\r\n"
    elif length == "right":
        h.append(f"Content-Length: {len(body)}")
    elif isinstance(length, int):
        h.append(f"Content-Length: {length}")
    return "\r\n".join(h).encode() + b"\r\n\r\n" + body


GOOD_NET = {"connect": None, "tls": False, "send": None, "cut": None, "end": "eof", "chunk": 65536, "delay": False}


# ------------------------------------------------------------ running a script

NO_DISK = {"kind": 0, "at": 0, "times": 0, "part": 0, "err": 0, "budget": -1, "rkind": 0, "rat": 0, "rpart": 0, "rerr": 0, "then": [0, 0, 0]}
KINDS = {"kill_before": 1, "kill_after": 2, "kill_mid": 3, "fail": 4, "short": 5, "eintr": 6, "ctrl_c": 7}
DEAD = 86


class Lines:
    """Counts the lines the script executes and raises an exception at a chosen one."""

    def __init__(self, path, at, exc):
        self.path, self.at, self.exc, self.n, self.fired = path, at, exc, 0, 0
        m = sys.monitoring
        m.use_tool_id(4, "jvosim")
        m.register_callback(4, m.events.PY_START, self.start)
        m.register_callback(4, m.events.LINE, self.line)
        m.set_events(4, m.events.PY_START)

    def start(self, code, off):
        m = sys.monitoring
        if code.co_filename == self.path:
            m.set_local_events(4, code, m.events.LINE)
        return m.DISABLE

    def line(self, code, line):
        self.n += 1
        if self.n == self.at:
            self.fired = 1
            raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[self.exc]

    def off(self):
        sys.monitoring.set_events(4, 0)
        sys.monitoring.free_tool_id(4)


def script_body(root, script, net, disk, seed, line=None):
    os.chdir(root)
    sys.path[:] = [p for p in sys.path if "latkerlo" not in p and not p.startswith(core.REPO)]
    sys.path.insert(0, root)             # as "python3 script.py" does
    for m in [m for m in sys.modules if m.split(".")[0] == lib.PKG]:
        del sys.modules[m]
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/jvosim-no-pyc"
    if net is not None:
        install_network(net, seed)
    devnull = open(os.devnull, "w")
    sys.stdout = sys.stderr = devnull
    c = shim()
    d = dict(NO_DISK, **(disk or {}))
    c.disksim_config(root.encode() + b"/", d["kind"], d["at"], d["times"], d["part"], d["err"], d["budget"], d["rkind"], d["rat"],
                     d["rpart"], d["rerr"])
    c.disksim_then(*d["then"])
    code, err = 0, None
    signal.signal(signal.SIGINT, signal.default_int_handler)
    lines = Lines(os.path.join(root, script), *line) if line else None
    try:
        g = runpy.run_path(os.path.join(root, script), run_name="__main__")
        del g
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        err = f"SystemExit {e.code}"
        e.__traceback__ = None
    except core.HarnessError as e:
        raise
    except BaseException as e:
        code, err = 1, f"{type(e).__name__}: {str(e)[:160]}"
        e.__traceback__ = e.__context__ = e.__cause__ = None
    if lines:
        lines.off()
    gc.collect()                         # files left open are closed, as when an interpreter ends
    c.disksim_off()
    return {"code": code, "err": err, "ops": c.disksim_ops(), "rops": c.disksim_rops(), "fired": c.disksim_fired() + (lines.fired if lines else 0), "lines": lines.n if lines else 0,
            "log": c.disksim_log().decode("utf-8", "replace"), "net": dict(STATS)}


def run_script(tree, script, net=None, disk=None, seed=0, timeout=120, line=None):
    """In a forked process.  A simulated kill shows as code "killed"."""
    if net is not None:
        net = dict(GOOD_NET, **net)
    st, v = core.fork_call(lambda: script_body(tree.root, script, net, disk, seed, line), timeout=timeout)
    if st == "ok":
        return v
    if st == "err":
        raise core.HarnessError(v)
    if st == "died" and disk:
        return {"code": "killed", "err": None, "ops": disk.get("at", 0), "rops": 0, "fired": 1, "log": "", "net": {}}
    return {"code": "stuck", "err": f"the script {st}", "ops": 0, "rops": 0, "fired": 0, "log": "", "net": {}}


# ------------------------------------------------------------ inputs

LET = "bcdfgjklmnprstvxz"
VOW = "aeiou"
EXC_WORDS = ["xi", "ditcu", "jidge", "ronci", "supso", "zai'e", "gelse", "tsako", "kilma", "jicfo", "fizbu", "je'ebzi", "mu'umgu", "va'arga"]
EXCEPTIONS = {"xi": ["xix"], "ditcu": ["dit"], "jidge": ["jid"], "ronci": ["roc"], "supso": ["sus"], "zai'e": ["zam"],
              "gelse": ["ge'e", "ges"], "tsako": ["tso"], "kilma": ["kim"], "jicfo": ["cfo"], "fizbu": ["zbu"],
              "je'ebzi": ["jeb"], "mu'umgu": ["mug"], "va'arga": ["va'a"]}


def a_rafsi(r):
    c, v = lambda: r.choice(LET), lambda: r.choice(VOW)
    x = r.random()
    if x < .4:
        return c() + v() + c()
    if x < .6:
        return c() + v() + "'" + v()
    if x < .7:
        return c() + r.choice(["ai", "ei", "oi", "au"])
    return r.choice(["bl", "br", "cf", "ck", "cl", "cm", "cn", "cp", "cr", "ct", "dj", "dr", "dz", "fl", "fr", "gl", "gr", "jb",
                     "jd", "jg", "jm", "jv", "kl", "kr", "ml", "mr", "pl", "pr", "sf", "sk", "sl", "sm", "sn", "sp", "sr", "st",
                     "tc", "tr", "ts", "vl", "vr", "xl", "xr", "zb", "zd", "zg", "zm", "zv"]) + v()


def a_gismu(r):
    c, v = lambda: r.choice(LET), lambda: r.choice(VOW)
    return c() + v() + c() + c() + v() if r.random() < .5 else a_rafsi_cc(r) + v() + c() + v()


def a_rafsi_cc(r):
    return r.choice(["bl", "br", "kl", "kr", "ml", "pr", "st", "tr", "zb", "gl", "gr", "sk", "sp", "ts", "tc"])


def an_export(r, n):
    """A dictionary export: list of entries (word, type, official rafsi, rafsi proposed in the notes)."""
    words, entries = set(), []
    pool = [a_rafsi(r) for _ in range(max(4, n))]
    for _ in range(n):
        x = r.random()
        if x < .35:
            w, t = a_gismu(r), "gismu"
        elif x < .55:
            w, t = a_gismu(r), "experimental gismu"
            if r.random() < .3 and entries:
                e = r.choice(entries)
                if e[1] == "gismu":
                    w = e[0][:4] + r.choice(VOW)       # clashes with an official gismu
        elif x < .7:
            w, t = r.choice(LET) + r.choice(["i", "ai", "u'i", "o'u", "ei", "a"]) + r.choice(["", "", "'e"]), "cmavo"
        elif x < .78:
            w, t = "x" + r.choice(["a'i", "o'e", "u'u", "ai'e"]), "experimental cmavo"
        elif x < .86:
            w, t = a_gismu(r)[:3] + a_gismu(r), "lujvo"
        elif x < .92:
            w, t = "s" + r.choice(["pageti", "akruarjuna", "kre'o", "intuma"]) + r.choice(VOW), "fu'ivla"
        elif x < .95:
            w, t = r.choice(["djan", "pol", "n\u00e9tyn", "lojban"]), "cmevla"
        elif x < .98:
            w, t = r.choice(EXC_WORDS), None
            t = "cmavo" if w in ("xi", "zai'e") else "gismu" if len(w) == 5 else "lujvo"
        else:
            w, t = r.choice(["klama gau", "bu", "letteral x"]), r.choice(["phrase", "bu-letteral", "obsolete zei-lujvo"])
        if w in words:
            continue
        words.add(w)
        off = [r.choice(pool) if r.random() < .5 else a_rafsi(r) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        notes = [r.choice(pool) if r.random() < .5 else a_rafsi(r) for _ in range(r.choice([0, 0, 0, 1, 2, 3]))]
        if r.random() < .1:
            notes.append(r.choice(["zna", "tna", "bda", "mza"]))        # no initial pair: not a rafsi
        entries.append([w, t, sorted(set(off)), list(dict.fromkeys(notes)), r.random() < .8])
    return entries


def export_xml(entries, r):
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n', "<dictionary>\n", '<direction from="lojban" to="English">\n']
    for w, t, off, notes, says in entries:
        out.append(f'<valsi word="{escape(w)}" type="{escape(t)}"' + (' unofficial="true"' if "exp" in t else "") + ">\n")
        for x in off:
            out.append(f"  <rafsi>{x}</rafsi>\n")
        if t == "cmavo":
            out.append("  <selmaho>UI1</selmaho>\n")
        out.append(f"  <definition>$x_1$ is {r.choice(['a', 'the', 'some'])} &lt;thing&gt; of {escape(w)}.</definition>\n")
        if notes or r.random() < .3:
            txt = r.choice(["See also {klama}.", "Proposed by someone.", "caf\u00e9 &amp; co."])
            if notes:
                word = r.choice(["rafsi", "Rafsi", "RAFSI"]) if says else "short form"
                txt += f" {word}: " + r.choice([" ", ", ", "; "]).join(f" -{x}- " for x in notes) + "."
            elif r.random() < .3:
                txt += " No rafsi."
            out.append(f"  <notes>{txt}</notes>\n")
        out.append("</valsi>\n")
    out += ["</direction>\n", '<direction from="English" to="lojban">\n<nlword word="thing" valsi="dacti"/>\n</direction>\n', "</dictionary>\n"]
    return "".join(out).encode("utf-8")


def a_js_input(r):
    """The local inputs of make_js_tests.py: path -> bytes."""
    out = {}
    for n in LISTS:
        rows = []
        for _ in range(r.choice([0, 1, 5, 40, 200])):
            x = r.random()
            if x < .1:
                rows.append("")
            elif x < .2:
                rows.append("# a comment\twith a tab")
            elif x < .25:
                rows.append("\t")
            elif x < .3:
                rows.append("oneword")
            else:
                rows.append("\t".join([r.choice(["zmogai", "lujvozba", "", "kl\u00e1ma", "a'a"]) or "x", r.choice(["-zmo- gacri", "lujvo zbasu", "NONE"]),
                                       *(["x"] * r.choice([0, 0, 1, 4]))]))
        out[f"tests/{n}.tsv"] = ("\n".join(rows) + r.choice(["", "\n"])).encode()
    words = {k: [r.choice(["klama", "lujvo", "a'a", "kl\u00e1ma", "spageti"]) + r.choice(VOW) for _ in range(r.choice([0, 1, 10, 300]))]
             for k in ("GISMU", "LUJVO", "ZIhEVLA", "OTHER")}
    out["tests/jvs_words.json"] = json.dumps(words).encode()
    return out


def previous(r, script):
    """What the output files hold before the run: the generator's own format, junk, or nothing."""
    out = {}
    for p in SCRIPTS[script]:
        x = r.random()
        if x < .1:
            b = None
        elif x < .3:
            b = r.choice([b"", b"junk \xff\x00", b"RAFSI_LIST = {", b"// half a li"]) if r.random() < .7 else b"x" * 50_000
        else:
            w = "".join(r.choice(LET) for _ in range(5))
            b = {"py": f'RAFSI_LIST = {{\n    "{w}": [\'{w[:3]}\'],\n}}\n', "ts": f'const RAFSI_LIST: Map<string, string[]> = new Map([\n  ["{w}", []],\n]);\n',
                 "js": f'const RAFSI_LIST = new Map([\n    ["{w}", []],\n]);\n', "rs": f'// {w}\n', "json": f'{{"GISMU": ["{w}"]}}'}[p.rsplit(".", 1)[1]].encode()
            b *= r.choice([1, 1, 1]) if not p.endswith(".rs") else r.choice([1, 500])
        out[p] = b
    return out


def files_for(r, script):
    files = previous(r, script)
    if script == "make_js_tests.py":
        files.update(a_js_input(r))
    return files


def deliver(r, body):
    """A good response, split and delayed in a seeded way."""
    x = r.random()
    if x < .5:
        resp = http(200, body)
    elif x < .8:
        resp = http(200, body, chunked=r.choice([1 << 16, 4096, 1000, 37]))
    else:
        resp = http(200, body, length=None)
    responses = [resp]
    if r.random() < .1:
        responses = [http(r.choice([301, 302]), b"", headers=["Location: https://jbovlaste.lojban.org/export/other.html"]), resp]
    return {"responses": responses, "chunk": r.choice([None, 1460, 65536]), "delay": r.random() < .5}

"""One simulated interpreter process of C05: applies the configuration, makes the calls, writes the outcomes."""
import json
import os
import sys

cfg = json.load(open(sys.argv[1]))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import gc
import random
import threading

from jvosim import core, lib

junk = []
jr = random.Random(cfg["seed"])
for _ in range(cfg["junk"]):
    junk.append([object() for _ in range(jr.randrange(1, 40))])
    if jr.random() < .3:
        junk.pop(jr.randrange(len(junk)))
gcm = cfg["gc"]
if gcm == "off":
    gc.disable()
elif gcm == "busy":
    gc.set_threshold(1, 1, 1)

lib.prepare_path()
env_reads = set()
if cfg.get("pilot"):
    root = os.path.join(core.REPO, "py")
    orig = os._Environ.__getitem__

    def getitem(self, key):
        f = sys._getframe(1)
        while f is not None:
            if f.f_code.co_filename.startswith(root):
                env_reads.add(key if isinstance(key, str) else repr(key))
                break
            f = f.f_back
        return orig(self, key)
    os._Environ.__getitem__ = getitem

random.seed(cfg["rng"])
import importlib


def do_imports():
    for m in cfg["imports"]:
        importlib.import_module(m)
    lib.load()


if cfg["thread"]:
    t = threading.Thread(target=do_imports)
    t.start()
    t.join()
else:
    do_imports()

settings = {}
for v in lib.Y + lib.C:
    settings[v] = v


def strings(v, r):
    """The same value built from other string objects."""
    if isinstance(v, str):
        m = r.randrange(3)
        if m == 0:
            return sys.intern(v)
        if m == 1:
            return "".join(list(v)) if len(v) != 1 else v
        return settings.get(v, v)
    if isinstance(v, list):
        return [strings(x, r) for x in v]
    return v


out = []


def tight(c, a, k, room):
    """The call with so many frames of stack left: it may run out of them, which is no answer."""
    d, f = 0, sys._getframe()
    while f is not None:
        d, f = d + 1, f.f_back
    old = sys.getrecursionlimit()
    fn = lib.resolve(c["f"])
    if fn is None:
        return ["missing"]
    try:
        sys.setrecursionlimit(d + room)
        try:
            v = fn(*a, **k)
        finally:
            sys.setrecursionlimit(old)
    except RecursionError:
        return ["exhausted"]
    except Exception as e:
        return lib.outcome_of_exc(e)
    return ["ok", lib.freeze(v)]


def run_all():
    r = random.Random(cfg["seed"])
    for n, c in enumerate(cfg["calls"]):
        a, k = lib.fresh_args(c)
        a = [strings(x, r) for x in a]
        items = [(x, strings(v, r)) for x, v in k.items()]
        r.shuffle(items)
        k = dict(items)
        if cfg["noise"]:
            for _ in range(r.randrange(3)):
                random.random()
            junk.append(object())
        out.append(lib.invoke(c, (a, k)) if not cfg.get("headroom") else tight(c, a, k, r.choice(cfg["headroom"])))


def nest(d):
    if d:
        nest(d - 1)
    else:
        run_all()


if cfg["limit"]:
    sys.setrecursionlimit(cfg["limit"])
if cfg["thread"]:
    t = threading.Thread(target=lambda: nest(cfg["depth"]))
    t.start()
    t.join()
else:
    nest(cfg["depth"])
with open(sys.argv[2], "w") as f:
    json.dump({"out": out, "env": sorted(env_reads)}, f)
    f.flush()
os._exit(0)

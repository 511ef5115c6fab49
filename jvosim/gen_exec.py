"""One generator run in an interpreter of its own (C11): reads the job, runs the script, writes the result."""
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random

from jvosim import gensim

with open(sys.argv[1], "rb") as f:
    job = pickle.load(f)
random.seed(job["rng"])
gensim.CLOCK[0] = job["clock"]
out = sys.argv[1] + ".out"
names = set()
if job.get("pilot"):
    orig = os._Environ.__getitem__

    def getitem(self, key):
        f = sys._getframe(1)
        while f is not None and f.f_code.co_filename.endswith(("os.py", "_collections_abc.py", "<frozen os>", "<frozen _collections_abc>")):
            f = f.f_back
        if f is not None and f.f_code.co_filename.startswith(job["root"]):
            names.add(str(key))
        return orig(self, key)
    os._Environ.__getitem__ = getitem
res = gensim.script_body(job["root"], job["script"], job["net"], job["disk"], job["seed"])
res["names"] = sorted(names)
with open(out, "wb") as f:
    pickle.dump(res, f)
os._exit(0)

"""The web pages in the simulated browser (js/page_sim.js): the node process, text pools, table reading."""
import json
import os
import subprocess
from html.parser import HTMLParser

from . import core, lib


class Browser:
    """One node process; started again now and then so that dead realms do not pile up."""

    def __init__(self, limit=400):
        self.p, self.n, self.limit = None, 0, limit

    def ask(self, q, weight=1):
        if self.p is not None and self.n > self.limit:
            self.close()
        if self.p is None:
            self.p = subprocess.Popen(["node", "--no-warnings", "--max-old-space-size=2500", os.path.join(core.VERIF, "js", "page_sim.js"), core.REPO],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8")
            self.n = 0
        self.n += weight
        self.p.stdin.write(json.dumps(q) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise core.HarnessError("node ended")
        a = json.loads(line)
        if "failed" in a:
            raise core.HarnessError(a["failed"])
        return a

    def session(self, page, watch, events, seed=1, wall=1.7e12):
        return self.ask({"op": "session", "page": page, "watch": watch, "events": events, "seed": seed & 0xFFFFFFFF, "wall": wall}, 4)

    def library(self, page, exprs):
        return self.ask({"op": "library", "page": page, "exprs": exprs}, len(exprs))["answers"]

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.stdout.close()
            self.p.wait()
            self.p = None


def fill(page, exprs):
    """expression -> answer of the library in a fresh realm, on all cores."""
    exprs = sorted(set(exprs))
    chunks = [exprs[i:i + 60] for i in range(0, len(exprs), 60)]
    b = Browser()

    def one(i):
        return {"a": b.library(page, chunks[i])}
    results, trunc = core.run_pool(one, len(chunks), wall_cap=600, stop_on_violation=False)
    core.check_harness_errors(results)
    if trunc or len(results) < len(chunks):
        raise core.HarnessError("the oracle did not finish")
    return {x: a for i in results for x, a in zip(chunks[i], results[i]["a"])}


ODD = ["", " ", "   ", "a", "y", "'", "-", "mlatu", "latkerlo", "mlatu kerlo", " mlatu kerlo ", "mlatu\u00a0kerlo", "mlatu  kerlo", "mlatu\tkerlo", "<b>klama</b>", "& &",
       "klama<", "\u2019", "toString", "__proto__ constructor", "constructor", "hasOwnProperty klama", "KLAMA", ".klama", "a'i'a", "zei", "klama zei", "\U0001d4b6 klama",
       "-zu'a- tcita", "a'orne'a", "0", "zo'oi klama", "xy", "bu", "lo'u le'u", "ma'a zy", "iu'o uo", "lujvo zbasu", "zbalu'o", "uenzi"]


def texts(rng, n):
    """Groups of texts as one edit session types them."""
    c = lib.Corpus(rng)
    groups = []
    while sum(map(len, groups)) < n:
        x = rng.random()
        if x < .55:
            t = c.a_tanru()
            if len(t.split()) > 4:
                t = " ".join(t.split()[:4])
        elif x < .85:
            t = c.a_lujvo()
        else:
            t = rng.choice(ODD)
        t = c.decorate(t)
        g = [t]
        if len(t) > 2:
            ks = sorted({rng.randrange(1, len(t)) for _ in range(rng.choice([0, 1, 2]))})
            g = [t[:k] for k in ks] + g
        if rng.random() < .3 and t:
            g.append(c.mutate(t))
        if rng.random() < .2:
            g.append(rng.choice(ODD))
        groups.append(g)
    return groups


class _Table(HTMLParser):
    """The cells of an HTML table, placed by the rules for rowspan and colspan."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.rows, self.cell = [], None

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "tr":
            self.end_cell()
            self.rows.append([])
        elif tag in ("td", "th"):
            self.end_cell()
            if not self.rows:
                self.rows.append([])
            self.cell = {"tag": tag, "cls": a.get("class"), "rs": int(a.get("rowspan") or 1), "cs": int(a.get("colspan") or 1), "text": ""}
        elif tag == "br" and self.cell is not None:
            self.cell["text"] += "\n"
        elif self.cell is not None and tag not in ("tbody", "thead"):
            self.cell["text"] += f"<{tag}>"

    def end_cell(self):
        if self.cell is not None:
            self.rows[-1].append(self.cell)
            self.cell = None

    def handle_endtag(self, tag):
        if tag in ("td", "th", "tr", "thead", "tbody", "table"):
            self.end_cell()

    def handle_data(self, data):
        if self.cell is not None:
            self.cell["text"] += data


def grid(html):
    p = _Table()
    p.feed(html)
    p.close()
    p.end_cell()
    out = {}
    for y, row in enumerate(p.rows):
        x = 0
        for c in row:
            while (y, x) in out:
                x += 1
            for dy in range(c["rs"]):
                for dx in range(c["cs"]):
                    out[y + dy, x + dx] = c
            c["at"] = (y, x)
            x += c["cs"]
    return out

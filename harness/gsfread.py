"""Running the real readers over byte files and tabulating what they made of them."""
import json
from common import call
from gsflib import decode, decode_loads, result, SYNC_SOURCES, ASYNC_SOURCES

SOURCES = SYNC_SOURCES + ASYNC_SOURCES
ONESHOT = ["loads", "load", "aload", "decode"]
LOADING = ["imm", "load-defer", "defer", "never"]


class Table:
    """One case: a byte file and what readers made of (prefixes of) it."""
    def __init__(self, ident, b, offs=True):
        self.offs = offs
        self.case = {"id": ident, "bytes": list(b), "heads": [], "gs": [], "groups": [], "trace": 0}
        self.b = b
        self.ix = {}
        self.groups = {}

    def idx(self, table, x):
        k = (table, json.dumps(x, sort_keys=True))
        if k not in self.ix:
            self.case[table].append(x)
            self.ix[k] = len(self.case[table])
        return self.ix[k]

    def add(self, cut, conc, ids, who, res, data=True, grouped=False):
        """ids: None or list."""
        key = (cut, conc, None if ids is None else tuple(ids))
        if key not in self.groups:
            self.groups[key] = {"cut": cut, "conc": conc, "ids": [] if ids is None else [list(ids)], "obs": [], "_k": {},
                                "offs": self.offs}
            self.case["groups"].append(self.groups[key])
        o = {"k": res["k"], "head": self.idx("heads", res["head"]) if res["head"]["id"] else 0,
             "grains": [self.idx("gs", x) for x in res["grains"]], "off": res["off"], "det": res["det"], "data": data,
             "grouped": grouped}
        k = json.dumps(o, sort_keys=True)
        g = self.groups[key]
        self.case["trace"] += 1
        if k not in g["_k"]:
            g["_k"][k] = 1
            g["obs"].append({"who": who, **o})

    def read(self, cut, conc=None, ids=None, source="bytesio", mode="imm", chunks=(7,), tmpdir=None, legacy=False):
        ok, r = call(decode, self.b[:cut], source, mode, conc, ids, legacy, chunks, tmpdir)
        if not ok:
            r = result("raised", det=[r])
        self.add(cut, True if conc is None else conc, ids, f"{source}/{mode}{'/legacy' if legacy else ''}", r, mode != "never")

    def oneshot(self, cut, how, conc=None):
        kw = {} if conc is None else {"support_concatenation": conc}
        ok, r = call(decode_loads, self.b[:cut], how, **kw)
        if not ok:
            r = result("raised", det=[r])
        self.add(cut, True if conc is None else conc, None, how, r, grouped=True)

    def done(self):
        for g in self.case["groups"]:
            g.pop("_k", None)
        return self.case

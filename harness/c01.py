"""C01: documents through the real encoder and the real decoder, judged by Gsf.tla."""
import os
from common import call
from gsflib import Gen, encode, decode, decode_loads, ENC_MODES, STREAMING, ONEPASS, SYNC_SOURCES, ASYNC_SOURCES
import gsflib

READERS = [(s, m) for s in SYNC_SOURCES + ASYNC_SOURCES for m in ("imm", "load-defer", "defer", None)] + \
          [("legacy", None), ("loads", None), ("load", None), ("aload", None), ("decode", None)]


def run(c):
    g = Gen(c.rng)
    out = []
    tmp = os.path.join(c.work, "o.gsf")

    def add(name, doc, wmode, how, late, via, rd):
        def go():
            b = encode(doc, wmode, how, late, via, bytes, tmp)
            s, m = rd
            if s == "legacy":
                return decode(b, "bytesio", legacy=True)
            if s in ("loads", "load", "aload", "decode"):
                return decode_loads(b, s)
            return decode(b, s, m, chunks=c.rng.choice([(1,), (3, 50), (7,), (1000,), (4, 4, 1)]), tmpdir=c.work)
        ok, r = call(go)
        out.append({"id": f"{name}:{wmode}:{how}:{via}:{rd[0]}:{rd[1]}:v{doc['v']}", "doc": doc, "onepass": wmode in ONEPASS,
                    "group": wmode not in STREAMING, "byseg": rd[0] in ("loads", "load", "aload", "decode"),
                    "ok": ok, "err": "" if ok else r, "obs": r if ok else gsflib.result("raised")})

    k = 0
    for t in gsflib.CLASSES:
        for v in (7, 8, 9):
            for rd in READERS:
                doc = g.doc(v, 0, 1)
                doc["grains"] = [{"lid": doc["segs"][0]["lid"], "g": g.grain(v, t)}]
                add(f"type-{t}", doc, ENC_MODES[k % len(ENC_MODES)], ["meta", "params"][k // 7 % 2], False, "encoder", rd)
                k += 1
    for i in range(c.scale(600, 6000)):
        add(f"doc{i}", g.doc(), c.rng.choice(ENC_MODES), c.rng.choice(["meta", "params"]), c.rng.random() < 0.4,
            c.rng.choice(["encoder", "segment", "list"]), c.rng.choice(READERS))
    c.judge("J_GsfRound", out)

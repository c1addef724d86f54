"""C02: bytes written by every kind of encoder session against Encode of Gsf.tla."""
import copy
import os
from common import call
import gsflib
from gsflib import Gen, encode, ENC_MODES, STREAMING, ONEPASS


def cases(c, n):
    g = Gen(c.rng, over=True)
    out = []
    tmp = os.path.join(c.work, "o.gsf")

    def add(name, doc, mode, how, late, via):
        ok, b = call(encode, doc, mode, how, late, via, bytes, tmp)
        out.append({"id": f"{name}:{mode}:{how}:{via}:v{doc['v']}", "doc": doc, "onepass": mode in ONEPASS,
                    "group": mode not in STREAMING, "ok": ok, "err": "" if ok else b, "bytes": list(b) if ok else []})

    # every grain type x version x construction, once per encoder kind
    k = 0
    for t in gsflib.CLASSES:
        for v in (7, 8, 9):
            for rep in range(c.scale(2, 6)):
                segs = g.segs(1)
                doc = g.doc(v, 0, 1)
                doc["segs"] = segs
                doc["grains"] = [{"lid": segs[0]["lid"], "g": g.grain(v, t)}]
                add(f"type-{t}", doc, ENC_MODES[k % len(ENC_MODES)], ["meta", "params"][rep % 2], False, "encoder")
                k += 1
    for i in range(n):
        mode = ENC_MODES[i % len(ENC_MODES)]
        add(f"doc{i}", g.doc(), mode, c.rng.choice(["meta", "params"]), c.rng.random() < 0.4,
            c.rng.choice(["encoder", "segment", "list"]))
    return out


def run(c):
    cs = cases(c, c.scale(400, 4000))
    c.judge("J_GsfEnc", cs)

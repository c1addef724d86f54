"""C03: conforming files, with every liberty the format allows, through every reader; judged by Decode of Gsf.tla."""
from gsffiles import conforming
from gsfread import Table, SOURCES, LOADING
import gsflib


def run(c):
    r = c.rng
    cases = []

    def one(name, b, docs, many):
        t = Table(name, b)
        lids = sorted({s["lid"] for d in docs for s in d["segs"]})
        combos = [(s, m) for s in SOURCES for m in LOADING]
        if not many:
            combos = r.sample(combos, 5)
        for s, m in combos:
            t.read(len(b), None, None, s, m, r.choice([(1,), (5, 3), (64,), (10000,)]), c.work)
        if len(docs) == 1:
            t.read(len(b), None, None, "bytesio", None, (7,), c.work, legacy=True)
        for conc in (True, False):
            s, m = r.choice(combos)
            t.read(len(b), conc, None, s, m, (9,), c.work)
        for _ in range(2):
            ids = r.sample(lids, r.randrange(len(lids) + 1)) if lids else []
            if r.random() < 0.2:
                ids = ids + [54321]
            s, m = r.choice(combos)
            t.read(len(b), r.random() < 0.7, ids, s, m, (9, 1), c.work)
        cases.append(t.done())

    for i in range(c.scale(200, 2500)):
        lib = r.choice([0.0, 0.15, 0.35, 0.5])
        nf = r.choice([1, 1, 1, 2, 3])
        b, lay, docs = conforming(r, lib, nf, ngrains=r.choice([0, 1, 2, 3, 4]))
        one(f"file{i}:n{nf}:lib{lib}", b, docs, i % 10 == 0)
    c.judge("J_GsfDec", cases)

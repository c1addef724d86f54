"""C17: comparisons of streams of grains, judged by StreamCompare.tla and GrainCompare.tla."""
import copy
import itertools
import re
import warnings
from common import call
from gsflib import Gen
import c16
from c16 import COMMON, OWN
from mediagrains.comparison import compare_grains_pairwise
from mediagrains.comparison import options as opt


class Tape:
    """A stream of grains which counts what is taken of it."""

    def __init__(self, grains, ends, how):
        self.taken = 0
        self.src = list(grains)
        self.ends = ends
        self.how = how

    def feed(self):
        for g in itertools.chain(self.src, () if self.ends else itertools.cycle(self.src[-1:])):
            self.taken += 1
            yield g

    def give(self):
        if self.how == 1 and self.ends:
            return self                                     # an iterable
        return self.feed()

    def __iter__(self):
        return self.feed()


def one(r, gen):
    t = r.choice(["empty", "coded_audio", "video", "audio", "event", "coded_video"])
    base = c16.grain(r, gen, t)
    pool = [base]
    names = COMMON[1:] + OWN[t] + ["data"]
    focus = r.sample(names, 3) + ["data"] * 2
    if r.random() < 0.4:
        focus += [n for n in names if n.endswith("_format")] * 2
    for _ in range(r.choice([0, 1, 2, 3])):
        g = copy.deepcopy(r.choice(pool))
        for n in r.sample(focus, r.choice([1, 1, 2])):
            c16.change(r, g, n)
        pool.append(g)
    if r.random() < 0.1:
        pool.append(c16.grain(r, gen))
    forms = [n for n in names if n.endswith("_format")]
    apart = bool(forms) and r.random() < 0.25
    if apart:
        # formats that differ, and are left out: the data of such a pair is not compared, that of others is
        for what in (forms, ["data"], forms + ["data"]):
            g = copy.deepcopy(base)
            for n in what:
                c16.change(r, g, n)
            pool.append(g)
    long = r.choice([0, 1, 2, 3, 5])
    sa = [r.choice(pool) if r.random() < 0.3 else base for _ in range(long)]
    keep = r.choice([0.3, 0.7, 0.9, 1])
    sb = [x if r.random() < keep else r.choice(pool) for x in sa]
    k = r.random()
    if k < 0.3:
        sb = sb[:r.randrange(len(sb) + 1)]
    elif k < 0.5:
        sb = sb + [r.choice(pool) for _ in range(r.choice([1, 2]))]
    sb = [copy.deepcopy(g) if r.random() < 0.5 else g for g in sb]
    enda = endb = True
    if r.random() < 0.2 and sa:
        enda = False
    if r.random() < 0.5:
        sa, sb, enda, endb = sb, sa, endb, enda
    o, spec = c16.options(r, base, pool[-1], r.choice([names, focus, focus]))
    if apart:
        n = r.choice([forms[0], "format"])
        o.append(getattr(opt.Exclude, n))
        spec.append({"o": "exclude", "name": n, "e": []})
        if r.random() < 0.5:
            o.append(opt.Exclude.length)
            spec.append({"o": "exclude", "name": "length", "e": []})
    last = r.random() < 0.35
    # an endless stream goes on with its last grain; say so for as long as it matters
    m = max(len(sa), len(sb)) + 1
    ta, tb = Tape(sa, enda, r.randrange(3)), Tape(sb, endb, r.randrange(3))
    va = sa if enda else sa + [sa[-1]] * (m - len(sa))
    vb = sb if endb else sb + [sb[-1]] * (m - len(sb))
    table, index = [], {}

    def place(g):
        if id(g) not in index:
            table.append(c16.obs(g))
            index[id(g)] = len(table)
        return index[id(g)]
    case = {"sa": [place(g) for g in va], "sb": [place(g) for g in vb], "grains": table, "enda": enda, "endb": endb, "opts": spec, "last": last,
            "trace": [repr(o), "last only" if last else ""]}
    ok, c = call(compare_grains_pairwise, ta.give(), tb.give(), *o, **({"return_last_only": last} if last or r.random() < 0.5 else {}))
    if not ok:
        return {"res": "raised " + c, "trace": case["trace"]}
    ok, s = call(lambda: [str(c), repr(c), c.msg])
    if not ok:
        return {"res": "report raised " + s, "trace": case["trace"]}
    case["res"] = "ok"
    case["ta"], case["tb"] = ta.taken, tb.taken
    case["match"], case["len"] = bool(c), len(c)
    case["keys"] = [x.key for x in c.children]
    case["truths"] = []
    for k in range(m + 1):
        ok, x = call(lambda: c[k])
        if ok:
            case["truths"].append([k, c16.tell(x)])
        elif x != "!KeyError" or k in case["keys"]:
            case["truths"].append([k, x])
    case["failing"] = list(c.failing_keys())
    f = re.search(r"differ first at entry (\d+)", c.msg)
    case["named"] = [int(f.group(1))] if f else []
    return case


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    c.model("MC_StreamCompare", "INIT Init\nNEXT MNext\nINVARIANT Ends\nINVARIANT NoFurther\nCONSTANT N = %d\nCHECK_DEADLOCK FALSE\n" % c.scale(5, 8), "outcome")
    c.model("MC_StreamCompare", "SPECIFICATION Spec\nPROPERTY Finishes\nCONSTANT N = %d\nCHECK_DEADLOCK FALSE\n" % c.scale(3, 5), "ends")
    gen = Gen(r)
    cases = []
    for i in range(c.scale(3000, 20000)):
        ok, v = call(one, r, gen)
        cases.append({"id": "streams %d" % i, **(v if ok else {"res": "raised " + v})})
    c.judge("J_StreamCompare", cases)

"""C19: the pictures of the video pattern generators, judged by PatternPicture.tla."""
import io
import warnings
from fractions import Fraction
from uuid import UUID
from mediatimestamp.immutable import Timestamp
from common import call
from c13 import VIDEO, comps
from mediagrains.cogenums import CogFrameFormat as VF, COG_FRAME_IS_COMPRESSED
from mediagrains.grains import VideoGrain
from mediagrains.gsf import GSFEncoder, GSFDecoder
from mediagrains.patterngenerators.video import LumaSteps, ColourBars, MovingBarOverlay
from mediagrains.patterngenerators.video.still import StillPatternGenerator

SRC, FLOW = UUID(int=11), UUID(int=12)
FORMATS = [d + c + b for d, b in (("U8_", ""), ("S16_", "_10BIT"), ("S16_", "_12BIT"), ("S16_", "")) for c in ("444", "422", "420")]
DYADIC = [(0, 1), (1, 1), (3, 4), (1, 2), (1, 4), (7, 8), (1, 8)]
SPEEDS = [(1, 1), (2, 1), (3, 1), (0, 1), (1, 2), (1, 4), (3, 2), (-1, 1), (-1, 2), (7, 1), (-5, 4)]


def size(r, f):
    w = r.choice([8, 16, 16, 24, 40]) if r.random() < 0.5 else r.randrange(1, 41)
    h = r.choice([2, 4, 6]) if r.random() < 0.6 else r.randrange(1, 10)
    if f.find("420") >= 0 and h < 2:
        h = 2
    if "444" not in f and w < 2:
        w = 2
    if w * h > 160:
        h = max(2, 160 // w)
    return w, h


def given(r, f, w, h, rate):
    """A picture of any samples, with room between lines and between components, and how it comes."""
    g = VideoGrain(src_id=SRC, flow_id=FLOW, width=w, height=h, cog_frame_format=VF[f], rate=rate)
    at = r.choice([0, 0, 5])
    if r.random() < 0.6:
        order = r.sample([0, 1, 2], 3) if r.random() < 0.3 else [0, 1, 2]
        for i in order:
            k = g.components[i]
            k.stride += r.choice([0, 2, 6])
            k.offset = at
            k.length = k.stride * k.height + r.choice([0, 4])
            at += k.length + r.choice([0, 3])
    n = max(k.offset + k.stride * k.height for k in g.components) + r.choice([0, 3])
    g.data = bytearray(r.randbytes(n))
    base = bytes(g.data)
    how = r.choice(["bytearray", "bytearray", "bytes", "gsf"])
    if how == "gsf" and [k.offset for k in g.components] != [sum(k.length for k in g.components[:i]) for i in range(3)]:
        how = "bytes"                       # a file cannot say where components start
    if how == "bytes":
        g.data = bytes(g.data)
    if how == "gsf":
        f = io.BytesIO()
        with GSFEncoder(f) as e:
            e.add_segment().add_grain(g)
        f.seek(0)
        dec = GSFDecoder(file_data=f)
        dec.__enter__()
        g = next(iter(dec.grains()))[0]
    return g, base


def one(r):
    f = r.choice(FORMATS)
    w, h = size(r, f)
    rate = r.choice([Fraction(25), Fraction(30000, 1001), Fraction(50), Fraction(1, 2)])
    n = r.choice([0, 1, 2, 3, 5, 7, 11, 24, 25, 100, 1001, 10 ** 6 + 3, -1, -2, -7])
    case = {"f": f, "w": w, "h": h, "bar": []}
    kind = r.choice(["steps", "bars", "bars", "given"])
    case["pattern"] = kind
    if kind == "steps":
        gen = LumaSteps(SRC, FLOW, w, h, rate=rate, cog_frame_format=VF[f])
    elif kind == "bars":
        num, den = r.choice(DYADIC + [(3, 4)] * 3) if r.random() < 0.7 else (r.randrange(1, 10), 10)
        case.update(num=num, den=den, exact=den != 10)
        kw = {} if (num, den) == (3, 4) and r.random() < 0.5 else {"intensity": num / den}
        gen = ColourBars(SRC, FLOW, w, h, rate=rate, cog_frame_format=VF[f], **kw)
    else:
        g, base = given(r, f, w, h, rate)
        case["base"] = list(base)
        gen = StillPatternGenerator(g)
    trace = [f, w, h, kind, case.get("num", 0), case.get("den", 0)]
    if kind == "given" or r.random() < 0.55:
        for _ in range(r.choice([1, 1, 1, 1, 0])):
            num, den = r.choice(SPEEDS)
            bh = r.choice([1, 2, 3, h // 2, h, h + 1, 2 * h, 0]) if r.random() < 0.9 else 100
            s = num / den if den != 1 or r.random() < 0.5 else num
            kw = {} if (num, den) == (1, 1) and r.random() < 0.3 else {"speed": s}
            gen = MovingBarOverlay(gen, **kw) if bh == 100 else MovingBarOverlay(gen, height=bh, **kw)
            case["bar"] = [{"n": n, "num": num, "den": den, "bh": bh}]
            trace += ["frame", n, "speed", num, den, "bar", bh]
    case["trace"] = trace
    T = Timestamp.from_count(n, rate.numerator, rate.denominator)
    first = r.choice([None, None, n + 1, n - 2, 0])
    if first is not None:
        # some other picture beforehand
        other = gen[Timestamp.from_count(first, rate.numerator, rate.denominator)]
        if isinstance(other.data, bytearray):
            other.data[0:3] = b"\x07\x07\x07"
    g = gen[T]
    case["cs"] = comps(g)
    case["data"] = list(bytes(g.data))
    return case


def refused(r, f):
    kind = r.choice([LumaSteps, ColourBars, MovingBarOverlay])
    if kind is MovingBarOverlay:
        g = VideoGrain(src_id=SRC, flow_id=FLOW, width=16, height=2, cog_frame_format=f)
        ok, v = call(lambda: MovingBarOverlay(StillPatternGenerator(g)))
    else:
        ok, v = call(kind, SRC, FLOW, 16, 2, cog_frame_format=f)
    return {"pattern": "refused", "res": "accepted" if ok else v, "trace": [kind.__name__, f.name]}


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    k = "CONSTANT H = %d\nCONSTANT N = %d\nCHECK_DEADLOCK FALSE\n" % (c.scale(6, 9), c.scale(9, 20))
    c.model("MC_PatternPicture", "SPECIFICATION Spec\nINVARIANT Covers\nINVARIANT InPicture\nINVARIANT Together\nINVARIANT Grey\nPROPERTY Moves\n" + k, "bar")
    cases = []
    for f in VIDEO:
        if f not in FORMATS:
            for i in range(3):
                cases.append({"id": "refused %s %d" % (f, i), **refused(r, VF[f])})
    for i in range(c.scale(6000, 40000)):
        ok, v = call(one, r)
        cases.append({"id": "picture %d" % i, **(v if ok else {"pattern": "failed", "res": "raised " + v})})
    c.judge("J_PatternPicture", cases)

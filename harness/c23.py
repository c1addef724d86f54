"""C23: H.264 byte streams, parsed and wrapped, judged by H264.tla, WrapTime.tla and J_H264.tla."""
import random
import warnings
from fractions import Fraction
from uuid import UUID
from mediatimestamp.immutable import Timestamp
from common import call
import h264gen
from c12 import big, rate as enc_rate, RATES
from c21 import attrs, sources, start_time
from mediagrains.cogenums import CogFrameFormat as VF, CogFrameLayout
from mediagrains.grains import CodedVideoGrain
from mediagrains.utils import H264GrainWrapper
from mediagrains.utils.h264_parser import H264Parser

SIZE = ("origin_width", "origin_height", "coded_width", "coded_height")
BUT = ("origin_timestamp", "sync_timestamp", "rate", "duration", "is_key_frame", "unit_offsets", "temporal_offset") + SIZE


def ratio(x):
    return [] if x is None else [enc_rate(x)]


def info(i):
    if i is None:
        return []
    return [{"profile": i.profile, "flags": i.flags, "level": i.level, "depth": i.bit_depth, "cw": i.coded_width, "ch": i.coded_height, "w": i.width, "h": i.height,
             "sar": ratio(i.sample_aspect_ratio), "rate": ratio(i.frame_rate), "fixed": bool(i.fixed_frame_rate), "key": bool(i.key_frame)}]


def parse(seed):
    """A parser is given more and more of a stream, and what follows each picture it finds."""
    r = random.Random(seed)
    data = h264gen.stream(r, r.choice([1, 2, 3, 4]), 12)
    p = H264Parser()
    case = {"kind": "parse", "calls": [], "trace": []}
    at, upto = 0, 0
    while len(case["calls"]) < 12:
        upto = min(len(data), max(at, upto) + r.choice([1, 7, 30, 100, 1000, 1000]))
        b = r.choice([bytes, bytearray])(data[at:upto])
        o = {"bytes": list(b)}
        case["calls"].append(o)
        ok, v = call(p.parse_frame, b)
        if not ok:
            o["res"] = "refused" if v in ("!ValueError", "!UnavailableParamSets") else v
            break
        size, units, i = v
        if size is None:
            o["res"] = "more" if units is None and i is None else "more, with something"
            if upto == len(data):
                break
        else:
            o.update(res="found", size=size, units=list(units), info=info(i))
            at += size
    return case


def whole(seed):
    """One picture's bytes, with its unit offsets asked for, and given or not."""
    r = random.Random(seed)
    data = h264gen.stream(r, r.choice([1, 1, 1, 0]), 12)
    if r.random() < 0.15:
        data = data[:r.randint(0, len(data))]
    ok, units = call(lambda: list(H264Parser.get_nalu_byte_offsets(data)))
    case = {"kind": "whole", "bytes": list(data), "units": units if ok else [-1], "trace": []}
    if r.random() < 0.5 or not ok:
        ok, v = call(H264Parser().parse_frame_info, data)
    else:
        given = [u - (r.random() < 0.5 and u > 0 and data[u - 1] == 0) for u in units]          # at three or four byte start codes
        case["trace"] = ["given", given]
        ok, v = call(H264Parser().parse_frame_info, data, given)
    case["res"] = "found" if ok else "refused" if v in ("!ValueError", "!UnavailableParamSets") else v
    case["info"] = info(v) if ok else []
    return case


def wrap(seed, large=False):
    r = random.Random(seed)
    data = h264gen.stream(r, r.choice([0, 1, 2, 3, 3, 4, 5, 8]) if not large else 4, 30 if not large else 9000)
    m = r.random()
    if m < 0.15:
        data = data[:r.randint(0, len(data))]
    elif m < 0.2:
        data = data[r.randint(0, len(data)):]
    elif m < 0.22:
        data = bytes(r.choice([1, 2, 40]))
    elif m < 0.26:
        data = h264gen.unit(r, 0, r.choice([6, 9, 12]), b"\xff\x80")                    # nothing that tells the size
    rate = r.choice([x for x in RATES if x])
    t = CodedVideoGrain(src_id=UUID(int=r.getrandbits(128)), flow_id=UUID(int=r.getrandbits(128)), origin_timestamp=start_time(r, rate), rate=rate,
                        duration=r.choice([1 / rate, Fraction(1, 25)]), cog_frame_format=r.choice([VF.H264, VF.AVCI]), cog_frame_layout=r.choice(list(CogFrameLayout)),
                        origin_width=r.choice([1920, 0]), origin_height=1080, coded_width=r.choice([0, 1920]), coded_height=0,
                        temporal_offset=r.choice([0, 3]), is_key_frame=r.choice([True, False]), **({"creation_timestamp": Timestamp(5, 5)} if r.random() < 0.5 else {}))
    how, src, used, close = sources(r, data)
    upto = r.choice([1, 2, 10 ** 6, 10 ** 6, 10 ** 6])
    before = attrs(t)
    case = {"kind": "wrap", "bytes": list(data), "start": big(t.origin_timestamp.to_nanosec()), "rate": enc_rate(t.rate), "duration": enc_rate(t.duration),
            "size": [getattr(t, a) for a in SIZE], "t": attrs(t, BUT), "upto": upto, "grains": [], "end": "end", "apart": True, "kept": True,
            "trace": [how, "total", len(data)]}
    gs = []
    try:
        it = H264GrainWrapper(t, src).grains()
        p = 0
        while len(gs) < upto:
            try:
                g = next(it)
            except StopIteration:
                break
            d = bytes(g.data)
            case["grains"].append({"from": p if d == data[p:p + len(d)] else -1, "len": len(d), "units": list(g.unit_offsets), "attrs": attrs(g, BUT),
                                   "key": {None: "none", True: "yes", False: "no"}.get(g.is_key_frame, "?"), "size": [getattr(g, a) for a in SIZE],
                                   "ts": big(g.origin_timestamp.to_nanosec()), "sync": big(g.sync_timestamp.to_nanosec()),
                                   "rate": enc_rate(g.rate), "duration": enc_rate(g.duration)})
            gs.append((g, attrs(g), d))
            p += len(d)
        else:
            case["end"] = "asked"
    except ValueError:
        case["end"] = "refused"
    except Exception as e:
        case["end"] = type(e).__name__
    finally:
        close()
    if gs:
        g = gs[0][0]
        g.flow_id = UUID(int=3)
        g.rate = Fraction(1, 7)
        g.unit_offsets.append(10 ** 6)
        g.add_timelabel("other", 1, Fraction(1))
        case["apart"] = all(attrs(x) == a and bytes(x.data) == d for x, a, d in gs[1:])
    case["kept"] = attrs(t) == before
    return case


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    cfg = ("SPECIFICATION Spec\nCONSTANTS Units = %d\nBlock = 3\nHasty = %s\nINVARIANT Lossless\nINVARIANT Right\nINVARIANT Complete\nINVARIANT Stable\n"
           "PROPERTY Ends\nCHECK_DEADLOCK FALSE\n")
    c.model("MC_H264", cfg % (c.scale(6, 7), "FALSE"), "pictures found in blocks")
    c.refuted("MC_H264", cfg % (5, "TRUE"), "an empty read taken for the end too early")
    cases = []
    for name, f, n in (("parse", parse, c.scale(700, 9000)), ("whole", whole, c.scale(400, 5000)), ("wrap", wrap, c.scale(900, 9000)), ("large", lambda s: wrap(s, True), c.scale(8, 60))):
        for i in range(n):
            ok, v = call(f, r.getrandbits(64))
            cases.append({"id": "%s %d" % (name, i), **(v if ok else {"kind": "failed", "res": "raised " + v})})
    c.judge("J_H264", cases)
    c.assumptions += ["no prefix units (type 14), which would need looking ahead", "sources give nothing only at their end"]

"""C16: comparisons of real grains, judged by GrainCompare.tla."""
import copy
import json
import re
import struct
import warnings
import numpy as np
from fractions import Fraction
from uuid import UUID
from mediatimestamp.immutable import TimeOffset, Timestamp
from common import call
from gsflib import Gen, build_grain
from c12 import big
from c13 import AUDIO
from mediagrains import cogenums as ce
from mediagrains.comparison import compare_grain, compute_psnr
from mediagrains.comparison import options as opt
from mediagrains.grains import VideoGrain, AudioGrain, CodedVideoGrain, CodedAudioGrain, EventGrain
from mediagrains.numpy import VideoGrain as NPVideoGrain, AudioGrain as NPAudioGrain
from mediagrains.utils.iobytes import IOBytes
from io import BytesIO

COMMON = ["grain_type", "src_id", "flow_id", "rate", "duration", "length", "origin_timestamp", "sync_timestamp", "creation_timestamp", "timelabels"]
OWN = {"video": ["cog_frame_format", "width", "height", "cog_frame_layout"],
       "coded_video": ["cog_frame_format", "coded_width", "coded_height", "origin_width", "origin_height", "is_key_frame", "temporal_offset", "cog_frame_layout",
                       "unit_offsets"],
       "audio": ["cog_audio_format", "samples", "channels", "sample_rate"],
       "coded_audio": ["cog_audio_format", "samples", "channels", "sample_rate", "priming", "remainder"],
       "event": ["event_type", "topic", "event_data"], "empty": []}
TIMES = ["origin_timestamp", "sync_timestamp", "creation_timestamp"]
INTS = ["length", "width", "height", "coded_width", "coded_height", "origin_width", "origin_height", "temporal_offset", "samples", "channels", "sample_rate",
        "priming", "remainder"]
ALIAS = {"src_id": "source_id", "cog_frame_format": "format", "cog_audio_format": "format", "cog_frame_layout": "layout"}
ALL = sorted(set(sum(OWN.values(), COMMON + ["data"])))


def js(v):
    return json.dumps(v, sort_keys=True, default=lambda o: dict(o) if hasattr(o, "keys") else str(o))


def value(g, n):
    v = getattr(g, n)
    if n == "data":
        return ["none"] if v is None else ["data", list(bytes(v))]
    if n in TIMES:
        return ["time", big(v.to_nanosec())]
    if n in INTS and isinstance(v, int):
        return ["int", big(v)]
    if n in ("timelabels", "event_data"):
        return ["list", [[[k, js(dict(x)[k])] for k in dict(x)] for x in v]]
    if n == "unit_offsets":
        return ["list", [[["n", str(x)]] for x in v]]
    return ["is", str(type(v).__name__) + " " + (str(int(v)) if isinstance(v, int) else str(v))]


def obs(g):
    t = g.grain_type
    return {"t": t, "at": {n: value(g, n) for n in COMMON + OWN[t] + ["data"]}}


def condition(r, n, d, depth=0):
    """A condition on the difference, both ways; d is near what it will be."""
    if depth < 2 and r.random() < 0.2:
        a, ea = condition(r, n, d, depth + 1)
        b, eb = condition(r, n, d, depth + 1)
        return (a & b, ["and", ea, eb]) if r.random() < 0.5 else (a | b, ["or", ea, eb])
    k = d + r.choice([0, 0, 0, 1, -1, r.randrange(-5, 6)])
    x = TimeOffset(abs(k) // 10**9, abs(k) % 10**9, 1 if k >= 0 else -1) if n in TIMES else k
    e = getattr(opt.ExpectedDifference, n)
    op = r.choice(["==", "!=", "<", "<=", ">", ">="])
    return {"==": lambda: e == x, "!=": lambda: e != x, "<": lambda: e < x, "<=": lambda: e <= x, ">": lambda: e > x, ">=": lambda: e >= x}[op](), [op, big(k)]


def options(r, a, b, names):
    out, spec = [], []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
        k = r.random()
        if k < 0.5:
            n = r.choice(names)
            n = ALIAS.get(n, n) if r.random() < 0.5 else n
            out.append(opt.CompareOnlyMetadata if n == "data" and r.random() < 0.3 else getattr(opt.Exclude, n))
            spec.append({"o": "exclude", "name": n, "e": []})
        elif k < 0.65:
            n = r.choice(["creation_timestamp", "creation_timestamp", r.choice(names)])
            out.append(getattr(opt.Include, n))
            spec.append({"o": "include", "name": n, "e": []})
        else:
            n = r.choice([n for n in names if n in TIMES or n in INTS] or ["length"])
            x, y = getattr(a, n, 0), getattr(b, n, 0)
            if n in TIMES:
                x, y = x.to_nanosec(), y.to_nanosec()
            d = x - y if isinstance(x, int) and isinstance(y, int) else 0
            if abs(d) > 2**47 * 10**9:
                continue                                    # times differ by more than a time can hold
            o, e = condition(r, n, d)
            out.append(o)
            spec.append({"o": "expect", "name": n, "e": e})
    return out, spec


def change(r, g, n):
    """Give one attribute of g another value."""
    if n in TIMES:
        k = getattr(g, n).to_nanosec() + r.choice([1, -1, 40000000, 10**9, r.randrange(1, 10**12)])
        k = max(0, k)
        setattr(g, n, Timestamp(k // 10**9, k % 10**9))
    elif n in ("src_id", "flow_id"):
        u = UUID(int=getattr(g, n).int ^ (1 << r.randrange(128)))
        setattr(g, "source_id" if n == "src_id" else n, u)
    elif n in ("rate", "duration"):
        setattr(g, n, getattr(g, n) + r.choice([Fraction(1), Fraction(1, 1001)]))
    elif n == "timelabels":
        how = r.randrange(3)
        if how == 0 or not len(g.timelabels):
            g.add_timelabel("t%d" % r.randrange(3), r.randrange(5), Fraction(25))
        elif how == 1:
            del g.timelabels[r.randrange(len(g.timelabels))]
        else:
            t = g.timelabels[r.randrange(len(g.timelabels))]
            if r.random() < 0.5:
                t["tag"] = t["tag"][:5] + "x"
            else:
                t["timelabel"]["frames_since_midnight"] += 1
    elif n == "event_data":
        how = r.randrange(3)
        if how == 0 or not len(g.event_data):
            g.append("p%d" % r.randrange(3), pre=r.choice([None, 1, "x"]), post=r.choice([None, 2, [1]]))
        elif how == 1:
            del g.event_data[r.randrange(len(g.event_data))]
        else:
            e = g.event_data[r.randrange(len(g.event_data))]
            if r.random() < 0.4:
                e.path = e.path + "y"
            else:
                k = r.choice(["pre", "post"])
                setattr(e, k, r.choice(["z", 3]) if getattr(e, k) is None else r.choice([None, 4, getattr(e, k)]))
    elif n == "unit_offsets":
        v = list(g.unit_offsets)
        if v and r.random() < 0.6:
            v[r.randrange(len(v))] += 1
        elif v and r.random() < 0.5:
            v.pop()
        else:
            v.append(r.randrange(100))
        g.unit_offsets = v
    elif n in ("cog_frame_format", "cog_audio_format", "cog_frame_layout"):
        setattr(g, n, r.choice(list(type(getattr(g, n)))))
    elif n == "is_key_frame":
        g.is_key_frame = not g.is_key_frame
    elif n in ("event_type", "topic"):
        setattr(g, n, getattr(g, n) + r.choice(["a", "{}", "{0}"]))
    elif n in ("length", "data"):
        if g.grain_type == "event":
            return
        d = None if g.data is None else bytearray(g.data)
        how = r.randrange(10)
        if d is None:
            g.data = r.choice([b"", b"abcd"])
        elif how == 0:
            g.data = None
        elif n == "data" and d and how < 7:
            d[r.choice([0, len(d) - 1, r.randrange(len(d))])] ^= 1 << r.randrange(8)
            g.data = bytes(d)
        elif how == 7 and len(d) > 1:
            i = r.randrange(len(d))
            g.data = bytes(d[i:] + d[:i])
        elif how == 8:
            g.data = bytes(d[1:])
        else:
            g.data = bytes(d) + bytes(r.randrange(256) for _ in range(r.choice([1, 1, 2, 3, 4, 8])))
    elif n in INTS:
        v = getattr(g, n)
        setattr(g, n, (v or 0) + r.choice([1, 1, 2, 16]))


def floats(r, d, fmt):
    """Data holding the odd values of floating point; no zeroes, which compare equal whatever their sign."""
    code = "f" if fmt.startswith("FLOAT") else "d"
    n = max(1, len(d) // struct.calcsize(code))
    return b"".join(struct.pack(code, r.choice([float("nan"), float("inf"), -float("inf"), 1.0, -0.5, 1e-30, r.uniform(-1, 1) or 1.0])) for _ in range(n))


def grain(r, gen, t=None):
    d = gen.grain(9, t)
    t = d["t"]
    g = build_grain(d, r.choice(["meta", "params"]))
    g.creation_timestamp = Timestamp(r.randrange(10), r.randrange(10**9))
    if t == "audio" and r.random() < 0.7:
        g.cog_audio_format = ce.CogAudioFormat[r.choice(AUDIO)]
        n = g.cog_audio_format.name
        if n[:3] in ("FLO", "DOU"):
            g.data = floats(r, bytes(g.data or b""), n)
        elif r.random() < 0.5:
            g.data = bytes(r.randrange(256) for _ in range(r.choice([0, 3, 4, 6, 8, 12, 24, 25])))
    if t == "audio" and g.cog_audio_format.name[:3] in ("FLO", "DOU") and g.cog_audio_format.name not in AUDIO:
        g.cog_audio_format = ce.CogAudioFormat.S16_PLANES
    if t in ("coded_audio", "empty", "coded_video") and r.random() < 0.3:
        # long and repetitive data
        g.data = bytes(r.choice([0, 0, 0, 1, r.randrange(256)]) for _ in range(r.choice([199, 200, 201, 300])))
    if t != "event" and r.random() < 0.1:
        g.data = r.choice([bytearray(bytes(g.data or b"")), memoryview(bytes(g.data or b""))])
    return g


FIRST = re.compile(r"first different values are a\.data\[(\d+)\] == (-?\d+) and b\.data\[(\d+)\] == (-?\d+)")
EXTRA = re.compile(r"starting with [ab]\.data\[(\d+)\] = (-?\d+)")
SHOWN = re.compile(r"^\s*(equal|insert|delete|replace)\s+a\[(\d+):(\d+)\] --> b\[(\d+):(\d+)\]\s+\(([-\d, ]*)\) --> \(([-\d, ]*)\)$", re.M)


MARKS = {"\u25ef": "left out", "\u2705": "same", "\u274c": "differs"}
MARK = re.compile("^  ([%s])   ?(.*)$" % "".join(MARKS), re.M)


def bytewise(g):
    if g.grain_type == "video":
        f = g.cog_frame_format
        return f.name in ("U8_444", "U8_422", "U8_420", "YUYV", "UYVY", "RGB", "AYUV", "H264", "MJPEG")
    return g.grain_type in ("coded_audio", "coded_video", "empty")


def tell(x):
    ok, v = call(lambda: bool(x))
    return ("TRUE" if v else "FALSE") if ok else v


def pair(r, a, b, names):
    o, spec = options(r, a, b, names)
    before = [obs(a), obs(b)]
    ok, c = call(compare_grain, a, b, *o)
    if not ok:
        return {"kind": "comparison raised " + c, "trace": [repr(o)]}
    ok, text = call(str, c)
    ok2, m = call(lambda: c.msg)
    ok3, rep = call(repr, c)
    if not (ok and ok2 and ok3):
        return {"kind": "report raised %s %s %s" % (text, m if not ok2 else "", rep if not ok3 else ""), "trace": [repr(o)]}
    if [obs(a), obs(b)] != before:
        return {"kind": "comparison changed a grain", "trace": [repr(o)]}
    case = {"kind": "pair", "a": before[0], "b": before[1], "opts": spec, "match": bool(c), "failing": list(c.failing_attributes()), "parts": [], "lists": [],
            "told": [], "head": "", "first": [], "shown": [], "xa": [], "xb": [], "trace": [repr(x) for x in o]}
    marks = MARK.findall(text)
    case["head"] = MARKS.get(text[:1], "?") if len(marks) == len(c.children) else "%d marks for %d parts" % (len(marks), len(c.children))
    for (k, line), p in zip(marks, c.children):
        told = ["fails"] * ("(" + p.msg + ")" in m) + ["ignored"] * ("<IGNORING: " + p.msg + ">" in m)
        case["told"].append([p.attr, MARKS[k] if line.strip() and p.msg.startswith(line.split("\n")[0].rstrip("\r")) else "no reason given", told])
    for n in ALL:
        ok, p = call(getattr, c, n)
        if not ok:
            case["parts"].append([n, "missing", False])
            continue
        case["parts"].append([n, tell(p), bool(p.excluded())])
        if n in ("timelabels", "unit_offsets", "event_data"):
            case["lists"].append([n, list(p.failing_keys())])
    if bytewise(a) and bytewise(b) and a.data is not None and b.data is not None and a.grain_type == b.grain_type:
        case["xa"], case["xb"] = list(bytes(a.data)), list(bytes(b.data))
        ok, p = call(getattr, c, "data")
        f = (FIRST.search(p.msg) or EXTRA.search(p.msg)) if ok else None
        if f:
            case["first"] = [int(f.group(1))]
        if ok:
            nums = (lambda s: [int(x) for x in s.split(",") if x.strip()])
            case["shown"] = [[s[0]] + [int(x) for x in s[1:5]] + [nums(s[5]), nums(s[6])] for s in SHOWN.findall(str(p))]
    return case


PSNRV = ["U8_444", "U8_422", "U8_420", "S16_422_10BIT", "S16_444_12BIT", "S16_420", "YUYV", "UYVY", "v216", "RGB", "S32_444", "v210", "U8_444_RGB", "ARGB"]


def psnr(r):
    if r.random() < 0.6:
        f = r.choice(PSNRV)
        w, h = r.choice([(4, 2), (6, 2), (2, 4)] + ([] if "420" in f else [(2, 1), (8, 1)]))   # no empty components
        a = VideoGrain(src_id=UUID(int=1), flow_id=UUID(int=2), cog_frame_format=ce.CogFrameFormat[f], width=w, height=h, origin_timestamp=Timestamp(1, 0))
        top = (1 << ce.COG_FRAME_FORMAT_ACTIVE_BITS(ce.CogFrameFormat[f])) - 1
        lo, scale, view = 0, 1, (lambda g: NPVideoGrain(grain=g).component_data)
        peak = top
    else:
        f = r.choice([x for x in AUDIO])
        n, ch = r.choice([(1, 1), (3, 2), (5, 1), (4, 4)])
        a = AudioGrain(src_id=UUID(int=1), flow_id=UUID(int=2), cog_audio_format=ce.CogAudioFormat[f], samples=n, channels=ch, origin_timestamp=Timestamp(1, 0))
        bits = 32 if f.startswith("S24") or f.startswith("S32") else 16
        scale = 256 if f[0] in "FD" else 1
        lo, top = (-256, 256) if scale > 1 else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        peak = 256 if scale > 1 else 1 << (bits - 1)
        view = (lambda g: NPAudioGrain(grain=g).channel_data)
    b = copy.deepcopy(a)
    spread = r.choice([0, 1, 3, 20, top // 100 + 1, top // 10 + 1, top])
    flat = r.randrange(lo, top + 1)
    for va, vb in zip(view(a), view(b)):
        xa, xb = va.reshape(-1), vb.reshape(-1)
        same = r.random() < 0.2
        for i in range(len(xa)):
            x = r.choice([flat, r.randrange(lo, top + 1), top, lo])
            y = x if same else min(top, max(lo, x + r.randrange(-spread, spread + 1)))
            if f.startswith("S24"):
                x, y = x & ~255, y & ~255
            va[np.unravel_index(i, va.shape)] = x / scale if scale > 1 else x
            vb[np.unravel_index(i, vb.shape)] = y / scale if scale > 1 else y
    if f.startswith("S24"):
        # views of packed samples do not write through
        a.data = bytes(r.randrange(256) for _ in range(len(bytes(a.data))))
        d = bytearray(bytes(a.data))
        for i in range(r.choice([0, 1, 3, len(d)])):
            d[r.randrange(len(d))] ^= 1 << r.randrange(8)
        b.data = bytes(d)
    conv = (lambda v: [big(int(round(float(x) * scale)) if scale > 1 else int(x)) for x in v.reshape(-1)])
    comps = [[big(peak), conv(x), conv(y)] for x, y in zip(view(a), view(b))]
    case = {"kind": "psnr", "comps": comps, "asked": [], "f": f}
    ok, v = call(compute_psnr, a, b)
    if not ok or len(v) != len(comps):
        return {"kind": "psnr: %s" % v}
    for _ in range(8):
        o, said = [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            th = [r.choice([-1, 0, 1, 2, 3, 4, 5, 6, 8]) for _ in range(r.choice([len(comps), len(comps), 1]))]
            near = [int(x // 10) + r.choice([0, 0, 1]) if x != float("inf") and x >= 0 else 3 for x in v]
            if r.random() < 0.7:
                th = near
            cmp = r.choice(["<", "<=", ">", ">="])
            want = [None if k < 0 else 10.0 * k for k in th]
            p = opt.PSNR.data
            o.append({"<": lambda: p < want, "<=": lambda: p <= want, ">": lambda: p > want, ">=": lambda: p >= want}[cmp]())
            said.append([cmp, th])
        if r.random() < 0.2:
            o.append(opt.Exclude.flow_id)
        ok, c = call(compare_grain, a, b, *o)
        case["asked"].append([said, (tell(c.data) if tell(c) == tell(c.data) and ("data" in c.failing_attributes()) == (not c) else "inconsistent") if ok else c])
    return case


def nopsnr(r):
    """Grains whose pictures or sounds may not be comparable so, with their data compared by the ratio of signal to noise."""
    ids = dict(src_id=UUID(int=1), flow_id=UUID(int=2), origin_timestamp=Timestamp(1, 0))
    C = ce.CogFrameFormat

    def one(k):
        if k == "audio":
            f, n, ch = r.choice([("S16_PLANES", 4, 2), ("S16_PLANES", 4, 2), ("S16_PLANES", 4, 1), ("S16_PLANES", 3, 2), ("FLOAT_PLANES", 4, 2)])
            return ["audio", f, n, ch, False], AudioGrain(cog_audio_format=ce.CogAudioFormat[f], samples=n, channels=ch, **ids)
        if k == "video":
            f, w, h = r.choice([("U8_444", 4, 2), ("U8_444", 4, 2), ("U8_444", 6, 2), ("U8_444", 4, 4)])
            return ["video", f, w, h, False], VideoGrain(cog_frame_format=C[f], width=w, height=h, **ids)
        if k == "packed":
            return ["video", "H264", 4, 2, True], VideoGrain(cog_frame_format=C.H264, width=4, height=2, data=b"abc", **ids)
        if k == "coded":
            return ["coded_audio", "AAC", 0, 0, True], CodedAudioGrain(cog_audio_format=ce.CogAudioFormat.AAC, data=b"abc", **ids)
        return ["coded_video", "H264", 0, 0, True], CodedVideoGrain(cog_frame_format=C.H264, data=b"abc", **ids)
    k = r.choice(["audio", "audio", "video", "video", "packed"])
    fa, a = one(k)
    fb, b = one(k if r.random() < 0.85 else r.choice(["audio", "video"]))
    o = [opt.PSNR.data >= r.choice([[0.0], [None], [20.0, 20.0, 20.0]])]
    out = r.random() < 0.3
    if out:
        o.insert(r.randrange(2), opt.Exclude.data)
    ok, c = call(compare_grain, a, b, *o)
    if not ok:
        return {"kind": "comparison raised " + c}
    ok, text = call(str, c)
    if not ok:
        return {"kind": "report raised " + text}
    return {"kind": "nopsnr", "fa": fa, "fb": fb, "out": out, "match": bool(c), "failing": list(c.failing_attributes())}


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    cfg = "INIT Init\nNEXT MNext\nINVARIANT Laws\nCONSTANT MaxOpts = %d\nCONSTANT Vary = {%s}\nCONSTANT Opts = {%s}\nCHECK_DEADLOCK FALSE\n"
    q = (lambda *s: ", ".join('"%s"' % x for x in s))
    c.model("MC_GrainCompare", cfg % (2, q("creation_timestamp", "sync_timestamp", "data", *c.scale([], ["cog_frame_format"])),
                                      q("c", "d", "format", "data", "sync_timestamp", "creation_timestamp", "grain_type")), "options")
    c.model("MC_GrainCompare", cfg % (c.scale(1, 2), q("length", "event_data", "timelabels", "samples", "src_id"),
                                      q("l", "event_data", "topic", "length", "source_id", "data")), "lists and lengths")
    gen = Gen(r)
    cases = []

    def add(name, f, *a):
        ok, v = call(f, *a)
        cases.append({"id": name, **(v if ok else {"kind": "raised " + v})})

    def make(i, t):
        a = grain(r, gen, t)
        how = r.random()
        if how < 0.1:
            b = grain(r, gen, r.choice([a.grain_type, None]))
        elif how < 0.2:
            b = grain(r, gen, a.grain_type)
            for n in r.sample(["origin_timestamp", "sync_timestamp"], 2):
                setattr(b, n, getattr(a, n))
        else:
            b = copy.deepcopy(a)
            if r.random() < 0.2 and a.grain_type in ("coded_audio", "coded_video", "video", "audio") and a.data is not None:
                raw = bytes(a.data)
                b.data = r.choice([bytearray(raw), memoryview(raw), IOBytes(BytesIO(b"xx" + raw), 2, len(raw))])
            names = COMMON[1:] + OWN[a.grain_type] + ["data", "data"] + [n for n in OWN[a.grain_type] if n in ("event_data", "unit_offsets")] * 4
            touched = r.sample(names, r.choice([0, 0, 1, 1, 1, 2, 3]))
            for n in touched:
                change(r, b, n)
        names = COMMON + OWN[a.grain_type] + ["data"]
        diff = [n for n in names if hasattr(b, n) and value(a, n) != value(b, n)]
        if r.random() < 0.5:
            a, b = b, a
        return pair(r, a, b, (diff or names) + names[:r.choice([0, 3, len(names)])])
    for i in range(c.scale(3500, 25000)):
        t = r.choice(["empty", "video", "coded_video", "audio", "coded_audio", "event", "event", "audio", "video"])
        add("pair %d %s" % (i, t), make, i, t)
    for i in range(c.scale(250, 2500)):
        add("psnr %d" % i, psnr, r)
    for i in range(c.scale(150, 1500)):
        add("without psnr %d" % i, nopsnr, r)
    c.judge("J_GrainCompare", cases)
    c.assumptions += ["Zeroes of either sign in floating point audio are not distinguished by the library and not generated.",
                      "Ratios of signal to noise are placed among multiples of ten decibels; a ratio exactly on one is not judged."]

"""C15: conversions of numpy video grains, judged by Convert.tla."""
import copy
import uuid
import warnings
from fractions import Fraction
import numpy as np
from mediatimestamp.immutable import Timestamp
from common import call
from mediagrains.grains import VideoGrain
from mediagrains.numpy import VideoGrain as NPVideoGrain
from mediagrains.cogenums import CogFrameFormat as VF, CogFrameLayout
from c13 import VIDEO, comps

ALPHA = ("AYUV", "RGBA", "BGRA", "ARGB", "ABGR")
OK = [f for f in VIDEO if not f.startswith("ALPHA") and f not in ALPHA]


def bits(f):
    return 10 if "10BIT" in f or f == "v210" else 12 if "12BIT" in f else 32 if f.startswith("S32") else 16 if f.startswith("S16") or f == "v216" else 8


def content(r, f, m):
    """Bytes of a picture with samples within the range of the format; everything between them arbitrary."""
    n = m.expected_length
    b = bits(f)
    how = r.randrange(4)
    flat = [r.getrandbits(b) for _ in range(4)]

    def sample():
        if how == 0:
            return r.getrandbits(b)
        if how == 1:
            return r.choice([0, 1, 2, (1 << b) - 1, (1 << b) - 2, 1 << (b - 1), (1 << (b - 1)) - 1])
        if how == 2:
            return (1 << b) - 1 - min(r.getrandbits(b), r.getrandbits(b), r.getrandbits(3))
        return r.choice(flat)
    if f == "v210":
        out = bytearray()
        for _ in range(n // 4):
            out += (sample() | sample() << 10 | sample() << 20 | r.getrandbits(2) << 30).to_bytes(4, "little")
        return bytes(out)
    size = 4 if b == 32 else 1 if b == 8 else 2
    return b"".join(sample().to_bytes(size, "little") for _ in range(n // size))


def relayout(r, m):
    at = 4 * r.randrange(2)
    for c in m.components:
        c.stride = c.stride + 4 * r.randrange(2) + (-c.stride) % 4
        c.offset = at
        c.length = c.stride * c.height
        at += c.length + 4 * r.randrange(2)


def kept(g):
    return {"source": str(g.source_id), "width": str(g.width), "height": str(g.height), "origin": str(g.origin_timestamp), "sync": str(g.sync_timestamp),
            "rate": str(g.rate), "duration": str(g.duration), "layout": str(int(g.cog_frame_layout)), "source aspect": str(g.source_aspect_ratio),
            "pixel aspect": str(g.pixel_aspect_ratio), "labels": str([dict(x) for x in g.timelabels]), "type": g.grain_type}


def one(r, a, b, w, h, kind):
    m = VideoGrain(cog_frame_format=VF[a], width=w, height=h, src_id=uuid.UUID(int=r.getrandbits(128)), flow_id=uuid.UUID(int=r.getrandbits(128)),
                   origin_timestamp=Timestamp(r.randrange(1 << 30), r.randrange(10**9)), sync_timestamp=Timestamp(r.randrange(1 << 30), r.randrange(10**9)),
                   rate=Fraction(r.randrange(0, 60), r.choice([1, 1001])), duration=Fraction(r.randrange(0, 4), r.choice([25, 7])),
                   cog_frame_layout=r.choice(list(CogFrameLayout)))
    if r.random() < 0.4:
        m.source_aspect_ratio = Fraction(r.randrange(1, 20), r.randrange(1, 20))
    if r.random() < 0.4:
        m.pixel_aspect_ratio = Fraction(r.randrange(1, 20), r.randrange(1, 20))
    for k in range(r.choice([0, 0, 1, 2])):
        m.add_timelabel("label %d" % k, r.randrange(2**31), Fraction(r.randrange(1, 60)), r.random() < 0.5)
    if a != "v210" and r.random() < 0.3:
        relayout(r, m)
    data = content(r, a, m)
    g = NPVideoGrain(m.meta, data if r.random() < 0.5 else bytearray(data))
    before, meta = kept(g), copy.deepcopy(g.meta)
    case = {"from": a, "to": b, "w": w, "h": h, "kind": kind, "ca": comps(g), "a": list(data), "cb": [], "b": [], "same": False, "shares": False, "kept": [], "flow": True, "fmt": "", "still": True}
    ok, x = call(g.convert if kind == "convert" else g.asformat, VF[b])
    case.update(res="ok" if ok else x.lstrip("!"), a2=list(bytes(g)), still=bool(g.meta == meta))
    if ok and isinstance(x, NPVideoGrain):
        after = kept(x)
        case.update(b=list(bytes(x)), cb=comps(x), same=x is g, shares=bool(np.shares_memory(x.data, g.data)), kept=[[k, before[k], after[k]] for k in before],
                    fmt=VF(x.cog_frame_format).name,
                    flow=bool(x.flow_id == (g.flow_id if a == b else g.flow_id_for_converted_flow(VF[b])) and (a == b or g.flow_id_for_converted_flow(VF[b]) != g.flow_id)))
        if x is not g:                              # whatever is then done with the result, the source is as it was
            for t in x.timelabels:
                t.tag, t.count = "changed", 77
            x.components[0].offset += 8
            x.src_id = uuid.UUID(int=5)
            x.source_aspect_ratio = Fraction(1, 77)
            case["still"] = bool(g.meta == meta)
    elif ok:
        case["res"] = type(x).__name__
    return case


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    np.random.seed(r.getrandbits(32))
    c.model("MC_Convert", "INIT Init\nNEXT MNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n", "Convert")
    cases = []
    v210 = [(2, 2), (6, 2), (8, 2), (10, 4), (46, 2), (48, 2), (50, 2), (98, 2)]
    for a in VIDEO:
        for b in VIDEO:
            sizes = []
            if a in OK and b in OK:
                for _ in range(c.scale(1, 8)):
                    sizes.append(r.choice(v210) if "v210" in (a, b) else (2 * r.randrange(1, 5), 2 * r.randrange(1, 4)))
                odd = [f for f in (a, b) if f in ("v210", "UYVY", "YUYV", "v216") or "422" in f]
                # formats of one arrangement convert at any size
                if (len(odd) == 2 and bits(a) == bits(b)) or all("RGB" in f or "BGR" in f for f in (a, b)) or all("_444" in f and "RGB" not in f for f in (a, b)):
                    sizes += [(r.randrange(1, 60 if "v210" in (a, b) else 9), r.randrange(1, 6)) for _ in range(c.scale(2, 12))]
            elif r.random() < 0.15:
                sizes.append((4, 2))
            for w, h in sizes:
                kind = "asformat" if r.random() < 0.25 else "convert"
                cases.append({"id": f"{a}-{b} {w}x{h} {kind}", **one(r, a, b, w, h, kind)})
    c.judge("J_Convert", cases)
    c.assumptions += ["pictures whose size the subsampled formats do not divide are converted between formats of the same arrangement only",
                      "samples of 10 and 12 bit formats are within their range; the low bits of widened samples are free",
                      "colour conversion: within 1 level of the exact result at equal depth, within 4 levels of the coarser depth otherwise; 32-bit samples by their upper 16 bits"]

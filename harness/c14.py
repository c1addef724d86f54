"""C14: the array views of numpy grains, judged by NumpyViews.tla."""
import asyncio
import copy
import hashlib
import warnings
from fractions import Fraction
import numpy as np
from common import call
from mediagrains.grains import VideoGrain, AudioGrain
from mediagrains.numpy import VideoGrain as NPVideoGrain, AudioGrain as NPAudioGrain
from mediagrains.cogenums import CogFrameFormat as VF, CogAudioFormat as AF, CogFrameLayout
from mediatimestamp.immutable import Timestamp
from c13 import VIDEO, AUDIO, IDS, comps

BITS3 = ("S24_PLANES", "S24_PAIRS", "S24_INTERLEAVED")


def dt(a):
    return [a.dtype.kind, a.dtype.itemsize] if a.dtype.byteorder in "|=<" else ["big", 0]


class World:
    """Grains showing buffers; every assigned object is remembered so that further grains can be put on it."""
    def __init__(self, r, f, video, w, h, odd):
        self.r, self.f, self.video = r, f, video
        if video:
            m = VideoGrain(cog_frame_format=VF[f], width=w, height=h, **IDS)
            self.meta = m.meta
            if odd:
                self.relayout(m)
            self.L = {"video": True, "f": f, "cs": comps(m), "channels": 0, "samples": 0}
            bpv = 4 if f == "v210" else {"S16": 2, "S32": 4}.get(f.replace("ALPHA_", "")[:3], 2 if f == "v216" else 1)
            self.item, self.size = bpv, max([c["offset"] + max(c["length"], c["stride"] * c["height"]) for c in self.L["cs"]] + [0])
            if odd:
                self.size += bpv * r.randrange(3)
            self.dtype = {1: np.uint8, 2: np.uint16, 4: np.uint32}[bpv]
        else:
            m = AudioGrain(cog_audio_format=AF[f], channels=w, samples=h, **IDS)
            self.meta = m.meta
            self.L = {"video": False, "f": f, "cs": [], "channels": w, "samples": h}
            self.size = len(m.data)
            self.dtype = {"S16": np.int16, "S24": np.uint8, "S32": np.int32, "FLO": np.float32, "DOU": np.float64}[f[:3]]
            self.item = np.dtype(self.dtype).itemsize
            if odd:
                self.size += 24 * r.randrange(3)                                    # longer than needed
        self.cls, self.base = (NPVideoGrain, VideoGrain) if video else (NPAudioGrain, AudioGrain)
        self.objs = {}

    def relayout(self, m):
        """Other strides, gaps and orders of components than a new grain has."""
        r = self.r
        at = 4 * r.randrange(3)                                             # everything stays a multiple of four bytes
        order = list(range(len(m.components)))
        r.shuffle(order)
        for i in order:
            c = m.components[i]
            c.stride = c.stride + 4 * r.randrange(3) + (-c.stride) % 4
            c.offset = at
            c.length = max(c.stride * c.height, c.length)
            c.length += (-c.length) % 4
            at += c.length + 4 * r.randrange(3)

    def content(self):
        """Bytes with every sample different from its neighbours, never NaN."""
        r = self.r
        if self.f[:3] in ("FLO", "DOU"):
            n = self.size // self.item
            return np.array([r.uniform(-1, 1) * 2.0 ** r.randrange(-20, 20) for _ in range(n)], dtype=self.dtype).tobytes()
        return bytes(r.randrange(256) for _ in range(self.size))

    def value(self, raw=False):
        """One sample: bytes and the number to write."""
        dtype = np.dtype(self.dtype)
        if dtype.kind == "f":
            a = np.array([self.r.uniform(-1, 1)], dtype=dtype)
        else:
            a = np.frombuffer(bytes(self.r.choice([0, 255, self.r.randrange(256), 128]) for _ in range(dtype.itemsize)), dtype=dtype)
        return list(a.tobytes()), a[0]

    def spell(self, b):
        how = self.r.choice(["bytes", "bytearray", "bytearray", "memoryview", "array", "array"])
        if how == "bytes":
            return b, False
        if how == "memoryview":
            return memoryview(bytearray(b)), True
        if how == "array":
            return np.frombuffer(bytearray(b), dtype=self.r.choice([self.dtype, np.uint8])), True
        return bytearray(b), True

    def build(self, data):
        how = self.r.randrange(4)
        m = copy.deepcopy(self.meta)
        if how == 0:
            return self.cls(m, data)
        if how == 1:
            return self.cls(meta=m, data=data)
        if how == 2:
            return self.cls(grain=self.base(m, data))
        g = self.cls(m, bytes(self.size))
        g.data = data
        return g


def views(g):
    return list(g.component_data if hasattr(g, "component_data") else g.channel_data)


def observe(G):
    out = []
    for g in G:
        d = g.data
        V = views(g)
        o = {"has": d is not None, "shapes": [list(v.shape) for v in V], "len": g.length, "raw": list(bytes(g)), "type": [dt(v) for v in V],
             "rtype": dt(d) if d is not None else [], "names": {}, "atype": [], "arr": []}
        if d is not None:
            x = np.array(g)
            o["atype"], o["arr"] = dt(x), list(x.tobytes())
        o["dumps"] = [list(np.ascontiguousarray(v.T).tobytes()) for v in V]
        cd = getattr(g, "component_data", [])
        for n in "YUVRGB":
            x = getattr(cd, n, None)
            o["names"][n] = next((k + 1 for k, v in enumerate(V) if v is x), 0 if x is None else -1)
        out.append(o)
    return out


def history(w, script):
    r = w.r
    b = w.content()
    blank = r.random() < 0.2 and w.size and len(w.L["cs"]) in (0, 1, 3) and not w.odd
    if blank:
        ok, g = call(lambda: w.cls(cog_frame_format=VF[w.f], width=w.wh[0], height=w.wh[1], **IDS) if w.video else
                     w.cls(cog_audio_format=AF[w.f], channels=w.wh[0], samples=w.wh[1], **IDS))
        b, wr = bytes(w.size), True
        obj = None
    else:
        obj, wr = w.spell(b)
        ok, g = call(w.build, obj)
    case = {"L": w.L, "first": "ok" if ok else g, "v0": list(b), "w0": wr, "evs": [], "obs0": []}
    if not ok:
        return case
    G, O = [g], [obj if obj is not None else g.data]
    ok, case["obs0"] = call(observe, G)
    if not ok:
        case["first"] = case["obs0"]
        return case
    for op, i, arg in script:
        if i > len(G):
            continue
        g = G[i - 1]
        e = {"op": op, "i": i, "c": 0, "x": 0, "y": 0, "v": [], "w": False, "sh": False, "res": "ok"}
        new = w.content()
        todo = None
        if op in ("set", "fill"):
            V = [k for k, v in enumerate(views(g)) if v.size]
            if not V or w.f in BITS3 or g.data is None:
                continue
            e["c"] = r.choice(V) + 1
            v = views(g)[e["c"] - 1]
            e["x"] = v.shape[0] - 1 if arg == "last" else r.randrange(v.shape[0])
            e["y"] = r.randrange(v.shape[1]) if w.video else 0
            e["v"], x = w.value()
            if op == "fill":
                todo = lambda: v.__setitem__(Ellipsis, x)                            # noqa: E731
            else:
                todo = lambda: v.__setitem__((e["x"], e["y"]) if w.video else e["x"], x)                 # noqa: E731
        elif op == "raw":
            if g.data is None or not len(g.data) or w.f in BITS3:
                continue
            e["x"] = len(g.data) - 1 if arg else r.randrange(len(g.data))
            e["v"], x = w.value()
            todo = lambda: g.data.__setitem__(e["x"], x)                             # noqa: E731
        elif op in ("data", "fetch"):
            obj, e["w"] = w.spell(new)
            e["v"] = list(new)
            O[i - 1] = obj

            def todo():
                if op == "data":
                    g.data = obj
                    return

                async def source():
                    return obj

                async def go():
                    g.data = source()
                    if g.data is not None or views(g):
                        raise LookupError("data or views of a grain still waiting")
                    x = await g
                    if x is not g.data:
                        raise LookupError("awaiting the grain gave something else")
                asyncio.run(go())
        elif op == "none":
            def todo():
                g.data = None
        elif op in ("deep", "copy"):
            def todo():
                h = (copy.copy if op == "copy" else copy.deepcopy)(g)
                if type(h) is not w.cls:
                    raise LookupError("type of the copy")
                G.append(h)
                if h.data is not None:
                    e["w"] = bool(h.data.flags.writeable)
                    e["sh"] = bool(w.size and np.shares_memory(g.data, h.data))
                    if op == "deep" and e["sh"]:
                        raise LookupError("deep copy shares the data")
                O.append(O[i - 1] if e["sh"] else h.data)
        elif op == "wrap":
            if g.data is None:
                continue

            def todo():
                G.append(w.build(O[i - 1]))
                O.append(O[i - 1])
        else:
            todo = lambda: (str(g), repr(g), g.length, g.expected_length, bytes(g), g == g, list(g))         # noqa: E731
        ok, v = call(todo)
        if not ok:
            e["res"] = v.lstrip("!")
        ok, e["obs"] = call(observe, G)
        if not ok:
            e["res"], e["obs"] = "observing: " + e["obs"], []
        case["evs"].append(e)
        if e["res"] not in ("ok", "ValueError"):
            break
    return {**case, "trace": len(case["evs"])}


def built(r):
    """The same arguments, or lack of them, for a numpy grain and for a plain one."""
    video = r.random() < 0.5
    kw = dict(src_id=IDS["src_id"], flow_id=IDS["flow_id"], creation_timestamp=Timestamp(r.randrange(9), 5), origin_timestamp=Timestamp(r.randrange(9), 7), sync_timestamp=Timestamp(r.randrange(9), 9),
              rate=Fraction(r.choice([24, 25, 50]), r.choice([1, 1001])), duration=Fraction(1, r.choice([24, 25, 50])))
    if video:
        kw.update(cog_frame_format=VF[r.choice(VIDEO)], width=r.choice([2, 4, 6]), height=r.choice([2, 4]), cog_frame_layout=r.choice(list(CogFrameLayout)))
    else:
        kw.update(cog_audio_format=AF[r.choice(AUDIO)], samples=r.choice([1, 4]), channels=r.choice([2, 4]), sample_rate=r.choice([44100, 96000]))
    must = {"creation_timestamp"} | ({"cog_frame_format"} if video else {"cog_audio_format"})
    kw = {n: v for n, v in kw.items() if n in must or r.random() < 0.6}
    seen = []
    for cls in ((NPVideoGrain, VideoGrain) if video else (NPAudioGrain, AudioGrain)):
        ok, g = call(cls, **kw)
        ok2, o = call(lambda: [str(g.meta["grain"]), bytes(g), str(g.length)]) if ok else (ok, g)
        seen.append({"meta": o[0], "len": o[2], "data": hashlib.sha256(o[1]).hexdigest()} if ok2 else {"meta": o, "len": "", "data": ""})
    return {"numpy": seen[0], "plain": seen[1], "trace": [repr(kw)]}


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    cfg = "INIT Init\nNEXT MNext\nINVARIANT Laws\nINVARIANT Printed\nCONSTANT Depth = %d\nCONSTANT Emit = %s\nCONSTANT Names1 = {%s}\nCONSTANT Wd = %d\nCONSTANT Ht = %d\nCHECK_DEADLOCK FALSE\n"
    beh = c.behaviours("MC_NumpyViews", cfg % (3, "TRUE", '"U8_422"', 2, 2), "NumpyViews")
    every = ", ".join('"%s"' % f for f in VIDEO + AUDIO)
    for w, h in c.scale([(3, 2)], [(3, 2), (2, 3), (4, 2)]):
        c.model("MC_NumpyViews", cfg % (2, "FALSE", every, w, h), "NumpyViews-%dx%d" % (w, h))
    cases = []

    def go(name, f, script, w=None, h=None, odd=None):
        video = f in VIDEO
        w = r.choice([1, 2, 2, 3, 4, 5, 6]) if w is None else w
        h = r.choice([1, 2, 2, 3, 4]) if h is None else h
        odd = (r.random() < 0.35) if odd is None else odd
        ok, x = call(World, r, f, video, w, h, odd)
        if not ok:
            cases.append({"id": f"{name}-{f}", "first": x, "L": {}, "evs": []})
            return
        x.odd, x.wh = odd, (w, h)
        cases.append({"id": f"{name}-{f} {w}x{h}{' relaid' if odd else ''}", **history(x, script)})
    for f in VIDEO + AUDIO:
        # one sample after the other at many sizes
        sizes = [(w, h) for w in range(1, c.scale(5, 8)) for h in range(1, c.scale(4, 6))] + [(7, 2), (8, 5), (0, 1), (1, 0), (9, 1)] + ([(49, 2)] if f == "v210" else [])
        for w, h in sizes:
            for odd in [False, True]:
                if c.thorough or r.random() < 0.6:
                    go("sizes", f, [("set", 1, 0), ("set", 1, "last"), ("raw", 1, 1)], w, h, odd)
        for k, b in enumerate(beh):
            if c.thorough and r.random() < 0.5 or r.random() < 0.012:
                go(f"model{k}", f, [(o, i, "last" if o == "set" else x) for o, i, x in b])
        for k in range(c.scale(9, 150)):
            ops = ["set", "set", "fill", "raw", "data", "fetch", "none", "deep", "copy", "wrap", "read"]
            go(f"random{k}", f, [(r.choice(ops), r.randrange(1, 4), r.randrange(2)) for _ in range(r.randrange(2, 9))])
    c.judge("J_NumpyViews", cases)
    c.judge("J_NumpyViews", [{"id": f"built{k}", **built(r)} for k in range(c.scale(150, 1000))], part="built")
    c.assumptions += ["strides and offsets are multiples of the size of a sample; the data is at least as long as the metadata says",
                      "views of 24-bit samples are widened to 32 bits and are left open after the data is changed in place, in either direction",
                      "whether plain copies share their buffer and whether copies may be written to is observed, not prescribed; deep copies may share nothing"]

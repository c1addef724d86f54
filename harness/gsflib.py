"""Random GSF documents (as plain JSON), built into real grains, encoded and decoded by the real code, observed.

Nothing here knows what the right bytes or the right decoding are: that is spec/Gsf.tla."""
import asyncio
import os
import io
import json
import random
from datetime import datetime, timedelta, timezone, tzinfo
from fractions import Fraction
from io import BytesIO, RawIOBase
from uuid import UUID

from mediatimestamp import Timestamp

from mediagrains import Grain, GrainFactory
from mediagrains.grains import VideoGrain, AudioGrain, CodedVideoGrain, CodedAudioGrain, EventGrain
from mediagrains.cogenums import CogFrameFormat, CogFrameLayout, CogAudioFormat
from mediagrains import gsf
from mediagrains.gsf import GSFEncoder, GSFDecoder, GrainDataLoadingMode
from mediagrains.utils.asyncbinaryio import (AsyncBytesIO, AsyncFileWrapper, AsyncStreamWrapper,
                                             AsyncBytesIOWrapper)

CLASSES = {"empty": Grain, "video": VideoGrain, "audio": AudioGrain, "coded_video": CodedVideoGrain,
           "coded_audio": CodedAudioGrain, "event": EventGrain}


def limbs(n):
    """A non-negative integer as little-endian base 256 digits; anything else as a value no specification has."""
    if isinstance(n, bool) or not isinstance(n, int):
        try:
            if int(n) == n and not isinstance(n, (float, str)):
                n = int(n)
            else:
                return [998]
        except Exception:
            return [998]
    if n < 0:
        return [999] + limbs(-n)
    out = []
    while n:
        out.append(n & 255)
        n >>= 8
    return out


def unlimbs(l):
    return sum(x << (8 * i) for i, x in enumerate(l))


def rat(f):
    if f is None:
        return [[997], [997]]
    f = Fraction(f)
    return [limbs(f.numerator), limbs(f.denominator)]


def ts_obs(t):
    return [1 if t.sign >= 0 else -1, limbs(abs(t.sec)), limbs(t.ns)]


def text(s):
    if isinstance(s, bytes):
        return list(s)
    return list(s.encode("utf-8", "surrogatepass"))


# -- observation ---------------------------------------------------------------------------------------------------

def obs_grain(g, data=True, classes=None):
    t = g.grain_type
    cls = (classes or CLASSES).get(t)
    if cls is None or type(g) is not cls:
        t = f"{t}/{type(g).__name__}"
    o = {"t": t, "src": list(g.source_id.bytes), "flow": list(g.flow_id.bytes),
         "ots": ts_obs(g.origin_timestamp), "sts": ts_obs(g.sync_timestamp),
         "rate": rat(g.rate), "dur": rat(g.duration),
         "tls": [{"tag": text(x["tag"]), "cnt": limbs(x["timelabel"]["frames_since_midnight"]),
                  "num": limbs(x["timelabel"]["frame_rate_numerator"]),
                  "den": limbs(x["timelabel"]["frame_rate_denominator"]),
                  "drop": bool(x["timelabel"]["drop_frame"])} for x in g.timelabels],
         "ints": [], "sar": [], "par": [], "comps": [], "key": [], "toff": [], "unof": []}
    if isinstance(g, VideoGrain):
        o["ints"] = [limbs(int(x)) for x in (g.cog_frame_format, g.cog_frame_layout, g.width, g.height, g.extension)]
        o["sar"] = [] if g.source_aspect_ratio is None else [rat(g.source_aspect_ratio)]
        o["par"] = [] if g.pixel_aspect_ratio is None else [rat(g.pixel_aspect_ratio)]
        o["comps"] = [[limbs(x) for x in (c.width, c.height, c.stride, c.length, c.offset)] for c in g.components]
    elif isinstance(g, CodedVideoGrain):
        o["ints"] = [limbs(int(x)) for x in (g.cog_frame_format, g.cog_frame_layout, g.origin_width, g.origin_height,
                                             g.coded_width, g.coded_height)]
        o["key"] = [] if g.is_key_frame is None else [g.is_key_frame is True if isinstance(g.is_key_frame, bool)
                                                      else bool(g.is_key_frame)]
        o["toff"] = [] if g.temporal_offset is None else [[1 if g.temporal_offset >= 0 else -1,
                                                           limbs(abs(g.temporal_offset))]]
        o["unof"] = [limbs(x) for x in g.unit_offsets]
    elif isinstance(g, AudioGrain):
        o["ints"] = [limbs(int(x)) for x in (g.cog_audio_format, g.channels, g.samples, g.sample_rate)]
    elif isinstance(g, CodedAudioGrain):
        o["ints"] = [limbs(int(x)) for x in (g.cog_audio_format, g.channels, g.samples, g.priming, g.remainder,
                                             g.sample_rate)]
    o["data"] = [] if not data or g.data is None else list(bytes(g.data))
    return o


def obs_head(h):
    c = h["created"]
    if c is None:
        created = []
    else:
        off = c.utcoffset()
        created = [c.year, c.month, c.day, c.hour, c.minute, c.second]
        if off is None or off != timedelta(0) or c.microsecond != 0:
            created.append(-1)
    return {"id": list(h["id"].bytes), "created": created,
            "tags": [[text(k), text(v)] for (k, v) in h["tags"]],
            "segs": [{"lid": s["local_id"], "id": list(s["id"].bytes),
                      "count": [1 if s["count"] >= 0 else -1, limbs(abs(s["count"]))],
                      "tags": [[text(k), text(v)] for (k, v) in s["tags"]],
                      "flow": [{"src": list(s["flow"]["source_id"].bytes), "flow": list(s["flow"]["flow_id"].bytes),
                                "fmt": text(s["flow"]["format"]), "data": text(s["flow"]["data"])}]
                      if "flow" in s else []} for s in h["segments"]]}


# -- generation ------------------------------------------------------------------------------------------------------

class Gen:
    def __init__(self, rng, over=False):
        self.r = rng
        self.over = over          # also text longer than its field, which is cut

    def u(self, bits):
        r = self.r
        k = r.random()
        if k < 0.15:
            return r.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, 255, 256]) & ((1 << bits) - 1)
        if k < 0.6:
            return r.randrange(1 << min(bits, r.choice([4, 8, 12, 16])))
        return r.getrandbits(bits)

    def uuid(self):
        return self.r.choice([UUID(int=0), UUID(int=(1 << 128) - 1)]) if self.r.random() < 0.05 \
            else UUID(int=self.r.getrandbits(128))

    def str(self, maxbytes=20, minbytes=0):
        alpha = ["a", "Z", "0", " ", "-", "\n", "\u00e9", "\u20ac", "\U0001f600", "/", "\"", "\\", "\x7f", "\u0800"]
        n = self.r.randrange(0, 12)
        s = ""
        while len(s) < n or len(s.encode()) < minbytes:
            c = self.r.choice(alpha)
            if len((s + c).encode()) > maxbytes:
                break
            s += c
        return s

    def rat(self, zero=True):
        r = self.r
        k = r.random()
        if k < 0.4:
            return r.choice([Fraction(25), Fraction(50), Fraction(30000, 1001), Fraction(60000, 1001), Fraction(24),
                             Fraction(48000), Fraction(1, 25), Fraction(1001, 30000), Fraction(4, 3), Fraction(16, 9)])
        if k < 0.55 and zero:
            return Fraction(0, 1)
        return Fraction(self.u(32) or 1, self.u(32) or 1)

    def ts(self, signed=True):
        r = self.r
        k = r.random()
        sec = 0 if k < 0.1 else self.u(48)
        ns = r.choice([0, 1, 999999999, 500000000, r.randrange(10**9), r.randrange(10**9)])
        sign = -1 if signed and r.random() < 0.35 and (sec or ns) else 1
        if sec >= 281474976710655:
            ns = min(ns, 999999999)
        return [sign, limbs(sec), limbs(ns)]

    def data(self, maxlen=48):
        r = self.r
        n = r.choice([0, 1, 2, 7, 8, 9]) if r.random() < 0.4 else r.randrange(maxlen)
        b = bytes(r.getrandbits(8) for _ in range(n))
        if r.random() < 0.1:
            b = (r.choice([b"grai", b"SSBBgrsg", b"grdt\x08\0\0\0", b"head\x1f\0\0\0"]) + b)
        return list(b)

    def labels(self):
        r = self.r
        if r.random() < 0.6:
            return []
        return [{"tag": text(self.str(40 if self.over else 16)), "cnt": limbs(self.u(32)), "num": limbs(self.u(32) or 1),
                 "den": limbs(self.u(32) or 1), "drop": r.random() < 0.5} for _ in range(r.choice([1, 1, 2, 5]))]

    def grain(self, v, t=None):
        r = self.r
        t = t or r.choice(["empty", "video", "coded_video", "audio", "coded_audio", "event"])
        g = {"t": t, "src": list(self.uuid().bytes), "flow": list(self.uuid().bytes),
             "ots": self.ts(v != 7), "sts": self.ts(v != 7), "rate": rat(self.rat()), "dur": rat(self.rat()),
             "tls": self.labels(), "ints": [], "sar": [], "par": [], "comps": [], "key": [], "toff": [], "unof": [],
             "data": self.data()}
        if t == "video":
            g["ints"] = [limbs(int(r.choice(list(CogFrameFormat)))), limbs(int(r.choice(list(CogFrameLayout))))] + \
                [limbs(self.u(32)) for _ in range(3)]
            g["sar"] = [] if r.random() < 0.3 else [rat(self.rat(False))]
            g["par"] = [] if r.random() < 0.3 else [rat(self.rat(False))]
            off = 0
            for _ in range(r.choice([0, 1, 3, 3, 4])):
                c = [self.u(32) for _ in range(4)]
                g["comps"].append([limbs(x) for x in c] + [limbs(off)])
                off += c[3]
        elif t == "coded_video":
            g["ints"] = [limbs(int(r.choice(list(CogFrameFormat)))), limbs(int(r.choice(list(CogFrameLayout))))] + \
                [limbs(self.u(32)) for _ in range(4)]
            g["key"] = [] if v >= 9 and r.random() < 0.3 else [r.random() < 0.5]
            k = r.choice([0, 1, -1, 2, -3, 127, -128, 255, 256, 65536, -65537, 0x7ffffffe, -0x80000000,
                          r.randrange(-(1 << 31), (1 << 31) - 1)])
            g["toff"] = [] if v >= 9 and r.random() < 0.3 else [[1 if k >= 0 else -1, limbs(abs(k))]]
            g["unof"] = [] if r.random() < 0.4 else [limbs(self.u(32)) for _ in range(r.choice([1, 2, 3, 7]))]
        elif t == "audio":
            g["ints"] = [limbs(int(r.choice(list(CogAudioFormat)))), limbs(self.u(16)), limbs(self.u(32)), limbs(self.u(32))]
        elif t == "coded_audio":
            g["ints"] = [limbs(int(r.choice(list(CogAudioFormat)))), limbs(self.u(16))] + \
                [limbs(self.u(32)) for _ in range(4)]
        elif t == "event":
            def js(d=0):
                k = r.random()
                if d > 2 or k < 0.6:
                    return r.choice([0, 1, -5, True, False, "x", "", self.str(), 2.5, None, [], {}])
                if k < 0.8:
                    return [js(d + 1) for _ in range(r.randrange(3))]
                return {self.str(6): js(d + 1) for _ in range(r.randrange(3))}
            ev = {"type": self.str(), "topic": self.str(), "data": []}
            for _ in range(r.randrange(3)):
                d = {"path": self.str()}
                if r.random() < 0.7:
                    d["pre"] = js()
                if r.random() < 0.7:
                    d["post"] = js()
                ev["data"].append(d)
            g["data"] = list(json.dumps(ev).encode())
        elif t == "empty":
            g["data"] = self.data() if r.random() < 0.3 else []
        return g

    def created(self):
        r = self.r
        k = r.random()
        off = 0 if k < 0.5 else r.choice([60, -60, 330, -570, 1439, -1439, 825, -1])
        y = r.choice([1983, 2000, 2016, 2023, 2100, 1900, 2024, 1970]) if r.random() < 0.8 else r.randrange(2, 9998)
        m = r.choice([1, 2, 3, 12, r.randrange(1, 13)])
        d = r.choice([1, 28, r.randrange(1, 29)])
        if r.random() < 0.3:
            nxt = datetime(y + (m == 12), m % 12 + 1, 1) - timedelta(days=1)
            d = nxt.day
        return {"t": [y, m, d, r.choice([0, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), r.randrange(60)],
                "off": off, "_micro": r.choice([0, 0, 1, 999999, r.randrange(10**6)]), "_naive": k < 0.1,
                "_zone": r.choice([-1, -1, 0, 1]) if 0.1 <= k and off > -1402 else -1}

    def tags(self, p=0.5):
        r = self.r
        return [] if r.random() < p else [[text(self.str(40)), text(self.str(40))] for _ in range(r.choice([1, 1, 2, 3]))]

    def flow(self, p=0.6):
        r = self.r
        if r.random() < p:
            return []
        return [{"src": list(self.uuid().bytes), "flow": list(self.uuid().bytes),
                 "fmt": text(r.choice(["urn:x-nmos:format:video", "urn:x-nmos:format:audio", "", self.str(64),
                                  "f" * (73 if self.over else 64), "f" * 60 + self.str(30 if self.over else 4)])),
                 "data": text(r.choice(["", "{}", json.dumps({"a": self.str()}), self.str(60)]))}]

    def segs(self, n=None):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3]) if n is None else n
        lids = r.sample([1, 2, 3, 4, 9, 255, 256, 257, 65535, r.randrange(1, 65536)], 10)
        lids = list(dict.fromkeys(lids))[:n]
        if r.random() < 0.4:
            lids = list(range(1, n + 1))
        return [{"lid": l, "id": list(self.uuid().bytes), "tags": self.tags(), "flow": self.flow()} for l in lids]

    def doc(self, v=None, ngrains=None, nsegs=None):
        r = self.r
        v = v or r.choice([7, 8, 9])
        segs = self.segs(nsegs)
        n = r.choice([0, 1, 2, 3, 5]) if ngrains is None else ngrains
        grains = [{"lid": r.choice(segs)["lid"], "g": self.grain(v)} for _ in range(n)] if segs else []
        return {"v": v, "minor": r.choice([0, 0, 0, 1, 65535]), "id": list(self.uuid().bytes), "created": self.created(),
                "segs": segs, "tags": self.tags(), "grains": grains}


# -- building real objects ---------------------------------------------------------------------------------------

def mk_ts(t):
    return Timestamp(unlimbs(t[1]), unlimbs(t[2]), t[0])


def mk_frac(r):
    return Fraction(unlimbs(r[0]), unlimbs(r[1]))


def b2s(b):
    return bytes(b).decode("utf-8")


def build_grain(g, how="meta", wrap=bytes):
    """A real grain with the fields of g, through a metadata dictionary or constructor parameters and setters."""
    src, flow = UUID(bytes=bytes(g["src"])), UUID(bytes=bytes(g["flow"]))
    t = g["t"]
    data = wrap(bytes(g["data"]))
    common = {"src_id": src, "flow_id": flow, "origin_timestamp": mk_ts(g["ots"]), "sync_timestamp": mk_ts(g["sts"]),
              "rate": mk_frac(g["rate"]), "duration": mk_frac(g["dur"])}
    i = [unlimbs(x) for x in g["ints"]]
    frac = (lambda r: {"numerator": unlimbs(r[0]), "denominator": unlimbs(r[1])})
    tls = [{"tag": b2s(x["tag"]), "timelabel": {"frames_since_midnight": unlimbs(x["cnt"]),
                                                "frame_rate_numerator": unlimbs(x["num"]),
                                                "frame_rate_denominator": unlimbs(x["den"]),
                                                "drop_frame": x["drop"]}} for x in g["tls"]]
    comps = [dict(zip(("width", "height", "stride", "length", "offset"), [unlimbs(x) for x in c])) for c in g["comps"]]
    toff = None if not g["toff"] else g["toff"][0][0] * unlimbs(g["toff"][0][1])
    key = None if not g["key"] else g["key"][0]
    if how == "meta" or t == "empty":
        m = {"@_ns": "urn:x-ipstudio:ns:0.1",
             "grain": {"grain_type": t, "source_id": str(src), "flow_id": str(flow),
                       "origin_timestamp": str(mk_ts(g["ots"])), "sync_timestamp": str(mk_ts(g["sts"])),
                       "creation_timestamp": "0:0", "rate": frac(g["rate"]), "duration": frac(g["dur"])}}
        gm = m["grain"]
        if tls:
            gm["timelabels"] = tls
        if t == "video":
            gm["cog_frame"] = {"format": i[0], "layout": i[1], "width": i[2], "height": i[3], "extension": i[4],
                               "components": comps}
            if g["sar"]:
                gm["cog_frame"]["source_aspect_ratio"] = frac(g["sar"][0])
            if g["par"]:
                gm["cog_frame"]["pixel_aspect_ratio"] = frac(g["par"][0])
        elif t == "coded_video":
            gm["cog_coded_frame"] = {"format": i[0], "layout": i[1], "origin_width": i[2], "origin_height": i[3],
                                     "coded_width": i[4], "coded_height": i[5]}
            if g["key"]:
                gm["cog_coded_frame"]["is_key_frame"] = key
            if g["toff"]:
                gm["cog_coded_frame"]["temporal_offset"] = toff
            if g["unof"]:
                gm["cog_coded_frame"]["unit_offsets"] = [unlimbs(x) for x in g["unof"]]
        elif t == "audio":
            gm["cog_audio"] = {"format": i[0], "channels": i[1], "samples": i[2], "sample_rate": i[3]}
        elif t == "coded_audio":
            gm["cog_coded_audio"] = {"format": i[0], "channels": i[1], "samples": i[2], "priming": i[3],
                                     "remainder": i[4], "sample_rate": i[5]}
        if t == "empty" and not g["data"]:
            data = None
        return GrainFactory(m, data)
    if t == "video":
        x = VideoGrain(cog_frame_format=CogFrameFormat(i[0]), width=i[2], height=i[3],
                       cog_frame_layout=CogFrameLayout(i[1]), data=data, **common)
        x.extension = i[4]
        if g["sar"]:
            x.source_aspect_ratio = mk_frac(g["sar"][0])
        if g["par"]:
            x.pixel_aspect_ratio = mk_frac(g["par"][0])
        del x.components[:]
        for comp in comps:
            x.components.append(comp)
    elif t == "coded_video":
        x = CodedVideoGrain(cog_frame_format=CogFrameFormat(i[0]), cog_frame_layout=CogFrameLayout(i[1]),
                            origin_width=i[2], origin_height=i[3], coded_width=i[4], coded_height=i[5],
                            is_key_frame=key, temporal_offset=toff,
                            unit_offsets=[unlimbs(u) for u in g["unof"]] or None, data=data, **common)
    elif t == "audio":
        x = AudioGrain(cog_audio_format=CogAudioFormat(i[0]), channels=i[1], samples=i[2], sample_rate=i[3], data=data,
                       **common)
    elif t == "coded_audio":
        x = CodedAudioGrain(cog_audio_format=CogAudioFormat(i[0]), channels=i[1], samples=i[2], priming=i[3],
                            remainder=i[4], sample_rate=i[5], data=data, **common)
    else:
        x = EventGrain(data=bytes(g["data"]), **common)
    if tls:
        x.timelabels = tls
    return x


class Zone(tzinfo):
    """A zone whose clock is changed: its offset differs for another date, and for the other time of this name."""

    def __init__(self, off, t, fold):
        self.off, self.t, self.f = off, t, fold

    def utcoffset(self, dt):
        if dt is None:
            return None
        return timedelta(minutes=self.off if (dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.fold) == (*self.t[:5], self.f) else self.off - 37)

    def dst(self, dt):
        return timedelta(0)


def created_dt(c):
    if c.get("_zone", -1) >= 0:
        return datetime(*c["t"], c["_micro"], tzinfo=Zone(c["off"], c["t"], c["_zone"]), fold=c["_zone"])
    tz = None if c["_naive"] and c["off"] == 0 else timezone(timedelta(minutes=c["off"]))
    return datetime(*c["t"], c["_micro"], tzinfo=tz)


class OneWay(RawIOBase):
    """A writable file that cannot seek."""
    def __init__(self):
        self.buf = bytearray()

    def write(self, b):
        self.buf += bytes(b)
        return len(b)

    def writable(self):
        return True

    def seekable(self):
        return False


class OneWayIn(RawIOBase):
    """A readable input that cannot seek backwards; its position and forward seeks are emulated."""
    def __init__(self, b):
        self._b = BytesIO(b)

    def readable(self):
        return True

    def seekable(self):
        return False

    def tell(self):
        return self._b.tell()

    def seek(self, off, whence=0):
        to = off + (self._b.tell() if whence == 1 else 0)
        if whence == 2 or to < self._b.tell():
            raise io.UnsupportedOperation("backward seek")
        return self._b.seek(to)

    def readinto(self, b):
        d = self._b.read(len(b))
        b[:len(d)] = d
        return len(d)


def new_encoder(doc, f, streaming, late=False):
    """A GSFEncoder with the headers of doc; segments given to the constructor or added afterwards."""
    kw = {}
    segs = [{"id": UUID(bytes=bytes(s["id"])), "local_id": s["lid"],
             "tags": [(b2s(k), b2s(v)) for k, v in s["tags"]]} for s in doc["segs"]]
    tags = [(b2s(k), b2s(v)) for k, v in doc["tags"]]
    if not late:
        kw = {"segments": segs, "tags": tags}
    enc = GSFEncoder(f, major=doc["v"], minor=doc["minor"], id=UUID(bytes=bytes(doc["id"])),
                     created=created_dt(doc["created"]), streaming=streaming, **kw)
    if late:
        for s in segs:
            enc.add_segment(**s)
        for t in tags:
            enc.add_tag(*t)
    for s in doc["segs"]:
        for fl in s["flow"]:
            enc.segments[s["lid"]].add_flow(UUID(bytes=bytes(fl["src"])), UUID(bytes=bytes(fl["flow"])),
                                            b2s(fl["fmt"]), b2s(fl["data"]) if len(fl["data"]) % 2 else bytes(fl["data"]))
    return enc


ENC_MODES = ["sync-all", "sync-stream", "sync-stream-oneway", "sync-all-oneway", "async-all", "async-stream",
             "async-file-stream", "legacy-dump", "legacy-stream", "preload-all", "dumps", "dump", "dump-stream"]
STREAMING = {"sync-stream", "sync-stream-oneway", "async-stream", "async-file-stream", "legacy-stream", "dump-stream"}
ONEPASS = {"sync-stream-oneway"}


DUMPS = {"dumps", "dump", "dump-stream"}


def encode_dump(doc, mode, how, wrap):
    """Through dump and dumps, which put all the grains in a new segment; doc is changed to say what that file holds."""
    r = random.Random(len(doc["grains"]) + doc["minor"] + doc["id"][0])
    others = doc["segs"][:-1]
    tags = doc["segs"][-1]["tags"] if doc["segs"] else []
    for s in others:
        s["flow"] = []
    lid = max([0] + [s["lid"] for s in others]) + 1
    if lid > 65535:
        others, lid = [], 1
    for x in doc["grains"]:
        x["lid"] = lid
    gs = [build_grain(x["g"], how, wrap) for x in doc["grains"]]
    kw = {"major": doc["v"], "minor": doc["minor"], "id": UUID(bytes=bytes(doc["id"])), "created": created_dt(doc["created"]),
          "tags": [(b2s(k), b2s(v)) for k, v in doc["tags"]]}
    if others or r.random() < 0.5:
        kw["segments"] = [{"id": UUID(bytes=bytes(s["id"])), "local_id": s["lid"], "tags": [(b2s(k), b2s(v)) for k, v in s["tags"]]}
                          for s in others]
    if tags or r.random() < 0.5:
        kw["segment_tags"] = [(b2s(k), b2s(v)) for k, v in tags]
    if r.random() < 0.3:
        kw["cls"] = GSFEncoder
    if mode == "dump-stream":
        # a stream's header is written before the segment could be added, so the segment is made beforehand
        class Ready(GSFEncoder):
            def __enter__(self):
                self.ready = self.add_segment(tags=kw.get("segment_tags"))
                e = super().__enter__()
                e.add_segment = lambda tags=None: self.ready
                return e
        kw["cls"] = Ready
    gs = r.choice([list, iter, tuple])(gs)
    if mode == "dumps":
        b = gsf.dumps(gs, **kw)
    else:
        f = BytesIO(r.choice([b"", b"old content"]))
        gsf.dump(gs, f, **kw, **({"streaming": True} if mode == "dump-stream" else {}))
        b = f.getvalue()
    seg = {"lid": lid, "id": [0] * 16, "tags": tags, "flow": []}
    doc["segs"] = others + [seg]
    p = 12 + 8 + 23                                  # the new segment's id is its own
    for _ in others:
        p += int.from_bytes(b[p + 4:p + 8], "little")
    seg["id"] = list(b[p + 10:p + 26])
    if seg["id"] in [s["id"] for s in others] or len(seg["id"]) != 16:
        return b""
    return b


def encode(doc, mode, how="meta", late=False, via="encoder", wrap=bytes, tmp=None):
    """Bytes the real encoder writes for doc in the given mode."""
    if mode in DUMPS:
        return encode_dump(doc, mode, how, wrap)
    gs = [(x["lid"], build_grain(x["g"], how, wrap)) for x in doc["grains"]]
    if mode in ("sync-all", "sync-stream", "preload-all"):
        f = BytesIO(b"old content that must go" if mode != "sync-all" else b"")
        enc = new_encoder(doc, f, mode in STREAMING, late)
        if mode == "preload-all":
            for lid, g in gs:
                enc.add_grain(g, segment_local_id=lid)
            with enc:
                pass
        else:
            with enc as e:
                for lid, g in gs:
                    if via == "segment":
                        enc.segments[lid].add_grain(g)
                    elif via == "list":
                        e.add_grains([g], segment_local_id=lid)
                    else:
                        e.add_grain(g, segment_local_id=lid)
        return f.getvalue()
    if mode in ("sync-stream-oneway", "sync-all-oneway"):
        f = OneWay()
        with new_encoder(doc, f, mode in STREAMING, late) as e:
            for lid, g in gs:
                e.add_grain(g, segment_local_id=lid)
        return bytes(f.buf)
    if mode in ("legacy-dump", "legacy-stream"):
        f = BytesIO()
        enc = new_encoder(doc, f, False, late)
        if mode == "legacy-dump":
            for lid, g in gs:
                enc.add_grain(g, segment_local_id=lid)
            enc.dump()
        else:
            enc.start_dump()
            for lid, g in gs:
                enc.add_grain(g, segment_local_id=lid)
            enc.end_dump()
        return f.getvalue()

    async def run():
        if mode == "async-file-stream":
            fp = BytesIO(b"junk" * 400) if tmp is None else open(tmp, "w+b")
            async with new_encoder(doc, fp, True, late) as e:
                for lid, g in gs:
                    await e.add_grain(g, segment_local_id=lid)
            fp.seek(0)
            b = fp.read()
            fp.close()
            return b
        f = AsyncBytesIO(b"old stuff")
        async with new_encoder(doc, f, mode in STREAMING, late) as e:
            for lid, g in gs:
                if via == "list":
                    await e.add_grains([g], segment_local_id=lid)
                else:
                    await e.add_grain(g, segment_local_id=lid)
        return f.getvalue()
    return asyncio.run(run())


# -- decoding -----------------------------------------------------------------------------------------------------

class FeedReader:
    """An asyncio StreamReader fed with b in the given chunk sizes."""
    @staticmethod
    def make(b, chunks):
        async def feed(r):
            p = 0
            i = 0
            while p < len(b):
                n = chunks[i % len(chunks)]
                i += 1
                r.feed_data(b[p:p + n])
                p += n
                await asyncio.sleep(0)
            r.feed_eof()
        r = asyncio.StreamReader()
        return r, asyncio.ensure_future(feed(r))


def result(k, head=None, grains=(), det=None, off=-2):
    return {"k": k, "head": head or {"id": [], "created": [], "segs": [], "tags": []}, "grains": list(grains),
            "det": det if det is not None else [], "off": off}


def err_result(e, head, grains):
    name = type(e).__name__
    if isinstance(e, gsf.GSFDecodeBadFileTypeError):
        return result("filetype", head, grains, text(e.filetype) if isinstance(e.filetype, str) else [999], e.offset)
    if isinstance(e, gsf.GSFDecodeBadVersionError):
        return result("version", head, grains, [e.major, e.minor], e.offset)
    if isinstance(e, gsf.GSFDecodeError):
        return result("bad", head, grains, [], e.offset if isinstance(e.offset, int) else -3)
    return result("raised", head, grains, [name], -2)


SYNC_SOURCES = ["bytesio", "file", "oneway"]
ASYNC_SOURCES = ["abytes", "afile", "stream", "abytesiow"]
MODES = {"imm": GrainDataLoadingMode.LOAD_IMMEDIATELY, "load-defer": GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE,
         "defer": GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, "never": GrainDataLoadingMode.LOAD_NEVER}


def decode(b, source="bytesio", mode="imm", conc=None, ids=None, legacy=False, chunks=(7,), tmpdir=None, touch=True):
    """What the real decoder makes of b: head after the end, grains in order, error if any."""
    kw = {} if conc is None else {"support_concatenation": conc}
    out = []
    st = {"head": None}

    def note(sess):
        if sess.file_headers is not None:
            st["head"] = obs_head(sess.file_headers)

    def add(g, lid):
        o = obs_grain(g) if touch or mode == "imm" else g
        out.append({"lid": lid, "g": o})

    gkw = {"loading_mode": MODES[mode]} if mode else {}
    if ids is not None:
        gkw["local_ids"] = ids
    if source in SYNC_SOURCES:
        if source == "bytesio":
            f = BytesIO(b)
        elif source == "file":
            p = os.path.join(tmpdir, "in.gsf")
            with open(p, "wb") as w:
                w.write(b)
            f = open(p, "rb")
        else:
            f = OneWayIn(b)
        try:
            if legacy:
                dec = GSFDecoder(file_data=f, **kw)
                st["head"] = obs_head(dec.decode_file_headers())
                for g, lid in dec.grains(local_ids=ids):
                    add(g, lid)
            else:
                with GSFDecoder(file_data=f, **kw) as dec:
                    note(dec)
                    for g, lid in dec.grains(**gkw):
                        add(g, lid)
                        note(dec)
                    note(dec)
        except Exception as e:
            return err_result(e, st["head"], out)
        finally:
            f.close()
        return result("ok", st["head"], out)

    async def run():
        t = None
        if source == "abytes":
            f = AsyncBytesIO(b)
        elif source == "abytesiow":
            f = AsyncBytesIOWrapper(BytesIO(b))
        elif source == "afile":
            p = os.path.join(tmpdir, "in.gsf")
            with open(p, "wb") as w:
                w.write(b)
            f = AsyncFileWrapper(open(p, "rb"))
        else:
            r, t = FeedReader.make(b, chunks)
            f = AsyncStreamWrapper(r)
        try:
            async with GSFDecoder(file_data=f, **kw) as dec:
                note(dec)
                async for g, lid in dec.grains(**gkw):
                    if touch:
                        await g
                    add(g, lid)
                    note(dec)
                note(dec)
        except Exception as e:
            return err_result(e, st["head"], out)
        finally:
            if t is not None:
                t.cancel()
        return result("ok", st["head"], out)
    return asyncio.run(run())


def decode_loads(b, how="loads", **kw):
    try:
        if how == "loads":
            h, d = gsf.loads(b, **kw)
        elif how == "load":
            h, d = gsf.load(BytesIO(b), **kw)
        elif how == "aload":
            h, d = asyncio.run(_aload(b, kw))
        else:
            h, d = GSFDecoder(**kw).decode(b)
    except Exception as e:
        return err_result(e, None, [])
    out = []
    for lid, gs in d.items():
        for g in gs:
            out.append({"lid": lid, "g": obs_grain(g)})
    return result("ok", obs_head(h), out)


async def _aload(b, kw):
    return await gsf.load(AsyncBytesIO(b), **kw)

"""C11: histories of awaiting, assigning, copying and changing grains, judged by GrainData.tla."""
import asyncio
import copy
import io
import json
import warnings
from fractions import Fraction
from uuid import UUID
import numpy as np
from common import call, exc
from mediagrains import Grain, GrainFactory
from mediagrains.grains import VideoGrain, AudioGrain, CodedVideoGrain, CodedAudioGrain, EventGrain
from mediagrains.numpy import VideoGrain as NPVideoGrain, AudioGrain as NPAudioGrain
from mediagrains.cogenums import CogFrameFormat, CogAudioFormat
from mediagrains.utils.iobytes import IOBytes

IDS = {"src_id": UUID(int=1), "flow_id": UUID(int=101)}
BAD_EVENTS = [json.dumps(x).encode() for x in ({}, {"type": "urn:other", "topic": "/other"}, {"type": "urn:other", "data": []}, {"topic": "/other", "data": [{"path": "x"}]})] + [b"", b"{", b"\xff\xfe"]
KINDS = ("plain", "video", "audio", "coded_video", "coded_audio", "event", "npvideo", "npaudio")
NUMPY = ("npvideo", "npaudio")
VF = (CogFrameFormat.U8_444, CogFrameFormat.UYVY, CogFrameFormat.S16_422_10BIT, CogFrameFormat.RGB, CogFrameFormat.v216, CogFrameFormat.U8_420)
AF = (CogAudioFormat.S16_INTERLEAVED, CogAudioFormat.S32_PLANES, CogAudioFormat.FLOAT_PAIRS, CogAudioFormat.DOUBLE_INTERLEAVED)


class Obj:
    """Something that only supports conversion to bytes."""
    def __init__(self, b):
        self.b = b

    def __bytes__(self):
        return self.b


class Custom:
    """An awaitable that is neither a coroutine nor a future."""
    def __init__(self, source):
        self.source = source

    def __await__(self):
        self.source.n += 1
        return (yield from self.source.gate)


class Source:
    def __init__(self, r, loop):
        self.gate = loop.create_future()
        self.n = 0
        self.how = r.choice(["coroutine", "coroutine", "custom", "future"])
        if self.how == "coroutine":
            async def fetch():
                self.n += 1
                return await self.gate
            self.aw = fetch()
        elif self.how == "custom":
            self.aw = Custom(self)
        else:
            self.aw = self.gate

    def close(self):
        if self.how == "coroutine":
            self.aw.close()


class World:
    def __init__(self, kind, r, ident=False):
        self.kind, self.r, self.ident = kind, r, ident
        self.vf, self.af = r.choice(VF), r.choice(AF)
        self.memo = {}
        self.sizes = {}
        self.blank = r.randrange(1, 9)

    # -- contents
    def content(self, v):
        """The real content number v stands for."""
        if v in self.memo:
            return self.memo[v]
        r = self.r
        if self.kind == "event":
            k = v // 2
            c = {"type": "urn:%d" % k, "topic": "/%d" % k, "data": [{"path": "/p", "post": v % 2}] + [{"path": "/q", "pre": "x" * i} for i in range(k)]}
        elif v == 1:
            c = bytes(self.blank)
        else:
            n = self.size if self.kind in NUMPY else r.choice([1, 2, 3, 12, 40])
            b = bytes([v // 2]) + bytes(r.randrange(256) for _ in range(n - 1))
            if self.kind not in NUMPY and v == 12:
                b = b""
            self.memo[v - v % 2] = b
            self.memo[v - v % 2 + 1] = bytes([b[0] ^ 0x80]) + b[1:] if b else b
            return self.memo[v]
        self.memo[v] = c
        return c

    def number(self, d):
        """What data d stands for."""
        if d is None:
            return 0
        try:
            if self.kind == "event":
                c = json.loads(bytes(d))
                return next((v for v in range(1, 16) if self.content(v) == c), -1)
            b = bytes(d)
        except Exception:
            return -2
        return next((v for v in range(2, 16) if self.content(v) == b), 1 if b == bytes(self.blank) else -1)

    def spell(self, v, fetched=False):
        r = self.r
        if v == 0:
            return None
        c = self.content(v)
        if self.kind == "event":
            s = json.dumps(c)
            if fetched:
                return r.choice([s.encode(), bytearray(s.encode()), Obj(s.encode())])
            return r.choice([s, s.encode()])
        if self.ident:
            return Obj(c)
        how = r.choice(["bytes", "bytearray", "bytearray", "memoryview", "io"] + (["array"] * 2 if self.kind in NUMPY else []))
        if how == "memoryview":
            return memoryview(bytearray(c))
        if how == "io":
            return IOBytes(io.BytesIO(b"??" + c + b"!!"), 2, len(c)) if r.random() < 0.5 else IOBytes(self.file(c), 2, len(c))
        if how == "array":
            return np.frombuffer(bytearray(c), dtype=self.dtype)
        return {"bytes": bytes, "bytearray": bytearray}[how](c)

    def file(self, c):
        import tempfile
        f = tempfile.TemporaryFile()
        f.write(b"??" + c + b"!!")
        f.flush()
        self.files = getattr(self, "files", []) + [f]
        return f

    # -- the first grain
    def first(self, data):
        r, k = self.r, self.kind
        if k == "plain":
            g = Grain({"grain": {"source_id": IDS["src_id"], "flow_id": IDS["flow_id"]}}, None)
        elif k in ("video", "npvideo"):
            w, h = r.choice([(2, 2), (4, 2), (6, 4)])
            g = VideoGrain(cog_frame_format=self.vf, width=w, height=h, **IDS)
            self.size = len(g.data)
            self.dtype = np.uint16 if self.vf in (CogFrameFormat.S16_422_10BIT, CogFrameFormat.v216) else np.uint8
        elif k in ("audio", "npaudio"):
            g = AudioGrain(cog_audio_format=self.af, samples=3, channels=2, **IDS)
            self.size = len(g.data)
            self.dtype = {CogAudioFormat.S16_INTERLEAVED: np.int16, CogAudioFormat.S32_PLANES: np.int32, CogAudioFormat.FLOAT_PAIRS: np.float32,
                          CogAudioFormat.DOUBLE_INTERLEAVED: np.float64}[self.af]
        elif k == "coded_video":
            g = CodedVideoGrain(cog_frame_format=CogFrameFormat.H264, unit_offsets=[0, 1], length=self.blank, **IDS)
        elif k == "coded_audio":
            g = CodedAudioGrain(cog_audio_format=CogAudioFormat.AAC, length=self.blank, **IDS)
        else:
            g = EventGrain(event_type="urn:", topic="/", **IDS)
        if k not in ("plain", "event") and len(g.data) > self.blank:
            self.blank = len(g.data)
        g.add_timelabel("t2", 7, Fraction(25), True)
        g.rate = Fraction(30000, 1001)
        m = g.meta
        cls = {"plain": Grain, "video": VideoGrain, "audio": AudioGrain, "coded_video": CodedVideoGrain, "coded_audio": CodedAudioGrain, "event": EventGrain,
               "npvideo": NPVideoGrain, "npaudio": NPAudioGrain}[k]
        if k == "event":
            m["grain"]["event_payload"] = json.loads(json.dumps(self.content(2)))
        if k in NUMPY or r.random() < 0.5:
            h = cls(m, data) if r.random() < 0.5 else cls(meta=m, data=data)
        else:
            h = GrainFactory(m, data)
        self.type = type(h)
        return h


def parts(x, out):
    """Identities of the changeable objects a metadata value consists of."""
    if isinstance(x, dict):
        out.add(id(x))
        for y in x.values():
            parts(y, out)
    elif isinstance(x, (list, tuple)):
        out.add(id(x))
        for y in x:
            parts(y, out)
    return out


def data_shared(w, a, b):
    x, y = (g.data for g in (a, b))
    if x is None or y is None or w.kind == "event":
        return a.meta["grain"].get("event_payload") is b.meta["grain"].get("event_payload") is not None
    if w.kind in NUMPY:
        return bool(np.shares_memory(x, y))
    if isinstance(x, bytes):
        return False
    return x is y


def mutable(w, g):
    d = g.data
    if w.kind == "event":
        return d is not None
    if isinstance(d, np.ndarray):
        return bool(d.flags.writeable)
    return isinstance(d, bytearray) and len(d) > 0 or isinstance(d, memoryview) and not d.readonly and len(d) > 0


def observe(w, G, T, sources):
    out = {"g": [], "t": [], "n": [-1 if s.how == "future" else s.n for s in sources], "eq": []}
    for g in G:
        d = g.data
        ok, b = call(bytes, g)
        o = {"data": w.number(d), "blen": 0 if d is None else len(bytes(d)), "has": g.has_data(), "length": g.length,
             "bytes": (w.number(b) if d is not None or b else 0) if ok else 0 if b == "!TypeError" and d is None else -3}
        same = (lambda x: x is d) if w.kind != "event" else (lambda x: x == d)
        t = tuple(g)
        o["pair"] = bool(len(g) == 2 and len(t) == 2 and t[0] is g.meta and g[0] is g.meta and g[-2] is g.meta and same(t[1]) and same(g[1]) and same(g[-1])
                         and g[:1] == (g.meta,) and same(g[1:][0]) and [1 for _ in g] == [1, 1] and same(list(reversed(g))[0]))
        ok, s = call(lambda: g == g and not g != g and g == (g.meta, d) and (g.meta, d) == g and not g != (g.meta, d) and not g == None   # noqa: E711
                     and g != (dict(g.meta, other=1), d) and not g == (g.meta,) and (d is None or g != (g.meta, None)) and g != g.meta)
        o["self"] = bool(ok and s)
        o["type"] = type(g) is w.type
        o["attr"] = g.flow_id.int - 100
        o["nested"] = int(g.timelabels[0].tag[1:])
        out["g"].append(o)
    for t in T:
        if not t.done():
            out["t"].append(["wait", 0])
        elif t.cancelled():
            out["t"].append(["cancel", 0])
        elif t.exception() is not None:
            out["t"].append(["err" if isinstance(t.exception(), OSError) else "!" + exc(t.exception()), 0])
        else:
            out["t"].append(["ret", t.result()])
    for i in range(len(G)):
        for j in range(len(G)):
            if i != j:
                ok, e = call(lambda: [int(bool(G[i] == G[j])), int(bool(G[i] != G[j]))])
                out["eq"].append([i + 1, j + 1] + (e if ok else [-1, -1]))
    return out


async def settle():
    for _ in range(12):
        await asyncio.sleep(0)


async def history(w, v0, s0, nsrc, script):
    """script: list of (op, i, a), or a function choosing the next one."""
    r = w.r
    loop = asyncio.get_running_loop()
    loop.set_exception_handler(lambda *a: None)
    sources = [Source(r, loop) for _ in range(nsrc)]
    case = {"ev": w.kind == "event", "v0": v0, "s0": s0, "nsrc": nsrc, "ident": w.ident, "first": "ok", "evs": []}
    if w.kind == "event":
        case["v0"] = 2
    G, T, lost = [], [], set()
    ok, g = call(w.first, sources[s0 - 1].aw if s0 else None)
    if not ok:
        return {**case, "first": g}
    G.append(g)
    if not s0:
        if w.kind in ("plain", "event"):
            case["v0"] = 0 if w.kind == "plain" else 2
        else:
            case["v0"] = 1
    used = {s0}

    async def wait(g, ctx):
        if ctx:
            async with g as h:
                assert h is g
                return w.number(g.data)
        x = await g
        return w.number(x) if w.number(x) == w.number(g.data) else -9

    pre = [("data", 1, v0)] if not s0 and v0 != case["v0"] else []
    script = iter(pre + list(script)) if not callable(script) else iter(Chooser(script, w, G, T, used, lost, sources, pre))
    for op, i, a in script:
        e = {"op": op, "i": i, "a": a, "sh": [False] * 3, "res": "ok", "meq": True}
        if op not in ("fin", "fail", "cancel") and i > len(G) or op == "cancel" and i > len(T):
            continue                                                       # an earlier copy was refused (wrongly)
        g = G[i - 1] if op not in ("fin", "fail", "cancel") else None
        if op in ("mutate",) and (not mutable(w, g) or w.number(g.data) < 2):
            continue
        if op == "wait" and i in lost or op == "setlen" and i in lost:
            continue
        if op in ("copy", "deep") and w.kind == "event" and g.data is None:
            continue

        def do():
            if g is not None and w.kind == "event" and w.r.random() < 0.1:              # refused, and nothing has changed
                try:
                    g.data = w.r.choice(BAD_EVENTS)
                except ValueError:
                    pass
                else:
                    raise LookupError("a payload that is none was taken")
            if op == "data":
                g.data = w.spell(a)
                lost.discard(i)
            elif op == "defer":
                used.add(a)
                g.data = sources[a - 1].aw
                lost.discard(i)
            elif op == "wait":
                T.append(loop.create_task(wait(g, r.random() < 0.3)))
            elif op == "fin":
                sources[i - 1].gate.set_result(w.spell(a, True))
            elif op == "fail":
                sources[i - 1].gate.set_exception(OSError("no data"))
            elif op == "cancel":
                T[i - 1].cancel()
            elif op == "setlen":
                g.length = a
            elif op == "mutate":
                if w.kind == "event":
                    d = g.event_data[0]
                    d.post = 1 - d.post
                else:
                    d = g.data.view(np.uint8) if isinstance(g.data, np.ndarray) else g.data
                    d[0] ^= 0x80
            elif op == "attr":
                g.flow_id = UUID(int=100 + a)
            elif op == "nested":
                g.timelabels[0].tag = "t%d" % a
            elif op in ("copy", "deep"):
                h = (copy.copy if op == "copy" else copy.deepcopy)(g)
                e["meq"] = bool(h.meta == g.meta)
                m, n = g.meta["grain"], h.meta["grain"]
                e["sh"] = [data_shared(w, g, h), m is n, m["timelabels"][0] is n["timelabels"][0]]
                if op == "deep" and parts(g.meta, set()) & parts(h.meta, set()):
                    e["sh"][1] = True
                if g.data is None:
                    lost.add(len(G) + 1)
                G.append(h)
        ok, v = call(do, seconds=5)
        if not ok:
            e["res"] = v.lstrip("!")
        await settle()
        ok, o = call(observe, w, G, T, sources)
        e["obs"] = o if ok else {"g": [], "t": [["!" + str(o), 0]], "n": [-1] * nsrc, "eq": []}
        case["evs"].append(e)
        if e["res"] not in ("ok", "AttributeError") or not ok:
            break
    for t in T:
        t.cancel()
    await settle()
    for s in sources:
        s.close()
    for f in getattr(w, "files", []):
        f.close()
    return {**case, "trace": len(case["evs"])}


class Chooser:
    """Random scripts that stay inside what the model describes."""
    def __init__(self, n, w, G, T, used, lost, sources, pre):
        self.n, self.w, self.G, self.T, self.used, self.lost, self.sources, self.pre = n(), w, G, T, used, lost, sources, pre

    def __iter__(self):
        yield from self.pre
        r = self.w.r
        for _ in range(self.n):
            i = r.randrange(len(self.G)) + 1
            free = [s for s in range(1, len(self.sources) + 1) if s not in self.used]
            open_ = [s for s in range(1, len(self.sources) + 1) if not self.sources[s - 1].gate.done()]
            live = [t for t in range(1, len(self.T) + 1) if not self.T[t - 1].done()]
            ops = ["data", "setlen", "mutate", "attr", "nested", "read"] + ["wait"] * 3
            if free:
                ops += ["defer"] * 2
            if open_:
                ops += ["fin", "fin", "fail"]
            if live:
                ops += ["cancel"]
            if len(self.G) < 4:
                ops += ["copy", "deep"] * 2
            op = r.choice(ops)
            v = r.choice(([] if self.w.kind == "event" else [0]) + [2, 3, 4, 5, 8, 9] + ([12] if self.w.kind not in NUMPY else []))
            if op == "data":
                yield op, i, v
            elif op == "defer":
                yield op, i, r.choice(free)
            elif op == "fin":
                yield op, r.choice(open_), r.choice([v, v, v, 0])
            elif op == "fail":
                yield op, r.choice(open_), 0
            elif op == "cancel":
                yield op, r.choice(live), 0
            elif op == "setlen":
                yield op, i, r.randrange(1000)
            elif op in ("attr", "nested"):
                yield op, i, r.randrange(1, 9)
            else:
                yield op, i, 0


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    cfg = ("INIT Init\nNEXT MNext\nINVARIANT Laws\nINVARIANT Printed\nCONSTANT Depth = %d\nCONSTANT Emit = %s\nCONSTANT Event = %s\nCHECK_DEADLOCK FALSE\n")
    plain = c.behaviours("MC_GrainData", cfg % (3, "TRUE", "FALSE"), "GrainData")
    event = c.behaviours("MC_GrainData", cfg % (3, "TRUE", "TRUE"), "GrainData-event")
    if c.thorough:
        c.model("MC_GrainData", cfg % (5, "FALSE", "FALSE"), "GrainData-deep")
        c.model("MC_GrainData", cfg % (5, "FALSE", "TRUE"), "GrainData-event-deep")
    cases = []

    def go(name, kind, ident, v0, s0, nsrc, script):
        w = World(kind, r, ident)
        x = asyncio.run(history(w, v0, s0, nsrc, script))
        if x["evs"] or x["first"] != "ok":
            cases.append({"id": f"{name}-{kind}", **x})
    for i, b in enumerate(plain + event):
        isev = i >= len(plain)
        for kind in ["event"] if isev else [k for k in KINDS if k != "event"]:
            if c.thorough or r.random() < (0.3 if isev else 0.06):
                go(f"model{i}", kind, r.random() < 0.1 and not isev, b[0][0], b[0][1], 2, [tuple(e) for e in b[1:]])
    for i in range(c.scale(1200, 15000)):
        kind = r.choice(KINDS)
        ident = kind not in NUMPY + ("event",) and r.random() < 0.1
        s0 = r.choice([0, 0, 1])
        go(f"random{i}", kind, ident, 0 if s0 else r.choice([2, 4, 8]), s0, 3, lambda: r.randrange(1, 14))
    c.judge("J_GrainData", cases)
    c.assumptions += [
        "what awaiting the plain copy of a grain that is still pending yields is left open (the copy itself must have no data, and the source is still awaited at most once)",
        "whether plain copies share their data buffer and metadata parts with the original is observed, not prescribed; deep copies may share nothing",
        "the byte conversion of a grain without data may raise TypeError or be empty"]

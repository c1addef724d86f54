"""C18: access to pattern generators, judged by PatternAccess.tla."""
import copy
import hashlib
import json
from fractions import Fraction
from uuid import UUID
from mediatimestamp import TimeValue, TimeValueRange, CountRange
from mediatimestamp.immutable import Timestamp, TimeRange, TimeOffset
from common import call
from c12 import big
from mediagrains.cogenums import CogFrameFormat, CogFrameLayout, CogAudioFormat
from mediagrains.grains import VideoGrain
from mediagrains.patterngenerators import PatternGenerator
from mediagrains.patterngenerators.abc import FixedRatePatternGenerator
from mediagrains.patterngenerators.audio import Tone, Silence
from mediagrains.patterngenerators.audio.abc import AudioPatternGenerator
from mediagrains.patterngenerators.video import LumaSteps, ColourBars, MovingBarOverlay
from mediagrains.patterngenerators.video.abc import VideoPatternGenerator
from mediagrains.patterngenerators.video.still import StillPatternGenerator

SRC, FLOW = UUID(int=11), UUID(int=12)
VF = [getattr(CogFrameFormat, n) for n in ("U8_444", "U8_422", "U8_420", "S16_422_10BIT", "S16_420_12BIT", "S16_444")]
AF = [getattr(CogAudioFormat, n) for n in ("S16_PLANES", "S16_PAIRS", "S16_INTERLEAVED", "S24_INTERLEAVED", "S32_PAIRS", "FLOAT_PLANES", "DOUBLE_INTERLEAVED")]
RATES = [Fraction(25), Fraction(30000, 1001), Fraction(24000, 1001), Fraction(50), Fraction(60), Fraction(1), Fraction(1, 3), Fraction(120), Fraction(48000, 1601), Fraction(7, 3)]
ABSENT = object()


class Gappy(VideoPatternGenerator):
    """A source of pictures which has not every one."""

    def __init__(self, inner, gap):
        super().__init__(inner.src_id, inner.flow_id, inner.width, inner.height, inner.rate, inner.cog_frame_format)
        self.inner, self.gap = inner, gap

    def get(self, key, default=None):
        n = TimeValue(key, rate=self.rate).as_count()
        return default if n % self.gap == 1 % self.gap else self.inner.get(TimeValue(n, rate=self.rate), default)


class Family(VideoPatternGenerator):
    """A further kind of generator of pictures, which leaves to the base class what it can."""

    def __init__(self, inner, kw):
        super().__init__(inner.src_id, inner.flow_id, inner.width, inner.height, **kw)
        self.inner = inner

    def get(self, key, default=None):
        return self.inner.get(key, default)


class AudioFamily(AudioPatternGenerator):
    def __init__(self, inner, kw):
        super().__init__(inner.src_id, inner.flow_id, **kw)
        self.inner = inner

    def get(self, key, default=None):
        return self.inner.get(key, default)


def T(ns):
    return Timestamp(ns=abs(ns), sign=1 if ns >= 0 else -1)


def at(n, rate):
    """The time of grain number n."""
    x = abs(n) * 10 ** 9 * rate.denominator // rate.numerator
    return x if n >= 0 else -x


class When:
    """An object of another kind that can be read as a time."""
    def __init__(self, t):
        self.t = t

    def __mediatimestamp__(self):
        return self.t

    def __mediatimeoffset__(self):
        return self.t

    def __repr__(self):
        return "When(%s)" % self.t


class World:
    def __init__(self, r):
        self.r = r
        self.kind = k = r.choice(["still", "still", "bars", "template", "overlay", "overlay", "tone", "tone", "tone", "silence", "gappy", "overgap"])
        self.gap, self.srate, self.samples = 0, 1, 1
        if k in ("tone", "silence"):
            self.srate, self.samples = r.choice([(48000, 1920), (44100, 1024)] if r.random() < 0.1 else [(480, 48), (441, 10), (441, 1), (800, 7), (4800, 160), (960, 40), (1, 1), (300, 300), (1103, 64), (997, 13)])
            if r.random() < 0.3:
                self.samples = r.randrange(1, 50)
            self.rate = Fraction(self.srate, self.samples)
            kw = dict(samples=self.samples, channels=r.choice([1, 2, 2, 4]), cog_audio_format=r.choice(AF), sample_rate=self.srate)
            if "PAIRS" in kw["cog_audio_format"].name and kw["channels"] == 1:
                kw["channels"] = 2
            if k == "tone":
                kw["frequency"] = r.choice([100, 44, 1, 97, 3, 0, 1000])
                kw["volume"] = r.choice([0.5, 0.1, 0.9])
            tone = self.make = lambda: (Tone if k == "tone" else Silence)(SRC, FLOW, **kw)
            if r.random() < 0.2:
                usual = dict(samples=1920, channels=1, cog_audio_format=CogAudioFormat.S16_INTERLEAVED, sample_rate=48000)
                fam = {a: b for a, b in kw.items() if a in usual and (b != usual[a] or r.random() < 0.3)}
                self.make = lambda: AudioFamily(tone(), fam)
            self.meta = [str(SRC), str(FLOW), str(self.rate), int(kw["cog_audio_format"]), self.samples, kw["channels"], self.srate]
        else:
            self.rate = r.choice(RATES)
            fmt = r.choice(VF)
            w, h = r.choice([(16, 4), (16, 2), (32, 6)])
            self.meta = [str(SRC), str(FLOW), str(self.rate), int(fmt), w, h, int(CogFrameLayout.FULL_FRAME)]
            kw = dict(rate=self.rate, cog_frame_format=fmt)
            if self.rate == 25 and r.random() < 0.5:
                del kw["rate"]                              # the default
            if fmt == CogFrameFormat.U8_444 and r.random() < 0.5:
                del kw["cog_frame_format"]
            lay = CogFrameLayout.FULL_FRAME
            bh, speed = r.choice([1, 2, 3, h]), r.choice([1, 1.0, 2, 0.5, 0.3, 0])
            gap = r.choice([2, 3, 5])
            if k == "template" or k == "overlay" and r.random() < 0.3:
                tmpl = VideoGrain(src_id=SRC, flow_id=FLOW, width=w, height=h, origin_timestamp=T(r.randrange(10 ** 12)), rate=self.rate, cog_frame_format=fmt,
                                  cog_frame_layout=r.choice([lay, CogFrameLayout.MIXED_FIELDS]), data=None)
                tmpl.data = bytearray(r.randbytes(tmpl.expected_length))
                if r.random() < 0.4:
                    tmpl.add_timelabel("x", 3, 25)
                self.meta[6] = int(tmpl.cog_frame_layout)
                base = lambda: StillPatternGenerator(copy.deepcopy(tmpl))                      # noqa: E731
            else:
                base = lambda: (ColourBars if k == "bars" else LumaSteps)(SRC, FLOW, w, h, **kw)       # noqa: E731
            if k in ("still", "bars") and r.random() < 0.3:
                fam = dict(kw)
                plain = base
                base = lambda: Family(plain(), fam)                                            # noqa: E731
            if k in ("gappy", "overgap"):
                self.gap = gap
                inner = base
                base = lambda: Gappy(inner(), gap)                                             # noqa: E731
            self.make = (lambda: MovingBarOverlay(base(), height=bh, speed=speed)) if k in ("overlay", "overgap") else base
        self.gen = self.make()
        names = ["samples", "channels", "sample_rate"] if k in ("tone", "silence") else ["width", "height"]
        self.own = [str(getattr(self.gen, a)) for a in ["src_id", "flow_id", "rate"]] + [int(self.gen.cog_audio_format if k in ("tone", "silence") else self.gen.cog_frame_format)] + \
            [getattr(self.gen, a) for a in names]
        self.spec = {"kind": "tone" if k in ("tone", "silence") else "video", "rate": self.ratio(self.rate), "gap": self.gap, "srate": self.srate, "samples": self.samples}
        self.iters = []
        self.held = []
        self.refs = {}
        base_n = r.choice([0, 0, 5, 1000, -7, r.randrange(10 ** 9), -r.randrange(10 ** 6)])
        self.pool = [base_n + d for d in range(-3, 9)]

    def ratio(self, f):
        return [big(f.numerator), big(f.denominator)]

    def print_of(self, g):
        m = {"a": [str(g.source_id), str(g.flow_id), str(g.rate), str(g.duration), str(g.grain_type), str(g.length)],
             "b": {k: str(v) for k, v in g.meta["grain"].items() if k not in ("origin_timestamp", "sync_timestamp", "creation_timestamp")}}
        return hashlib.sha256(json.dumps(m, sort_keys=True).encode() + bytes(g.data)).hexdigest()

    def see(self, g):
        if g.grain_type == "video":
            meta = [str(g.source_id), str(g.flow_id), str(g.rate), int(g.cog_frame_format), g.width, g.height, int(g.cog_frame_layout)]
        else:
            meta = [str(g.source_id), str(g.flow_id), str(g.rate), int(g.cog_audio_format), g.samples, g.channels, g.sample_rate]
        t = g.origin_timestamp
        if t not in self.refs:
            ok, f = call(self.make().get, TimeValue(t))
            self.refs[t] = self.print_of(f) if ok and f is not None else ""
        self.held.append(g)
        return [{"ts": big(t.to_nanosec()), "sync": big(g.sync_timestamp.to_nanosec()),
                 "same": meta == self.meta and len(g.data) == g.expected_length and self.refs[t] == self.print_of(g)}]

    # --- keys
    def number(self):
        r = self.r
        return r.choice(self.pool) if r.random() < 0.9 else r.randrange(-10 ** 6, 10 ** 10)

    def key(self, off=0.15, wide=True):
        """A key, and what the specification reads it as."""
        r = self.r
        n = self.number()
        tone = self.spec["kind"] == "tone"
        m = r.random()
        if wide and m < 0.2:
            if tone:
                n = n * self.samples + (r.choice([0, 0, 0, 1, -1]))
            return r.choice([n, TimeValue(n)]), {"k": "count", "x": big(n)}
        if wide and m < 0.35:
            u = self.rate
            if tone and r.random() < 0.5:
                u, n = Fraction(self.srate), n * self.samples + r.choice([0, 0, 1])
            elif r.random() < 0.4:
                u, n = (self.rate / 2, n) if r.random() < 0.5 else (self.rate * 2, 2 * n)
            return TimeValue(n, rate=u), {"k": "rated", "x": big(n), "rate": self.ratio(u)}
        x = at(n, Fraction(self.srate) if tone else self.rate) if not tone else at(n * self.samples, Fraction(self.srate))
        if r.random() < off:
            p = int(10 ** 9 / (Fraction(self.srate) if tone else self.rate))
            d = r.choice([1, -1, p // 3, -p // 3, p // 5])
            if p > 20:
                x += d
        return r.choice([T(x), TimeValue(T(x)), TimeValue(T(x)), TimeOffset(abs(x) // 10 ** 9, abs(x) % 10 ** 9, 1 if x >= 0 else -1), When(T(x))]), {"k": "time", "x": big(x)}

    def range(self):
        r = self.r
        n = r.choice(self.pool)
        m = n + r.choice([0, 1, 2, 3, 4, 6, -1])
        ends = r.random() < 0.7
        start = r.random() < 0.95
        inc = [True, True]
        pace = []
        skip = 1
        counts = r.random() < 0.25
        q = self.rate
        form = r.choice(["slice", "slice", "step", "tick", "TR", "TR", "TVR", "TVR", "paced"] + (["CR"] if counts else []))
        if form == "paced":
            q = r.choice([self.rate, self.rate / 2, self.rate / 3] + (([self.rate * 2] if self.samples % 2 == 0 else []) + [self.rate * 3, Fraction(7)] if self.spec["kind"] == "tone" else []))
            pace = [q]
        if form == "tick":
            ns = int(10 ** 9 / self.rate)
            if 10 ** 9 % ns or Fraction(10 ** 9, ns) != self.rate or counts:
                form = "step"
            else:
                k = r.choice([1, 1, 2, 3])
                q = Fraction(10 ** 9, ns * k)
                pace = [q]
                tick = TimeOffset(ns * k // 10 ** 9, ns * k % 10 ** 9)
        if counts:
            mk = lambda i: (i, {"k": "count", "x": big(i)})                                    # noqa: E731
        else:
            def mk(i):
                x = at(i, q)
                return r.choice([T(x), TimeValue(T(x))]) if form not in ("TR",) else T(x), {"k": "time", "x": big(x)}
        (a, ka), (b, kb) = mk(n), mk(m)
        if q != self.rate and q * 2 != self.rate and q * 3 != self.rate or self.gap and form in ("step", "tick", "paced"):
            ends = True                                     # else there might never be a next grain
        if not start:
            a, ka = None, None
        if not ends:
            b, kb = None, None
        if form in ("TR", "TVR", "CR", "paced"):
            inc = [r.random() < 0.7, r.random() < 0.7]
        bits = inc[0] + 2 * inc[1]
        if form == "TR" and counts:
            form = "CR"
        if form == "slice":
            key = slice(a, b)
        elif form == "step":
            skip = r.choice([1, 2, 2, 3, 5])
            key = slice(a, b, skip)
        elif form == "tick":
            key = slice(a, b, tick)
        elif form == "TR":
            key = TimeRange(a, b, TimeRange.Inclusivity(bits))
        elif form == "CR":
            key = CountRange(a, b, bits)
        elif form == "paced":
            key = TimeValueRange(a, b, inclusivity=bits, rate=q)
        else:
            key = TimeValueRange(a, b, inclusivity=bits)
        if a is not None and b is not None and (n > m or n == m and not all(inc)):
            # the range that has nothing, starting at zero
            ka = kb = {"k": "count", "x": big(0)}
            inc = [True, False]
        return key, {"from": [ka] if ka else [], "to": [kb] if kb else [], "inc": inc, "rate": [self.ratio(x) for x in pace], "skip": skip}

    # --- operations
    def op(self):
        r = self.r
        m = r.random()
        if m < 0.3:
            key, k = self.key()
            if k["k"] != "count" and r.random() < 0.5 or r.random() < 0.2:
                tv = key if isinstance(key, TimeValue) else TimeValue(key)
                if r.random() < 0.5:
                    ok, v = call(self.gen.get, tv)
                    gone = None
                else:
                    ok, v = call(self.gen.get, tv, ABSENT)
                    gone = ABSENT
                f = "" if ok else v
                if ok and v is not gone and not hasattr(v, "grain_type"):
                    f, v = "not the default", gone
                return {"op": "get", "key": k, "failed": f, "res": [] if not ok or v is gone else self.see(v), "what": "get(%r)" % (key,)}
            ok, v = call(lambda: self.gen[key])
            return {"op": "get", "key": k, "failed": "" if ok or v == "!KeyError" else v, "res": self.see(v) if ok else [], "what": "[%r]" % (key,)}
        if m < 0.38:
            key, k = self.key()
            ok, v = call(lambda: key in self.gen)
            return {"op": "has", "key": k, "failed": "" if ok else v, "res": bool(v) if ok else False, "what": "%r in" % (key,)}
        if m < 0.55 and len(self.iters) < 4 or not self.iters:
            key, q = self.range()
            if r.random() < 0.04:
                key, q = r.choice(["0:0", 0.5, None, b"", (1, 2), [0], {}]), dict(q, **{"from": []})          # names no place at all
            if isinstance(key, TimeValueRange) and key.bounded_before() and r.random() < 0.4:
                ok, v = call(lambda: self.gen.get_range(key))
            else:
                ok, v = call(lambda: self.gen[key])
            self.iters.append((v if ok else iter([]), q))
            return {"op": "open", "range": q, "refused": not ok and v == "!ValueError", "what": "[%r]" % (key,)}
        if m < 0.9:
            return self.step(r.randrange(len(self.iters)))
        self.spoil()
        return None

    def step(self, i):
        it, q = self.iters[i]
        if not q["from"]:
            return None
        ok, v = call(next, it, ABSENT)
        return {"op": "next", "it": i + 1, "range": q, "failed": "" if ok else v, "res": [] if not ok or v is ABSENT else self.see(v), "what": "next %d" % (i + 1)}

    def spoil(self):
        """Change a grain given earlier in every way."""
        if not self.held:
            return
        g = self.r.choice(self.held)
        for i in range(min(len(g.data), 64)):
            g.data[i] ^= 0x5A
        g.data[-1:] = b"\x01\x02"
        g.origin_timestamp = T(77)
        g.flow_id = UUID(int=99)
        g.rate = Fraction(3)
        g.meta["grain"]["timelabels"] = [1]
        if g.grain_type == "video":
            g.components[0].stride += 1
            g.width = 1
            g.cog_frame_format = CogFrameFormat.U8_444
        else:
            g.samples = 1


def history(r, n):
    w = World(r)
    ops = []
    for _ in range(n):
        o = w.op()
        if o:
            ops.append(o)
    return {"gen": w.spec, "own": list(map(str, w.own)), "asked": list(map(str, w.meta[:len(w.own)])), "ops": ops, "trace": [w.kind, w.meta[2:]] + [o["what"] for o in ops]}


class Small:
    """Four pictures behind every kind of generator: replays what the model does."""

    def __init__(self, r, spec):
        self.w = w = World(r)
        while w.gap:
            self.w = w = World(r)
        n0 = w.pool[0]
        self.ops = []
        for s in spec:
            o = None
            tone = w.spec["kind"] == "tone"

            def key(n):
                x = at((n0 + n) * w.samples, Fraction(w.srate)) if tone else at(n0 + n, w.rate)
                return T(x), {"k": "time", "x": big(x)}
            if s[0] == "get":
                a, k = key(s[1])
                ok, v = call(lambda: w.gen[a])
                o = {"op": "get", "key": k, "failed": "" if ok else v, "res": w.see(v) if ok else [], "what": "[%r]" % a}
            elif s[0] == "open":
                a, ka = key(s[1])
                b, kb = key(s[2]) if s[2] >= 0 else (None, None)
                v = w.gen[a:b:s[3]]
                q = {"from": [ka], "to": [kb] if kb else [], "inc": [True, True], "rate": [], "skip": s[3]}
                w.iters.append((v, q))
                o = {"op": "open", "range": q, "refused": False, "what": "[%r:%r:%r]" % (a, b, s[3])}
            elif s[0] == "step":
                o = w.step(s[1] - 1)
            else:
                w.spoil()
            if o:
                self.ops.append(o)


def broken(v):
    """A history that could not be followed to its end."""
    return {"gen": {"kind": "video", "rate": [big(1), big(1)], "gap": 0, "srate": 1, "samples": 1}, "trace": [v],
            "ops": [{"op": "get", "key": {"k": "count", "x": big(0)}, "failed": "raised " + v, "res": [], "what": v}]}


def run(c):
    r = c.rng
    cfg = "INIT Init\nNEXT MNext\nINVARIANT Untouched\nINVARIANT Ordered\nCONSTANT Depth = %d\nCONSTANT Iters = %d\nCONSTANT Copies = %s\nCHECK_DEADLOCK FALSE\n"
    c.model("MC_PatternAccess", cfg % (c.scale(5, 6), 2, "TRUE"), "access")
    c.refuted("MC_PatternAccess", cfg % (4, 1, "FALSE"), "without copies")
    behs = c.behaviours("MC_PatternAccess", cfg.replace("INVARIANT Untouched\nINVARIANT Ordered", "INVARIANT Emit") % (4, 1, "TRUE"), "behaviours")
    r.shuffle(behs)
    cases = []
    for i, b in enumerate(behs[:c.scale(900, 8000)]):
        ok, v = call(Small, r, b)
        cases.append({"id": "behaviour %d" % i, **({"gen": v.w.spec, "ops": v.ops, "trace": [v.w.kind, v.w.meta[2:]] + [o["what"] for o in v.ops]} if ok else broken(v))})
    c.judge("J_PatternAccess", cases, part="behaviours")
    cases = []
    for i in range(c.scale(1400, 20000)):
        ok, v = call(history, r, r.choice([6, 12, 25]))
        cases.append({"id": "history %d" % i, **(v if ok else broken(v))})
    c.judge("J_PatternAccess", cases, part="histories")

"""C12: the times of grains, judged by GrainTime.tla."""
import copy
import warnings
from fractions import Fraction
from uuid import UUID
from mediatimestamp.immutable import Timestamp, TimeRange
from common import call
from mediagrains import Grain, GrainFactory
from mediagrains.grains import VideoGrain, AudioGrain, CodedVideoGrain, CodedAudioGrain, EventGrain
from mediagrains.numpy import VideoGrain as NPVideoGrain, AudioGrain as NPAudioGrain
from mediagrains.cogenums import CogFrameFormat, CogAudioFormat

IDS = {"src_id": UUID(int=1), "flow_id": UUID(int=2)}
RATES = [Fraction(25), Fraction(30000, 1001), Fraction(24000, 1001), Fraction(60), Fraction(50), Fraction(1), Fraction(1, 10), Fraction(120), Fraction(7, 3),
         Fraction(1000000), Fraction(0), Fraction(1, 3600), Fraction(90000)]
SRATES = [48000, 44100, 1, 96000, 8000, 22050, 192000, 0, 11025, 1000003]


def big(n):
    if isinstance(n, bool) or not isinstance(n, int):
        return [7, []]
    d, m = [], abs(n)
    while m:
        d.append(m % 4096)
        m //= 4096
    return [(n > 0) - (n < 0), d]


def ts(t):
    return big(t.to_nanosec()) if isinstance(t, Timestamp) else [7, []]


def rng(x):
    if not isinstance(x, TimeRange):
        return ["no range"]
    if x.is_empty():
        return ["empty"]
    return [[] if x.start is None else [ts(x.start)], [] if x.end is None else [ts(x.end)], [x.includes_start(), x.includes_end()]]


def rate(x):
    return [big(x.numerator), big(x.denominator)] if isinstance(x, Fraction) else [[7, []], [7, []]]


class Times:
    def __init__(self, r):
        self.r = r

    def ns(self, period):
        """Nanoseconds: arbitrary, or on, next to or halfway between multiples of a period."""
        r = self.r
        k = r.choice([0, 1, 2, r.randrange(100), r.randrange(10 ** 6), r.randrange(10 ** 12)])
        m = r.random()
        if period and m < 0.6:
            n = int(k * period * 10 ** 9) if m < 0.4 else int((k * period + period / 2) * 10 ** 9)
            n += r.choice([0, 0, 1, -1, 2])
        else:
            n = r.choice([0, 1, 999999999, 10 ** 9, r.randrange(10 ** 10), r.randrange(2 * 10 ** 18), r.randrange(2 ** 70)])
        return min(n, 2 ** 77) * r.choice([1, 1, 1, -1])

    def grain(self):
        r = self.r
        kind = r.choice(["empty", "event", "video", "video", "coded_video", "coded_video", "coded_video", "audio", "audio", "coded_audio", "npvideo", "npaudio"])
        rt = r.choice(RATES + [Fraction(r.randrange(1, 2000), r.randrange(1, 1010))])
        sr = r.choice(SRATES + [r.randrange(1, 200000)])
        samples = r.choice([0, 1, 2, 1024, 1920, r.randrange(5000), r.randrange(2 ** 31)])
        toff = r.choice([None, 0, 1, -1, 2, -3, r.randrange(-1000, 1000), r.randrange(-2 ** 31, 2 ** 31)])
        t = {"npvideo": "video", "npaudio": "audio"}.get(kind, kind)
        period = 1 / rt if t in ("video", "coded_video") and rt else Fraction(1, sr) if t in ("audio", "coded_audio") and sr else None
        n = self.ns(period)
        T = Timestamp(ns=abs(n), sign=1 if n >= 0 else -1)
        kw = dict(IDS, origin_timestamp=T, sync_timestamp=Timestamp(5), creation_timestamp=Timestamp(9))
        if kind == "empty":
            g = GrainFactory(rate=rt, **kw)
        elif kind == "event":
            g = EventGrain(rate=rt, **kw)
        elif kind in ("video", "npvideo"):
            g = (VideoGrain if kind == "video" else NPVideoGrain)(rate=rt, width=2, height=2, cog_frame_format=CogFrameFormat.U8_444, **kw)
        elif kind == "coded_video":
            g = CodedVideoGrain(rate=rt, cog_frame_format=CogFrameFormat.H264, temporal_offset=toff or 0, **kw)
            if toff is None:
                g.temporal_offset = None
        elif kind == "coded_audio":
            g = CodedAudioGrain(rate=rt, samples=samples, sample_rate=sr, channels=2, cog_audio_format=CogAudioFormat.AAC, priming=r.randrange(3),
                                remainder=r.randrange(3), **kw)
        else:
            m = min(samples, 3000) if kind == "npaudio" else samples
            samples = m
            g = AudioGrain(rate=rt, samples=min(m, 8), sample_rate=sr, channels=1, cog_audio_format=CogAudioFormat.S16_INTERLEAVED, **kw)
            if kind == "npaudio":
                g = NPAudioGrain(g.meta, bytes(2 * min(m, 8)))
            g.samples = samples
        if r.random() < 0.3:
            # the same by assignment, through the metadata or in a copy
            u = r.choice(RATES[:4])
            how = r.randrange(4)
            if how == 0:
                g.origin_timestamp, g.rate = Timestamp(1), u
                g.meta["grain"]["origin_timestamp"], g.rate = T.to_sec_nsec(), rt
            elif how == 1:
                g = copy.deepcopy(g)
            elif how == 2:
                if t in ("audio", "coded_audio"):
                    g.sample_rate, g.samples = 7, 3
                    g.sample_rate, g.samples = sr, samples
                elif t == "coded_video":
                    g.temporal_offset = 5
                    g.temporal_offset = toff
            else:
                g.sync_timestamp = Timestamp(3)
                g.duration = u
        spec = {"type": t, "ts": big(n), "rate": rate(rt), "samples": big(samples), "srate": big(sr), "toff": [] if toff is None else [big(toff)]}
        return kind, g, spec, period

    def range(self, period):
        r = self.r
        a, b = sorted([self.ns(period), self.ns(period)])
        if r.random() < 0.4:
            b = a + r.randrange(3 * 10 ** 9)
        a = None if r.random() < 0.1 else Timestamp(ns=abs(a), sign=1 if a >= 0 else -1)
        b = None if r.random() < 0.1 else Timestamp(ns=abs(b), sign=1 if b >= 0 else -1)
        return TimeRange(a, b, r.choice([TimeRange.INCLUSIVE, TimeRange.EXCLUSIVE, TimeRange.INCLUDE_START, TimeRange.INCLUDE_END]))


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    c.model("MC_GrainTime", "INIT Init\nNEXT MNext\nINVARIANT Laws\nCONSTANT N = %d\nCONSTANT NS <- NS12\nCHECK_DEADLOCK FALSE\n" % c.scale(1, 6), "GrainTime")
    T = Times(r)
    cases = []
    for i in range(c.scale(1500, 20000)):
        ok, v = call(T.grain)
        if not ok:
            cases.append({"id": f"grain{i}", "g": {"type": "empty", "ts": [7, []], "rate": [[0, []], [1, [1]]], "samples": [0, []], "srate": [0, []], "toff": []},
                          "obs": {k: [] for k in ("media", "ts", "final", "origin", "pts", "pfinal", "prange")}, "norm": [], "normr": []})
            continue
        kind, g, spec, period = v

        def get(f, enc):
            ok, x = call(lambda: enc(f()), seconds=5)
            return [x] if ok else []
        obs = {"media": get(lambda: g.media_rate, lambda x: [] if x is None else [rate(x)]), "ts": get(lambda: g.origin_timestamp, ts),
               "final": get(g.final_origin_timestamp, ts), "origin": get(g.origin_timerange, rng),
               "pts": get(lambda: g.presentation_origin_timestamp, ts), "pfinal": get(g.final_presentation_origin_timestamp, ts),
               "prange": get(g.presentation_origin_timerange, rng)}
        norm, normr = [], []
        for _ in range(2):
            n = T.ns(period)
            x = Timestamp(ns=abs(n), sign=1 if n >= 0 else -1)
            norm.append([big(n), get(lambda: g.normalise_time(x), ts)])
            y = T.range(period)
            normr.append([rng(y), get(lambda: g.normalise_time(y), rng)])
        cases.append({"id": f"{kind}{i}", "g": spec, "obs": obs, "norm": norm, "normr": normr})
    # the range's encoding of "empty" is normalised before it is judged
    c.judge("J_GrainTime", cases)
    c.assumptions += ["audio without a sample rate has no time of its last sample: what its final times are, or raise, is left open",
                      "negative rates are not explored; times stay below the limit of mediatimestamp (2^48 s)",
                      "the rounding of mediatimestamp itself is taken as documented, to within one nanosecond at the midpoint"]

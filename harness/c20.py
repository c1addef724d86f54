"""C20: the samples of tones, judged by Tone.tla."""
import math
import struct
import warnings
from fractions import Fraction
from uuid import UUID
from mediatimestamp.immutable import Timestamp, TimeRange
from common import call
from c12 import big
from c13 import AUDIO
from mediagrains.cogenums import CogAudioFormat as AF
from mediagrains.patterngenerators.audio import Tone, Tone1K, Silence

SRC, FLOW = UUID(int=11), UUID(int=12)
OTHERS = ["MP1", "AAC", "OPUS", "INVALID"]


def sine(k, n):
    """sin(2 pi k/n) in units of 2^-48, from the nearest eighth of a turn."""
    q = Fraction(8 * k, n)
    e, x = q.numerator // q.denominator % 8, q - q.numerator // q.denominator
    a = float(x) * math.pi / 4
    s, c, b = math.sin, math.cos, math.pi / 4 - a
    if x == 0:
        b = math.pi / 4
    v = [s(a), c(b), c(a), s(b), -s(a), -c(b), -c(a), -s(b)][e] if x else [0, math.sqrt(.5), 1, math.sqrt(.5), 0, -math.sqrt(.5), -1, -math.sqrt(.5)][e]
    return round(v * 2 ** 48)


def flat(f, data):
    """The samples of the data in order, as whole numbers."""
    k = f.split("_")[0]
    n = {"S16": 2, "S24": 4 if f == "S24_PLANES" else 3, "S32": 4, "FLOAT": 4, "DOUBLE": 8}[k]
    out = []
    for i in range(0, len(data) - n + 1, n):
        d = data[i:i + n]
        if k in ("FLOAT", "DOUBLE"):
            x = struct.unpack("<f" if k == "FLOAT" else "<d", d)[0]
            v = round(x * 2 ** (19 if k == "FLOAT" else 30)) if -1.01 < x < 1.01 else 2 ** 31 - 1
        else:
            v = max(int.from_bytes(d, "little", signed=True), 1 - 2 ** 31)
        out.append(v)
    return out


def one(r):
    f = r.choice(AUDIO)
    ch = r.choice([1, 2, 2, 3, 4, 5, 6, 8])
    m = r.random()
    sr = r.choice([48000, 44100, 8000]) if m < 0.05 else r.choice([48, 50, 100, 441, 96, 25, 7, 1, 2, 300, 997])
    freq = r.choice([1, 2, 3, 5, 10, 11, 12, 24, 25, 49, 100, 441, 440, 1000, 0, sr, sr // 2, 2 * sr, sr + 1])
    samples = r.choice([1, 2, 3, 7, 10, 16, 24, 25, 33])
    vol = r.choice([(1, 2), (1, 1), (1, 4), (9, 10), (0, 1), (1, 3), (1, 100), (1, 1000000)])
    left = r.sample(["samples", "channels", "cog_audio_format", "sample_rate"], r.choice([1, 1, 2, 4])) if r.random() < 0.06 else []        # what is left to its default
    samples, ch = 1920 if "samples" in left else samples, 1 if "channels" in left else min(ch, 2) if "samples" in left else ch
    f, sr = "S16_INTERLEAVED" if "cog_audio_format" in left else f, 48000 if "sample_rate" in left else sr
    kw = {k: v for k, v in dict(samples=samples, channels=ch, cog_audio_format=AF[f], sample_rate=sr).items() if k not in left}
    how = r.choice(["tone", "tone", "tone", "1k", "silence"])
    if how == "silence":
        freq, vol = 0, (0, 1)
        gen = Silence(SRC, FLOW, **kw)
    elif how == "1k":
        freq = 1000
        if r.random() < 0.3:
            vol = (1, 2)
            gen = Tone1K(SRC, FLOW, **kw)
        else:
            gen = Tone1K(SRC, FLOW, volume=vol[0] / vol[1], **kw)
    else:
        if left and r.random() < 0.5:
            vol = (1, 2)
        else:
            kw["volume"] = vol[0] / vol[1]
        if left and r.random() < 0.5:
            freq = 1000
        else:
            kw["frequency"] = freq if r.random() < 0.8 else float(freq)
        gen = Tone(SRC, FLOW, **kw)
    rate = Fraction(sr, samples)
    n = r.choice([0, 1, 5, 100, -1, -3, r.randrange(10 ** 6), r.randrange(10 ** 9), -r.randrange(10 ** 5)])
    T = lambda k: Timestamp.from_count(k, rate.numerator, rate.denominator)                  # noqa: E731
    trace = [how, f, "channels", ch, "samples", samples, "rate", sr, "frequency", freq, "volume", vol[0], vol[1], "from", n]
    if "samples" in left:
        gs = [gen[T(n)]]
    elif r.random() < 0.2 and samples < 11:
        gs = [gen[T(n + r.randrange(-6, 20))] for _ in range(8)]
    elif r.random() < 0.3:
        gs = [gen[T(n + d)] for d in (r.choice([0, 1, 3]), 0, r.choice([0, -2, 1]))]
    else:
        gs = list(gen[TimeRange(T(n), T(n + (r.choice([0, 1, 2, 3]) if samples > 7 else r.choice([1, 4, 8, 12]))))])
    by = math.gcd(freq % sr, sr)
    table = [sine(k * by, sr) for k in range(sr // by)]
    case = {"kind": "tone", "f": f, "channels": ch, "samples": samples, "srate": sr, "freq": freq, "num": vol[0], "den": vol[1], "sine": [big(x) for x in table],
            "grains": [], "trace": trace}
    for g in gs:
        ok = (g.source_id, g.flow_id, g.rate, g.cog_audio_format, g.samples, g.channels, g.sample_rate, g.expected_length, g.length) == \
             (SRC, FLOW, rate, AF[f], samples, ch, sr, len(g.data), len(g.data))
        case["grains"].append({"ts": big(g.origin_timestamp.to_nanosec()), "meta": ok, "bytes": len(g.data), "flat": flat(f, bytes(g.data)), "zero": not any(g.data)})
    return case


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    cfg = "INIT Init\nNEXT MNext\nINVARIANT Continuous\nCONSTANT R = %d\nCONSTANT Shorter = %s\nCHECK_DEADLOCK FALSE\n"
    c.model("MC_Tone", cfg % (c.scale(14, 24), "FALSE"), "loop")
    c.refuted("MC_Tone", cfg % (6, "TRUE"), "a loop that holds no whole number of turns")
    cases = []
    for f in AF:
        if f.name not in AUDIO:
            ok, v = call(Tone, SRC, FLOW, cog_audio_format=f)
            cases.append({"id": "refused " + f.name, "kind": "refused", "res": "accepted" if ok else v})
    for i in range(c.scale(750, 12000)):
        ok, v = call(one, r)
        cases.append({"id": "tone %d" % i, **(v if ok else {"kind": "failed", "res": "raised " + v})})
    c.judge("J_Tone", cases)

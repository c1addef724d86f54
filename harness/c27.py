"""C27: the ratio of peak signal to noise of two pictures or sounds, judged by Psnr.tla."""
import copy
import math
import uuid
import warnings
import numpy as np
from mediatimestamp.immutable import Timestamp
from common import call
from mediagrains import GrainFactory, cogenums as ce
from mediagrains.grains import VideoGrain, AudioGrain, CodedVideoGrain, CodedAudioGrain, EventGrain
from mediagrains.numpy import VideoGrain as NPVideoGrain, AudioGrain as NPAudioGrain
from mediagrains.comparison.psnr import compute_psnr
from c13 import VIDEO, AUDIO, comps
from c15 import relayout, content

U = 65536                                           # floating point samples are multiples of 1/U
VF, AF = ce.CogFrameFormat, ce.CogAudioFormat


def ids(r):
    return dict(src_id=uuid.UUID(int=r.getrandbits(128)), flow_id=uuid.UUID(int=r.getrandbits(128)), origin_timestamp=Timestamp(r.randrange(1 << 30), 0))


def told(x, n=None):
    """What was answered: an empty list for infinity, otherwise millionths of a decibel."""
    if not isinstance(x, list):
        return [[999999999]] * 9
    out = []
    for v in x:
        if not isinstance(v, float) or math.isnan(v) or v == -math.inf or (v != math.inf and abs(v) > 2000):
            out.append([999999999])
        else:
            out.append([] if v == math.inf else [round(v * 1000000)])
    return out


def near(r, v, bits):
    """A sample somewhere near v, or anywhere."""
    how = r.randrange(6)
    if how < 2:
        return v
    if how == 2:
        return r.getrandbits(bits)
    if how == 3:
        return v ^ 1
    if how == 4:
        return r.choice([0, (1 << bits) - 1])
    return v ^ r.choice([0, 1 << r.randrange(bits)])


def video(r, f, w=None, h=None):
    if w is None:
        w, h = 2 * r.randrange(1, 5), 2 * r.randrange(1, 4)
    a, b = (VideoGrain(cog_frame_format=VF[f], width=w, height=h, cog_frame_layout=r.choice(list(ce.CogFrameLayout)), **ids(r)) for _ in range(2))
    for g in (a, b):
        if f != "v210" and r.random() < 0.4:
            relayout(r, g)
    da, db = content(r, f, a), content(r, f, b)
    bits = 32 if f.startswith("S32") else 16 if f.startswith("S16") or f == "v216" or "_S16" in f else 8
    active = 10 if "10BIT" in f else 12 if "12BIT" in f else bits
    if r.random() < 0.65 and len(da) == len(db) and f != "v210":
        rate = r.choice([0.05, 0.5, 1.0]) if w * h < 1000 else 0.001
        n = bits // 8
        db = b"".join((near(r, int.from_bytes(da[i:i + n], "little"), active) if r.random() < rate else int.from_bytes(da[i:i + n], "little")).to_bytes(n, "little")
                      for i in range(0, len(da) - len(da) % n, n)) + da[len(da) - len(da) % n:]
    elif r.random() < 0.7:                          # the same bytes, laid out in the same way or not
        db = da = max(da, db, key=len)
    out = []
    for g, d in ((a, da), (b, db)):
        out.append([{"video": True, "f": f, "cs": comps(g), "channels": 0, "samples": 0}, g.meta, d, VideoGrain, NPVideoGrain])
    return out


def audio(r, f):
    channels, samples = r.choice([1, 2, 2, 3, 4, 6]), r.choice([1, 2, 3, 8, r.randrange(1, 40)])
    n = {"S16": 2, "S24": 3, "S32": 4, "FLO": 4, "DOU": 8}[f[:3]]
    n = 4 if f == "S24_PLANES" else n
    a, b = (AudioGrain(cog_audio_format=AF[f], channels=channels, samples=samples, sample_rate=r.choice([48000, 44100]), **ids(r)) for _ in range(2))
    count = len(a.data) // n
    if f[:3] in ("FLO", "DOU"):
        t = np.float32 if n == 4 else np.float64
        x = [r.choice([0, 1, -1, U, -U, r.randrange(-U, U + 1), r.randrange(-255, 256) * 256]) for _ in range(count)]
        how = r.randrange(3)
        y = [v if how == 0 or (how == 1 and r.random() < 0.5) else r.randrange(-U, U + 1) for v in x]
        if r.random() < 0.3:                        # a little noise in few samples
            y = list(x)
            y[r.randrange(count)] += r.choice([1, -1, r.randrange(-300, 300)])
        da, db = ((np.array(v, dtype=np.float64) / U).astype(t).tobytes() for v in (x, y))
    else:
        bits = 8 * n
        x = [r.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, r.getrandbits(bits), r.getrandbits(bits)]) for _ in range(count)]
        rate = r.choice([0, 0.2, 1])
        y = [near(r, v, bits) if r.random() < rate else v for v in x]
        da, db = (b"".join(v.to_bytes(n, "little") for v in s) for s in (x, y))
    return [[{"video": False, "f": f, "cs": [], "channels": channels, "samples": samples}, g.meta, d, AudioGrain, NPAudioGrain] for g, d in ((a, da), (b, db))]


def make(r, part):
    L, meta, d, plain, arrays = part
    d = r.choice([bytes, bytearray])(d)
    return r.choice([plain, arrays])(copy.deepcopy(meta), d)


def ratio(r, f, pair):
    A, B = pair
    a, b = make(r, A), make(r, B)
    m = r.choice([[], [], [], [1], [100], [255], [4096], [r.randrange(1, 1 << 16)]])
    before = [copy.deepcopy(a.meta), bytes(a), copy.deepcopy(b.meta), bytes(b), type(a), type(b)]

    def ask(x, y):
        if m == []:
            return compute_psnr(x, y) if r.random() < 0.7 else compute_psnr(grain_a=x, grain_b=y, max_val=None)
        return compute_psnr(x, y, m[0]) if r.random() < 0.5 else compute_psnr(x, y, max_val=m[0])
    ok, got = call(ask, a, b)
    ok2, back = call(ask, b, a)
    if not (ok and ok2):
        return {"kind": "refused with " + (got if not ok else back)}
    return {"kind": "ratio", "La": A[0], "Lb": B[0], "a": list(A[2]), "b": list(B[2]), "max": m, "got": told(got), "back": told(back),
            "still": before == [a.meta, bytes(a), b.meta, bytes(b), type(a), type(b)]}


def odd(r, k):
    if k == "audio":
        f, n, ch = r.choice([("S16_PLANES", 4, 2), ("S16_PLANES", 4, 2), ("S16_PLANES", 4, 1), ("S16_PLANES", 3, 2), ("S16_INTERLEAVED", 4, 2), ("FLOAT_PLANES", 4, 2),
                             ("S24_PAIRS", 4, 2), ("S32_PLANES", 4, 2), ("S16_PLANES", 2, 4)])
        return ["audio", f, n, ch, False], r.choice([AudioGrain, NPAudioGrain])(cog_audio_format=AF[f], samples=n, channels=ch, **ids(r))
    if k == "video":
        w, h = r.choice([(4, 2), (4, 2), (6, 2), (4, 4), (2, 4)])
        return ["video", "U8_444", w, h, False], r.choice([VideoGrain, NPVideoGrain])(cog_frame_format=VF.U8_444, width=w, height=h, **ids(r))
    if k == "packed":
        f = r.choice(["H264", "VC2", "DV", "MJPEG", "H265"])
        return ["video", f, 4, 2, True], VideoGrain(cog_frame_format=VF[f], width=4, height=2, data=b"abc", **ids(r))
    if k == "packed audio":
        f = r.choice(["AAC", "MP1", "OPUS"])
        return ["audio", f, 4, 2, True], AudioGrain(cog_audio_format=AF[f], samples=4, channels=2, data=b"abc", **ids(r))
    if k == "coded_audio":
        return ["coded_audio", "AAC", 0, 0, True], CodedAudioGrain(cog_audio_format=AF.AAC, data=b"abc", **ids(r))
    if k == "coded_video":
        return ["coded_video", "H264", 0, 0, True], CodedVideoGrain(cog_frame_format=VF.H264, data=b"abc", **ids(r))
    if k == "event":
        return ["event", "", 0, 0, False], EventGrain(**ids(r))
    return ["empty", "", 0, 0, False], GrainFactory({"grain": {"grain_type": "empty", **{k: str(v) for k, v in ids(r).items()}}}, None)


def refused(r, i):
    kinds = ["audio", "audio", "audio", "video", "video", "video", "packed", "packed audio", "coded_audio", "coded_video", "event", "empty"]
    k = kinds[i % len(kinds)]
    fa, a = odd(r, k)
    other = {"packed": "video", "video": "packed", "audio": "packed audio", "packed audio": "audio"}
    fb, b = odd(r, k if r.random() < 0.6 else other.get(k, k) if r.random() < 0.5 else r.choice(kinds))
    ok, got = call(compute_psnr, a, b)
    return {"kind": "refused", "fa": fa, "fb": fb, "res": "ok" if ok and isinstance(got, list) else "?" if ok else got.lstrip("!")}


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    c.model("MC_Psnr", "INIT MInit\nNEXT MNext\nINVARIANT Laws\nCONSTANT Most = %d\nCHECK_DEADLOCK FALSE\n" % c.scale(10, 120), "logarithm")
    cases = []

    def add(name, f, *a):
        ok, v = call(f, *a)
        cases.append({"id": name, **(v if ok else {"kind": "raised " + v})})
    for i in range(c.scale(6, 60)):
        for f in VIDEO:
            add("%s %d" % (f, i), lambda: ratio(r, f, video(r, f)))
        for f in AUDIO:
            add("%s %d" % (f, i), lambda: ratio(r, f, audio(r, f)))
    for i in range(c.scale(3, 20)):
        for f in ("ALPHA_U8", "ALPHA_S16_10BIT", "U8_420"):
            add("large %s %d" % (f, i), lambda: ratio(r, f, video(r, f, 40, 30)))
    for i in range(c.scale(240, 2400)):
        add("refused %d" % i, refused, r, i)
    c.judge("J_Psnr", cases)
    c.assumptions += ["Ratios are checked to 20 millionths of a decibel; views of up to 48 samples and a few of 1200, floating point samples multiples of 1/65536.",
                      "Pictures with a component of no samples, grains without data and pictures of differing formats are not compared."]

"""C22: wrapping ADTS AAC, judged by Cutting.tla, Adts.tla, WrapTime.tla and J_Adts.tla."""
import random
import warnings
from fractions import Fraction
from uuid import UUID
from mediatimestamp.immutable import Timestamp
from common import call
from c12 import big, rate as enc_rate
from c21 import attrs, sources, start_time
from mediagrains.cogenums import CogAudioFormat as AF
from mediagrains.grains import CodedAudioGrain
from mediagrains.utils import ADTSAACGrainWrapper
from mediagrains.utils.adts_aac_parser import ADTSAACParser

BUT = ("origin_timestamp", "sync_timestamp", "channels", "sample_rate", "samples", "rate", "duration")


def pack(fields):
    n = v = 0
    for x, w in fields:
        v, n = (v << w) | (x & ((1 << w) - 1)), n + w
    return (v << (-n % 8)).to_bytes((n + 7) // 8, "big")


def header(r, size, sync=0xfff, freq=None, config=None):
    freq = r.randrange(13) if freq is None else freq
    config = r.randrange(8) if config is None else config
    return pack([(sync, 12), (r.randrange(2), 1), (0, 2), (r.randrange(2), 1), (r.randrange(4), 2), (freq, 4), (r.randrange(2), 1), (config, 3),
                 (r.randrange(16), 4), (size, 13), (r.randrange(2048), 11), (r.randrange(4), 2)])


def any_header(r):
    m = r.random()
    if m < 0.15:
        return header(r, r.randrange(8192), freq=r.randrange(13, 16))
    if m < 0.3:
        return header(r, r.randrange(8192), sync=r.choice([0xffe, 0x7ff, 0xfef, 0, r.randrange(4096)]))
    if m < 0.45:
        return header(r, r.choice([0, 1, 5, 6, 7, 8, 8191, 4096, 2048, 2047]))
    if m < 0.55:
        return header(r, 100)[:r.randrange(7)]
    return header(r, r.randrange(8192)) + r.randbytes(r.choice([0, 0, 2, 9]))


def parsed(r):
    b = any_header(r)
    ok, v = call(ADTSAACParser().parse_header, r.choice([bytes, bytearray])(b))
    if not ok:
        return {"kind": "header", "bytes": list(b), "res": [] if v == "!ValueError" else [-1]}
    return {"kind": "header", "bytes": list(b), "res": [v.frame_size, v.object_type, v.sample_rate, v.channels]}


def aac(r, n, large=False):
    freq, config = r.randrange(13), r.randrange(8)
    out = b""
    for _ in range(n):
        if r.random() < 0.1:
            freq, config = r.randrange(13), r.randrange(8)
        size = r.choice([7, 8, 9, 20, 60, r.randint(7, 90)]) if not large else r.choice([2047, 2048, 4100, 8191])
        body = r.randbytes(size - 7)
        if size > 20 and r.random() < 0.3:
            k = r.randrange(size - 20)
            body = body[:k] + header(r, 10) + body[k + 7:]         # what looks like a header inside
        out += header(r, size, freq=freq, config=config) + body
    return out


def wrap(seed):
    r = random.Random(seed)
    data = aac(r, r.choice([0, 1, 2, 3, 5, 7]), r.random() < 0.03)
    m = r.random()
    if m < 0.15:
        data = data[:r.randint(0, len(data))]
    elif m < 0.25:
        data = data + header(r, 30)[:r.randint(0, 6)]
    elif m < 0.35:
        data += any_header(r)
    elif m < 0.45 and data:
        data = data[:-1 - r.randrange(min(5, len(data)))] + any_header(r)
    samples = r.choice([0, 0, None, 1024, 2048, 960, 1000])
    t = CodedAudioGrain(src_id=UUID(int=r.getrandbits(128)), flow_id=UUID(int=r.getrandbits(128)), origin_timestamp=start_time(r, Fraction(48000, 1024)),
                        cog_audio_format=AF.AAC, samples=samples, sample_rate=r.choice([48000, 44100, None]), channels=r.choice([0, 2, None]),
                        priming=r.choice([0, 1024]), remainder=r.choice([0, 5]), rate=r.choice([Fraction(0), Fraction(25), Fraction(48000, 1024)]),
                        duration=r.choice([Fraction(0), Fraction(1, 25)]), **({"creation_timestamp": Timestamp(5, 5)} if r.random() < 0.5 else {}))
    how, src, used, close = sources(r, data)
    upto = r.choice([1, 2, 10 ** 6, 10 ** 6, 10 ** 6])
    show = lambda: (attrs(t, ("sample_rate",)), t.sample_rate)                             # noqa: E731
    before = show()
    case = {"kind": "wrap", "bytes": list(data), "start": big(t.origin_timestamp.to_nanosec()), "samples": samples or 0, "t": attrs(t, BUT), "upto": upto,
            "grains": [], "end": "end", "apart": True, "kept": True, "trace": [how, "samples", str(samples), "total", len(data)]}
    gs = []
    try:
        it = ADTSAACGrainWrapper(t, src).grains()
        p = 0
        while len(gs) < upto:
            try:
                g = next(it)
            except StopIteration:
                break
            d = bytes(g.data)
            case["grains"].append({"from": p if d == data[p:p + len(d)] else -1, "len": len(d), "used": used() if used else -1, "attrs": attrs(g, BUT),
                                   "ts": big(g.origin_timestamp.to_nanosec()), "sync": big(g.sync_timestamp.to_nanosec()), "channels": g.channels,
                                   "srate": g.sample_rate, "samples": g.samples, "rate": enc_rate(g.rate), "duration": enc_rate(g.duration)})
            gs.append((g, attrs(g), d))
            p += len(d)
        else:
            case["end"] = "asked"
    except ValueError:
        case["end"] = "refused"
    except Exception as e:
        case["end"] = type(e).__name__
    finally:
        close()
    if gs:
        g = gs[0][0]
        g.flow_id = UUID(int=3)
        g.rate = Fraction(1, 7)
        g.add_timelabel("other", 1, Fraction(1))
        case["apart"] = all(attrs(x) == a and bytes(x.data) == d for x, a, d in gs[1:])
    case["kept"] = show() == before
    return case


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    cfg = ("SPECIFICATION Spec\nCONSTANTS Longest = %d\nK = 3\nHead1 = 1\nOnce = FALSE\nINVARIANT Lossless\nINVARIANT Prefix\nINVARIANT Complete\nINVARIANT Live\n"
           "PROPERTY Ends\nCHECK_DEADLOCK FALSE\n")
    c.model("MC_Framing", cfg % c.scale(6, 7), "frames that tell their size")
    cases = []
    for i in range(c.scale(1500, 20000)):
        ok, v = call(parsed, r)
        cases.append({"id": "header %d" % i, **(v if ok else {"kind": "failed", "res": "raised " + v})})
    for i in range(c.scale(700, 8000)):
        ok, v = call(wrap, r.getrandbits(64))
        cases.append({"id": "wrap %d" % i, **(v if ok else {"kind": "failed", "res": "raised " + v})})
    c.judge("J_Adts", cases)
    c.assumptions += ["the layer bits of the header are zero", "sources give nothing only at their end"]

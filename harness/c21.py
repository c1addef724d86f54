"""C21: wrapping raw essence, judged by Framing.tla, WrapTime.tla and J_Wrap.tla."""
import io
import os
import random
import tempfile
import threading
import warnings
from fractions import Fraction
from uuid import UUID
from mediatimestamp.immutable import Timestamp
from common import call
from c09 import COMMON, OWN, enc_attr, js
from c12 import big, rate as enc_rate, RATES
from mediagrains.cogenums import CogFrameFormat as VF, CogAudioFormat as AF, CogFrameLayout
from mediagrains.grains import VideoGrain, AudioGrain
from mediagrains.numpy import VideoGrain as NPVideoGrain, AudioGrain as NPAudioGrain
from mediagrains.utils import GrainWrapper
from mediagrains.tools._file_or_pipe import InputStreamWrapper
from c13 import VIDEO, AUDIO


class Source:
    """A source that gives pieces of any length, nothing only at its end."""
    def __init__(self, data, r, short=True, raises=False):
        self.data, self.r, self.short, self.pos, self.raises = data, r, short, 0, raises

    def read(self, n=-1):
        left = len(self.data) - self.pos
        if n is None or n < 0:
            n = left
        n = min(n, left)
        if self.short and n > 1 and self.r.random() < 0.6:
            n = self.r.choice([1, n - 1, self.r.randint(1, n)])
        if self.raises and not left:
            raise EOFError                                              # how some inputs say that there is no more
        out = self.data[self.pos:self.pos + n]
        self.pos += n
        return out


class Fed:
    """The reading end of a pipe that is filled in pieces."""
    def __init__(self, data, r, buffered):
        rd, wr = os.pipe()
        self.f = os.fdopen(rd, "rb", -1 if buffered else 0)
        sizes = []
        while sum(sizes) < len(data):
            sizes.append(r.randint(1, max(1, len(data) // 3)))

        def feed():
            p = 0
            for n in sizes:
                try:
                    os.write(wr, data[p:p + n])
                except BrokenPipeError:
                    break
                p += n
            os.close(wr)
        self.t = threading.Thread(target=feed, daemon=True)
        self.t.start()

    def close(self):
        self.f.close()
        self.t.join(10)


def sources(r, data, raises=False):
    """(object to read from, position function or None, cleaning up)."""
    how = r.randrange(7)
    if raises and r.random() < 0.1:
        s = Source(data, r, r.random() < 0.5, True)
        return "raises at its end", s, (lambda: s.pos), lambda: None
    if how == 0:
        return "memory", io.BytesIO(data), None, lambda: None
    if how in (1, 2):
        s = Source(data, r, how == 2)
        return ("pieces" if how == 2 else "whole reads"), s, (lambda: s.pos), lambda: None
    if how == 3:
        f = tempfile.TemporaryFile()
        f.write(data)
        f.seek(0)
        return "file", f, None, f.close
    if how in (4, 5):
        s = Source(data, r, how == 5)
        return "stdin wrapper", InputStreamWrapper(s), (lambda: s.pos), lambda: None
    if len(data) > 60000:
        return "memory", io.BytesIO(data), None, lambda: None
    p = Fed(data, r, r.random() < 0.5)
    return "pipe", p.f, None, p.close


def attrs(g, but=()):
    out = {a: enc_attr(a, getattr(g, a)) for a in COMMON + OWN[g.grain_type] if a not in but}
    out["grain_type"] = ["text", []] if g.grain_type is None else [g.grain_type, []]
    out["timelabels"] = js([{"tag": x.tag, "count": x.count, "rate": str(x.rate), "drop": x.drop_frame} for x in g.timelabels])
    if g.grain_type == "video":
        out["components"] = js([[int(c[k]) for k in ("width", "height", "stride", "offset", "length")] for c in g.components])
    return out


def start_time(r, rate):
    period = 1 / rate
    m = r.random()
    k = r.choice([0, 1, 2, r.randrange(100), r.randrange(10 ** 6), r.randrange(10 ** 10)])
    if m < 0.3:
        return Timestamp(0, 0)
    if m < 0.7:
        return Timestamp.from_nanosec(max(0, int(k * period * 10 ** 9) + r.choice([0, 0, 0, 1, -1, 2, int(period * 5 * 10 ** 8)])))
    return Timestamp.from_nanosec(r.choice([7, 999999999, r.randrange(10 ** 10), r.randrange(10 ** 18)]) * r.choice([1, 1, 1, -1]))


def template(r):
    rate = r.choice([x for x in RATES if x] + [Fraction(48000, 1920), Fraction(44100, 1024), Fraction(60000, 1001)])
    kw = dict(src_id=UUID(int=r.getrandbits(128)), flow_id=UUID(int=r.getrandbits(128)), origin_timestamp=start_time(r, rate), rate=rate,
              duration=r.choice([1 / rate, Fraction(1, 25), Fraction(0)]))
    if r.random() < 0.3:
        kw["creation_timestamp"] = Timestamp(r.randrange(100), 5)
    np = r.random() < 0.25
    if not np and r.random() < 0.3:
        kw["data"] = r.randbytes(r.choice([0, 1, 3, 50, 5000]))         # the template's own data is no matter
    if r.random() < 0.6:
        g = (NPVideoGrain if np else VideoGrain)(cog_frame_format=VF[r.choice(VIDEO)], width=2 * r.randint(1, 8), height=2 * r.randint(1, 4),
                                                 cog_frame_layout=r.choice(list(CogFrameLayout)), **kw)
        if r.random() < 0.3:
            g.source_aspect_ratio = Fraction(16, 9)
    else:
        sr = r.choice([48000, 44100, 96000])
        g = (NPAudioGrain if np else AudioGrain)(cog_audio_format=AF[r.choice(AUDIO)], samples=2 * r.randint(1, 12), channels=2 * r.randint(1, 3), sample_rate=sr, **kw)
    if r.random() < 0.3:
        g.add_timelabel("tc", r.randrange(1000), Fraction(25))
    return g


def raw(seed):
    r = random.Random(seed)
    t = template(r)
    size = t.expected_length
    n = r.choice([0, 1, 2, 3, 5, 9])
    total = max(0, n * size + r.choice([0, 0, 0, 1, -1, size // 2, r.randint(0, size)]))
    if "numpy" in type(t).__module__:
        total = n * size                    # an array of a partial frame need not exist
    data = r.randbytes(total)
    how, src, used, close = sources(r, data, True)
    upto = r.choice([1, 2, 10 ** 6, 10 ** 6, 10 ** 6])
    but = ("origin_timestamp", "sync_timestamp")
    before = attrs(t)
    case = {"kind": "raw", "total": total, "size": size, "upto": upto, "t": attrs(t, but), "start": big(t.origin_timestamp.to_nanosec()), "rate": enc_rate(t.rate),
            "grains": [], "end": "end", "apart": True, "kept": True, "trace": [t.grain_type, type(t).__module__, how, "size", size, "total", total]}
    gs = []
    try:
        w = GrainWrapper(t, src)
        p = 0
        it = w.grains()
        while len(gs) < upto:
            try:
                g = next(it)
            except StopIteration:
                break
            d = bytes(g.data)
            case["grains"].append({"len": len(d), "same": d == data[p:p + len(d)], "used": used() if used else -1, "attrs": attrs(g, but),
                                   "ts": big(g.origin_timestamp.to_nanosec()), "sync": big(g.sync_timestamp.to_nanosec())})
            gs.append((g, attrs(g), d))
            p += len(d)
    except Exception as e:
        case["end"] = type(e).__name__
    finally:
        close()
    if gs:
        g = gs[0][0]
        g.flow_id = UUID(int=3)
        g.rate = Fraction(1, 7)
        g.add_timelabel("other", 1, Fraction(1))
        case["apart"] = all(attrs(x) == a and bytes(x.data) == d for x, a, d in gs[1:])
    case["kept"] = attrs(t) == before
    return case


def stream(seed):
    r = random.Random(seed)
    data = r.randbytes(r.choice([0, 1, 5, 40]))
    s = InputStreamWrapper(Source(data, r))
    case = {"kind": "stream", "total": len(data), "ops": [], "trace": []}
    p = 0
    for _ in range(8):
        k = r.randrange(5)
        if k < 3:
            n = r.choice([0, 1, 2, 5, 17, 17, 100, -1])
            ok, v = call(*((s.read, n) if n != -1 else r.choice([(s.read, -1), (s.read,), (s.read, None)])))
            ok = ok and isinstance(v, bytes)
            case["ops"].append({"op": "read", "n": n, "res": len(v) if ok else -3, "same": ok and v == data[p:p + len(v)]})
            p += len(v) if ok else 0
        elif k == 3:
            n, w = r.choice([(0, 0), (p, 0), (p + 3, 0), (p + r.randrange(30), 0), (2, 1), (0, 1), (r.randrange(30), 1), (-1, 1), (p - 1, 0), (0, 2)])
            ok, v = call(s.seek, n, w)
            case["ops"].append({"op": "seek", "n": n, "whence": w, "res": v if ok else -2 if v == "!NotImplementedError" else -3})
            p = v if ok else p
        else:
            ok, v = call(s.tell)
            case["ops"].append({"op": "tell", "res": v if ok else -3})
    return case


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    cfg = ("SPECIFICATION Spec\nCONSTANTS Longest = %d\nK = 3\nHead1 = %d\nOnce = %s\nINVARIANT Lossless\nINVARIANT Prefix\nINVARIANT Complete\nINVARIANT Live\n"
           "PROPERTY Ends\nCHECK_DEADLOCK FALSE\n")
    c.model("MC_Framing", cfg % (c.scale(6, 7), 0, "FALSE"), "frames of one size")
    c.refuted("MC_Framing", cfg % (5, 0, "TRUE"), "a frame taken in a single read")
    cases = []
    for kind, f, n in (("raw", raw, c.scale(700, 8000)), ("stream", stream, c.scale(300, 3000))):
        for i in range(n):
            ok, v = call(f, r.getrandbits(64))
            cases.append({"id": "%s %d" % (kind, i), **(v if ok else {"kind": "failed", "res": "raised " + v})})
    c.judge("J_Wrap", cases)
    c.assumptions += ["the essence has a format whose frame size is known", "sources give nothing only at their end", "numpy templates are given whole frames"]

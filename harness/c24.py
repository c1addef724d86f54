"""C24: the command line tools, judged by Cli.tla (with RawWrap, AacWrap, H264Wrap and Gsf) and J_Cli.tla."""
import concurrent.futures
import io
import json
import os
import random
import subprocess
import sys
import tempfile
import warnings
from datetime import datetime
from fractions import Fraction
from uuid import UUID
from mediatimestamp.immutable import Timestamp, TimeRange
import h264gen
from c04 import malformed, KINDS
from c12 import big, rng as enc_range, rate as enc_rate
from c13 import VIDEO, AUDIO
from c21 import start_time
from c22 import aac
from common import call, MachineryError
from gsffiles import conforming
from gsflib import obs_grain, obs_head, ts_obs, OneWay
from mediagrains import GrainFactory, tools
from mediagrains.gsf import GSFDecoder
from mediagrains.cogenums import CogAudioFormat as AF, CogFrameFormat as VF

REPO = os.environ.get("VERIF_REPO", "/repo")


class Std:
    def __init__(self, b):
        self.buffer = b


class Pipe(io.RawIOBase):
    """The reading end of a pipe: pieces of any length."""
    def __init__(self, data, r):
        self.data, self.r, self.pos = data, r, 0

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), len(self.data) - self.pos)
        if n > 1 and self.r.random() < 0.5:
            n = self.r.randint(1, n)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def inside(r, tool, argv, data):
    """The tool run in this process, its standard streams pipes: (whether it finished, its standard output)."""
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    raw = OneWay()
    out = io.TextIOWrapper(io.BufferedWriter(raw), write_through=True)
    sys.argv, sys.stdin, sys.stdout, sys.stderr = [tool] + argv, Std(io.BufferedReader(Pipe(data, r))), out, io.StringIO()
    try:
        getattr(tools, tool)()
        ok = True
    except Exception as e:
        ok = type(e).__name__
    except SystemExit as e:
        ok = e.code in (None, 0) or "SystemExit"
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    out.flush()
    return ok, bytes(raw.buf)


def outside(r, tool, argv, data):
    """The tool run as a process of its own, its standard streams real pipes."""
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "from mediagrains.tools import %s as t; t()" % tool] + argv, input=data, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, timeout=60, env={**os.environ, "PYTHONPATH": REPO})
    return p.returncode == 0 or "exit", p.stdout


def through(r, runner, tool, argv, data, writes):
    """Input and, of a tool that writes a file, output by name or as standard streams: (finished, output, anything else, output seekable)."""
    d = tempfile.mkdtemp(prefix="verif-cli-")
    i, o = os.path.join(d, "in"), os.path.join(d, "out")
    try:
        names, fed, stored = [], data, writes and r.random() < 0.5
        if r.random() < 0.5:
            with open(i, "wb") as f:
                f.write(data)
            names, fed = [i], b"this is not the input"
        else:
            names = ["-"]
        if writes:
            names.append(o if stored else "-")
            if stored and r.random() < 0.3:
                with open(o, "wb") as f:
                    f.write(r.randbytes(5000))              # to be replaced
        argv = argv + names if r.random() < 0.5 else names + argv
        ok, std = runner(r, tool, argv, fed)
        if not stored:
            return ok, std, b"", False
        with open(o, "rb") as f:
            return ok, f.read(), std, True
    finally:
        for p in (i, o):
            if os.path.exists(p):
                os.unlink(p)
        os.rmdir(d)


def maybe(r, o, argv, name, flag, value, shown=None, p=0.5):
    if r.random() < p:
        o[name] = [value]
        argv += [flag, str(value if shown is None else shown)]
    else:
        o[name] = []


def wrap_job(r):
    what = r.choice(["video", "video", "audio", "audio", "aac", "h264"])
    o, argv = {}, []
    flow, src = UUID(int=r.getrandbits(128)), UUID(int=r.getrandbits(128))
    case = {"kind": "wrap", "what": what, "o": o}
    ids = {}
    maybe(r, ids, argv, "flow", "--flow-id", flow)
    maybe(r, ids, argv, "src", "--source-id", src)
    case.update({k: [v[0].hex] if v else [] for k, v in ids.items()})
    o.update(start=[], size=[], format=[], rate=[], channels=[], samples=[], srate=[])
    rate = 25
    if what in ("video", "h264"):
        maybe(r, o, argv, "rate", "--rate", r.choice([1, 24, 25, 30, 50, 60, 7]))
        rate = (o["rate"] or [25])[0]
        small = r.random() < 0.97 or what == "h264"
        w, h = (2 * r.randint(1, 8), 2 * r.randint(1, 4)) if small else (1920, 1080)
        maybe(r, o, argv, "size", "--size", [w, h], "%dx%d" % (w, h), 1.0 if small and what == "video" else 0.3)
        if what == "h264":
            o["format"] = [r.choice(["H264", "AVCI"])]
            argv += ["--format", o["format"][0]]
        else:
            maybe(r, o, argv, "format", "--format", r.choice(VIDEO), p=0.8)
        f = (o["format"] or ["S16_422_10BIT"])[0]
    else:
        maybe(r, o, argv, "channels", "--channels", r.randint(1, 6))
        maybe(r, o, argv, "srate", "--sample-rate", r.choice([48000, 44100, 96000, 8000]))
        maybe(r, o, argv, "samples", "--samples-per-grain", r.choice([1, 2, 10, 1024, 1920, 1000]) if what == "aac" else r.choice([1, 2, 3, 10, 40]), p=0.85)
        if what == "aac":
            o["format"] = ["AAC"]
            argv += ["--format", "AAC"]
        else:
            maybe(r, o, argv, "format", "--format", r.choice(AUDIO), p=0.8)
    if r.random() < 0.6:
        t = start_time(r, Fraction(rate))
        o["start"] = [big(t.to_nanosec())]
        argv.append("--start-ts=" + t.to_sec_nsec())
    if what == "video":
        w, h = (o["size"] or [[1920, 1080]])[0]
        from mediagrains.grains import VideoGrain
        size = len(VideoGrain(src_id=src, flow_id=flow, cog_frame_format=VF[f], width=w, height=h).data)
    elif what == "audio":
        size = (o["samples"] or [1920])[0] * (o["channels"] or [2])[0] * 4
    if what in ("video", "audio"):
        n = r.choice([0, 1, 2, 3]) if size < 100000 else r.choice([0, 1])
        data = r.randbytes(n * size + r.choice([0, 0, 1, size // 2 if size < 10 ** 6 else 1000]))
        case["bytes"] = []
    else:
        data = aac(r, r.choice([0, 1, 2, 4])) if what == "aac" else h264gen.stream(r, r.choice([0, 1, 2, 3]), 12, fit=True)
        if r.random() < 0.15:
            data = data[:r.randint(0, len(data))]
        elif what == "h264" and r.random() < 0.15:
            data = h264gen.unit(r, 0, r.choice([6, 9, 12]), b"\xff\x80")                # nothing that tells the size
        case["bytes"] = list(data)
    return case, argv, data, "wrap_video_in_gsf" if what in ("video", "h264") else "wrap_audio_in_gsf"


SIZE = ("origin_width", "origin_height", "coded_width", "coded_height")


def wrap(seed, runner):
    r = random.Random(seed)
    case, argv, data, tool = wrap_job(r)
    ok, out, left, seekable = through(r, runner, tool, argv, data, True)
    case.update(seekable=seekable, left=list(left), trace=[tool] + argv)
    end = "end" if ok is True else "refused" if ok in ("ValueError", "exit") else str(ok)
    what = case["what"]
    d = GSFDecoder(file_data=io.BytesIO(out))
    try:
        head = d.decode_file_headers()
    except Exception as e:
        case.update(kind="failed", res="the output is not a GSF file: %s (%s)" % (type(e).__name__, end))
        return case, []
    case["segs"] = [{"lid": s["local_id"], "id": s["id"].hex, "count": s["count"], "tags": [list(t) for t in s["tags"]]} for s in head["segments"]]
    grains, metas, p = [], [], 0
    if what in ("video", "audio"):
        w = {"total": len(data)}
    else:
        w = {"bytes": case.pop("bytes")}
    for g, lid in d.grains():
        b = bytes(g.data)
        same = b == data[p:p + len(b)]
        x = {"ts": big(g.origin_timestamp.to_nanosec()), "sync": big(g.sync_timestamp.to_nanosec()), "len": len(b), "used": -1}
        m = {"flow": g.flow_id.hex, "src": g.source_id.hex, "lid": lid, "type": str(g.grain_type)}
        if what in ("video", "audio"):
            x["same"] = same
            m.update(rate=enc_rate(g.rate), duration=enc_rate(g.duration))
        else:
            x["from"] = p if same else -1
            x.update(rate=enc_rate(g.rate), duration=enc_rate(g.duration))
        if g.grain_type == "video":
            m.update(format=VF(g.cog_frame_format).name, size=[g.width, g.height], comps=[[c.width, c.height, c.stride, c.offset, c.length] for c in g.components])
        elif g.grain_type == "coded_video":
            m.update(format=VF(g.cog_frame_format).name)
            x.update(units=list(g.unit_offsets), key={None: "none", True: "yes", False: "no"}[g.is_key_frame], size=[getattr(g, a) for a in SIZE])
        elif g.grain_type == "audio":
            m.update(format=AF(g.cog_audio_format).name, channels=g.channels, samples=g.samples, srate=g.sample_rate)
        elif g.grain_type == "coded_audio":
            m.update(format=AF(g.cog_audio_format).name)
            x.update(channels=g.channels, srate=g.sample_rate, samples=g.samples)
        grains.append(x)
        metas.append(m)
        p += len(b)
    w.update(grains=grains, end=end)
    case.update(w=w, metas=metas)
    case.pop("bytes", None)
    made = []
    if metas:
        made += [metas[0]["flow"], metas[0]["src"]]          # those given are all different too
    return case, made


def a_file(r, most=2):
    b, lay, docs = conforming(r, r.choice([0.0, 0.1, 0.3]), r.choice([1, 1, 1, 1, most]), ngrains=r.choice([0, 1, 2, 3, 5]))
    lids = [s["lid"] for d in docs for s in d["segs"]]
    m = r.random()
    if m < 0.12:
        b = b[:r.randint(0, len(b))]
    elif m < 0.22:
        x = malformed(r, b, lay, r.choice(KINDS))
        b = bytes(x[0]) if x else b
    return b, lids


def extract(seed, runner):
    r = random.Random(seed)
    b, lids = a_file(r)
    ids, argv = [], []
    if r.random() < 0.6:
        ids = [[r.choice(lids + [0, 65535]) if lids else r.randrange(5) for _ in range(r.choice([1, 1, 2, 3]))]]
        for i in ids[0]:
            argv += ["--only-id", str(i)]
    ok, out, left, _ = through(r, runner, "extract_gsf_essence", argv, b, True)
    return {"kind": "extract", "bytes": list(b), "ids": ids, "ok": ok is True, "res": list(out) + [999] * len(left), "trace": argv + [str(ok)]}


def stamps(t):
    return {k: ts_obs(Timestamp.from_str(t[n])) for k, n in (("ots", "origin_timestamp"), ("sts", "sync_timestamp"))}


def probed(j):
    j["id"] = UUID(j["id"])
    j["created"] = None if j["created"] == "None" else datetime.fromisoformat(j["created"])
    segs = []
    told = []
    for k, s in j["segments"].items():
        s["id"] = UUID(s["id"])
        if "flow" in s:
            for x in ("source_id", "flow_id"):
                s["flow"][x] = UUID(s["flow"][x])
        if str(s["local_id"]) != k:
            s["local_id"] = -1
        segs.append(s)
        data = s.get("grain_data", [])
        told.append({"lid": s["local_id"], "range": [enc_range(TimeRange.from_str(s["timerange"]))] if "timerange" in s else [],
                     "data": [obs_of(x) for x in (data if isinstance(data, list) else [data])], "stamps": [stamps(t) for t in s.get("grain_timestamps", [])]})
    j["segments"] = segs
    return {"head": obs_head(j), "segs": told}


def obs_of(meta):
    o = obs_grain(GrainFactory({"@_ns": "urn:x-ipstudio:ns:0.1", "grain": meta}, data=b'{"type": "", "topic": "", "data": []}' if meta.get("grain_type") == "event" else b""), False)
    o["data"] = []
    return o


def probe(seed, runner):
    r = random.Random(seed)
    b, _ = a_file(r, 1)
    g, a = r.random() < 0.4, r.random() < 0.4
    argv = ([r.choice(["-g", "--all-grains"])] if g else []) + ([r.choice(["-a", "--all-timestamps"])] if a else [])
    ok, out, _, _ = through(r, runner, "gsf_probe", argv, b, False)
    case = {"kind": "probe", "bytes": list(b), "grains": g, "stamps": a, "ok": ok is True, "res": [], "trace": argv + [str(ok)]}
    if out:
        case["res"] = [probed(json.loads(out))]
    return case


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    cases, made = [], []

    def add(name, i, ok, v):
        if ok and isinstance(v, tuple):
            made.extend(v[1])
            v = v[0]
        cases.append({"id": "%s %d" % (name, i), **(v if ok else {"kind": "failed", "res": "raised " + v})})
    for name, f, n in (("wrap", wrap, c.scale(500, 6000)), ("extract", extract, c.scale(350, 4000)), ("probe", probe, c.scale(350, 4000))):
        for i in range(n):
            add(name, i, *call(f, r.getrandbits(64), inside, seconds=60))
    with concurrent.futures.ThreadPoolExecutor(6) as pool:
        jobs = [(name, i, pool.submit(f, r.getrandbits(64), outside)) for name, f, n in (("wrap", wrap, c.scale(20, 150)), ("extract", extract, c.scale(10, 80)), ("probe", probe, c.scale(10, 80)))
                for i in range(n)]
        for name, i, j in jobs:
            try:
                add(name + " process", i, True, j.result())
            except subprocess.TimeoutExpired:
                add(name + " process", i, False, "timeout")
            except Exception as e:
                add(name + " process", i, False, type(e).__name__)
    if not made:
        raise MachineryError("no generated ids")
    cases.append({"id": "generated ids", "kind": "fresh", "ids": made})
    c.judge("J_Cli", cases)
    c.assumptions += ["formats whose frame size is known, H.264, AVC-Intra and AAC", "a probed file is a single file whose grains have local ids its header names"]

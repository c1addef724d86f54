"""C25: the test-data strategies, judged by Drawn.tla and J_Drawn.tla."""
import hashlib
import json
import math
import random
import re
import struct
import warnings
from fractions import Fraction
from uuid import UUID
import hypothesis
from hypothesis import HealthCheck, Phase, given, seed as use_seed, settings, strategies as st
from mediatimestamp.immutable import Timestamp
from common import call
from c12 import big, rate as enc_rate
from c13 import VIDEO, AUDIO
from c21 import attrs
from mediagrains.cogenums import CogAudioFormat as AF, CogFrameFormat as VF, CogFrameLayout as CL
from mediagrains.grains import Grain, VideoGrain, AudioGrain, CodedVideoGrain, CodedAudioGrain, EventGrain, new_attributes_for_grain_type
from mediagrains.hypothesis import strategies as S

TYPES = {"empty": Grain, "video": VideoGrain, "audio": AudioGrain, "coded_video": CodedVideoGrain, "coded_audio": CodedAudioGrain, "event": EventGrain}
STAMPS = ["origin_timestamp", "sync_timestamp", "creation_timestamp"]
COMMON = ["src_id", "flow_id", "rate", "duration"] + STAMPS
OWN = {"empty": [], "video": ["format", "width", "height", "layout"], "audio": ["format", "samples", "channels", "sample_rate"],
       "coded_audio": ["format", "samples", "channels", "sample_rate", "priming", "remainder"],
       "coded_video": ["format", "coded_width", "coded_height", "origin_width", "origin_height", "layout", "is_key_frame", "temporal_offset", "unit_offsets"],
       "event": ["event_type", "topic", "event_data"]}
NAMES = {"layout": "cog_frame_layout"}
URN = r"^urn:[a-z0-9][a-z0-9-]{0,31}:[a-z0-9()+,\-.:=@;$_!*'%/?#]+$"
TOPIC = r"^[a-zA-Z0-9_\-]+[a-zA-Z0-9_\-/]*$"
CODED_VIDEO = ["MJPEG", "DNxHD", "MPEG2", "AVCI", "H264", "DV", "D10", "VC2", "VP8", "H265"]


def draw(s, n, sd):
    out = []

    @use_seed(sd)
    @settings(database=None, max_examples=n, phases=[Phase.generate], deadline=None, suppress_health_check=list(HealthCheck))
    @given(s)
    def f(x):
        out.append(x)
    f()
    return out


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()


def enum(e, x):
    try:
        return e(x).name
    except ValueError:
        return "?%s" % x


def enc(t, a, x):
    if a in ("src_id", "flow_id"):
        return x.hex if isinstance(x, UUID) else "?"
    if a in STAMPS:
        return big(x.to_nanosec())
    if a in ("rate", "duration"):
        return enc_rate(Fraction(x))
    if a == "format":
        return enum(AF if "audio" in t else VF, x)
    if a == "layout":
        return enum(CL, x)
    if a == "is_key_frame":
        return {True: "yes", False: "no"}.get(x, "none")
    if a == "event_data":
        return digest(x)
    if a == "unit_offsets":
        return list(x or [])
    return x


def happenings(g):
    return [{k: getattr(d, k, None) for k in ("path", "pre", "post")} for d in g.event_data]


def observed(t, g):
    o = {"gtype": str(g.grain_type), "class": type(g) is TYPES[t], "shape": True, "floats": True}
    for a in COMMON + OWN[t]:
        x = getattr(g, {"src_id": "source_id", "format": "cog_audio_format" if "audio" in t else "cog_frame_format"}.get(a, NAMES.get(a, a)))
        o[a] = enc(t, a, happenings(g) if a == "event_data" else x)
    now = Timestamp.get_time()
    o["recent"] = abs((now - g.creation_timestamp).to_nanosec()) < 3600 * 10 ** 9
    d = g.data
    b = bytes(d) if d is not None else b""
    o["len"], o["zeros"] = len(b), not any(b)
    if t == "video":
        o["comps"] = [{k: int(c[k]) for k in ("width", "height", "stride", "offset", "length")} for c in g.components]
    if t == "audio":
        o["floats"] = floats(g.cog_audio_format, b)
    if t == "event":
        hs = happenings(g)
        j = json.loads(b)
        o["shape"] = bool(re.search(URN, g.event_type) and re.search(TOPIC, g.topic) and all(
            isinstance(h["path"], str) and re.search(TOPIC, h["path"]) and isinstance(h["pre"], (int, bool, dict, str)) and isinstance(h["post"], (int, bool, dict, str))
            for h in hs) and j["topic"] == g.topic and j["type"] == g.event_type and len(j["data"]) == len(hs))
    return o


def floats(f, b):
    n = enum(AF, f)
    if n.startswith("FLOAT"):
        xs = struct.unpack("@%df" % (len(b) // 4), b)
    elif n.startswith("DOUBLE"):
        xs = struct.unpack("@%dd" % (len(b) // 8), b)
    else:
        return True
    return all(math.isfinite(x) and math.copysign(1, x) > 0 for x in xs)


def value(r, t, a):
    if a in ("src_id", "flow_id"):
        return UUID(int=r.choice([0, r.getrandbits(128)]))
    if a in STAMPS:
        return Timestamp.from_nanosec(r.choice([0, 1, r.randrange(10 ** 9), r.randrange(10 ** 18)]))
    if a in ("rate", "duration"):
        return r.choice([Fraction(0), Fraction(25), Fraction(30000, 1001), "30000/1001", 30, 0.5, "0.25", Fraction(1, 50)])
    if a == "format":
        return AF[r.choice(AUDIO)] if t == "audio" else VF[r.choice(VIDEO)] if t == "video" else AF[r.choice(["MP1", "AAC", "OPUS"])] if t == "coded_audio" else VF[r.choice(CODED_VIDEO)]
    if a == "layout":
        return r.choice(list(CL))
    if a == "sample_rate":
        return r.choice([48000, 96000, 8000, 44100])
    if a == "is_key_frame":
        return r.choice([True, False])
    if a == "unit_offsets":
        return sorted(r.sample(range(1000), r.choice([0, 1, 4])))
    if a == "event_type":
        return "urn:x:%d" % r.randrange(100)
    if a == "topic":
        return "topic/%d" % r.randrange(100)
    if a == "event_data":
        return [{"path": "p%d" % i, "pre": r.randrange(5), "post": r.choice(["a", 1, True])} for i in range(r.choice([0, 1, 3]))]
    if a in ("priming", "remainder", "temporal_offset"):
        return r.choice([0, 1, 7, 500])
    return r.randint(1, 20)


def drawn(seed):
    r = random.Random(seed)
    t = r.choice(list(TYPES))
    req, kw, told = {}, {}, []
    much = r.choice([0.1, 0.4, 0.8])
    for a in COMMON + OWN[t]:
        left = a in ("rate", "duration", "priming", "remainder")
        m = r.random()
        name = NAMES.get(a, a)
        if m > much:
            if t == "event" and a in ("event_type", "topic", "event_data") and m > (1 + much) / 2:
                kw[name] = None
            req[a] = ["unset"] if left else ["free"]
        elif r.random() < 0.6:
            v = value(r, t, a)
            if r.random() < 0.3:
                vs = [v, value(r, t, a), value(r, t, a)]
                kw[name] = st.sampled_from(vs)
            else:
                vs = [v]
                kw[name] = v
            req[a] = ["is", [enc(t, a, x) for x in vs]]
            told.append("%s in %s" % (name, vs))
        elif r.random() < 0.5 and (left or a in STAMPS):
            kw[name] = S.DONOTSET
            req[a] = ["unset"]
            told.append(name + " unset")
        else:
            kw[name] = None
            req[a] = ["free"]
    f = r.choice([lambda **k: S.grains(t, **k), getattr(S, t + "_grains")])
    gs = draw(f(**kw), r.choice([3, 8]), r.getrandbits(32))
    return {"kind": "drawn", "type": t, "req": req, "zero": t not in ("empty", "event"), "grains": [observed(t, g) for g in gs], "trace": [t] + told}


def filled(seed):
    r = random.Random(seed)
    t = r.choice(["video", "audio", "audio", "coded_video", "coded_audio", "empty", "event"])
    gs = draw(S.grains_with_data(t), 6, r.getrandbits(32))
    req = {a: ["unset"] if a in ("rate", "duration", "priming", "remainder") else ["free"] for a in COMMON + OWN[t] if a not in ("width", "height", "origin_width", "origin_height")}
    return {"kind": "drawn", "type": t, "req": req, "zero": False, "grains": [observed(t, g) for g in gs], "trace": [t, "with data"]}


def template(seed):
    r = random.Random(seed)
    t = r.choice(["video", "audio", "audio", "coded_video", "coded_audio"])
    kw = {a: value(r, t, a) for a in COMMON + OWN[t] if r.random() < 0.7 or a in ("samples", "channels", "width", "height")}
    for a, most in (("samples", 6), ("channels", 3), ("width", 8), ("height", 8)):      # hypothesis gives up on much larger draws
        if a in kw and not t.startswith("coded"):
            kw[a] = r.randint(1, most)
    kw["format"] = value(r, t, "format")
    kw = {NAMES.get(a, a): x for a, x in kw.items() if a not in ("rate", "duration")}
    g = draw(S.grains(t, **kw), 1, r.getrandbits(32))[0]
    if r.random() < 0.4:
        g.add_timelabel("tc", r.randrange(1000), Fraction(25))
    if t.startswith("coded") and r.random() < 0.7:
        g.data = r.randbytes(r.choice([1, 5, 50]))
    elif r.random() < 0.3:
        g.data = r.randbytes(len(g.data))
    size = len(g.data)
    before, b = attrs(g), bytes(g.data)
    data, given = None, []
    if r.random() < 0.4:
        d = r.randbytes(size)
        given = [list(d)]
        data = d if r.random() < 0.5 else st.just(d)
    s = S.grains_from_template_with_data(g, data) if data is not None or r.random() < 0.5 else S.grains_from_template_with_data(g)
    out = [{"attrs": attrs(x), "len": len(x.data), "data": list(bytes(x.data)) if given else [], "floats": floats(x.cog_audio_format, bytes(x.data)) if t == "audio" else True}
           for x in draw(s, 4, r.getrandbits(32))]
    return {"kind": "template", "type": t, "t": before, "size": size, "given": given, "kept": attrs(g) == before and bytes(g.data) == b, "grains": out, "trace": [t, size]}


def attribute(t, a, sd):
    name = {"cog_audio_format": "format", "cog_frame_format": "format", "cog_frame_layout": "layout"}.get(a, a)
    n = 300 if a in ("priming", "remainder", "temporal_offset", "samples", "channels", "unit_offsets") else 40      # enough for the ends of the range
    return {"kind": "attribute", "type": t, "a": name, "values": [enc(t, name, x) for x in draw(S.strategy_for_grain_attribute(a, t), n, sd)], "trace": [t, a]}


def ratio(seed):
    r = random.Random(seed)
    most = r.choice([1, 25, 200, 100000])
    vs = draw(S.fraction_dicts(min_value=0, max_value=most), 20, r.getrandbits(32))
    return {"kind": "ratio", "most": most, "values": [[big(x["numerator"]), big(x["denominator"])] for x in vs],
            "lowest": [set(x) == {"numerator", "denominator"} and math.gcd(x["numerator"], x["denominator"]) == 1 for x in vs], "trace": [most]}


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    hypothesis.configuration.set_hypothesis_home_dir(c.work)
    cases = []

    def add(name, f, *a):
        ok, v = call(f, *a, seconds=60)
        cases.append({"id": name, **(v if ok else {"kind": "failed", "res": "raised " + v})})
    for name, f, n in (("drawn", drawn, c.scale(400, 5000)), ("filled", filled, c.scale(40, 400)), ("template", template, c.scale(150, 2000)), ("ratio", ratio, c.scale(10, 100))):
        for i in range(n):
            add("%s %d" % (name, i), f, r.getrandbits(64))
    for t in TYPES:
        for a in new_attributes_for_grain_type(t):
            for k in range(c.scale(1, 10)):
                add("attribute %s %s %d" % (t, a, k), attribute, t, a, r.getrandbits(32))
    for i, (f, a) in enumerate([(S.strategy_for_grain_attribute, ("nonsense",)), (S.strategy_for_grain_attribute, ("nonsense", "video")), (S.strategy_for_grain_attribute, ("cog_audio_format",)),
                                (S.strategy_for_grain_attribute, ("cog_frame_format", "event")), (S.grains, ("nonsense",)), (S.grains, ("Video",))]):
        ok, v = call(f, *a)
        cases.append({"id": "refused %d" % i, "kind": "refused", "res": "ok" if ok else v, "trace": list(map(str, a))})
    c.judge("J_Drawn", cases)
    c.assumptions += ["the length of the one-bit alpha format's data and of coded grains given data by size is not specified"]

"""C09: histories of attribute and metadata assignments, constructions and rebuilds, judged by GrainMeta.tla."""
import copy
import json
import warnings
from fractions import Fraction
from uuid import UUID
from mediatimestamp.immutable import Timestamp, TimeOffset
from common import call
from gsflib import CLASSES, Gen, limbs, text
from mediagrains import GrainFactory, Grain
from mediagrains.grains import attributes_for_grain_type, new_attributes_for_grain_type
from mediagrains.grains.Grain import GrainType
from mediagrains.cogenums import CogFrameFormat, CogFrameLayout, CogAudioFormat

COMMON = ["source_id", "flow_id", "origin_timestamp", "sync_timestamp", "creation_timestamp", "rate", "duration"]
OWN = {
    "empty": [],
    "video": ["cog_frame_format", "cog_frame_layout", "width", "height", "extension", "source_aspect_ratio", "pixel_aspect_ratio"],
    "coded_video": ["cog_frame_format", "cog_frame_layout", "origin_width", "origin_height", "coded_width", "coded_height",
                    "is_key_frame", "temporal_offset", "source_aspect_ratio", "pixel_aspect_ratio", "unit_offsets"],
    "audio": ["cog_audio_format", "samples", "channels", "sample_rate"],
    "coded_audio": ["cog_audio_format", "samples", "channels", "sample_rate", "priming", "remainder"],
    "event": ["event_type", "topic", "event_data"]}
ALIAS = {"source_id": "src_id", "cog_frame_format": "format", "cog_frame_layout": "layout", "cog_audio_format": "format"}
SECTION = {"video": "cog_frame", "coded_video": "cog_coded_frame", "audio": "cog_audio", "coded_audio": "cog_coded_audio",
           "event": "event_payload"}
KEY = {"cog_frame_format": "format", "cog_audio_format": "format", "cog_frame_layout": "layout", "event_type": "type", "event_data": "data"}
ENUM = {"cog_frame_format": CogFrameFormat, "cog_frame_layout": CogFrameLayout, "cog_audio_format": CogAudioFormat}
NOPARAM = ("extension", "source_aspect_ratio", "pixel_aspect_ratio", "event_data")


def enc_int(n):
    return [1 if n >= 0 else -1] + limbs(abs(n))


def enc(v):
    """A Python value as a specification value."""
    if v is None:
        return ["none", []]
    if isinstance(v, bool):
        return ["bool", [int(v)]]
    if isinstance(v, (CogFrameFormat, CogFrameLayout, CogAudioFormat)):
        return ["enum:" + type(v).__name__, enc_int(int(v))]
    if isinstance(v, int):
        return ["int", enc_int(int(v))]
    if isinstance(v, str):
        return ["text", text(v)]
    if isinstance(v, UUID):
        return ["id", list(v.bytes)]
    if isinstance(v, Timestamp):
        return ["ts", [v.sign, text(str(abs(v.sec))), text(str(v.ns))]]
    if isinstance(v, Fraction):
        return ["rat", [enc_int(v.numerator), enc_int(v.denominator)]]
    return ["!" + type(v).__name__, text(repr(v))]


def js(v):
    return ["json", text(json.dumps(v, sort_keys=True, separators=(",", ":")))]


def enc_attr(a, v):
    if a == "event_data":
        return js([dict(x) for x in v])
    if a == "unit_offsets":
        return ["ints", [enc_int(x) for x in v]]
    return enc(v)


def flatten(m, path=(), out=None):
    """Leaves of the metadata: [path, value, path of the parent]."""
    out = [] if out is None else out
    p = "/".join(path)
    if p == "grain/event_payload/data" or path[-1:] == ("components",) or p == "grain/timelabels":
        out.append([p, js(json.loads(json.dumps(m, default=dict))), "/".join(path[:-1])])
    elif isinstance(m, dict):
        if not m:
            out.append([p, ["empty", []], ""])
        for k, x in m.items():
            flatten(x, path + (str(k),), out)
    elif isinstance(m, (list, tuple)):
        if not m:
            out.append([p, ["empty", []], ""])
        for k, x in enumerate(m):
            flatten(x, path + (str(k),), out)
    else:
        out.append([p, enc(m), "/".join(path[:-1])])
    return out


def observe(g, t):
    attrs = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for a in COMMON + OWN[t]:
            attrs.append([a, enc_attr(a, getattr(g, a))])
            if a in ALIAS:
                attrs.append([ALIAS[a], enc_attr(a, getattr(g, ALIAS[a]))])
    if type(g) is not CLASSES[t]:
        attrs.append(["flow_id", ["!class", text(type(g).__name__)]])
    return {"attrs": attrs, "meta": flatten(g.meta)}


def value(gen, a):
    r = gen.r
    if a.endswith("_id"):
        return gen.uuid()
    if a.endswith("_timestamp"):
        k = r.random()
        s = r.choice([0, 1, 1500000000, 281474976710654, r.randrange(1 << 20), r.getrandbits(40)])
        n = r.choice([0, 1, 999999999, r.randrange(10**9)])
        return Timestamp(s, n, -1 if k < 0.2 and (s or n) else 1)
    if a in ("rate", "duration", "source_aspect_ratio", "pixel_aspect_ratio"):
        return gen.rat() if a in ("rate", "duration") else gen.rat(False)
    if a in ENUM:
        return r.choice(list(ENUM[a]))
    if a in ("event_type", "topic"):
        return gen.str(40)
    if a == "event_data":
        return [{"path": gen.str(), **({"pre": r.choice([1, "x", [1, {"a": True}]])} if r.random() < 0.5 else {}),
                 **({"post": r.choice([0, "", {"b": [2.5]}])} if r.random() < 0.5 else {})} for _ in range(r.randrange(4))]
    if a == "unit_offsets":
        return [gen.u(32) for _ in range(r.choice([0, 1, 2, 5]))]
    if a == "is_key_frame":
        return r.choice([None, True, False])
    if a == "temporal_offset":
        return r.choice([None, 0, 1, -1, 5, -70000, 1 << 30])
    return r.choice([0, 1, 2, 1920, 1080, 1 << 31, gen.u(32)])


def spelling(gen, a, v):
    """Some way a user may write this value in an assignment."""
    r = gen.r
    if a.endswith("_id"):
        return r.choice([v, str(v)])
    if a.endswith("_timestamp"):
        return r.choice([v, v, v.to_sec_nsec(), TimeOffset(v.sec, v.ns, v.sign)])
    if isinstance(v, Fraction):
        x = [v, v, str(v)]
        if v.denominator == 1:
            x.append(int(v))
        if v.denominator in (2, 4) and v.numerator < 1 << 40:
            x.append(float(v))
        return r.choice(x)
    if a in ENUM:
        return r.choice([v, int(v)])
    if a == "unit_offsets":
        return r.choice([list(v), tuple(v), v + [], None if not v else v, iter(v) if v else []])
    return copy.deepcopy(v)


def store(g, t, a, v, r):
    """Write the value into the metadata dictionary, as other code does."""
    d = g.meta["grain"] if a in COMMON else g.meta["grain"][SECTION[t]]
    k = KEY.get(a, a)
    if v is None or (a == "unit_offsets" and not v):
        d.pop(k, None)
    elif isinstance(v, UUID):
        d[k] = str(v)
    elif isinstance(v, Timestamp):
        d[k] = v.to_sec_nsec()
    elif isinstance(v, Fraction):
        if k in d and isinstance(d[k], dict) and r.random() < 0.5:
            d[k]["numerator"] = v.numerator
            d[k]["denominator"] = v.denominator
        else:
            d[k] = {"numerator": v.numerator, "denominator": v.denominator}
    elif a in ENUM:
        d[k] = int(v)
    else:
        d[k] = copy.deepcopy(v)


def in_meta(r, a, v):
    """The forms a metadata dictionary given to a constructor may have."""
    if isinstance(v, UUID):
        return r.choice([v, str(v)])
    if isinstance(v, Timestamp):
        return r.choice([v, v.to_sec_nsec(), TimeOffset(v.sec, v.ns, v.sign)])
    if isinstance(v, Fraction):
        d = {"numerator": v.numerator, "denominator": v.denominator}
        return r.choice([v, d]) if a in ("rate", "duration") else d
    if a in ENUM:
        return r.choice([v, int(v)])
    return copy.deepcopy(v)


def build(gen, t, how, given, extra):
    r = gen.r
    if how == "params":
        kw = {("src_id" if a == "source_id" else a): v for a, v in given.items()}
        f = GrainFactory if t == "empty" else CLASSES[t]
        return f(**copy.deepcopy(kw))
    m = {}
    if "@_ns" in extra:
        m["@_ns"] = extra["@_ns"]
    gr = {}
    if t != "empty" or r.random() < 0.7:
        gr["grain_type"] = t
    for a, v in given.items():
        d = gr if a in COMMON else gr.setdefault(SECTION[t], {})
        if v is None or (a == "unit_offsets" and not v):
            continue
        d[KEY.get(a, a)] = in_meta(r, a, v)
    if t == "video" and "cog_frame" in gr:
        gr["cog_frame"].setdefault("components", [])
    for k, v in extra.items():
        if k != "@_ns":
            gr[k] = v
    if gr or r.random() < 0.5:
        m["grain"] = gr
    if t == "empty":
        return r.choice([GrainFactory, Grain])(m, None)
    if r.random() < 0.5:
        return GrainFactory(m)
    return CLASSES[t](meta=m)


def rebuild(g, r):
    m = copy.deepcopy(g.meta)
    k = r.choice(["factory", "class", "json", "copy", "deepcopy", "same"])
    if k == "json":
        m = json.loads(json.dumps(m))
    if k == "copy":
        return copy.copy(g)
    if k == "deepcopy":
        return copy.deepcopy(g)
    if k == "class":
        return type(g)(m, None)
    if k == "same":
        return GrainFactory(g.meta, g.data)
    return GrainFactory(m, None)


def run(c):
    r = c.rng
    gen = Gen(r)
    warnings.simplefilter("ignore")
    cases = []
    for n in range(c.scale(2000, 30000)):
        t = r.choice(list(OWN))
        how = r.choice(["params", "meta"])
        names = COMMON + OWN[t]
        # a video grain's frame section is given in full or not at all
        p = r.choice([0, 0.3, 0.7, 1])
        whole = r.random() < 0.5
        given = {}
        for a in names:
            if how == "params" and a in NOPARAM:
                continue
            if (how == "params" and a in ("source_id", "flow_id")) or r.random() < p:
                given[a] = value(gen, a)
            if how == "meta" and t == "video" and a in OWN["video"]:
                given.pop(a, None)
                if whole and (a not in ("source_aspect_ratio", "pixel_aspect_ratio") or r.random() < 0.5):
                    given[a] = value(gen, a)
        if t == "video" and how == "params":
            for a in ("width", "height"):
                if given.get(a, 0) > 64:
                    given[a] %= 65
            if "width" not in given or "height" not in given:
                given["cog_frame_format"] = CogFrameFormat.H264
        if t in ("audio", "coded_audio") and how == "params":
            for a in ("samples", "channels"):
                if given.get(a, 0) > 64:
                    given[a] %= 65
        extra = {}
        if how == "meta" and r.random() < 0.5:
            extra = {"@_ns": "urn:x-ipstudio:ns:0.1"}
            if r.random() < 0.3:
                extra["x_private"] = r.choice([7, "z"])
        lo = Timestamp.get_time()
        ok, g = call(build, gen, t, how, given, extra)
        hi = Timestamp.get_time()
        case = {"id": f"{t}-{how}-{n}", "t": t, "how": how, "given": [[a, enc_attr(a, v)] for a, v in given.items()],
                "extra": [[("grain/" if k != "@_ns" else "") + k, enc(v)] for k, v in extra.items()],
                "now": ["none", []], "recent": True, "first": {"attrs": [], "meta": []}, "evs": [], "res": "ok"}
        cases.append(case)
        if not ok:
            case["res"] = g
            continue
        ok, o = call(observe, g, t)
        if not ok:
            case["res"] = o
            continue
        case["first"] = o
        if "creation_timestamp" not in given:
            case["now"] = enc(g.creation_timestamp)
            case["recent"] = bool(lo <= g.creation_timestamp <= hi)
        for _ in range(r.randrange(0, 10)):
            op = r.choice(["set", "set", "set", "set", "meta", "rebuild", "sibling"])
            a = r.choice(names)
            if t == "event" and op == "sibling" and a == "event_data":
                a = "topic"
            v = value(gen, a)
            if a.endswith("aspect_ratio") and v is None:
                continue
            name = ALIAS[a] if a in ALIAS and r.random() < 0.5 else a
            ev = {"op": op, "attr": name, "val": enc_attr(a, v), "res": "ok", "obs": {"attrs": [], "meta": []}}
            case["evs"].append(ev)
            if op == "set":
                ok, e = call(setattr, g, name, spelling(gen, a, v))
            elif op == "meta":
                ok, e = call(store, g, t, a, v, r)
            elif op == "rebuild":
                ok, e = call(rebuild, g, r)
                if ok:
                    g = e
            else:
                def other():
                    s = copy.deepcopy(g) if r.random() < 0.5 else GrainFactory(copy.deepcopy(g.meta), None)
                    setattr(s, name, spelling(gen, a, v))
                ok, e = call(other)
            if ok:
                ok, e = call(observe, g, t)
                ev["obs"] = e if ok else ev["obs"]
            if not ok:
                ev["res"] = e
                break
        case["trace"] = 1 + len(case["evs"])
    c.judge("J_GrainMeta", cases)
    cases = []
    for t in CLASSES:
        for new, f in ((False, attributes_for_grain_type), (True, new_attributes_for_grain_type), (True, lambda x: attributes_for_grain_type(x, new=True))):
            for x in [t] + [k for k in GrainType if k.name.upper() == t.replace("_", "").upper() + "GRAIN"]:
                ok, v = call(f, x)
                cases.append({"id": "listed %r %s" % (x, new), "t": t, "new": new, "listed": list(v) if ok else [v]})
    c.judge("J_GrainMeta", cases, part="listed")

"""C13: the layout of new video and audio grains, judged by Formats.tla."""
import warnings
from fractions import Fraction
from uuid import UUID
from common import call
from mediagrains import GrainFactory, cogenums as ce
from mediagrains.grains import VideoGrain, AudioGrain, size_for_audio_format
from mediagrains.numpy import VideoGrain as NPVideoGrain, AudioGrain as NPAudioGrain
from mediagrains.cogenums import CogFrameFormat as VF, CogFrameLayout, CogAudioFormat as AF

IDS = {"src_id": UUID(int=1), "flow_id": UUID(int=2)}
COMPRESSED = ("MJPEG", "DNxHD", "MPEG2", "AVCI", "H264", "DV", "D10", "VC2", "VP8", "H265")
VIDEO = ["U8_444", "U8_422", "U8_420", "U8_444_RGB", "ALPHA_U8", "S16_444_10BIT", "S16_422_10BIT", "S16_420_10BIT", "S16_444_10BIT_RGB", "ALPHA_S16_10BIT",
         "S16_444_12BIT", "S16_422_12BIT", "S16_420_12BIT", "S16_444_12BIT_RGB", "ALPHA_S16_12BIT", "S16_444", "S16_422", "S16_420", "S16_444_RGB",
         "ALPHA_S16", "S32_444", "S32_422", "S32_420", "S32_444_RGB", "ALPHA_S32", "YUYV", "UYVY", "v216", "AYUV", "RGB", "RGBx", "RGBA", "BGRx", "BGRA",
         "xRGB", "ARGB", "xBGR", "ABGR", "v210"]
AUDIO = [a + "_" + b for a in ("S16", "S24", "S32", "FLOAT", "DOUBLE") for b in ("PLANES", "PAIRS", "INTERLEAVED")]


def num(f, *a):
    ok, v = call(f, *a)
    return int(v) if ok and isinstance(v, int) else -1


def comps(g):
    return [{k: int(c[k]) for k in ("width", "height", "stride", "offset", "length")} for c in g.components]


def video(r, name, w, h, cls):
    how = r.randrange(3)
    kw = dict(IDS, cog_frame_format=VF[name], width=w, height=h, cog_frame_layout=r.choice(list(CogFrameLayout)))
    if how == 1:
        kw["rate"] = Fraction(50)
    g = cls(**kw)
    if how == 2 and cls is VideoGrain:
        # with data of one's own the description is the same
        n = len(g.data)
        g = cls(data=bytes(n), **kw)
    return {"kind": "video", "f": name, "w": w, "h": h, "cs": comps(g), "alloc": len(bytes(g)), "len": g.length, "exp": g.expected_length}


def audio(r, name, channels, samples, cls):
    g = cls(**IDS, cog_audio_format=AF[name], samples=samples, channels=channels, sample_rate=r.choice([48000, 44100, 8000]))
    return {"kind": "audio", "f": name, "channels": channels, "samples": samples, "alloc": len(bytes(g)), "len": g.length, "exp": g.expected_length,
            "size": size_for_audio_format(AF[name], channels, samples)}


def component(r):
    big = r.choice([1, 20, 3000])
    return {"width": r.randrange(9), "height": r.randrange(9), "stride": r.randrange(20), "offset": r.randrange(big), "length": r.randrange(big)}


def described(r):
    """The expected length of a picture as its description changes; its data is something else"""
    def now():
        seen.append({"cs": comps(g), "exp": g.expected_length})
    cs = [component(r) for _ in range(r.choice([0, 1, 2, 3, 3, 4]))]
    meta = {"grain": {"grain_type": "video", "cog_frame": {"format": VF[r.choice(VIDEO)], "width": r.randrange(9), "height": r.randrange(9), "layout": CogFrameLayout.FULL_FRAME, "extension": 0, "components": cs}}}
    if r.random() < 0.3:
        meta["grain"]["length"] = r.randrange(50)
    g, seen = VideoGrain(meta, r.randbytes(r.randrange(50))), []
    if not cs:
        return {"kind": "described", "seen": []}
    now()
    for _ in range(r.randint(1, 5)):
        k, n = r.randrange(6), len(g.components)
        if k == 0:
            g.components.append(component(r))
        elif k == 1 and n:
            del g.components[r.randrange(n)]
        elif k == 2 and n:
            g.components[r.randrange(n)] = component(r)
        elif k == 3 and n:
            x = g.components[r.randrange(n)]
            if r.random() < 0.5:
                x.offset = r.randrange(3000)
            else:
                x["length"] = r.randrange(3000)
        elif k == 4:
            g.data = r.randbytes(r.randrange(50))
        else:
            g.width, g.height, g.cog_frame_format = r.randrange(9), r.randrange(9), VF[r.choice(VIDEO)]
        now()
    return {"kind": "described", "seen": seen}


def changed(r):
    """The expected length of audio as its description changes"""
    g = AudioGrain(**IDS, cog_audio_format=AF[r.choice(AUDIO)], samples=r.randrange(9), channels=r.randrange(9))
    seen = []
    for _ in range(r.randint(1, 6)):
        k = r.randrange(4)
        if k == 0:
            g.cog_audio_format = AF[r.choice(AUDIO)]
        elif k == 1:
            g.samples = r.randrange(3000)
        elif k == 2:
            g.channels = r.randrange(9)
        else:
            g.data = r.randbytes(r.randrange(50))
        seen.append({"f": AF(g.cog_audio_format).name, "channels": g.channels, "samples": g.samples, "exp": g.expected_length})
    return {"kind": "changed", "seen": seen}


def stated(r):
    """The expected length of grains without a layout: what their metadata states, else what there is"""
    n = r.choice([0, 0, 1, 5, 100])
    data = r.choice([bytes(n), bytearray(n), memoryview(bytes(n)), None if n == 0 else bytes(n)])
    meta = {"grain": {"grain_type": r.choice(["empty", "coded_video", "coded_audio", "video", "audio"][:3])}}
    said = r.choice([[], [0], [7], [n]])
    if said:
        meta["grain"]["length"] = said[0]
    g = GrainFactory(meta, data)
    return {"kind": "stated", "said": said, "data": n, "exp": g.expected_length}


DEPTH = {ce.COG_AUDIO_FORMAT_DEPTH_S16: 16, ce.COG_AUDIO_FORMAT_DEPTH_S24: 24, ce.COG_AUDIO_FORMAT_DEPTH_S32: 32, ce.COG_AUDIO_FORMAT_DEPTH_S64: 64}


def run(c):
    r = c.rng
    warnings.simplefilter("ignore")
    c.model("MC_Formats", "INIT Init\nNEXT MNext\nINVARIANT Laws\nCONSTANT N = %d\nCHECK_DEADLOCK FALSE\n" % c.scale(4, 8), "Formats")
    cases = []

    def add(name, f, *a):
        ok, v = call(f, *a)
        cases.append({"id": name, **(v if ok else {"kind": "raised " + v})})
    n = c.scale(9, 26)
    for f in VIDEO:
        sizes = [(w, h) for w in range(1, n) for h in range(1, n)]
        sizes += [(r.randrange(1, 200), r.randrange(1, 80)) for _ in range(c.scale(10, 200))] + [(1920, 1080), (1280, 720), (720, 576), (47, 3), (48, 3), (49, 3), (97, 2), (0, 0)]
        for w, h in sizes:
            add(f"{f} {w}x{h}", video, r, f, w, h, VideoGrain)
            if w * h and f not in ("ALPHA_U8_1BIT",) and r.random() < 0.2:
                add(f"np {f} {w}x{h}", video, r, f, w, h, NPVideoGrain)
    for f in AUDIO:
        for ch in range(0, 10):
            for s in [0, 1, 2, 3, 7, 1920, r.randrange(5000)]:
                add(f"{f} {ch}x{s}", audio, r, f, ch, s, AudioGrain)
                if ch * s and r.random() < 0.3:
                    add(f"np {f} {ch}x{s}", audio, r, f, ch, s, NPAudioGrain)
    for f in VIDEO:
        for x in (VF[f], int(VF[f])):
            cases.append({"id": f"predicates {f}", "kind": "vformat", "f": f, "packed": bool(ce.COG_FRAME_IS_PACKED(x)), "planar": bool(ce.COG_FRAME_IS_PLANAR(x)),
                          "compressed": bool(ce.COG_FRAME_IS_COMPRESSED(x)), "rgb": bool(ce.COG_FRAME_IS_PLANAR_RGB(x)), "alpha": bool(ce.COG_FRAME_IS_ALPHA(x)),
                          "hs": num(ce.COG_FRAME_FORMAT_H_SHIFT, x), "vs": num(ce.COG_FRAME_FORMAT_V_SHIFT, x),
                          "bpv": num(ce.COG_FRAME_FORMAT_BYTES_PER_VALUE, x), "bits": num(ce.COG_FRAME_FORMAT_ACTIVE_BITS, x)})
    for f in AUDIO:
        x = AF[f]
        cases.append({"id": f"predicates {f}", "kind": "aformat", "f": f, "planes": bool(ce.COG_AUDIO_IS_PLANES(x)), "pairs": bool(ce.COG_AUDIO_IS_PAIRS(x)),
                      "interleaved": bool(ce.COG_AUDIO_IS_INTERLEAVED(x)), "int": bool(ce.COG_AUDIO_IS_INT(x)), "float": bool(ce.COG_AUDIO_IS_FLOAT(x)),
                      "double": bool(ce.COG_AUDIO_IS_DOUBLE(x)), "bytes": num(ce.COG_AUDIO_FORMAT_SAMPLEBYTES, x), "depth": DEPTH.get(num(ce.COG_AUDIO_FORMAT_DEPTH, x), 0), "compressed": bool(ce.COG_AUDIO_IS_COMPRESSED(x))})
    for f in COMPRESSED:
        cases.append({"id": f"predicates {f}", "kind": "compressed", "compressed": bool(ce.COG_FRAME_IS_COMPRESSED(VF[f])), "planar": bool(ce.COG_FRAME_IS_PLANAR(VF[f]))})
    for f in ("AAC", "MP1", "OPUS"):
        cases.append({"id": f"predicates {f}", "kind": "compressed", "compressed": bool(ce.COG_AUDIO_IS_COMPRESSED(AF[f])), "planar": False})
    for ch, p in (("444", "YUV_444"), ("422", "YUV_422"), ("420", "YUV_420"), ("RGB", "RGB")):
        for bits in (8, 10, 12, 16, 32):
            ok, v = call(ce.COG_PLANAR_FORMAT, ce.PlanarChromaFormat[p], bits)
            cases.append({"id": f"planar {ch} {bits}", "kind": "planarformat", "f": v.name if ok and isinstance(v, VF) else "UYVY", "ch": ch, "bits": bits})
    for i in range(c.scale(500, 8000)):
        for f in (described, changed, stated):
            add(f"{f.__name__} {i}", f, r)
    c.judge("J_Layout", cases)
    c.assumptions += ["where a picture of odd size leaves chroma samples over, the described component may keep their bytes as slack",
                      "formats with alpha only may have one or three components; grains rebuilt from metadata keep what the metadata describes"]

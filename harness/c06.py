"""C06: reading sessions with deferred data: histories of the model and random ones, and tasks that load grains
while others iterate or leave; judged by GsfLoad.tla over the reference decoder."""
import asyncio
import os
import random
from io import BytesIO
from uuid import UUID
from common import call
import gsflib
from gsflib import Gen, OneWayIn, FeedReader, MODES, CLASSES, encode, obs_grain
from gsffiles import conforming
from mediagrains.cogenums import CogFrameFormat, CogAudioFormat
from mediagrains.gsf import GSFDecoder
from mediagrains.grains import VideoGrain, AudioGrain, GrainFactory
from mediagrains import numpy as npg
from mediagrains.utils.asyncbinaryio import (AsyncBytesIO, AsyncFileWrapper, AsyncStreamWrapper, AsyncBytesIOWrapper,
                                             OpenAsyncBinaryIO)

SYNC = ["bytesio", "file", "oneway"]
ASYNC = ["abytes", "afile", "abytesiow", "slow", "slow", "stream"]
ONEWAY = {"oneway", "stream"}
NPCLASSES = {**CLASSES, "video": npg.VideoGrain, "audio": npg.AudioGrain}


def numpy_grain(meta, data):
    cls = {"video": npg.VideoGrain, "audio": npg.AudioGrain}.get(meta["grain"].get("grain_type"))
    return GrainFactory(meta, data) if cls is None else cls(meta, data)


class SlowFile(OpenAsyncBinaryIO):
    """A file whose reads give other tasks a chance to run, before, in the middle and after."""
    def __init__(self, b, rng):
        self.b = b
        self.p = 0
        self.r = rng

    async def pause(self):
        for _ in range(self.r.choice([0, 0, 1, 2, 5])):
            await asyncio.sleep(0)

    async def readinto(self, buf):
        await self.pause()
        n = max(0, min(len(buf), len(self.b) - self.p))
        half = n // 2 if self.r.random() < 0.5 else 0
        buf[:half] = self.b[self.p:self.p + half]
        self.p += half
        if half:
            await self.pause()
        buf[half:n] = self.b[self.p:self.p + n - half]
        self.p += n - half
        await self.pause()
        return n

    async def readall(self):
        b = self.b[self.p:]
        self.p = len(self.b)
        return b

    async def write(self, b):
        raise NotImplementedError

    async def truncate(self, s=None):
        raise NotImplementedError

    def tell(self):
        return self.p

    def seek(self, offset, whence=0):
        self.p = {0: 0, 1: self.p, 2: len(self.b)}[whence] + offset
        return self.p

    def seekable(self):
        return True

    def readable(self):
        return True

    def writable(self):
        return False


class Player:
    def __init__(self, b, source, conc, tmpdir, rng, parse, legacy, leave_with):
        self.b, self.source, self.r, self.tmp = b, source, rng, tmpdir
        self.kw = {} if conc else {"support_concatenation": False}
        self.classes = CLASSES
        if parse == "numpy":
            self.kw["parse_grain"] = numpy_grain
            self.classes = NPCLASSES
        self.legacy = legacy
        self.leave_with = leave_with
        self.h = []
        self.it = None

    def content(self, g):
        d = g.data
        return [] if d is None else list(bytes(d))

    def rec(self, ev, err="", **kw):
        e = {"op": ev["op"], "k": ev.get("k", 0), "mode": ev.get("mode", ""), "ids": ev.get("ids", []), "err": err,
             "end": False, "lid": 0, "n": 0, "data": [], "g": {}, "subs": []}
        e.update(kw)
        return e

    def play_sync(self, script, out):
        if self.source == "bytesio":
            f = BytesIO(self.b)
        elif self.source == "file":
            p = os.path.join(self.tmp, "in.gsf")
            with open(p, "wb") as w:
                w.write(self.b)
            f = open(p, "rb")
        else:
            f = OneWayIn(self.b)
        dec = GSFDecoder(file_data=f, **self.kw)
        if self.legacy:
            dec.decode_file_headers()
            sess = dec
        else:
            sess = dec.__enter__()
        for ev in script:
            if ev.get("k", 0) > len(self.h):
                continue
            try:
                if ev["op"] == "iter":
                    ids = ev["ids"][0] if ev.get("ids") else None
                    if self.legacy:
                        kw = {"imm": {}, "never": {"skip_data": True}}.get(ev["mode"], {"load_lazily": True})
                    else:
                        kw = {"loading_mode": MODES[ev["mode"]]}
                    self.it = iter(sess.grains(local_ids=ids, **kw))
                    out.append(self.rec(ev))
                elif ev["op"] == "next":
                    try:
                        g, lid = next(self.it)
                        self.h.append(g)
                        out.append(self.rec(ev, lid=lid, g=obs_grain(g, False, self.classes)))
                    except StopIteration:
                        out.append(self.rec(ev, end=True))
                elif ev["op"] in ("await", "touch"):
                    out.append(self.rec(ev, data=self.content(self.h[ev["k"] - 1])))
                elif ev["op"] == "len":
                    out.append(self.rec(ev, n=self.h[ev["k"] - 1].length))
                elif ev["op"] == "exit":
                    if not self.legacy:
                        dec.__exit__(*self.leave_with)
                    out.append(self.rec(ev))
                elif ev["op"] == "gather":
                    for e in ev["subs"]:
                        if e["op"] == "await" and e["k"] <= len(self.h):
                            out.append(self.rec(e, data=self.content(self.h[e["k"] - 1])))
            except Exception as e:
                out.append(self.rec(ev, err=type(e).__name__))
                break
        f.close()

    async def one(self, ev):
        try:
            if ev["op"] == "next":
                try:
                    g, lid = await self.it.__anext__()
                    o = self.rec(ev, lid=lid, g=obs_grain(g, False, self.classes))
                    self.h.append(g)
                    return o
                except StopAsyncIteration:
                    return self.rec(ev, end=True)
            if ev["op"] == "await":
                g = self.h[ev["k"] - 1]
                how = self.r.random()
                if how < 0.6:
                    d = await g
                    d = [] if d is None else list(bytes(d))
                elif how < 0.8:
                    async with g as x:
                        d = self.content(x)
                else:                                   # given up once, then awaited again
                    try:
                        await asyncio.wait_for(g, 0)
                    except asyncio.TimeoutError:
                        pass
                    await g
                    d = self.content(g)
                return self.rec(ev, data=d)
            if ev["op"] == "exit":
                await self.dec.__aexit__(*self.leave_with)
                return self.rec(ev)
        except Exception as e:
            return self.rec(ev, err=type(e).__name__)

    async def play_async(self, script, out):
        t = None
        fp = None
        if self.source == "abytes":
            f = AsyncBytesIO(self.b)
        elif self.source == "abytesiow":
            f = AsyncBytesIOWrapper(BytesIO(self.b))
        elif self.source == "afile":
            p = os.path.join(self.tmp, "in.gsf")
            with open(p, "wb") as w:
                w.write(self.b)
            fp = open(p, "rb")
            f = AsyncFileWrapper(fp)
        elif self.source == "slow":
            f = SlowFile(self.b, self.r)
        else:
            r, t = FeedReader.make(self.b, [self.r.choice([1, 7, 100, 4000])])
            f = AsyncStreamWrapper(r)
        self.dec = GSFDecoder(file_data=f, **self.kw)
        sess = await self.dec.__aenter__()
        left = False
        try:
            for ev in script:
                if ev.get("k", 0) > len(self.h):
                    continue
                if ev["op"] == "iter":
                    self.it = sess.grains(local_ids=ev["ids"][0] if ev.get("ids") else None,
                                          loading_mode=MODES[ev["mode"]]).__aiter__()
                    out.append(self.rec(ev))
                elif ev["op"] == "touch":
                    out.append(self.rec(ev, data=self.content(self.h[ev["k"] - 1])))
                elif ev["op"] == "len":
                    out.append(self.rec(ev, n=self.h[ev["k"] - 1].length))
                elif ev["op"] == "gather":
                    subs = [e for e in ev["subs"] if e.get("k", 0) <= len(self.h)]
                    if subs:
                        res = await asyncio.gather(*[self.one(e) for e in subs])
                        out.append(self.rec({"op": "gather"}, subs=res))
                        left = left or any(e["op"] == "exit" for e in subs)
                else:
                    out.append(await self.one(ev))
                    left = left or ev["op"] == "exit"
                if out and (out[-1]["err"] or any(s["err"] for s in out[-1]["subs"])):
                    break
        except Exception as e:
            out.append(self.rec({"op": "harness"}, err=type(e).__name__))
        finally:
            if t is not None:
                t.cancel()
            if not left:
                try:
                    await asyncio.wait_for(self.dec.__aexit__(None, None, None), 20)
                except Exception as e:
                    out.append(self.rec({"op": "exit"}, err=type(e).__name__))
            if fp:
                fp.close()


def consistent_doc(g, r):
    """A document of pictures and sound that numpy grains can show."""
    doc = g.doc(9, 1, 0)
    lid = doc["segs"][0]["lid"] if doc["segs"] else 1
    if not doc["segs"]:
        doc["segs"] = g.segs(1)
        lid = doc["segs"][0]["lid"]
    doc["grains"] = []
    for i in range(r.randrange(2, 6)):
        ids = dict(src_id=UUID(int=r.getrandbits(128)), flow_id=UUID(int=r.getrandbits(128)))
        if r.random() < 0.6:
            x = VideoGrain(cog_frame_format=r.choice([CogFrameFormat.S16_422_10BIT, CogFrameFormat.U8_420, CogFrameFormat.UYVY]),
                           width=r.choice([4, 8]), height=r.choice([2, 4]), **ids)
        else:
            x = AudioGrain(cog_audio_format=r.choice([CogAudioFormat.S16_INTERLEAVED, CogAudioFormat.S32_PLANES]),
                           channels=r.choice([1, 2]), samples=r.choice([1, 7]), sample_rate=48000, **ids)
        x.data = bytes(r.getrandbits(8) for _ in range(x.length))
        o = obs_grain(x)
        doc["grains"].append({"lid": lid, "g": o})
    return doc


def run(c):
    r = c.rng
    g = Gen(r)
    cases = []
    c.model("MC_GsfLoadTasks", "INIT Init\nNEXT Next\nINVARIANT RightHeads\nINVARIANT RightData\nCONSTANT NGrains = 3\n"
            "CONSTANT Locked = TRUE\n", "GsfLoadTasks")
    c.refuted("MC_GsfLoadTasks", "INIT Init\nNEXT Next\nINVARIANT RightHeads\nINVARIANT RightData\nCONSTANT NGrains = 2\n"
              "CONSTANT Locked = FALSE\n", "GsfLoadTasks-without-lock")
    depth = c.scale(6, 7)
    beh = c.behaviours("MC_GsfLoad", f"INIT Init\nNEXT Next\nINVARIANT InOrder\nINVARIANT Complete\nINVARIANT Settled\n"
                       f"INVARIANT Printed\nCONSTANT Depth = {depth}\nCONSTANT Emit = TRUE\nCHECK_DEADLOCK FALSE\n", "GsfLoad")
    small = []
    for n in range(6):
        doc = g.doc(r.choice([7, 8, 9]), 2, 0)
        if len(doc["segs"]) < 1:
            doc["segs"] = g.segs(1)
        doc["grains"] = []
        for i, t in enumerate(r.sample(["audio", "event", "coded_video", "coded_audio", "video", "empty"], 3)):
            x = g.grain(doc["v"], t)
            if i != 1 and not x["data"]:
                x["data"] = list(b"\x01data\xff" * (i + 1)) if t != "event" else x["data"]
            if i == 1 and t != "event":
                x["data"] = []
            doc["grains"].append({"lid": doc["segs"][i % len(doc["segs"])]["lid"], "g": x})
        small.append(encode(doc, "sync-stream"))

    def add(name, b, script, source, conc=True, parse="bytes", legacy=False):
        out = []
        leave = (ValueError, ValueError("body"), None) if r.random() < 0.2 else (None, None, None)
        p = Player(b, source, conc, c.work, random.Random(r.getrandbits(32)), parse, legacy, leave)
        if source in SYNC:
            ok, e = call(p.play_sync, script, out)
        else:
            ok, e = call(lambda: asyncio.run(p.play_async(script, out)))
        if not ok:
            out.append(p.rec({"op": "session"}, err=str(e)))
        cases.append({"id": f"{name}:{source}:{parse}{':legacy' if legacy else ''}", "bytes": list(b), "conc": conc,
                      "kind": {"async": source in ASYNC, "seek": source not in ONEWAY}, "evs": out, "trace": len(out)})

    picked = beh if c.thorough else r.sample(beh, min(len(beh), 1500))
    for i, b in enumerate(picked):
        add(f"model{i}", small[i % len(small)], b, (ASYNC + SYNC)[r.randrange(9)], legacy=r.random() < 0.3)

    for i in range(c.scale(500, 8000)):
        k = r.random()
        parse = "bytes"
        far = r.random() < 0.25                  # through the files that follow one another
        if far:
            b = b"".join(r.choice(small) for _ in range(r.choice([2, 2, 3])))
        elif k < 0.3:
            b = encode(g.doc(None, 3, 8), r.choice(["sync-stream", "sync-all"]))
        elif k < 0.6:
            b, _, _ = conforming(r, 0.4, r.choice([1, 1, 2]))
        else:
            b = encode(consistent_doc(g, r), "sync-stream")
            parse = r.choice(["bytes", "numpy", "numpy"])
        script = []
        lids = [1, 2, 3, 4]

        def it():
            script.append({"op": "iter", "mode": r.choice(["defer", "defer", "load-defer", "load-defer", "imm", "never"]),
                           "ids": [] if r.random() < 0.8 else [r.sample(lids, r.randrange(0, 4))]})
        it()
        left = False
        for _ in range(r.randrange(3, 25)):
            k = r.random()
            K = {"k": r.randrange(1, 7)}
            if k < (0.6 if far else 0.3) and not left:
                script.append({"op": "next"})
            elif k < 0.4:
                script.append({"op": "await", **K})
            elif k < 0.5:
                script.append({"op": "touch", **K})
            elif k < 0.6:
                script.append({"op": "len", **K})
            elif k < 0.65 and not left:
                it()
            elif k < 0.7 and not left:
                script.append({"op": "exit"})
                left = True
            else:
                subs = [{"op": "await", "k": r.randrange(1, 7)} for _ in range(r.randrange(1, 5))]
                if not left and r.random() < 0.5:
                    if r.random() < 0.7:
                        subs.append({"op": "next"})
                    else:
                        subs.append({"op": "exit"})
                        left = True
                r.shuffle(subs)
                script.append({"op": "gather", "subs": subs})
        for k in range(1, 7):
            script.append({"op": "touch", "k": k})
        add(f"rand{i}", b, script, r.choice(ASYNC + ["slow", "slow"] + ([] if far else ["bytesio", "file", "oneway"])), conc=far or r.random() < 0.8,
            parse=parse, legacy=r.random() < 0.2)
    c.judge("J_GsfLoad", cases)

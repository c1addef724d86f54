"""C05: histories of the real GSF encoder, enumerated by the session model and random longer ones; judged by
GsfSession.tla and the format specification."""
import asyncio
import random
from io import BytesIO
from uuid import UUID
from common import call
import gsflib
from gsflib import Gen, OneWay, build_grain, b2s, created_dt, text
from mediagrains.gsf import GSFEncoder, GSFEncodeError, GSFEncodeAddToActiveDump

from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncBytesIOWrapper, AsyncStreamWrapper

MODES = ["sync", "sync-oneway", "sync-legacy", "async-bytes", "async-wrapper", "async-oneway", "async-plain"]
ONEWAY = {"sync-oneway", "async-oneway"}
IDS = {"A": UUID(int=0xA0A0), "B": UUID(int=0xB0B0B0)}


class Leave(Exception):
    pass


class Lost(Exception):
    """What the grains come from fails."""


def failing(gs):
    yield from gs
    raise Lost


class Later:
    """Data that is to be waited for."""
    def __init__(self, d):
        self.d = d

    def __await__(self):
        return self.get().__await__()

    async def get(self):
        await asyncio.sleep(0)
        return self.d


class Writer:
    """A peer that takes what is written."""
    def __init__(self):
        self.buf = bytearray()

    def write(self, b):
        self.buf += bytes(b)

    async def drain(self):
        await asyncio.sleep(0)

    def close(self):
        pass


def outcome(e):
    if isinstance(e, Lost):
        return "source"
    if isinstance(e, GSFEncodeAddToActiveDump):
        return "active"
    if isinstance(e, GSFEncodeError):
        return "encode"
    return "!" + type(e).__name__


class Player:
    """Plays a script of operations on a real encoder, recording what happens."""
    def __init__(self, case, mode, doc, grains, prior, lead=()):
        self.c = case
        self.mode = mode
        self.grains = grains
        self.handles = []
        self.base = 0
        if mode in ("sync", "sync-legacy", "async-plain"):
            self.f = BytesIO(prior)
            self.content = self.f.getvalue
        elif mode == "sync-oneway":
            self.f = OneWay()
            self.content = lambda: bytes(self.f.buf[self.base:])
        elif mode == "async-bytes":
            self.f = AsyncBytesIO(prior)
            self.content = self.f.getvalue
        elif mode == "async-wrapper":
            self.raw = BytesIO(prior)
            self.f = AsyncBytesIOWrapper(self.raw)
            self.content = self.raw.getvalue
        else:
            self.w = Writer()
            self.f = AsyncStreamWrapper(writer=self.w)
            self.content = lambda: bytes(self.w.buf[self.base:])
        kw = dict(major=doc["v"], minor=doc["minor"], id=UUID(bytes=bytes(doc["id"])), created=created_dt(doc["created"]))
        self.lead = self.refused = 0
        self.enc = None
        if lead:                                             # given to the constructor
            try:
                self.enc = GSFEncoder(self.f, **kw, segments=[self.segkw(o) for o in lead if o["op"] == "segment"],
                                      tags=[tuple(b2s(x) for x in o["tags"][0]) for o in lead if o["op"] == "tag"])
                self.lead = len(lead)
            except GSFEncodeError:
                self.refused = len(lead)
        if self.enc is None:
            self.enc = GSFEncoder(self.f, **kw)
        self.sess = None

    @staticmethod
    def segkw(op):
        kw = {}
        if op["id"]:
            kw["id"] = op["_id"]
        if op["lid"]:
            kw["local_id"] = op["lid"][0]
        if op["tags"]:
            kw["tags"] = [(b2s(a), b2s(b)) for a, b in op["tags"]]
        return kw

    def look(self, ev, upto=None, tags=None):
        """What the encoder shows of itself."""
        said = lambda ts: [[text(t.key), text(t.value)] for t in ts]                         # noqa: E731
        segs = dict(list(self.enc.segments.items())[:upto])
        ev["segs"] = [{"lid": lid, "id": list(s.id.bytes)} for lid, s in segs.items()]
        ev["counts"] = [s.count for s in segs.values()]
        ev["now"] = [said(self.enc.tags)[:tags], [said(s.tags) for s in segs.values()]]
        ev["agree"] = self.sess is None or (said(self.sess.tags) == said(self.enc.tags) and
                                            list(self.sess.segments) == list(self.enc.segments) and
                                            all(a is b for a, b in zip(self.sess.segments.values(), self.enc.segments.values())))
        ev["pos"] = len(self.content())

    def target(self, via):
        return self.enc if via == "enc" else self.sess

    async def maybe(self, x):
        if asyncio.iscoroutine(x):
            return await x
        return x

    def new_handles(self):
        for lid, s in self.enc.segments.items():
            if not any(h is s for h in self.handles):
                self.handles.append(s)

    async def do(self, op):
        """One operation; returns its result."""
        o = op["op"]
        t = self.target(op["via"]) if op["via"] in ("enc", "sess") else None
        sel = {}
        if o == "tag":
            t.add_tag(b2s(op["tags"][0][0]), b2s(op["tags"][0][1]))
        elif o == "segment":
            s = t.add_segment(**self.segkw(op))
            if s is not list(self.enc.segments.values())[-1]:
                return "!not-the-new-segment"
        elif o == "segtag":
            self.handles[op["k"] - 1].add_tag(b2s(op["tags"][0][0]), b2s(op["tags"][0][1]))
        elif o == "segflow":
            f = op["flow"][0]
            self.handles[op["k"] - 1].add_flow(UUID(bytes=bytes(f["src"])), UUID(bytes=bytes(f["flow"])), b2s(f["fmt"]), b2s(f["data"]))
        elif o == "grains":
            if op["id"]:
                sel["segment_id"] = op["_id"]
            if op["lid"]:
                sel["segment_local_id"] = op["lid"][0]
            gs = [self.grains[i - 1] for i in op["gs"]]
            if op["cut"]:
                await self.maybe(t.add_grains(failing(gs), **sel))
            elif len(gs) == 1 and not op["_many"]:
                await self.maybe(t.add_grain(gs[0], **sel))
            else:
                await self.maybe(t.add_grains(gs if not op["_iter"] else iter(gs), **sel))
        elif o == "seggrains":
            gs = [self.grains[i - 1] for i in op["gs"]]
            h = self.handles[op["k"] - 1]
            if op["cut"]:
                h.add_grains(failing(gs))
            elif len(gs) == 1 and not op["_many"]:
                h.add_grain(gs[0])
            else:
                h.add_grains(gs)
        elif o == "enter":
            self.enc.streaming = op["via"] == "stream"
            if self.mode in ONEWAY:
                self.base = len(self.f.buf if self.mode == "sync-oneway" else self.w.buf)
            if self.mode == "sync-legacy":
                if op["via"] == "stream":
                    self.enc.start_dump()
                self.sess = self.enc              # held: everything is dumped by the exit
            elif self.mode.startswith("async"):
                self.sess = await self.enc.__aenter__()
            else:
                self.sess = self.enc.__enter__()
        elif o == "exit":
            args = (Leave, Leave(), None) if op["_raise"] else (None, None, None)
            if self.mode == "sync-legacy":
                if self.enc.streaming:
                    self.enc.end_dump()
                else:
                    self.enc.dump()
            elif self.mode.startswith("async"):
                await self.enc.__aexit__(*args)
            else:
                self.enc.__exit__(*args)
            self.sess = None
        return "ok"

    async def play(self, script):
        segs = tags = 0
        for op in script[:self.lead]:
            segs, tags = segs + (op["op"] == "segment"), tags + (op["op"] == "tag")
            ev = {**op, "res": "ok", "how": "sync"}
            self.look(ev, segs, tags)
            self.c["evs"].append(ev)
        self.new_handles()
        for op in script[self.lead:]:
            if op["k"] > len(self.handles):
                continue                                     # the segment was refused
            if op["via"] == "sess" and self.sess is None:
                op["via"] = "enc"
            try:
                res = await self.do(op)
            except Exception as e:
                res = outcome(e)
            self.new_handles()
            ev = dict(op)
            ev["res"] = res
            ev["how"] = "async" if self.mode.startswith("async") else "sync"
            self.look(ev)
            for k in [k for k in ev if k.startswith("_")]:
                del ev[k]
            self.c["evs"].append(ev)
            if op["op"] == "exit":
                self.c["files"].append(list(self.content()))
            if res.startswith("!"):
                break
        if self.refused and not any(e["res"] == "encode" for e in self.c["evs"][:self.refused]):
            self.c["evs"].append({**self.c["evs"][-1], "op": "harness", "res": "!constructor", "segs": [], "pos": 0, "how": "sync"})
        if self.sess is not None:
            self.c["files"].append(list(self.content()))     # the file as far as it got


def op(o, via="enc", **kw):
    d = {"op": o, "via": via, "k": 0, "lid": [], "id": [], "tags": [], "flow": [], "gs": [], "cut": False, "_id": None, "_many": False,
         "_iter": False, "_raise": False}
    d.update(kw)
    return d


def run(c):
    r = c.rng
    g = Gen(r)
    cases = []

    def add(name, ops, mode, fresh):
        """ops: abstract operations; grains numbered on the way."""
        doc = g.doc(r.choice([7, 8, 9, 9]), 0, 0)
        gs, script = [], []
        for a in ops:
            a = dict(a)
            n = a.pop("n", 0)
            a["gs"] = []
            for _ in range(n):
                x = g.grain(doc["v"], r.choice(["empty", "empty", "audio", "event", "video", "coded_video", "coded_audio"])
                            if fresh else "empty")
                gs.append(x)
                a["gs"].append(len(gs))
            if a["op"] in ("tag", "segtag") or (a["op"] == "segment" and r.random() < 0.3):
                a["tags"] = [[text(g.str(8)), text(g.str(8))]]
            if a["op"] == "segflow":
                a["flow"] = g.flow(0)
            if a.get("id"):
                a["_id"] = IDS[a["id"][0]]
                a["id"] = [list(a["_id"].bytes)]
            a["_many"] = r.random() < 0.3
            a["_iter"] = r.random() < 0.3
            a["_raise"] = r.random() < 0.2
            script.append(op(**{"o": a.pop("op"), **a}))
        case = {"id": f"{name}:{mode}", "gs": gs, "evs": [], "files": [], "onepass": mode in ONEWAY,
                "head": {k: doc[k] for k in ("v", "minor", "id", "created")}, "trace": len(script)}
        prior = b"" if r.random() < 0.5 else b"\xeeold" * r.choice([3, 400])
        n = 0
        while n < len(script) and script[n]["op"] in ("segment", "tag") and script[n]["via"] == "enc":
            n += 1
        real = [build_grain(x, "meta") for x in gs]
        if mode.startswith("async"):
            for x, h in zip(gs, real):
                if x["t"] != "empty" and r.random() < 0.25:
                    h.data = Later(bytes(x["data"]))
        p = Player(case, mode, doc, real, prior, script[:n] if r.random() < 0.5 else ())
        ok, e = call(lambda: asyncio.run(p.play(script)))
        if not ok:
            case["evs"].append({**op("harness"), "res": e, "segs": [], "pos": 0, "how": "sync"})
        for e in case["evs"]:
            for k in [k for k in e if k.startswith("_")]:
                del e[k]
        case["trace"] = len(case["evs"])
        cases.append(case)

    # histories of the model
    depth = 4
    cfg = f"INIT Init\nNEXT MNext\nINVARIANT Conserved\nINVARIANT Distinct\nINVARIANT Printed\nCONSTANT Depth = {depth}\n" \
          "CONSTANT Emit = TRUE\nCHECK_DEADLOCK FALSE\n"
    beh = c.behaviours("MC_GsfSession", cfg, "GsfSession", timeout=600)
    # prefer histories that write something
    beh = [b for b in beh if any(e["op"] == "enter" for e in b)]
    if not c.thorough:
        beh = r.sample(beh, 1500)
    for i, b in enumerate(beh):
        ops = [{k: e[k] for k in ("op", "via", "k", "lid", "id", "n", "cut")} for e in b]
        if sum(1 for e in ops if e["op"] == "enter") > sum(1 for e in ops if e["op"] == "exit"):
            ops.append({"op": "exit", "via": "enc"})
        if r.random() < 0.3:                       # dump once more
            ops += [{"op": "enter", "via": r.choice(["held", "stream"])}, {"op": "grains", "via": "sess", "n": 1},
                    {"op": "exit", "via": "enc"}]
        add(f"model{i}", ops, r.choice(MODES), False)

    # longer random histories
    for i in range(c.scale(300, 4000)):
        ops = []
        open_ = False
        nsegs = 0
        for _ in range(r.randrange(4, 22)):
            k = r.random()
            via = r.choice(["enc", "sess", "sess"]) if open_ else "enc"
            if k < 0.12:
                ops.append({"op": "tag", "via": via})
            elif k < 0.3:
                ops.append({"op": "segment", "via": via, "lid": r.choice([[], [], [1], [3], [7], [2]]),
                            "id": r.choice([[], [], ["A"], ["B"]])})
                nsegs += 1
            elif k < 0.4 and nsegs:
                ops.append({"op": r.choice(["segtag", "segflow"]), "via": "enc", "k": 1})
            elif k < 0.62:
                ops.append({"op": "grains", "via": via, "lid": r.choice([[], [], [1], [3], [7], [9]]),
                            "id": r.choice([[], [], ["A"], ["B"]]), "n": r.choice([0, 1, 1, 1, 2, 3]), "cut": r.random() < 0.12})
            elif k < 0.8 and nsegs:
                ops.append({"op": "seggrains", "via": "enc", "k": 1, "n": r.choice([1, 1, 2]), "cut": r.random() < 0.12})
            else:
                ops.append({"op": "exit", "via": "enc"} if open_ else {"op": "enter", "via": r.choice(["held", "stream", "stream"])})
                open_ = not open_
        if open_:
            ops.append({"op": "exit", "via": "enc"})
        add(f"rand{i}", ops, r.choice(MODES), True)
    c.judge("J_GsfSession", cases)

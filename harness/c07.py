"""C07: histories of asynchronous files and stream wrappers, judged by BinFile.tla."""
import asyncio
import os
from io import BytesIO, UnsupportedOperation
from gsflib import FeedReader
from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper, AsyncStreamWrapper, AsyncBytesIOWrapper

KINDS = {"mem": "mem", "bytesiow": "wrap", "buffered": "wrap", "raw": "wrap", "bytesiof": "wrap", "reader": "reader",
         "writer": "writer", "both": "both"}


class Peer:
    def __init__(self):
        self.buf = bytearray()
        self.closed = False

    def write(self, b):
        self.buf += bytes(b)

    async def drain(self):
        await asyncio.sleep(0)

    def close(self):
        self.closed = True


def kind_of_error(e):
    if isinstance(e, EOFError):
        return "eof"
    if isinstance(e, UnsupportedOperation):
        return "unsupported"
    if isinstance(e, (ValueError, OSError)):
        return "value"
    return "!" + type(e).__name__


async def play(what, c0, script, r, path):
    """Run a script (op, n, whence, bytes) on a real file; the events seen."""
    task = fp = None
    value = None
    if what == "mem":
        f = AsyncBytesIO(c0)
        value = f.getvalue
    elif what in ("bytesiow", "bytesiof"):
        fp = BytesIO(c0)
        f = (AsyncBytesIOWrapper if what == "bytesiow" else AsyncFileWrapper)(fp)
        value = fp.getvalue
    elif what in ("buffered", "raw"):
        with open(path, "wb") as w:
            w.write(c0)
        fp = open(path, "r+b", **({"buffering": 0} if what == "raw" else {}))
        f = AsyncFileWrapper(fp)
    elif what == "reader":
        reader, task = FeedReader.make(c0, [r.choice([1, 2, 3, 50])])
        f = AsyncStreamWrapper(reader=reader)
    elif what == "both":
        reader, task = FeedReader.make(c0, [r.choice([1, 2, 3, 50])])
        peer = Peer()
        f = AsyncStreamWrapper(reader, peer)
        value = lambda: bytes(peer.buf)                                      # noqa: E731
    else:
        peer = Peer()
        f = AsyncStreamWrapper(writer=peer)
        value = lambda: bytes(peer.buf)                                      # noqa: E731
    evs = []
    o = await f.__aenter__()
    for op, n, whence, b in script:
        ev = {"op": op, "n": n, "whence": whence, "bytes": list(b), "res": "ok", "out": [], "ret": -1, "val": []}
        try:
            if op == "read":
                d = await (o.read() if n == -1 and r.random() < 0.5 else o.read(n))
                ev["out"] = list(d)
            elif op == "readall":
                ev["out"] = list(await o.readall())
            elif op == "readinto":
                buf = bytearray(b"\xee" * n)
                ev["ret"] = await o.readinto(buf)
                ev["out"] = list(buf[:ev["ret"]])
                if any(x != 0xee for x in buf[ev["ret"]:]):
                    ev["out"] += [999]
            elif op == "write":
                ev["ret"] = await o.write(bytes(b))
            elif op == "truncate":
                ev["ret"] = await (o.truncate() if n == -1 else o.truncate(n))
            elif op == "seek":
                x = o.seek(n) if whence == 0 and r.random() < 0.5 else o.seek(n, whence)
                ev["ret"] = -1 if x is None else x
            elif op == "open":
                await f.__aexit__(None, None, None)
                o = await f.__aenter__()
            elif op == "flags":
                if fp and what != "bytesiow":
                    ev["bytes"] = [int(x) for x in (fp.readable(), fp.writable(), fp.seekable())]
                ev["out"] = [int(x) for x in (o.readable(), o.writable(), o.seekable(), o.seekable_forwards(), o.seekable_backwards())]
        except Exception as e:
            ev["res"] = kind_of_error(e)
        if not isinstance(ev["ret"], int):
            ev["ret"] = -2
        try:
            ev["tell"] = o.tell()
        except Exception:
            ev["tell"] = -1
        if value is not None:
            ev["val"] = [list(value())]
        if what == "mem":
            k = r.randrange(4)
            v = f.value() if k == 0 else o.getvalue() if k == 1 else f.getbuffer() if k == 2 else o.getbuffer()
            if bytes(v) != bytes(ev["val"][0]):
                ev["val"] = [list(v) + [999]]
        elif fp is not None and o.getsync() is not fp:
            ev["tell"] = -9
        elif what in ("reader", "writer", "both"):
            mine = (reader, peer) if what == "both" else (reader, None) if what == "reader" else (None, peer)
            if f.getstream() != mine or o.getstream() != mine:
                ev["tell"] = -9
        evs.append(ev)
        if ev["res"].startswith("!"):
            break
    await f.__aexit__(None, None, None)
    if what in ("buffered", "raw") and evs:
        t = fp.tell()
        fp.flush()
        with open(path, "rb") as x:
            evs[-1]["val"] = [list(x.read())]
        fp.seek(t)
    if what in ("writer", "both") and evs and not peer.closed:
        evs[-1]["tell"] = -7
    if fp:
        fp.close()
    if task:
        task.cancel()
    return evs


def run(c):
    r = c.rng
    scripts = []
    for kind in ("mem", "reader", "writer"):
        depth = 3
        beh = c.behaviours("MC_BinFile", f"INIT Init\nNEXT MNext\nINVARIANT Possible\nINVARIANT Sane\nINVARIANT Printed\n"
                           f"CONSTANT Depth = {depth}\nCONSTANT Kind = \"{kind}\"\nCONSTANT Emit = TRUE\nCHECK_DEADLOCK FALSE\n",
                           "BinFile-" + kind)
        # the model reaches one history in several ways
        beh = [list(x) for x in {str(x): x for x in beh}.values()]
        for w in [w for w in KINDS if KINDS[w] == kind or (kind == "mem" and KINDS[w] == "wrap")]:
            for i, x in enumerate(beh if c.thorough else r.sample(beh, min(len(beh), 700))):
                scripts.append((f"model{i}:{w}", w, b"" if kind == "writer" else b"\x01\x02\x03", x))
    for i in range(c.scale(1500, 20000)):
        w = r.choice(list(KINDS))
        c0 = b"" if w == "writer" else bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 5, 40, 200])))
        s = []
        for _ in range(r.randrange(2, 25)):
            k = r.random()
            if k < 0.2:
                s.append(("read", r.choice([-1, 0, 1, 2, 5, 17, 300]), 0, b""))
            elif k < 0.3:
                s.append((r.choice(["readall", "readinto"]), r.choice([0, 1, 3, 64]), 0, b""))
            elif k < 0.55:
                s.append(("write", 0, 0, bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 2, 9, 33])))))
            elif k < 0.65:
                s.append(("truncate", r.choice([-1, -1, 0, 3, 10, 60, 300, -2]), 0, b""))
            elif k < 0.9:
                wh = r.choice([0, 0, 1, 1, 2])
                n = r.choice([0, 1, 2, 7, 30, 150, -1, -3, -20])
                if KINDS[w] in ("reader", "writer", "both") and r.random() < 0.7:
                    n, wh = abs(n), 1
                s.append(("seek", n, wh, b""))
            elif k < 0.95:
                s.append(("open", 0, 0, b"") if KINDS[w] == "mem" or KINDS[w] == "wrap" else ("flags", 0, 0, b""))
            else:
                s.append(("flags", 0, 0, b""))
        scripts.append((f"rand{i}:{w}", w, c0, s))
    cases = []

    async def everything():
        for name, w, c0, s in scripts:
            try:
                evs = await asyncio.wait_for(play(w, c0, s, r, os.path.join(c.work, "file")), 30)
            except Exception as e:
                evs = [{"op": "session", "n": 0, "whence": 0, "bytes": [], "res": type(e).__name__, "out": [], "ret": 0, "tell": 0,
                        "val": []}]
            cases.append({"id": name, "kind": KINDS[w], "c0": list(c0), "evs": evs, "trace": len(evs)})
    asyncio.run(everything())
    c.judge("J_BinFile", cases)

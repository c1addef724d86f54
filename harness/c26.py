"""C26: sessions of reading a GSF file block by block, judged by BlockReader.tla."""
import asyncio
import os
from datetime import datetime
from fractions import Fraction
from io import BytesIO
from uuid import UUID
from mediatimestamp.immutable import Timestamp
from common import call
from gsflib import FeedReader
from mediagrains.gsf import GSFDecodeError, SyncGSFBlock, AsyncGSFBlock
from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper, AsyncStreamWrapper

KINDS = ["bytesio", "file", "part", "mem", "wrap", "stream"]
FAR = 536870912
TAGS = [b"aaaa", b"b\x00bb", b"tag ", b"grai", b"\xc3\xa9zz", b"SSBB"]


class Mine(Exception):
    pass


def limbs(n):
    out = []
    while n > 0:
        out.append(n % 256)
        n //= 256
    return out if n == 0 else [999]


def signed(n):
    return [[-1 if n < 0 else 1], limbs(abs(n))]


def tell_of(n):
    return max(-FAR, min(FAR, n)) if isinstance(n, int) else -FAR


def encode(op, x):
    if x is None:
        return [] if op in ("optsint", "optbool", "datetime", "skip", "skiprest") else [[998]]
    if op == "uint":
        return [limbs(x)]
    if op in ("sint", "optsint"):
        return signed(x)
    if op in ("bool", "optbool", "room"):
        return [[int(x)]] if isinstance(x, bool) else [[997]]
    if op in ("tag", "string", "varstring"):
        return [list(x.encode())]
    if op == "uuid":
        return [list(x.bytes)] if isinstance(x, UUID) else [[997]]
    if op in ("varbytes", "rest"):
        return [list(x)] if isinstance(x, bytes) else [[997]]
    if op == "rational":
        return [limbs(x.numerator), limbs(x.denominator)] if isinstance(x, Fraction) else [[997]]
    if op in ("timestamp", "timestamp7"):
        return signed(x.to_nanosec()) if isinstance(x, Timestamp) else [[997]]
    if op == "datetime":
        ok = isinstance(x, datetime) and x.utcoffset() is not None and not x.utcoffset() and not x.microsecond
        return [[x.year, x.month, x.day, x.hour, x.minute, x.second]] if ok else [[997]]
    if op == "remaining":
        return [[tell_of(x)]]
    return [[996]]


READ = {"uint": ("read_uint", "n"), "sint": ("read_sint", "n"), "optsint": ("read_optional_sint", "nn"), "bool": ("read_bool", ""), "optbool": ("read_optional_bool", ""),
        "tag": ("read_tag", ""), "string": ("read_string", "n"), "varstring": ("read_varstring", ""), "uuid": ("read_uuid", ""), "varbytes": ("read_varbytes", ""),
        "rational": ("read_rational", ""), "timestamp": ("read_timestamp", ""), "timestamp7": ("read_timestamp_v7", ""), "datetime": ("read_datetime", ""), "skip": ("skip", "n"),
        "remaining": ("get_remaining", ""), "room": ("has_child_block", "s"), "rest": ("read_remaining", ""), "skiprest": ("skip_remaining", "")}
BOTH = {"uint", "tag", "string", "remaining", "room", "rest", "skiprest"}              # what the asynchronous block can do


async def value(x):
    return await x if asyncio.iscoroutine(x) else x


class Session:
    """Blocks of a real file, the operations those of BlockReader."""
    def __init__(self, kind, b, lo, p0, path, r):
        self.r, self.task, self.fp = r, None, None
        self.aio = kind in ("mem", "wrap", "stream")
        self.kind, self.b, self.lo, self.p0, self.path = kind, b, lo, p0, path

    async def start(self):
        k = self.kind
        if k in ("bytesio", "part"):
            self.f = BytesIO(self.b)
        elif k == "file":
            with open(self.path, "wb") as w:
                w.write(self.b)
            self.f = self.fp = open(self.path, "rb")
        else:
            if k == "mem":
                self.io = AsyncBytesIO(self.b)
            elif k == "wrap":
                self.io = AsyncFileWrapper(BytesIO(self.b))
            else:
                reader, self.task = FeedReader.make(self.b, [self.r.choice([1, 3, 50])])
                self.io = AsyncStreamWrapper(reader=reader)
            self.f = await self.io.__aenter__()
        if self.p0 != self.lo:
            self.f.seek(self.p0 - self.lo)
        root = AsyncGSFBlock(self.f) if self.aio else SyncGSFBlock(self.f, file_data_start=self.lo) if self.lo or self.r.random() < 0.5 else SyncGSFBlock(self.f)
        self.blocks = [(root, self.aio, False, False)]                    # block, asynchronous, entered, a copy

    async def stop(self):
        if self.aio:
            await self.io.__aexit__(None, None, None)
        if self.fp:
            self.fp.close()
        if self.task:
            self.task.cancel()

    async def exit(self, *how):
        blk, aio, _, copy = self.blocks.pop()
        if not copy and (await blk.__aexit__(*how) if aio else blk.__exit__(*how)):
            raise Mine("swallowed")

    async def kids(self, blk, aio, op, out):
        kw = {} if op["strict"] and self.r.random() < 0.5 else {"strict_blocks": op["strict"]}
        g = blk.child_blocks(**kw)
        try:
            while True:
                try:
                    k = await g.__anext__() if aio else next(g)
                except (StopIteration, StopAsyncIteration):
                    return
                out.append({"tag": list(k.tag.encode()), "size": tell_of(k.size), "start": k.block_start})
                await value(k.read_uint(op["n"]))
        finally:
            await g.aclose() if aio else g.close()

    async def do(self, op):
        """What is seen of an operation; whether it raised"""
        ev = dict(op, res="ok", off=-1, val=[], kids=[], tell=-1, left=[], tag=[], size=-1, start=-1)
        blk, aio, entered, copy = self.blocks[-1]
        o = op["op"]
        try:
            if o == "enter":
                kw = {"want_tag": bytes(op["want"][0]).decode()} if op["want"] else {}
                if op["strict"] or self.r.random() < 0.3:
                    kw["raise_on_wrong_tag"] = op["strict"]
                if aio:
                    new = AsyncGSFBlock(blk if self.r.random() < 0.5 else self.f, **kw)
                    got = await new.__aenter__()
                else:
                    new = SyncGSFBlock(blk, **kw)
                    got = new.__enter__()
                if got is not new:
                    ev["res"] = "not itself"
                self.blocks.append((new, aio, True, False))
            elif o == "leave":
                await self.exit(None, None, None)
            elif o == "abandon":
                e = Mine()
                for _ in range(op["n"]):
                    await self.exit(Mine, e, None)
            elif o == "drop":
                self.blocks.pop()
            elif o == "copy":
                new = await value(blk.read_remaining_block())
                self.blocks.append((new, False, True, True))
            elif o == "children":
                await self.kids(blk, aio, op, ev["kids"])
            else:
                name, how = READ[o]
                f = getattr(blk, name)
                if how == "s":
                    x = f() if op["strict"] and self.r.random() < 0.5 else f(strict_blocks=op["strict"])
                else:
                    x = f(*{"": [], "n": [op["n"]], "nn": [op["n"], int.from_bytes(bytes(op["null"]), "little")]}[how])
                ev["val"] = encode(o, await value(x))
        except EOFError:
            ev["res"] = "eof"
        except GSFDecodeError as e:
            ev.update(res="decode", off=e.offset if isinstance(e.offset, int) else -9)
        except AssertionError:
            ev["res"] = "assert"
        except Exception as e:
            ev["res"] = "!" + type(e).__name__
        if ev["res"] == "ok":
            ev["tell"] = tell_of(self.f.tell() + self.lo)
            b = self.blocks[-1]
            if b[2]:
                ev.update(left=[tell_of(b[0].get_remaining())], tag=list(b[0].tag.encode()), size=tell_of(b[0].size), start=b[0].block_start)
        return ev


def operation(o, n=0, null=(), want=(), strict=False):
    return {"op": o, "n": n, "null": list(null), "want": [list(w) for w in want], "strict": strict}


def chosen(r, s):
    """A random operation that can be asked of the session now"""
    blk, aio, entered, copy = s.blocks[-1]
    m = r.random()
    if entered and m < 0.22:
        return operation("drop") if copy else operation("leave") if r.random() < 0.8 or s.kind == "stream" else operation("abandon", r.randint(1, len(s.blocks) - 1))
    if m < (0.5 if entered else 0.8):
        want = [r.choice(TAGS[:5]).split(b"\0")[0]] if r.random() < 0.3 else []
        return operation("enter", want=want, strict=bool(want) and r.random() < 0.3)
    if entered and m < 0.6:
        return operation("children", r.choice([0, 0, 0, 1, 2]), strict=r.random() < 0.6)
    if entered and m < 0.67:
        return operation("copy")
    if not aio and m > 0.97:
        return operation("optsint", n := r.choice([1, 2, 4]), limbs(r.choice([2 ** (8 * n) - 1, 2 ** (8 * n - 1) - 1])))
    o = r.choice([x for x in READ if (not aio or x in BOTH) and (not entered or x != "skip" or r.random() < 0.7)])
    n = {"skip": r.choice([0, 1, 3, 8]), "string": r.choice([0, 1, 2, 4, 9])}.get(o, r.choice([1, 1, 2, 2, 3, 4, 8]))
    if o == "uint" and r.random() < 0.1:
        n = 0
    null = r.choice([0, 1, 3, 255, 0x7fffffff, 2 ** (8 * n) - 1, 2 ** (8 * n) - 1, 2 ** max(8 * n - 1, 0), 2 ** max(8 * n - 1, 0) - 1])
    return operation(o, n, limbs(null), strict=o == "room" and r.random() < 0.6)


def payload(r):
    k = r.randrange(9)
    if k == 0:
        return b""
    if k == 1:
        s = r.choice([b"", b"ab", "\u00e9\u20ac".encode(), b"a\0b", b"\xff"])
        return len(s).to_bytes(2, "little") + s
    if k == 2:
        s = r.randbytes(r.randint(0, 9))
        return (len(s) + r.choice([0, 0, 0, 1])).to_bytes(4, "little") + s
    if k == 3:
        return bytes([r.choice([0, 1, 2, 255])]) + r.randrange(2 ** r.choice([0, 8, 31, 48])).to_bytes(6, "little") + r.randrange(r.choice([1, 10 ** 9, 2 ** 32])).to_bytes(4, "little")
    if k == 4:
        return r.choice([0, 1, 25, 30000, 2 ** 32 - 1]).to_bytes(4, "little") + r.choice([0, 1, 1001, 2 ** 32 - 1]).to_bytes(4, "little")
    if k == 5:
        return r.choice([0, 1, 1970, 2024, 9999, 10000, 65535]).to_bytes(2, "little") + bytes([r.choice([0, 1, 2, 12, 13]), r.choice([0, 1, 29, 31, 32]), r.choice([0, 23, 24]), r.choice([0, 59, 60]), r.choice([0, 59, 60])])
    if k == 6:
        return bytes([r.choice([0, 1, 2, 3, 127, 128, 255, 255])]) * r.choice([1, 2, 4, 8])
    if k == 7:
        return b"\xff\xff\xff\x7f"
    return r.randbytes(r.randint(1, 12))


def tree(r, depth):
    tag = r.choice(TAGS[:4]) if r.random() < 0.93 else r.choice([b"\xff\xfeaa", b"SSBB", b"\xc3\xa9zz"])
    if tag == b"SSBB":
        return tag + r.choice([b"grsg", b"grsg", b"gxsg"])
    body = payload(r) if r.random() < 0.7 else b""
    if depth > 0:
        body += b"".join(tree(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3])))
        body += payload(r) if r.random() < 0.15 else b""
    size = 8 + len(body)
    if r.random() < 0.1:
        size = max(0, size + r.choice([-9, -4, -1, 1, 3, 20]))
    elif r.random() < 0.12:
        size, body = r.randrange(8), b""
    return tag + size.to_bytes(4, "little") + body


def fitting(r, op):
    """Bytes that an interesting value of the operation's kind may have"""
    o, n = op["op"], op["n"]
    if o == "optsint" and r.random() < 0.5:
        return bytes(op["null"]) + bytes(n - len(op["null"])) if len(op["null"]) <= n else r.randbytes(n)
    if o in ("uint", "sint", "optsint"):
        return r.choice([bytes(n), b"\xff" * n, bytes(n - 1) + b"\x80", b"\xff" * (n - 1) + b"\x7f", b"\x01" + bytes(n - 1), r.randbytes(n)])
    if o in ("bool", "optbool"):
        return bytes([r.choice([0, 1, 2, 3, 128, 255])])
    if o in ("tag", "string", "varstring"):
        m = 4 if o == "tag" else n if o == "string" else r.choice([0, 1, 5, 255, 256, 300])
        v = (r.choice(["ab", "\u00e9", "a\0b", "\U0001f600", "\0"]).encode() * 300)[:m]
        return (m.to_bytes(2, "little") if o == "varstring" else b"") + (v if r.random() < 0.5 else r.choice([b"a", b"\0", b"a\0"])[:1] * m)
    if o == "uuid":
        return r.randbytes(16)
    if o == "varbytes":
        m = r.choice([0, 1, 5, 255, 256, 300])
        return m.to_bytes(4, "little") + r.randbytes(m)
    if o == "rational":
        return b"".join(r.choice([0, 1, 2, 25, 50, 1001, 30000, 60000, 2 ** 31, 2 ** 32 - 1]).to_bytes(4, "little") for _ in range(2))
    if o in ("timestamp", "timestamp7"):
        v = r.choice([0, 1, 2 ** 31, 2 ** 48 - 17, r.randrange(2 ** 48 - 16)]).to_bytes(6, "little") + r.choice([0, 1, 999999999, 10 ** 9, 2 ** 32 - 1, r.randrange(2 ** 32)]).to_bytes(4, "little")
        return (bytes([r.choice([0, 1, 2, 255])]) if o == "timestamp" else b"") + v
    if o == "datetime":
        return r.choice([0, 1, 4, 1970, 1900, 2000, 2023, 2024, 9999]).to_bytes(2, "little") + bytes([r.choice([0, 1, 2, 2, 4, 12]), r.choice([0, 1, 28, 29, 30, 31]), r.choice([0, 23]), r.choice([0, 59]), r.choice([0, 59])])
    return r.randbytes(n)


def valued(r):
    """A block of values, followed by another, and the operations reading them"""
    kinds = ["uint", "sint", "optsint", "bool", "optbool", "tag", "string", "varstring", "uuid", "varbytes", "rational", "timestamp", "timestamp7", "datetime", "skip"]
    some = r.sample(kinds, r.choice([1, 3, 15]))
    ops, body = [operation("enter")], b""
    for _ in range(r.randint(1, 7)):
        o = r.choice(some)
        n = r.choice([0, 1, 4, 9]) if o in ("string", "skip") else r.choice([1, 2, 3, 4, 6, 8])
        null = r.choice([2 ** (8 * n) - 1, 2 ** (8 * n - 1), 2 ** (8 * n - 1) - 1, 0, 1]) if o == "optsint" else 0
        op = operation(o, n, limbs(null))
        ops.append(op)
        body += fitting(r, op)
    size = 8 + len(body) + (r.choice([-1, -4, 1, 8]) if r.random() < 0.15 else 0)
    b = b"vals" + size.to_bytes(4, "little") + body + b"next" + bytes([8, 0, 0, 0])
    return b, ops + r.choice([[], [operation("copy"), operation("rest"), operation("drop")], [operation("rest")], [operation("room", strict=True)]]) + [operation("leave"), operation("enter")]


async def play(kind, b, lo, p0, path, r, script, on=True):
    s = Session(kind, b, lo, p0, path, r)
    await s.start()
    evs = []
    try:
        todo = list(script) if script is not None else [None] * r.randint(2, 16)
        for op in todo:
            ev = await s.do(op or chosen(r, s))
            evs.append(ev)
            if ev["res"] == "ok":
                continue
            if ev["res"] == "assert":
                break
            if script is None and len(s.blocks) > 1 and kind != "stream" and ev["res"] in ("eof", "decode"):
                evs.append(await s.do(operation("abandon", r.randint(1, len(s.blocks) - 1))))
                if evs[-1]["res"] != "ok":
                    break
            elif script is None or not on or ev["res"] not in ("eof", "decode"):
                break
    finally:
        await s.stop()
    return evs


def run(c):
    r = c.rng
    path = os.path.join(c.work, "blocks")
    beh = c.behaviours("MC_BlockReader", "INIT Init\nNEXT MNext\nINVARIANT CopySame\nINVARIANT Tiled\nINVARIANT Printed\nPROPERTY LeftAtEnd\nPROPERTY Back\n"
                       "CONSTANT Depth = 4\nCONSTANT Emit = TRUE\nCHECK_DEADLOCK FALSE\n")
    cases = []

    def add(name, kind, b, lo, p0, script, on=True):
        ok, evs = call(lambda: asyncio.run(play(kind, b, lo, p0, path, r, script, on)), seconds=30)
        if not ok:
            evs = [dict(operation("failed"), res=str(evs), off=-1, val=[], kids=[], tell=-1, left=[], tag=[], size=-1, start=-1)]
        cases.append({"id": name, "lo": lo, "bytes": list(b), "p0": p0, "evs": evs, "trace": [kind] + [[e["op"], e["n"], e["want"], e["strict"], e["res"]] for e in evs]})
    for kind in KINDS:
        some = [x for x in beh if kind != "stream" or not any(o[0] == "abandon" for o in x[2])]
        for i, (k, b, ops) in enumerate(some if c.thorough else r.sample(some, min(len(some), 350))):
            lo = 100 if kind == "part" else 0
            add(f"model{k}.{i}:{kind}", kind, bytes(b), lo, lo, [operation(o[0], o[1], want=o[2], strict=o[3]) for o in ops])
    for i in range(c.scale(2500, 40000)):
        kind = r.choice(KINDS)
        b = b"".join(tree(r, r.choice([0, 1, 2, 3])) for _ in range(r.choice([1, 1, 2, 3])))[:400]
        if r.random() < 0.2:
            b = b[:r.randint(0, len(b))]
        lo = r.choice([1, 40, 1000]) if kind == "part" else 0
        p0 = lo
        if r.random() < 0.15:
            p0 += r.randint(0, 5)
            b = r.randbytes(p0 - lo) + b
        add(f"rand{i}:{kind}", kind, b, lo, p0, None)
    for i in range(c.scale(1200, 20000)):
        b, ops = valued(r)
        kind = r.choice(KINDS[:3])
        lo = r.choice([1, 40, 1000]) if kind == "part" else 0
        add(f"values{i}:{kind}", kind, b if r.random() < 0.9 else b[:r.randint(0, len(b))], lo, lo, ops, False)
    c.judge("J_BlockReader", cases)
    c.assumptions += ["blocks of less than half a gigabyte", "after a refusal nothing is read before the blocks it happened in are left"]

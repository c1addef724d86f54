"""C08: histories of lazy byte objects over a shared stream, judged by IOBytes.tla."""
import ast
import io
import os
from common import call
from mediagrains.utils import IOBytes

NONE = 99999


class Stream(io.BytesIO):
    """A stream which notes every use, and may fail."""
    used = False
    failing = False
    short = False

    def read(self, *a):
        self.used = True
        if self.failing:
            super().read(1)
            raise OSError("no data")
        return super().read(*a)

    def readinto(self, b):
        self.used = True
        if self.failing:
            raise OSError("no data")
        return super().readinto(b)

    def seek(self, *a):
        self.used = True
        return super().seek(*a)


class FileStream(io.FileIO):
    used = failing = False

    def read(self, *a):
        self.used = True
        if self.failing:
            super().read(1)
            raise OSError("no data")
        return super().read(*a)

    def seek(self, *a):
        self.used = True
        return super().seek(*a)


def rels(a, b):
    return [int(x) for x in (a == b, a != b, a < b, a <= b, a > b, a >= b)]


def do(x, op, n, b, objs, plain):
    none = lambda v: None if v == NONE else v                                           # noqa: E731
    if op == "at":
        return [x[n[0]]]
    if op == "slice":
        return list(x[none(n[0]):none(n[1]):none(n[2])] if n[2] != NONE else x[none(n[0]):none(n[1])])
    if op == "iter":
        return [i for i in x]
    if op == "list":
        return [x[i] for i in range(len(x))]
    if op == "bytes":
        r = bytes(x)
        return list(r) if type(r) is bytes else [-5]
    if op == "bytearray":
        return list(bytearray(x))
    if op == "join":
        return list(b"".join([bytes(x)]))
    if op == "reversed":
        return list(reversed(x))
    if op == "contains":
        return [int(b in x)]
    if op == "has":
        return [int(n[0] in x)]
    if op == "rel":
        return rels(x, b)
    if op == "relarray":
        return rels(x, bytearray(b))
    if op == "relback":
        return rels(b, x)
    if op == "reltext":
        return [int(x == b.decode("latin-1")), int(x != b.decode("latin-1"))]
    if op == "other":
        return rels(x, objs[n[0] - 1])
    if op == "find":
        return [x.find(b)]
    if op == "index":
        return [x.index(b)]
    if op == "count":
        return [x.count(b)]
    if op == "starts":
        return [int(x.startswith(b))]
    if op == "ends":
        return [int(x.endswith(b))]
    if op == "hash":
        # equal to that of its own bytes, usable as a key
        h = hash(x)
        return [int(h == hash(bytes(x)) and {x: 1}.get(bytes(x)) == 1)]
    if op == "len":
        return [len(x)]
    if op == "bool":
        return [int(bool(x))]
    if op == "repr":
        t = repr(x)
        return [1] + list(ast.literal_eval(t)) if t[:2] in ("b'", 'b"') else [0] if t else [-1]
    if op == "str":
        return list(ast.literal_eval(str(x)))
    if op == "upper":
        return list(x.upper())
    raise AssertionError(op)


def play(f, secs, script, path):
    if path:
        with open(path, "wb") as w:
            w.write(f)
        s = FileStream(path, "r+")
    else:
        s = Stream(f)
    objs = [IOBytes(s, a, n) for a, n in secs]
    early = s.used
    evs = []
    for o, op, n, b, fault in script:
        b = bytes(b)
        ev = {"o": o, "op": op, "n": list(n), "b": list(b), "fault": bool(fault), "res": "ok", "out": []}
        s.used = False
        if o == 0:
            if op == "seek":
                s.seek(n[0])
            elif op == "read":
                ev["out"] = list(s.read(n[0]))
            elif op == "write":
                s.write(b)
        else:
            s.failing = bool(fault)
            ok, v = call(do, objs[o - 1], op, n, b, objs, f)
            s.failing = False
            if ok:
                ev["out"] = [int(x) for x in v]
            else:
                ev["res"] = {"!OSError": "fault"}.get(v, v.lstrip("!"))
        ev["touched"] = s.used
        ev["pos"] = s.tell()
        evs.append(ev)
    s.close()
    return {"f": list(f), "secs": [list(x) for x in secs], "evs": evs, "early": early, "trace": len(evs)}


def run(c):
    r = c.rng
    cfg = "INIT Init\nNEXT MNext\nINVARIANT Once\nINVARIANT Possible\nINVARIANT Printed\nPROPERTY Undisturbed\nCONSTANT Depth = %d\nCONSTANT Emit = %s\nCHECK_DEADLOCK FALSE\n"
    beh = c.behaviours("MC_IOBytes", cfg % (3, "TRUE"), "IOBytes")
    c.model("MC_IOBytes", cfg % (c.scale(3, 5), "FALSE"), "IOBytes-deep")
    beh = [list(x) for x in {str(x): x for x in beh}.values()]
    cases = []
    path = os.path.join(c.work, "file")
    for i, x in enumerate(beh if c.thorough else r.sample(beh, min(len(beh), 2500))):
        cases.append({"id": f"model{i}", **play(b"\x01\x02\x03\x04", [(0, 3), (2, 2)], x, path if i % 2 else None)})
    for i in range(c.scale(2500, 30000)):
        n = r.choice([0, 1, 4, 20, 90])
        al = r.choice([b"ab", bytes(range(256)), b"aA\x00\xff"])
        f = bytes(r.choice(al) for _ in range(n))
        secs = []
        for _ in range(r.choice([1, 2, 3])):
            a = r.randrange(0, n + 1)
            secs.append((a, r.choice([0, n - a, r.randrange(0, n - a + 1)])))
            if r.random() < 0.12:                       # goes beyond the end of the stream
                secs[-1] = (r.choice([a, a, n + 2]), n - a + r.choice([1, 3]))
        # a section equal to another
        if r.random() < 0.4:
            secs.append(secs[0])
        script = []
        for _ in range(r.randrange(1, 14)):
            k = r.random()
            if k < 0.1:
                script.append((0, "seek", (r.randrange(0, n + 1), 0, 0), b"", False))
                if r.random() < 0.5:
                    script.append((0, "write", (0, 0, 0), bytes(r.choice(al) for _ in range(r.choice([1, 2, 5]))), False))
            elif k < 0.2:
                script.append((0, "read", (r.randrange(0, n + 5), 0, 0), b"", False))
            else:
                o = r.randrange(1, len(secs) + 1)
                a, ln = secs[o - 1]
                part = f[a:a + ln]
                b = r.choice([b"", b"a", part, part[1:], part[:2], part[-2:], part + b"a", bytes([r.randrange(256)]),
                              bytes(r.choice(al) for _ in range(r.choice([1, 2, 3])))])
                op = r.choice(["at", "slice", "slice", "iter", "list", "bytes", "bytearray", "join", "reversed", "contains", "has", "rel",
                               "relarray", "relback", "reltext", "other", "find", "index", "count", "starts", "ends", "hash", "len",
                               "bool", "repr", "repr", "repr", "str", "upper"])
                if a + ln > n and op in ("list", "reversed"):
                    op = "bytes"
                w = lambda: r.choice([NONE, 0, 1, 2, -1, -2, r.randrange(-100, 100)])        # noqa: E731
                v = (w(), w(), r.choice([NONE, NONE, 1, 2, -1, -2, 7]))
                if op == "at":
                    v = (r.choice([0, -1, r.randrange(-100, 100), ln, ln - 1, -ln]), 0, 0)
                elif op == "has":
                    v = (r.choice([97, r.randrange(256)]), 0, 0)
                elif op == "other":
                    v = (r.randrange(1, len(secs) + 1), 0, 0)
                script.append((o, op, v, b, r.random() < 0.06))
        cases.append({"id": f"rand{i}", **play(f, secs, script, path if i % 3 == 0 else None)})
    c.judge("J_IOBytes", cases)

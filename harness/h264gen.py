"""Random H.264 byte streams: every syntax element the parser reads takes part."""
HIGH = [100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135]


class Bits:
    def __init__(self):
        self.s = []

    def u(self, n, v):
        self.s.append(format(v & ((1 << n) - 1), "0%db" % n) if n else "")
        return v

    def ue(self, v):
        b = format(v + 1, "b")
        self.s.append("0" * (len(b) - 1) + b)
        return v

    def se(self, v):
        self.ue(2 * v - 1 if v > 0 else -2 * v)
        return v

    def rbsp(self):
        s = "".join(self.s) + "1"
        s += "0" * (-len(s) % 8)
        return int(s, 2).to_bytes(len(s) // 8, "big")


def escape(b):
    out, z = bytearray(), 0
    for x in b:
        if z >= 2 and x <= 3:
            out.append(3)
            z = 0
        out.append(x)
        z = z + 1 if x == 0 else 0
    return bytes(out)


def unit(r, nri, typ, rbsp, code=None):
    b = escape(bytes([nri << 5 | typ]) + rbsp)
    while b[-1] == 0:
        b += b"\x80"
    return (r.choice([b"\0\0\1", b"\0\0\0\1", b"\0\0\0\1", b"\0\0\0\0\1"]) if code is None else code) + b


def small(r, top=40):
    return r.choice([0, 0, 1, 2, r.randrange(top), r.randrange(top)])


class Set:
    pass


def sps(r, i, fit=False):
    b, q = Bits(), Set()
    q.id = i
    profile = b.u(8, r.choice([66, 77, 88, 100, r.choice(HIGH), r.randrange(256)]))
    b.u(8, r.randrange(256))
    b.u(8, r.choice([10, 30, 41, 0]))
    b.ue(i)
    q.sep = 0
    if profile in HIGH:
        cfi = b.ue(r.choice([0, 1, 2, 3, 3, r.choice([1, 4])]) if r.random() < 0.1 else r.randrange(4))
        if cfi == 3:
            q.sep = b.u(1, r.randrange(2))
        b.ue(r.choice([0, 2, 6]) if r.random() > 0.01 else 7)
        b.ue(r.choice([0, 2, 6]) if r.random() > 0.01 else 7)
        b.u(1, r.randrange(2))
        if b.u(1, r.random() < 0.4):
            for k in range(8 if cfi != 3 else 12):
                if b.u(1, r.random() < 0.4):
                    last = nxt = 8
                    for j in range(16 if k < 6 else 64):
                        if nxt != 0:
                            d = r.choice([0, 0, 1, -1, -nxt if r.random() < 0.2 else 3, -8])
                            nxt = (last + b.se(d) + 256) % 256
                        last = nxt or last
    q.framebits = 4 + b.ue(r.choice([0, 0, 4, 12, r.randrange(13)]))
    q.poctype = b.ue(r.choice([0, 0, 0, 1, 1, 2]))
    q.zero = 0
    if q.poctype == 0:
        q.lsbbits = 4 + b.ue(r.choice([0, 0, 4, 12]))
    elif q.poctype == 1:
        q.zero = b.u(1, r.random() < 0.3)
        b.se(r.randrange(-9, 9))
        b.se(r.randrange(-300, 300))
        for _ in range(b.ue(r.choice([0, 1, 3]) if r.random() > 0.01 else 256)):
            b.se(r.randrange(-5, 5))
    b.ue(r.randrange(5))
    b.u(1, r.randrange(2))
    b.ue(r.choice([0, 10, 119, 44, r.randrange(300)]))
    b.ue(r.choice([0, 8, 67, 33, r.randrange(200)]))
    q.frames = b.u(1, r.random() < 0.5)
    if not q.frames:
        b.u(1, r.randrange(2))
    b.u(1, r.randrange(2))
    if b.u(1, r.random() < 0.5):
        for _ in range(4):
            b.ue(r.choice([0, 0, 1, 4, 7]))
    if b.u(1, r.random() < 0.7):
        if b.u(1, r.random() < 0.6):
            if b.u(8, r.choice([0, 1, 2, 14, 16, 17, 255, 255, 255, r.randrange(18), 254])) == 255:
                b.u(16, r.choice([0, 1, 4, 65535, r.randrange(65536)]))
                b.u(16, r.choice([0, 1, 3, 65535, r.randrange(65536)]))
        if b.u(1, r.randrange(2)):
            b.u(1, r.randrange(2))
        if b.u(1, r.randrange(2)):
            b.u(3, r.randrange(8))
            b.u(1, r.randrange(2))
            if b.u(1, r.randrange(2)):
                b.u(24, r.getrandbits(24))
        if b.u(1, r.random() < 0.3):
            b.ue(small(r))
            b.ue(small(r))
        if b.u(1, r.random() < 0.7):
            units, scale = r.choice([(1, 50), (1001, 60000), (1001, 48000), (10 ** 9, 2 ** 32 - 1), (2 ** 31, 2 ** 32 - 1), (2 ** 32 - 1, 1), (1, 10 ** 6), (3, 7)])
            if fit and units >= 2 ** 31:                        # rates of 32 bit terms only
                units, scale = 2 ** 30, 2 ** 31 - 1
            b.u(32, units if r.random() > 0.02 else 0)
            b.u(32, scale if r.random() > 0.02 else 0)
            b.u(1, r.randrange(2))
        b.u(9, r.getrandbits(9))
    return q, unit(r, 3, 7, b.rbsp())


def pps(r, i, s):
    b, q = Bits(), Set()
    q.id, q.sps = b.ue(i), b.ue(s)
    b.u(1, r.randrange(2))
    q.bottom = b.u(1, r.randrange(2))
    n = b.ue(r.choice([0, 0, 0, 1, 2, 3, 7]))
    if n:
        k = b.ue(r.randrange(7))
        if k == 0:
            for _ in range(n + 1):
                b.ue(small(r))
        elif k == 2:
            for _ in range(2 * n):
                b.ue(small(r))
        elif k in (3, 4, 5):
            b.u(1, r.randrange(2))
            b.ue(small(r))
        elif k == 6:
            for _ in range(b.ue(r.choice([0, 1, 2, 11, 30])) + 1):
                b.u(n.bit_length(), r.getrandbits(8))
    b.ue(small(r))
    b.ue(small(r))
    b.u(3, r.randrange(8))
    for _ in range(3):
        b.se(r.randrange(-12, 13))
    b.u(2, r.randrange(4))
    q.redundant = b.u(1, r.random() < 0.3)
    return q, unit(r, 3, 8, b.rbsp())


def header(r, P, Q, h):
    """A slice header with the fields of h (a dict)."""
    b = Bits()
    b.ue(h.get("mb", small(r, 900)))
    b.ue(h["stype"])
    b.ue(P.id)
    if Q.sep:
        b.u(2, r.randrange(3))
    b.u(Q.framebits, h["num"])
    field = 0
    if not Q.frames:
        field = b.u(1, h["field"])
        if field:
            b.u(1, h["bottom"])
    if h["idr"]:
        b.ue(h["idrid"])
    if Q.poctype == 0:
        b.u(Q.lsbbits, h["lsb"])
        if P.bottom and not field:
            b.se(h["db"])
    if Q.poctype == 1 and not Q.zero:
        b.se(h["d0"])
        if P.bottom and not field:
            b.se(h["d1"])
    if P.redundant:
        b.ue(h.get("red", 0))
    return b


def slice_unit(r, P, Q, h, body):
    b = header(r, P, Q, h)
    for x in body:
        b.u(8, x)
    return unit(r, h["nri"], 5 if h["idr"] else h.get("typ", 1), b.rbsp())


def filler(r, n):
    m = r.random()
    if m < 0.3:
        return r.randbytes(n)
    if m < 0.6:
        return bytes(r.choice([0, 0, 1, 3, 2, 255]) for _ in range(n))
    return bytes(n)


def stream(r, pictures, size=30, odd=0.1, fit=False):
    """A stream of pictures, each differing from the one before in one thing or another."""
    out = b""
    P, Q = {}, {}
    big = lambda: r.choice([0, 1, 3, r.randrange(size), size])                           # noqa: E731

    def sets():
        o = b""
        i = r.choice([0, 0, 1, 31])
        q, u = sps(r, i if r.random() > odd / 10 else 32, fit)
        Q[q.id] = q
        o += u
        for _ in range(r.choice([1, 1, 2])):
            p, u = pps(r, r.choice([0, 0, 1, 255]), i)
            P[p.id] = p
            o += u
        for p in list(P.values()):
            if p.sps not in Q:
                del P[p.id]
        return o
    if r.random() < odd:
        out += r.choice([b"\0", b"\0\0\0", b"\xff\x11", b"\0\0\x02"])
    h = {"stype": 7, "num": 0, "field": 0, "bottom": 0, "idr": 1, "idrid": 0, "lsb": 0, "db": 0, "d0": 0, "d1": 0, "nri": 3}
    pid = None
    for k in range(pictures):
        if r.random() < 0.3:
            out += unit(r, 0, 9, bytes([r.choice([0x10, 0x30, 0xf0])]))
        if k == 0 or r.random() < 0.1:
            if not (k == 0 and r.random() < odd / 5):
                out += sets()
        if r.random() < 0.2:
            out += unit(r, 0, 6, filler(r, big()))
        if r.random() < 0.1:
            out += unit(r, 0, r.choice([12, 13, 16, 17, 18, 15]), filler(r, big()))
        if not P:
            continue
        if pid not in P:
            pid = r.choice(list(P))
        # one thing changes from picture to picture (or nothing)
        for what in r.sample(["num", "pps", "field", "bottom", "nri", "idr", "idrid", "lsb", "db", "d0", "d1", "none"], r.choice([1, 1, 1, 2])):
            if what == "pps":
                pid = r.choice(list(P))
            elif what in ("field", "bottom", "idr"):
                h[what] ^= 1
            elif what == "nri":
                h["nri"] = r.choice([x for x in range(4) if x != h["nri"]])
            elif what in ("num", "lsb"):
                h[what] += 1
            elif what in ("idrid", "db", "d0", "d1"):
                h[what] += r.choice([1, 2]) * (-1 if h[what] > 2 else 1)
        p = P[pid]
        q = Q[p.sps]
        intra = r.random() < 0.4
        parts = r.random() < 0.15
        for _ in range(r.choice([1, 1, 2, 3])):
            hh = dict(h, stype=r.choice([2, 4, 7, 9]) if intra or r.random() < 0.3 else r.choice([0, 1, 3, 5, 6, 8]))
            if r.random() < 0.1 and hh["nri"]:
                hh["nri"] = r.randint(1, 3)
            if parts and not hh["idr"]:
                out += slice_unit(r, p, q, dict(hh, typ=2), filler(r, big()))
                for t in (3, 4):
                    if r.random() < 0.7:
                        out += unit(r, hh["nri"], t, b"\x40" + filler(r, big()))
            else:
                out += slice_unit(r, p, q, hh, filler(r, big()))
        if p.redundant and r.random() < 0.4:
            out += slice_unit(r, p, q, dict(h, stype=r.choice([0, 2]), red=r.choice([1, 2]), num=h["num"] + r.choice([0, 0, 1])), filler(r, big()))
        if r.random() < 0.1:
            out += unit(r, 0, r.choice([10, 11, 12, 19, 24, 31, 0]), filler(r, big()))
        if r.random() < 0.15:
            out += bytes(r.choice([1, 2, 5]))
    return out

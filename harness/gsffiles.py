"""Byte files in the shape of GSF: conforming ones with every liberty the format allows, and damaged ones.

What a reader must make of any of them is Decode in spec/Gsf.tla; nothing here knows."""
import gsflib
from gsflib import Gen, unlimbs, limbs, text


def le(n, w):
    return (n % (1 << (8 * w))).to_bytes(w, "little")


class Layout:
    """Writes documents as bytes, with liberties; records where blocks, sizes and texts are."""
    def __init__(self, rng, liberties=0.3):
        self.r = rng
        self.p = liberties
        self.g = Gen(rng)
        self.blocks = []          # (start, payload start, end, tag) of every block written
        self.texts = []           # (start, length) of texts
        self.out = bytearray()

    # -- pieces ------------------------------------------------------------------------------------------
    def some(self, p=None):
        return self.r.random() < (self.p if p is None else p)

    def block(self, tag, body, kind=None):
        """body() writes the payload."""
        s = len(self.out)
        self.out += tag + b"\0\0\0\0"
        body()
        e = len(self.out)
        self.out[s + 4:s + 8] = le(e - s, 4)
        self.blocks.append((s, s + 8, e, kind or tag))

    def w(self, b):
        self.out += bytes(b)

    def junk(self, deny=()):
        """An unknown or fill block."""
        r = self.r
        tags = [b"fill", b"fill", b"xxxx", b"FILL", b"gra\0", b"\0\0\0\0", "\u20acx".encode(), b"head", b"segm", b"comp",
                b"unof", b"tils", b"vghd", b"tag ", b"gbhd", b"grdt", b"flow"]
        tag = r.choice([t for t in tags if t not in deny])
        known = tag in (b"head", b"segm", b"comp", b"unof", b"tils", b"vghd", b"tag ", b"gbhd", b"grdt", b"flow")
        if known and not self.some(0.5):
            tag = b"junk"
        n = r.choice([0, 0, 1, 4, 7, 8, 20])
        body = bytes(r.getrandbits(8) for _ in range(n))
        if self.some(0.2):
            body = r.choice([b"grai" + le(30, 4), b"SSBBgrsg", b"grai\0\0\0\0", b"head" + le(31, 4)]) + body
        self.block(tag, lambda: self.w(body), b"?")

    def gap(self, deny):
        while self.some():
            self.junk(deny)

    def tail(self):
        """Trailing fields of a block that holds no further blocks."""
        if self.some():
            self.w(self.r.getrandbits(8) for _ in range(self.r.choice([1, 2, 7, 8, 9, 16])))

    def fixstr(self, b, n):
        self.texts.append((len(self.out), max(len(b), 1)))
        b = bytes(b)
        if len(b) < n:
            b += b"\0"
        if len(b) < n and self.some(0.3):      # anything may follow the terminating null
            b += self.r.choice([b"junk", b"x\0y", b"\0\0z", "\u00e9".encode()])
        self.w((b + b"\0" * n)[:n])

    def varstr(self, b):
        b = bytes(b)
        if self.some(0.15):
            b += self.r.choice([b"\0", b"\0\0", b"\0rest"])
        self.w(le(len(b), 2))
        self.texts.append((len(self.out), len(b)))
        self.w(b)

    # -- structures ------------------------------------------------------------------------------------
    def tagblk(self, kv):
        def body():
            self.varstr(kv[0])
            self.varstr(kv[1])
            self.tail()
        self.block(b"tag ", body)

    def flow(self, f):
        def body():
            self.w(f["src"])
            self.w(f["flow"])
            self.fixstr(f["fmt"], 64)
            self.w(le(len(f["data"]), 4))
            self.texts.append((len(self.out), len(f["data"])))
            self.w(f["data"])
            self.tail()
        self.block(b"flow", body)

    def segm(self, s, count):
        def body():
            self.w(le(s["lid"], 2))
            self.w(s["id"])
            self.w(le(count, 8))
            kids = [(self.tagblk, t) for t in s["tags"]] + [(self.flow, f) for f in s["flow"]]
            if self.some(0.4):
                self.r.shuffle(kids)
            deny = (b"tag ", b"flow")
            self.gap(deny)
            for f, a in kids:
                f(a)
                self.gap(deny)
        self.block(b"segm", body)

    def head(self, doc):
        def body():
            self.w(doc["id"])
            if self.some(0.15):
                self.w(b"\0" * 7)
            else:
                t = doc["created"]["t"]
                self.w(le(t[0], 2) + bytes(t[1:]))
            kids = []
            for s in doc["segs"]:
                n = sum(1 for x in doc["grains"] if x["lid"] == s["lid"])
                kids.append((lambda s=s, n=n: self.segm(s, self.r.choice([n, n, -1]))))
            for t in doc["tags"]:
                kids.append(lambda t=t: self.tagblk(t))
            if self.some(0.4):
                self.r.shuffle(kids)
            deny = (b"tag ", b"segm")
            self.gap(deny)
            for k in kids:
                k()
                self.gap(deny)
        self.block(b"head", body)

    def ts(self, v, t):
        if v != 7:
            self.w([self.r.choice([1, 1, 2, 255]) if t[0] >= 0 else 0])
        self.w(le(unlimbs(t[1]), 6) + le(unlimbs(t[2]), 4))

    def rat(self, r):
        n, d = unlimbs(r[0]), unlimbs(r[1])
        if n == 0 and self.some():
            d = self.r.choice([0, 1, 7])
        elif n and self.some(0.2) and n < 2**28 and d < 2**28:
            n, d = n * 3, d * 3
        self.w(le(n, 4) + le(d, 4))

    def optrat(self, r):
        if r:
            self.rat(r[0])
        else:
            self.w(self.r.choice([le(0, 4) + le(0, 4), le(0, 4) + le(1, 4), le(5, 4) + le(0, 4)]))

    def nums(self, ns, ws=None):
        for i, n in enumerate(ns):
            self.w(le(unlimbs(n), ws[i] if ws else 4))

    def typehdr(self, v, g):
        t = g["t"]
        i = g["ints"]
        if t == "video":
            def body():
                self.nums(i)
                self.optrat(g["sar"])
                self.optrat(g["par"])
                deny = (b"comp",)
                self.gap(deny)
                if g["comps"] or self.some(0.2):
                    def comp():
                        self.w(le(len(g["comps"]), 2))
                        for c in g["comps"]:
                            self.nums(c[:4])
                        self.tail()
                    self.block(b"comp", comp)
                    self.gap(deny)
            self.block(b"vghd", body)
        elif t == "coded_video":
            def body():
                self.nums(i)
                k = g["key"]
                self.w([(self.r.choice([1, 1, 1 if v >= 9 else 2]) if k[0] else 0) if k else self.r.choice([2, 3, 255])])
                o = g["toff"]
                self.w(le(o[0][0] * unlimbs(o[0][1]) if o else 0x7fffffff, 4))
                deny = (b"unof",)
                self.gap(deny)
                if g["unof"] or self.some(0.2):
                    def unof():
                        self.w(le(len(g["unof"]), 2))
                        self.nums(g["unof"])
                        self.tail()
                    self.block(b"unof", unof)
                    self.gap(deny)
            self.block(b"cghd", body)
        elif t == "audio":
            def body():
                self.nums(i, (4, 2, 4, 4))
                self.tail()
            self.block(b"aghd", body)
        elif t == "coded_audio":
            def body():
                self.nums(i, (4, 2, 4, 4, 4, 4))
                self.tail()
            self.block(b"cahd", body)
        elif t == "event":
            def body():
                if not self.some(0.2):
                    self.w([self.r.choice([0, 0, 255])])
                    self.tail()
            self.block(b"eghd", body)

    def tils(self, g):
        def body():
            self.w(le(len(g["tls"]), 2))
            for lb in g["tls"]:
                self.fixstr(lb["tag"], 16)
                self.w(le(unlimbs(lb["cnt"]), 4))
                self.w(le(unlimbs(lb["num"]), 4) + le(unlimbs(lb["den"]), 4))
                self.w([self.r.choice([1, 1, 2, 255]) if lb["drop"] else 0])
            self.tail()
        self.block(b"tils", body)

    def gbhd(self, v, g):
        def body():
            self.w(g["src"])
            self.w(g["flow"])
            if v == 7:
                self.w(self.r.getrandbits(8) for _ in range(16))
            self.ts(v, g["ots"])
            self.ts(v, g["sts"])
            self.rat(g["rate"])
            self.rat(g["dur"])
            kids = []
            if g["tls"] or self.some(0.1):
                kids.append(lambda: self.tils(g))
            if g["t"] != "empty":
                kids.append(lambda: self.typehdr(v, g))
            if self.some(0.4):
                self.r.shuffle(kids)
            deny = (b"tils", b"vghd", b"cghd", b"aghd", b"cahd", b"eghd")
            self.gap(deny)
            for k in kids:
                k()
                self.gap(deny)
        self.block(b"gbhd", body)

    def grai(self, v, lid, g):
        def body():
            self.w(le(lid, 2))
            self.gbhd(v, g)
            deny = (b"grdt",)
            if g["data"] or not self.some(0.3):
                self.gap(deny)
                self.block(b"grdt", lambda: self.w(g["data"]))
                self.gap(deny)
            else:                                # a grain without its data block
                self.gap(deny)
        self.block(b"grai", body)

    def ssb(self, v, minor):
        self.w(b"SSBBgrsg" + le(v, 2) + le(minor, 2))

    def file(self, doc, terminator=None):
        self.ssb(doc["v"], doc["minor"])
        deny = (b"head", b"grai")
        self.gap(deny)
        self.head(doc)
        self.gap((b"grai",))
        for x in doc["grains"]:
            self.grai(doc["v"], x["lid"], x["g"])
            self.gap((b"grai",))
        if terminator if terminator is not None else not self.some(0.3):
            s = len(self.out)
            self.w(b"grai\0\0\0\0")
            self.blocks.append((s, s + 8, s + 8, b"term"))
            self.gap((b"grai",))
        return self


def conforming(rng, liberties=0.3, nfiles=1, **kw):
    """Bytes of nfiles concatenated conforming files, and the layout record."""
    lay = Layout(rng, liberties)
    g = Gen(rng)
    docs = []
    for _ in range(nfiles):
        d = g.doc(**kw)
        d["created"]["off"] = 0
        docs.append(d)
        lay.file(d)
    return bytes(lay.out), lay, docs

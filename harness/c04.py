"""C04: cut-off and malformed files through every reader; what must come of them is Decode of Gsf.tla.

Every prefix of conforming files is read, and files of every malformed class: wrong signature or version, no header
block, undecodable text or tags, blocks too small for what they hold, at every nesting level."""
from gsffiles import conforming, le
from gsfread import Table, SOURCES, LOADING, ONESHOT

BAD8 = [b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\x80", b"a\xc3"]


def truncations(c, r, cases):
    combos = [(s, m) for s in SOURCES for m in LOADING]
    for i in range(c.scale(14, 150)):
        lib = r.choice([0.0, 0.1, 0.3])
        b, lay, docs = conforming(r, lib, r.choice([1, 1, 1, 2]), ngrains=r.choice([1, 2, 2, 3]))
        if len(b) > 1800 and not c.thorough:
            continue
        t = Table(f"cut{i}", b)
        for cut in range(len(b)):
            for s, m in r.sample(combos, c.scale(3, 8)):
                t.read(cut, None, None, s, m, (r.choice([1, 7, 64]),), c.work)
            if cut % 5 == 0:
                t.oneshot(cut, r.choice(ONESHOT))
            if cut % 11 == 0 and docs[0]["segs"]:
                s, m = r.choice(combos)
                t.read(cut, False, [r.choice(docs[0]["segs"])["lid"]], s, m, (7,), c.work)
        cases.append(t.done())


def after_data(lay, s):
    """Is s within a grain block, after its data?  (Nothing there is content.)"""
    for gs, _, ge, gt in lay.blocks:
        if gt == b"grai" and gs < s < ge:
            return any(gs < ds < s and dt == b"grdt" and de <= s for ds, _, de, dt in lay.blocks)
    return False


LEAST = {b"head": 23, b"segm": 26, b"tag ": 4, b"flow": 100, b"tils": 2, b"vghd": 36, b"cghd": 29, b"aghd": 14,
         b"cahd": 22, b"comp": 2, b"unof": 2, b"grai": 2}


def malformed(r, b, lay, kind):
    """(damaged bytes, name, whether error offsets are determined) or None."""
    b = bytearray(b)
    if kind == "signature":
        w = r.choice([b"SSBBgrsh", b"SSBBgrs\0", b"RIFF\0\0\0\0", b"        ", b"\0" * 8, b"\x89PNG\r\n\x1a\n", b"ssbbgrsg",
                      b"SSBB\0rsg", bytes(r.randrange(32, 127) for _ in range(8)), "\u20ac\u20acab".encode()])
        b[:8] = w
        return b, repr(w), True
    if kind == "short":
        return r.choice([b"", b"S", b"SSBB", b"SSBBgrs", b"SSBBgrsg", b"SSBBgrsg\7\0", b"SSBBgrsg\7\0\0\0"]), "short", True
    if kind == "version":
        v = r.choice([0, 1, 5, 6, 10, 11, 255, 256 + 7, 7 * 256, 8 * 256, 65535])
        b[8:10] = le(v, 2)
        return b, f"v{v}", True
    if kind == "laterversion":
        i = b.find(b"SSBBgrsg", 12)
        if i < 0:
            return None
        if r.random() < 0.5:
            b[i + 8:i + 10] = le(r.choice([0, 6, 10, 300]), 2)
            return b, "later version", True
        b[i + 4:i + 8] = r.choice([b"grsh", b"\0\0\0\0", b"SSBB"])
        return b, "later signature", True
    if kind == "nohead":
        h = [x for x in lay.blocks if x[3] == b"head"][-1]
        if r.random() < 0.5:
            b[h[0]:h[0] + 4] = r.choice([b"hea\0", b"HEAD", b"fill", b"heat"])
        else:
            del b[h[0]:h[2]]
        return b, "no head", False
    if kind == "text":
        ts = [t for t in lay.texts if t[1] > 0]
        if not ts:
            return None
        s, n = r.choice(ts)
        w = r.choice(BAD8)[:n]
        p = s + r.randrange(n - len(w) + 1)
        b[p:p + len(w)] = w
        return b, f"text at {p}", True
    if kind == "tag":
        bs = [x for x in lay.blocks if not after_data(lay, x[0])]
        s = r.choice(bs)[0]
        w = r.choice([b"\xff\xff\xff\xff", b"\x80abc", b"ab\xc3(", b"\xf0\x9f\x98\0", b"\xed\xa0\x80a"])
        b[s:s + 4] = w
        return b, f"tag at {s}", True
    if kind == "size":
        bs = [x for x in lay.blocks if x[3] in LEAST or x[3] == b"gbhd"]
        bs = [x for x in bs if not after_data(lay, x[0])]
        s, p, e, t = r.choice(bs)
        kids = [x for x in lay.blocks if p <= x[0] and x[2] <= e and x[0] != s and not after_data(lay, x[0])]
        kids = [x for x in kids if not any(k != x and k[0] <= x[0] and x[2] <= k[2] for k in kids)]
        fixed = LEAST.get(t, 84 if b[8] == 7 else 70)
        n = None
        if kids and r.random() < 0.5:
            k = r.choice(kids)                    # ends inside a child
            if k[2] - k[0] > 1:
                n = r.randrange(k[0] + 1, k[2]) - s
        if n is None:
            n = 8 + r.randrange(fixed)            # ends inside the fixed fields
            if t in (b"tag ",):
                need = 4 + b[p] + 256 * b[p + 1]
                q = p + 2 + b[p] + 256 * b[p + 1]
                need += b[q] + 256 * b[q + 1]
                n = 8 + r.randrange(need)
            elif t in (b"comp", b"unof", b"tils"):
                w = {b"comp": 16, b"unof": 4, b"tils": 29}[t]
                n = 8 + r.randrange(2 + w * (b[p] + 256 * b[p + 1]))
            elif t == b"flow":
                n = 8 + r.randrange(100 + int.from_bytes(b[p + 96:p + 100], "little"))
        if r.random() < 0.1 and n < 16 and t != b"grai":
            n = r.randrange(8)
        b[s + 4:s + 8] = le(n, 4)
        return b, f"size of {t} at {s} = {n}", False
    if kind == "inner":
        # counts and lengths inside a block that promise more than it holds
        bs = [x for x in lay.blocks if x[3] in (b"comp", b"unof", b"tils", b"tag ", b"flow") and not after_data(lay, x[0])]
        if not bs:
            return None
        s, p, e, t = r.choice(bs)
        if t == b"flow":
            b[p + 96:p + 100] = le(e - p - 100 + r.choice([1, 2, 9, 1000, 2**31]), 4)
        elif t == b"tag ":
            b[p:p + 2] = le(e - p + r.choice([0, 1, 50, 60000 - (e - p)]), 2)
        else:
            w = {b"comp": 16, b"unof": 4, b"tils": 29}[t]
            b[p:p + 2] = le((e - p - 2) // w + r.choice([1, 2, 100]), 2)
        return b, f"inner of {t} at {s}", False
    if kind == "date":
        # a date that is none, in the header of any of the files
        hs = [x for x in lay.blocks if x[3] == b"head"]
        s, p, e, t = r.choice(hs)
        y, mo, d, h, mi, se = r.choice([
            (2023, 0, 1, 0, 0, 0), (2023, 13, 1, 0, 0, 0), (2023, 1, 0, 0, 0, 0), (2023, 1, 32, 0, 0, 0), (2023, 4, 31, 0, 0, 0),
            (2023, 2, 29, 0, 0, 0), (1900, 2, 29, 0, 0, 0), (0, 1, 1, 0, 0, 0), (65535, 1, 1, 0, 0, 0), (10000, 1, 1, 0, 0, 0),
            (2023, 1, 1, 24, 0, 0), (2023, 1, 1, 0, 60, 0), (2023, 1, 1, 0, 0, 60), (2023, 255, 255, 255, 255, 255),
            (0, 0, 0, 0, 0, 1), (2024, 2, 29, 23, 59, 59), (2000, 2, 29, 0, 0, 0), (9999, 12, 31, 23, 59, 59), (1, 1, 1, 0, 0, 0)])
        b[p + 16:p + 23] = le(y, 2) + bytes([mo, d, h, mi, se])
        return b, f"date {(y, mo, d, h, mi, se)} at {p + 16}", True
    raise AssertionError(kind)


KINDS = ["signature", "short", "version", "laterversion", "nohead", "text", "text", "tag", "tag", "size", "size", "size",
         "inner", "date"]


def run(c):
    r = c.rng
    cases = []
    truncations(c, r, cases)
    combos = [(s, m) for s in SOURCES for m in LOADING]
    n = 0
    while n < c.scale(460, 6400):
        kind = KINDS[n % len(KINDS)]
        b, lay, docs = conforming(r, r.choice([0.0, 0.1, 0.3]), 2 if kind == "laterversion" else r.choice([1, 1, 2]),
                                  ngrains=r.choice([1, 1, 2, 3]))
        m = malformed(r, b, lay, kind)
        n += 1
        if m is None:
            continue
        b, name, offs = m
        b = bytes(b)
        t = Table(f"{kind}{n}:{name}", b, offs)
        for s, m in r.sample(combos, 5):
            t.read(len(b), None, None, s, m, (r.choice([1, 7, 64]),), c.work)
        for how in r.sample(ONESHOT, 2):
            t.oneshot(len(b), how)
        if len(docs) == 1:
            t.read(len(b), None, None, "bytesio", None, (7,), c.work, legacy=True)
        cases.append(t.done())
    c.judge("J_GsfDec", cases)

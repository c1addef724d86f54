"""C10: histories of the list attributes of grains, judged by GrainLists.tla."""
import copy
import json
import warnings
from fractions import Fraction
from uuid import UUID
from common import call
from gsflib import Gen, text
from c09 import enc_int
from mediagrains import Grain, GrainFactory
from mediagrains.grains import VideoGrain, CodedVideoGrain, EventGrain, AudioGrain
from mediagrains.numpy import VideoGrain as NumpyVideoGrain
from mediagrains.cogenums import CogFrameFormat

NONE = 99999
IDS = {"src_id": UUID(int=1), "flow_id": UUID(int=2)}
COMP = ("width", "height", "stride", "offset", "length")
ATTR = {"timelabels": "timelabels", "components": "components", "unit_offsets": "unit_offsets", "event_data": "event_data"}


class Kind:
    """Real elements of one kind; encode() gives the fields of one."""
    def __init__(self, kind, gen):
        self.kind, self.gen, self.r = kind, gen, gen.r

    def js(self):
        r = self.r
        return r.choice([0, 1, "x", "", [1, "y"], {"a": {"b": [True]}}, 2.5, False, -7, "\u20ac"])

    def make(self, symbol=None):
        """An element as a plain value (dictionary or number)."""
        r = self.r
        if self.kind == "unit_offsets":
            return symbol if symbol is not None else self.gen.u(32)
        if self.kind == "components":
            if symbol is not None:
                return {k: symbol * 10 + i for i, k in enumerate(COMP)}
            return {k: self.gen.u(32) for k in r.sample(COMP, 5)}
        if self.kind == "event_data":
            if symbol is not None:
                return [{"path": "/a"}, {"path": "/b", "pre": 1}, {"path": "/b", "post": "z", "pre": [2]}][symbol - 1]
            d = {"path": self.gen.str()}
            if r.random() < 0.6:
                d["pre"] = self.js()
            if r.random() < 0.6:
                d["post"] = self.js()
            if r.random() < 0.25:
                d[r.choice(["pre", "post"])] = None                    # a null of JSON, not an absent value
            return d
        if symbol == 3 or (symbol is None and r.random() < 0.15):
            return self.label("", 0, Fraction(0), False)
        if symbol is not None:
            return self.label("t%d" % symbol, symbol, Fraction(25), symbol == 2)
        return self.label(self.gen.str(20), self.gen.u(32), self.gen.rat(), r.random() < 0.5)

    @staticmethod
    def label(tag, count, rate, drop):
        return {"tag": tag, "timelabel": {"frames_since_midnight": count, "frame_rate_numerator": rate.numerator,
                                          "frame_rate_denominator": rate.denominator, "drop_frame": drop}}

    def spell(self, e):
        """The element as a user may give it."""
        r = self.r
        e = copy.deepcopy(e)
        if self.kind == "components":
            return r.choice([e, VideoGrain.COMPONENT(e)])
        if self.kind == "event_data":
            return r.choice([e, EventGrain.DATA(e)])
        if self.kind == "timelabels":
            if e == self.label("", 0, Fraction(0), False):
                return r.choice([e, {}, {"tag": ""}, {"timelabel": {}}, Grain.TIMELABEL()])
            if r.random() < 0.2:
                t = Grain.TIMELABEL()
                t.tag, t.count, t.drop_frame = e["tag"], e["timelabel"]["frames_since_midnight"], e["timelabel"]["drop_frame"]
                t.rate = Fraction(e["timelabel"]["frame_rate_numerator"], e["timelabel"]["frame_rate_denominator"])
                return t
            return r.choice([e, Grain.TIMELABEL(e)])
        return e

    def spoil(self, e):
        """What a user may do later to an element given to a grain; its values are left alone."""
        if self.kind == "components":
            e["stride"] = 77
            e["offset"] = 78
        elif self.kind == "event_data":
            e["path"] = "spoilt"
        elif self.kind == "timelabels":
            e["tag"] = "spoilt"
            if "timelabel" in e:
                e["timelabel"]["frames_since_midnight"] = 77
                e["timelabel"]["drop_frame"] = "spoilt"

    def same(self, e):
        """The element as compared with: complete."""
        e = copy.deepcopy(e)
        return self.r.choice([e, {"timelabels": Grain.TIMELABEL, "components": VideoGrain.COMPONENT, "event_data": EventGrain.DATA,
                                  "unit_offsets": int}[self.kind](e)])

    def encode(self, e):
        """Fields of an element as read through the grain or in the metadata."""
        if self.kind == "unit_offsets":
            return [enc_int(e)] if type(e) is int else [[-99]]
        if self.kind == "components":
            if isinstance(e, dict):
                return [enc_int(e[k]) for k in COMP] if sorted(e) == sorted(COMP) else [[-99]]
            return [enc_int(getattr(e, k)) if e[k] == getattr(e, k) and dict(e)[k] == e[k] else [-99] for k in COMP]
        if self.kind == "event_data":
            if isinstance(e, dict):
                return [text(e["path"])] + [[] if k not in e else [text(json.dumps(e[k], sort_keys=True))] for k in ("pre", "post")]
            return [text(e.path)] + [([] if k not in e else [text(json.dumps(x, sort_keys=True))])
                                     if x == e.meta.get(k) and x == e.get(k) and (x is None or k in e) else [[-99]]
                                     for k, x in (("pre", e.pre), ("post", e.post))]
        if isinstance(e, dict):
            t = e["timelabel"]
            return [text(e["tag"]), enc_int(t["frames_since_midnight"]), [enc_int(t["frame_rate_numerator"]), enc_int(t["frame_rate_denominator"])],
                    [int(t["drop_frame"])]]
        if e["tag"] != e.tag or e["timelabel"]["frames_since_midnight"] != e.count:
            return [[-99]]
        return [text(e.tag), enc_int(e.count), [enc_int(e.rate.numerator), enc_int(e.rate.denominator)], [int(e.drop_frame)]]

    def mapping(self, e):
        """An element object is a mapping of its fields."""
        if isinstance(e, (dict, int)):
            return True
        d = dict(e)
        other = {**d, self.r.choice(sorted(d)): "\u2603"}
        return e == d and not e != d and e == type(e)(copy.deepcopy(d)) and len(e) == len(d) and sorted(e.keys()) == sorted(d) \
            and e != other and not e == other and all(e[k] == d[k] and k in e for k in d) and "wibble" not in e

    def field(self, f):
        """(attribute or key names, Python value to assign, specification value) for a field."""
        r = self.r
        if self.kind == "components":
            v = self.gen.u(32)
            return COMP[f - 1], v, enc_int(v)
        if self.kind == "event_data":
            if f == 1:
                v = self.gen.str()
                return "path", v, text(v)
            v = None if r.random() < 0.35 else self.js()
            return ("pre", "post")[f - 2], v, [] if v is None else [text(json.dumps(v, sort_keys=True))]
        if f == 1:
            v = self.gen.str(20)
            return "tag", v, text(v)
        if f == 2:
            v = self.gen.u(32)
            return "count", v, enc_int(v)
        if f == 3:
            v = self.gen.rat()
            return "rate", r.choice([v, str(v)]), [enc_int(v.numerator), enc_int(v.denominator)]
        v = r.random() < 0.5
        return "drop_frame", v, [int(v)]


def base(kind, r, elems, K, how):
    """A grain whose list is elems."""
    if kind == "event_data":
        g = EventGrain(event_type="urn:x", topic="/t", **IDS)
        if how == 0 and not any(None in e.values() for e in elems):
            for e in elems:
                g.append(e["path"], **{k: copy.deepcopy(v) for k, v in e.items() if k != "path"})
        elif how < 2:
            g.event_data = copy.deepcopy(elems)
        else:
            m = copy.deepcopy(g.meta)
            m["grain"]["event_payload"]["data"] = copy.deepcopy(elems)
            g = GrainFactory(m)
        return g
    if kind == "components":
        cls = r.choice([VideoGrain, NumpyVideoGrain])
        g = cls(cog_frame_format=CogFrameFormat.U8_444, width=2, height=2, **IDS)
        if how == 0:
            del g.components[:]
            for e in elems:
                g.components.append(K.spell(e))
        elif how == 1:
            g.components = [K.spell(e) for e in elems]
        else:
            m = copy.deepcopy(g.meta)
            if elems:
                m["grain"]["cog_frame"]["components"] = copy.deepcopy(elems)
                g = VideoGrain(m, g.data)
            else:
                g.components.clear()
        return g
    if kind == "unit_offsets":
        if how == 0:
            given = list(elems) if elems or r.random() < 0.5 else None
            k = r.randrange(4)
            if given and k < 2:
                other = CodedVideoGrain(**IDS)
                other.unit_offsets = given
            g = CodedVideoGrain(unit_offsets=other.unit_offsets if given and k < 2 else tuple(given) if given and k == 2 else given, **IDS)
            if given:                                                      # the user's own, and another grain's
                given.append(1)
            if given and k < 2:
                other.unit_offsets.clear()
        else:
            g = CodedVideoGrain(**IDS)
            if elems or how == 1:
                g.unit_offsets = r.choice([list, tuple])(elems)
        if how == 2:
            g = GrainFactory(json.loads(json.dumps(g.meta)))
        return g
    g = r.choice([VideoGrain, EventGrain, AudioGrain, CodedVideoGrain])(**IDS)
    if how == 0:
        for e in elems:
            t = e["timelabel"]
            g.add_timelabel(e["tag"], t["frames_since_midnight"], Fraction(t["frame_rate_numerator"], t["frame_rate_denominator"]), t["drop_frame"])
    elif how == 1:
        g.timelabels = [K.spell(e) for e in elems]
    else:
        m = copy.deepcopy(g.meta)
        if elems:
            m["grain"]["timelabels"] = copy.deepcopy(elems)
        g = GrainFactory(m)
    return g


def raw(g, kind):
    m = g.meta["grain"]
    if kind == "timelabels":
        return m.get("timelabels", [])
    if kind == "components":
        return m["cog_frame"]["components"]
    if kind == "unit_offsets":
        return m["cog_coded_frame"].get("unit_offsets", [])
    return m["event_payload"]["data"]


def play(kind, gen, elems, script, how):
    r = gen.r
    K = Kind(kind, gen)
    elems = [copy.deepcopy(e) for e in elems]            # no object twice
    script = [(o, n, [copy.deepcopy(e) for e in x]) for o, n, x in script]
    doubled = False
    ok, g = call(base, kind, r, elems, K, how)
    case = {"init": [K.encode(e) for e in elems], "head": [text("urn:x"), text("/t")] if kind == "event_data" else [], "evs": []}
    if not ok:
        return {**case, "view": [[[-97]]]}
    view = lambda: [K.encode(e) for e in getattr(g, ATTR[kind])]                             # noqa: E731
    ok, v = call(view)
    case["view"] = v if ok else [[[-98]]]
    stale = getattr(g, ATTR[kind])
    lim = lambda v: None if v == NONE else v                                                 # noqa: E731
    for op, n, x in script:
        n = list(n)
        # after doubling, parts of the elements are the same objects: writing through them is left open
        doubled = doubled or op == "double"
        if doubled and op in ("field", "key"):
            continue
        ev = {"op": op, "n": n, "x": [K.encode(e) for e in x], "f": 1, "v": [], "res": "ok", "out": [], "num": 0}
        L = stale if kind != "event_data" and r.random() < 0.4 else getattr(g, ATTR[kind])
        key = slice(lim(n[0]), lim(n[1]), lim(n[2]))
        gave, single = [], []

        def one():
            single.append(K.spell(x[0]))
            return single[-1]

        def many():
            y = [K.spell(e) for e in x]
            gave.append(y)
            return r.choice([lambda v: v, tuple, iter])(y)

        def do():
            if op == "get":
                return [L[n[0]]]
            if op == "slice":
                return L[key]
            if op == "set":
                L[n[0]] = one()
            elif op == "setslice":
                L[key] = many()
            elif op == "del":
                del L[n[0]]
            elif op == "delslice":
                del L[key]
            elif op == "insert":
                L.insert(n[0], one())
            elif op == "append":
                if kind == "event_data":
                    g.append(x[0]["path"], **{k: copy.deepcopy(v) for k, v in x[0].items() if k != "path"})
                else:
                    L.append(one())
            elif op == "add":
                t = x[0]["timelabel"]
                g.add_timelabel(x[0]["tag"], t["frames_since_midnight"], Fraction(t["frame_rate_numerator"], t["frame_rate_denominator"]),
                                t["drop_frame"])
            elif op == "extend":
                L.extend(many())
            elif op == "iadd":
                if r.random() < 0.5:
                    M = L
                    M += many()
                elif kind == "timelabels":
                    g.timelabels += many()
                elif kind == "components":
                    g.components += many()
                else:
                    g.unit_offsets += many()
            elif op == "double":
                k = r.random()
                if k < 0.4:
                    L.extend(getattr(g, ATTR[kind]))
                elif k < 0.7:
                    L.extend(L)
                else:
                    M = L
                    M += getattr(g, ATTR[kind])
            elif op == "assign":
                setattr(g, ATTR[kind], many())
            elif op == "reassign":
                setattr(g, ATTR[kind], L)
            elif op == "pop":
                return [L.pop() if n[0] == NONE else L.pop(n[0])]
            elif op == "remove":
                L.remove(K.same(x[0]))
            elif op == "reverse":
                L.reverse()
            elif op == "clear":
                L.clear()
            elif op == "index":
                return L.index(K.same(x[0]))
            elif op == "count":
                return L.count(K.same(x[0]))
            elif op == "contains":
                return int(K.same(x[0]) in L)
            elif op == "iter":
                return [e for e in L]
            elif op == "reversed":
                return list(reversed(L))
            elif op == "len":
                return len(L)
            elif op == "bool":
                return int(bool(L))
            elif op == "equal":
                return int(L == [K.same(e) for e in x])
            elif op == "unequal":
                return int(L != [K.same(e) for e in x])
            elif op in ("field", "key"):
                e = L[n[0]]
                if ev["op"] == "key" and ev["_name"] not in ("count", "rate", "drop_frame"):
                    if ev["_val"] is None:
                        if ev["_name"] in e:
                            del e[ev["_name"]]
                    else:
                        e[ev["_name"]] = ev["_val"]
                else:
                    setattr(e, ev["_name"], ev["_val"])
            elif op == "doc":
                d = json.dumps({"type": ev["_head"][0], "topic": ev["_head"][1], "data": x}, ensure_ascii=r.random() < 0.5, sort_keys=r.random() < 0.5, indent=r.choice([None, None, 1]))
                g.data = r.choice([d, d.encode()])
            elif op == "head":
                setattr(g, ("event_type", "topic")[ev["f"] - 1], ev["_val"])
            return None
        if op in ("field", "key"):
            ev["f"] = r.randrange(1, {"components": 6, "event_data": 4, "timelabels": 5}[kind])
            ev["_name"], ev["_val"], ev["v"] = K.field(ev["f"])
        elif op == "doc":
            ev["_head"] = [gen.str(), gen.str()]
            ev["v"] = [text(s) for s in ev["_head"]]
        elif op == "head":
            ev["f"] = r.choice([1, 2])
            ev["_val"] = gen.str()
            ev["v"] = text(ev["_val"])
        ok, v = call(do, seconds=5)
        if not ok:
            ev["res"] = v.lstrip("!")
        elif isinstance(v, int):
            ev["num"] = v
        elif v is not None:
            ok, w = call(lambda: [K.encode(e) for e in v])
            ev["out"] = w if ok else [[[-99]]]
        for e in [e for y in gave for e in y] + (single if kind != "unit_offsets" else []):
            K.spoil(e)
        if op == "slice" and type(v) is list:
            gave.append(v)
        for y in gave:                                                     # lists given and had are the user's own
            y[:] = r.choice([[], y + y, y[:0:-1]])
        ok, w = call(view)
        ev["view"] = w if ok else [[[-98]]]
        ok, w = call(lambda: all(K.mapping(e) for e in getattr(g, ATTR[kind])) and
                    (kind != "unit_offsets" or repr(g.unit_offsets) == repr(list(g.unit_offsets))))
        if not ok or not w:
            ev["view"] = [[[-94]]]
        ok, w = call(lambda: [K.encode(e) if isinstance(e, (dict, int)) else [[-96]] for e in raw(g, kind)])
        ev["meta"] = w if ok else [[[-98]]]
        ok, w = call(lambda: json.loads(json.dumps(g.meta)) == g.meta)
        ev["json"] = ok and w
        ev["doc"] = []
        if kind == "event_data":
            def doc():
                d = json.loads(g.data)
                assert bytes(g) == g.data and sorted(d) == ["data", "topic", "type"]
                return [[[text(d["type"]), text(d["topic"])], [K.encode(e) for e in d["data"]]]]
            ok, w = call(doc)
            ev["doc"] = w if ok else [[[], [[[-98]]]]]
        case["evs"].append({k: v for k, v in ev.items() if k[0] != "_"})
        if ev["res"] in ("Hang", "MemoryError"):
            break
    return {**case, "trace": len(case["evs"])}


def run(c):
    r = c.rng
    gen = Gen(r)
    warnings.simplefilter("ignore")
    cfg = "INIT Init\nNEXT MNext\nINVARIANT Laws\nINVARIANT Printed\nCONSTANT Depth = %d\nCONSTANT Emit = %s\nCHECK_DEADLOCK FALSE\n"
    beh = c.behaviours("MC_GrainLists", cfg % (2, "TRUE"), "GrainLists")
    deep = []
    if c.thorough:
        c.model("MC_GrainLists", cfg % (4, "FALSE"), "GrainLists-deep")
    cases = []
    kinds = ("timelabels", "components", "unit_offsets")
    for i, x in enumerate(beh + deep):
        for kind in kinds if c.thorough or r.random() < 0.3 else ():
            K = Kind(kind, gen)
            sym = {s: K.make(s) for s in (1, 2, 3)}
            cases.append({"id": f"model{i}-{kind}", **play(kind, gen, [sym[s] for s in x[0]],
                                                           [(o, n, [sym[s] for s in e]) for o, n, e in x[1:]], r.randrange(3))})
    ops = ["get", "slice", "slice", "set", "setslice", "setslice", "del", "delslice", "insert", "append", "extend", "iadd", "double", "assign",
           "reassign", "pop", "remove", "reverse", "clear", "index", "count", "contains", "iter", "reversed", "len", "bool", "equal",
           "unequal", "field", "field", "field", "key"]
    reads = ["get", "slice", "index", "count", "contains", "iter", "reversed", "len", "bool", "equal", "unequal", "append", "append", "append", "assign",
             "reassign", "field", "field", "key", "doc", "head"]
    for i in range(c.scale(1500, 20000)):
        kind = r.choice(kinds + ("event_data",))
        K = Kind(kind, gen)
        pool = [K.make() for _ in range(4)] + [K.make(s) for s in (1, 2, 3)]
        some = lambda n: [r.choice(pool) for _ in range(n)]                                    # noqa: E731
        script = []
        elems = some(r.choice([0, 1, 2, 3, 5]))
        for _ in range(r.randrange(1, 15)):
            op = r.choice(reads if kind == "event_data" else ops + (["add"] if kind == "timelabels" else []))
            if kind == "unit_offsets" and op in ("field", "key"):
                op = "set"
            ix = lambda: r.choice([0, 0, 1, 2, -1, -2, 3, 7, -7])                              # noqa: E731
            n = (ix(), 0, 0)
            x = []
            if op in ("slice", "setslice", "delslice"):
                w = lambda: r.choice([NONE, NONE, 0, 1, 2, -1, -2, 4, -9, 9])                # noqa: E731
                n = (w(), w(), r.choice([NONE, NONE, NONE, 1, 2, -1, -2, 3]))
            if op == "pop" and r.random() < 0.5:
                n = (NONE, 0, 0)
            if op in ("setslice", "extend", "iadd", "assign", "doc"):
                x = some(r.choice([0, 1, 1, 2, 3]))
            elif op in ("equal", "unequal"):
                x = elems if r.random() < 0.5 else some(r.randrange(3))
            elif op in ("set", "insert", "append", "add", "remove", "index", "count", "contains"):
                x = some(1)
            if op == "append" and kind == "event_data":
                x = [{k: v for k, v in e.items() if v is not None} for e in x]
            script.append((op, n, x))
        cases.append({"id": f"rand{i}-{kind}", **play(kind, gen, elems, script, r.randrange(3))})
    c.judge("J_GrainLists", cases)

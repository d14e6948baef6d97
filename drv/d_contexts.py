"""Contexts (spec: Contexts.tla)."""
from common import *
import infi.instruct as I
from infi.instruct.base import ReadOnlyContext, WritableContext, EMPTY_CONTEXT, Marshal, MinMax

NH, NK = 4, 4
OWN = [None, {"k1": 5, "k2": 6}, {"k2": 7, "k3": 8}, {"k2": None}]


def val(n):
    return None if n == 10 else n


def dct(d):
    return dict(("k%d" % k, val(n)) for k, n in d)


def enc_map(d):
    if set(d) - set("k%d" % k for k in range(1, NK + 1)):
        return V("other")
    return V("list", (), [enc(d["k%d" % k]) if "k%d" % k in d else V("str") for k in range(1, NK + 1)])


class See(Marshal):
    """A user's type that looks at its context (and perhaps writes there)."""

    def __init__(self, world):
        self.w = world

    def look(self, context):
        k, put = self.w.key
        self.w.seen.append(context.get("k%d" % k, ""))
        if put:
            context.put("k%d" % put, 9)
            context.put("mine", 1)

    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        self.look(context)
        return len(stream.read(1))

    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        self.look(context)
        stream.write(b"z")

    def sizeof(self, obj):
        return 1

    def min_max_sizeof(self):
        return MinMax(1, 1)

    def to_repr(self, obj, context=EMPTY_CONTEXT):
        self.look(context)
        return "z"


class World(object):
    def __init__(self, sch):
        self.c = dict((h, WritableContext()) for h in range(1, NH + 1))
        self.classes = {}
        self.own = [None if x is None else dict(x) for x in OWN]
        self.key = self.seen = None

    def declare(self, c, fields, sub):
        ns = {"_fields_": fields}
        if self.own[c - 1] is not None:
            ns["_context_"] = self.own[c - 1]
        cl = type(I.Struct)("C%d" % c, (I.Struct,), ns)
        if sub:                             # declared by a base
            cl = type(I.Struct)("D%d" % c, (cl,), {})
        return cl

    def cls(self, chain, wrap):
        key = (tuple(chain), wrap)
        if key in self.classes:
            return self.classes[key]
        inner, make = None, None
        for c in reversed(chain):
            def inside(cl=inner, mk=make):
                if cl is None:
                    f = [I.Field("z", See(self)), I.UBInt8("y")]
                    return ([I.Lazy(*f)] if wrap == 6 else [I.OptionalField("z", See(self), lambda *a: True), f[1]] if wrap == 7 else f), lambda: dict(z=1, y=1)
                x = I.UBInt8Marshal
                m = {1: lambda: I.FixedSizeArrayMarshal(1, cl), 2: lambda: I.VarSizeArrayMarshal(x, cl), 3: lambda: I.SumSizeArrayMarshal(x, cl),
                     4: lambda: I.StructSelectorMarshal(x, {1: cl}, cl),
                     5: lambda: I.FuncStructSelectorMarshal(lambda s, ctx: cl)}.get(wrap, lambda: cl)()
                return [I.Field("i", m)], (lambda: dict(i=[cl(**mk())])) if wrap in (1, 2, 3) else (lambda: dict(i=cl(**mk())))
            fs, make = inside()
            inner = self.declare(c, fs, wrap == 8)
        self.classes[key] = (inner, make)
        return inner, make

    def apply(self, e):
        op = e["op"]
        c = self.c
        if op == "mk":
            d = dct(e["d"])
            k = WritableContext if e["w"] else ReadOnlyContext
            c[e["h"]] = k() if e["via"] and not d else k(d)
            return OK
        if op == "emp":
            c[e["h"]] = EMPTY_CONTEXT
            return OK
        if op == "copy":
            d = dct(e["d"])
            c[e["h"]] = c[e["g"]].writable_copy(d) if d or e["h"] % 2 else c[e["g"]].writable_copy()
            d["k1"] = 8             # the caller's own
            return OK
        if op == "get":
            return enc(c[e["h"]].get("k%d" % e["k"], "" if e["n"] < 0 else val(e["n"])))
        if op == "put":
            c[e["h"]].put("k%d" % e["k"], val(e["n"]))
            return OK
        if op == "upd":
            d = dct(e["d"])
            c[e["h"]].update(d)
            d["k1"] = 8
            return OK
        if op == "rem":
            c[e["h"]].remove("k%d" % e["k"])
            return OK
        if op == "dict":
            d = c[e["h"]].get_dict()
            r = enc_map(d)
            d["k1"] = 8
            d.pop("k2", None)
            return r
        if op == "all":
            if not isinstance(repr(c[1]), str):
                return V("other")
            return V("list", (), [enc_map(c[h].get_dict()) for h in range(1, NH + 1)])
        if op == "own":
            return V("list", (), [enc_map(x or {}) for x in self.own])
        if op == "use":
            cl, make = self.cls(e["chain"], e["wrap"])
            a = (c[e["h"]],) if e["h"] else ()
            self.key, self.seen = (e["k"], e["pt"]), []
            o = cl(**make())
            if e["how"] == 0:
                d = {1: b"z\1", 4: b"z\1"}.get(e["wrap"], b"z\1")
                if e["wrap"] == 2:
                    d = b"\1" * (len(e["chain"]) - 1) + d
                elif e["wrap"] == 3:
                    for j in range(len(e["chain"]) - 1):
                        d = bytes(bytearray([len(d)])) + d
                r = cl.create_from_string(d, *a) if e["h"] % 2 else cl.create_from_stream(io.BytesIO(d), *a)
                while hasattr(r, "i"):
                    r = r.i[0] if isinstance(r.i, list) else r.i
                if r.y != 1:
                    return V("other")
            elif e["how"] == 1:
                cl.write_to_string(o, *a) if e["h"] % 2 else cl.write_to_stream(o, io.BytesIO(), *a)
            else:
                cl.to_repr(o, *a)
            return enc(self.seen[0]) if len(self.seen) == 1 else V("list", (), [enc(x) for x in self.seen])
        raise Misuse(op)


def fresh(sch):
    return World(sch)


def gen_sch(rnd, prof):
    return 0


def gen(rnd, prof):
    def d():
        return [[rnd.randint(1, NK), rnd.randint(0, 10)] for _ in range(rnd.choice([0, 0, 1, 1, 2, 3]))]
    for _ in range(rnd.randint(5, 14)):
        k = rnd.random()
        h = rnd.randint(1, NH)
        if k < .15:
            yield {"op": "mk", "h": h, "w": rnd.randint(0, 1), "d": d(), "via": rnd.randint(0, 1)}
        elif k < .2:
            yield {"op": "emp", "h": h}
        elif k < .3:
            yield {"op": "copy", "h": h, "g": rnd.randint(1, NH), "d": d()}
        elif k < .4:
            yield {"op": "get", "h": h, "k": rnd.randint(1, NK), "n": rnd.randint(-1, 10)}
        elif k < .48:
            yield {"op": "put", "h": h, "k": rnd.randint(1, NK), "n": rnd.randint(0, 10)}
        elif k < .54:
            yield {"op": "upd", "h": h, "d": d()}
        elif k < .6:
            yield {"op": "rem", "h": h, "k": rnd.randint(1, NK)}
        elif k < .65:
            yield {"op": "dict", "h": h}
        else:
            yield {"op": "use", "h": rnd.choice([0, h, h, h]), "chain": [rnd.randint(1, 4) for _ in range(rnd.choice([1, 1, 2, 2, 3]))],
                   "k": rnd.randint(1, NK), "how": rnd.choice([0, 0, 1, 2]), "wrap": rnd.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8]), "pt": rnd.choice([0, 0, 1, 2, 3])}
            if rnd.random() < .5:
                yield {"op": "all"}
    yield {"op": "all"}
    yield {"op": "own"}

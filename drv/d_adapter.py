"""Buffer classes used as struct types (spec: Adapter.tla)."""
from common import *
import d_buffer
from infi.instruct import macros as SM
from infi.instruct.struct import Struct
from infi.instruct.buffer.compat import buffer_to_struct_adapter


class Ahead(object):
    """An input stream that can only be read."""

    def __init__(self, data):
        self.r = io.BytesIO(data)

    def read(self, n):
        return self.r.read(n)


class World(d_buffer.World):
    def __init__(self, sch):
        super(World, self).__init__(sch)
        self.ad = dict((c, buffer_to_struct_adapter(k)) for c, k in self.classes.items())
        self.input = Ahead(b"")
        self.output = io.BytesIO()
        self.structs = {}

    def struct(self, c, s):
        if (c, s) not in self.structs:
            a = self.ad[c]
            if s == "one":
                fs = [SM.UBInt8("u"), SM.Field("a", a), SM.UBInt16("w")]
            elif s == "two":
                fs = [SM.UBInt8("u"), SM.FixedSizeArray("a", 2, a), SM.UBInt16("w")]
            else:
                fs = [SM.VarSizeArray("a", SM.UBInt8Marshal, a), SM.UBInt16("w")]
            self.structs[c, s] = type(Struct)("St", (Struct,), {"_fields_": fs, "__module__": "gen"})
        return self.structs[c, s]

    def attrs(self, c, o):
        return V("list", (), self.obj(c, o)["k"])

    def apply(self, e):
        op = e["op"]
        if op == "load":
            self.input = Ahead(bytes(bytearray(e["b"])))
            return OK
        if op == "left":
            return enc(self.input.r.getvalue()[self.input.r.tell():])
        if op == "out":
            r, self.output = self.output.getvalue(), io.BytesIO()
            return enc(r)
        if op in ("afrom", "aread", "sread") and e["c"] in self.errors:
            if op != "sread":
                self.o.pop(e["o"], None)
            return self.errors[e["c"]]
        if op in ("afrom", "aread"):
            self.o.pop(e["o"], None)
            if op == "afrom":
                o = self.ad[e["c"]].create_from_string(bytes(bytearray(e["b"])))
            else:
                o = self.ad[e["c"]].create_from_stream(self.input)
            if type(o) is not self.classes[e["c"]]:
                return V("other")
            self.o[e["o"]] = (e["c"], o)
            return self.attrs(e["c"], o)
        if op == "sread":
            r = self.struct(e["c"], e["s"]).create_from_string(bytes(bytearray(e["b"])))
            l = r.a if e["s"] != "one" else [r.a]
            return V("list", (), [enc(getattr(r, "u", None)), V("list", (), [self.obj(e["c"], x) for x in l]), enc(r.w)])
        if op == "swrite":
            if not all(o in self.o for o in e["os"]):
                return ERR
            os = [self.o[o][1] for o in e["os"]]
            S = self.struct(e["c"], e["s"])
            kw = {"a": os[0] if e["s"] == "one" else os, "w": e["w"]}
            if e["s"] != "cnt":
                kw["u"] = e["u"]
            s = S(**kw)
            return V("list", (), [enc(S.write_to_string(s)), enc(S.sizeof(s))])
        if op in ("astr", "asize", "awrite"):
            if e["o"] not in self.o:
                return ERR
            c, o = self.o[e["o"]]
            a = self.ad[c]
            if op == "astr":
                return enc(a.write_to_string(o))
            if op == "asize":
                return enc(a.sizeof(o))
            a.write_to_stream(o, self.output)
            return OK
        return super(World, self).apply(e)


def fresh(sch):
    return World(sch)


def gen_sch(rnd, prof):
    return d_buffer.gen_sch(rnd, rnd.choice(["B01", "B01", "B02", "B02", "B03", "B04", "B09", "B10"]))


slim = d_buffer.slim


def gen_for(rnd, prof, sch):
    cl = sch["c"]
    main = len(cl)

    def vals(c):
        return d_buffer.field_values(rnd, cl, c, rnd.random() < .9)

    def new(o, c):
        vs = vals(c)
        return {"op": "new", "o": o, "c": c, "kw": [{"f": n, "v": v} for n, v in vs.items() if rnd.random() < .97]}

    def noise(n):
        return [rnd.choice([0, 1, 2, 3, 32, 97, 128, 255]) for _ in range(n)]

    c = main if rnd.random() < .85 else rnd.randint(1, main)
    yield {"op": "csize", "c": c}
    packed = {}
    for o in (1, 2):
        yield new(o, c)
        r = yield {"op": rnd.choice(["pack", "astr", "astr"]), "o": o}
        packed[o] = r["i"] if r["t"] == "bytes" else noise(rnd.randint(0, 9))
    for _ in range(rnd.choice([2, 3, 4])):
        k = rnd.random()
        o = rnd.randint(1, 3)
        if k < .15:
            yield {"op": "asize", "o": o}
            yield {"op": "all", "o": o}
        elif k < .35:
            for o in [rnd.randint(1, 3) for _ in range(rnd.choice([1, 2]))]:
                yield {"op": "awrite", "o": o}
            yield {"op": "out"}
        elif k < .5:
            b = packed[rnd.randint(1, 2)]
            if rnd.random() < .5:
                b = b[:rnd.randint(0, len(b))] + noise(rnd.choice([0, 0, 1, 3]))
            yield {"op": "afrom", "o": o, "c": c, "b": b}
            yield {"op": "astr", "o": o}
        elif k < .7:
            b = packed[1] + packed[2] + noise(rnd.choice([0, 1, 2]))
            if rnd.random() < .3:
                b = b[:rnd.randint(0, len(b))]
            yield {"op": "load", "b": b}
            for _ in range(rnd.choice([1, 2, 2, 3])):
                yield {"op": "aread", "o": o, "c": c}
                yield {"op": "left"}
            yield {"op": "astr", "o": o}
        elif k < .85:
            s = rnd.choice(["one", "two", "cnt"])
            n = {"one": 1, "two": 2, "cnt": rnd.choice([0, 1, 2, 3])}[s]
            r = yield {"op": "swrite", "c": c, "s": s, "os": [rnd.choice([1, 2, 1, 2, 3]) for _ in range(n)], "u": rnd.choice([0, 7, 255]), "w": rnd.choice([0, 258, 65535])}
            if r["t"] == "list":
                b = r["k"][0]["i"] + noise(rnd.choice([0, 0, 1]))
                yield {"op": "sread", "c": c, "s": s, "b": b}
        else:
            s = rnd.choice(["one", "two", "cnt"])
            b = [rnd.choice([0, 1, 2])] + packed[1] + packed[2] + noise(rnd.choice([0, 2]))
            if rnd.random() < .5:
                b = b[:rnd.randint(0, len(b))]
            yield {"op": "sread", "c": c, "s": s, "b": b}
        if rnd.random() < .2:
            yield {"op": "setx", "o": rnd.randint(1, 2), "n": rnd.choice([1, 3, 4])}
    yield {"op": "all", "o": 1}

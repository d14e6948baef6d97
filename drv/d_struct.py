"""Structs (spec: Struct.tla)."""
from common import *
from array import array
import infi.instruct as I
from infi.instruct.base import Marshal, MinMax, WritableContext, ReadOnlyContext, EMPTY_CONTEXT, ConstReader
from infi.instruct.errors import InstructError, NotEnoughDataError
from infi.instruct.struct import FieldListContainer
from infi.instruct.numeric import NumericMarshal
import infi.instruct.numeric as numeric

AMID = [None]


def amid():
    """In the middle of an operation, in something of the user's that it calls."""
    if AMID[0]:
        AMID[0]()


class ContextByte(Marshal):
    """A user's type: a byte, xor a value from the context."""

    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        amid()
        b = stream.read(1)
        if len(b) < 1:
            raise NotEnoughDataError(1, 0)
        return bytearray(b)[0] ^ (max(0, context.get("ver", -1)) & 255)

    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        if not isinstance(obj, int) or not 0 <= obj < 256:
            raise InstructError("not a byte")
        amid()
        stream.write(bytes(bytearray([obj ^ (max(0, context.get("ver", -1)) & 255)])))

    def sizeof(self, obj):
        amid()
        return 1

    def min_max_sizeof(self):
        return MinMax(1, 1)

    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return "%d" % obj


class ReadOnlyStream(object):
    """A stream that can only be read."""

    def __init__(self, data):
        self._b = io.BytesIO(data)

    def read(self, n):
        amid()
        return self._b.read(n)


class WriteOnlyStream(object):
    def __init__(self):
        self.data = b""

    def write(self, b):
        amid()
        self.data += bytes(b)


def by(x):
    return bytes(bytearray(x))


def ctx(ver, style=0):
    if ver < 0:
        return EMPTY_CONTEXT if style % 3 else None
    return WritableContext({"ver": ver}) if style % 2 else ReadOnlyContext({"ver": ver})


class World(object):
    def __init__(self, sch):
        self.sch = sch
        self.cls = []
        for c in range(1, len(sch["c"]) + 1):
            self.cls.append(self.build_class(c))
        self.o = {}
        self.w = b""
        self.r = None

    # -- building classes
    def dec(self, v):
        return dec(v, self.dec_obj)

    def dec_obj(self, v):
        if v["t"] != "obj":
            raise Misuse("cannot decode %r" % (v,))
        c = v["i"][0]
        lv = self.sch["c"][c - 1]["lv"]
        kw = {}
        for x, l in enumerate(lv):
            if not l["c"]:
                kw["f%d" % (x + 1)] = self.dec(v["k"][x])
        return self.cls[c - 1](**kw)

    def enc(self, v):
        return enc(v, self.enc_obj)

    def enc_obj(self, v):
        if type(v) in self.cls:
            c = self.cls.index(type(v)) + 1
            n = len(self.sch["c"][c - 1]["lv"])
            return V("obj", [c], [self.enc(getattr(v, "f%d" % x)) for x in range(1, n + 1)] +
                     [self.enc(getattr(v, "_got_", None))])
        return None

    def num_macro(self, m):
        if m["k"] == "flt":
            return "%sFloat%d" % (m.get("e") or ("B" if m["be"] else "L"), m["n"] * 8)
        return "%s%sInt%d" % ("S" if m["sg"] else "U", m.get("e") or ("B" if m["be"] else "L"), m["n"] * 8)

    def marshal(self, m):
        k = m["k"]
        if k in ("num", "flt"):
            n = self.num_macro(m)
            return getattr(numeric, n + "Marshal") if m.get("raw") else getattr(I, n)
        if k == "cnum":
            return ContextByte()
        if k == "pad":
            from infi.instruct.padding import BytePaddingMarshal
            return BytePaddingMarshal(m["n"], by([m["ch"]]))
        if k == "ptr":
            return I.ReadPointer("f%d" % m["x"])
        if k == "pstr":
            if m["dir"] == 0 and m.get("buf"):
                return I.FixedSizeBufferMarshal(m["n"])
            return I.PaddedStringMarshal(m["n"], by(m["pad"]), m["dir"])
        if k == "vstr":
            if m["dir"] == 0 and m.get("buf"):
                return I.VarSizeBufferMarshal(self.marshal(m["sz"]))
            return I.VarSizeStringMarshal(self.marshal(m["sz"]), by(m["pad"]), m["dir"])
        if k == "farr":
            return I.FixedSizeArrayMarshal(m["n"], self.marshal(m["el"]))
        if k == "varr":
            return I.VarSizeArrayMarshal(self.marshal(m["sz"]), self.marshal(m["el"]))
        if k == "sarr":
            return I.SumSizeArrayMarshal(self.marshal(m["sz"]), self.marshal(m["el"]))
        if k == "map":
            return I.FixedSizeMappingMarshal(dict((dec(a), dec(b)) for a, b in m["pairs"]), self.marshal(m["m"]))
        if k == "struct":
            return self.cls[m["c"] - 1]
        if k == "sel":
            mp = dict((dec(a), self.cls[c - 1]) for a, c in m["map"])
            d = self.cls[m["def"] - 1] if m["def"] else None
            return I.StructSelectorMarshal(self.marshal(m["key"]), mp, d)
        if k == "fsel":
            return I.FuncStructSelectorMarshal(self.select_func(m, True), *self.fsel_bounds(m))
        raise Misuse(k)

    def fsel_bounds(self, m):
        if "mm" not in m:
            return ()
        mm = (m["mm"][0], sys.maxsize if m["mm"][1] < 0 else m["mm"][1])
        return (MinMax(*mm) if m["mmtype"] else mm,)

    def select_func(self, m, raw):
        mp = [(dec(a), self.cls[c - 1]) for a, c in m["map"]]
        d = self.cls[m["def"] - 1] if m["def"] else None

        def of(v):
            for a, c in mp:
                if type(a) == type(v) and a == v:
                    return c
            if d is None:
                raise InstructError("no class for %r" % (v,))
            return d

        def func(obj, stream, context):
            amid()
            if m["f"] == "by":
                return of(getattr(obj, "f%d" % m["x"]))
            if m["f"] == "ver":
                if context.get("ver", -1) == m["n"]:
                    return mp[0][1]
                if d is None:
                    raise InstructError("no class")
                return d
            n = m["n"]
            a = n // 2 if m.get("twice") else 0
            b = stream.read(a) + stream.read(n - a)
            if len(b) < n:
                raise NotEnoughDataError(n, len(b))
            return of(bytearray(b)[n - 1])
        if raw:
            return lambda stream, context: func(context.get("struct", None), stream, context)
        return func

    def pred(self, p):
        k = p["k"]
        v = dec(p["v"]) if "v" in p else None

        def f(obj, stream, context):
            amid()
            if k in ("yes", "no"):
                return k == "yes"
            if k == "ver":
                return context.get("ver", -1) == p["n"]
            x = getattr(obj, "f%d" % p["x"])
            eq = type(x) == type(v) and x == v
            return eq if k == "eq" else not eq
        return f

    def field(self, f, c):
        k = f["k"]
        lv = self.sch["c"][c - 1]["lv"]
        if k in ("fld", "opt", "const"):
            name = "f%d" % f["x"]
            d = self.dec(lv[f["x"] - 1]["d"])
            m = f["m"]
            if k == "const":
                if m["k"] == "struct":
                    return I.ConstField(name, d) if f.get("st") else I.ConstField(name, d, self.cls[m["c"] - 1](**{}))
                return I.ConstField(name, d, self.marshal(m))
            if k == "opt":
                return I.OptionalField(name, self.marshal(m), self.pred(f["pr"]), d)
            if f.get("plain"):
                return I.Field(name, self.marshal(m), d)
            mk = m["k"]
            if mk in ("num", "flt"):
                return getattr(I, self.num_macro(m))(name, d)
            if mk == "pstr":
                if m["dir"] == 0 and m.get("buf"):
                    return I.FixedSizeBuffer(name, m["n"], d)
                if m["dir"] == 1 and m["pad"] == [0]:
                    return I.PaddedString(name, m["n"], default=d) if f["x"] % 2 else I.FixedSizeString(name, m["n"], default=d)
                return I.PaddedString(name, m["n"], by(m["pad"]), m["dir"], d)
            if mk == "vstr":
                if m["dir"] == 0 and m.get("buf"):
                    return I.VarSizeBuffer(name, self.marshal(m["sz"]), d)
                if m["dir"] == 1 and m["pad"] == [0]:
                    return I.VarSizeString(name, self.marshal(m["sz"]), default=d)
                return I.VarSizeString(name, self.marshal(m["sz"]), by(m["pad"]), m["dir"], d)
            if mk == "farr":
                return I.FixedSizeArray(name, m["n"], self.marshal(m["el"]), d)
            if mk == "varr":
                return I.VarSizeArray(name, self.marshal(m["sz"]), self.marshal(m["el"]), d)
            if mk == "sarr":
                return I.SumSizeArray(name, self.marshal(m["sz"]), self.marshal(m["el"]), d)
            if mk == "map":
                return I.MappingField(name, self.marshal(m["m"]), dict((dec(a), dec(b)) for a, b in m["pairs"]), d)
            if mk == "fsel" and d is None:
                return I.SelectStructByFunc(name, self.select_func(m, False), *self.fsel_bounds(m))
            return I.Field(name, self.marshal(m), d)
        if k == "anon":
            m = f["m"]
            if m["ch"] == 0:
                return I.BytePadding(m["n"]) if m["n"] % 2 else I.Padding(m["n"])
            return I.BytePadding(m["n"], by([m["ch"]]))
        if k == "bits":
            fs = []
            for b in f["s"]:
                if not b["x"]:
                    fs.append(I.BitPadding(b["w"]))
                else:
                    name = "f%d" % b["x"]
                    d = self.dec(lv[b["x"] - 1]["d"])
                    if b["c"]:
                        fs.append(I.ConstField(name, d, I.BitMarshal(b["w"])))
                    elif b["w"] == 1:
                        fs.append(I.BitFlag(name, d))
                    else:
                        fs.append(I.BitField(name, b["w"], d))
            return I.BitFields(*fs)
        if k == "pbits":
            fs = []
            for b in f["s"]:
                name = "f%d" % b["x"]
                d = self.dec(lv[b["x"] - 1]["d"])
                sl = [slice(*s) for s in b["sl"]]
                if b["c"]:
                    fs.append(I.ConstField(name, d, I.PositionalBitMarshal(sl)))
                elif len(sl) == 1:
                    fs.append(I.BitField(name, sl[0] if b["x"] % 2 else I.Bits[sl[0]], d))
                else:
                    fs.append(I.BitField(name, I.Bits[tuple(sl)], d))
            if f.get("size"):
                return I.PositionalBitFieldListContainer(f["n"] * 8, fs)
            return I.BitFields(*fs)
        if k == "lazy":
            return I.Lazy(*[self.field(g, c) for g in f["fs"]])
        if k == "grp":
            return FieldListContainer([self.field(g, c) for g in f["fs"]])
        raise Misuse(k)

    def build_class(self, c):
        s = self.sch["c"][c - 1]
        base = s.get("base", 0)
        bases = (self.cls[base - 1],) if base else (I.Struct,)
        ns = {}
        if base and s.get("inherit"):
            fs = None
        elif base and s.get("skip", 0):
            fs = bases[0]._fields_
            fs = (list(fs) if isinstance(fs, (list, tuple)) else [fs]) + [self.field(f, c) for f in s["fs"][s["skip"]:]]
        else:
            fs = [self.field(f, c) for f in s["fs"]]
        if fs is not None:
            if len(fs) == 1 and s.get("bare") and isinstance(fs[0], FieldListContainer):
                fs = fs[0]
            ns["_fields_"] = tuple(fs) if s.get("tuple") else fs
        if s["cx"] >= 0 and not s.get("cxi"):
            ns["_context_"] = {"ver": s["cx"]}
        if s["init"]["on"] and not s.get("initi"):
            init = ns["__init__"] = self.make_init(s)
        cl = type(I.Struct)("C%d" % c, bases, ns)
        if s["init"]["on"] and not s.get("initi"):
            init.__globals__["C"] = cl
        return cl

    def make_init(self, s):
        ask = ["f%d" % a if a > 0 else "x%d" % -a for a in s["init"]["ask"]]
        args = ", ".join("%s=None" % a for a in ask)
        star = "*, " if s["init"].get("kwonly") and ask else ""
        sup = {0: "pass", 1: "super(C, self).__init__(**kw)", 2: "super(C, self).__init__()"}[s["init"].get("sup", 1)]
        src = "def __init__(self, %s%s**kw):\n  amid()\n  %s\n  self._got_ = FREEZE([%s])\n" % (star, args + ", " if ask else "", sup, ", ".join(ask))
        ns = {"amid": amid, "FREEZE": lambda v: self.dec(self.enc(v))}      # what was received, as it was then
        exec(src, ns)
        return ns["__init__"]

    # -- operations
    def at(self, v, path):
        for x in path:
            if type(v) in self.cls:
                n = len(self.sch["c"][self.cls.index(type(v))]["lv"])
                v = getattr(v, "f%d" % x) if x <= n else getattr(v, "_got_", None)
            elif isinstance(v, list):
                v = v[x - 1]
            else:
                raise InstructError("nothing there")
        return v

    def aside(self, o, ver, busy=[]):
        """Everything an object can do."""
        if busy:
            return None
        busy.append(1)
        r = []
        try:
            for f in (lambda: type(o).sizeof(o), lambda: type(o).write_to_string(o, *() if ver < 0 else (ctx(ver, 1),)),
                      lambda: self.enc(type(o).create_from_string(r[1], *() if ver < 0 else (ctx(ver, 0),))), lambda: repr(o), lambda: self.enc(o)):
                try:
                    r.append(f())
                except Exception:
                    r.append(ERR)
        finally:
            busy.pop()
        return r

    def apply(self, e):
        if e.get("re") not in self.o:
            return self.apply1(e)
        o, ver, bad = self.o[e["re"]], e.get("rever", -1), []
        want = self.aside(o, ver)

        def f():
            got = self.aside(o, ver)
            if got is not None and got != want:
                bad.append(got)
        AMID[0] = f
        try:
            r = self.apply1(e)
        except Exception:
            r = ERR
        finally:
            AMID[0] = None
        return V("mismatch") if bad else r

    def apply1(self, e):
        op = e["op"]
        st = e.get("s", 0)
        c = ctx(e.get("ver", -1), st)
        ca = () if c is None else (c,)
        if op == "new":
            kw = {}
            for a in e["kw"]:
                kw["f%d" % a["x"] if a["x"] > 0 else "x%d" % -a["x"]] = self.dec(a["v"])
            self.o[e["o"]] = self.cls[e["c"] - 1](*[self.dec(v) for v in e["pos"]], **kw)
            return OK
        if op == "de":
            cl = self.cls[e["c"] - 1]
            d = by(e["d"])
            self.o.pop(e["o"], None)
            k = st // 8 % 4
            if k == 0:
                r = cl.create_from_string(d, *ca)
            elif k == 1:
                r = cl.create_from_string(array("B", d), *ca)
            elif k == 2:
                r = cl.create_from_stream(io.BytesIO(d), *ca)
            else:
                r = cl.create_from_stream(ReadOnlyStream(d), *ca)
            self.o[e["o"]] = r
            return OK
        if op in ("get", "set", "app", "ser", "part", "size", "rep", "wr", "cuts") and e["o"] not in self.o:
            raise InstructError("no such object")
        if op == "cuts":
            o = self.o[e["o"]]
            d = type(o).write_to_string(o, *ca)
            r = []
            for j in range(len(d) + 1) if len(d) <= 64 else [k * len(d) // 32 for k in range(33)]:
                try:
                    if (j + st) % 2:
                        x = type(o).create_from_string(d[:j], *ca)
                    else:
                        x = type(o).create_from_stream(ReadOnlyStream(d[:j]), *ca)
                    self.enc(x)
                    r.append(1)
                except Exception:
                    r.append(0)
            return V("list", (), [enc_int(x) for x in r])
        if op == "get":
            return self.enc(self.at(self.o[e["o"]], e["path"]))
        if op == "set":
            h = self.at(self.o[e["o"]], e["path"][:-1])
            x = e["path"][-1]
            v = self.dec(e["v"])
            if type(h) in self.cls:
                n = len(self.sch["c"][self.cls.index(type(h))]["lv"])
                if x > n:
                    raise InstructError("no such field")
                setattr(h, "f%d" % x, v)
            elif isinstance(h, list):
                h[x - 1] = v
            else:
                raise InstructError("nothing there")
            return OK
        if op == "app":
            self.at(self.o[e["o"]], e["path"]).append(self.dec(e["v"]))
            return OK
        if op == "ser":
            o = self.o[e["o"]]
            k = st // 8 % 4
            if k == 0 and e["ver"] < 0:
                return enc(o.to_bytes())
            if k == 1:
                return enc(type(o).write_to_string(o, *ca))
            if k == 2:
                f = io.BytesIO()
                o.write_to_stream(o, f, *ca)
                return enc(f.getvalue())
            f = WriteOnlyStream()
            type(o).write_to_stream(o, f, *ca)
            return enc(f.data)
        if op == "part":
            o = self.o[e["o"]]
            f = WriteOnlyStream()
            try:
                type(o).write_to_stream(o, f, *ca)
            except Exception:
                pass
            return enc(f.data)
        if op == "size":
            o = self.o[e["o"]]
            return enc(type(o).sizeof(o) if st % 2 else o.sizeof(o))
        if op == "rep":
            o = self.o[e["o"]]
            r = repr(o) if st % 2 else type(o).to_repr(o, *ca)
            return OK if isinstance(r, str) and type(o).__name__ in r else V("other", [])
        if op == "wr":
            o = self.o[e["o"]]
            f = WriteOnlyStream()
            type(o).write_to_stream(o, f, *ca)
            self.w += f.data
            return OK
        if op == "raw":
            self.w += by(e["d"])
            return OK
        if op == "open":
            self.r = (io.BytesIO if e["s"] % 2 else ReadOnlyStream)(self.w)
            return OK
        if op == "rd":
            self.o.pop(e["o"], None)
            self.o[e["o"]] = self.cls[e["c"] - 1].create_from_stream(self.r, *ca)
            return OK
        if op == "left":
            return enc(self.r.read(1 << 20))
        if op == "mm":
            return self.mm(self.cls[e["c"] - 1].min_max_sizeof())
        if op in ("mmf", "fix"):
            cl = self.cls[e["c"] - 1]
            fl = cl._fields_[e["j"] - 1] if isinstance(cl._fields_, (list, tuple)) else cl._fields_
            return self.mm(fl.min_max_sizeof()) if op == "mmf" else enc(bool(fl.is_fixed_size()))
        if op in ("mser", "msize", "mde", "mmm"):
            m = self.marshal(e["m"])
            if op == "mmm":
                return self.mm(m.min_max_sizeof())
            if op == "mser":
                return enc(m.write_to_string(self.dec(e["v"]), *ca))
            if op == "msize":
                return enc(m.sizeof(self.dec(e["v"])))
            f = io.BytesIO(by(e["d"]))
            r = V("list", (), [self.enc(m.create_from_stream(f, *ca)), enc(f.tell())])
            if self.enc(m.create_from_string(by(e["d"]), *ca)) != r["k"][0]:
                return V("mismatch")        # from a string and from a stream
            return r
        if op == "nobytes":
            d = {0: "abc" * 20, 1: bytearray(60), 2: 5, 3: None}[st % 4]
            (self.cls[e["c"] - 1] if st % 8 < 4 else I.UBInt8).create_from_string(d)
            return OK
        raise Misuse(op)

    def mm(self, r):
        return V("list", (), [enc(r[0]), enc(r[1])])


def fresh(sch):
    return World(sch)


# ---------------------------------------------------------------------------
# Random subjects and histories

def has_kind(sch, kinds):
    def walk(x):
        if isinstance(x, dict):
            if x.get("k") in kinds and isinstance(x.get("k"), str):
                return True
            return any(walk(y) for y in x.values())
        if isinstance(x, list):
            return any(walk(y) for y in x)
        return False
    return walk(sch["c"])


class Maker(object):
    """Makes types, classes and values."""

    def __init__(self, rnd, prof, sch=None):
        self.big = 0
        self.rnd = rnd
        self.prof = prof
        self.sch = sch or {"c": []}
        self.w = dict(dict(num=10, flt=1, cnum=1, pstr=3, vstr=3, farr=2, varr=2, sarr=1, map=1, struct=3, sel=1, fsel=1,
                           anon=1, const=1, opt=2, bits=2, pbits=1, lazy=1, grp=.3, ptr=3), **WEIGHTS.get(prof, {}))

    # sizes (None: varies)
    def size(self, m):
        k = m["k"]
        if k in ("num", "flt", "pad", "pstr"):
            return m["n"]
        if k == "cnum":
            return 1
        if k == "ptr":
            return 0
        if k == "farr":
            s = self.size(m["el"])
            return None if s is None else s * m["n"]
        if k == "map":
            return self.size(m["m"])
        if k == "struct":
            return self.csize(m["c"])
        return None

    def fsize(self, f):
        k = f["k"]
        if k in ("fld", "const", "anon"):
            return self.size(f["m"])
        if k == "bits":
            return sum(b["w"] for b in f["s"]) // 8
        if k in ("pbits", "lazy"):
            return f["n"]
        if k == "grp":
            return self.fssize(f["fs"])
        return None

    def fssize(self, fs):
        t = [self.fsize(f) for f in fs]
        return None if None in t else sum(t)

    def csize(self, c):
        return self.fssize(self.sch["c"][c - 1]["fs"])

    def least(self, m):
        k = m["k"]
        if self.size(m) is not None:
            return self.size(m)
        if k in ("vstr", "varr", "sarr"):
            return self.size(m["sz"])
        if k == "farr":
            return m["n"] * self.least(m["el"])
        if k == "struct":
            return self.cleast(m["c"])
        if k in ("sel", "fsel"):
            return min(self.cleast(c) for c in [c for _, c in m["map"]] + ([m["def"]] if m["def"] else []))
        raise Misuse(k)

    def fleast(self, f):
        if self.fsize(f) is not None:
            return self.fsize(f)
        if f["k"] in ("fld", "const"):
            return self.least(f["m"])
        if f["k"] == "opt":
            return 0
        if f["k"] == "grp":
            return sum(self.fleast(g) for g in f["fs"])
        raise Misuse(f["k"])

    def cleast(self, c):
        return sum(self.fleast(f) for f in self.sch["c"][c - 1]["fs"])

    # types
    def num(self, unsigned=False, sizes=(1, 1, 2, 4, 8)):
        r = self.rnd
        e = r.choice("BLN")
        return {"k": "num", "n": r.choice(sizes), "sg": False if unsigned else r.random() < .5, "be": e == "B", "e": e,
                "raw": r.random() < .3}

    def sizer(self, leaves):
        r = self.rnd
        pts = [x for x, l in leaves if l.get("size")]
        if pts and r.random() < self.w["ptr"] / 10.0:
            return {"k": "ptr", "x": r.choice(pts)}
        if r.random() < self.w["cnum"] / 20.0:
            return {"k": "cnum", "n": 1}
        return self.num(True, (1, 1, 1, 2, 4))

    def pad(self):
        r = self.rnd
        return r.choice([[0], [0], [32], [65], [32, 0], [66, 65]]), r.choice([1, 1, 2, 2, 0, 3])

    def fixed(self, depth):
        r = self.rnd
        ks = ["num", "num", "flt", "cnum", "pstr", "map", "farr"]
        cs = [c for c in range(1, len(self.sch["c"]) + 1) if self.csize(c) is not None]
        if cs and depth < 3:
            ks += ["struct", "struct"]
        ks = [k for k in ks if self.w.get(k, 0) > 0] or ["num"]
        k = r.choice(ks)
        if k == "struct":
            return {"k": "struct", "c": r.choice(cs)}
        if k == "farr":
            el = self.fixed(depth + 1)
            n = r.choice([0, 1, 2, 3])
            return {"k": "farr", "n": self.long(n) if el["k"] == "num" and el["n"] < 3 else n, "el": el}
        return self.simple(k, [])

    def long(self, n, p=.02):
        """Now and then, more than anybody expects."""
        if self.rnd.random() < p and self.big < 1:
            self.big += 1
            return self.rnd.choice([17, 33, 65, 130, 255, 256, 257, 300])
        return n

    def simple(self, k, leaves):
        r = self.rnd
        if k == "num":
            return self.num()
        if k == "flt":
            e = r.choice("BLN")
            return {"k": "flt", "n": r.choice([4, 8]), "be": e == "B", "e": e, "raw": r.random() < .3}
        if k == "cnum":
            return {"k": "cnum", "n": 1}
        if k in ("pstr", "vstr"):
            pad, d = self.pad()
            buf = d == 0
            m = {"k": k, "pad": [] if buf and r.random() < .8 else pad, "dir": d, "buf": buf}
            if m["pad"]:
                m["buf"] = False
            if k == "pstr":
                m["n"] = self.long(r.choice([0, 1, 2, 3, 4, 6, 9]))
            else:
                m["sz"] = self.sizer(leaves)
            return m
        if k == "map":
            m = r.choice([self.num(sizes=(1, 2)), self.num(), {"k": "pstr", "n": 2, "pad": [], "dir": 0, "buf": True}])
            n = r.randint(1, 4)
            vals = []
            while len(vals) < n:
                v = self.val(m, True)
                if v not in vals:
                    vals.append(v)
            keys = r.sample([enc(x) for x in ["a", "b", "cc", "", 5, 6, -1, b"x", b""]], n)
            return {"k": "map", "pairs": [[a, b] for a, b in zip(keys, vals)], "m": m}
        raise Misuse(k)

    def type(self, depth, leaves):
        r = self.rnd
        nc = len(self.sch["c"])
        ks = [k for k in ("num", "flt", "cnum", "pstr", "vstr", "map")]
        if depth < 3:
            ks += ["farr", "varr", "sarr"]
            if nc:
                ks += ["struct", "sel", "fsel"]
        k = pick(r, [(self.w[k], k) for k in ks])
        if k in ("num", "flt", "cnum", "pstr", "vstr", "map"):
            return self.simple(k, leaves)
        if k == "struct":
            return {"k": "struct", "c": r.randint(1, nc)}
        if k == "farr":
            el = self.padding(.04) or self.type(depth + 1, leaves)
            n = r.choice([0, 1, 2, 3])
            return {"k": "farr", "n": self.long(n) if el["k"] == "num" and el["n"] < 3 and depth == 0 else n, "el": el}
        if k in ("varr", "sarr"):
            for _ in range(20):
                el = self.padding(.06) or self.type(depth + 1, leaves)
                if k == "sarr" and self.prof == "S05" and r.random() < .12:
                    el = self.simple("vstr", leaves)
                if self.least(el) > 0:
                    return {"k": k, "sz": self.sizer(leaves), "el": el}
            return self.num()
        if k == "sel":
            return self.selector()
        return self.function(leaves)

    def padding(self, p):
        """Elements nobody's value decides."""
        r = self.rnd
        return {"k": "pad", "n": r.choice([1, 1, 2, 3]), "ch": r.choice([0, 0, 32, 255])} if r.random() < p else None

    def selector(self):
        """A key is looked at, so that the classes begin with it."""
        r = self.rnd
        vs = [c for c, x in enumerate(self.sch["c"], 1) if x.get("key") is not None]
        if not vs:
            return self.num()
        key = self.sch["c"][vs[0] - 1]["keym"]
        mp = []
        for c in vs:
            if all(self.sch["c"][c - 1]["key"] != a for a, _ in mp) and (not mp or r.random() < .8):
                mp.append([self.sch["c"][c - 1]["key"], c])
        d = r.choice(vs + list(range(1, len(self.sch["c"]) + 1))) if r.random() < .4 else 0
        return {"k": "sel", "key": key, "map": mp, "def": d}

    def function(self, leaves):
        r = self.rnd
        nc = len(self.sch["c"])
        cs = [r.randint(1, nc) for _ in range(r.randint(1, 3))]
        m = {"k": "fsel", "f": r.choice(["by", "by", "look", "look", "ver"]), "x": 0, "n": 0}
        bys = [x for x, l in leaves if l.get("small")]
        if m["f"] == "by" and not bys:
            m["f"] = "look"
        keys = r.sample([0, 1, 2, 3, 4, 65], len(cs))
        m["map"] = [[enc_int(a), c] for a, c in zip(keys, cs)]
        m["def"] = r.randint(1, nc) if r.random() < .5 else 0
        if m["f"] == "by":
            m["x"] = r.choice(bys)
        elif m["f"] == "ver":
            m["n"] = r.choice([1, 2])
            m["map"] = m["map"][:1]
        else:
            m["n"] = r.randint(1, 4)
            m["twice"] = r.random() < .5
        if r.random() < .3:
            lo = min(self.cleast(c) for c in [c for _, c in m["map"]] + ([m["def"]] if m["def"] else []))
            m["mm"] = [r.randint(0, lo), -1]
            m["mmtype"] = r.random() < .5
        return m

    # fields; s is the class being made
    def leaf(self, s, d=None, c=False, **info):
        s["lv"].append({"d": d if d is not None else NONE, "c": c})
        s["info"].append(info)
        return len(s["lv"])

    def leaves(self, s):
        return [(x + 1, i) for x, i in enumerate(s["info"])]

    def default(self, m, p=.35):
        r = self.rnd
        if r.random() >= p or m["k"] == "ptr":
            return NONE
        v = self.val(m, True)
        return v

    def info(self, m):
        return {"size": m["k"] == "num" and not m["sg"] and m["n"] <= 2 or m["k"] == "cnum",
                "small": m["k"] in ("num", "cnum"), "m": m}

    def field(self, s, depth=0, fixed_only=False, no_opt=False):
        r = self.rnd
        w = self.w
        ks = [(sum(w[k] for k in ("num", "flt", "cnum", "pstr", "vstr", "farr", "varr", "sarr", "map", "struct", "sel", "fsel")), "fld"),
              (w["anon"], "anon"), (w["const"], "const"), (w["opt"], "opt"), (w["bits"], "bits"), (w["pbits"], "pbits"),
              (w["lazy"], "lazy"), (w["grp"], "grp"), (w["ptr"] / 6.0, "ptrf")]
        if fixed_only:
            ks = [x for x in ks if x[1] in ("fld", "anon", "const", "bits", "pbits")]
        if depth > 1:
            ks = [x for x in ks if x[1] not in ("lazy", "grp")]
        k = pick(r, ks)
        L = self.leaves(s)
        if k == "fld":
            m = self.fixed(1) if fixed_only else self.type(0, L)
            x = self.leaf(s, self.default(m), **self.info(m))
            return {"k": "fld", "x": x, "m": m, "plain": r.random() < .2}
        if k == "ptrf":
            pts = [x for x, l in L if l.get("size")]
            if not pts:
                return self.field(s, depth, fixed_only)
            x = self.leaf(s, NONE)
            return {"k": "fld", "x": x, "m": {"k": "ptr", "x": r.choice(pts)}, "plain": True}
        if k == "opt":
            m = self.type(0, L)
            bys = [x for x, l in L if l.get("small") or l.get("bit")]
            kind = r.choice(["eq", "ne", "eq", "ne", "ver", "yes", "no"])
            if kind in ("eq", "ne") and not bys:
                kind = "ver"
            pr = {"k": kind}
            if kind in ("eq", "ne"):
                pr["x"] = r.choice(bys)
                pr["v"] = enc_int(r.choice([0, 1, 1, 2]))
            elif kind == "ver":
                pr["n"] = r.choice([1, 2, -1])
            x = self.leaf(s, self.default(m, .15), **{"m": m})
            return {"k": "opt", "x": x, "m": m, "pr": pr}
        if k == "anon":
            return {"k": "anon", "m": {"k": "pad", "n": self.long(r.choice([0, 1, 2, 3, 5])), "ch": r.choice([0, 0, 32, 255])}}
        if k == "const":
            m = self.fixed(1) if fixed_only or r.random() < .6 else self.type(1, [])
            while m["k"] in ("sel", "fsel", "cnum") or self.tight(m):
                m = self.num()
            if self.ctxy(m) or m["k"] == "struct" and self.has_float(m):
                m = self.num()
            v = self.canon(m, self.val(m, True))
            x = self.leaf(s, v, True, m=m)
            return {"k": "const", "x": x, "m": m, "v": v, "st": r.random() < .5}
        if k == "bits":
            total = 8 * (r.choice([1, 1, 2, 3, 4]) if r.random() < .9 else r.choice([5, 6, 8, 9]))
            fs = []
            while total:
                n = min(total, r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 20]))
                total -= n
                if r.random() < .15:
                    fs.append({"x": 0, "w": n, "c": False, "v": NONE})
                    continue
                c = r.random() < .08
                v = enc_int(r.randint(0, 2 ** n - 1))
                x = self.leaf(s, v if c or r.random() < .6 else NONE, c, bit=n, **({} if c else {"size": n <= 4 and r.random() < .5}))
                fs.append({"x": x, "w": n, "c": c, "v": v})
            if all(b["x"] == 0 or b["c"] for b in fs):
                x = self.leaf(s, NONE, bit=8)
                fs += [{"x": x, "w": 8, "c": False, "v": NONE}]
            return {"k": "bits", "s": fs}
        if k == "pbits":
            n = r.choice([1, 2, 2, 3]) if r.random() < .9 else r.choice([4, 5, 6, 9])
            cuts = sorted(set([0, 8 * n] + [r.randint(1, 8 * n - 1) for _ in range(r.randint(0, 5))]))
            segs = [[a, b] for a, b in zip(cuts, cuts[1:])]
            last = segs[-1]
            r.shuffle(segs)
            if not r.random() < .7 and len(segs) > 1:
                segs.remove(r.choice([x for x in segs if x is not last]))
            fs = []
            while segs:
                sl = [segs.pop() for _ in range(min(len(segs), r.choice([1, 1, 2, 3])))]
                wd = sum(b - a for a, b in sl)
                c = r.random() < .06
                v = enc_int(r.randint(0, 2 ** min(wd, 24) - 1))
                x = self.leaf(s, v if c or r.random() < .6 else NONE, c, bit=wd)
                fs.append({"x": x, "sl": sl, "c": c, "v": v, "w": wd})
            if all(b["c"] for b in fs):
                fs[0]["c"] = False
                s["lv"][fs[0]["x"] - 1]["c"] = False
            z = r.random() < .3
            return {"k": "pbits", "n": n + (r.choice([0, 1]) if z else 0), "s": fs, "size": z}
        if k == "lazy":
            n0 = len(s["lv"])
            fs = [self.field(s, depth + 1, fixed_only=True) for _ in range(r.randint(1, 4))]
            xs = [x for x in range(n0 + 1, len(s["lv"]) + 1) if not s["lv"][x - 1]["c"]]
            if not xs:
                m = self.num()
                fs.append({"k": "fld", "x": self.leaf(s, NONE, **self.info(m)), "m": m})
                xs = [len(s["lv"])]
            return {"k": "lazy", "fs": fs, "n": self.fssize(fs), "lv": xs}
        if k == "grp":
            return {"k": "grp", "fs": [self.field(s, depth + 1) for _ in range(r.randint(1, 3))]}
        raise Misuse(k)

    def ctxy(self, m):
        return any(('"%s"' % k) in json.dumps([m, self.deep(m)]) for k in ("ptr", "fsel", "cnum", "sel", "ver"))

    def has_float(self, m):
        return '"flt"' in json.dumps([m, self.deep(m)])

    def deep(self, m):
        """Everything a type refers to."""
        out, todo = [], [m]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                if x.get("k") == "struct" and "c" in x and not isinstance(x["c"], bool) and x["c"] not in [o[0] for o in out]:
                    out.append([x["c"], self.sch["c"][x["c"] - 1]["fs"]])
                    todo.append(out[-1][1])
                todo += list(x.values())
            elif isinstance(x, list):
                todo += x
        return out

    def klass(self, nf, base=0):
        r = self.rnd
        s = {"fs": [], "lv": [], "info": [], "cx": r.choice([1, 2, 77]) if r.random() < .15 else -1,
             "init": {"on": 0, "ask": []}}
        if base:
            b = self.sch["c"][base - 1]
            s.update(base=base, skip=len(b["fs"]), fs=list(b["fs"]), lv=[dict(x) for x in b["lv"]], info=[dict(x) for x in b["info"]])
            if b.get("bare"):
                s["inherit"] = True
            if s["cx"] < 0:
                s["cx"] = b["cx"]
                s["cxi"] = True
            if b["init"]["on"]:
                s["init"] = dict(b["init"])
                s["initi"] = True
            if s.get("inherit") or r.random() < .3:
                s["inherit"] = True
                s["skip"] = 0
                nf = 0
            elif r.random() < .1:
                s["skip"] = 0      # declares the base's fields anew
        for _ in range(nf):
            s["fs"].append(self.field(s))
        if not base:
            s["bare"] = len(s["fs"]) == 1 and s["fs"][0]["k"] in ("bits", "pbits", "lazy", "grp") and r.random() < .5
            s["tuple"] = not s["bare"] and r.random() < .0
        if r.random() < self.w.get("init", .05) and not s.get("initi"):
            ask = r.sample(range(1, len(s["lv"]) + 1), min(len(s["lv"]), r.randint(0, 3))) + r.sample([-1, -2], r.randint(0, 2))
            r.shuffle(ask)
            s["init"] = {"on": 1, "ask": ask, "kwonly": r.random() < .2, "sup": r.choice([0, 1, 1, 2])}
        self.sch["c"].append(s)
        return len(self.sch["c"])

    def variant(self, keym, key, const):
        """A class that begins with a key."""
        r = self.rnd
        s = {"fs": [], "lv": [], "info": [], "cx": -1, "init": {"on": 0, "ask": []}, "key": key, "keym": keym}
        if const:
            x = self.leaf(s, key, True, m=keym)
            s["fs"].append({"k": "const", "x": x, "m": keym, "v": key})
        else:
            x = self.leaf(s, key, **self.info(keym))
            s["info"][-1]["key"] = True
            s["fs"].append({"k": "fld", "x": x, "m": keym})
        for _ in range(r.randint(0, 3)):
            s["fs"].append(self.field(s))
        self.sch["c"].append(s)
        return len(self.sch["c"])

    # values
    def val(self, m, good):
        r = self.rnd
        k = m["k"]
        if not good and r.random() < .3:
            return NONE if inner(m)["k"] == "pad" else r.choice([NONE, enc("x"), enc("x") if k != "map" else enc("zz")])
        if k == "num":
            lo, hi = (-2 ** (8 * m["n"] - 1), 2 ** (8 * m["n"] - 1) - 1) if m["sg"] else (0, 2 ** (8 * m["n"]) - 1)
            if not good:
                return r.choice([enc_int(r.choice([lo - 1, hi + 1, lo - r.randint(1, 300), hi + r.randint(1, 2 ** 70), 2 ** 64, -2 ** 63 - 1])),
                                 enc(b"a"), enc(1.5)])
            return enc_int(r.choice([lo, hi, lo + 1, hi - 1, 0, 1, min(hi, 127), min(hi, 128), r.randint(lo, hi), r.randint(lo, hi),
                                     min(hi, r.choice([1, 2, 3, 4, 0x0102, 0x01020304]))]))
        if k == "cnum":
            return enc_int(r.randint(0, 255) if good else r.choice([256, -1]))
        if k == "flt":
            if not good:
                return r.choice([enc(b"ab"), enc("1.0"), enc(1e300 if m["n"] == 4 else "x"), enc(-3.5e38 if m["n"] == 4 else b"")])
            if r.random() < .2:
                return enc_int(r.choice([0, 1, -1, 255, -4096, 1000003]))
            x = r.choice([0.0, -0.0, 1.0, -1.5, 0.1, 1e-40, 1e-45, 5e-324, 3.4e38, 16777217.0, r.uniform(-100, 100),
                          struct.unpack(">f", struct.pack(">I", r.getrandbits(31) & 0x7f7fffff))[0], 2.0 ** r.randint(-150, 120)] +
                         ([float("inf"), float("-inf"), float("nan")] if self.prof == "S01" else []))
            return enc(x)
        if k in ("pstr", "vstr"):
            if k == "pstr":
                n = m["n"]
                ln = n if m["dir"] == 0 else r.choice([0, n, n, max(0, n - 1), r.randint(0, n)])
                if not good:
                    ln = r.choice([n + 1, n + 3, max(0, n - 1)])
            else:
                ln = r.choice([0, 1, 2, 3, 5, 8])
                if m["sz"]["k"] == "num" and r.random() < .04:
                    ln = r.choice([254, 255, 256 if not good else 255]) if m["sz"]["n"] == 1 else r.choice([255, 256, 300, 512, 700, 1000])
            al = [0, 32, 65, 66, 97, 255] if r.random() < .6 else [97, 98, 99, 200]
            b = [r.choice(al) for _ in range(ln)]
            if not good and k == "pstr" and m["dir"] and ln > m["n"]:
                b[0] = b[-1] = 99
            return V("bytes", b)
        if k == "farr":
            n = m["n"]
            if not good and r.random() < .5:
                n = r.choice([n + 1, max(0, n - 1)])
            return V("list", (), [self.val(m["el"], good or r.random() < .7) for _ in range(n)])
        if k in ("varr", "sarr"):
            n = r.choice([0, 1, 1, 2, 2, 3, 4])
            if self.prof in ("S05", "S04") and m["sz"]["k"] == "num" and m["sz"]["n"] == 1 and self.size(m["el"]) in (1, 2) and r.random() < .04:
                n = r.choice([127, 128, 255, 256] if not good else [127, 100])
            return V("list", (), [self.val(m["el"], good or r.random() < .7) for _ in range(n)])
        if k == "map":
            if not good:
                return r.choice([enc("zz"), enc_int(99)])
            return r.choice(m["pairs"])[0]
        if k == "struct":
            return self.obj(m["c"], good)
        if k == "sel":
            c = r.choice([c for _, c in m["map"]] + ([m["def"]] if m["def"] else []))
            return self.obj(c, good, m)
        if k == "fsel":
            return self.obj(r.choice([c for _, c in m["map"]] + ([m["def"]] if m["def"] else [])), good)
        return NONE

    def slots(self, c):
        """leaf -> (kind, what decides its value)"""
        out = {}

        def walk(fs):
            for f in fs:
                k = f["k"]
                if k in ("fld", "const", "opt"):
                    out[f["x"]] = f
                elif k in ("bits", "pbits"):
                    for b in f["s"]:
                        if b["x"]:
                            out[b["x"]] = dict(b, k="bit")
                elif k in ("lazy", "grp"):
                    walk(f["fs"])
        walk(self.sch["c"][c - 1]["fs"])
        return out

    def tight(self, m):
        """may hold more bytes than its count can say"""
        return m["k"] == "sarr" and m["sz"].get("n") == 1 or "el" in m and self.tight(m["el"])

    def canon(self, m, v):
        """v as it is read back"""
        if m["k"] in ("pstr", "vstr") and v["t"] == "bytes":
            return V("bytes", list(strip(v["i"], m["dir"], m["pad"])))
        if m["k"] in ("farr", "varr", "sarr") and v["t"] == "list":
            return V("list", (), [self.canon(m["el"], x) for x in v["k"]])
        return v

    def leafval(self, f, good):
        r = self.rnd
        if f["k"] == "bit":
            if not good and r.random() < .4:
                return r.choice([NONE, enc("q"), enc(b"q")])
            w = f["w"]
            return enc_int(r.choice([0, 1, 2 ** w - 1, r.randint(0, 2 ** w - 1), r.randint(0, 2 ** w - 1)] +
                                    ([2 ** w, 2 ** w + 1, -1, r.randint(-2 ** 40, 2 ** 40)] if r.random() < .3 else [])))
        return self.val(f["m"], good)

    def obj(self, c, good, sel=None):
        """A value for each leaf; good: one that can be written and, mostly, is what reading gives."""
        r = self.rnd
        s = self.sch["c"][c - 1]
        sl = self.slots(c)
        bad = r.choice(sorted(sl)) if not good and sl else 0
        k = []
        for x, l in enumerate(s["lv"], 1):
            if l["c"]:
                k.append(l["d"])
            elif s["info"][x - 1].get("key") and r.random() < .9:
                k.append(s["key"])
            else:
                k.append(self.leafval(sl[x], x != bad))
        for x in sorted(sl):      # make counts, choices and optional fields agree
            f = sl[x]
            m = f.get("m", {})
            if r.random() < .12:
                if f["k"] == "opt" and r.random() < .6:
                    k[x - 1] = NONE
                continue
            if f["k"] == "opt":
                p = f["pr"]
                holds = {"yes": True, "no": False, "ver": p.get("n") == s["cx"]}.get(p["k"])
                if holds is None:
                    holds = (k[p["x"] - 1] == p["v"]) == (p["k"] == "eq")
                if not holds:
                    k[x - 1] = NONE
            if k[x - 1]["t"] != "none" or f["k"] != "opt":
                self.agree(s, sl, k, m, x)
        o = V("obj", [c], k)
        return V("obj", [c], k + [self.got(s, k)])

    def agree(self, s, sl, k, m, x):
        """Sets the leaf that says the length or class of leaf x."""
        if m.get("k") == "ptr":
            return
        v = k[x - 1]
        z = m.get("sz", {})
        if z.get("k") == "ptr" and not s["lv"][z["x"] - 1]["c"]:
            n = None
            if v["t"] == "bytes":
                n = len(strip(v["i"], m["dir"], m["pad"]))
            elif v["t"] == "list" and m["k"] == "varr":
                n = len(v["k"])
            elif v["t"] == "list" and self.size(m["el"]) is not None:
                n = len(v["k"]) * self.size(m["el"])
            t = sl[z["x"]]
            if n is not None and n < (256 if t["k"] != "bit" else 2 ** t["w"]):
                k[z["x"] - 1] = enc_int(n)
        if m.get("k") == "fsel" and m["f"] == "by" and v["t"] == "obj" and not s["lv"][m["x"] - 1]["c"]:
            for a, c in m["map"]:
                if c == v["i"][0]:
                    k[m["x"] - 1] = a

    def got(self, s, k):
        if not s["init"]["on"]:
            return NONE
        return V("list", (), [k[a - 1] if a > 0 and not s["lv"][a - 1]["c"] else NONE for a in s["init"]["ask"]])


def inner(m):
    return inner(m["el"]) if "el" in m else m


def strip(b, d, pad):
    b = list(b)
    while d in (1, 3) and b and b[-1] in pad:
        b.pop()
    while d in (2, 3) and b and b[0] in pad:
        b.pop(0)
    return b


ONLY = dict(num=0, flt=0, cnum=0, pstr=0, vstr=0, farr=0, varr=0, sarr=0, map=0, struct=0, sel=0, fsel=0,
            anon=0, const=0, opt=0, bits=0, pbits=0, lazy=0, grp=0, ptr=0)
WEIGHTS = {
    "S01": dict(ONLY, num=10, flt=4, cnum=.1),
    "S02": {},
    "S03": dict(farr=3, varr=3, sarr=3, vstr=4, opt=3),
    "S04": dict(pstr=14, vstr=14, num=3, ptr=5, farr=1, varr=1, sarr=.5, opt=1, struct=1),
    "S05": dict(farr=8, varr=10, sarr=10, num=6, struct=5, vstr=4, ptr=5),
    "S06": dict(bits=14, pbits=10, num=3, lazy=1),
    "S07": dict(const=14, num=6, lazy=2),
    "S08": dict(opt=16, num=6),
    "S09": dict(lazy=14, map=4, const=4, struct=5),
    "S10": dict(sel=10, fsel=10, struct=2),
    "S11": dict(flt=2),
    "S12": dict(init=.4, struct=5, farr=4, varr=4),
    "S13": dict(ptr=8, cnum=6, map=6, struct=6, fsel=4, varr=4, sarr=2, vstr=4, opt=2),
}


def gen_sch(rnd, prof):
    g = Maker(rnd, prof)
    if prof in ("S10", "S13", "S02", "S03", "S11") and rnd.random() < (.9 if prof == "S10" else .25):
        km = rnd.choice([g.num(sizes=(1, 2)), g.num(sizes=(1, 2)), {"k": "pstr", "n": 2, "pad": [], "dir": 0, "buf": True},
                         {"k": "cnum", "n": 1}])
        ks = []
        for _ in range(rnd.randint(1, 3)):
            v = enc_int(rnd.choice([0, 1, 2, 3, 100])) if km["k"] != "pstr" else V("bytes", [rnd.choice([65, 66]), rnd.choice([65, 66])])
            if v not in ks:
                ks.append(v)
                g.variant(km, v, km["k"] != "cnum" and rnd.random() < .4)
    n = rnd.randint(1, 3) if rnd.random() < .92 else rnd.randint(4, 5)
    for j in range(n):
        base = 0
        if g.sch["c"] and rnd.random() < (.45 if prof == "S12" else .12):
            cand = [c for c in range(1, len(g.sch["c"]) + 1) if g.sch["c"][c - 1].get("key") is None]
            base = rnd.choice(cand) if cand else 0
        g.klass(rnd.choice([1, 1, 2, 2, 3, 4, 6]), base)
    return g.sch


def slim(sch):
    """Without what only the generator needs."""
    return {"c": [dict((k, v) for k, v in c.items() if k not in ("info", "key", "keym")) for c in sch["c"]]}


def objects(v, path=()):
    """Every (path, value) inside a value."""
    yield list(path), v
    for j, x in enumerate(v["k"], 1):
        for y in objects(x, path + (j,)):
            yield y


def gen_for(rnd, prof, sch):
    """(Now and then something else happens in the middle of an operation.)"""
    g = gen_of(rnd, prof, sch)
    other = random.Random(repr(sch))
    lazy = has_kind(sch, ("lazy",))
    try:
        e = next(g)
        while True:
            if e["op"] in ("new", "de", "ser", "part", "size", "rep", "wr", "rd", "cuts") and other.random() < (.5 if prof in ("S12", "S13") else .1):
                e["re"] = other.choice([1, 1, 2, 3, 4, e.get("o", 1)])
                if lazy and e["re"] == e.get("o"):        # which may be half decoded at that point
                    e["re"] = e["re"] % 4 + 1
                e["rever"] = other.choice([-1, e.get("ver", -1), 1, 2])
            r = yield e
            e = g.send(r)
    except StopIteration:
        pass


def gen_of(rnd, prof, sch):
    g = Maker(rnd, prof, sch)
    nc = len(sch["c"])
    flt = has_kind(sch, ("flt",))
    last = {}         # object -> class
    val = {}          # object -> last seen value
    data = []         # (class, ver, bytes) seen
    vers = rnd.choice([[-1], [-1, -1, 1], [-1, 1, 2, 77]])
    vers = [-1, -1, 1, 2] if prof in ("S13", "S08", "S10") and rnd.random() < .6 else vers
    main = nc if rnd.random() < .8 else rnd.randint(1, nc)

    def ver():
        return rnd.choice(vers)

    def s():
        return rnd.randint(0, 47)

    def cls():
        return main if rnd.random() < .75 else rnd.randint(1, nc)

    def new(o, c, good=None):
        if good is None:
            good = rnd.random() < .85
        v = g.obj(c, good)
        sc = sch["c"][c - 1]
        kw = []
        mode = rnd.random()
        for x, l in enumerate(sc["lv"], 1):
            if l["c"]:
                if rnd.random() < .05:
                    kw.append({"x": x, "v": enc_int(3)})
            elif mode < .75 or rnd.random() < .5:
                if not (v["k"][x - 1] == NONE and rnd.random() < .7):
                    kw.append({"x": x, "v": v["k"][x - 1]})
        pos = []
        if sc["init"]["on"] == 1:
            ask = sc["init"]["ask"]
            for a in ask:
                if a < 0 and rnd.random() < .5:
                    kw.append({"x": a, "v": enc_int(rnd.randint(0, 9))})
            if not sc["init"].get("kwonly") and rnd.random() < .3:
                n = rnd.randint(0, len(ask))
                if not any(k["x"] in ask[:n] for k in kw):
                    pos = [enc_int(rnd.randint(0, 9)) for _ in range(n)]
        last[o] = c
        val.pop(o, None)
        return {"op": "new", "o": o, "c": c, "kw": kw, "pos": pos}

    def mutate(b):
        k = rnd.random()
        if k < .35:
            return list(b)
        if k < .55:
            return b[:rnd.randint(0, len(b))]
        if k < .7 or flt:
            return list(b) + [rnd.randint(0, 255) for _ in range(rnd.randint(1, 4))]
        b = list(b)
        for _ in range(rnd.randint(1, 3)):
            if b:
                b[rnd.randrange(len(b))] = rnd.choice([0, 1, 2, 3, 5, 128, 255, rnd.randint(0, 255)])
        return b

    def types():
        for sc in sch["c"]:
            for f in g.slots(sch["c"].index(sc) + 1).values():
                if "m" in f and f["m"]["k"] != "ptr":
                    yield f["m"]

    if prof == "S01":
        ms = list(types())
        for _ in range(rnd.randint(3, 7)):
            m = rnd.choice(ms)
            k = rnd.random()
            if k < .5:
                yield {"op": "mser", "m": m, "v": g.val(m, rnd.random() < .7), "ver": -1, "s": 1}
            elif k < .9:
                n = m["n"] + rnd.choice([0, 0, 0, 1, 2, -1])
                if m["k"] == "flt":
                    b = list(struct.pack((">" if m["be"] else "<") + ("f" if m["n"] == 4 else "d"),
                                         rnd.choice([0.0, 1.5, -2.5, 1e-40, 1e30, 1e-5, rnd.uniform(-9, 9)])))[:n] + [7] * (n - m["n"])
                else:
                    b = [rnd.choice([0, 1, 127, 128, 255, rnd.randint(0, 255)]) for _ in range(n)]
                yield {"op": "mde", "m": m, "d": b, "ver": -1, "s": 1}
            else:
                yield {"op": "msize", "m": m, "v": g.val(m, True), "s": 0}
                yield {"op": "mmm", "m": m}

    c0 = cls()
    yield new(1, c0)
    r = yield {"op": "get", "o": 1, "path": []}
    if r["t"] == "obj":
        val[1] = r
    if prof == "S12" or rnd.random() < .15:
        yield new(2, c0)
    ops = dict(get=3, set=3, app=1, ser=4, size=2, rep=1, de=4, new=1, part=.5, mm=.3, mmf=.2, fix=.2, cuts=.3, nobytes=.1, msize=.1, mmm=.1)
    ops.update({"S01": dict(part=3, mm=0, cuts=0), "S03": dict(size=6, mm=3, mmf=2, fix=2, msize=2, mmm=2),
                "S11": dict(cuts=6), "S12": dict(set=6, app=4, rep=4, new=3, get=5), "S09": dict(set=5, get=6, de=7, rep=2, size=2, cuts=1)}.get(prof, {}))
    ops = [(w, k) for k, w in sorted(ops.items())]
    for _ in range(rnd.randint(5, 14)):
        k = pick(rnd, ops)
        o = rnd.choice(sorted(last)) if last else 1
        if k == "new":
            yield new(rnd.randint(1, 4), cls())
        elif k in ("set", "app", "get"):
            if o not in val or rnd.random() < .2:
                r = yield {"op": "get", "o": o, "path": []}
                if r["t"] == "obj":
                    val[o] = r
                elif k == "get" or o not in last:
                    continue
                else:      # perhaps not decodable: assign to, or read, a single field
                    c = last[o]
                    sl = g.slots(c)
                    if not sl:
                        continue
                    x = rnd.choice(sorted(sl))
                    if rnd.random() < .5:
                        yield {"op": "get", "o": o, "path": [x]}
                    elif not sch["c"][c - 1]["lv"][x - 1]["c"]:
                        yield {"op": "set", "o": o, "path": [x], "v": g.leafval(sl[x], True)}
                    continue
            ps = list(objects(val[o]))
            if k == "app":
                ps = [p for p in ps if p[1]["t"] == "list" and p[0] and not is_got(sch, val[o], p[0]) and not in_const(sch, val[o], p[0] + [0])]
                if not ps:
                    continue
                p, v = rnd.choice(ps)
                x = rnd.choice(v["k"]) if v["k"] and rnd.random() < .7 else enc_int(rnd.randint(0, 9))
                if x["t"] == "obj" and not usable(sch, x):
                    continue
                yield {"op": "app", "o": o, "path": p, "v": x}
                val.pop(o, None)
            elif k == "get":
                yield {"op": "get", "o": o, "path": rnd.choice(ps)[0]}
            else:
                ps = [p for p in ps if p[0] and not is_got(sch, val[o], p[0]) and not in_const(sch, val[o], p[0])]
                if not ps:
                    continue
                p, v = rnd.choice([q for q in ps if len(q[0]) == 1] if rnd.random() < .5 else ps)
                h = at(val[o], p[:-1])
                if h["t"] == "obj":
                    c = h["i"][0]
                    f = g.slots(c)[p[-1]]
                    x = f["v"] if f["k"] == "const" and rnd.random() < .5 else g.leafval(f, rnd.random() < .85)
                    if f["k"] == "opt" and rnd.random() < .4:
                        x = NONE
                    if f.get("m", {}).get("k") == "ptr":
                        x = enc_int(1)
                else:
                    x = v if rnd.random() < .3 else rnd.choice(h["k"])
                    if x["t"] == "int" and rnd.random() < .7:
                        x = enc_int(rnd.randint(0, 100))
                if x["t"] == "obj" and not usable(sch, x):
                    continue
                yield {"op": "set", "o": o, "path": p, "v": x}
                val.pop(o, None)
        elif k == "ser":
            v = ver()
            r = yield {"op": "ser", "o": o, "ver": v, "s": s()}
            if r["t"] == "bytes" and o in last:
                data.append((last[o], v, r["i"]))
        elif k in ("size", "rep"):
            yield {"op": k, "o": o, "s": s(), "ver": -1}
        elif k == "part":
            yield {"op": k, "o": o, "s": s(), "ver": ver()}
        elif k == "cuts":
            yield {"op": k, "o": o, "s": s(), "ver": ver()}
        elif k == "de":
            if data and (flt or rnd.random() < .85):
                c, v, b = rnd.choice(data)
                b = mutate(b)
                if rnd.random() < .15 and not flt:
                    v = ver()
            elif flt:
                continue
            else:
                c, v = cls(), ver()
                b = [rnd.choice([0, 1, 1, 2, 3, 65, 255, rnd.randint(0, 255)]) for _ in range(rnd.randint(0, 24))]
            o = rnd.randint(1, 4)
            last[o] = c
            val.pop(o, None)
            r = yield {"op": "de", "o": o, "c": c, "d": b, "ver": v, "s": s()}
            if r["t"] != "err" and rnd.random() < .6:
                r = yield {"op": rnd.choice(["get", "get", "ser"]), "o": o, "path": [], "ver": v, "s": s()}
                if r["t"] == "obj":
                    val[o] = r
        elif k == "mm":
            yield {"op": "mm", "c": rnd.randint(1, nc)}
        elif k in ("mmf", "fix"):
            c = rnd.randint(1, nc)
            if sch["c"][c - 1]["fs"]:
                yield {"op": k, "c": c, "j": rnd.randint(1, len(sch["c"][c - 1]["fs"]))}
        elif k in ("msize", "mmm"):
            ms = [m for m in types()]
            if ms:
                m = rnd.choice(ms)
                e = {"op": k, "m": m, "s": s()}
                if k == "msize":
                    e["v"] = g.val(m, True)
                yield e
        elif k == "nobytes":
            yield {"op": "nobytes", "c": rnd.randint(1, nc), "s": s()}
    # several records in one stream
    if rnd.random() < (.8 if prof in ("S02", "S05", "S10", "S11", "S13") else .35):
        v = ver()
        recs = []
        for _ in range(rnd.randint(1, 3)):
            o = rnd.choice(sorted(last))
            if rnd.random() < .4:
                c = cls()
                o = 4
                yield new(4, c, True)
            r = yield {"op": "wr", "o": o, "ver": v, "s": s()}
            if r["t"] == "ok":
                recs.append(last[o])
            if rnd.random() < .15:
                yield {"op": "raw", "d": [rnd.randint(0, 3) for _ in range(rnd.randint(0, 3))]}
                break
        yield {"op": "open", "s": s()}
        for c in recs:
            o = rnd.randint(1, 3)
            last[o] = c
            r = yield {"op": "rd", "o": o, "c": c, "ver": v, "s": s()}
            if r["t"] != "ok":
                break
            if rnd.random() < .8:
                yield {"op": "get", "o": o, "path": []}
        else:
            yield {"op": "left"}
    for o in sorted(last):
        yield {"op": "get", "o": o, "path": []}


def at(v, path):
    for x in path:
        v = v["k"][x - 1]
    return v


def is_got(sch, v, path):
    """Whether the path leads into what a constructor received."""
    for x in path:
        if v["t"] == "obj" and x > len(sch["c"][v["i"][0] - 1]["lv"]):
            return True
        v = v["k"][x - 1]
    return False


def in_const(sch, v, path):
    """Whether the path leads into (not to) the value of a constant."""
    for x in path[:-1]:
        if v["t"] == "obj" and sch["c"][v["i"][0] - 1]["lv"][x - 1]["c"]:
            return True
        v = v["k"][x - 1]
    return False


def usable(sch, x):
    """Whether constructing this object gives this value (what a constructor receives may differ)."""
    if x["t"] == "obj":
        s = sch["c"][x["i"][0] - 1]
        n = len(s["lv"])
        if s["init"]["on"]:
            if x["k"][n] != V("list", (), [x["k"][a - 1] if a > 0 and not s["lv"][a - 1]["c"] else NONE for a in s["init"]["ask"]]):
                return False
    return all(usable(sch, y) for y in x["k"])

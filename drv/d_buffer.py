"""Buffer classes (spec: Buffer.tla)."""
from common import *
from infi.instruct.buffer.buffer import Buffer, BufferType
from infi.instruct.buffer.io_buffer import BitView
from infi.instruct.buffer import macros as M
from infi.instruct.buffer.reference import Reference

NESTED_X = 3
NO = {"k": "no"}
YES = {"k": "yes"}
ENC = {"ascii": "ascii", "latin-1": "latin-1", "utf-8": "utf-8"}


def fname(n):
    return "f%02d" % n


class World(object):
    def __init__(self, sch):
        self.sch = sch["c"]
        self.classes = {}
        self.errors = {}
        self.counts = {}
        self.o = {}
        self.other = self.busy = None       # what happens to another object meanwhile
        for j in range(1, len(self.sch) + 1):
            r = outcome(self.build, j)
            if isinstance(r, dict):
                self.errors[j] = r

    # -- classes
    def all_fields(self, c):
        return self.sch[c - 1]["fs"]

    def own(self, c):
        n = sum(len(self.all_fields(b)) for b in self.sch[c - 1]["base"])
        fs = self.all_fields(c)
        return fs[:len(fs) - n]

    def count(self, key):
        if self.busy:
            return
        self.counts[key] = self.counts.get(key, 0) + 1

    def build(self, c):
        s = self.sch[c - 1]
        bases = tuple(self.classes[b] for b in s["base"]) or (Buffer,)
        own = dict((f["n"], f) for f in self.own(c))
        made, making = {}, set()
        main = c == len(self.sch)

        def inherited(n):
            for b in bases:
                for k in b.mro():
                    if fname(n) in k.__dict__:
                        return k.__dict__[fname(n)]

        def field(n):
            if n not in own:
                return inherited(n)
            if n not in made:
                if n in making:
                    return None
                making.add(n)
                made[n] = self.field(c, own[n], expr, main)
                making.discard(n)
            return made[n]

        calcs = []          # what the method calc of this class calculates
        uses = dict((n, names_in(own[n])) for n in own)

        def reach(n, seen):
            if n not in seen and n in own and n not in made:
                seen.add(n)
                for m in uses[n]:
                    reach(m, seen)
            return seen

        def ref(e):
            """A reference to another field: the field itself or, for fields defined later, its name."""
            if not e.get("self") and not (reach(e["f"], set()) & making):
                return field(e["f"])

        def expr(e):
            k = e["k"]
            if k == "c":
                return e["n"]
            if k == "x":
                return M.num_ref(M.self_ref.extra)
            if k == "mf":
                def get(obj, e=e):
                    if main:
                        self.count(("mf", id(get)))
                    self.meanwhile()
                    return obj.extra + e["n"]
                how = (e["n"] + len(made)) % 4
                if how < 2:
                    return M.num_ref(M.member_func_ref(get))
                calcs.append(get)           # a method of the class, called by name
                return M.num_ref(getattr(M.self_ref, "calc%d" % c)(len(calcs) - 1, e["n"]) if how == 2 else
                                 getattr(M.self_ref, "calc%d" % c)(more=M.num_ref(M.self_ref.extra), which=len(calcs) - 1))
            if k == "fld":
                f = ref(e)
                if f is None:
                    return M.num_ref(getattr(M.self_ref, fname(e["f"])))
                return f if f.is_numeric() else M.num_ref(f)
            if k == "copy":
                f = ref(e)
                return f if f is not None else getattr(M.self_ref, fname(e["f"]))
            if k == "len":
                f = ref(e)
                return M.len_ref(f if f is not None else fname(e["f"]) if e.get("self") == 2 else getattr(M.self_ref, fname(e["f"])))
            if k == "after":
                f = field(e["f"])
                if f is None:
                    raise Misuse("after_ref of a field that is not made yet")
                return M.after_ref(f)
            if k == "total":
                return M.total_size
            if k == "inlen":
                return M.input_buffer_length
            if k == "op":
                a, b = expr(e["a"]), expr(e["b"])
                if not isinstance(a, Reference) and not isinstance(b, Reference):
                    a = Reference.to_ref(a)
                return OPS[e["o"]](a, b)
            if k == "neg":
                a = expr(e["a"])
                return -(a if isinstance(a, Reference) else Reference.to_ref(a))
            if k == "min":
                return M.min_ref(*[expr(x) for x in e["l"]])
            if k == "max":
                return M.max_ref(*[expr(x) for x in e["l"]])
            raise Misuse(k)

        def calc(obj, which, more):
            r = calcs[which](obj)
            if more not in (obj.extra, r - obj.extra):
                raise Misuse("calc %r" % (more,))
            return r

        order = [f["n"] for f in self.own(c)]
        random.Random(repr(order)).shuffle(order)
        attrs = {"extra": NESTED_X, "__module__": "gen", "calc%d" % c: calc}
        for n in order:
            attrs[fname(n)] = field(n)
        if s["size"] >= 0:
            attrs["byte_size"] = s["size"] // 8 if s["size"] % 8 == 0 else s["size"] / 8.0
        self.classes[c] = BufferType("C%d" % c, bases, attrs)

    def position(self, p, expr):
        k = p["k"]
        if k == "ix":
            return M.bytes_ref[expr(p["n"])]
        if k == "sl":
            lo = None if p["lo"]["k"] == "no" else expr(p["lo"])
            hi = None if p["hi"]["k"] == "no" else expr(p["hi"])
            return M.bytes_ref[lo:hi]
        if k == "lst":
            keys = []
            for q in p["l"]:
                if q["k"] == "ix":
                    keys.append(expr(q["n"]))
                elif q["k"] == "sl":
                    keys.append(slice(None if q["lo"]["k"] == "no" else expr(q["lo"]), None if q["hi"]["k"] == "no" else expr(q["hi"])))
                else:
                    raise Misuse("list of " + q["k"])
            return M.bytes_ref[tuple(keys)] if p.get("via") else M.bytes_ref[keys]
        if k == "add":
            return self.position(p["a"], expr) + self.position(p["b"], expr)
        if k == "bits":
            return self.position(p["p"], expr).bits[bit_key(p["key"])]
        raise Misuse(k)

    def field(self, c, f, expr, main):
        ty, kw = f["ty"], {}
        if f["pu"]["k"] == "same":
            kw["where"] = self.position(f["p"], expr)
        else:
            kw["where_when_pack"] = self.position(f["p"], expr)
            kw["where_when_unpack"] = self.position(f["pu"], expr)
        s = f["sbp"]
        if s["k"] == "const":
            kw["set_before_pack"] = self.value(s["v"])
        elif s["k"] == "ref":
            e = expr(s["e"])
            kw["set_before_pack"] = e
        elif s["k"] == "fn":
            kw["set_before_pack"] = self.obj_fn(s, (f["n"], "sbp") if main else None)
        s = f["sau"]
        if s["k"] == "ref":
            kw["set_after_unpack"] = Reference.to_ref(expr(s["e"]))
        elif s["k"] == "fn":
            kw["set_after_unpack"] = self.val_fn(s["g"], (f["n"], "sau") if main else None)
        for name, q in (("pack_if", f["pif"]), ("unpack_if", f["uif"])):
            if q["k"] == "const":
                kw[name] = bool(q["n"])
            elif q["k"] == "e":
                kw[name] = expr(q["e"])
        if f["ua"]:
            need = [self.need(n, expr) for n in f["ua"]]
            kw["unpack_after"] = need[0] if len(need) == 1 else need
        if f["d"]["t"] != "none":
            kw["default"] = self.value(f["d"])
        k = ty["k"]
        if k == "int":
            if ty["sz"] >= 0:
                kw["byte_size"] = ty["sz"] // 8 if ty["sz"] % 8 == 0 else ty["sz"] / 8.0
            return int_macro(ty, f["n"])(**kw)
        if k == "flt":
            if ty["sz"] >= 0:
                kw["byte_size"] = ty["sz"] // 8
            return M.float_field(endian="big" if ty["be"] else ["little", "native"][f["n"] % 2], **kw)
        if k == "str":
            return M.str_field(encoding=ty["enc"], padding=bytes([ty["pad"]]), strip=bytes(ty["strip"]),
                               justify=("left", "right", "center")[ty["just"]], **kw)
        if k == "json":
            return M.json_field(**kw)
        if k == "ba":
            return M.bytearray_field(**kw)
        if k == "buf":
            if f["n"] % 2:          # of no consequence
                kw["byte_size"] = self.classes[ty["c"]].byte_size or 3
            return M.buffer_field(type=self.classes[ty["c"]], unpack_selector=self.selector(ty["sel"], False), **kw)
        if k == "list":
            if ty["n"]["k"] != "no":
                kw["n"] = expr(ty["n"]["e"])
            el = ty["el"]
            if el["k"] == "int":
                t = int_type(el, f["n"])
            elif el["k"] == "str":
                t = M.str_type_factory(encoding=el["enc"], padding=bytes([el["pad"]]), strip=bytes(el["strip"]),
                                       justify=("left", "right", "center")[el["just"]], byte_size=el["sz"] // 8)
            else:
                t = self.classes[el["c"]]
            return M.list_field(type=t, unpack_selector=self.selector(ty["sel"], True), **kw)
        raise Misuse(k)

    def need(self, n, expr):
        f = expr({"k": "copy", "f": n})
        if type(f).__name__ != "FieldReference":
            raise Misuse("unpack_after of a field that is not made yet")
        return f

    def obj_fn(self, s, key):
        g = s["g"]

        def fn(obj):
            if key:
                self.count(key)
            self.meanwhile()
            if g == "const":
                return s["n"]
            if g == "x":
                return obj.extra + s["n"]
            a = getattr(obj, fname(s["f"]))
            return (len(a) if g == "len" else a) + s["n"]
        return fn

    def val_fn(self, g, key):
        def fn(v):
            if key:
                self.count(key)
            self.meanwhile()
            if g == "wrap":
                return [v]
            if g == "dbl":
                if not isinstance(v, int):
                    raise TypeError()
                return v * 2
            return v[::-1]
        return fn

    def selector(self, sel, in_list):
        if sel["k"] == "no":
            return None

        def select(obj, buffer, *args, **kw):
            self.meanwhile()
            if in_list and kw["index"] != len(kw["container"]):
                raise ValueError("index")
            n = getattr(obj, fname(sel["f"])) + sel["ki"] * (kw["index"] if in_list else 0)
            if sel["kb"] and len(buffer):
                n += sel["kb"] * buffer[0]
            ch = sel["ch"][n % len(sel["ch"])]
            if ch["k"] == "cls":
                return self.classes[ch["c"]]
            if ch["k"] == "none":
                return None
            d = buffer[0:ch["n"]].to_bytes()
            return d, len(d)
        return select

    # -- values
    def value(self, v):
        t = v["t"]
        if t == "obj":
            o = self.classes[v["i"][0]]()
            for f, x in zip(self.all_fields(v["i"][0]), v["k"]):
                setattr(o, fname(f["n"]), self.value(x))
            return o
        if t == "bytes":
            return bytearray(v["i"])
        if t == "list":
            return [self.value(x) for x in v["k"]]
        if t == "dict":
            return dict((dec(v["k"][j]), self.value(v["k"][j + 1])) for j in range(0, len(v["k"]), 2))
        if t == "bool":
            return bool(v["i"][0])
        return dec(v)

    def enc(self, v):
        def obj(x):
            for c, k in self.classes.items():
                if type(x) is k:
                    return self.obj(c, x)
        return enc(v, obj)

    def whole(self, c, f, seen=()):
        """Whether the field holds whole numbers: one of its own, or a copy of another's."""
        s = f["sau"]
        if s["k"] == "ref" and s["e"]["k"] in ("copy", "fld") and f["n"] not in seen:
            return all(self.whole(c, g, seen + (f["n"],)) for g in self.all_fields(c) if g["n"] == s["e"]["f"])
        return f["ty"]["k"] == "int"

    def attr(self, c, f, v):
        """A whole number in a number field is a number, however it is represented."""
        if type(v) is float and abs(v) < 1e9 and v == int(v) and f["ty"]["k"] == "int" and self.whole(c, f):
            v = int(v)
        return json_enc(v) if f["ty"]["k"] == "json" else self.enc(v)

    def obj(self, c, x):
        return V("obj", [c], [self.attr(c, f, getattr(x, fname(f["n"]))) for f in self.all_fields(c)])

    def data(self, e):
        b = bytes(e["b"])
        a = bytearray(b)
        return [(b, None), (a, a), (BitView(b), None), (BitView(b"\xa5" + b + b"\x5a", 1, len(b) + 1), None),
                (BitView(a), a)][e.get("via", 0) % 5]

    def bits(self, n):
        if n is None:
            return NONE
        m = n * 8
        return enc_int(int(m)) if m == int(m) else V("other")

    def aside(self, c, vs):
        """Everything an object can do."""
        a, b = self.classes[c](), self.classes[c]()
        for f, v in zip(self.all_fields(c), vs["k"]):
            setattr(a, fname(f["n"]), self.value(v))
        r = []

        def tell(fn):
            try:
                r.append(fn())
            except Exception:
                r.append(ERR)
        tell(a.calc_byte_size)
        tell(a.pack)
        if r[-1] is not ERR:
            tell(lambda: b.unpack(bytes(r[-1])))
        tell(lambda: self.obj(c, a))
        tell(lambda: self.obj(c, b))
        return r

    def meanwhile(self):
        """In the middle of an operation, called by it, the user does something else."""
        if self.other and not self.busy:
            self.busy = True
            try:
                if self.aside(self.other[0], self.other[1]) != self.other[2]:
                    self.other[3] = True
            finally:
                self.busy = None

    def apply(self, e):
        if e.get("re") not in self.o:
            return self.apply1(e)
        c, o = self.o[e["re"]]
        self.busy = True
        try:
            vs = self.obj(c, o)
            self.other = [c, vs, self.aside(c, vs), False]
        except Exception:
            self.other = None
        finally:
            self.busy = None
        try:
            r = self.apply1(e)
        except Exception:
            r = ERR
        finally:
            bad, self.other = self.other and self.other[3], None
        return V("mismatch") if bad else r

    def apply1(self, e):
        op = e["op"]
        if op == "new":
            self.o.pop(e["o"], None)
            c = e["c"]
            if c in self.errors:
                return self.errors[c]
            kw = {}
            for a in e["kw"]:
                kw[fname(a["f"]) if a["f"] else "nosuch"] = self.value(a["v"])
            self.o[e["o"]] = (c, self.classes[c](**kw))
            return OK
        if op == "csize":
            if e["c"] in self.errors:
                return self.errors[e["c"]]
            return self.bits(self.classes[e["c"]].byte_size)
        if op == "calls":
            return enc_int(max([1] + list(self.counts.values())))
        if e["o"] not in self.o:
            return ERR
        c, o = self.o[e["o"]]
        if op in ("get", "set", "mut"):
            f = [f for f in self.all_fields(c) if f["n"] == e["f"]]
            if not f:
                return ERR
            f = f[0]
            n = fname(e["f"])
            if op == "get":
                return self.attr(c, f, getattr(o, n))
            if op == "set":
                setattr(o, n, self.value(e["v"]))
                return OK
            v = getattr(o, n)
            if isinstance(v, (list, bytearray)):
                v.append(99)
            elif isinstance(v, bytes):
                setattr(o, n, v + b"c")
            elif isinstance(v, dict):
                v["~"] = 99
            elif isinstance(v, Buffer):
                fs = [x for k, t in self.classes.items() if type(v) is t for x in self.all_fields(k)]
                if fs:
                    setattr(v, fname(fs[0]["n"]), 99)
            return OK
        if op == "all":
            return V("list", (), self.obj(c, o)["k"])
        if op == "setx":
            o.extra = e["n"]
            return OK
        self.counts.clear()
        if op == "pack":
            r = o.pack()
            v = self.enc(r) if isinstance(r, (bytes, bytearray)) else V("other")
            scribble(r)
            return v
        if op == "size":
            return self.bits(o.calc_byte_size())
        if op == "unpack":
            data, own = self.data(e)
            try:
                return self.bits(o.unpack(data))
            finally:
                scribble(own)
        raise Misuse(op)


def json_enc(v):
    """In JSON true is not 1."""
    if isinstance(v, bool):
        return V("bool", [int(v)])
    if isinstance(v, list):
        return V("list", (), [json_enc(x) for x in v])
    if isinstance(v, dict):
        return V("dict", (), [y for k, x in sorted(v.items()) for y in (enc(k), json_enc(x))])
    return enc(v)


JW = World({"c": []})


def scribble(a):
    """The caller's buffers are the caller's: what is written into them afterwards is of no concern to the object."""
    if isinstance(a, bytearray):
        for j in range(len(a)):
            a[j] ^= 0x5b


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
       "floordiv": lambda a, b: a // b, "le": lambda a, b: a <= b, "lt": lambda a, b: a < b,
       "ge": lambda a, b: a >= b, "gt": lambda a, b: a > b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


def bit_key(key):
    k = key["k"]
    if k == "ix":
        return key["n"]
    if k == "sl":
        return slice(None if key["lo"] < 0 else key["lo"], None if key["hi"] < 0 else key["hi"])
    return [bit_key(x) for x in key["l"]]


def names_in(x):
    """Fields an expression, or anything made of expressions, names."""
    if isinstance(x, list):
        return set().union(*[names_in(y) for y in x]) if x else set()
    if isinstance(x, dict):
        return names_in(list(x.values())) | set(x.get("ua", ())) | (set([x["f"]]) if isinstance(x.get("f"), int) else set())
    return set()


def int_macro(ty, n):
    """The same kind of field has several spellings."""
    sg, be = ty["sg"], ty["be"]
    if n % 2:
        if be:
            return M.be_int_field if sg else M.be_uint_field
        return M.le_int_field if sg else M.le_uint_field

    def mk(**kw):
        if be:
            kw["endian"] = "big"
        elif n % 4:
            kw["endian"] = "little"
        if not sg and n % 3:
            return M.uint_field(**kw)
        return M.int_field(sign="signed" if sg else "unsigned", **kw)
    return mk


def int_type(ty, n):
    if ty["sz"] not in (8, 16, 32, 64):
        return M.int_marshal(ty["sz"] // 8 if ty["sz"] % 8 == 0 else ty["sz"] / 8.0, "signed" if ty["sg"] else "unsigned",
                             "big" if ty["be"] else ["little", "native"][n % 2])
    name = ("b_" if ty["be"] else ["l_", "n_", ""][n % 3]) + ("" if ty["sg"] else "u") + "int%d" % ty["sz"]
    return getattr(M, name)


def fresh(sch):
    return World(sch)


# ---------------------------------------------------------------------------------------------------- generation
def C(n):
    return {"k": "c", "n": n}


def op(o, a, b):
    if a["k"] == "c" and b["k"] == "c" and o in ("add", "sub", "mul"):
        return C({"add": a["n"] + b["n"], "sub": a["n"] - b["n"], "mul": a["n"] * b["n"]}[o])
    if o == "add" and b["k"] == "c" and b["n"] == 0:
        return a
    return {"k": "op", "o": o, "a": a, "b": b}


def add(a, n):
    return op("add", a, n if isinstance(n, dict) else C(n))


def sl(lo, hi=None):
    return {"k": "sl", "lo": lo if lo is not None else dict(NO), "hi": hi if hi is not None else dict(NO)}


def INT(sg, be, sz=-1):
    return {"k": "int", "sg": sg, "be": be, "sz": sz}


UINT1 = INT(False, False, 8)
STR0 = {"k": "str", "enc": "ascii", "pad": 32, "strip": [0], "just": 0}


def flat(p):
    return flat(p["a"]) + flat(p["b"]) if p["k"] == "add" else [p]


class Gen(object):
    """Makes one class: blocks of fields, each beginning where the one before ends."""

    def __init__(self, rnd, prof, out, deep=0):
        self.r, self.prof, self.out, self.deep = rnd, prof, out, deep
        self.names = list(range(1, 60))
        rnd.shuffle(self.names)
        self.fs = []
        self.cur = C(0)
        self.closed = False         # an open field was placed: nothing can follow
        self.budget = 12 if deep == 0 else 5
        self.reads = []             # fields a number can be read from: (name, largest)

    def chance(self, p):
        return self.r.random() < p

    def fld(self, n, kind="fld"):
        e = {"k": kind, "f": n}
        if kind != "after" and self.chance(.4):
            e["self"] = self.r.choice([1, 2]) if kind == "len" else 1
        return e

    def field(self, ty, p, n=None, h=None, **kw):
        f = dict(n=n or self.names.pop(), ty=ty, p=p, pu={"k": "same"}, sbp=NO, sau=NO, pif=YES, uif=YES, ua=[], d=NONE, h=h or {})
        f.update(kw)
        self.fs.append(f)
        return f

    # -- positions
    def place(self, n, spread=.3):
        """Where n bytes may lie: the next n bytes, perhaps in pieces and not in order. Advances."""
        r, lo = self.r, self.cur
        gap = r.choice([0, 0, 0, 1, 2]) if self.prof in ("B02", "B03") else 0
        lo = add(lo, gap)
        if n == 0:
            p = sl(lo, lo)
        elif n == 1 and self.chance(.5):
            p = {"k": "ix", "n": lo}
        elif n > 1 and self.chance(spread):
            cuts = sorted(r.sample(range(1, n), min(n - 1, r.choice([1, 1, 2]))))
            parts = [(a, b) for a, b in zip([0] + cuts, cuts + [n])]
            hole = 0
            if self.chance(.3):
                hole = r.choice([1, 2])
                parts = [parts[0]] + [(a + hole, b + hole) for a, b in parts[1:]]
            if self.chance(.6):
                r.shuffle(parts)
            ks = [{"k": "ix", "n": add(lo, a)} if b == a + 1 and self.chance(.6) else sl(add(lo, a), add(lo, b)) for a, b in parts]
            if self.chance(.5):
                p = {"k": "lst", "l": ks, "via": r.randint(0, 1)}
            else:
                p = ks[0]
                for k in ks[1:]:
                    p = {"k": "add", "a": p, "b": k}
            n += hole
        elif self.chance(.1):
            p = {"k": "bits", "p": sl(lo, add(lo, n)), "key": {"k": "sl", "lo": 0, "hi": 8 * n}}
        else:
            p = sl(lo, add(lo, n))
            if lo == C(0) and self.chance(.3):
                p["lo"] = dict(NO)
        self.cur = add(lo, n)
        self.budget -= n
        return p

    def leave(self, f):
        """What follows may be told to begin where this field ends."""
        if self.chance(.3 if self.prof == "B06" else .06):
            self.cur = self.fld(f["n"], "after")
        return f

    # -- types
    def num(self, n):
        r = self.r
        if n in (4, 8) and self.chance(.3):
            return {"k": "flt", "be": r.random() < .5, "sz": -1 if self.chance(.8) else 8 * n}
        return INT(self.chance(.5), self.chance(.5), -1 if self.chance(.85) else 8 * n)

    def text(self):
        r = self.r
        if self.prof not in ("B08", "B03", "B10") or self.chance(.3):
            return dict(STR0)
        pad = r.choice([32, 32, 0, 46, 97])
        return {"k": "str", "enc": r.choice(["ascii", "ascii", "latin-1", "utf-8"]), "pad": pad,
                "strip": r.choice([[0], [0], [0, 32], [97], [pad], [46, 0]]), "just": r.choice([0, 0, 0, 1, 1, 1, 2])}

    def element(self):
        r = self.r
        k = r.random()
        leaves = [j for j, c in enumerate(self.out, 1) if not c.get("isbase")]
        if leaves and k < (.6 if self.prof == "B09" else .3):
            return {"k": "buf", "c": r.choice(leaves)}
        if k < .85:
            if self.chance(.2):
                return INT(self.chance(.5), self.chance(.5), r.choice([4, 4, 2, 12, 24, 1, 40, 6]))
            return INT(self.chance(.5), self.chance(.5), r.choice([8, 8, 16, 32, 64]))
        t = self.text()
        t["sz"] = 8 * r.choice([1, 2, 3])
        if t["just"] == 2:
            t["just"] = 0
        return t

    def size_of(self, c):
        """Static size of class c in whole bytes, or None."""
        return self.out[c - 1]["info"]["static"]

    # -- blocks
    def b_num(self):
        n = self.r.choice([1, 1, 2, 2, 4, 4, 8, 3, 3, 5, 6, 7, 9]) if self.prof in ("B01", "B02", "B03") else self.r.choice([1, 2, 4, 3])
        if self.chance(.05 if self.prof == "B01" else .01):
            n = self.r.choice([10, 12, 15, 16, 17, 20, 24, 32, 33])
        ty = self.num(n)
        f = self.field(ty, self.place(n), h={"bits": 8 * n})
        if ty["k"] == "int" and not ty["sg"] and n <= 2:
            self.reads.append(f["n"])
        return self.leave(f)

    def b_bits(self):
        r = self.r
        n = r.choice([1, 1, 1, 2, 2, 3]) if self.chance(.9) else r.choice([4, 5, 6, 9, 12, 17])
        whole = self.place(n, .25)
        if whole["k"] == "bits":
            whole = whole["p"]
        if whole["k"] == "add":
            whole = {"k": "lst", "l": flat(whole), "via": 0}
        total = 8 * n
        cuts = sorted(r.sample(range(1, total), min(total - 1, r.choice([1, 2, 2, 3]))))
        parts = [(a, b) for a, b in zip([0] + cuts, cuts + [total])]
        fields = []
        while parts:
            a = parts.pop(r.randrange(len(parts)))
            if self.chance(.15):
                continue            # nobody's bits
            pieces = [a]
            while parts and self.chance(.2):
                pieces.append(parts.pop(r.randrange(len(parts))))
            fields.append(pieces)
        for pieces in fields:
            keys = [{"k": "ix", "n": a} if b == a + 1 and self.chance(.6) else
                    {"k": "sl", "lo": -1 if a == 0 and self.chance(.3) else a, "hi": -1 if b == total and self.chance(.3) else b} for a, b in pieces]
            if len(keys) == 1:
                p = {"k": "bits", "p": whole, "key": keys[0]}
            elif self.chance(.5):
                p = {"k": "bits", "p": whole, "key": {"k": "lst", "l": keys}}
            else:
                p = {"k": "bits", "p": whole, "key": keys[0]}
                for k in keys[1:]:
                    p = {"k": "add", "a": p, "b": {"k": "bits", "p": whole, "key": k}}
            w = sum(b - a for a, b in pieces)
            if w >= 7 and self.chance(.25):     # something else that does not begin where a byte does
                if w in (32, 64) and self.chance(.6):
                    ty, h = {"k": "flt", "be": self.chance(.5), "sz": -1}, {"bits": w}
                elif w % 8 == 0 and self.chance(.5):
                    ty, h = self.text(), {"n": w // 8}
                else:
                    ty, h = {"k": "ba"}, {"n": (w + 7) // 8}
                self.field(ty, p, h=h)
                continue
            sg = self.chance(.7) if w not in (8, 16, 32) else self.chance(.5)
            f = self.field(INT(sg, self.chance(.4)), p, h={"bits": w})
            if w <= 12 and (not sg or w not in (8, 16)):
                self.reads.append(f["n"])

    def long(self, n):
        """Now and then, more than anybody expects."""
        if self.deep == 0 and self.chance(.025):
            self.budget = 0
            return self.r.choice([17, 33, 65, 130, 255, 256, 257, 300])
        return n

    def b_text(self):
        n = self.long(self.r.choice([1, 2, 3, 4, 5]))
        ty = self.text() if self.chance(.75) or self.prof == "B01" else {"k": "json"}
        if ty["k"] == "json":
            n = self.r.choice([4, 6, 9])
        self.leave(self.field(ty, self.place(n), h={"n": n}))

    def b_bytes(self):
        n = self.long(self.r.choice([1, 2, 3, 4]))
        self.leave(self.field({"k": "ba"}, self.place(n), h={"n": n}))

    def b_list(self):
        el = self.element()
        w = el["sz"] // 8 if el["k"] != "buf" else self.size_of(el["c"])
        if el["k"] == "int" and el["sz"] % 8:       # elements that share bytes
            n = 8 // math.gcd(el["sz"], 8) * self.r.choice([1, 1, 2])
            cnt = NO if self.chance(.5) else {"k": "e", "e": C(n)}
            return self.field({"k": "list", "el": el, "n": cnt, "sel": NO}, self.place(n * el["sz"] // 8, .1), h={"n": n * el["sz"] // 8, "cnt": n})
        if not w:
            return self.b_var()
        n = self.long(self.r.choice([1, 2, 3])) if w < 5 else 1
        cnt = NO if self.chance(.5) else {"k": "e", "e": C(n)}
        self.field({"k": "list", "el": el, "n": cnt, "sel": NO}, self.place(n * w, .1), h={"n": n * w, "cnt": n})

    def b_buf(self):
        leaves = [j for j, c in enumerate(self.out, 1) if not c.get("isbase") and self.size_of(j)]
        if not leaves:
            return self.b_num()
        c = self.r.choice(leaves)
        n = self.size_of(c)
        self.field({"k": "buf", "c": c, "sel": NO}, self.place(n, .1), h={"n": n})

    def payload(self, bounded=True):
        """A type whose size its value decides; and by how much its length counts."""
        r = self.r
        k = r.random()
        if k < .3:
            t = dict(STR0, strip=r.choice([[0], [0], [32]]))
            return t, 1
        if k < .55:
            return {"k": "ba"}, 1
        el = self.element()
        w = el["sz"] // 8 if el["k"] != "buf" else self.size_of(el["c"])
        if el["k"] == "str" and not w or el["k"] == "int" and el["sz"] % 8:
            return {"k": "ba"}, 1
        if w:
            return {"k": "list", "el": el, "n": NO, "sel": NO}, w
        return {"k": "list", "el": el, "n": NO, "sel": NO}, None

    def uint(self, n=1, **kw):
        return self.field(INT(False, self.chance(.5)), self.place(n, 0), h=dict(bits=8 * n, **kw.pop("h", {})), **kw)

    def b_var(self):
        """A length and, somewhere after it, as many bytes."""
        r = self.r
        if self.chance(.15):
            return self.b_len_bits()
        lf = self.uint(r.choice([1, 1, 1, 2]))
        if self.chance(.4) and self.budget > 3:
            self.b_num()
        ty, w = self.payload()
        name = self.names.pop()
        if w is None:               # elements of varying size: how many there are
            ty["n"] = {"k": "e", "e": self.fld(lf["n"])}
            lf["sbp"] = {"k": "ref", "e": self.fld(name, "len")}
            self.field(ty, sl(self.cur), n=name)
            self.closed = True
            return
        extra, mul = r.choice([0, 0, 0, 1, 2]), r.choice([1, 1, 1, 2])
        ln, size = self.fld(name, "len"), self.fld(lf["n"])
        if mul > 1:
            ln, size = op("mul", ln, C(mul)), op("floordiv", size, C(mul))
        if extra:
            ln, size = add(ln, extra), op("sub", size, C(extra))
        if w > 1:
            size = op("mul", size, C(w))
        s = r.random()
        if s < .6:
            lf["sbp"] = {"k": "ref", "e": ln}
        elif s < .85:
            if mul > 1 or extra:
                size = self.fld(lf["n"])
                if w > 1:
                    size = op("mul", size, C(w))
            lf["sbp"] = {"k": "fn", "g": "len", "f": name, "n": 0}
        else:
            size = self.fld(lf["n"])
            if w > 1:
                size = op("mul", size, C(w))
            lf["h"]["lenof"] = name
        lo = self.cur
        p = sl(lo, add(lo, size))
        f = self.field(ty, p, n=name)
        if self.chance(.2):
            f["p"], f["pu"] = sl(lo), p
        if ty["k"] == "list" and self.chance(.3):
            ty["n"] = {"k": "e", "e": op("floordiv", size, C(w)) if w > 1 else size}
        self.cur = r.choice([add(lo, size), self.fld(name, "after")]) if self.chance(.7) else self.fld(name, "after")
        self.budget -= 3

    def b_pieces(self):
        """As many bytes as a number says, and some more, in pieces that need not be in order."""
        r = self.r
        lf = self.uint()
        name = self.names.pop()
        k = r.choice([1, 1, 2, 3])
        size = self.fld(lf["n"])
        lo = self.cur
        parts = [sl(lo, add(lo, k)), sl(add(lo, k), add(add(lo, k), size))]
        if self.chance(.4):
            parts = [sl(lo, add(lo, size)), sl(add(lo, size), add(add(lo, size), k))]
        if self.chance(.6):
            parts.reverse()
        if self.chance(.6):
            lf["sbp"] = {"k": "ref", "e": op("sub", self.fld(name, "len"), C(k))}
        else:
            lf["sbp"] = {"k": "fn", "g": "len", "f": name, "n": 0 - k}
        f = self.field({"k": "ba"} if self.chance(.6) else dict(STR0), {"k": "lst", "l": parts, "via": 0} if self.chance(.5) else
                       {"k": "add", "a": parts[0], "b": parts[1]}, n=name, h={"n": k + r.choice([0, 1, 2, 3])})
        self.cur = self.fld(name, "after") if self.chance(.7) else add(add(lo, k), size)
        self.budget -= k + 2
        return f

    def b_split(self):
        """A fixed place when packing; as much of it as a number says when unpacking."""
        r = self.r
        lf = self.uint()
        name = self.names.pop()
        k = r.choice([1, 2, 3, 4])
        s = r.random()
        if s < .4:
            lf["sbp"] = {"k": "const", "v": enc_int(r.choice([k, k, k - 1]))}
        elif s < .7:
            lf["sbp"] = {"k": "ref", "e": self.fld(name, "len")}
        else:
            lf["h"]["lenof"] = name
        lo = self.cur
        p = sl(lo, add(lo, k))
        f = self.field({"k": "ba"} if self.chance(.5) else dict(STR0), p, n=name, h={"n": k})
        f["pu"] = sl(lo, add(lo, self.fld(lf["n"])))
        if self.chance(.15):
            f["p"], f["pu"] = f["pu"], f["p"]
        self.cur = self.fld(name, "after") if self.chance(.3) else add(lo, k)
        self.budget -= k

    def b_len_bits(self):
        """A length in some bits."""
        base = self.cur
        self.cur = add(self.cur, 1)
        w = self.r.choice([3, 4, 5])
        a = self.r.randint(0, 8 - w)
        name = self.names.pop()
        lf = self.field(INT(False, False), {"k": "bits", "p": {"k": "ix", "n": base}, "key": {"k": "sl", "lo": a, "hi": a + w}},
                        h={"bits": w}, sbp={"k": "ref", "e": self.fld(name, "len")})
        if a > 1:
            self.field(INT(False, False), {"k": "bits", "p": {"k": "ix", "n": base}, "key": {"k": "sl", "lo": 0, "hi": a}}, h={"bits": a})
        lo = self.cur
        self.field({"k": "ba"} if self.chance(.5) else dict(STR0), sl(lo, add(lo, self.fld(lf["n"]))), n=name)
        self.cur = self.fld(name, "after")
        self.budget -= 3

    def b_total(self):
        """A number that says how large the object is."""
        f = self.uint()
        e = {"k": "total"}
        if self.chance(.4):
            e = op("sub", e, C(self.r.choice([0, 1])))
        if self.chance(.1):
            e = op("mul", e, C(2))
        f["sbp"] = {"k": "ref", "e": e}

    def b_until(self):
        """Total size, and a field that ends there."""
        f = self.uint(sbp={"k": "ref", "e": {"k": "total"}})
        ty = {"k": "ba"} if self.chance(.5) else dict(STR0)
        if self.chance(.3):
            self.b_num()
        g = self.field(ty, sl(self.cur))
        g["pu"] = sl(self.cur, self.fld(f["n"]))
        self.closed = True

    def b_computed(self):
        r = self.r
        f = self.uint(r.choice([1, 1, 2]))
        k = r.random()
        if k < .2:
            f["sbp"] = {"k": "const", "v": enc_int(r.choice([0, 1, 200]))}
        elif k < .3:
            f["sbp"] = {"k": "fn", "g": r.choice(["const", "x"]), "f": 0, "n": r.choice([0, 7])}
        elif k < .5 and self.reads:
            f["sbp"] = {"k": "fn", "g": "val", "f": r.choice(self.reads), "n": r.choice([0, 1])}
        else:
            f["sbp"] = {"k": "ref", "e": self.number(2)}
        self.reads.append(f["n"])

    def number(self, depth):
        """An expression over what is there."""
        r = self.r
        k = r.random()
        if depth == 0 or k < .25:
            c = [C(r.choice([0, 1, 2, 3]))]
            if self.reads:
                c += [self.fld(r.choice(self.reads))] * 3
            if self.chance(.3):
                c += [{"k": "x"}, {"k": "mf", "n": r.choice([0, 2])}]
            if len(self.fs) > 1 and self.chance(.3):
                c += [self.fld(r.choice(self.fs[:-1])["n"], "after")]
            ls = [f["n"] for f in self.fs if f["ty"]["k"] in ("str", "ba", "list")]
            if ls and self.chance(.5):
                c += [self.fld(r.choice(ls), "len")] * 2
            return r.choice(c)
        if k < .7:
            return {"k": "op", "o": r.choice(["add", "add", "sub", "mul", "floordiv", "le", "lt", "ge", "gt", "eq", "ne"]),
                    "a": self.number(depth - 1), "b": self.number(depth - 1)}
        if k < .75:
            return {"k": "neg", "a": {"k": "neg", "a": self.number(depth - 1)}}
        return {"k": r.choice(["min", "max"]), "l": [self.number(depth - 1) for _ in range(r.choice([2, 2, 3]))]}

    def condition(self):
        r = self.r
        k = r.random()
        if k < .08:
            return {"k": "const", "n": r.randint(0, 1)}
        if k < .2:
            return {"k": "e", "e": r.choice([{"k": "x"}, {"k": "mf", "n": -3}])}
        n = self.r.choice(self.reads) if self.reads else self.uint(h={"flag": 1})["n"]
        e = self.fld(n)
        if k < .5:
            return {"k": "e", "e": e}
        return {"k": "e", "e": {"k": "op", "o": r.choice(["eq", "ne", "gt", "le", "lt", "ge"]), "a": e, "b": C(r.choice([0, 1, 1, 2]))}}

    def b_cond(self):
        r = self.r
        if not self.reads or self.chance(.4):
            f = self.uint(h={"flag": 1})
            self.reads.append(f["n"])
        q = self.condition()
        k = len(self.fs)
        cur = self.cur
        reads = list(self.reads)
        getattr(self, r.choice(["b_num", "b_text", "b_bytes", "b_list", "b_buf", "b_var" if self.budget > 2 else "b_num"]))()
        self.reads = reads
        for f in self.fs[k:]:
            f["pif"] = f["uif"] = q
        if self.chance(.15):
            for f in self.fs[k:]:
                f["uif"] = self.condition()
        moves = r.random()
        if moves < .25 and q["k"] == "e" and q["e"]["k"] == "op" and not self.closed and self.cur["k"] == "c" and cur["k"] == "c":
            self.cur = add(cur, op("mul", q["e"], C(self.cur["n"] - cur["n"])))
        elif moves < .4 and q["k"] == "e" and not self.closed and self.cur["k"] == "c" and cur["k"] == "c":
            # the other field, in the same place
            e = q["e"]
            notq = {"k": "e", "e": {"k": "op", "o": "eq", "a": e, "b": C(0)}}
            n = self.cur["n"] - cur["n"]
            self.field({"k": "ba"}, sl(cur, self.cur), h={"n": n}, pif=notq, uif=notq)
        elif self.cur["k"] != "c" and not self.closed:
            self.closed = True      # what follows would have to know whether it is there
        return

    def b_open(self):
        r = self.r
        ty, w = self.payload(False)
        if self.chance(.2):
            t = self.text()
            ty = dict(t, just=0) if self.chance(.5) else {"k": "json"}
        elif self.chance(.25):
            leaves = [j for j, c in enumerate(self.out, 1) if not c.get("isbase")]
            if leaves:
                ty = {"k": "buf", "c": r.choice(leaves), "sel": NO}
        elif self.chance(.15):
            ty = ({"k": "flt", "be": self.chance(.5), "sz": r.choice([-1, 32, 64])} if self.chance(.5) else
                  dict(INT(self.chance(.5), self.chance(.5)), sz=r.choice([-1, 8, 16, 24, 32, 64])))
        if ty["k"] == "list" and self.chance(.4):
            ty["n"] = {"k": "e", "e": self.fld(r.choice(self.reads)) if self.reads and self.chance(.7) else C(r.choice([0, 1, 2]))}
        if ty["k"] in ("ba", "str") and self.chance(.2):
            # ends before the end of the input
            self.uint() if self.chance(.3) else None
            lo = self.cur
            f = self.field(ty, sl(lo))
            f["pu"] = sl(lo, op("sub", {"k": "inlen"}, C(1)))
            self.field(INT(False, False), {"k": "ix", "n": self.fld(f["n"], "after")}, h={"bits": 8})
            self.closed = True
            return
        p = sl(self.cur)
        if self.chance(.15):
            p = {"k": "add", "a": sl(self.cur, add(self.cur, 1)), "b": sl(add(self.cur, r.choice([1, 2])))}
        f = self.field(ty, p)
        self.closed = True
        if ty["k"] in ("buf",) or (ty["k"] == "list" and ty["n"]["k"] != "no"):
            if self.chance(.6):     # something after a field that knows its own end
                self.cur = self.fld(f["n"], "after")
                self.closed = False

    def b_sel(self):
        r = self.r
        leaves = [j for j, c in enumerate(self.out, 1) if not c.get("isbase")]
        if not leaves:
            return self.b_num()
        kf = self.uint(h={"key": 1})
        ch = []
        for _ in range(r.choice([1, 2, 3])):
            x = r.random()
            ch.append({"k": "cls", "c": r.choice(leaves)} if x < .75 else {"k": "none"} if x < .88 else {"k": "pair", "n": r.choice([1, 2])})
        sel = {"k": "sel", "f": kf["n"], "ki": 0, "kb": r.choice([0, 0, 0, 1]), "ch": ch}
        if self.chance(.5):
            f = self.field({"k": "buf", "c": leaves[0], "sel": sel}, sl(self.cur), ua=[kf["n"]])
        else:
            sel["ki"] = r.choice([0, 1, 1])
            n = {"k": "e", "e": C(r.choice([1, 2, 3]))} if self.chance(.6) else NO
            f = self.field({"k": "list", "el": {"k": "buf", "c": leaves[0]}, "n": n, "sel": sel}, sl(self.cur), ua=[kf["n"]])
        self.cur = self.fld(f["n"], "after")
        if self.chance(.5) or (f["ty"]["k"] == "list" and f["ty"]["n"]["k"] == "no"):
            self.closed = True

    def b_minmax(self):
        """Two fields of varying length over the same region, and one after the longer or up to the shorter."""
        r = self.r
        lf = self.uint()
        m = r.choice([1, 2, 3])
        name = self.names.pop()
        lf["sbp"] = {"k": "ref", "e": self.fld(name, "len")}
        lo = self.cur
        e = {"k": r.choice(["max", "max", "min"]), "l": [self.fld(lf["n"]), C(m)]}
        if e["k"] == "max":
            self.field({"k": "ba"}, sl(lo, add(lo, self.fld(lf["n"]))), n=name)
            self.cur = {"k": "max", "l": [self.fld(name, "after"), add(lo, m)]}
        else:
            self.field({"k": "ba"}, sl(lo, add(lo, e)), n=name)
            self.cur = add(lo, e)
        self.field(INT(False, False, 8), {"k": "ix", "n": self.cur}, h={"bits": 8})
        self.cur = add(self.cur, 1)

    def b_far(self):
        """A pointer: where some field lies."""
        pf = self.uint(h={"ptr": self.r.choice([4, 6, 8])})
        lo = self.fld(pf["n"])
        n = self.r.choice([1, 2])
        self.field(INT(False, True) if n > 1 else INT(False, False), sl(lo, add(lo, n)), h={"bits": 8 * n})

    def b_cycle(self):
        """Lengths that depend on one another."""
        r = self.r
        a, b = self.names.pop(), self.names.pop()
        k = r.random()
        S = lambda n, kind="fld": {"k": kind, "f": n, "self": 1}
        pa, pb = self.place(1, 0), self.place(1, 0)
        if k < .4:
            self.field(UINT1, pa, n=a, h={"bits": 8}, sbp={"k": "ref", "e": add(S(b), 1)})
            self.field(UINT1, pb, n=b, h={"bits": 8}, sbp={"k": "ref", "e": add(S(a), 1)})
        elif k < .7:
            self.field(UINT1, pa, n=a, h={"bits": 8}, sbp={"k": "ref", "e": {"k": "total"}})
            self.field({"k": "ba"}, sl(self.cur, S(a)), n=b)
            self.closed = True
        else:
            self.field(UINT1, pa, n=a, h={"bits": 8}, sau={"k": "ref", "e": S(b)})
            self.field(UINT1, pb, n=b, h={"bits": 8}, sau={"k": "ref", "e": S(a)})

    def b_bad(self):
        """Positions nobody can use."""
        r = self.r
        a = r.randint(0, 3)
        p = r.choice([
            {"k": "lst", "l": [sl(C(a), C(a + 2)), {"k": "ix", "n": C(a + 1)}]},
            {"k": "add", "a": sl(C(a), C(a + 2)), "b": sl(C(a + 1), C(a + 3))},
            {"k": "bits", "p": {"k": "ix", "n": C(a)}, "key": {"k": "sl", "lo": 4, "hi": 12}},
            {"k": "bits", "p": {"k": "ix", "n": C(a)}, "key": {"k": "ix", "n": 9}},
            sl(C(a + 2), C(a + 1)),
            sl(self.fld(self.uint()["n"]), C(3)),
            {"k": "lst", "l": [sl(C(a), self.fld(self.uint()["n"])), {"k": "ix", "n": C(a + 1)}]},
        ])
        self.field(r.choice([INT(False, False), {"k": "ba"}]), p, h={"bits": 8, "n": 2})

    BLOCKS = {
        "B01": [(8, "b_num"), (6, "b_bits")],
        "B02": [(4, "b_num"), (5, "b_bits"), (1, "b_text"), (2, "b_bytes"), (1, "b_split"), (1, "b_list")],
        "B03": [(2, "b_num"), (2, "b_bits"), (2, "b_text"), (1, "b_bytes"), (1, "b_list"), (1, "b_buf"), (3, "b_var"), (1, "b_pieces"), (1, "b_total"),
                (1, "b_computed"), (1, "b_cond"), (1, "b_open"), (1, "b_sel"), (1, "b_until")],
        "B04": [(1, "b_num"), (1, "b_bits"), (1, "b_text"), (1, "b_list"), (1, "b_buf"), (3, "b_var"), (1, "b_cond"), (2, "b_open"), (1, "b_total"), (1, "b_sel"), (2, "b_split")],
        "B05": [(2, "b_num"), (1, "b_bits"), (1, "b_bytes"), (2, "b_var"), (1, "b_total"), (5, "b_computed"), (1, "b_cycle"), (1, "b_until"), (1, "b_list")],
        "B06": [(1, "b_num"), (1, "b_bits"), (4, "b_var"), (1, "b_minmax"), (1, "b_far"), (2, "b_open"), (1, "b_until"), (1, "b_buf"), (2, "b_split"), (2, "b_pieces"), (1, "b_bytes")],
        "B07": [(1, "b_num"), (1, "b_bits"), (5, "b_cond"), (1, "b_var"), (1, "b_text")],
        "B08": [(7, "b_text"), (2, "b_bytes"), (2, "b_open"), (1, "b_var")],
        "B09": [(3, "b_list"), (2, "b_buf"), (3, "b_sel"), (2, "b_var"), (2, "b_open")],
        "B10": [(3, "b_num"), (2, "b_bits"), (3, "b_text"), (1, "b_bytes"), (1, "b_list"), (1, "b_buf"), (1, "b_var"), (1, "b_open"), (1, "b_bad"), (1, "b_cycle")],
        "B11": [(1, "b_num"), (1, "b_bits"), (1, "b_text"), (1, "b_bytes"), (2, "b_list"), (1, "b_buf"), (1, "b_var"), (1, "b_cond"), (1, "b_computed"), (1, "b_open")],
    }

    def blocks(self, n, only=None):
        table = only or self.BLOCKS[self.prof]
        for _ in range(n):
            if self.closed or self.budget <= 0 or len(self.fs) > 7:
                break
            getattr(self, pick(self.r, table))()

    def finish(self):
        r = self.r
        used = names_in([[f["p"], f["pu"], f["ty"]] for f in self.fs])
        for f in self.fs:
            if f["ty"]["k"] in ("int", "str", "ba", "list") and f["sau"] == NO and self.chance(.25 if self.prof == "B05" else .03) \
                    and not f["h"].get("key") and f["n"] not in self.reads:
                f["sau"] = {"k": "fn", "g": "dbl" if f["ty"]["k"] == "int" else r.choice(["rev", "wrap"])} \
                    if self.chance(.7) or f["ty"]["k"] == "ba" else \
                           {"k": "ref", "e": {"k": "copy", "f": r.choice(self.fs)["n"], "self": 1} if self.chance(.3) else self.refs()}
            if self.chance(.5 if self.prof == "B11" else .15) and f["ty"]["k"] not in ("buf",):
                f["d"] = value_of(r, f, self.out, good=True)
                if f["ty"]["k"] == "int" and f["n"] in used:
                    f["d"] = enc_int(r.randint(0, 5))
            elif f["ty"]["k"] == "buf" and f["ty"]["sel"] == NO and self.chance(.6 if self.prof == "B11" else .2):
                f["d"] = value_of(r, f, self.out, good=True)

    def refs(self):
        """A number from fields, by name."""
        c = [{"k": "fld", "f": n, "self": 1} for n in self.reads] or [C(5)]
        a = self.r.choice(c)
        return self.r.choice([a, op("add", a, C(1)), {"k": "op", "o": "mul", "a": a, "b": C(2)}, {"k": "total"}, {"k": "inlen"}])


def static_bytes(fs, size):
    """Size of a class all of whose positions are constant, or None."""
    def num(e):
        if e["k"] == "c":
            return e["n"]
        raise Misuse("dynamic")

    def end(p):
        k = p["k"]
        if k == "ix":
            return num(p["n"]) + 1
        if k == "sl":
            if p["hi"]["k"] == "no":
                raise Misuse("dynamic")
            return num(p["hi"]) if p["lo"]["k"] == "no" else max(num(p["lo"]), num(p["hi"]))
        if k == "lst":
            return max(end(x) for x in p["l"])
        if k == "add":
            return max(end(p["a"]), end(p["b"]))
        return end(p["p"])
    try:
        n = max([0] + [end(f["p"]) for f in fs] + [end(f["pu"]) for f in fs if f["pu"]["k"] != "same"])
    except Misuse:
        return None
    return n if size < 0 else (size + 7) // 8


def finish_class(g, out, base=(), size=-1, isbase=False):
    own = sorted(g.fs, key=lambda f: f["n"])
    fs = own + [f for b in base for f in out[b - 1]["fs"]]
    out.append(dict(fs=fs, size=size, base=list(base), isbase=isbase, info={"static": static_bytes(fs, size)}))


SMALL = [(3, "b_num"), (1, "b_bits"), (1, "b_text"), (1, "b_bytes")]


def gen_sch(rnd, prof):
    out = []
    if prof in ("B03", "B04", "B06", "B09", "B10", "B11"):
        for _ in range(rnd.choice([1, 2, 2]) if prof in ("B09", "B11") else rnd.choice([0, 1])):
            g = Gen(rnd, prof, [], 1)
            dyn = rnd.random() < .35
            g.blocks(rnd.choice([1, 1, 2]), SMALL if not dyn else [(1, "b_num"), (2, "b_var")])
            g.finish()
            size = -1
            st = static_bytes(g.fs, -1)
            if st is not None and rnd.random() < .15:
                size = 8 * (st + rnd.choice([0, 1, 2]))
            finish_class(g, out, size=size)
    n = rnd.choice([1, 2, 3, 3, 4])
    g = Gen(rnd, prof, out)
    base = ()
    if rnd.random() < (.4 if prof == "B11" else .12):
        g.blocks(rnd.choice([1, 2]))
        g.finish()
        finish_class(g, out, isbase=True)
        first = len(out)
        h = Gen(rnd, prof, out)
        h.names, h.cur, h.closed, h.reads, h.budget = g.names, g.cur, g.closed, list(g.reads), g.budget
        base = (first,)
        if prof == "B11" and rnd.random() < .4:          # another class of the same family
            k = Gen(rnd, prof, out)
            k.names, k.cur, k.closed, k.reads, k.budget = list(g.names), g.cur, g.closed, list(g.reads), g.budget
            k.blocks(rnd.choice([1, 2]))
            k.finish()
            finish_class(k, out, base=base, isbase=True)
        g = h
    g.blocks(n)
    if not g.fs:
        g.b_num() if not g.closed else None
    g.finish()
    size = -1
    st = static_bytes(g.fs + [f for b in base for f in out[b - 1]["fs"]], -1)
    if rnd.random() < (.25 if prof in ("B02", "B04") else .05):
        size = 8 * ((st if st is not None else 8) + rnd.choice([0, 0, 1, 3] if prof != "B10" else [-1, 0, 1]))
        size = max(size, 8)
    finish_class(g, out, base=base, size=size)
    return {"c": out}


def slim(sch):
    return {"c": [dict(fs=[dict((k, v) for k, v in f.items() if k != "h") for f in c["fs"]], size=c["size"], base=c["base"]) for c in sch["c"]]}


# -- values
def text_value(rnd, enc, n, wide=.2):
    al = "ab c.z" + ("\x00" if rnd.random() < .1 else "")
    if rnd.random() < wide:
        al = {"ascii": al, "latin-1": al + "\xe9\xff", "utf-8": al + "\xe9\u05d0\U0001F600"}[enc]
    return "".join(rnd.choice(al) for _ in range(n))


def json_value(rnd, depth=2):
    k = rnd.random()
    if depth == 0 or k < .5:
        return rnd.choice([enc(None), enc_int(rnd.choice([0, 1, 7, -3, 12345, 10 ** 9, -10 ** 12, 1 << 64, rnd.randint(0, 1 << 40), rnd.randint(-(1 << 63), 1 << 63), rnd.randint(1 << 53, 1 << 80)])),
                           json_enc(rnd.random() < .5), enc(rnd.choice([0.0, -0.0, .5, -1.25, 3.0, 4097 + 1 / 1024., rnd.randint(-(1 << 24), 1 << 24) / 1024. / 2])),
                           enc(rnd.choice(["", "a", "b c", "\"\\", "\n", "\xe9", "\u05d0", "\x7f", "1", "NaN", "true", "//"]))])
    if k < .75:
        return V("list", (), [json_value(rnd, depth - 1) for _ in range(rnd.choice([0, 1, 2]))])
    keys = sorted(rnd.sample(["a", "b", "ab", "", "Z"], rnd.choice([0, 1, 2])))
    return V("dict", (), [x for k in keys for x in (enc(k), json_value(rnd, depth - 1))])


FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e10, 3.4028235e38, 3.4028236e38, 1e39, 1e-45, 7e-46, 1e-40, 5e-324, 1.7976931348623157e308,
          float("inf"), -float("inf"), float("nan"), 16777217.0, 1.1754943508222875e-38, 2.0 ** -126, 0.5, 1 + 2.0 ** -24, 1 + 3 * 2.0 ** -24]


def int_value(rnd, ty, w, good):
    if w in (8, 16, 32, 64):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if ty["sg"] else (0, (1 << w) - 1)
    else:
        lo, hi = 0, (1 << max(w, 1)) - 1
    if good or rnd.random() < .85:
        return enc_int(rnd.choice([lo, hi, 0, 1, rnd.randint(lo, hi), rnd.randint(lo, hi), max(lo, min(hi, rnd.choice([2, 3, 127, 128, 255, 256])))]))
    return rnd.choice([enc_int(lo - 1), enc_int(hi + 1), enc_int(hi * 2 + 5), enc_int(-(1 << 70)), NONE, enc_float(1.5)])


def many(rnd, n, p=.012):
    return rnd.choice([17, 65, 130, 255, 256, 257, 300]) if rnd.random() < p else n


def value_of(rnd, f, classes, good=False, n=None):
    ty, h = f["ty"], f["h"]
    k = ty["k"]
    bad = not good and rnd.random() < .12
    if k == "int":
        if h.get("flag"):
            return enc_int(rnd.choice([0, 1, 1, 2]))
        if h.get("key"):
            return enc_int(rnd.randint(0, 4))
        if h.get("ptr"):
            return enc_int(h["ptr"] + rnd.randint(0, 3))
        if f["sbp"]["k"] == "no" and not bad and rnd.random() < .3 and h.get("bits", 8) >= 3:
            return enc_int(rnd.randint(0, 5))
        return int_value(rnd, ty, ty["sz"] if ty["sz"] >= 0 else h.get("bits", 8), not bad)
    if k == "flt":
        w = ty["sz"] if ty["sz"] >= 0 else h.get("bits", 32)
        if bad:
            return rnd.choice([NONE, V("str", [97]), enc_float(1e300)])
        if rnd.random() < .1:
            return enc_int(rnd.choice([0, 1, 77777]))
        x = rnd.choice(FLOATS) if rnd.random() < .7 else struct.unpack(">d", bytes(rnd.randint(0, 255) for _ in range(8)))[0]
        if w == 32 and abs(x) > 3.4e38 and x == x and abs(x) != float("inf") and good:
            x = 2.5
        return enc_float(x)
    if k == "str":
        m = h.get("n", n)
        ln = rnd.randint(0, 6) if m is None else rnd.choice([m, m, max(m - 1, 0), rnd.randint(0, m), m + 1 if bad or rnd.random() < .1 else m])
        s = text_value(rnd, ty["enc"], ln, .2 if m is None or not good else 0)
        if bad and rnd.random() < .3:
            s = "\u05d0"
        return enc(s)
    if k == "json":
        for _ in range(5):
            v = json_value(rnd)
            m = h.get("n")
            if m is None or bad or len(json.dumps(JW.value(v))) <= m:
                return v
        return NONE
    if k == "ba":
        m = h.get("n", n)
        ln = many(rnd, rnd.randint(0, 6)) if m is None else m if not bad else max(0, m + rnd.choice([-1, 1]))
        return V("bytes", [rnd.choice([0, 1, 2, 65, 255]) for _ in range(ln)])
    if k == "buf":
        if bad and rnd.random() < .4:
            return NONE
        c = ty["c"]
        if ty["sel"]["k"] != "no":
            cs = [x["c"] for x in ty["sel"]["ch"] if x["k"] == "cls"]
            c = rnd.choice(cs) if cs else c
        return obj_value(rnd, classes, c, good)
    if k == "list":
        cnt = h.get("cnt")
        if bad and rnd.random() < .2:
            return NONE
        ln = many(rnd, rnd.choice([0, 1, 2, 2, 3])) if cnt is None else cnt if not bad else max(0, cnt + rnd.choice([-1, 1]))
        el = ty["el"]
        out = []
        for j in range(ln):
            if el["k"] == "int":
                out.append(int_value(rnd, el, el["sz"], good or rnd.random() < .95))
            elif el["k"] == "str":
                out.append(enc(text_value(rnd, el["enc"], rnd.randint(0, el["sz"] // 8), 0)))
            else:
                c = el["c"]
                if ty["sel"]["k"] != "no":
                    cs = [x["c"] for x in ty["sel"]["ch"] if x["k"] == "cls"]
                    c = rnd.choice(cs) if cs else c
                out.append(obj_value(rnd, classes, c, good))
        return V("list", (), out)
    raise Misuse(k)


def vlen(v):
    return len(v["i"]) if v["t"] in ("str", "bytes") else len(v["k"])


def field_values(rnd, classes, c, good):
    fs = classes[c - 1]["fs"]
    vs = dict((f["n"], value_of(rnd, f, classes, good)) for f in fs)
    for f in fs:
        n = f["h"].get("lenof")
        if n in vs and (good or rnd.random() < .9):
            vs[f["n"]] = enc_int(vlen(vs[n]))
    for f in fs:        # the chosen class, where it can be told
        ty = f["ty"]
        if ty["k"] in ("buf", "list") and ty["sel"]["k"] == "sel" and rnd.random() < .85:
            s = ty["sel"]
            kf = [x for x in fs if x["n"] == s["f"]]
            if not kf or s["kb"] or vs[s["f"]]["t"] != "int":
                continue
            key = dec(vs[s["f"]])
            ch = lambda i: s["ch"][(key + s["ki"] * i) % len(s["ch"])]
            if ty["k"] == "buf" and ch(0)["k"] == "cls":
                vs[f["n"]] = obj_value(rnd, classes, ch(0)["c"], good)
            elif ty["k"] == "list" and vs[f["n"]]["t"] == "list":
                want = dec(E1(ty["n"]["e"])) if ty["n"]["k"] == "e" and ty["n"]["e"]["k"] == "c" else len(vs[f["n"]]["k"])
                if all(ch(i)["k"] == "cls" for i in range(want)):
                    vs[f["n"]] = V("list", (), [obj_value(rnd, classes, ch(i)["c"], good) for i in range(want)])
        elif ty["k"] == "list" and ty["n"]["k"] == "e" and ty["n"]["e"]["k"] == "fld" and ty["n"]["e"]["f"] in vs and rnd.random() < .8:
            kf = [x for x in fs if x["n"] == ty["n"]["e"]["f"]][0]
            if kf["sbp"]["k"] == "no" and vs[f["n"]]["t"] == "list" and vs[kf["n"]]["t"] == "int":
                vs[kf["n"]] = enc_int(len(vs[f["n"]]["k"]))
    return vs


def E1(e):
    return enc_int(e["n"])


def obj_value(rnd, classes, c, good):
    vs = field_values(rnd, classes, c, good)
    return V("obj", [c], [vs[f["n"]] for f in classes[c - 1]["fs"]])


def gen_for(rnd, prof, sch):
    """(Now and then something else happens in the middle of an operation.)"""
    g = gen_of(rnd, prof, sch)
    other = random.Random(repr(sch))
    try:
        e = next(g)
        while True:
            if e["op"] in ("pack", "size", "unpack") and other.random() < (.5 if prof == "B11" else .1):
                e["re"] = e["o"] if prof != "B11" or other.random() < .5 else other.randint(1, 3)
            r = yield e
            e = g.send(r)
    except StopIteration:
        pass


def gen_of(rnd, prof, sch):
    cl = sch["c"]
    main = len(cl)
    fs = cl[main - 1]["fs"]
    family = [main] + [j for j in range(1, main) if cl[j - 1]["isbase"]] if prof == "B11" else [main]

    def fields(c):
        return cl[c - 1]["fs"]

    def new(o, c, good=.8):
        vs = field_values(rnd, cl, c, rnd.random() < good)
        names = [f["n"] for f in fields(c)]
        first = [n for n in names if rnd.random() < .7]
        kw = [{"f": n, "v": vs[n]} for n in first]
        if rnd.random() < (.08 if prof == "B10" else .01):
            kw.append({"f": 0, "v": enc_int(1)})
        rnd.shuffle(kw)
        evs = [{"op": "new", "o": o, "c": c, "kw": kw}]
        skip = .25 if prof == "B11" else .06
        for f in fields(c):
            if f["n"] not in first and rnd.random() > skip and not (f["sbp"]["k"] != "no" and rnd.random() < .6):
                evs.append({"op": "set", "o": o, "f": f["n"], "v": vs[f["n"]]})
        return evs

    def bytes_in(n=None):
        return [rnd.choice([0, 0, 1, 1, 2, 3, 4, 32, 97, 128, 255, rnd.randint(0, 255)]) for _ in range(many(rnd, rnd.randint(0, 14)) if n is None else n)]

    if rnd.random() < .3:
        yield {"op": "csize", "c": main}
    rounds = rnd.choice([1, 1, 2]) if prof != "B11" else rnd.choice([1, 2, 3])
    cls = {}
    for _ in range(rounds):
        o = rnd.randint(1, 3) if prof == "B11" else 1
        c = rnd.choice(family)
        cls[o] = c
        for e in new(o, c):
            yield e
        if rnd.random() < .15:
            yield {"op": "setx", "o": o, "n": rnd.choice([0, 1, 3, 4])}
        if rnd.random() < (.5 if prof == "B04" else .15):
            yield {"op": "size", "o": o}
        r = yield {"op": "pack", "o": o}
        yield {"op": "calls", "o": o}
        yield {"op": "all", "o": o}
        if rnd.random() < (.6 if prof == "B04" else .1):
            yield {"op": "size", "o": o}
        if rnd.random() < (.5 if prof == "B11" else .1):
            yield {"op": "pack", "o": o}
        if prof == "B11" and rnd.random() < .7:
            for _ in range(rnd.choice([1, 2, 3])):
                k = rnd.choice(list(cls))
                f = rnd.choice(fields(cls[k]))["n"] if fields(cls[k]) else 0
                x = rnd.random()
                if x < .5:
                    yield {"op": "mut", "o": k, "f": f}
                elif x < .8 and f:
                    yield {"op": "set", "o": k, "f": f, "v": value_of(rnd, [g for g in fields(cls[k]) if g["n"] == f][0], cl)}
                else:
                    q = rnd.choice([1, 2, 3])
                    cls[q] = rnd.choice(family)
                    yield {"op": "new", "o": q, "c": cls[q], "kw": []}
                    yield {"op": "all", "o": q}
            for k in list(cls):
                yield {"op": "all", "o": k}
        packed = r["i"] if r["t"] == "bytes" else None
        o2 = rnd.randint(1, 3) if prof == "B11" else 2
        if o2 != o or packed is None or rnd.random() < .7:
            if o2 not in cls or rnd.random() < .8:
                cls[o2] = c
                yield {"op": "new", "o": o2, "c": c, "kw": []}
                if prof == "B11" or rnd.random() < .1:
                    yield {"op": "all", "o": o2}
        tail = bytes_in(rnd.choice([0, 0, 0, 1, 3]))
        b = (packed if packed is not None else bytes_in()) + tail
        yield {"op": "unpack", "o": o2, "b": b, "via": rnd.randint(0, 4)}
        yield {"op": "calls", "o": o2}
        yield {"op": "all", "o": o2}
        yield {"op": "pack", "o": o2}
        if rnd.random() < .5:
            yield {"op": "size", "o": o2}
        for _ in range(rnd.choice([0, 1, 1, 2]) if prof != "B10" else rnd.choice([1, 2, 3])):
            x = rnd.random()
            if packed is None or x < .3:
                d = bytes_in()
            elif x < .65:
                d = b[:rnd.randint(0, len(b))]
            else:
                d = list(b)
                for _ in range(rnd.choice([1, 1, 2])):
                    if d:
                        d[rnd.randrange(len(d))] = rnd.choice([0, 1, 2, 5, 32, 97, 128, 255])
            yield {"op": "unpack", "o": o2, "b": d, "via": rnd.randint(0, 4)}
            yield {"op": "all", "o": o2}
            if rnd.random() < .5:
                yield {"op": "pack", "o": o2}
        if prof == "B10" and packed is not None:
            yield {"op": "unpack", "o": o2, "b": b, "via": 0}
            yield {"op": "all", "o": o2}
            for e in new(o, c, 1):
                if e["op"] == "set":
                    yield e
            yield {"op": "pack", "o": o}

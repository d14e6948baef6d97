"""Declarations of structs, right and wrong (spec: StructDecl.tla)."""
from common import *
import copy
import infi.instruct as I
import d_struct
from d_struct import Maker, WEIGHTS, by

WEIGHTS["S16"] = dict(bits=8, pbits=6, lazy=8, map=6, farr=6, pstr=6, anon=3, const=2, sel=2, fsel=2, num=5, flt=1, opt=3, grp=1)
INT_MEMBER = {"k": "num", "n": 1, "sg": False, "be": True, "e": "B"}


class World(d_struct.World):
    def __init__(self):
        pass

    def declare(self, sch):
        self.sch = sch
        self.cls = []
        for c in range(1, len(sch["c"]) + 1):
            if "nof" in sch["c"][c - 1]:
                type(I.Struct)("C%d" % c, (I.Struct,), {})
            self.cls.append(self.build_class(c))

    def marshal(self, m):
        if m["k"] == "pad" and "chs" in m:
            from infi.instruct.padding import BytePaddingMarshal
            return BytePaddingMarshal(m["n"], by([m["ch"]] * m["chs"]))
        if m["k"] == "sel" and any(c == 0 for _, c in m["map"]):
            mp = dict((dec(a), self.cls[c - 1] if c else [int, I.UBInt8, dict][len(m["map"]) % 3]) for a, c in m["map"])
            d = self.cls[m["def"] - 1] if m["def"] else None
            key = self.marshal(m["key"])
            return I.StructSelector(key, mp, d) if m["def"] else I.StructSelectorMarshal(key, mp)
        return super(World, self).marshal(m)

    def field(self, f, c):
        if f["k"] == "anon" and "chs" in f["m"]:
            return I.BytePadding(f["m"]["n"], by([f["m"]["ch"]] * f["m"]["chs"]))
        if f["k"] == "const" and "nom" in f:
            return I.ConstField("f%d" % f["x"], self.dec(f["v"]))
        if f["k"] in ("bits", "pbits"):
            fs = []
            for b in f["s"]:
                name = "f%d" % b["x"]
                d = None if not b["x"] else self.dec(self.sch["c"][c - 1]["lv"][b["x"] - 1]["d"])
                if "m" in b:
                    m = self.marshal(b["m"])
                    fs.append(I.Field(name, m, d) if b["x"] else I.AnonymousField(m))
                elif "sl" in b:
                    fs.append(I.BitField(name, I.Bits[tuple(slice(*s) for s in b["sl"])], d))
                elif not b["x"]:
                    fs.append(I.BitPadding(b["w"]))
                elif b["c"]:
                    fs.append(I.ConstField(name, d, I.BitMarshal(b["w"])))
                else:
                    fs.append(I.BitField(name, b["w"], d))
            if f["k"] == "pbits" and f["nb"] >= 0:
                return I.PositionalBitFieldListContainer(f["nb"], fs)
            if f.get("direct"):
                return (I.BitFieldListContainer(fs) if f["k"] == "bits" else I.PositionalBitFieldListContainer(None, fs))
            return I.BitFields(*fs)
        return super(World, self).field(f, c)

    def apply(self, e):
        assert e["op"] == "declare"
        self.declare(e["s"])
        return OK


def fresh(sch):
    return World()


def gen_sch(rnd, prof):
    return 0


def nodes(fs, inside=()):
    for f in fs:
        yield f, inside
        if f["k"] in ("lazy", "grp"):
            for x in nodes(f["fs"], inside + (f["k"],)):
                yield x


def types(x):
    if isinstance(x, dict):
        if x.get("k") in ("num", "flt", "cnum", "pstr", "vstr", "farr", "varr", "sarr", "map", "pad", "sel", "fsel") and "fs" not in x:
            yield x
        for y in x.values():
            for z in types(y):
                yield z
    elif isinstance(x, list):
        for y in x:
            for z in types(y):
                yield z


def spoil(rnd, prof, sch):
    """Changes something; the result may still be all right."""
    k = rnd.choice(["bits", "bits", "bits", "pbits", "pbits", "pbits", "lazy", "lazy", "lazy", "map", "map", "default", "default",
                    "pad", "sel", "fsel", "const", "nof", "bits", "lazy", "fld"])
    # (a class that gets another field must not have objects elsewhere, as defaults)
    n = rnd.randrange(len(sch["c"])) if k != "lazy" else len(sch["c"]) - 1
    c = sch["c"][n]
    g = Maker(rnd, prof, {"c": sch["c"][:n]})       # only what is declared before can be named
    g.big = 1
    fs = list(nodes(c["fs"]))
    pick = [f for f, _ in fs if f["k"] == k]

    def some():
        try:
            return g.type(1, [])
        except Misuse:                      # (of a class which is already spoilt)
            return g.fixed(1)
    vary = lambda: rnd.choice([{"k": "vstr", "sz": g.num(True, (1, 2)), "pad": [0], "dir": 1, "buf": False}, some(), g.fixed(1),
                               {"k": "varr", "sz": g.num(True, (1,)), "el": g.fixed(2)},
                               {"k": "farr", "n": rnd.choice([0, 1, 2]), "el": {"k": "vstr", "sz": g.num(True, (1,)), "pad": [], "dir": 0, "buf": True}}])
    if k == "nof":
        if rnd.random() < .15 and "base" not in c:
            c["nof"] = 1
    elif k == "bits" and pick:
        f = rnd.choice(pick)
        if not f["s"]:
            return
        z = rnd.random()
        j = rnd.randrange(len(f["s"]))
        b = f["s"][j]
        if z < .35:
            b["w"] = max(1, b["w"] + rnd.choice([1, -1, 7, 8, -8, 4]))
        elif z < .55 and len(f["s"]) > 1:
            f["s"].pop(j)
        elif z < .75:
            f["s"].insert(j, {"x": 0, "w": rnd.choice([1, 2, 4, 7, 8, 16]), "c": False, "v": NONE})
        elif z < .95:
            b["m"] = vary()
            b["w"] = 8
        else:
            f["direct"] = True
    elif k == "pbits" and pick:
        f = rnd.choice(pick)
        z = rnd.random()
        b = rnd.choice(f["s"])
        end = max(s[1] for b in f["s"] for s in b["sl"])
        if z < .5:
            f["nb"] = max(1, rnd.choice([end, end - 1, end + 1, end + 7, 8 * ((end + 7) // 8), 8 * (end // 8), 8 * ((end + 7) // 8) + 8, end - 8]))
        elif z < .7:
            s = [s for b in f["s"] for s in b["sl"] if s[1] == end][0]
            s[1] += rnd.choice([1, 3, 7, 8])
        elif z < .85:
            f["s"].append({"x": 0, "w": 8, "m": rnd.choice([INT_MEMBER, vary()]), "c": False, "v": NONE, "sl": []})
        else:
            f["direct"] = True
    elif k == "lazy" and fs:
        f = {"k": "fld", "x": 0, "m": vary(), "plain": True}
        if rnd.random() < .3:
            f = {"k": "opt", "x": 0, "m": vary() if rnd.random() < .5 else INT_MEMBER, "pr": {"k": "yes"}}
        elif rnd.random() < .2:
            f = {"k": "anon", "m": {"k": "pad", "n": 2, "ch": 0}}
        if f["k"] != "anon":
            c["lv"].append({"d": NONE, "c": False})
            f["x"] = len(c["lv"])
        if rnd.random() < .3:
            f = {"k": "grp", "fs": [f]}
        if pick and rnd.random() < .7:
            h = rnd.choice(pick)["fs"]
            h.insert(rnd.randint(0, len(h)), f)
        else:
            c["fs"].append({"k": "lazy", "fs": [f], "n": 1, "lv": [len(c["lv"])] if f["k"] != "anon" else []})
    elif k == "map":
        ms = [m for m in types(c["fs"]) if m["k"] == "map"]
        if ms:
            m = rnd.choice(ms)
            if rnd.random() < .6 and len(m["pairs"]) > 1:
                a, b = rnd.sample(range(len(m["pairs"])), 2)
                m["pairs"][a][1] = m["pairs"][b][1]
            else:
                m["m"] = vary()
    elif k == "default":
        ds = [f for f, _ in fs if f["k"] == "fld" and f["m"]["k"] in ("farr", "pstr")]
        if ds:
            f = rnd.choice(ds)
            f["plain"] = rnd.random() < .15
            l = c["lv"][f["x"] - 1]
            d = copy.deepcopy(l["d"]) if l["d"]["t"] != "none" else g.val(f["m"], True)
            n = rnd.choice([0, 1, 1, -1])
            if f["m"]["k"] == "farr":
                d["k"] = d["k"][:-1] if n < 0 else d["k"] + [copy.deepcopy(d["k"][0])] if n and d["k"] else d["k"] + [g.val(f["m"]["el"], True)] * n
            else:
                d["i"] = d["i"][:-1] if n < 0 else [99] * f["m"]["n"] + [99] * n if rnd.random() < .6 else d["i"] + [rnd.choice([0, 32, 99])] * n
            l["d"] = d
    elif k == "pad":
        ps = [m for m in types(c["fs"]) if m["k"] == "pad"]
        if ps:
            rnd.choice(ps)["chs"] = rnd.choice([0, 2, 3])
    elif k == "sel":
        ms = [m for m in types(c["fs"]) if m["k"] == "sel"]
        if ms:
            m = rnd.choice(ms)
            rnd.choice(m["map"])[1] = 0
    elif k == "fsel":
        ms = [m for m in types(c["fs"]) if m["k"] == "fsel"]
        if ms:
            m = rnd.choice(ms)
            lo = rnd.choice([1, 2, 5])
            m["mm"] = [lo, max(0, lo + rnd.choice([-1, -2, 1, 2]))]     # (not a size that it says is always the same)
            m["mmtype"] = rnd.random() < .5
    elif k == "const" and pick:
        f = rnd.choice(pick)
        if f["m"]["k"] != "struct":
            f["nom"] = 1
    elif k == "fld":
        ds = [f for f, _ in fs if f["k"] == "fld"]
        if ds:
            rnd.choice(ds)["m"] = {"k": "map", "m": vary(), "pairs": [[enc("a"), enc_int(1)], [enc("b"), enc_int(2)]]}


def clone(x):
    """(Nothing in the copy is shared.)"""
    return json.loads(json.dumps(x))


def consistent(sch):
    """A changed field must not leave behind a default it can no longer have (that is not what is judged here)."""
    for c in sch["c"]:
        for f, _ in nodes(c["fs"]):
            if f["k"] == "pbits" and "nb" not in f:
                f["nb"] = f["n"] * 8 if f.get("size") else -1
            if f["k"] == "fld" and f["m"]["k"] == "map":
                f["plain"] = f.get("plain", False)
            if f["k"] == "fld" and f["m"]["k"] in ("farr", "pstr"):
                d = c["lv"][f["x"] - 1]["d"]
                if d["t"] not in ("none", "list" if f["m"]["k"] == "farr" else "bytes"):
                    c["lv"][f["x"] - 1]["d"] = NONE
    return sch


def gen(rnd, prof):
    for _ in range(2):
        sch = d_struct.gen_sch(rnd, prof)
        for c in sch["c"]:
            if "base" in c:
                c["base"] = 0
            c["inherit"] = False
            c["initi"] = c["cxi"] = False
        yield {"op": "declare", "s": consistent(d_struct.slim(clone(sch)))}
        for _ in range(3):
            bad = clone(sch)
            for _ in range(rnd.choice([1, 1, 1, 2])):
                spoil(rnd, prof, bad)
            yield {"op": "declare", "s": consistent(d_struct.slim(bad))}

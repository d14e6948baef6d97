"""References and evaluation contexts (spec: Refs.tla)."""
from common import *
import math
import re
from infi.instruct.buffer.reference import (Reference, Context, ObjectReference, FuncCallReference, GetAttrReference,
                                            AssignAttrReference, LengthFuncCallReference, CyclicReferenceError)
from infi.instruct.buffer.macros import num_ref, min_ref, max_ref, len_ref

NA, NF, NC = 3, 6, 3


class Link(Reference):
    """A named reference whose definition is given later."""

    def __init__(self, j):
        super(Link, self).__init__(True)
        self.j = j
        self.target = None

    def evaluate(self, ctx):
        return self.target.deref(ctx)

    def __safe_repr__(self):
        return "node<%d>" % self.j


class Holder(object):
    pass


class Raised(Exception):
    pass


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
       "floordiv": lambda a, b: a // b, "truediv": lambda a, b: a / b, "le": lambda a, b: a <= b, "lt": lambda a, b: a < b,
       "ge": lambda a, b: a >= b, "gt": lambda a, b: a > b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


class World(object):
    def __init__(self, sch):
        self.ctx = dict((c, Context()) for c in range(1, NC + 1))
        self.o = Holder()
        for a in range(1, NA + 1):
            setattr(self.o, "a%d" % a, 10 * a)
        self.calls = [0] * NF
        self.links = [Link(j + 1) for j in range(len(sch))]
        for l, x in zip(self.links, sch):
            t = self.build(x)
            l.target = Reference.to_ref(t)

    def fn(self, x):
        def f(*args, **kw):
            self.calls[x["f"] - 1] += 1
            if x["k"] == "bad":
                raise Raised()
            return x["n"] + sum(args) + sum(kw.values())
        return f

    def build(self, x):
        k = x["k"]
        if k == "c":
            return x["n"] if x.get("plain") else ObjectReference(True, x["n"])
        if k == "len":
            v = [0] * x["n"]
            return LengthFuncCallReference(v) if x["u"] % 2 else len_ref(ObjectReference(False, v))
        if k == "attr":
            return GetAttrReference(True, self.o, "a%d" % x["a"])
        if k == "link":
            return self.links[x["j"] - 1]
        a = [self.build(y) for y in x.get("args", [])]
        if k in ("fn", "bad"):
            if x.get("kw") and a:
                return FuncCallReference(True, self.fn(x), *a[:-1], **{"last": a[-1]})
            return FuncCallReference(True, self.fn(x), *a)
        if k == "op":
            if x["o"] in ("le", "lt", "ge", "gt", "eq", "ne") and isinstance(a[0], Reference):
                # Python asks the right operand first if its type is a subclass of the left one's; this prevents that
                a[0] = num_ref(a[0])
            return OPS[x["o"]](a[0], a[1])
        if k == "quo":
            return FuncCallReference(True, lambda v: int(math.floor(v * 2)), a[0] / a[1])
        if k == "neg":
            return -a[0]
        if k == "cast":
            return num_ref(Reference.to_ref(a[0]))
        if k == "div8":
            return FuncCallReference(True, lambda v: int(v * 8), a[0] / x["n"])
        if k == "min":
            return min_ref(*a)
        if k == "max":
            return max_ref(*a)
        if k == "assign":
            return AssignAttrReference(True, self.o, "a%d" % x["a"], a[0])
        raise Misuse(k)

    def apply(self, e):
        op = e["op"]
        if op == "eval":
            try:
                return enc(self.links[e["j"] - 1].deref(self.ctx[e["c"]]))
            except CyclicReferenceError as x:
                ids = [int(m) for m in re.findall(r"^\s*node<(\d+)>(?: -->)?\s*$", str(x), re.M)]
                if len(ids) < 2 or ids[-1] not in ids[:-1]:
                    return V("cycle", [0])
                return V("cycle", ids[ids.index(ids[-1]):-1])
        if op == "combine":
            x, y = [{"n": e["n"], "N": Reference.to_ref(e["n"]) if e["n"] % 2 else GetAttrReference(True, self.o, "a1"),
                     "R": ObjectReference(False, "text") if e["n"] % 2 else GetAttrReference(False, self.o, "a1"),
                     "o": ["text", None, [1]][e["n"] % 3]}[k] for k in (e["x"], e["y"])]
            r = -x if e["o"] == "neg" else OPS[e["o"]](x, y)
            return OK if isinstance(r, Reference) and r.is_numeric() else V("other")
        if op == "calls":
            return V("calls", self.calls)
        if op == "attrs":
            return V("list", (), [enc(getattr(self.o, "a%d" % a)) for a in range(1, NA + 1)])
        if op == "set":
            setattr(self.o, "a%d" % e["a"], e["n"])
            return OK
        raise Misuse(op)


def fresh(sch):
    return World(sch)


def gen_sch(rnd, prof):
    n = rnd.randint(1, 5) if rnd.random() < .85 else rnd.randint(6, 9)
    u = [0]
    cyc = rnd.random() < .45

    def nid(x):
        u[0] += 1
        x["u"] = u[0]
        return x

    def leaf(j, plain_ok):
        k = rnd.random()
        if k < .45 and (j > 0 or cyc):
            t = rnd.randint(1, n) if cyc and rnd.random() < .4 else (rnd.randint(1, j) if j > 0 else rnd.randint(1, n))
            return {"k": "link", "j": t}
        if k < .6:
            return nid({"k": "attr", "a": rnd.randint(1, NA)})
        if k < .7:
            return nid({"k": "len", "n": rnd.randint(0, 6)})
        if k < .85:
            return nid({"k": "fn", "f": rnd.randint(1, NF), "n": rnd.randint(-9, 9), "args": []})
        x = {"k": "c", "n": rnd.randint(-9, 9)}
        if plain_ok and rnd.random() < .6:
            x["plain"] = 1
        return nid(x)

    def is_ref(x):
        return not (x["k"] == "c" and x.get("plain"))

    def expr(j, d):
        k = rnd.random()
        if d == 0 or k < .15:
            return leaf(j, False)
        if k < .55:
            o = rnd.choice(["add", "add", "sub", "sub", "mul", "floordiv", "quo", "le", "lt", "ge", "gt", "eq", "ne"])
            if o == "mul":
                a, b = expr(j, d - 1), nid({"k": "c", "n": rnd.randint(-3, 4), "plain": rnd.randint(0, 1)})
                if rnd.random() < .5:
                    a, b = b, a
            else:
                a, b = expr(j, d - 1), expr(j, d - 1)
                if rnd.random() < .35:
                    b = leaf(j, True)
                elif rnd.random() < .3:
                    a = leaf(j, True)
            if not is_ref(a) and not is_ref(b):
                a.pop("plain", None)
            # a plain number on the left of a comparison is Python's own reflection
            if o == "quo":
                return nid({"k": "quo", "args": [a, b]})
            return nid({"k": "op", "o": o, "args": [a, b]})
        if k < .7:
            return nid({"k": "fn", "f": rnd.randint(1, NF), "n": rnd.randint(-9, 9), "kw": rnd.randint(0, 1),
                        "args": [expr(j, d - 1) for _ in range(rnd.randint(0, 2))]})
        if k < .74:
            return nid({"k": "bad", "f": rnd.randint(1, NF), "args": [expr(j, d - 1) for _ in range(rnd.randint(0, 1))]})
        if k < .8:
            return nid({"k": "neg", "args": [expr(j, d - 1)]})
        if k < .84:
            return nid({"k": "cast", "args": [expr(j, d - 1)]})
        if k < .88:
            return nid({"k": "div8", "n": rnd.choice([1, 2, 4, 8]), "args": [expr(j, d - 1)]})
        if k < .96:
            return nid({"k": rnd.choice(["min", "max"]), "args": [leaf(j, True) if rnd.random() < .3 else expr(j, d - 1)
                                                                 for _ in range(rnd.randint(2, 3))]})
        return nid({"k": "assign", "a": rnd.randint(1, NA), "args": [expr(j, d - 1)]})
    r = []
    for j in range(n):
        x = expr(j, rnd.choice([1, 2, 2]))
        r.append(x)
    return r


def gen_for(rnd, prof, sch):
    n = len(sch)
    for _ in range(rnd.randint(3, 9)):
        k = rnd.random()
        if k < .75:
            yield {"op": "eval", "c": rnd.choice([1, 1, 1, 2]), "j": rnd.randint(1, n)}
            if rnd.random() < .5:
                yield {"op": "calls"}
        elif k < .8:
            x, y = rnd.choice(["NN", "Nn", "nN", "NR", "RN", "RR", "Rn", "nR", "No", "oN", "Ro", "oR"])
            o = rnd.choice(sorted(set(OPS) - set(["eq", "ne"])) + ["neg"])
            if o == "neg":
                x = y = rnd.choice("NR")
            yield {"op": "combine", "o": o, "x": x, "y": y, "n": rnd.randint(1, 6)}
        elif k < .9:
            yield {"op": "set", "a": rnd.randint(1, NA), "n": rnd.randint(-20, 20)}
        else:
            yield {"op": "attrs"}
    yield {"op": "calls"}
    yield {"op": "attrs"}

"""Size bounds (spec: MinMax.tla)."""
from common import *
import re
from infi.instruct.base import MinMax, UNBOUNDED_MIN_MAX, ZERO_MIN_MAX

NS = 4


def b_v(m):
    if not isinstance(m, MinMax) or (m[0], m[1]) != (m.min, m.max) or len(m) != 2:
        return V("other")
    return V("list", (), [enc_int(m.min), enc_int(m.max)])


class World(object):
    def __init__(self, sch):
        self.s = dict((j, MinMax(0, 0)) for j in range(1, NS + 1))

    def put(self, h, m):
        self.s[h] = m
        return b_v(m)

    def apply(self, e):
        op = e["op"]
        s = self.s
        if op == "pair":
            a, b = dec(e["a"]), dec(e["b"])
            v = e.get("via", 0)
            return self.put(e["h"], MinMax((a, b)) if v == 1 else MinMax([a, b]) if v == 2 else MinMax(a, b))
        if op == "min":
            return self.put(e["h"], MinMax(dec(e["a"])))
        if op == "copy":
            return self.put(e["h"], MinMax(s[e["g"]]))
        if op == "add":
            return self.put(e["h"], s[e["f"]] + s[e["g"]])
        if op == "const":
            return self.put(e["h"], UNBOUNDED_MIN_MAX if e["n"] else ZERO_MIN_MAX)
        if op == "open":
            return enc(bool(s[e["h"]].is_unbounded()))
        if op == "eq":
            return enc(bool(s[e["h"]] == s[e["g"]]))
        if op == "all":
            return V("list", (), [b_v(s[j]) for j in range(1, NS + 1)])
        if op == "str":
            t = str(s[e["h"]])
            m = re.search(r"min=(-?\d+).*max=(-?\d+|unbounded)", t)
            if not m or repr(s[e["h"]]) != t:
                return V("other")
            return V("list", (), [enc_int(int(m.group(1))), NONE if m.group(2) == "unbounded" else enc_int(int(m.group(2)))])
        raise Misuse(op)


def fresh(sch):
    return World(sch)


def gen_sch(rnd, prof):
    return 0


def gen(rnd, prof):
    M = sys.maxsize

    def n():
        x = rnd.choice([0, 1, 2, rnd.randint(0, 300), rnd.getrandbits(40), M, M - 1, M + 1, M // 2, M // 2 + 1, rnd.getrandbits(62), rnd.getrandbits(80)])
        return enc_int(-x if rnd.random() < .15 else x)
    for _ in range(rnd.randint(4, 14)):
        k = rnd.random()
        h, f, g = (rnd.randint(1, NS) for _ in range(3))
        if k < .3:
            yield {"op": "pair", "h": h, "a": n(), "b": n(), "via": rnd.randint(0, 2)}
        elif k < .4:
            yield {"op": "min", "h": h, "a": n()}
        elif k < .7:
            yield {"op": "add", "h": h, "f": f, "g": g}
        elif k < .76:
            yield {"op": "copy", "h": h, "g": g}
        elif k < .8:
            yield {"op": "const", "h": h, "n": rnd.randint(0, 1)}
        elif k < .88:
            yield {"op": "open", "h": h}
        elif k < .94:
            yield {"op": "eq", "h": h, "g": g}
        else:
            yield {"op": "str", "h": h}
    yield {"op": "all"}

"""Bit streams (spec: BitStream.tla)."""
from common import *
from infi.instruct.utils.bitstringio import BitStringIO


class World(object):
    def __init__(self, sch):
        self.s = BitStringIO(0)

    def apply(self, e):
        op = e["op"]
        if op == "new":
            d = bytes(bytearray(e["v"]["i"]))
            self.s = BitStringIO(bytearray(d) if e.get("via") else d)
        elif op == "zero":
            self.s = BitStringIO(e["n"])
        elif op == "write":
            self.s.write(dec(e["v"]), e["n"])
        elif op == "read":
            return enc(self.s.read(e["n"]))
        elif op == "seek":
            self.s.seek(e["n"])
        elif op == "get":
            return enc(self.s.getvalue())
        else:
            raise Misuse(op)
        return OK


def fresh(sch):
    return World(sch)


def gen_sch(rnd, prof):
    return 0


def gen(rnd, prof):
    n = rnd.choice([1, 2, 3, 4, rnd.randint(1, 12)])

    def width():
        return rnd.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, rnd.randint(0, 70)])
    if rnd.random() < .5:
        yield {"op": "zero", "n": n}
        for _ in range(rnd.randint(1, 8)):
            w = width()
            x = rnd.choice([0, 1, (1 << w) - 1, rnd.getrandbits(w + 9), -1, -rnd.getrandbits(w + 1) - 1])
            yield {"op": "write", "n": w, "v": enc_int(x)}
        yield {"op": "get"}
        yield {"op": "seek", "n": 0}
    else:
        yield {"op": "new", "v": V("bytes", [rnd.randint(0, 255) for _ in range(n)]), "via": rnd.randint(0, 1)}
    for _ in range(rnd.randint(1, 8)):
        if rnd.random() < .15:
            yield {"op": "seek", "n": rnd.randint(0, 8 * n - 1)}
        yield {"op": "read", "n": width()}
    yield {"op": "get"}

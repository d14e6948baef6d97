"""Read-ahead streams (spec: ReadAhead.tla)."""
from common import *
from infi.instruct.utils.read_ahead_stream import ReadAheadStream


class Under(object):
    def __init__(self, data):
        self.r = io.BytesIO(data)
        self.w = b""

    def read(self, n):
        return self.r.read(n)

    def write(self, b):
        self.w += b


class World(object):
    def __init__(self, sch):
        self.u = Under(b"")
        self.s = ReadAheadStream(self.u)

    def apply(self, e):
        op = e["op"]
        if op == "new":
            self.u = Under(bytes(bytearray(e["v"]["i"])))
            self.s = ReadAheadStream(self.u)
        elif op == "mode":
            self.s.set_read_ahead(bool(e["n"]))
        elif op == "read":
            return enc(self.s.read(e["n"]))
        elif op == "left":
            return enc(not self.s.is_read_ahead_empty())
        elif op == "rest":
            return enc(self.u.r.getvalue()[self.u.r.tell():])
        elif op == "write":
            self.s.write(dec(e["v"]))
            return enc(self.u.w)
        else:
            raise Misuse(op)
        return OK


def fresh(sch):
    return World(sch)


def gen_sch(rnd, prof):
    return 0


def gen(rnd, prof):
    n = rnd.choice([0, 1, 5, 20, 60])
    yield {"op": "new", "v": V("bytes", [rnd.randint(0, 255) for _ in range(n)])}
    for _ in range(rnd.randint(3, 16)):
        k = rnd.random()
        if k < .25:
            yield {"op": "mode", "n": rnd.randint(0, 1)}
        elif k < .35:
            yield {"op": "left"}
        elif k < .4:
            yield {"op": "write", "v": V("bytes", [rnd.randint(0, 255) for _ in range(rnd.randint(0, 3))])}
        else:
            yield {"op": "read", "n": rnd.choice([0, 1, 2, 3, rnd.randint(0, 9), rnd.randint(0, 30)])}
    yield {"op": "left"}
    yield {"op": "rest"}

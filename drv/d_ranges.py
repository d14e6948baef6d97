"""Position references and range arithmetic (spec: Ranges.tla)."""
from common import *
from infi.instruct.buffer.range import SequentialRange, SequentialRangeList
from infi.instruct.buffer.reference import Context, ObjectReference, Reference, FuncCallReference
from infi.instruct.buffer.macros import bytes_ref, num_ref
from infi.instruct.buffer.io_buffer import InputBuffer, OutputBuffer, BitView


def pos(bits):
    return bits // 8 if bits % 8 == 0 else bits / 8.0


def bits_of(x):
    r = x * 8
    if r != int(r):
        raise ValueError("not on a bit: %r" % (x,))
    return int(r)


def num(n, via):
    """The same number, spelled in different ways."""
    if via == 1:
        return ObjectReference(True, n)
    if via == 2:
        return ObjectReference(True, n - 3) + 3
    if via == 3:
        return num_ref(FuncCallReference(False, lambda x: x, n))
    if via == 4:
        return -ObjectReference(True, -n)
    return n


ODD = ["a", 1.5, None, {}, b"0", ObjectReference(False, "a"), object()]


def key_of(k, via, refs):
    if k["k"] == "odd":
        return ODD[k["n"]]
    if k["k"] == "ix":
        return num(k["n"], via)
    if k["k"] == "sl":
        lo = None if k["lo"] == -1 else k["lo"]
        hi = None if k["hi"] == -1 else k["hi"]
        if refs:
            lo = None if lo is None else num(pos(lo), via)
            hi = None if hi is None else num(pos(hi), via)
        return slice(lo, hi, k["st"]) if "st" in k else slice(lo, hi)
    return [key_of(x, via, refs) for x in k["l"]]


def ref_of(e, via):
    k = e["k"]
    if k in ("ix", "sl", "odd"):
        return bytes_ref[key_of(e, via, True)]
    if k == "lst":
        ks = [key_of(x, via, True) for x in e["l"]]
        return bytes_ref[tuple(ks) if via % 2 else ks]
    if k == "add":
        return ref_of(e["a"], via) + ref_of(e["b"], via)
    return ref_of(e["p"], via).bits[key_of(e["key"], via, False)]


def ranges_v(rl):
    return V("rs", (), [V("r", [bits_of(r.start), -1 if r.stop is None else bits_of(r.stop)]) for r in rl])


def bits_v(view):
    s = view.to_bitstr()
    return V("bits", [int(c) for c in reversed(s)])


class World(object):
    def __init__(self, sch):
        self.rl = SequentialRangeList()

    def apply(self, e):
        op = e["op"]
        rl = self.rl
        if op == "mk":
            self.rl = SequentialRangeList([SequentialRange(pos(lo), None if hi < 0 else pos(hi)) for lo, hi in e["l"]])
            return OK
        if op == "ref":
            self.rl = SequentialRangeList()
            r = ref_of(e["e"], e.get("via", 0)).deref(Context())
            r = SequentialRangeList([x for x in r if x.stop is None or x.stop > x.start])
            self.rl = r
            return ranges_v(r)
        if op == "overlaps":
            return enc(bool(rl.has_overlaps()))
        if op == "open":
            return enc(bool(rl.is_open()))
        if op == "length":
            n = rl.byte_length()
            return enc(None if n is None else bits_of(n))
        if op == "end":
            n = rl.max_stop()
            return enc(None if n is None else bits_of(n))
        if op == "reach":
            return enc(bits_of(rl.byte_offset(pos(e["n"]))))
        if op == "sorted":
            return ranges_v(rl.sorted())
        if op == "close":
            return ranges_v(rl.to_closed(pos(e["n"])))
        if op == "pair":
            if e["a"] > len(rl) or e["b"] > len(rl):
                return NONE
            a, b = rl[e["a"] - 1], rl[e["b"] - 1]
            return V("list", (), [enc(bool(a.overlaps(b))), enc(bool(a == b)), enc(bool(a < b))])
        if op == "has":
            return V("list", (), [enc(bool(r.contains(pos(e["n"])))) for r in rl])
        if op == "get":
            return bits_v(InputBuffer(bytearray(e["v"]["i"])).get(rl))
        if op == "put":
            bits = e["v"]["i"]
            data = bytearray(sum(x << j for j, x in enumerate(bits[k:k + 8])) for k in range(0, len(bits), 8))
            o = OutputBuffer()
            o.set(BitView(data, 0, len(bits) / 8.0), rl)
            return bits_v(o.get())
        raise Misuse(op)


def fresh(sch):
    return World(sch)


def gen_sch(rnd, prof):
    return 0


def gen(rnd, prof):
    def step(k):
        if k["k"] == "sl" and rnd.random() < .06:
            k["st"] = rnd.choice([1, 1, 1, 2, 2, 3, 0, -1, 8])
        if rnd.random() < .01:
            return {"k": "odd", "n": rnd.randrange(len(ODD))}
        return k

    def key(total, depth=0):
        return step(key1(total, depth))

    def atom(opn):
        return step(atom1(opn))

    def key1(total, depth=0):
        k = rnd.random()
        if k < .3:
            return {"k": "ix", "n": rnd.choice([0, total - 1, total, total // 2, rnd.randint(0, max(0, total))])}
        if k < .85 or depth:
            a, b = rnd.randint(0, total), rnd.randint(0, total)
            if rnd.random() < .9 and a > b:
                a, b = b, a
            if rnd.random() < .15:
                b = total + rnd.randint(0, 2)
            return {"k": "sl", "lo": a if rnd.random() < .85 else -1, "hi": b if rnd.random() < .85 else -1}
        return {"k": "lst", "l": [key(total, 1) for _ in range(rnd.randint(1, 3))]}

    def bytesl(opn):
        a, b = rnd.randint(0, 12), rnd.randint(0, 12)
        if rnd.random() < .95 and a > b:
            a, b = b, a
        f = 8 if rnd.random() < .85 else 1
        a, b = a * f, b * f
        return {"k": "sl", "lo": a if rnd.random() < .8 else -1, "hi": -1 if opn else b}

    def atom1(opn):
        k = rnd.random()
        if k < .4 and not opn:
            return {"k": "ix", "n": rnd.randint(0, 12) if rnd.random() < .97 else -2}
        if k < .75:
            return bytesl(opn)
        l = [atom(False) if rnd.random() < .8 else bytesl(False) for _ in range(rnd.randint(1, 3))]
        if opn:
            l.append(bytesl(True))
        return {"k": "lst", "l": l}

    def size(e):
        if e["k"] == "ix":
            return 8
        if e["k"] == "sl":
            return 24 if e["hi"] < 0 else max(0, e["hi"] - max(0, e["lo"]))
        if e["k"] == "lst":
            return sum(size(x) for x in e["l"])
        return 0

    def expr(depth=0):
        k = rnd.random()
        if k < .35:
            return atom(rnd.random() < .15)
        if k < .8 or depth > 2:
            p = atom(rnd.random() < .15)
            return {"k": "bits", "p": p, "key": key(size(p))}
        return {"k": "add", "a": expr(depth + 1), "b": expr(depth + 1)}

    for _ in range(rnd.randint(1, 3)):
        n = 0
        if rnd.random() < .5:
            l = []
            for _ in range(rnd.choice([0, 1, 2, 2, 3, 3, 4, 5])):
                f = rnd.choice([1, 8])
                a = rnd.randint(0, 10) * f
                l.append([a, -1 if rnd.random() < .12 else a + f * rnd.choice([0, 1, 1, 2, 3, 5])])
            if rnd.random() < .4:      # disjoint, then shuffled
                p, l = 0, []
                for _ in range(rnd.randint(1, 4)):
                    p += rnd.choice([0, 0, 1, 3, 8])
                    m = rnd.choice([1, 2, 5, 8, 8, 16])
                    l.append([p, p + m])
                    p += m
                if rnd.random() < .2:
                    l[-1][1] = -1
                rnd.shuffle(l)
            n = len(l)
            yield {"op": "mk", "l": l}
        else:
            r = yield {"op": "ref", "e": expr(), "via": rnd.choice([0, 0, 1, 2, 3, 4])}
            if r["t"] == "rs":
                n = len(r["k"])
        for q in ("overlaps", "open", "length", "end"):
            yield {"op": q}
        yield {"op": "reach", "n": rnd.choice([0, 1, 8, 8, 16, rnd.randint(0, 90)])}
        yield {"op": "sorted"}
        yield {"op": "close", "n": rnd.randint(60, 120)}
        yield {"op": "has", "n": rnd.randint(0, 60)}
        if n >= 2:
            yield {"op": "pair", "a": rnd.randint(1, n), "b": rnd.randint(1, n)}
        yield {"op": "get", "v": V("bytes", [rnd.randint(0, 255) for _ in range(14)])}
        yield {"op": "put", "v": V("bits", [rnd.randint(0, 1) for _ in range(rnd.choice([20, 60, 128]))])}

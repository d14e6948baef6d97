"""Bit arrays (spec: BitArray.tla)."""
from common import *
from infi.instruct.buffer.io_buffer import BitView, BitAwareByteArray


def bits_v(bits):
    return V("bits", bits)


def pack_bits(bits):
    b = list(bits)
    while len(b) % 8:
        b.append(0)
    return bytearray(sum(x << j for j, x in enumerate(b[k:k + 8])) for k in range(0, len(b), 8))


class World(object):
    def __init__(self, sch):
        self.h = {1: BitAwareByteArray(bytearray()), 2: BitAwareByteArray(bytearray()), 3: BitAwareByteArray(bytearray())}
        # where the bits of a new array lie inside its backing bytes, and what surrounds them
        self.rnd = random.Random(sch)
        self.plain = sch % 3 == 0

    def make(self, bits, mutable, plain=False):
        r = self.rnd
        off = 0 if plain or self.plain else r.choice([0, 0, 1, 3, 5, 7, 8, 9, 12])
        tail = 0 if plain or self.plain else r.choice([0, 0, 1, 4, 8, 15])
        allb = [r.randint(0, 1) for _ in range(off)] + list(bits) + [r.randint(0, 1) for _ in range(tail)]
        garbage = 0 if self.plain else 1
        while len(allb) % 8:
            allb.append(r.randint(0, 1) * garbage)
        data = pack_bits(allb)
        start, stop = off / 8.0, (off + len(bits)) / 8.0
        if mutable:
            return BitAwareByteArray(data, start, stop)
        return BitView(bytes(data) if r.random() < .5 else data, start, stop)

    def bits(self, h):
        x = self.h[h]
        s = x.to_bitstr()
        if int(x.length() * 8) != len(s):
            return V("other")
        return bits_v([int(c) for c in reversed(s)])

    def value(self, v, via=0):
        if v["t"] == "bits":
            return self.make(v["i"], via % 2)
        if v["t"] == "bytes":
            d = bytearray(v["i"])
            return [d, bytes(d), list(d), iter(list(d))][via % 4]
        return dec(v)

    def apply(self, e):
        op = e["op"]
        h = e["h"]
        x = self.h[h]
        if op == "new":
            self.h[h] = self.make(e["v"]["i"], e["mut"])
            return self.bits(h)
        if op == "bits":
            return self.bits(h)
        if op == "len":
            n8 = x.length() * 8
            if n8 != int(n8):
                return V("other")
            return V("list", (), [enc_int(n8), enc_int(len(x))])
        if op == "bytes":
            return enc(x.to_bytes())
        if op == "barr":
            r = x.to_bytearray()
            return enc(r) if isinstance(r, bytearray) else V("other")
        if op == "iter":
            return V("bytes", [b for b in x])
        if op == "str":
            return enc(x.to_bitstr())
        if op == "byte":
            return enc(x[e["lo"] / 8.0])
        if op == "slice":
            lo, hi = e["lo"], e["hi"]
            n = x.length() * 8
            # an omitted bound is the same as naming the end
            a = None if lo == 0 and e.get("omit") else lo / 8.0
            b = None if hi == n and e.get("omit") else hi / 8.0
            self.h[e["g"]] = x[a:b]
            return self.bits(e["g"])
        if op == "set":
            x[e["lo"] / 8.0:e["hi"] / 8.0] = self.value(e["v"], e.get("via", 0))
            return self.bits(h)
        if op == "del":
            del x[e["lo"] / 8.0:e["hi"] / 8.0]
            return self.bits(h)
        if op == "ins":
            x.insert(e["lo"] / 8.0, self.value(e["v"], e.get("via", 0)))
            return self.bits(h)
        if op == "ext":
            if e.get("via"):
                x += self.make(e["v"]["i"], 0)
                self.h[h] = x
            else:
                x.extend(self.make(e["v"]["i"], 0))
            return self.bits(h)
        if op == "zfill":
            x.zfill(e["n"] / 8.0)
            return self.bits(h)
        if op == "add":
            self.h[e["g"]] = x + self.h[e["o"]]
            return self.bits(e["g"])
        if op == "same":
            return V("list", (), [self.bits(j) for j in (1, 2, 3)])
        raise Misuse(op)


def fresh(sch):
    return World(sch)


def gen(rnd, prof):
    """Yields events; receives their outcomes."""
    n = {1: 0, 2: 0, 3: 0}
    mut = {1: 1, 2: 1, 3: 1}
    big = rnd.random() < .1
    huge = rnd.random() < .06

    def rbits(m):
        k = rnd.randint(0, 3)
        if k == 0:
            return [1] * m
        if k == 1:
            return [(j // 3) & 1 for j in range(m)]
        return [rnd.randint(0, 1) for _ in range(m)]

    def rlen():
        if huge and rnd.random() < .3:
            return rnd.choice([256, 257, 264, 511, 512, rnd.randint(200, 700)])
        return rnd.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, rnd.randint(0, 40), rnd.randint(0, 160 if big else 26)])

    def rng(m):
        lo = rnd.choice([0, m, rnd.randint(0, m), rnd.randint(0, m), rnd.randint(0, m) // 8 * 8])
        hi = rnd.choice([m, rnd.randint(0, m), rnd.randint(0, m), min(m, lo + rnd.randint(0, 9)), min(m, (lo + 8) // 8 * 8)])
        if lo > hi:
            lo, hi = hi, lo
        return lo, hi

    def value(m):
        k = rnd.random()
        if k < .5:
            return V("bits", rbits(rnd.choice([m, m, rlen()])))
        if k < .75:
            return V("bytes", [rnd.choice([0, 255, rnd.randint(0, 255)]) for _ in range(rnd.choice([(m + 7) // 8, m // 8, rnd.randint(0, 4)]))])
        if m == 0:
            return V("bits", rbits(rlen()))
        bound = rnd.choice([m, m, max(m - 1, 0), m + 1, rnd.randint(0, m), rnd.randint(0, 8)])
        x = rnd.choice([0, 1, (1 << bound) - 1, rnd.getrandbits(bound) if bound else 0, -1 if rnd.random() < .3 else 1])
        return enc_int(x)

    def track(h, r):
        if r["t"] == "bits":
            n[h] = len(r["i"])

    for h in (1, 2):
        m = rlen()
        mut[h] = 1 if h == 1 else rnd.randint(0, 1)
        r = yield {"op": "new", "h": h, "mut": mut[h], "v": V("bits", rbits(m))}
        track(h, r)
    for _ in range(rnd.randint(3, 9)):
        h = rnd.choice([1, 1, 1, 2, 3])
        m = n[h]
        lo, hi = rng(m)
        if rnd.random() < .15 and m:
            lo = lo - m if lo < m else lo      # the same offsets, counted from the end
            hi = hi - m if hi < m and hi > 0 else hi
        op = rnd.choice(["set", "set", "set", "del", "ins", "ext", "zfill"]) if mut[h] and rnd.random() < .65 else \
            rnd.choice(["slice", "bytes", "barr", "iter", "str", "byte", "len", "add", "same", "bits"])
        if op == "set":
            e = {"op": op, "h": h, "lo": lo, "hi": hi, "v": value(max(0, (hi + m if hi < 0 else min(hi, m)) - (lo + m if lo < 0 else min(lo, m)))), "via": rnd.randint(0, 3)}
        elif op == "del":
            e = {"op": op, "h": h, "lo": lo, "hi": hi}
        elif op == "ins":
            v = value(8)
            e = {"op": op, "h": h, "lo": lo, "hi": lo, "v": v, "via": rnd.randint(0, 3)}
        elif op == "ext":
            e = {"op": op, "h": h, "v": V("bits", rbits(rlen())), "via": rnd.randint(0, 1)}
        elif op == "zfill":
            e = {"op": op, "h": h, "n": max(0, m + rnd.choice([0, 1, 7, 8, 9, rnd.randint(-5, 30)]))}
        elif op == "slice":
            g = rnd.choice([3, h])
            if lo < 0 and lo + m > (hi if hi >= 0 else hi + m):
                continue
            e = {"op": op, "h": h, "lo": lo, "hi": hi, "g": g, "omit": rnd.randint(0, 1)}
        elif op == "byte":
            if m == 0:
                continue
            e = {"op": op, "h": h, "lo": rnd.randint(0, m - 1)}
        elif op == "add":
            o = rnd.choice([1, 2, 3])
            if not (mut[h] or mut[o]):
                continue
            e = {"op": op, "h": h, "o": o, "g": 3}
        else:
            e = {"op": op, "h": h}
        if "lo" in e and "hi" in e:
            a = e["lo"] + m if e["lo"] < 0 else min(e["lo"], m)
            b = e["hi"] + m if e["hi"] < 0 else min(e["hi"], m)
            if a > b:
                continue
        r = yield e
        if op in ("slice", "add"):
            track(e["g"], r)
            mut[e["g"]] = 1 if op == "add" else mut[h]
        else:
            track(h, r)
        if op in ("set", "ins") and r["t"] == "err":
            r = yield {"op": "bits", "h": h}
    yield {"op": "same", "h": 1}


def gen_sch(rnd, prof):
    return rnd.randint(0, 1 << 20)

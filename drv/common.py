"""Shared by the drivers that run the code under test (PyPy, /repo/src)."""
import os, sys, signal, struct, resource, json, random, math, io

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
if "VERIF_REPO" in os.environ:          # a scratch copy (mutation testing)
    import infi
    infi.__path__ = [os.path.join(REPO, "src", "infi")] + list(infi.__path__)
sys.setrecursionlimit(3000)
try:
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
except Exception:
    pass


class Hang(BaseException):
    pass


class Misuse(Exception):
    """The driver was asked for something that makes no sense: a bug of the driver."""


_hung = [False]


def _on_timer(sig, frame):
    _hung[0] = True
    raise Hang()


signal.signal(signal.SIGPROF, _on_timer)


def V(t, i=(), k=()):
    return {"t": t, "i": list(i), "k": list(k)}


ERR, OK, NONE, HANG = V("err"), V("ok"), V("none"), V("hang")
MAX_EVENT_SECONDS = 4.0


def digits(n):
    r = []
    while n:
        r.append(n & 255)
        n >>= 8
    return r


def enc_int(n):
    n = int(n)
    return V("int", [1 if n < 0 else 0] + digits(abs(n)))


def enc_float(x):
    if x != x:
        return V("float", [127, 248, 0, 0, 0, 0, 0, 0])
    return V("float", list(struct.pack(">d", x)))


def enc(v, obj=None):
    """The specification's representation of a Python value; obj encodes everything unknown here."""
    if v is None:
        return NONE
    if isinstance(v, bool) or isinstance(v, int):
        return enc_int(v)
    if isinstance(v, float):
        return enc_float(v)
    if isinstance(v, (bytes, bytearray)):
        return V("bytes", list(v))
    if isinstance(v, str):
        return V("str", [ord(c) for c in v])
    if isinstance(v, (list, tuple)):
        return V("list", (), [enc(x, obj) for x in v])
    if isinstance(v, dict):
        return V("dict", (), [enc(x, obj) for kv in sorted(v.items()) for x in kv])
    if obj is not None:
        r = obj(v)
        if r is not None:
            return r
    return V("other", [ord(c) for c in type(v).__name__])


def dec(v, obj=None):
    t, i, k = v["t"], v["i"], v["k"]
    if t == "none":
        return None
    if t == "int":
        n = 0
        for d in reversed(i[1:]):
            n = n * 256 + d
        return -n if i[0] else n
    if t == "float":
        return struct.unpack(">d", bytes(bytearray(i)))[0]
    if t == "bytes":
        return bytes(bytearray(i))
    if t == "str":
        return "".join(chr(c) for c in i)
    if t == "list":
        return [dec(x, obj) for x in k]
    if t == "dict":
        return dict((dec(k[j], obj), dec(k[j + 1], obj)) for j in range(0, len(k), 2))
    if obj is not None:
        return obj(v)
    raise Misuse("cannot decode %r" % (v,))


def outcome(fn, *args):
    """Runs one operation; its outcome is the value it returns, an error, or that it did not end."""
    _hung[0] = False
    signal.setitimer(signal.ITIMER_PROF, MAX_EVENT_SECONDS, 0.5)
    try:
        try:
            r = fn(*args)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Misuse:
        raise
    except Hang:
        return HANG
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        if os.environ.get("VERIF_DEBUG"):
            sys.stderr.write("  [%s: %s]\n" % (type(e).__name__, str(e).replace("\n", " | ")[:300]))
        return HANG if _hung[0] else ERR
    return HANG if _hung[0] else r


def pick(rnd, weighted):
    """weighted: list of (weight, value)"""
    tot = sum(w for w, _ in weighted)
    x = rnd.random() * tot
    for w, v in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][1]

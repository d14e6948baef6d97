"""record DOMAIN PROFILE SEED COUNT OUT : random histories of the real code
   replay DOMAIN IN OUT               : run given histories (with expected results), report differences"""
from common import *
import importlib, time


def record(dom, prof, seed, count, out, budget):
    m = importlib.import_module("d_" + dom)
    traces = []
    t0 = time.time()
    hangs = 0
    for k in range(count):
        if time.time() - t0 > budget or hangs > 3:
            break
        rnd = random.Random("%s/%s/%s/%s" % (dom, prof, seed, k))
        sch = m.gen_sch(rnd, prof)
        w = m.fresh(sch)
        g = m.gen_for(rnd, prof, sch) if hasattr(m, "gen_for") else m.gen(rnd, prof)
        evs = []
        r = None
        try:
            e = next(g)
            while True:
                r = outcome(w.apply, e)
                if r["t"] == "hang":
                    hangs += 1
                if r["t"] == "bytes" and len(r["i"]) > 400:
                    break               # too large to be checked in reasonable time
                evs.append(dict(e, res=r))
                if r["t"] == "hang":
                    break
                e = g.send(r)
        except StopIteration:
            pass
        traces.append({"sch": m.slim(sch) if hasattr(m, "slim") else sch, "ev": evs, "n": k})
    with open(out, "w") as f:
        json.dump({"traces": traces}, f)


def match(e, a):
    if e["t"] == "any":
        return a["t"] != "hang"
    if e["t"] == "prefix":
        return a["t"] == "bytes" and e["i"][:len(a["i"])] == a["i"]
    if e["t"] == "bounds":
        if a["t"] != "list" or len(a["k"]) != 2 or any(x["t"] != "int" or x["i"][0] for x in a["k"]):
            return False
        if e["i"] == [1]:
            return a["k"] == e["k"]
        n = [dec(x) for x in a["k"] + e["k"]]
        return n[0] <= n[2] and n[3] <= n[1]
    return e["t"] == a["t"] and e["i"] == a["i"] and len(e["k"]) == len(a["k"]) and \
        all(match(x, y) for x, y in zip(e["k"], a["k"]))


def replay(dom, inp, out):
    m = importlib.import_module("d_" + dom)
    data = json.load(open(inp))
    bad = []
    nev = 0
    for n, t in enumerate(data["traces"]):
        w = m.fresh(t["sch"])
        for j, e in enumerate(t["ev"]):
            r = outcome(w.apply, e)
            nev += 1
            if not match(e["res"], r):
                bad.append({"trace": n, "i": j + 1, "want": e["res"], "got": r,
                            "sch": t["sch"], "ev": t["ev"][:j + 1]})
                break
        if len(bad) >= 5:
            break
    with open(out, "w") as f:
        json.dump({"bad": bad, "traces": len(data["traces"]), "events": nev}, f)


if __name__ == "__main__":
    a = sys.argv
    if a[1] == "record":
        record(a[2], a[3], a[4], int(a[5]), a[6], float(a[7]) if len(a) > 7 else 60)
    else:
        replay(a[2], a[3], a[4])

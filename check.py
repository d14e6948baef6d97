#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's current tree (VERIF_TIER, VERIF_SEED)
   check.py --replay FILE       run a reported violation again and show what differs
   check.py --setup             parse every specification"""
import glob, json, os, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import tlc
from plans import PLANS

PYPY = "/opt/venv-pypy/bin/python"
DRV = os.path.join(ROOT, "drv")
KNOWN = os.path.join(ROOT, "known_findings.json")


class Failure(Exception):
    pass


def drive(args, timeout):
    """Runs the code under test. Returns None, or what went wrong."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    try:
        r = subprocess.run([PYPY, "-W", "ignore", os.path.join(DRV, "drive.py")] + args, cwd=DRV, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return "the code under test did not finish within %ds: %s" % (timeout, " ".join(args))
    if r.returncode != 0:
        return "the driver ended with status %d:\n%s" % (r.returncode, r.stdout[-3000:])
    return None


class Check(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif.%s." % pid)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_compared=0,
                        random_histories=0, model_behaviours_replayed=0, stages=[], samples=[])
        self.violations = []

    # -- the model: explore, check its invariants, export behaviours and replay them on the code
    def mc(self, dom, module, cfg, workers, timeout):
        t = time.time()
        r = tlc.run(module, workers=workers, timeout=timeout, cfg=cfg, heap="8g")
        if r["violated"]:
            raise tlc.TLCError("the model %s violates its own invariant %s\n%s" % (cfg, r["violated"], r["out"][-4000:]))
        behs = []
        for line in r["out"].splitlines():
            if line.startswith('"@@BEH '):
                behs.append(json.loads(json.loads(line)[6:]))
        st = dict(stage="model", module=module, config=cfg, states=r["distinct"], transitions=r["states"],
                  behaviours=len(behs))
        if not behs and dom:
            raise tlc.TLCError("the model %s exported nothing" % cfg)
        bad = []
        if behs:
            behs.sort(key=lambda b: json.dumps(b))
            n = min(workers, 6, 1 + len(behs) // 700)
            files = []
            for k in range(n):
                f = os.path.join(self.tmp, "%s.%d.in" % (cfg, k))
                json.dump({"traces": behs[k::n]}, open(f, "w"))
                files.append(f)
            with ThreadPoolExecutor(n) as ex:
                errs = list(ex.map(lambda f: drive(["replay", dom, f, f + ".out"], timeout), files))
            for f, e in zip(files, errs):
                if e:
                    bad.append(dict(dom=dom, error=e))
                    continue
                o = json.load(open(f + ".out"))
                self.cov["events_compared"] += o["events"]
                for b in o["bad"]:
                    bad.append(dict(dom=dom, sch=b["sch"], ev=b["ev"], i=b["i"], want=b["want"], got=b["got"], source=cfg))
            self.cov["model_behaviours_replayed"] += len(behs)
            self.cov["traces_validated_against_impl"] += len(behs)
            self.sample("behaviour of %s" % cfg, behs[len(behs) // 2])
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["states"]
        st["wall_s"] = round(time.time() - t, 1)
        self.cov["stages"].append(st)
        return bad

    # -- the code: record random histories and validate them against the specification
    def trace(self, dom, prof, count, module, workers, timeout, shards):
        t = time.time()
        files = [os.path.join(self.tmp, "%s.%s.%d.rec" % (dom, prof, k)) for k in range(shards)]
        budget = timeout * 0.4
        with ThreadPoolExecutor(shards) as ex:
            errs = list(ex.map(lambda k: drive(["record", dom, prof, "%s.%d" % (self.seed, k), str(count // shards),
                                                files[k], str(budget)], timeout), range(shards)))
        bad, traces = [], []
        for f, e in zip(files, errs):
            if e:
                bad.append(dict(dom=dom, error=e))
            else:
                traces += json.load(open(f))["traces"]
        st = dict(stage="histories", domain=dom, profile=prof, traces=len(traces), asked=count,
                  record_s=round(time.time() - t, 1))
        if traces:
            f = os.path.join(self.tmp, "%s.%s.json" % (dom, prof))
            json.dump({"traces": [dict(sch=x["sch"], ev=x["ev"]) for x in traces]}, open(f, "w"))
            r = tlc.run(module, env={"TRACES": f}, workers=workers, timeout=timeout, heap="8g")
            want = sum(len(x["ev"]) + 1 for x in traces)
            rej = {}
            for line in r["out"].splitlines():
                if line.startswith('"@@REJECT '):
                    j = json.loads(json.loads(line)[9:])
                    rej[j["tid"]] = j
            lost = sum(len(traces[k - 1]["ev"]) - (j["i"] - 1) for k, j in rej.items())
            if r["distinct"] != want - lost:
                raise tlc.TLCError("%s checked %d of %d states" % (module, r["distinct"], want - lost))
            for k in sorted(rej):
                x, j = traces[k - 1], rej[k]
                ev = x["ev"][:j["i"]]
                bad.append(dict(dom=dom, sch=x["sch"], ev=ev, i=j["i"], want=j["want"], got=ev[-1]["res"],
                                source="history %s/%s" % (prof, x["n"])))
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["states"]
            self.cov["events_compared"] += want - len(traces)
            self.cov["random_histories"] += len(traces)
            self.cov["traces_validated_against_impl"] += len(traces)
            st["tlc_s"] = round(r["wall"], 1)
            st["states"] = r["distinct"]
            ok = [x for k, x in enumerate(traces) if k + 1 not in rej]
            if ok:
                self.sample("history %s/%s" % (dom, prof), ok[len(ok) // 3])
        self.cov["stages"].append(st)
        return bad

    def sample(self, what, x):
        s = json.dumps(x)
        self.cov["samples"].append({"from": what, "case": json.loads(s) if len(s) < 6000 else s[:6000]})

    def run(self):
        plan = PLANS[self.pid][self.tier] if self.tier in PLANS[self.pid] else PLANS[self.pid]["quick"]
        limit = 800 if self.tier == "quick" else 6 * 3600
        jobs = []
        for s in plan:
            if s["kind"] == "mc":
                jobs.append((self.mc, (s["dom"], s["module"], s["cfg"])))
            else:
                jobs.append((self.trace, (s["dom"], s["prof"], s["count"], s["module"])))
        par = min(len(jobs), 3)
        w = max(2, 8 // par)
        errors = []

        def one(job):
            fn, a = job
            try:
                if fn == self.mc:
                    return fn(*a, workers=w, timeout=limit)
                return fn(*a, workers=w, timeout=limit, shards=max(1, min(w, a[2] // 100)))
            except tlc.TLCError as x:
                errors.append(str(x))
                return []
        with ThreadPoolExecutor(par) as ex:
            for bad in ex.map(one, jobs):
                self.violations += bad
        return errors

    def finish(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)


def signature(b):
    """A violation is known only if the same history fails with the same result."""
    return json.dumps([b.get("dom"), b.get("sch"), [dict((k, v) for k, v in e.items() if k != "res") for e in b.get("ev", [])],
                       b.get("got")], sort_keys=True)


def short(x):
    """Values as Python would write them, everything else as JSON."""
    if isinstance(x, dict) and set(x) == {"t", "i", "k"}:
        t, i, k = x["t"], x["i"], x["k"]
        if t == "int":
            return str((-1 if i[0] else 1) * sum(d << (8 * n) for n, d in enumerate(i[1:])))
        if t == "bytes":
            return repr(bytes(i))
        if t == "str":
            return repr("".join(map(chr, i)))
        if t == "float":
            import struct
            return repr(struct.unpack(">d", bytes(i))[0])
        if t == "list":
            return "[%s]" % ", ".join(map(short, k))
        return "%s%s%s" % (t, i or "", "(%s)" % ", ".join(map(short, k)) if k else "")
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%s: %s" % (k, short(v)) for k, v in x.items())
    if isinstance(x, list):
        return "[%s]" % ", ".join(map(short, x))
    return json.dumps(x)


def show(b):
    print("domain %s   (%s)" % (b["dom"], b.get("source", "")))
    if "error" in b:
        print(b["error"])
        return
    print("subject: %s" % short(b["sch"]))
    for e in b["ev"]:
        print("  " + short(e))
    print("specified: %s\nobserved:  %s" % (short(b["want"]), short(b["got"])))


def main():
    if sys.argv[1] == "--setup":
        sys.exit(setup())
    if sys.argv[1] == "--replay":
        b = json.load(open(sys.argv[2]))
        show(b)
        if "error" in b:
            sys.exit(1)
        t = tempfile.mkdtemp(prefix="verif.replay.")
        f = os.path.join(t, "in")
        ev = [dict(e) for e in b["ev"]]
        ev[-1]["res"] = b["want"]
        json.dump({"traces": [dict(sch=b["sch"], ev=ev)]}, open(f, "w"))
        os.environ["VERIF_DEBUG"] = "1"
        e = drive(["replay", b["dom"], f, f + ".out"], 120)
        bad = e or json.load(open(f + ".out"))["bad"]
        print("now: %s" % ("as specified" if not bad else e or json.dumps(bad[0]["got"])))
        shutil.rmtree(t, ignore_errors=True)
        sys.exit(1 if bad else 0)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(pid, tier, seed)
    errors = c.run()
    known = {}
    if os.path.exists(KNOWN):
        for k in json.load(open(KNOWN))["findings"]:
            if k["property"] == pid:
                known[k["signature"]] = k
    new = []
    for b in c.violations:
        k = known.get(signature(b))
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            new.append(b)
    c.violations = new
    c.finish()
    print("%s %s seed=%d: %d states, %d transitions, %d traces against the code, %d results compared, %.1fs" % (
        pid, tier, seed, c.cov["states"], c.cov["transitions"], c.cov["traces_validated_against_impl"],
        c.cov["events_compared"], time.time() - c.t0))
    if new:
        d = os.path.join(ROOT, "out", "replay")
        os.makedirs(d, exist_ok=True)
        new.sort(key=lambda b: len(json.dumps(b)))
        path = os.path.join(d, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump(new[0], f, indent=1)
        show(new[0])
        print("%d violations" % len(new))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if errors:
        for e in errors:
            print("CHECK ERROR: " + e)
        sys.exit(2)
    sys.exit(0)


def setup():
    rc = 0
    for f in sorted(glob.glob(os.path.join(ROOT, "spec", "*.tla"))):
        r = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY", os.path.basename(f)], cwd=tlc.SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = r.returncode != 0 or "*** Errors" in r.stdout or "Could not parse" in r.stdout
        print("%-28s %s" % (os.path.basename(f), "ERROR" if bad else "ok"))
        if bad:
            print(r.stdout[-2000:])
            rc = 1
    return rc


if __name__ == "__main__":
    main()

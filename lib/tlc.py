"""Runs TLC and reads what it prints."""
import os, re, subprocess, tempfile, shutil, time

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")

class TLCError(Exception):
    pass

def run(module, env=None, workers=8, timeout=600, cfg=None, heap="6g", extra=(), coverage=False):
    """Returns dict(states, distinct, prints=[...], violated=None|name, trace=text, wall)."""
    meta = tempfile.mkdtemp(prefix="tlcmeta.")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:-UsePerfData",
           "-Djava.io.tmpdir=" + meta,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-deadlock", "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        out = r.stdout
        rc = r.returncode
    except subprocess.TimeoutExpired as x:
        raise TLCError("TLC timeout on %s after %ss" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = dict(rc=rc, out=out, wall=time.time() - t, states=0, distinct=0, prints=[], violated=None)
    m = re.findall(r"^([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out, re.M)
    if m:
        res["states"], res["distinct"] = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"Invariant (\S+) is violated", out)
    if m:
        res["violated"] = m.group(1)
    elif rc != 0 or "Model checking completed. No error" not in out and "-simulate" not in extra:
        raise TLCError("TLC failed on %s (rc %s):\n%s" % (module, rc, "\n".join(l for l in out.splitlines() if not l.startswith(('"@@', "Parsing file", "Semantic processing")))[-6000:]))
    return res

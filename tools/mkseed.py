#!/usr/bin/env python3
"""mkseed.py FILE.py : makes /verif/seeded/<id>/ from a description with
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source; exits nonzero on failure).
Checks in a scratch copy that it applies, passes the tests, and that the demonstration tells the trees apart."""
import os, subprocess, sys, json, shutil, tempfile
PY = "/opt/venv-pypy/bin/python"
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
SC = tempfile.mkdtemp(prefix="sc.")
open(SC + "/sitecustomize.py", "w").write("import os\nimport infi\ninfi.__path__ = [os.environ['SCR'] + '/src/infi'] + list(infi.__path__)\n")
def make(path):
    d = {}
    exec(open(path).read(), d)
    out = os.environ.get("SEEDOUT", "/verif/seeded/") + d["ID"]
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src${PYTHONPATH:+:$PYTHONPATH}"\nexec timeout 60 /opt/venv-pypy/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    open(out + "/demo.py", "w").write(d["DEMO"].lstrip())
    json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        sh("cp -a /repo/. %s/" % tmp, "/")
        r = sh("bash %s/demo.sh" % out, tmp, env=dict(os.environ, PYTHONPATH=SC, SCR=tmp))
        if r.returncode:
            return "demo fails on the unchanged tree:\n" + r.stdout[-1500:]
        for f, old, new in d["EDITS"]:
            p = os.path.join(tmp, "src/infi/instruct", f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d occurrences of %r" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", tmp).stdout
        open(out + "/patch.diff", "w").write(diff)
        if sh("git -C /repo apply --check %s/patch.diff" % out, tmp).returncode:
            return "does not apply"
        base = [l for f in set(e[0] for e in d["EDITS"]) for l in
                sh("git show $(git rev-list --max-parents=0 HEAD):src/infi/instruct/%s" % f, tmp).stdout.splitlines()]
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not any(l in base for l in gone):
            return "changes no original line: %r" % gone
        r = sh("PYTHONDONTWRITEBYTECODE=1 %s -m pytest -q -p no:cacheprovider -W ignore tests 2>&1 | tail -15" % PY, tmp,
               env=dict(os.environ, PYTHONPATH=SC + ":" + tmp + "/src", SCR=tmp))
        if "116 passed" not in r.stdout or "failed" in r.stdout.splitlines()[-1]:
            return "tests: " + r.stdout[-1500:]
        r = sh("bash %s/demo.sh" % out, tmp, env=dict(os.environ, PYTHONPATH=SC, SCR=tmp))
        if r.returncode == 0:
            return "demo passes with the change"
        return None
    finally:
        shutil.rmtree(tmp)
for f in sys.argv[1:]:
    e = make(f)
    print(os.path.basename(f), "OK" if e is None else "BAD " + e, flush=True)
shutil.rmtree(SC)

#!/usr/bin/env python3
"""Development tool: makes /verif/seeded/<id>/ from a description of a planted
bug and confirms it in a scratch copy (tests still pass, the demonstration
passes without the change and fails with it).

  seed.py FILE...      each FILE defines SEEDS = [dict(id, property, needs, breaks, edits, demo)]"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/seedcheck"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=cwd, MPLBACKEND="Agg")
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    for f in sys.argv[1:]:
        for s in runpy.run_path(f)["SEEDS"]:
            one(s)


def one(s):
    shutil.rmtree(SCRATCH, ignore_errors=True)
    shutil.copytree("/repo", SCRATCH, symlinks=True)
    out = os.path.join(HERE, "seeded", s["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    with open(os.path.join(out, "demo.py"), "w") as g:
        g.write(s["demo"].lstrip("\n"))
    with open(os.path.join(out, "demo.sh"), "w") as g:
        g.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg\n'
                'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    base = sh("bash %s/demo.sh" % out, SCRATCH)
    for file, old, new in s["edits"]:
        p = os.path.join(SCRATCH, file)
        t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], "EDIT MATCHES", t.count(old), "TIMES:", old[:60])
            shutil.rmtree(out)
            return
        open(p, "w").write(t.replace(old, new))
    d = sh("git diff -- norfair", SCRATCH).stdout
    open(os.path.join(out, "patch.diff"), "w").write(d)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    bad = sh("bash %s/demo.sh" % out, SCRATCH)
    tests = sh(PY + " -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --disable-warnings tests", SCRATCH)
    ok = base.returncode == 0 and bad.returncode != 0 and " passed" in tests.stdout and "25 passed" in tests.stdout
    c = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), s["property"], "--repo", SCRATCH, "--evidence", "/tmp/seedev"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(s["id"], s["property"], "VALID" if ok else "INVALID", "check exit", c.returncode)
    if not ok:
        print("  base", base.returncode, base.stdout[-800:], "\n  bad", bad.returncode, bad.stdout[-300:], "\n ", tests.stdout[-300:])
    if c.returncode != 1:
        print("   ", c.stdout[-600:])
    shutil.rmtree(SCRATCH, ignore_errors=True)
    if not ok:
        shutil.rmtree(out)


main()

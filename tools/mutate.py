"""development aid: apply textual mutations to a scratch copy and list unit verdicts
usage: mutate.py MODULE UNIT FILE  <<  old => new lines"""
import signal, sys, os, shutil, subprocess, importlib
sys.path.insert(0, "/verif")
from nfa.prog import Program

def alarm(*_):
    raise RuntimeError("time")


signal.signal(signal.SIGALRM, alarm)
root = "/tmp/w/mut"
if not os.path.exists(root):
    os.makedirs("/tmp/w", exist_ok=True)
    shutil.copytree("/repo", root, ignore=shutil.ignore_patterns(".git", "*.pyc", "demos", "docs"))
mod, names, f = sys.argv[1], sys.argv[2].split(","), sys.argv[3]
m = importlib.import_module("specs." + mod)
names = [k for x in names for k, v in list(vars(m).items()) if type(v).__name__ == "Unit" and (k == x or x.endswith("*") and k.startswith(x[:-1]))]
src = open("/repo/" + f).read()
for line in sys.stdin.read().split("\n%%\n"):
    line = line.strip("\n")
    if not line:
        continue
    old, new = line.split(" => ")
    old, new = old.replace("\\n", "\n"), new.replace("\\n", "\n")
    ind = old[: len(old) - len(old.lstrip())]
    if "\n" not in ind and not new.startswith(ind):
        new = ind + new.lstrip()
    print("##", repr(old)[:70], "=>", repr(new)[:70], "" if src.count(old) == 1 else "COUNT %d" % src.count(old))
    if old not in src:
        continue
    mut = src.replace(old, new, 1)
    open(root + "/" + f, "w").write(mut)
    try:
        compile(mut, f, "exec")
    except SyntaxError as e:
        print("   SYNTAX", e)
        continue
    hit = False
    for nm in names:
        u = getattr(m, nm)
        signal.alarm(60)
        try:
            o = u.run(Program(root))
        except Exception as e:
            print("   CRASH", nm, repr(e)[:200]); continue
        signal.alarm(0)
        bad = [r for r in o.results if r.v != "eq"]
        hit = hit or bad
        if bad:
            print("   ", nm, "; ".join(str(r)[:160] for r in bad[:4]))
    if not hit:
        print("    ALL EQ")
open(root + "/" + f, "w").write(src)

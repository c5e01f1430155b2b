#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--repo /repo]

Decides one property of norfair from the source in /repo's working tree.
exit 0: every obligation held (or is reported as undecided in the evidence),
exit 1: a violation (line VIOLATION property=... replay=...),
exit 2: the specification found nothing to analyse."""
import argparse
import fnmatch
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from nfa.prog import Program
from nfa.unit import Missing
from nfa.compare import Res
from nfa.terms import EQ, NE, UNK
from specs import registry

KNOWN = os.path.join(HERE, "known_findings.txt")


# observables that concern every property decided at a unit
ALWAYS = ("signature", "decorated", "cached", "shared-write")


class TimeUp(Exception):
    pass


def alarm(*a):
    raise TimeUp()


def known_findings(prop):
    """(key, text) of the findings recorded and not repaired"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out.append((key.strip(), text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--evidence", default=os.path.join(HERE, "evidence"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property
    deep = a.tier == "thorough"
    deadline = t0 + 780
    limit = lambda: max(5, min(420 if deep else 150, int(deadline - time.time())))
    try:
        prog = Program(a.repo)
    except SyntaxError as e:
        print("the tree does not parse: %s" % e)
        return 2
    results, functions, errors, analysed, notes = [], set(), [], [], []
    obligations = 0
    missing = []
    signal.signal(signal.SIGALRM, alarm)
    for module, name, pats in registry.UNITS.get(prop, ()):
        u = registry.unit(module, name)
        key = module + "." + name
        if deep:
            u.budget *= 10
            u.seq_budget *= 10
        signal.alarm(limit())
        try:
            o = u.run(Program(a.repo))
        except Missing as e:
            missing.append("%s: %s" % (key, e))
            continue
        except TimeUp:
            errors.append((key, "time limit"))
            continue
        except Exception as e:  # the analysis itself gave up
            errors.append((key, "%s: %s" % (type(e).__name__, str(e)[:300])))
            if a.v:
                traceback.print_exc()
            continue
        finally:
            signal.alarm(0)
        obligations += o.obligations
        if o.impl is not None:
            functions |= o.impl.I.calls_analysed
            if o.impl.I.unsupported:
                notes.append((key, o.impl.I.unsupported[:4]))
        n = 0
        for r in o.results:
            if r.key in ALWAYS or any(fnmatch.fnmatch(r.key, p) for p in pats):
                results.append((key, r))
                n += 1
        if any(p.startswith("content:") for p in pats) and o.impl is not None and not any(r.key.startswith("content:") for r in o.results):
            results.append((key, Res("content:none", EQ, "", "%s:%d in %s" % (o.fi.file, o.fi.line, o.fi.qual))))
            n += 1
        analysed.append({"unit": key, "function": o.fi.qual, "at": "%s:%d" % (o.fi.file, o.fi.line), "observables": n})
    for module, name in registry.RULES.get(prop, ()):
        f = registry.unit(module, name)
        key = module + "." + name
        signal.alarm(limit())
        try:
            rep = f(Program(a.repo), deep)
        except Missing as e:
            missing.append("%s: %s" % (key, e))
            continue
        except TimeUp:
            errors.append((key, "time limit"))
            continue
        except Exception as e:
            errors.append((key, "%s: %s" % (type(e).__name__, str(e)[:300])))
            if a.v:
                traceback.print_exc()
            continue
        finally:
            signal.alarm(0)
        obligations += rep.obligations
        functions |= set(rep.functions)
        for r in rep.results:
            results.append((key, r))
        analysed.append({"unit": key, "function": rep.what, "at": rep.rule[:200], "observables": len(rep.results)})
    # ------------------------------------------------------------------
    eqs = [x for x in results if x[1].v == EQ]
    nes = [x for x in results if x[1].v == NE]
    unks = [x for x in results if x[1].v == UNK]
    known = known_findings(prop)
    viol, found = [], set()
    for key, r in nes:
        k = "%s %s %s" % (key, r.key, r.where.split(" in ")[-1])
        hit = [t for t in known if t[0] == k]
        if hit:
            found.add(hit[0])
        else:
            viol.append((key, r, k))
    for k, t in sorted(found):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    rdir = os.path.join(a.evidence, "replay")
    if viol:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".txt")
        with open(path, "w") as f:
            f.write("property %s, tree %s\n" % (prop, a.repo))
            for key, r, k in viol:
                f.write("\n[%s] observable %s\n  at %s\n  %s\n" % (key, r.key, r.where, r.why))
                f.write("  (key: %s)\n" % k)
            f.write("\nreplay: python3 /verif/check.py %s -v\n" % prop)
        seen = set()
        for key, r, k in viol:
            line = "%s: %s differs from the rule of %s: %s" % (r.where, r.key, key, r.why[:400])
            if line not in seen and len(seen) < 12:
                print(line)
            seen.add(line)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for key, r in unks[:20]:
        print("undecided: %s %s at %s: %s" % (key, r.key, r.where, r.why[:300]))
    for k, e in errors:
        print("not analysed: %s: %s" % (k, e))
    for m in missing:
        print("missing: %s" % m)
    os.makedirs(a.evidence, exist_ok=True)
    samples = [
        "%s %s at %s: %s" % (k, r.key, r.where, {"eq": "equal", "ne": "DIFFERENT", "unk": "undecided"}[r.v])
        for k, r in (nes + unks + eqs)[:12]
    ]
    from specs.describe import LEVEL_NOTE, ASSUMPTIONS

    ev = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": LEVEL_NOTE,
            "tree_digest": prog.digest()[:16],
            "units": analysed,
            "functions_analysed": sorted(functions)[:150],
            "n_functions": len(functions),
            "observables": len(results),
            "observables_equal": len(eqs),
            "observables_different": len(nes),
            "observables_undecided": len(unks),
            "term_comparisons": obligations,
            "undecided": ["%s %s: %s" % (k, r.key, r.why[:200]) for k, r in unks[:20]],
            "not_analysed": [list(x) for x in errors],
            "missing_anchors": missing,
            "constructs_without_model": [[k, [list(map(str, y)) for y in n]] for k, n in notes[:10]],
            "samples": samples,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(a.evidence, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.v:
        for k, r in results:
            print("  ", k, r.key, r.v)
    print("%s: %d observables of %d units: %d equal, %d different (%d known), %d undecided; %d functions, %d comparisons, %.1f s"
          % (prop, len(results), len(analysed), len(eqs), len(nes), len(nes) - len(viol), len(unks), len(functions), obligations, time.time() - t0))
    if viol:
        return 1
    if not results:
        print("nothing of the specification was found in the tree")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())

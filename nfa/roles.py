"""Functions identified by what they do, not by their (private) name."""
import ast

from .unit import Missing, find, find_class, params


def called_names(fi):
    """names of methods / functions a function calls (syntactically)"""
    out = set()
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Attribute):
                out.add(f.attr)
            elif isinstance(f, ast.Name):
                out.add(f.id)
    return out


def callees(prog, fi):
    """functions of the program a function may call: own class, module, imports"""
    out = []
    for n in sorted(called_names(fi)):
        f = None
        if fi.cls is not None:
            f = prog.find_method(fi.cls, n)
        if f is None:
            r = prog.resolve(fi.module, n)
            if r and r[0] == "func":
                f = prog.functions[r[1]]
        if f is not None and f is not fi:
            out.append(f)
    return out


def reach(prog, fi, seen=None):
    seen = {} if seen is None else seen
    if fi.qual in seen:
        return seen
    seen[fi.qual] = fi
    for f in callees(prog, fi):
        reach(prog, f, seen)
    return seen


def reached_names(prog, fi, stop=()):
    out = set()
    for f in reach(prog, fi).values():
        if f.qual not in stop:
            out |= called_names(f)
    return out


def deepest(prog, root, names):
    """the functions below root that reach calls of all the names and have no
    callee that does"""
    out = []
    for f in reach(prog, root).values():
        if f is root:
            continue
        if not set(names) <= reached_names(prog, f):
            continue
        if any(set(names) <= reached_names(prog, g) for q, g in reach(prog, f).items() if g is not f):
            continue
        out.append(f)
    return out


def stage(prog):
    """the function that runs one matching stage of Tracker.update"""
    up = find(prog, "Tracker.update")
    r = deepest(prog, up, ["get_distances", "hit", "merge"])
    if len(r) != 1:
        raise Missing("matching stage (a helper of Tracker.update that computes distances, hits and merges)")
    return r[0]


def matcher(prog):
    c = find_class(prog, "Tracker")
    f = prog.find_method(c, "match_dets_and_objs")
    if f is None:
        raise Missing("Tracker.match_dets_and_objs")
    return f

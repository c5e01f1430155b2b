"""Rules over the whole program (property -> registry.rule)."""
import ast
import itertools

from nfa import imports as im
from nfa.compare import Res
from nfa.terms import EQ, NE, UNK


class Report:
    def __init__(self, what, rule):
        self.what, self.rule = what, rule
        self.results, self.functions, self.obligations = [], set(), 0

    def add(self, key, v, why="", where=""):
        self.results.append(Res(key, v, why, where))
        self.obligations += 1


# ---------------------------------------------------------------------------
# C26: optional dependencies

EXTRAS = {"cv2": "video", "motmetrics": "metrics", "pandas": "metrics"}


def _run(prog, missing):
    """the package and each module of it, imported with `missing` absent"""
    it = im.Importer(prog, set(missing), set(EXTRAS))
    fails = {}
    for name, m in sorted(prog.modules.items()):
        if name.split(".")[0] != "norfair" or m.path.startswith("<"):
            continue
        try:
            it.load(name, m, m.tree)
        except im.Raised as r:
            fails[name] = r
        except RecursionError:
            raise RuntimeError("import analysis too deep")
    return it, fails


def _uses(m, name):
    """how the module uses a global name: attributes read, calls, other loads"""
    attrs, calls, other = {}, [], []
    seen = set()
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == name:
            attrs.setdefault(x.attr, x)
            seen.add(id(x.value))
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == name:
            calls.append(x)
            seen.add(id(x.func))
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in seen:
            other.append(x)
    return attrs, calls, other


def _function_imports(m):
    """(import statement, enclosing tries, function) for imports inside functions"""
    out = []

    def go(node, fn, tries):
        for field, val in ast.iter_fields(node):
            for x in val if isinstance(val, list) else [val]:
                if not isinstance(x, ast.AST):
                    continue
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    go(x, x, [])
                elif isinstance(x, (ast.Import, ast.ImportFrom)) and fn is not None:
                    out.append((x, list(tries), fn))
                elif isinstance(x, ast.Try):
                    for s in x.body:
                        go(ast.Module([s], []), fn, tries + [x])
                    for s in x.handlers + x.orelse + x.finalbody:
                        go(ast.Module([s], []), fn, tries)
                else:
                    go(x, fn, tries)

    go(m.tree, None, [])
    return out


def optional_imports(prog, deep):
    rep = Report("the bodies of all modules of norfair",
                 "abstract import of every module with every subset of {cv2, motmetrics, pandas} raising ImportError: nothing "
                 "escapes, and every name bound to an optional package is bound to a placeholder whose use raises ImportError naming the extra")
    full, fails = _run(prog, ())
    for n, r in fails.items():
        rep.add("import:" + n, UNK, "importing %s raises %s with everything installed" % (n, r.text()), r.where())
    mods = [m for n, m in sorted(prog.modules.items()) if n in full.env]
    libs = {}  # (module, name) -> package
    for m in mods:
        rep.functions |= {f.qual for f in prog.functions.values() if f.module is m}
        for n, v in full.env[m.name].items():
            if isinstance(v, im.Lib):
                libs[m.name, n] = v
    subsets = [s for k in range(1, 4) for s in itertools.combinations(sorted(EXTRAS), k)]
    bad = {(r.where(), r.text()) for r in full.maybe} | {(r.where(), r.text()) for r in fails.values()}
    for missing in subsets:
        it, fails = _run(prog, missing)
        tag = "+".join(missing)
        for m in mods:
            if m.name in fails:
                r = fails[m.name]
                k = (r.where(), r.text())
                if k not in bad:
                    bad.add(k)
                    rep.add("import:%s without %s" % (m.name, tag), NE,
                            "importing norfair without %s raises %s" % (tag, r.text()), r.where())
            else:
                rep.add("import:%s without %s" % (m.name, tag), EQ, "", m.rel + ":1")
        for r in it.maybe:
            k = (r.where(), r.text())
            if k not in bad:
                bad.add(k)
                rep.add("import-maybe:" + tag, UNK, "may raise %s" % r.text(), r.where())
        for m in mods:
            env = it.env.get(m.name)
            if env is None or m.name in fails:
                continue
            for n in full.env[m.name]:
                if n in env or n.startswith("#"):
                    continue
                attrs, calls, other = _uses(m, n)
                x = next(iter(list(attrs.values()) + calls + other), None)
                if (x is not None or (m.name, n) in libs) and (m.name, n, "unbound") not in bad:
                    bad.add((m.name, n, "unbound"))
                    rep.add("bound:%s.%s" % (m.name, n), NE, "without %s the name %s is not bound" % (tag, n),
                            "%s:%d" % (m.rel, getattr(x, "lineno", 1)))
            for (mn, n), lib in sorted(libs.items()):
                if mn != m.name or lib.pkg not in missing or n not in env:
                    continue
                _placeholder(rep, it, m, n, env[n], lib, tag, bad)
    # imports inside functions
    for m in mods:
        for imp, tries, fn in _function_imports(m):
            names = [a.name for a in imp.names] if isinstance(imp, ast.Import) else [imp.module or ""] if not imp.level else []
            for nm in names:
                pkg = nm.split(".")[0]
                if pkg not in EXTRAS:
                    continue
                where = "%s:%d in %s" % (m.rel, imp.lineno, fn.name)
                key = "local-import:%s.%s" % (m.name, fn.name)
                hs = [h for t in tries for h in t.handlers]
                ok = []
                for h in hs:
                    nms = [x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)] if h.type is not None else ["BaseException"]
                    if any(im.catches(z, "ImportError") for z in nms):
                        ok.append(h)
                if not ok:
                    rep.add(key, NE, "imports %s without a guard against ImportError" % nm, where)
                elif any(isinstance(x, ast.Constant) and isinstance(x.value, str) and im.says(x.value, EXTRAS[pkg])
                         for h in ok for x in ast.walk(h)):
                    rep.add(key, EQ, "", where)
                else:
                    rep.add(key, UNK, "what the handler leaves behind is not known", where)
    return rep


def _placeholder(rep, it, m, n, v, lib, tag, bad):
    attrs, calls, other = _uses(m, n)
    uses = [("attribute " + a, a, x) for a, x in sorted(attrs.items())]
    if not uses and not calls:
        uses = [("attribute", "anything_at_all", other[0] if other else m.tree)]
    extra = EXTRAS[lib.pkg]
    for what, a, x in uses + [("call", None, c) for c in calls[:1]]:
        where = "%s:%d" % (m.rel, getattr(x, "lineno", 1))
        key = "placeholder:%s.%s %s" % (m.name, n, what)
        n_maybe = len(it.maybe)
        it.uncertain = 0
        try:
            if a is not None:
                r = it.attr(v, a, m, x)
            else:
                r = it.call(v, [], {}, m, x)
        except im.Raised as r:
            if len(it.maybe) > n_maybe:
                res = (UNK, "the placeholder raises under a test that is not known")
            elif r.kind is None:
                res = (UNK, "what the placeholder raises is not known")
            elif not im.catches("ImportError", r.kind):
                res = (NE, "without %s, using %s.%s raises %s instead of ImportError" % (lib.pkg, n, a or "()", r.text()))
            elif r.msg is None or "\0" in r.msg and not im.says(r.msg, extra):
                res = (UNK, "the message of the placeholder is not known")
            elif not im.says(r.msg, extra):
                res = (NE, "without %s, using %s raises ImportError without naming norfair[%s]" % (lib.pkg, n, extra))
            else:
                res = (EQ, "")
        else:
            if isinstance(r, im.Unk) or isinstance(v, im.Unk):
                res = (UNK, "what stands in for %s is not known" % lib.pkg)
            else:
                res = (NE, "without %s, using %s.%s raises nothing" % (lib.pkg, n, a or "()"))
        if res[0] == EQ:
            rep.add(key + " without " + tag, EQ, "", where)
        elif (key, res) not in bad:
            bad.add((key, res))
            rep.add(key, res[0], res[1], where)


# ---------------------------------------------------------------------------
# C18: no shared mutable state

from nfa.prog import MUTATORS, walk_own  # noqa: E402

TRACKING = ("norfair.tracker", "norfair.filter", "norfair.distances", "norfair.camera_motion", "norfair.utils")
CONTAINERS = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MAKERS = {"list", "dict", "set", "bytearray", "defaultdict", "OrderedDict", "deque", "Counter", "array", "zeros", "ones",
          "empty", "full", "eye", "arange", "asarray", "WeakKeyDictionary", "WeakValueDictionary"}
IMMUTABLE_CALLS = {"property", "namedtuple", "TypeVar", "frozenset", "tuple", "compile", "getLogger", "partial"}


def _kind(prog, m, e):
    """'container', ('instance', class) or None for an expression evaluated once at import time"""
    if isinstance(e, CONTAINERS):
        return "container"
    if isinstance(e, ast.Call):
        f = e.func
        last = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if last in MAKERS:
            return "container"
        if isinstance(f, ast.Name):
            r = prog.resolve(m, f.id)
            if r and r[0] == "class":
                return ("instance", r[1])
    return None


def _ancestors(prog, c):
    out, todo = [], [c]
    while todo:
        c = todo.pop()
        if c is None or c in out:
            continue
        out.append(c)
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                r = prog.resolve(c.module, b.id)
                if r and r[0] == "class":
                    todo.append(prog.classes.get(r[1]))
    return out


def _locals(fn):
    a = fn.args
    out = {y.arg for y in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]}
    gl = {n for x in ast.walk(fn) if isinstance(x, ast.Global) for n in x.names}
    return (out | {y.id for y in ast.walk(fn) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}) - gl


def _target_writes(fn):
    """(node, base expression, attribute or None, how) of everything a function stores or changes in place"""
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
            yield x, x.value, x.attr, "store"
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
            yield x, x.value, None, "item"
        elif isinstance(x, ast.AugAssign) and not isinstance(x.target, ast.Subscript):
            yield x, x.target, None, "augmented"
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
            yield x, x.func.value, None, x.func.attr
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "delattr") and len(x.args) > 1:
            a = x.args[1]
            yield x, x.args[0], a.value if isinstance(a, ast.Constant) else "?", "store"
        elif isinstance(x, ast.Call):
            for k in x.keywords:
                if k.arg == "out":
                    yield x, k.value, None, "out="


def _class_of(prog, f, e):
    """the class an expression denotes (not an instance of it)"""
    if isinstance(e, ast.Name):
        if e.id == "cls" and f.cls is not None and f.kind == "classmethod":
            return f.cls
        if e.id in _locals(f.node):
            return None
        r = prog.resolve(f.module, e.id)
        return prog.classes.get(r[1]) if r and r[0] == "class" else None
    if isinstance(e, ast.Attribute) and e.attr == "__class__" and f.cls is not None and isinstance(e.value, ast.Name) and e.value.id == "self":
        return f.cls
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1 \
            and isinstance(e.args[0], ast.Name) and e.args[0].id == "self":
        return f.cls
    return None


def _only_warns(fn):
    """a function without results that changes nothing but what it remembers"""
    return not any(isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None)
                   for x in walk_own(fn)) and not any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in walk_own(fn))


def _aliases(fn, names):
    """local names that may denote the same object as one of `names` (plain copies of the reference)"""
    out = set(names)
    changed = True
    while changed:
        changed = False
        for x in walk_own(fn):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name) and t.id not in out and _plain(x.value) & out:
                        out.add(t.id)
                        changed = True
    return out


def _plain(e):
    """names whose object an expression may evaluate to"""
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, ast.IfExp):
        return _plain(e.body) | _plain(e.orelse)
    if isinstance(e, ast.BoolOp):
        return set().union(*[_plain(x) for x in e.values])
    if isinstance(e, ast.NamedExpr):
        return _plain(e.value)
    return set()


def shared_state(prog, deep):
    rep = Report("the functions of " + ", ".join(TRACKING),
                 "class attributes, module globals, default argument values and the objects behind them are never stored to or "
                 "changed in place; the only exception is the counter global_count")
    fs = [f for q, f in sorted(prog.functions.items()) if f.module.name in TRACKING and not f.module.path.startswith("<")]
    for f in fs:
        rep.functions.add(f.qual)
        loc = _locals(f.node)
        where = lambda x: "%s:%d in %s" % (f.module.rel, getattr(x, "lineno", f.node.lineno), f.qual)
        bad = False
        quiet = _only_warns(f.node)
        gl = {n for x in ast.walk(f.node) if isinstance(x, ast.Global) for n in x.names}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in gl and not quiet:
                rep.add("global:" + x.id, NE, "assigns the module global %s" % x.id, where(x))
                bad = True
        # parameters whose default value is a shared object
        a = f.node.args
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        defaults = {}
        for p, d in pairs:
            k = _kind(prog, f.module, d)
            if k is None and isinstance(d, ast.Name):
                r = prog.resolve(f.module, d.id)
                if r and r[0] == "expr":
                    k = _kind(prog, f.module, r[-1] if isinstance(r[-1], ast.AST) else d)
            if k is not None:
                defaults[p.arg] = k
        for p, k in defaults.items():
            al = _aliases(f.node, {p})
            if k == "container":
                for x, base, attr, how in _target_writes(f.node):
                    if isinstance(base, ast.Name) and base.id in al and attr is None and (how != "augmented" or True):
                        rep.add("default:" + p, NE, "changes its default argument %s in place (%s)" % (p, how), where(x))
                        bad = True
                for x in walk_own(f.node):
                    if isinstance(x, ast.Assign) and _plain(x.value) & al:
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and t.attr in prog.mutated:
                                g, y = prog.mutated[t.attr]
                                rep.add("default:" + p, NE, "keeps its default argument %s as .%s, which %s changes in place" % (p, t.attr, g.qual), where(x))
                                bad = True
            else:
                c = prog.classes[k[1]]
                for h in _ancestors(prog, c):
                    for g in list(h.methods.values()) + list(h.setters.values()):
                        if g.name in ("__init__", "__new__"):
                            continue
                        me = (g.node.args.posonlyargs + g.node.args.args)[:1]
                        if not me:
                            continue
                        for x, base, attr, how in _target_writes(g.node):
                            while isinstance(base, ast.Subscript):
                                base = base.value
                            hit = isinstance(base, ast.Name) and base.id == me[0].arg and attr is not None
                            hit = hit or attr is None and isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and base.value.id == me[0].arg
                            if hit:
                                rep.add("default:" + p, NE, "its default argument %s is one %s for all callers, and %s changes it" % (p, c.name, g.qual),
                                        "%s:%d in %s" % (g.module.rel, x.lineno, g.qual))
                                bad = True
        for x, base, attr, how in _target_writes(f.node):
            while isinstance(base, ast.Subscript):
                base = base.value
            c = _class_of(prog, f, base)
            if c is not None and attr is not None:
                if attr != "global_count" and not quiet and not c.module.path.startswith("<"):
                    rep.add("class:%s.%s" % (c.name, attr), NE, "stores to the attribute %s of the class %s" % (attr, c.name), where(x))
                    bad = True
                continue
            if attr is not None:
                continue
            # in place on a module global
            if isinstance(base, ast.Name) and base.id not in loc:
                r = prog.resolve(f.module, base.id)
                if r and r[0] == "expr" and not quiet:
                    rep.add("global:" + base.id, NE, "changes the module global %s in place (%s)" % (base.id, how), where(x))
                    bad = True
            elif isinstance(base, ast.Attribute):
                # in place on a class attribute
                c = _class_of(prog, f, base.value)
                if c is None and isinstance(base.value, ast.Name) and f.cls is not None and f.kind == "function" and \
                        [y.arg for y in a.posonlyargs + a.args][:1] == [base.value.id]:
                    own = any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == base.attr
                              for h in _ancestors(prog, f.cls) for g in h.methods.values() for y in ast.walk(g.node))
                    c = None if own else f.cls
                if c is not None and base.attr != "global_count":
                    for h in _ancestors(prog, c):
                        if base.attr in h.attrs and (_kind(prog, h.module, h.attrs[base.attr]) == "container" or how == "augmented" and _class_of(prog, f, base.value)):
                            if not quiet:
                                rep.add("class:%s.%s" % (h.name, base.attr), NE, "changes the attribute %s of the class %s in place (%s)" % (base.attr, h.name, how), where(x))
                                bad = True
                            break
        if not bad:
            rep.add("shared:" + f.qual, EQ, "", where(f.node))
    return rep

"""A unit: one public function of the program and its reference snippet."""
import ast
import fnmatch

from . import contracts
from . import terms as T
from .terms import *
from .compare import Comparer, Res, summarise, IGNORED_KINDS, IGNORED_NAMES

PRELUDE = """
import numpy as np
import cv2
import os
import math
import itertools
import copy
"""


class Missing(Exception):
    """a public anchor of the specification is not there any more"""


def find(prog, path):
    """'Class.method' / 'function' / 'pkg.module:Class.method' -> FuncInfo"""
    mod = None
    if ":" in path:
        mod, path = path.split(":")
    head, _, meth = path.partition(".")
    if meth:
        c = find_class(prog, head, mod)
        if meth.endswith("=setter"):
            for k in prog.mro(c):
                if meth[:-7] in k.setters:
                    return k.setters[meth[:-7]]
            raise Missing(path)
        f = prog.find_method(c, meth)
        if f is None:
            raise Missing(path)
        return f
    if mod is not None and mod in prog.modules:
        r = prog.resolve(prog.modules[mod], head)
        if r and r[0] == "func":
            return prog.functions[r[1]]
    f = prog.func_named(head)
    if f is None:
        r = prog.resolve(prog.modules["norfair"], head)
        if r and r[0] == "func":
            return prog.functions[r[1]]
        raise Missing(path)
    return f


def find_class(prog, name, mod=None):
    if mod is not None and mod in prog.modules:
        r = prog.resolve(prog.modules[mod], name)
        if r and r[0] == "class":
            return prog.classes[r[1]]
    c = prog.class_named(name)
    if c is None:
        r = prog.resolve(prog.modules["norfair"], name)
        if r and r[0] == "class":
            return prog.classes[r[1]]
        raise Missing("class " + name)
    return c


def slice_extent(s, n):
    """(elements selected by the slice as numpy counts them, no bound is negative)"""
    if s is None:
        return n, TRUE
    norm = lambda x: ite(lt(x, ZERO), max2(add(x, n), ZERO), min2(x, n))
    lo = ZERO if s.lo is None else s.lo
    hi = n if s.hi is None else s.hi
    pos = and_(*[not_(lt(x, ZERO)) for x in (s.lo, s.hi) if x is not None])
    if s.lo is None and s.hi is None:
        return n, TRUE
    return max2(T.sub(norm(hi), norm(lo)), ZERO), pos


def slice_ranges(impl):
    """assignments to slices: source and target have the same extent, and no bound
    counts from the end of the array"""
    out = []
    for facts, tgt, src, where in getattr(impl.I, "slice_records", []):
        if not src or len(src) > len(tgt):
            out.append(Res("slices", UNK, "source not tracked", where))
            continue
        for k in range(1, len(src) + 1):
            (s, n), (q, m) = tgt[-k], src[-k]
            es, ps = slice_extent(s, n)
            eq_, pq = slice_extent(q, m)
            if q is None and m is ONE:
                eq_ = es
            r = decide_equal(es, eq_, facts)
            out.append(Res("slices:extent%d" % k, r.v, "target vs source extent: " + r.why if r.v != EQ else "", where))
            for e, p in ((es, ps), (eq_, pq)):
                if p is not TRUE:
                    r = decide_equal(ite(p, ZERO, e), ZERO, facts)
                    out.append(Res("slices:bounds%d" % k, r.v, "negative bound of a slice: " + r.why if r.v != EQ else "", where))
    return out


def decide_equal(a, b, facts):
    from .refute import refute

    r = equal(a, b, facts.copy(), 3000)
    if r.v != EQ:
        q = refute(a, b, facts)
        if q is not None:
            return q
        if r.v == NE:
            return Verdict(UNK, r.why)
    return r


class Unit:
    def __init__(self, name, target, spec, types=None, shapes=None, stops=(), setup=None, events=None,
                 options=None, ignore=(), budget=3000, seq_budget=3000, cls=None, effects=None, extra=None,
                 event_args=None, assume=None, pure=(), mtypes=None, classes=(), only=None, exclude=(),
                 rtypes=None, fresh=(), driver=None, values=None, same=None, strict_shapes=False, escape=False):
        self.escape = escape
        self.strict_shapes = strict_shapes
        self.values, self.same = values or {}, same
        # the analysed function is a small use of the public interface
        self.driver = driver
        self.rtypes, self.fresh = rtypes or {}, fresh
        self.name, self.target, self.spec = name, target, spec
        self.types, self.shapes = types or {}, shapes or {}
        self.stop_names, self.setup = stops, setup
        self.event_filter = events
        self.interp_options = dict(options or {})
        if pure:
            self.interp_options["pure_methods"] = frozenset(pure)
        if mtypes:
            self.interp_options["method_types"] = dict(mtypes)
        self.ignore = set(ignore)
        self.budget, self.seq_budget = budget, seq_budget
        self.cls = cls
        self.effects = effects or {}
        self.extra = extra or {}
        self._event_args = event_args
        self.assume = assume
        self.classes = classes
        self.only, self.exclude = only, exclude
        self._stops = None

    # hooks used by compare ------------------------------------------------
    def stops(self, prog):
        if self._stops is None:
            self._stops = set()
            for s in self.stop_names:
                if callable(s):
                    self._stops.update(s(prog))
                elif s[0].isupper() and "." not in s:
                    self._stops.add(find_class(prog, s).qual)
                else:
                    try:
                        self._stops.add(find(prog, s).qual)
                    except Missing:
                        if not s.split(".")[-1].startswith("_"):
                            raise
        return self._stops

    def stop_effects(self, prog):
        out = {}
        for k, v in self.rtypes.items():
            out[find(prog, k).qual] = typed_return(v)
        for k, v in self.effects.items():
            out[find(prog, k).qual] = v
        return out

    def wants(self, key):
        if any(fnmatch.fnmatch(key, p) for p in self.exclude):
            return False
        return self.only is None or any(fnmatch.fnmatch(key, p) for p in self.only)

    def channel(self, e):
        if e.kind in IGNORED_KINDS or e.kind in ("raise",):
            return None
        if e.name in IGNORED_NAMES or e.name in self.ignore:
            return None
        if self.event_filter is not None:
            return self.event_filter(e)
        n = e.name
        if e.kind == "ucall":
            return "callable"
        return n.rsplit(".", 1)[-1] if e.kind == "call" else n

    def event_args(self, e, fz):
        if self._event_args is not None:
            return self._event_args(e, fz)
        return None

    def prepare(self, I, st, args):
        for k, t in self.assume_terms(args):
            st.facts.assume(t)
        if self.setup is not None:
            self.setup(I, st, args)

    def assume_terms(self, args):
        if self.assume is None:
            return []
        return [(None, t) for t in self.assume(args)]

    # ------------------------------------------------------------------
    def run(self, prog):
        contracts.install(prog)
        Ctx.strict_shapes = self.strict_shapes
        Ctx.escape = self.escape
        contracts.EXTRA.update(self.extra)
        fi = self.target(prog) if callable(self.target) else find(prog, self.target)
        name = "spec_" + self.name.replace(".", "_").replace(":", "_").replace("-", "_")
        if self.driver:
            md = prog.add_source(name + "_use", PRELUDE + self.driver, like=fi.module.name)
            owner, fi = fi, md.functions["use"]
            fi.cls = None
            fi.owner = owner
        m = prog.add_source(name, PRELUDE + (self.spec(prog) if callable(self.spec) else self.spec), like=fi.module.name)
        # the specification gives a meaning to the attributes it mentions
        Ctx.vocab = Ctx.vocab | {x.attr for x in ast.walk(m.tree) if isinstance(x, ast.Attribute)}
        for cn in ("Detection", "TrackedObject", "Tracker") + tuple(self.classes):
            try:
                c = find_class(prog, cn)
                if cn not in m.classes:
                    m.names[cn] = ("class", c.qual)
            except Missing:
                pass
        sf = m.functions["spec"]
        sf.cls = None
        args_i, args_s = {}, {}
        pi, ps = params(fi.node), params(sf.node)
        self.notes = []
        if len(pi) < len(ps):
            return Outcome(self, fi, None, None, [Res("signature", UNK, "fewer parameters than documented")])
        res = []
        npos = len([x for x in sf.node.args.posonlyargs + sf.node.args.args])
        syms = {}
        for k, p in enumerate(ps):
            s = mk("sym", p)
            syms[p] = s
            t = self.types.get(p)
            if t is None and k == 0 and fi.cls is not None and fi.kind != "staticmethod":
                if fi.kind == "classmethod":
                    s = mk("class", fi.cls.qual)
                    syms[p] = s
                else:
                    t = ("cls", (find_class(prog, self.cls) if self.cls else fi.cls).qual)
            if callable(t):
                t = t(prog)
            if isinstance(t, tuple):
                t = self.qualify(prog, t)
            if p in self.values:
                s = syms[p] = self.values[p](syms)
            elif t is not None:
                Ctx.types[s] = t
            args_s[p] = s
        # public parameter names bind by name, the first one (self) by position
        for k, p in enumerate(ps):
            if p in pi:
                args_i[p] = syms[p]
            elif k < len(pi):
                args_i[pi[k]] = syms[p]
                if not p.startswith("_") and k > 0 and not fi.name.startswith("_") and p not in ("args", "kwargs"):
                    self.notes.append("parameter %s renamed to %s" % (p, pi[k]))
            else:
                return Outcome(self, fi, None, None, [Res("signature", UNK, "parameter " + p)])
        for p, sh in self.shapes.items():
            # 'a.b.c' paths
            t = self.path(syms, p)
            if t is not None:
                Ctx.shapes[t] = tuple(self.size(x, syms) for x in sh)
                if ty(t) is None:
                    Ctx.types[t] = "arr"
        for p, t in self.types.items():
            if "." in p:
                s = self.path(syms, p)
                if s is not None:
                    t = t(prog) if callable(t) else t
                    if isinstance(t, tuple) and t[0] == "dict" and len(t) == 3:
                        t = (t[0], t[1], self.path(syms, t[2]))
                        Ctx.types.setdefault(t[2], "int")
                    Ctx.types[s] = self.qualify(prog, t) if isinstance(t, tuple) else t
        T._ty_memo.clear()
        impl = summarise(prog, fi, self, args_i, "impl")
        spec = summarise(prog, sf, self, args_s, "spec")
        # and so do the functions of the program that the specification refers to
        for q in spec.I.calls_analysed:
            g = prog.functions.get(q) if hasattr(prog, "functions") else None
            if g is not None and g is not fi:
                Ctx.vocab = Ctx.vocab | {x.attr for x in ast.walk(g.node) if isinstance(x, ast.Attribute)}
        pre = self.align(impl, spec) if hasattr(self, "align") else []
        c = Comparer(impl, spec, self)
        out = pre + c.run()
        out += self.freshness(impl, syms)
        out += self.memoised(prog, impl, fi)
        out += slice_ranges(impl)
        out += self.defaults(prog, impl, spec, fi, sf, pi, ps)
        o = Outcome(self, fi, impl, spec, out)
        o.obligations = c.obligations
        o.cmp = c
        return o

    def defaults(self, prog, impl, spec, fi, sf, pi, ps):
        out = []
        di, ds = default_exprs(fi.node), default_exprs(sf.node)
        for k, p in enumerate(ps):
            if p not in ds:
                continue
            if isinstance(ds[p], ast.Constant) and ds[p].value is Ellipsis:
                continue
            q = p if p in pi else pi[k] if k < len(pi) else None
            if q is None or q not in di:
                out.append(Res("default:" + p, NE if q is not None else UNK, "no default value", f"{fi.file}:{fi.line} in {fi.qual}"))
                continue
            st = spec.st.copy()
            x = impl.I.freeze(impl.st, impl.I.default_value(impl.st, fi, q, di[q], None))
            y = spec.I.freeze(spec.st, spec.I.default_value(spec.st, sf, p, ds[p], None))
            r = equal(x, y, Facts(), 100)
            if r.v == NE and (x.op in ("obj", "global") or y.op in ("obj", "global")):
                r = Verdict(UNK, r.why)
            out.append(Res("default:" + p, r.v, r.why, f"{fi.file}:{fi.line} in {fi.qual}"))
        return out

    def memoised(self, prog, impl, fi):
        """functions behind a decorator that remembers results, or an unknown one"""
        where = f"{fi.file}:{fi.line} in {fi.qual}"
        out = [Res("shared-write", NE, "changes in place the object that %s hands out at each call" % q, w)
               for w, q in dict.fromkeys(impl.I.shared_writes)]
        if fi.decorated:
            out.append(Res("decorated", UNK, "decorator " + fi.decorated[0], where))
        if fi.cached:
            changing = stored_later(prog)
            reads = sorted({x.attr for x in ast.walk(fi.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)} & set(changing))
            old = [] if impl.dead else [r for r, own in roots(impl.I, impl.st, impl.ret_loc) if own]
            if reads:
                out.append(Res("cached", NE, "the result is remembered (%s) although it depends on %s, which %s changes"
                               % (fi.cached, reads[0], changing[reads[0]]), where))
            elif old and "ret" not in self.fresh and fi.qual.rsplit(".", 1)[-1].startswith("_"):
                # what the callers do to it is seen where they are analysed
                out.append(Res("cached", EQ, "", where))
            elif old:
                v = NE if "ret" in self.fresh or any(r.op == "ref" for r in old) else UNK
                out.append(Res("cached", v, "the same object is handed out at each call", where))
            else:
                out.append(Res("cached", EQ, "", where))
        return out

    def freshness(self, impl, syms):
        """values that must not share memory with anything older than the call"""
        out = []
        if self.same and not impl.dead:
            # the value returned is the argument itself, not a copy of it
            rs = roots(impl.I, impl.st, impl.ret_loc)
            bad = [r for r in rs if r[0] is not syms[self.same]]
            v, why = (EQ, "") if rs and not bad else (UNK, "not tracked")
            if any(r[1] for r in bad) and not impl.I.unsupported:
                v, why = NE, "not the %s passed: %s" % (self.same, ", ".join(show(r[0])[:100] for r in bad))
            out.append(Res("same:ret", v, why, f"{impl.fi.file}:{impl.fi.line} in {impl.fi.qual}"))
        for key in self.fresh:
            if impl.dead:
                continue
            if key == "ret":
                loc = impl.ret_loc
            else:
                loc = impl.I.read_field(impl.st, syms["self"], key)
            v, why = UNK, "not tracked"
            rs = [(r, own and r not in impl.I.shared) for r, own in roots(impl.I, impl.st, loc)]
            # what a function of the user returns is the user's own
            old = [r for r in rs if not r[1] and r[0].op != "ucall"]
            if not old:
                v, why = EQ, ""
            elif any(r[0].op in ("sym", "attr", "ret", "global", "at") or r[0] in impl.I.shared for r in old) and not impl.I.unsupported:
                v, why = NE, "shares memory with " + ", ".join(show(r[0])[:100] for r in old)
            if v == EQ and (key != "ret" or "self" in syms):
                # nor with another field of the object
                for k, log in impl.st.heap.items():
                    if k[0] == "f" and k[1] != key:
                        for e in log:
                            if e[0] == "w" and e[1] is syms["self"]:
                                for r, _ in roots(impl.I, impl.st, e[2]):
                                    if r in [x[0] for x in rs]:
                                        v, why = NE, "shares memory with field " + k[1]
            out.append(Res("fresh:" + key, v, why, f"{impl.fi.file}:{impl.fi.line} in {impl.fi.qual}"))
        return out

    def qualify(self, prog, t):
        if isinstance(t, tuple):
            if t[0] == "cls" and "." not in t[1]:
                return ("cls", find_class(prog, t[1]).qual)
            return tuple(self.qualify(prog, x) if isinstance(x, tuple) else x for x in t)
        return t

    @staticmethod
    def path(syms, p):
        parts = p.split(".")
        t = syms.get(parts[0])
        if t is None:
            return None
        for x in parts[1:]:
            t = mk("attr", t, x)
        return t

    def size(self, x, syms):
        if isinstance(x, int):
            return num(x)
        if isinstance(x, str):
            if "." in x:
                return self.path(syms, x)
            s = mk("size", x)
            Ctx.types[s] = "int"
            return s
        return x


def typed_return(v):
    def eff(I, st, bound, ev):
        t, sh = v if isinstance(v, tuple) and len(v) == 2 and v[0] == "arr" else (v, None)
        Ctx.types[ev.ret] = t
        T._ty_memo.pop(ev.ret, None)
        if sh is not None:
            Ctx.shapes[ev.ret] = tuple(num(x) if isinstance(x, int) else x(bound) if callable(x) else x for x in sh)
        return ev.ret

    return eff


def stored_later(prog):
    """attributes stored outside constructors -> function that does"""
    out = {}
    for f in prog.functions.values():
        if f.name in ("__init__", "__new__", "__post_init__"):
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.setdefault(x.attr, f.qual)
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute):
                out.setdefault(x.value.attr, f.qual)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) \
                    and x.func.attr in ("append", "pop", "extend", "insert", "remove", "clear", "update", "add", "popleft", "setdefault"):
                out.setdefault(x.func.value.attr, f.qual)
    return out


def roots(I, st, t):
    """[(location, is it allocated during the call?)] the value may live in"""
    if t.op == "ite":
        return roots(I, st, t.args[1]) + roots(I, st, t.args[2])
    if t.op == "view":
        return roots(I, st, t.args[0])
    if t.op == "ref":
        return [(t, True)]
    if scalar_type(ty(t)) or t.op in ("num", "str", "none", "true", "false", "class", "func", "extf"):
        return []
    if t.op == "obj":
        return [(t, True)]
    if t.op == "tuple":
        return [r for x in t.args for r in roots(I, st, x)]
    return [(t, False)]


class Outcome:
    def __init__(self, unit, fi, impl, spec, results):
        self.unit, self.fi, self.impl, self.spec, self.results = unit, fi, impl, spec, results
        self.obligations = len(results)
        self.error = None


def params(node):
    a = node.args
    r = [x.arg for x in a.posonlyargs + a.args]
    if a.vararg:
        r.append(a.vararg.arg)
    r += [x.arg for x in a.kwonlyargs]
    if a.kwarg:
        r.append(a.kwarg.arg)
    return r


def default_exprs(node):
    a = node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    out = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[x.arg] = d
    return out

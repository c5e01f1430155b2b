"""Loops: iteration descriptors, per-iteration transfer functions and their closed forms."""
import ast
from .terms import *
from . import terms as T
from .arrays import *
from .arrays import Sl
from .state import *

MAXUNROLL = 12


class Desc:
    def __init__(self, n, elem, cond=None):
        self.n, self.elem = n, elem
        self._cond = cond

    def cond(self, lv):
        return TRUE if self._cond is None else self._cond(lv)


def assigned_names(stmts):
    out = set()
    stack = list(stmts)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    out.add(y.target.id)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add((a.asname or a.name).split(".")[0])
        stack.extend(ast.iter_child_nodes(x))
    return out


def breaks_out(stmts):
    """a break that leaves the loop whose body stmts is"""
    for x in stmts:
        if isinstance(x, ast.Break):
            return True
        if isinstance(x, (ast.For, ast.While)):
            if breaks_out(x.orelse):
                return True
            continue
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody", "handlers"):
            if breaks_out(getattr(x, f, [])):
                return True
    return False


def one_point(c, v):
    """c == (v = e and rest) -> (e, rest)"""
    lits = c.args if c.op == "and" else (c,)
    for k, l in enumerate(lits):
        if l.op == "eq0":
            p = dict(P(l.args[0]))
            key = ((v, 1),)
            if key in p and abs(p[key]) == 1 and not any(contains(a, v) for m in p if m != key for a, _ in m):
                co = p.pop(key)
                e = unP({m: -x / co for m, x in p.items()})
                if contains(e, v):
                    continue
                return e, and_(*[x for j, x in enumerate(lits) if j != k])
    return None


def alternatives(c):
    """disjuncts of c, after one distribution of its conjunction"""
    if c.op == "or":
        return [y for x in c.args for y in alternatives(x)]
    if c.op == "and":
        for k, x in enumerate(c.args):
            if x.op == "or":
                rest = [y for j, y in enumerate(c.args) if j != k]
                return [z for y in x.args for z in alternatives(and_(y, *rest))]
    return [c]


class LoopMixin:
    # ------------------------------------------------------------------ descriptors
    def small_items(self, st, it):
        c = self.content(st, it)
        r = self._small(st, it, c)
        return r if r is not None and len(r) <= MAXUNROLL else None

    def _small(self, st, it, c):
        if c.op in ("list", "tuple"):
            return list(c.args)
        if c.op == "set" and self.at_most_one(c.args[0]):
            return self._small(st, c.args[0], c.args[0])
        if c.op == "set" and c.args[0].op == "list" and all(x.op in ("str", "num") for x in c.args[0].args):
            return None
        if c.op == "dict":
            return [k for k, _ in c.args]
        if is_str_const(c):
            return [const(x) for x in str_value(c)]
        if c.op == "call":
            n, a = c.args[0], c.args[1]
            if n == "range" and all(x.op == "num" for x in a):
                v = range(*[int(x.args[0]) for x in a])
                return [num(x) for x in v] if len(v) <= MAXUNROLL else None
            if n == "enumerate":
                s = self._small(st, a[0], self.content(st, a[0]))
                return None if s is None else [mk("tuple", add(a[1], num(i)), x) for i, x in enumerate(s)]
            if n == "zip":
                ss = [self._small(st, x, self.content(st, x)) for x in a]
                if all(s is not None for s in ss) and ss:
                    return [mk("tuple", *t) for t in zip(*ss)]
                known = [len(s) for s in ss if s is not None]
                if known:
                    # lengths of the others must be known to be the same
                    m = min(known)
                    for x, s in zip(a, ss):
                        if s is None:
                            n2 = self.length(st, x)
                            if n2.op != "num":
                                return None
                            m = min(m, int(n2.args[0]))
                    if m <= MAXUNROLL:
                        return [
                            mk("tuple", *[s[i] if s is not None else self.get_item(st, x, [num(i)]) for x, s in zip(a, ss)])
                            for i in range(m)
                        ]
                return None
            if n == "reversed":
                s = self._small(st, a[0], self.content(st, a[0]))
                return None if s is None else s[::-1]
        sh = shape(c)
        if sh is not None and sh and sh[0].op == "num" and sh[0].args[0] <= 4:
            return [self.get_item(st, it, [num(i)]) for i in range(int(sh[0].args[0]))]
        return None

    def iter_desc(self, st, it):
        if it is NONE:
            self.raise_here(st, "TypeError")
        else:
            self.not_none(st, it)
        c = self.content(st, it)
        return self._desc(st, it, c, True)

    @staticmethod
    def at_most_one(c):
        """a sequence without repeated elements"""
        if c.op == "collect":
            return c.args[0] is ONE
        if c.op == "ite":
            return LoopMixin.at_most_one(c.args[1]) and LoopMixin.at_most_one(c.args[2])
        return c.op in ("list", "tuple") and len(c.args) <= 1

    def atomic(self, st, it, c):
        k = self.elem_type(c)

        def el(lv):
            e = at(c, lv)
            if k is not None and ty(e) is None:
                T.Ctx.types[e] = k
            return e

        return Desc(self.length(st, c), el)

    def _desc(self, st, it, c, filt):
        if c.op == "call":
            n, a = c.args[0], c.args[1]
            if n == "range":
                lo, hi, step = ZERO, a[0], ONE
                if len(a) > 1:
                    lo, hi = a[0], a[1]
                if len(a) > 2:
                    step = a[2]
                if step.op == "num":
                    k = int(step.args[0])
                    w = T.sub(hi, lo) if k > 0 else T.sub(lo, hi)
                    if abs(k) != 1:
                        w = fdiv(add(w, num(abs(k) - 1)), num(abs(k)), st.facts)
                    d = st.facts.decide(lt(w, ZERO))
                    if d is not False and not nonneg_size(w):
                        w = max2(w, ZERO)
                    return Desc(w, lambda lv: add(lo, mul(step, lv)))
                return Desc(mk("rangelen", lo, hi, step), lambda lv: add(lo, mul(step, lv)))
            if n == "enumerate":
                d = self._desc(st, a[0], self.content(st, a[0]), False)
                return Desc(d.n, lambda lv: mk("tuple", add(a[1], lv), d.elem(lv)))
            if n == "zip":
                cs = [self.content(st, x) for x in a]
                ds = None
                if filt and all(x.op == "collect" for x in cs):
                    if all(x.args[0] is cs[0].args[0] for x in cs):
                        dd = [self._desc(st, x, y, True) for x, y in zip(a, cs)]
                        p = mk("lv", -7)
                        if all(x.cond(p) is dd[0].cond(p) for x in dd):
                            return Desc(dd[0].n, lambda lv: mk("tuple", *[x.elem(lv) for x in dd]), dd[0].cond)
                ds = [self._desc(st, x, y, False) for x, y in zip(a, cs)]
                m = ds[0].n
                for x in ds[1:]:
                    if x.n is not m:
                        v = equal(x.n, m, st.facts)
                        if v.v != EQ:
                            m = min2(m, x.n)
                return Desc(m, lambda lv: mk("tuple", *[x.elem(lv) for x in ds]))
            if n == "reversed":
                d = self._desc(st, a[0], self.content(st, a[0]), filt)
                return Desc(d.n, lambda lv: d.elem(T.sub(T.sub(d.n, ONE), lv)), lambda lv: d.cond(T.sub(T.sub(d.n, ONE), lv)))
            if n == "product":
                d1 = self._desc(st, a[0], a[0], False)
                d2 = self._desc(st, a[1], a[1], False)
                return Desc(
                    mul(d1.n, d2.n),
                    lambda lv: mk("tuple", d1.elem(fdiv(lv, d2.n, st.facts)), d2.elem(T.mod(lv, d2.n, st.facts))),
                )
            if n == "dict.items":
                keys = mk("call", "dict.keys", (a[0],), ())
                self.str_keys(a[0], keys)
                return Desc(dim(a[0], 0), lambda lv: mk("tuple", self.key_at(keys, lv), at(a[0], self.key_at(keys, lv))))
            if n == "dict.values":
                keys = mk("call", "dict.keys", (a[0],), ())
                self.str_keys(a[0], keys)
                return Desc(dim(a[0], 0), lambda lv: at(a[0], self.key_at(keys, lv)))
            if n == "dict.keys":
                self.str_keys(a[0], c)
                return Desc(dim(a[0], 0), lambda lv: self.key_at(c, lv))
        if c.op == "dictof" or opt_strip(ty(c)) == "dict" or is_mapping(c):
            keys = mk("call", "dict.keys", (self.freeze(st, c),), ())
            self.str_keys(self.freeze(st, c), keys)
            return Desc(dim(c, 0), lambda lv: self.key_at(keys, lv))
        if c.op == "set" and self.at_most_one(c.args[0]):
            return self._desc(st, c.args[0], c.args[0], filt)
        if c.op == "set":
            return self.atomic(st, it, self.typed(mk("call", "setiter", (self.freeze(st, c),), ()), ty(c.args[0])))
        if filt:
            d = self.set_desc(st, it, c)
            if d is not None:
                return d
        if c.op == "collect":
            n, cond, body, k = c.args
            if body.op != "splice" and (filt or cond is TRUE):
                return Desc(n, lambda lv: subst(body, {BV(k): lv}), lambda lv: subst(cond, {BV(k): lv}))
            return self.atomic(st, it, c)
        if c.op == "concat":
            ds = [self._desc(st, x, x, False) for x in c.args]
            n = ZERO
            for d in ds:
                n = add(n, d.n)

            def el(lv):
                off = ZERO
                cases = []
                for d in ds:
                    cases.append((add(off, d.n), d.elem(T.sub(lv, off))))
                    off = add(off, d.n)
                r = cases[-1][1]
                for hi, v in reversed(cases[:-1]):
                    r = ite(lt(lv, hi), v, r)
                return r

            return Desc(n, el)
        if c.op == "rep":
            return Desc(c.args[1], lambda lv: c.args[0])
        if c.op == "list" and c.args:
            return self.atomic(st, it, c)
        sh = shape(c)
        if sh is not None and sh and filt and c.op == "arr" and has_op(c, "collect"):
            d = self.selected_rows(st, c, sh)
            if d is not None:
                return d
        if c.op == "ite" and filt and any(x.op == "arr" and has_op(x, "collect") for x in c.args[1:]):
            a, b = [self._desc(st, x, x, filt) for x in c.args[1:]]
            g = c.args[0]
            return Desc(ite(g, a.n, b.n), lambda lv: ite(g, a.elem(lv), b.elem(lv)), lambda lv: ite(g, a.cond(lv), b.cond(lv)))
        if sh is not None and sh:
            if self.is_location(it) and len(sh) > 1:
                return Desc(sh[0], lambda lv: mk("view", it, ("idx", (lv,))))
            return Desc(sh[0], lambda lv: index(c, [lv]) if len(sh) > 1 else elem(c, [lv]))
        k = opt_strip(ty(c))
        if c.op == "ite":
            a = self._desc(st, c.args[1], c.args[1], filt)
            b = self._desc(st, c.args[2], c.args[2], filt)
            g = c.args[0]
            return Desc(ite(g, a.n, b.n), lambda lv: ite(g, a.elem(lv), b.elem(lv)), lambda lv: ite(g, a.cond(lv), b.cond(lv)))
        if self.class_of(it) is not None:
            m = self.prog.find_method(self.class_of(it), "__iter__")
            if m is not None:
                s = mk("call", "iterate", (it,), ())
                return Desc(mk("itersize", it), lambda lv: at(s, lv))
        return self.atomic(st, it, self.freeze(st, c))

    def set_desc(self, st, it, c):
        """iteration over the values common to several collections: over the distinct
        values of the first, filtered by membership of the others"""
        if c.op != "call" or c.args[0] not in ("set.intersection", "numpy.intersect1d", "numpy.unique"):
            return None
        if len(c.args) > 2 and c.args[2] or c.args[0] == "numpy.unique" and len(c.args[1]) != 1:
            return None
        parts = []
        for x in c.args[1]:
            while x.op == "call" and x.args[0] == "numpy.unique" and len(x.args[1]) == 1 and not x.args[2]:
                x = x.args[1][0]
            x = x.args[0] if x.op == "set" else x
            if is_arr(x):
                if rank(x) != 1:
                    return None
                x = mkcollect(shape(x)[0], TRUE, subst(x.args[1], {IX(0): HOLE}), None)
            if x.op != "collect":
                return None
            cast = x.args[2].op == "call" and x.args[2].args[0] == "cast"
            if c.args[0] != "set.intersection" and not cast and ty(x.args[2]) not in ("num", "int", "float", "bool", "str"):
                return None  # numpy converts mixed values
            parts.append(x)
        base = mk("set", parts[0])
        d = self.atomic(st, base, self.typed(mk("call", "setiter", (self.freeze(st, base),), ()), ty(parts[0])))
        if len(parts) == 1:
            return d
        return Desc(d.n, d.elem, lambda lv: and_(*[self.contains(st, d.elem(lv), p) for p in parts[1:]]))

    def selected_rows(self, st, c, sh):
        """rows of an array gathered by the position list of a mask: the loop over all positions, filtered"""
        e = c.args[1]
        ps = [x for x in subterms(e) if x.op == "at" and len(x.args) == 2 and x.args[1] is IX(0) and x.args[0].op == "collect"]
        if len(ps) != 1:
            return None
        n, cond, body, k = ps[0].args[0].args
        if cond is TRUE or body is not BV(k) or not (sh[0] is self.length(st, ps[0].args[0])):
            return None
        e = subst(e, {ps[0]: BV(k)})
        if contains(e, IX(0)):
            return None

        def el(lv):
            x = subst(e, {BV(k): lv})
            if len(sh) > 1:
                x = mkarr(sh[1:], subst(x, {IX(j): IX(j - 1) for j in range(1, len(sh))}))
            return x

        return Desc(n, el, lambda lv: subst(cond, {BV(k): lv}))

    def str_keys(self, d, keys):
        pass

    def key_at(self, keys, lv):
        return at(keys, lv)

    # ------------------------------------------------------------------ nesting
    def push_loop(self, d, st, kind="for"):
        from .interp import LoopNode

        depth = len(self.loops)
        lv = mk("lv", depth)
        node = LoopNode(kind, lv, d.n)
        self.seq += 1
        node.seq = self.seq
        node.guard = st.guard()
        node.facts = st.facts
        node.loops = tuple(self.loops)
        self.locate(node)
        self.loops.append(node)
        self.trace_stack.append((self.trace, self.entry_facts))
        self.trace = node.body
        f = self.entry_facts.copy()
        f.assume(not_(lt(lv, ZERO)))
        f.assume(lt(lv, d.n))
        self.entry_facts = f
        return lv

    def pop_loop(self, d, st):
        node = self.loops.pop()
        self.trace, self.entry_facts = self.trace_stack.pop()
        if node.body:
            self.trace.append(node)
        return node

    def enter_iteration(self, s, d, lv):
        f = s.facts.copy()
        f.assume(not_(lt(lv, ZERO)))
        f.assume(lt(lv, d.n))
        s.facts = f
        c = d.cond(lv)
        if c is not TRUE:
            s.assume(c)
        self.loops[-1].cond = c

    # ------------------------------------------------------------------ for
    def s_For(self, n, st):
        from .interp import Out

        it = self.eval(n.iter, st)
        items = self.small_items(st, it)
        if items is not None:
            return self.unrolled(n, items, st)
        c = self.content(st, it)
        if c.op == "call" and c.args[0] == "product" and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and not n.orelse and not breaks_out(n.body):
            # for (a, b) in product(x, y) is for a in x: for b in y
            names = ["$p%d%s" % (n.lineno, k) for k in "xy"]
            for k, x in zip(names, c.args[1]):
                st.env[k] = x
            body = n.body
            for t, k in reversed(list(zip(n.target.elts, names))):
                body = [ast.fix_missing_locations(ast.copy_location(ast.For(target=t, iter=ast.Name(id=k, ctx=ast.Load()), body=body, orelse=[]), n))]
            return self.block(body, [st])
        d = self.iter_desc(st, it)
        if st.dead:
            return [Out("normal", st)]
        if d.n is ZERO:
            return self.block(n.orelse, [st]) if n.orelse else [Out("normal", st)]
        return self.sym_loop(n, d, st)

    def unrolled(self, n, items, st):
        from .interp import Out

        outs, breaks = [], []
        cur = st
        for x in items:
            if cur is None:
                break
            self.assign(n.target, x, cur)
            res = self.block(n.body, [cur])
            nxt = []
            for o in res:
                if o.st.dead:
                    continue
                if o.kind in ("normal", "continue"):
                    nxt.append(o.st)
                elif o.kind == "break":
                    breaks.append(o.st)
                else:
                    outs.append(o)
            cur = self.join(nxt)
        if cur is not None and n.orelse:
            for o in self.block(n.orelse, [cur]):
                if o.kind == "normal":
                    breaks.append(o.st)
                else:
                    outs.append(o)
            cur = None
        end = self.join(([cur] if cur is not None else []) + breaks)
        if end is not None:
            outs.append(Out("normal", end))
        return outs

    def snapshot(self):
        return (
            len(self.unsupported), self.nref, self.nobj, dict(self.counts), self.ncalls, self.seq,
        )

    def restore(self, s):
        k, self.nref, self.nobj, self.counts, self.ncalls, self.seq = s
        del self.unsupported[k:]

    def sym_loop(self, n, d, st, wcond=None):
        """summary of a loop with a symbolic number of iterations"""
        from .interp import Out

        names = assigned_names(n.body + ([n.target] if isinstance(n, ast.For) else []))
        carried = [x for x in sorted(names) if x in st.env]
        env_phi = {}  # name -> phi
        heap_phi = {}  # ('f', name, base) / ('c', loc) -> phi
        closed = {}  # phi key -> closed form in terms of lv
        # names that do not need a phi: assigned before use in every iteration is
        # discovered by the classification (value without phi)
        gen = 0
        final = None
        # a filtered iteration is an iteration over everything whose body is guarded by the filter
        keep, d = d._cond, Desc(d.n, d.elem)
        for rnd in range(8):
            snap = self.snapshot()
            keep_trace, self.trace = self.trace, []
            sinks = self.raise_sinks
            self.raise_sinks = [list(x) for x in sinks]
            lv = self.push_loop(d, st)
            s = st.copy()
            self.enter_iteration(s, d, lv)
            self.install(s, st, carried, env_phi, heap_phi, closed, lv, rnd)
            s_entry = s.copy()
            skip = None
            if keep is not None and keep(lv) is not TRUE:
                skip, s = s.branch(not_(keep(lv))), s.branch(keep(lv))
            if s is None:
                outs = []
            else:
                if isinstance(n, ast.For):
                    self.assign(n.target, d.elem(lv), s)
                outs = self.block(n.body, [s])
            if skip is not None:
                outs.append(Out("normal", skip))
            node = self.loops[-1]
            self.pop_loop(d, st)
            self.trace = keep_trace
            self.raise_sinks, new_sinks = sinks, self.raise_sinks
            normals = [o.st for o in outs if o.kind in ("normal", "continue") and not o.st.dead]
            breaks = [o for o in outs if o.kind == "break" and not o.st.dead]
            end = self.join([x.copy() for x in normals])
            allend = ([end] if end is not None else []) + [b.st for b in breaks]
            changed = self.discover(st, s_entry, allend, heap_phi, lv)
            newc = self.closed_forms(st, end, carried, env_phi, heap_phi, closed, lv) if end is not None and not breaks else {}
            typed = self.fix_types(st, end, carried, env_phi, heap_phi)
            if not changed and not newc and not typed:
                final = (s_entry, outs, end, breaks, node, new_sinks)
                break
            closed.update(newc)
            self.restore(snap)
        if final is None:
            self.note("loop summary did not converge", n)
            final = (s_entry, outs, end, breaks, node, new_sinks)
        s_entry, outs, end, breaks, node, new_sinks = final
        for i, x in enumerate(new_sinks):
            if i < len(self.raise_sinks):
                self.raise_sinks[i][:] = x
        if node.body:
            self.trace.append(node)
        return self.close_loop(n, d, st, s_entry, outs, end, breaks, node, carried, env_phi, heap_phi, closed, lv)

    def install(self, s, st, carried, env_phi, heap_phi, closed, lv, rnd):
        for x in carried:
            k = ("v", x)
            if k in closed:
                s.env[x] = closed[k]
                continue
            if x not in env_phi:
                p = mk("phi", lv.args[0], x)
                env_phi[x] = p
                self.phi_type(p, st, st.env[x])
            s.env[x] = env_phi[x]
        for k, p in heap_phi.items():
            if k in closed:
                v = closed[k]
            else:
                v = p
            if k[0] == "f":
                self.write_field(s, k[2], k[1], v)
            else:
                s.heap[k] = v

    def phi_type(self, p, st, init):
        k = ty(init)
        c = self.content(st, init)
        if init.op in ("ref", "view"):
            k = ty(c)
        if isinstance(k, tuple) and k[0] == "tuple":
            k = None
        T._ty_memo.pop(p, None)
        if k == "none":
            k = None
        if k is not None:
            T.Ctx.types[p] = k
        else:
            T.Ctx.types.pop(p, None)
        if shape(c) is not None:
            T.Ctx.shapes[p] = shape(c)
        else:
            T.Ctx.shapes.pop(p, None)
        if c is not init and init.op == "ref" and ty(c) is None:
            pass

    def fix_types(self, st, end, carried, env_phi, heap_phi):
        """the phi's type must be valid for the value after an iteration as well"""
        ch = False
        if end is None:
            return False
        pairs = [(p, st.env[x], end.env.get(x)) for x, p in env_phi.items()]
        for p, a, b in pairs:
            if b is None or b is p:
                continue
            ka = T.Ctx.types.get(p)
            kb = ty(self.content(end, b)) if b.op in ("ref", "view") else ty(b)
            if ka is None:
                continue
            if kb == ka or has_op(b, "phi") and kb is None:
                continue
            new = {ka, kb}
            if new == {"int", "float"}:
                w = "float"
            elif opt_strip(ka) == opt_strip(kb):
                w = ("opt", opt_strip(ka))
            elif isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] == kb[0] == "list":
                w = ("list", ka[1] or kb[1])
                if w == ka:
                    continue
            else:
                w = None
            if w != ka:
                if w is None:
                    T.Ctx.types.pop(p, None)
                    T.Ctx.shapes.pop(p, None)
                else:
                    T.Ctx.types[p] = w
                T._ty_memo.clear()
                ch = True
        return ch

    def discover(self, st, s_entry, ends, heap_phi, lv):
        """new loop-carried heap locations"""
        ch = False
        for e in ends:
            for k, v in e.heap.items():
                o = s_entry.heap.get(k)
                if v is o or v == o:
                    continue
                if k[0] == "c":
                    loc = k[1]
                    if loc.op == "ref" and ("c", loc) not in st.heap:
                        continue  # allocated in the iteration
                    if contains(loc, lv) or has_op(loc, "phi"):
                        continue
                    if k not in heap_phi:
                        p = mk("phi", lv.args[0], self.loc_name(st, loc))
                        heap_phi[k] = p
                        self.phi_type(p, st, self.content(st, loc))
                        ch = True
                elif k[0] == "f":
                    for ent in v:
                        if o is not None and ent in o:
                            continue
                        if ent[0] != "w":
                            continue
                        b = ent[1]
                        if contains(b, lv) or has_op(b, "phi"):
                            continue
                        if b.op == "obj" and not self.existed(st, b):
                            continue
                        kk = ("f", k[1], b)
                        if kk not in heap_phi:
                            init = self.read_field(st, b, k[1])
                            p = mk("phi", lv.args[0], mk("fld", b, k[1]))
                            heap_phi[kk] = p
                            self.phi_type(p, st, init)
                            ch = True
        return ch

    def existed(self, st, o):
        return self.mentions(st, o)

    def mentions(self, st, o):
        for v in st.env.values():
            if contains(v, o):
                return True
        for k, v in st.heap.items():
            if isinstance(k, tuple) and k[0] == "f":
                for e in v:
                    if e[0] == "w" and (e[1] is o or contains(e[2], o)):
                        return True
            elif isinstance(k, tuple) and k[0] == "c" and isinstance(v, Term) and contains(v, o):
                return True
        return False

    def loc_name(self, st, loc):
        # name of the location independent of allocation order, where possible
        for x, v in st.env.items():
            if v is loc:
                return "*" + x
        if has_op(loc, "ref", "view"):
            return "loc:" + repr(loc)  # a name, not a value: freezing must not look inside
        return mk("loc", loc)

    def closed_forms(self, st, end, carried, env_phi, heap_phi, closed, lv):
        """induction variables and variables overwritten without reading"""
        new = {}
        allphi = set(env_phi.values()) | set(heap_phi.values())
        for x, p in env_phi.items():
            k = ("v", x)
            if k in closed:
                continue
            v = end.env.get(x)
            if v is None or v is p:
                if v is p:
                    new[k] = st.env[x]
                continue
            i = st.env[x]
            if ty(i) in ("int", "float") and i.op not in ("ref", "view"):
                dlt = dsub(v, p)
                if not any(contains(dlt, q) for q in allphi) and not contains(dlt, lv) and not has_op(dlt, "lv") :
                    new[k] = add(i, mul(dlt, lv))
        for k, p in heap_phi.items():
            if k in closed or k[0] != "f":
                continue
            v = self.read_field(end, k[2], k[1])
            i = self.read_field(st, k[2], k[1])
            if v is p:
                new[k] = i
            elif ty(i) in ("int", "float"):
                dlt = dsub(v, p)
                if not any(contains(dlt, q) for q in allphi) and not has_op(dlt, "lv"):
                    new[k] = add(i, mul(dlt, lv))
        return new

    # ------------------------------------------------------------------ summary
    def close_loop(self, n, d, st, s_entry, outs, end, breaks, node, carried, env_phi, heap_phi, closed, lv):
        from .interp import Out

        base = len(st.pc)
        L = LoopSum(self, st, s_entry, end, lv, d.n)
        for x, p in env_phi.items():
            L.add(("v", x), p, st.env[x], end.env.get(x) if end is not None else None, closed.get(("v", x)))
        for k, p in heap_phi.items():
            if k[0] == "f":
                init = self.read_field(st, k[2], k[1])
                val = self.read_field(end, k[2], k[1]) if end is not None else None
            else:
                init = self.content(st, k[1])
                val = self.content(end, k[1]) if end is not None else None
            L.add(k, p, init, val, closed.get(k))
        L.derive()
        rets = [o for o in outs if o.kind == "return" and not o.st.dead]
        raises = [o for o in outs if o.kind == "raise" and not o.st.dead]
        stops = breaks + rets
        rel = lambda o: L.sub(and_(*o.st.pc[base:]), lv)
        S = or_(*[rel(o) for o in stops]) if stops else FALSE
        node.stop = S
        node.info = L
        L.fix_events(node)
        results = []
        for o in raises:
            results.append(o)
        anyS = FALSE
        first = None
        if S is not FALSE:
            anyS = L.any_(d.n, S)
            first = self.first_index(d.n, S, lv)
            f2 = one_point(S, lv)
            if f2 is not None and S.op in ("and", "eq0"):
                first = f2[0]
        meff = d.n if S is FALSE else ite(anyS, first, d.n)
        # -- exhausted
        ex = st.copy() if S is FALSE else st.branch(not_(anyS))
        if d.n is INF:
            ex = None
            if stops:
                anyS = TRUE
        states = []
        if ex is not None and end is not None or ex is not None and not stops:
            if end is not None:
                self.apply_post(L, ex, end, d, d.n, carried, env_phi, heap_phi, st, s_entry)
            if isinstance(n, (ast.For, ast.While)) and n.orelse:
                for o in self.block(n.orelse, [ex]):
                    if o.kind == "normal":
                        states.append(o.st)
                    else:
                        results.append(o)
            else:
                states.append(ex)
        elif ex is not None and end is None:
            # every iteration leaves the loop: exhausted only if it is empty
            states.append(ex)
        # -- stopped
        if S is not FALSE:
            prior = FALSE
            for o in stops:
                g = and_(anyS, simplify_at(subst(rel(o), {lv: first}), st.facts))
                if len(stops) == 1:
                    g = anyS
                b = st.branch(g)
                if b is None:
                    continue
                self.apply_stop(L, b, o, d, first, carried, env_phi, heap_phi, st, s_entry, end)
                if o.kind == "break":
                    states.append(b)
                else:
                    v = self.at_iter(L, o.st, o.val, first)
                    if v.op not in ("obj",) and o.val.op in ("ref", "view"):
                        v = self.new_ref(b, v) if v.op not in ("ref", "view") else v
                    results.append(Out("return", b, v))
        j = self.join(states)
        if j is not None:
            results.append(Out("normal", j))
        return results

    def at_iter(self, L, s, v, j):
        """value v of state s of the symbolic iteration, in iteration j"""
        if v.op in ("ref", "view"):
            c = self.content(L.st, v)
            if v.op == "ref" and ("c", v) in L.st.heap:
                return v  # an older location
            v = self.freeze(s, v)
        elif v.op in ("tuple", "ite", "list"):
            v = self.freeze(s, v)
        return L.sub(v, j)

    def apply_stop(self, L, b, o, d, first, carried, env_phi, heap_phi, st, s_entry, end):
        s = o.st
        if end is not None:
            self.apply_post(L, b, end, d, first, carried, env_phi, heap_phi, st, s_entry)
        # the partial iteration
        for x, v in s.env.items():
            if x in st.env and st.env[x] is v:
                continue
            if x in s_entry.env and s_entry.env[x] is v and x not in env_phi:
                continue
            w = self.at_iter(L, s, v, first)
            if v.op in ("ref", "view") and w.op not in ("ref", "view"):
                w = self.new_ref(b, w)
            b.env[x] = w
        for k in heap_phi:
            if k[0] == "f":
                v = self.read_field(s, k[2], k[1])
                self.write_field(b, k[2], k[1], self.at_iter(L, s, v, first))
            else:
                b.heap[k] = L.sub(self.freeze(s, self.content(s, k[1])), first)
        for k, v in s.heap.items():
            if k[0] == "f":
                o0 = s_entry.heap.get(k, ())
                for ent in v:
                    if ent in o0 or ent[0] != "w" or ("f", k[1], ent[1]) in heap_phi:
                        continue
                    if ent[1].op == "obj" and not contains(ent[1], L.lv):
                        continue
                    self.write_field(b, L.sub(ent[1], first), k[1], self.at_iter(L, s, ent[2], first))
            elif k[0] == "c" and contains(k[1], L.lv) and v is not s_entry.heap.get(k):
                b.heap[("c", L.sub(k[1], first))] = L.sub(self.freeze(s, v), first)

    def apply_post(self, L, ex, end, d, m, carried, env_phi, heap_phi, st, s_entry):
        for x in env_phi:
            v = L.post(("v", x), m)
            if v.op not in ("ref", "view") and v is not st.env[x] and self.wants_ref(v):
                v = self.new_ref(ex, v)
            ex.env[x] = v
        for k in heap_phi:
            v = L.post(k, m)
            if k[0] == "f":
                if v.op not in ("ref", "view") and self.wants_ref(v):
                    v = self.new_ref(ex, v)
                self.write_field(ex, k[2], k[1], v)
            else:
                ex.heap[k] = v
        # names first bound in the loop: value of the last iteration
        for x, v in end.env.items():
            if x in st.env:
                continue
            last = T.sub(m, ONE)
            if d.cond(L.lv) is not TRUE:
                ex.env[x] = mk("opaque", "lastvalue", x)
                continue
            w = self.at_iter(L, end, v, last)
            if v.op in ("ref", "view") and w.op not in ("ref", "view"):
                w = self.new_ref(ex, w)
            ex.env[x] = ite(lt(ZERO, m), w, mk("unbound", x))
        # per-element effects
        j = fresh_index()
        T.Ctx.types[j] = "int"
        rng = and_(not_(lt(j, ZERO)), lt(j, m))
        for k, v in list(end.heap.items()):
            o = s_entry.heap.get(k)
            if v is o or v == o:
                continue
            if k[0] == "f":
                o = o or ()
                for ent in v:
                    if ent in o:
                        continue
                    if ent[0] in ("fx", "join"):
                        self.note("effect on all objects inside a loop: " + k[1])
                        continue
                    if ent[0] == "each":
                        # a loop inside the loop
                        if not contains(ent[1], L.lv) and not contains(ent[3], L.lv) and not contains(ent[4], L.lv):
                            self.push_log(ex, k, ("each", ent[1], ent[2], and_(lt(ZERO, m), ent[3]), ent[4]))
                        else:
                            self.note("nested per-element write of " + k[1])
                        continue
                    b = ent[1]
                    if ("f", k[1], b) in heap_phi:
                        continue
                    if not contains(b, L.lv):
                        if b.op == "obj" and not self.existed(st, b):
                            continue
                        self.note("loop-carried field " + k[1])
                        continue
                    val = self.read_field(end, b, k[1])
                    val = self.at_iter(L, end, val, j)
                    cnd = subst(d.cond(L.lv), {L.lv: j})
                    if b in self.created:
                        cnd = L.sub(self.created[b], j)
                    if has_op(b, "phi"):
                        b = L.sub(b, L.lv)
                    self.push_log(ex, k, ("each", subst(b, {L.lv: j}), j, and_(rng, cnd), val))
            elif k[0] == "c":
                if k in heap_phi:
                    continue
                loc = k[1]
                if has_op(loc, "phi") and loc.op != "ref" and v is not o and not contains(loc, L.lv):
                    self.note("change of a list that the loop replaces")
                if not contains(loc, L.lv):
                    continue
                if loc.op == "ref":
                    continue
                val = L.sub(self.freeze(end, v), j)
                cnd = subst(d.cond(L.lv), {L.lv: j})
                ex.heap["eachc"] = ex.heap.get("eachc", ()) + ((subst(loc, {L.lv: j}), j, and_(rng, cnd), val),)
            elif k[0] == "e":
                ex.heap[k] = max(v, ex.heap.get(k, 0))
            elif k == "eachc":
                for ent in v:
                    if o is not None and ent in o:
                        continue
                    if not any(contains(x, L.lv) for x in (ent[0], ent[2], ent[3])):
                        ex.heap["eachc"] = ex.heap.get("eachc", ()) + (ent,)
                    else:
                        self.note("nested per-element content")

    def push_log(self, ex, k, ent):
        ex.heap[k] = ex.heap.get(k, ()) + (ent,)

    def wants_ref(self, v):
        return v.op in ("list", "concat", "collect", "rep", "dict", "dictof", "set") or is_arr(v)

    # ------------------------------------------------------------------ while
    def s_While(self, n, st):
        from .interp import Out

        m = _trimming(n)
        if m is not None:
            return self.exec(m, st)
        # a counter loop is a for loop
        d = self.counter_desc(n, st)
        if d is not None:
            return self.sym_loop(_while_as_for(n, d[1]), d[0], st)
        N = mk("whilelen", len(self.loops), getattr(self, "while_no", 0))
        dd = Desc(N, lambda lv: lv)
        T.Ctx.types[N] = "int"
        return self.sym_while(n, dd, st)

    def sym_while(self, n, d, st):
        """a general while loop: `while c: body` is analysed as an unbounded sequence of
        iterations with the stop condition not c evaluated first"""
        test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])
        body = ([test] if not (isinstance(n.test, ast.Constant) and n.test.value) else []) + n.body
        m = ast.While(test=n.test, body=body, orelse=[])
        for x in (test, test.test, test.body[0], m):
            ast.copy_location(x, n)
        d = Desc(INF, lambda lv: lv)
        outs = self.sym_loop(m, d, st)
        return outs

    def counter_desc(self, n, st):
        """while i < e: ...; i += 1 (last statement, no continue)"""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and n.body and not n.orelse):
            return None
        if isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq)) and isinstance(t.left, ast.Name):
            x, e = t.left, t.comparators[0]
        elif isinstance(t.ops[0], (ast.Gt, ast.GtE)) and isinstance(t.comparators[0], ast.Name):
            x, e = t.comparators[0], t.left
        else:
            return None
        last = n.body[-1]
        ok = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == x.id and isinstance(last.value, ast.Constant) and last.value.value == 1
        if not ok and isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == x.id and isinstance(last.value, ast.BinOp):
            v = last.value
            ok = isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == x.id and isinstance(v.right, ast.Constant) and v.right.value == 1
        if not ok:
            return None
        names = assigned_names(n.body[:-1])
        if x.id in names:
            return None
        for y in n.body[:-1]:
            for z in ast.walk(y):
                if isinstance(z, ast.Continue):
                    return None
        for z in ast.walk(e):
            if isinstance(z, ast.Name) and (z.id in names or z.id == x.id):
                return None
            if isinstance(z, ast.Call) and not (isinstance(z.func, ast.Name) and z.func.id == "len"):
                return None
        # the bound must not be changed by the body: evaluated again afterwards
        hi = self.freeze(st, self.eval(e, st))
        i0 = st.env.get(x.id)
        if i0 is None or ty(i0) != "int":
            return None
        if isinstance(t.ops[0], (ast.LtE, ast.GtE)):
            hi = add(hi, ONE)
        for z in ast.walk(ast.Module(body=n.body, type_ignores=[])):
            if isinstance(z, ast.Attribute) and z.attr in ("append", "pop", "remove", "insert", "extend", "clear"):
                for q in ast.walk(e):
                    if isinstance(q, ast.Call):
                        return None
        w = T.sub(hi, i0)
        if not nonneg_size(w) and st.facts.decide(lt(w, ZERO)) is not False:
            w = max2(w, ZERO)
        return Desc(w, lambda lv: add(i0, lv)), x.id


def _trimming(n):
    """while len(x) > k: x.pop()  is  if len(x) > k: del x[k:]  (pop(0): the items in front)"""
    t = n.test
    if n.orelse or len(n.body) != 1 or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    a, b = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Lt):
        a, b = b, a
    elif not isinstance(t.ops[0], ast.Gt):
        return None
    c = n.body[0]
    c = c.value if isinstance(c, ast.Expr) else None
    if isinstance(n.body[0], ast.Delete) and len(n.body[0].targets) == 1 and isinstance(n.body[0].targets[0], ast.Subscript):
        s = n.body[0].targets[0]
        c = ast.Call(func=ast.Attribute(value=s.value, attr="pop", ctx=ast.Load()), args=[s.slice], keywords=[])
    if not (isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and len(a.args) == 1 and not a.keywords):
        return None
    if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "pop" and not c.keywords and len(c.args) <= 1):
        return None
    x = a.args[0]
    if ast.dump(x) != ast.dump(c.func.value):
        return None
    simple = (ast.Name, ast.Attribute, ast.Constant, ast.expr_context)
    if not all(isinstance(z, simple + (ast.Subscript,)) for z in ast.walk(x)) or not all(isinstance(z, simple) for z in ast.walk(b)):
        return None
    if c.args and isinstance(c.args[0], ast.UnaryOp) and isinstance(c.args[0].op, ast.USub) and isinstance(c.args[0].operand, ast.Constant) and c.args[0].operand.value == 1:
        k = -1
    elif c.args and isinstance(c.args[0], ast.Constant) and c.args[0].value == 0 and c.args[0].value is not False:
        k = 0
    elif not c.args:
        k = -1
    else:
        return None
    if k == -1:
        sl = ast.Slice(lower=b, upper=None, step=None)
    else:
        sl = ast.Slice(lower=None, upper=ast.BinOp(left=a, op=ast.Sub(), right=b), step=None)
    d = ast.Delete(targets=[ast.Subscript(value=x, slice=sl, ctx=ast.Del())])
    m = ast.If(test=t, body=[d], orelse=[])
    for z in ast.walk(m):
        if not hasattr(z, "lineno") and isinstance(z, (ast.expr, ast.stmt)):
            ast.copy_location(z, n)
    return m


def _while_as_for(n, name):
    return n


def nonneg_size(w):
    """a size: sum of non-negative atoms"""
    try:
        return all(c >= 0 and all(a.op in ("dim", "lv", "bv", "ix", "size") or T.Ctx.types.get(a) == "nat" for a, _ in m) for m, c in P(w).items())
    except Exception:
        return False


def simplify_at(t, facts):
    return simplify(t, facts)


def dsub(v, p):
    if v.op == "ite":
        return ite(v.args[0], dsub(v.args[1], p), dsub(v.args[2], p))
    return T.sub(v, p)




class LoopSum:
    """closed forms of the loop-carried values"""

    def __init__(self, I, st, s_entry, end, lv, n):
        self.I, self.st, self.s_entry, self.end, self.lv, self.n = I, st, s_entry, end, lv, n
        self.keys = {}
        self.of_phi = {}
        self.memo = {}
        self.busy = []
        self.opaque = set()
        self.derived = {}

    def derive(self):
        """values that are a function of other carried values before the loop and
        at the end of every iteration (a condition evaluated once before the loop
        and again at its end)"""
        if self.end is None:
            return
        I = self.I
        fr = {}
        for key, (p, init, val, closed) in self.keys.items():
            if closed is None and val is not None and val is not p:
                fr[key] = (p, I.freeze(self.st, init), I.freeze(self.end, val))
        for key, (p, i, v) in fr.items():
            if i.op in ("num", "true", "false", "none", "str", "list", "sym") or contains(v, p):
                continue
            src = {ini: q for k2, (q, ini, _v) in fr.items()
                   if q is not p and k2 not in self.derived and ini.args and contains(i, ini)
                   and ini.op not in ("num", "list", "tuple", "str")}
            if not src:
                continue
            f = subst(i, src)
            step = subst(f, {q: v2 for (q, _i, v2) in fr.values() if q in src.values()})
            if step is v:
                self.derived[key] = (f, tuple(src.values()))

    def add(self, key, phi, init, val, closed):
        self.keys[key] = (phi, init, val, closed)
        self.of_phi[phi] = key

    def sub(self, t, j):
        """t in iteration j: carried values replaced by their value after j iterations"""
        ps = [p for p in self.of_phi if contains(t, p)]
        mp = {}
        for p in ps:
            mp[p] = self.frozen_post(self.of_phi[p], j)
        if j is not self.lv:
            mp[self.lv] = j
        return simplify(subst(t, mp), Facts()) if False else (subst(t, mp) if mp else t)

    def frozen_post(self, key, j):
        v = self.post(key, j)
        return self.I.freeze(self.st, v) if v.op in ("ref", "view") else v

    def post(self, key, m):
        k = (key, m)
        if k in self.memo:
            return self.memo[k]
        phi, init, val, closed = self.keys[key]
        if closed is not None:
            r = subst(closed, {self.lv: m}) if m is not self.lv else closed
        elif val is None or val is phi:
            r = init
        elif key in self.busy:
            self.opaque.add(key)
            return mk("carried", phi, m)
        else:
            self.busy.append(key)
            try:
                r = self._post(key, phi, init, val, m)
            finally:
                self.busy.pop()
        if not self.busy or True:
            self.memo[k] = r
        return r

    def _post(self, key, p, init, val, m):
        I, st, end, lv = self.I, self.st, self.end, self.lv
        if key in self.derived:
            f, qs = self.derived[key]
            return subst(f, {q: self.frozen_post(self.of_phi[q], m) for q in qs})
        v = I.freeze(end, val)
        i = I.freeze(st, init)
        # other carried values
        r = self.element_map(p, i, v, m)
        if r is not None:
            return r
        others = [q for q in self.of_phi if q is not p and contains(v, q)]
        n0 = len(self.opaque)
        if others:
            v = subst(v, {q: self.frozen_post(self.of_phi[q], lv) for q in others})
            if has_op(v, "carried"):
                return self.fold(p, i, I.freeze(end, val), m)
        r = self.scalar(p, i, v, m)
        if r is None:
            r = self.arrays(p, i, v, m)
        if r is None:
            r = self.fold(p, i, v, m)
        return r

    # -- classification
    def scalar(self, p, i, v, m):
        lv = self.lv
        if v is p:
            return i
        if not contains(v, p):
            # overwritten in every iteration
            if not contains(v, lv):
                return ite(lt(ZERO, m), v, i) if not self.pos(m) else v
            w = subst(v, {lv: T.sub(m, ONE)})
            return ite(lt(ZERO, m), w, i) if not self.pos(m) else w
        s = self.suffix(p, v)
        if s is not None:
            cond, x = split_cond_(s)
            body = x.args[0] if x.op == "list" and len(x.args) == 1 else mk("splice", x)
            tail = close_collect(m, cond, body, lv)
            if i.op == "tuple":
                i = mk("list", *i.args)
            return concat(i, tail)
        c = self.cond_over(p, v)
        if c is not None:
            cond, w = c
            return self.last_where(m, cond, w, i)
        k = T.Ctx.types.get(p)
        if ty(v) == "bool" and ty(i) == "bool":
            a = subst(v, {p: FALSE})
            b = subst(v, {p: TRUE})
            if b is TRUE:
                return or_(i, self.any_(m, a))
            if a is FALSE:
                return and_(i, not_(self.any_(m, not_(b))))
        if k in ("int", "float", "num", "arr") or ty(i) in ("int", "float"):
            dlt = dsub(v, p)
            if not contains(dlt, p):
                if is_arr(dlt):
                    return None
                return add(i, close_red("sum", m, dlt, lv))
            mm = self.minmax(p, v)
            if mm is not None:
                op, w, cond = mm
                w = ite(cond, w, INF if op == "min" else neg(INF)) if cond is not TRUE else w
                r = close_red(op, m, w, lv)
                if i is INF and op == "min":
                    return ite(lt(ZERO, m), r, INF)
                f = min2 if op == "min" else max2
                return ite(lt(ZERO, m), f(i, r), i)
            if v.op == "poly":
                q = div(v, p)
                if not contains(q, p):
                    return mul(i, close_red("prod", m, q, lv)) if contains(q, lv) else mul(i, power(q, m))
        if v.op == "stored" and v.args[0] is p and not any(contains(x, p) for x in v.args[1]) and not contains(v.args[2], p):
            if i.op == "dict" and not i.args and len(v.args[1]) == 1:
                return mk("dictof", close_collect(m, TRUE, mk("tuple", v.args[1][0], v.args[2]), lv))
            t = mk("updated_by", i, close_collect(m, TRUE, mk("tuple", mk("tuple", *v.args[1]), v.args[2]), lv))
            if ty(i) is not None:
                T.Ctx.types[t] = ty(i)
            if shape(i) is not None:
                T.Ctx.shapes[t] = shape(i)
            return t
        return None

    def pos(self, m):
        return m.op == "num" and m.args[0] > 0 or self.st.facts.decide(lt(ZERO, m)) is True

    def suffix(self, p, v):
        """v = p ++ X  ->  X"""
        if v is p:
            return mk("list")
        if v.op == "concat" and v.args[0] is p and not any(contains(x, p) for x in v.args[1:]):
            return concat(*v.args[1:])
        if v.op == "ite" and not contains(v.args[0], p):
            a = self.suffix(p, v.args[1])
            b = self.suffix(p, v.args[2])
            if a is None or b is None:
                return None
            return ite(v.args[0], a, b)
        return None

    def cond_over(self, p, v):
        """v = c ? w : p with c, w independent of p"""
        if v.op != "ite" or contains(v.args[0], p):
            return None
        c, a, b = v.args
        if b is p and not contains(a, p):
            return c, a
        if a is p and not contains(b, p):
            return not_(c), b
        x = self.cond_over(p, a) if a is not p else (FALSE, None)
        y = self.cond_over(p, b) if b is not p else (FALSE, None)
        if x is None and not contains(a, p):
            x = (TRUE, a)
        if y is None and not contains(b, p):
            y = (TRUE, b)
        if x is None or y is None:
            return None
        cx, wx = x
        cy, wy = y
        if cx is FALSE:
            return and_(not_(c), cy), wy
        if cy is FALSE:
            return and_(c, cx), wx
        return or_(and_(c, cx), and_(not_(c), cy)), ite(c, wx, wy)

    def any_(self, m, c):
        o = one_point(c, self.lv)
        if o is not None:
            e, rest = o
            return and_(not_(lt(e, ZERO)), lt(e, m), subst(rest, {self.lv: e}))
        return close_red("any", m, c, self.lv)

    def last_where(self, m, cond, w, i):
        lv = self.lv
        has = self.any_(m, cond)
        if not contains(w, lv):
            return ite(has, w, i)
        o = one_point(cond, lv)
        if o is not None:
            return ite(has, subst(w, {lv: o[0]}), i)
        alts = alternatives(cond)
        if 1 < len(alts) <= 6:
            pts = [one_point(c, lv) for c in alts]
            if all(pts):
                return self.many_points(m, cond, pts, w, i)
        T.Ctx.types.setdefault(HOLE, "int")
        h = subst(cond, {lv: HOLE})
        k = T.binder_name(m, h)
        t = mk("last", m, subst(h, {HOLE: BV(k)}), k)
        T.Ctx.types[t] = "int"
        return ite(has, subst(w, {lv: t}), i)

    def many_points(self, m, cond, pts, w, i):
        """the last of several iterations, each given by a formula, that satisfy their condition"""
        lv = self.lv
        r, taken = i, FALSE
        last = neg(ONE)
        for e, rest in pts:
            hit = and_(not_(lt(e, ZERO)), lt(e, m), subst(rest, {lv: e}), lt(last, e))
            r = ite(hit, simplify(subst(w, {lv: e}), Facts().assume(hit)), r)
            last = ite(hit, e, last)
        return r

    def minmax(self, p, v):
        """v = min(p, w) / max(p, w), possibly conditional"""
        cond = TRUE
        if v.op == "ite" and not contains(v.args[0], p):
            c, a, b = v.args
            if b is p:
                r = self.minmax(p, a)
                return None if r is None else (r[0], r[1], and_(c, r[2]))
            if a is p:
                r = self.minmax(p, b)
                return None if r is None else (r[0], r[1], and_(not_(c), r[2]))
            return None
        if v.op != "ite":
            return None
        c, a, b = v.args
        for w in (a, b):
            if w is p or contains(w, p):
                continue
            for op, f in (("min", min2), ("max", max2)):
                e = equal(f(p, w), v)
                if e.v == EQ:
                    return op, w, TRUE
        return None

    def arrays(self, p, i, v, m):
        sh = shape(p)
        if sh is None or shape(v) is None or shape(i) is None or len(sh) != len(shape(v)):
            return None
        ixs = [ZERO if n is ONE else IX(k) for k, n in enumerate(sh)]
        ve = elem(v, ixs)
        pe = elem(p, ixs)
        ie = elem(i, ixs)
        q = mk("hole", "elem")
        T.Ctx.types[q] = ty(ie) or "float"
        w = subst(ve, {pe: q})
        if contains(w, p):
            return None
        r = self.scalar(q, ie, w, m)
        if r is None:
            return None
        return mkarr(sh, r)

    def element_map(self, p, i, v, m):
        """every iteration overwrites elements of its own, computed from elements
        that no earlier iteration has written"""
        sh = shape(p)
        if sh is None or shape(v) is None or shape(i) is None or len(sh) != len(shape(v)) or not is_arr(p):
            return None
        if self.end is None:
            return None
        ixs = [ZERO if n is ONE else IX(k) for k, n in enumerate(sh)]
        ve = elem(v, ixs)
        arrs = [q for q in self.of_phi if contains(ve, q)]
        if not arrs or any(shape(q) is None for q in arrs):
            return None
        f = Facts(self.st.facts)
        for k, n in enumerate(sh):
            f.assume(lt(IX(k), n))
        f.assume(lt(self.lv, m))
        q = mk("hole", "elem")
        T.Ctx.types[q] = ty(elem(i, ixs)) or "float"
        self._ends = {}
        w = self.resolve(ve, f, p, ixs, q)
        if w is None or any(contains(w, a) for a in arrs) or any(contains(w, a) for a in self.of_phi):
            return None
        r = self.scalar(q, elem(i, ixs), w, m)
        return None if r is None else mkarr(sh, r)

    def resolve(self, t, f, p, ixs, hole):
        if not any(contains(t, a) for a in self.of_phi):
            return t
        if t.op == "ite":
            c = self.resolve(t.args[0], f, p, ixs, hole)
            if c is None:
                return None
            fa, fb = f.copy().assume(c), f.copy().assume(c, False)
            a = t.args[2] if fa.bad else self.resolve(t.args[1], fa, p, ixs, hole)
            b = t.args[1] if fb.bad else self.resolve(t.args[2], fb, p, ixs, hole)
            return None if a is None or b is None else ite(c, a, b)
        if t.op == "at" and t.args[0] in self.of_phi:
            a, idx = t.args[0], list(t.args[1:])
            if any(contains(x, y) for x in idx for y in self.of_phi) or len(idx) != len(shape(a)):
                return None
            if self.unchanged(a, idx, f):
                ini = self.I.freeze(self.st, self.keys[self.of_phi[a]][1])
                return elem(ini, idx) if shape(ini) is not None else at(ini, *idx)
            if a is p and all(x is y for x, y in zip(idx, ixs)):
                return hole
            return None
        if t.op in ("ite", "at") or not t.args:
            return None
        if t in self.of_phi or t.op in ("arr", "red", "collect", "fold", "ref", "view"):
            return None
        mp = {}
        for x in subterms(t):
            if x.op == "at" and x.args[0] in self.of_phi:
                y = self.resolve(x, f, p, ixs, hole)
                if y is None:
                    return None
                mp[x] = y
            elif x.op == "ite" and any(contains(x, a) for a in self.of_phi):
                return None
        return subst(t, mp)

    def unchanged(self, a, idx, f):
        """no iteration before the current one writes this element"""
        key = self.of_phi[a]
        val = self.keys[key][2]
        if val is None or val is a:
            return True
        if a not in self._ends:
            self._ends[a] = self.I.freeze(self.end, val)
        v = self._ends[a]
        if shape(v) is None:
            return False
        j = mk("sym", "~earlier")
        T.Ctx.types[j] = "int"
        e = elem(subst(v, {self.lv: j}), idx)
        g = f.copy()
        g.assume(not_(lt(j, ZERO)))
        g.assume(lt(j, self.lv))
        return simplify(e, g) is simplify(at(a, *idx), g)

    def fold(self, p, i, v, m):
        lv = self.lv
        others = [q for q in self.of_phi if contains(v, q) and q is not p]
        lev = 1 + max([0] + [fold_level(val) for ph, ini, val, cl in self.keys.values() if val is not None] + [fold_level(v)])
        it, acc = fold_vars(lev)
        mp = {p: acc, lv: it}
        body = subst(v, mp)
        inits = []
        for k, q in enumerate(others):
            h = mk("hole", "acc", lev, k + 1)
            ph, ini, val, cl = self.keys[self.of_phi[q]]
            body = subst(body, {q: h})
            vv = self.I.freeze(self.end, val) if val is not None else q
            inits.append((self.I.freeze(self.st, ini), subst(subst(vv, mp), {q2: mk("hole", "acc", lev, z + 1) for z, q2 in enumerate(others)})))
        t = mk("fold", m, i, body, tuple(inits), lev)
        k = T.Ctx.types.get(p)
        if k is not None:
            T.Ctx.types[t] = k
        if shape(p) is not None:
            T.Ctx.shapes[t] = shape(p)
        return t

    def fix_events(self, node):
        """carried values in the effects of the iteration"""
        from .interp import LoopNode

        ps = list(self.of_phi)
        if not ps:
            return
        done = {}

        def f(t):
            if not isinstance(t, Term) or t.op == "phi" and t not in self.of_phi:
                return t
            if t in done:
                return done[t]
            r = self.sub(t, self.lv) if has_op(t, "phi") else t
            done[t] = r
            return r

        def walk(tr):
            for e in tr:
                e.guard = f(e.guard)
                if isinstance(e, LoopNode):
                    e.n, e.cond, e.stop = f(e.n), f(e.cond), f(e.stop)
                    walk(e.body)
                else:
                    e.args = tuple(f(x) for x in e.args)
                    e.kw = {k: f(x) for k, x in e.kw.items()}
                    if e.recv is not None:
                        e.recv = f(e.recv)
                    if e.ret is not None:
                        e.ret = f(e.ret)

        walk(node.body)
        node.cond = f(node.cond)


def split_cond_(s):
    if s.op == "ite":
        c, a, b = s.args
        if b.op == "list" and not b.args:
            c2, x = split_cond_(a)
            return and_(c, c2), x
        if a.op == "list" and not a.args:
            c2, x = split_cond_(b)
            return and_(not_(c), c2), x
        # both sides add the same number of elements
        if a.op == "list" and b.op == "list" and len(a.args) == len(b.args) == 1:
            return TRUE, mk("list", ite(c, a.args[0], b.args[0]))
    return TRUE, s

"""Statements."""
import ast
from .terms import *
from . import terms as T
from .arrays import *
from .arrays import Sl
from .state import *
from .ops import is_arrayish, _pylist

RISKY = ("ecall", "ucall", "mcall", "pcall", "pmcall")


_primed = {}


def primed(stmts):
    """S; while c: B; S  is  while True: S; if not c: break; B"""
    if not any(isinstance(w, ast.While) for w in stmts[1:]):
        return stmts
    out = []
    for w in stmts:
        k = 0
        if isinstance(w, ast.While) and not w.orelse and not any(isinstance(z, ast.Continue) for b in w.body for z in own_level(b)):
            while k < min(len(out), len(w.body)) and ast.dump(out[-1 - k]) == ast.dump(w.body[-1 - k]):
                k += 1
            while k and not any(isinstance(z, ast.Call) for b in out[-k:] for z in ast.walk(b)):
                k -= 1
        if k:
            s = out[-k:]
            del out[-k:]
            if id(w) in _primed:
                out.append(_primed[id(w)][1])
                continue
            stop = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=w.test), body=[ast.Break()], orelse=[])
            loop = ast.While(test=ast.Constant(value=True), body=s + [stop] + w.body[:-k], orelse=[])
            old, w = w, ast.fix_missing_locations(ast.copy_location(loop, w))
            _primed[id(old)] = (old, w)
            for z in (stop, stop.test, stop.body[0]):
                ast.copy_location(z, w)
        out.append(w)
    return out


def own_level(n):
    """n and what is in it, but for inner loops and functions"""
    yield n
    if not isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
        for c in ast.iter_child_nodes(n):
            yield from own_level(c)


class StmtMixin:
    def block(self, stmts, sts):
        from .interp import Out

        outs = []
        st = self.join([s for s in sts if s is not None])
        for s in primed(stmts):
            if st is None or st.dead:
                return outs
            res = self.exec(s, st)
            nxt = []
            for o in res:
                if o.st is None or o.st.dead:
                    continue
                if o.kind == "normal":
                    nxt.append(o.st)
                else:
                    outs.append(o)
            st = self.join(nxt)
        if st is not None and not st.dead:
            outs.append(Out("normal", st))
        return outs

    def exec(self, n, st):
        from .interp import Out

        self.cur = n
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.note("statement " + type(n).__name__, n)
            return [Out("normal", st)]
        r = m(n, st)
        if r is None:
            return [Out("normal", st)]
        return r

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, st)

    def s_Pass(self, n, st):
        return

    s_Global = s_Nonlocal = s_Pass

    def s_Assign(self, n, st):
        v = self.eval(n.value, st)
        if st.dead:
            return []
        for t in n.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = st.frame
            if fr is not None and t.id in fr.globals:
                c = fr.closure
                while c is not None:
                    if t.id in c.env:
                        c.env[t.id] = v
                        return
                    c = c.frame.closure if c.frame else None
                self.write_field(st, mk("module", fr.module.name), t.id, v)
                return
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self.set_attr(st, b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b, idx = self.place(t, st)
            self.set_item(st, b, idx, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            self.note("target", t)

    def place(self, t, st):
        """base and indices of a subscript that is stored to; a[i][j] is a[i, j] of an array"""
        if isinstance(t.value, ast.Subscript) and not isinstance(t.slice, ast.Tuple):
            b, i = self.place(t.value, st)
            s = shape(self.content(st, b))
            if s is not None and len(s) > len(i) and all(isinstance(x, Term) and ty(self.content(st, x)) == "int" for x in i):
                return b, list(i) + list(self.indices(t.slice, st))
            return self.get_item(st, b, i), self.indices(t.slice, st)
        return self.eval(t.value, st), self.indices(t.slice, st)

    def unpack(self, elts, v, st):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.op == "ite" and not star:
            c = self.content(st, v)
            parts = [self.component(st, v, i, n) for i in range(n)]
        elif star:
            c = self.content(st, v)
            if c.op in ("list", "tuple"):
                k = star[0]
                tail = n - k - 1
                parts = list(c.args[:k]) + [self.new_ref(st, mk("list", *c.args[k : len(c.args) - tail]), "list")] + list(
                    c.args[len(c.args) - tail :] if tail else []
                )
            else:
                self.note("starred unpacking")
                parts = [at(c, num(i)) for i in range(n)]
        else:
            parts = [self.component(st, v, i, n) for i in range(n)]
        for e, p in zip(elts, parts):
            self.assign(e.value if isinstance(e, ast.Starred) else e, p, st)

    def component(self, st, v, i, n):
        if v.op == "ite":
            return ite(v.args[0], self.component(st, v.args[1], i, n), self.component(st, v.args[2], i, n))
        c = self.content(st, v)
        if c.op in ("tuple", "list"):
            return c.args[i] if i < len(c.args) else mk("undef", "unpack")
        if c.op == "ite":
            return ite(c.args[0], self.component(st, c.args[1], i, n), self.component(st, c.args[2], i, n))
        if c.op == "iter":
            return self.b_next(st, [v], {})
        if c.op == "attr" and c.args[1] == "shape":
            return dim(c.args[0], i)
        if c.op == "attr" and c.args[1] == "T":
            pass
        return self.get_item(st, v, [num(i)])

    def set_attr(self, st, b, name, v):
        if b.op == "ite":
            g = b.args[0]
            for x, k in ((b.args[1], g), (b.args[2], not_(g))):
                s = st.branch(k)
                if s is None:
                    continue
                self.set_attr(s, x, name, v)
                o = st.branch(not_(k))
                if o is None:
                    self.replace(st, s)
                else:
                    self.merge_into(st, k, s, o)
            return
        c = self.class_of(b)
        if c is None and ty(b) is None and b.op in ("attr", "at", "ret", "mret"):
            pass
        if c is not None:
            for k in self.prog.mro(c):
                if name in k.setters:
                    self.call_function(st, k.setters[name], [b, v], {})
                    return
        if name == "shape" and is_arrayish(self.content(st, b)):
            dims = self.shape_items(st, v)
            if dims is None:
                self.note("assignment to .shape")
                return
            self.mutate(st, b, reshape(self.content(st, b), dims), "shape")
            return
        self.write_field(st, b, name, v)

    def shape_items(self, st, v):
        c = self.content(st, v)
        if c.op in ("tuple", "list"):
            return [self.freeze(st, x) for x in c.args]
        return [c] if ty(c) == "int" else None

    def s_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            loc = self.lookup(t.id, st)
            new = self.aug(n, st, loc, self.eval(n.value, st))
            self.assign(t, new, st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            loc = self.get_attr(st, b, t.attr)
            new = self.aug(n, st, loc, self.eval(n.value, st))
            self.set_attr(st, b, t.attr, new)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            idx = self.indices(t.slice, st)
            loc = self.get_item(st, b, idx)
            v = self.eval(n.value, st)
            if loc.op == "view":
                a = self.content(st, loc)
                r = self.binop(type(n.op), a, self.content(st, v), st)
                self.set_item(st, b, idx, r)
                return
            if loc.op == "ref" and _pylist(self.content(st, loc)) and isinstance(n.op, ast.Add):
                self.aug(n, st, loc, v)
                return
            a = self.content(st, loc)
            r = self.binop(type(n.op), a, self.content(st, v), st)
            self.set_item(st, b, idx, r)

    def aug(self, n, st, loc, v):
        if loc.op == "ite" and isinstance(n.op, ast.Add) and all(self.is_location(x) and _pylist(self.content(st, x)) for x in loc.args[1:]):
            # one of two lists grows
            y = self.as_list(st, self.content(st, v))
            if y is not None:
                for x, g in ((loc.args[1], loc.args[0]), (loc.args[2], not_(loc.args[0]))):
                    c = self.content(st, x)
                    self.set_content(st, x, ite(g, concat(c, y), c))
                from .interp import Ev

                self.emit(st, Ev("mut", "extend", recv=loc))
                return loc
        a = self.content(st, loc)
        b = self.content(st, v)
        if _pylist(a) and isinstance(n.op, ast.Add) and self.is_location(loc):
            y = self.as_list(st, b)
            if y is None:
                y = mk("call", "list", (self.freeze(st, b),), ())
                T.Ctx.types[y] = ("list", None)
            self.mutate(st, loc, self.cat(a, y), "extend")
            return loc
        r = self.binop(type(n.op), a, b, st)
        if is_arrayish(a) and self.is_location(loc):
            self.mutate(st, loc, r, "inplace")
            return loc
        if a.op == "ite" and loc.op == "ite" and is_arrayish(a):
            self.mutate(st, loc, r, "inplace")
            return loc
        if not scalar_type(ty(a)):
            self.may_alias(a)
        return self.wrap(st, r)

    def s_Return(self, n, st):
        from .interp import Out

        v = self.eval(n.value, st) if n.value is not None else NONE
        if st.dead:
            return []
        return [Out("return", st, v)]

    def s_Break(self, n, st):
        from .interp import Out

        return [Out("break", st)]

    def s_Continue(self, n, st):
        from .interp import Out

        return [Out("continue", st)]

    def s_If(self, n, st):
        from .interp import Out

        c = self.truth(st, self.eval(n.test, st))
        if st.dead:
            return []
        c = self.known(st, c)
        if c is TRUE:
            return self.block(n.body, [st])
        if c is FALSE:
            return self.block(n.orelse, [st])
        s1, s2 = st.branch(c), st.branch(not_(c))
        outs = []
        if s1 is not None:
            if s2 is None:
                s1.pc, s1.facts = st.pc, s1.facts
            outs += self.block(n.body, [s1])
        if s2 is not None:
            if s1 is None:
                s2.pc = st.pc
            outs += self.block(n.orelse, [s2])
        return outs

    def s_Assert(self, n, st):
        from .interp import Out, Ev

        c = self.known(st, self.truth(st, self.eval(n.test, st)))
        if c is TRUE:
            return
        outs = []
        bad = st.branch(not_(c))
        if bad is not None:
            msg = self.freeze(bad, self.eval(n.msg, bad)) if n.msg is not None else NONE
            ev = Ev("raise", "AssertionError", None, (msg,))
            self.emit(bad, ev)
            outs.append(Out("raise", bad, mk("exception", "AssertionError", (msg,))))
        ok = st.branch(c)
        if ok is not None:
            outs.append(Out("normal", ok))
        return outs

    def s_Raise(self, n, st):
        from .interp import Out, Ev

        if n.exc is None:
            name, args = "reraise", ()
        else:
            e = n.exc
            if isinstance(e, ast.Call):
                f = self.eval(e.func, st)
                args = tuple(self.freeze(st, self.eval(a, st)) for a in e.args)
            else:
                f = self.eval(e, st)
                args = ()
            name = self.exc_name(f)
        if st.dead:
            return []
        self.cur = n
        self.emit(st, Ev("raise", name, None, args))
        return [Out("raise", st, mk("exception", name, args))]

    @staticmethod
    def exc_name(f):
        if f.op == "extf":
            n = f.args[0]
            return n[9:] if n.startswith("builtins.") else n
        if f.op == "class":
            return f.args[0]
        if f.op == "exception":
            return f.args[0]
        return "?"

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                c = self.content(st, b)
                idx, _ = self.index_of(t.slice, st)
                if c.op == "dict" and isinstance(idx, Term):
                    new = mk("dict", *[p for p in c.args if T.eq(p[0], self.freeze(st, idx)) is not TRUE])
                elif isinstance(idx, Term):
                    if idx is ZERO:
                        new = self.slice_term(c, Sl(ONE, None, None), st)
                    elif idx is num(-1):
                        new = self.slice_term(c, Sl(None, num(-1), None), st)
                    else:
                        new = mk("popped", c, idx)
                elif idx.hi is None and idx.step is None:
                    new = self.slice_term(c, Sl(None, idx.lo, None), st)
                elif idx.lo is None and idx.step is None:
                    new = self.slice_term(c, Sl(idx.hi, None, None), st)
                else:
                    new = mk("deleted", c, mk("slc", idx.lo or NONE, idx.hi or NONE, idx.step or NONE))
                if ty(new) is None and ty(c) is not None:
                    T.Ctx.types[new] = ty(c)
                self.mutate(st, b, new, "delitem")
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                self.write_field(st, b, t.attr, mk("undef", "deleted", t.attr))

    def s_FunctionDef(self, n, st):
        t = self.make_closure(n, st, n.name)
        c = self.closures[t]
        for d in reversed(n.decorator_list):
            f = self.eval(d, st)
            t = self.call(st, f, [t], {})
        st.env[n.name] = t
        c.env[n.name] = t

    def s_ClassDef(self, n, st):
        self.note("local class", n)
        st.env[n.name] = mk("opaque", "localclass", n.name)

    def s_Import(self, n, st):
        for a in n.names:
            if a.asname:
                st.env[a.asname] = self.import_value(st, a.name)
            else:
                st.env[a.name.split(".")[0]] = self.import_value(st, a.name.split(".")[0])

    def import_value(self, st, name):
        if name in self.prog.modules:
            return mk("module", name)
        return mk("extf", name)

    def s_ImportFrom(self, n, st):
        fr = st.frame
        base = n.module or ""
        if n.level:
            pkg = fr.module.name.split(".")
            if not fr.module.is_pkg:
                pkg = pkg[:-1]
            pkg = pkg[: len(pkg) - (n.level - 1)]
            base = ".".join(pkg + ([n.module] if n.module else []))
        for a in n.names:
            if base in self.prog.modules:
                r = self.prog.member(base, a.name)
                v = self.binding_value(st, r) if r is not None else mk("undef", base, a.name)
            else:
                v = mk("extf", base + "." + a.name)
            st.env[a.asname or a.name] = v

    # ------------------------------------------------------------------ with / try
    def s_With(self, n, st):
        from .interp import Ev

        ctxs = []
        for it in n.items:
            v = self.eval(it.context_expr, st)
            ctxs.append(v)
            c = self.class_of(v)
            ent = v
            if c is not None and self.prog.find_method(c, "__enter__"):
                ent = self.call(st, self.get_attr(st, v, "__enter__"), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, st)
        outs = self.block(n.body, [st])
        for o in outs:
            if o.st.dead or o.kind == "raise":
                continue
            for v in reversed(ctxs):
                c = self.class_of(v)
                if c is not None and self.prog.find_method(c, "__exit__"):
                    self.call(o.st, self.get_attr(o.st, v, "__exit__"), [NONE, NONE, NONE], {})
                else:
                    self.emit(o.st, Ev("mcall", "close", v, (), {}, NONE))
        return outs

    def s_Try(self, n, st):
        from .interp import Out, Ev

        outs = []
        hstates = []  # (state, exception term) entering the handlers
        first = len(self.trace)
        last = first
        cur = st
        for s in n.body:
            if cur is None:
                break
            pre = cur.copy()
            k0 = len(self.trace)
            self.raise_sinks.append([])
            res = self.exec(s, cur)
            raised = self.raise_sinks.pop()
            risky = self.risky_terms(self.trace[k0:])
            nxt = []
            for o in list(res) + raised:
                if o.st is None or o.st.dead:
                    continue
                if o.kind == "raise":
                    if o.st.env is not pre.env and o in raised:
                        o.st.env = dict(pre.env)
                        o.st.frame = pre.frame
                    hstates.append((o.st, o.val))
                elif o.kind == "normal":
                    nxt.append(o.st)
                else:
                    outs.append(o)
            cur = self.join(nxt)
            if risky and n.handlers:
                atom = or_(*[and_(simplify(g, pre.facts), mk("exc", (r,))) for g, r in risky])
                bad = pre.branch(atom)
                # effects before the failing call are not modelled, except epochs
                if bad is not None:
                    # all that next() raises is StopIteration
                    nx = all(r.op == "ext" and r.args[0] in ("next", "builtins.next") for _, r in risky)
                    hstates.append((bad, mk("exception", "StopIteration" if nx else "?", (atom,), *(("next",) if nx else ()))))
                na = not_(atom)
                if cur is not None:
                    cur.assume(na)
                for o in outs:
                    if o.kind in ("return", "break", "continue") and o in res:
                        o.st.assume(na)
        last = len(self.trace)
        if cur is not None:
            if n.orelse:
                for o in self.block(n.orelse, [cur]):
                    outs.append(o)
            else:
                outs.append(Out("normal", cur))
        rest = hstates
        for h in n.handlers:
            names = self.handler_names(h, st)
            take, rest2 = [], []
            for s, e in rest:
                m = self.catches(names, e)
                if m is True:
                    take.append((s, e))
                    self.mark_caught(self.trace[first:last], e)
                elif m is False:
                    rest2.append((s, e))
                else:
                    k = mk("exckind", e, tuple(names))
                    T.Ctx.types[k] = "bool"
                    a, b = s.branch(k), s.branch(not_(k))
                    if a is not None:
                        take.append((a, e))
                    if b is not None:
                        rest2.append((b, e))
            rest = rest2
            if not take:
                continue
            j, ev = self.join_vals(take)
            if h.name:
                j.env[h.name] = ev
            for o in self.block(h.body, [j]):
                if h.name and o.kind == "normal":
                    o.st.env.pop(h.name, None)
                outs.append(o)
        for s, e in rest:
            if e.args[0] == "?":
                # an exception of the environment that nobody handles
                if T.Ctx.escape and n.handlers:
                    self.emit(s, Ev("raise", "an error of a function called", None, ()))
                continue
            if e.args[2:] == ("next",):
                self.emit(s, Ev("raise", "StopIteration", None, ()))
            outs.append(Out("raise", s, e))
        if n.finalbody:
            res = []
            for kind in ("normal", "return", "break", "continue", "raise"):
                grp = [o for o in outs if o.kind == kind]
                if not grp:
                    continue
                if kind == "normal":
                    res += self.block(n.finalbody, [self.join([o.st for o in grp])])
                else:
                    for o in grp:
                        for q in self.block(n.finalbody, [o.st]):
                            res.append(Out(kind, q.st, o.val) if q.kind == "normal" else q)
            return res
        return outs

    s_TryStar = s_Try

    def mark_caught(self, tr, e):
        from .interp import LoopNode

        for x in tr:
            if isinstance(x, LoopNode):
                self.mark_caught(x.body, e)
            elif x.kind == "raise" and e.args and x.name == e.args[0]:
                x.kind = "caught"

    def risky_terms(self, tr):
        from .interp import LoopNode

        out = []
        for e in tr:
            if isinstance(e, LoopNode):
                out += [(e.guard, r) for _, r in self.risky_terms(e.body)]
            elif e.kind in RISKY and e.ret is not None:
                out.append((e.guard, e.ret))
        return out

    def handler_names(self, h, st):
        if h.type is None:
            return ["*"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            s = st.copy()
            f = self.eval(t, s)
            out.append(self.exc_name(f))
        return out

    PARENTS = {
        "ModuleNotFoundError": "ImportError", "KeyError": "LookupError", "IndexError": "LookupError",
        "FileNotFoundError": "OSError", "ZeroDivisionError": "ArithmeticError", "NotImplementedError": "RuntimeError",
        "UnicodeDecodeError": "ValueError", "numpy.linalg.LinAlgError": "ValueError",
    }

    def catches(self, names, e):
        if "*" in names or "Exception" in names or "BaseException" in names:
            return True
        n = e.args[0]
        if n == "?":
            return None
        while n is not None:
            if n in names:
                return True
            n = self.PARENTS.get(n)
        return False

    def s_Match(self, n, st):
        self.note("match statement", n)

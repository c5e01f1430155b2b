"""Expressions."""
import ast
import builtins
import re
from .terms import *
from . import terms as T
from .arrays import *
from .arrays import Sl, NEWAXIS, ELL
from .state import *

BIN = {
    ast.Add: add,
    ast.Sub: sub,
    ast.Mult: mul,
    ast.Div: div,
    ast.Pow: power,
}
NUMPY_ATTRS = {"shape", "T", "size", "ndim", "dtype", "real", "flat", "imag"}


def is_arrayish(t):
    return is_arr(t) or opt_strip(ty(t)) == "arr"


def _optional(v):
    if v.op == "ite":
        return any(x is NONE or _optional(x) for x in v.args[1:])
    k = ty(v)
    return isinstance(k, tuple) and k[0] == "opt"


def some(v, st):
    """drop the alternatives of v that the path excludes"""
    if v.op == "ite" and _optional(v):
        return simplify(v, st.facts)
    return v


_BUILTIN_NAMES = frozenset(dir(builtins)) | {"__file__", "__name__", "__doc__"}


class OpsMixin:
    def eval(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.note("expression " + type(n).__name__, n)
            return mk("opaque", "expr", type(n).__name__)
        if hasattr(n, "lineno"):
            self.cur = n
        return m(n, st)

    def val(self, n, st):
        return self.content(st, self.eval(n, st))

    def e_Constant(self, n, st):
        if n.value is Ellipsis:
            return mk("ellipsis")
        return const(n.value)

    def e_Name(self, n, st):
        return self.lookup(n.id, st)

    def lookup(self, name, st):
        fr = st.frame
        if fr is not None and name in fr.globals:
            v = self.lookup_global(st, fr.module, name)
            if v is not None:
                return v
        if name in st.env:
            v = st.env[name]
            if has_op(v, "unbound"):
                v = self.drop_unbound(v, st)
            return v
        c = fr.closure if fr else None
        while c is not None:
            if c.live is not None and name in c.live.env:
                return c.live.env[name]
            if name in c.env:
                return c.env[name]
            c = c.frame.closure if c.frame else None
        if fr is not None:
            v = self.lookup_global(st, fr.module, name)
            if v is not None:
                return v
        if fr is not None and name not in _BUILTIN_NAMES:
            return self.raise_here(st, "NameError")
        return mk("extf", "builtins." + name)

    def drop_unbound(self, v, st):
        """a possibly unbound name that is read was bound (else NameError)"""
        if v.op == "ite":
            if v.args[1].op == "unbound":
                return self.drop_unbound(v.args[2], st)
            if v.args[2].op == "unbound":
                return self.drop_unbound(v.args[1], st)
            return ite(v.args[0], self.drop_unbound(v.args[1], st), self.drop_unbound(v.args[2], st))
        return v

    # -- containers -------------------------------------------------------------
    def e_List(self, n, st):
        return self.new_ref(st, self.seq_term("list", n.elts, st), "list")

    def e_Tuple(self, n, st):
        t = self.seq_term("tuple", n.elts, st)
        return t

    def e_Set(self, n, st):
        t = self.seq_term("list", n.elts, st)
        return self.new_ref(st, mk("set", t), "set")

    def seq_term(self, op, elts, st):
        items = [self.eval(e, st) for e in elts]
        if any(x.op == "starred" for x in items):
            parts = []
            for x in items:
                if x.op == "starred":
                    c = self.content(st, x.args[0])
                    k = self.as_list(st, c)
                    if k is not None:
                        c = self.freeze(st, k)
                    parts.append(c)
                else:
                    parts.append(mk("list", x))
            r = concat(*parts)
            if op == "tuple" and r.op == "list":
                return mk("tuple", *r.args)
            return r
        return mk(op, *items)

    def e_Starred(self, n, st):
        return mk("starred", self.eval(n.value, st))

    def e_Dict(self, n, st):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                c = self.content(st, self.eval(v, st))
                if c.op == "dict":
                    for kk, vv in c.args:
                        items = [x for x in items if x[0] is not kk] + [(kk, vv)]
                    continue
                self.note("dict splice", n)
                return self.new_ref(st, mk("opaque", "dict", c), "dict")
            kk = self.freeze(st, self.eval(k, st))
            vv = self.eval(v, st)
            items = [x for x in items if x[0] is not kk] + [(kk, vv)]
        return self.new_ref(st, mk("dict", *items), "dict")

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(mk("str", (v.value,)))
            else:
                x = self.freeze(st, self.eval(v.value, st))
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, st)
                    if x is NONE and sp is not mk("str"):
                        return self.raise_here(st, "TypeError")
                    parts.append(self.formatted(st, x, sp))
                elif v.conversion not in (-1, 115):
                    parts.append(mk("str", (mk("fmt", x, mk("str", ("!" + chr(v.conversion),))),)))
                else:
                    parts.append(self.to_str(x))
        return cstr(*parts)

    def percent(self, st, a, b):
        """'..%s..%d..' % (..) as the formatted string with the same pieces"""
        if not is_str_const(a):
            return None
        b = self.content(st, b)
        if b.op != "tuple" and (ty(b) is None or ty(b) == "arr" or b.op == "dict" or isinstance(ty(b), tuple) and ty(b)[0] in ("dict", "tuple")):
            return None
        xs = list(b.args) if b.op == "tuple" else [b]
        pieces = []
        for lit, spec, kind in re.findall(r"([^%]+)|%(\.\d+|)([a-zA-Z%])", str_value(a)):
            if lit:
                pieces.append(mk("str", (lit,)))
                continue
            if kind == "%" and not spec:
                pieces.append(mk("str", ("%",)))
                continue
            if not xs:
                return None
            x = self.freeze(st, xs.pop(0))
            if kind == "s" and not spec or kind in "di" and not spec and opt_strip(ty(x)) == "int":
                pieces.append(self.formatted(st, x, None))
            elif kind == "d" and not spec and ty(x) in ("float", "num"):
                pieces.append(self.to_str(self.b_int(st, [x], {})))
            elif kind in "feg" and spec and ty(x) in ("float", "num", "int"):
                pieces.append(self.formatted(st, x, cstr(spec + kind)))
            else:
                return None
        if xs or "".join(m.group() for m in re.finditer(r"[^%]+|%(\.\d+|)[a-zA-Z%]", str_value(a))) != str_value(a):
            return None
        return cstr(*pieces)

    def formatted(self, st, x, sp):
        """the text of x in the given format"""
        if sp is None or is_str_const(sp) and not str_value(sp):
            return self.to_str(x)
        self.not_none(st, x)
        pad = re.fullmatch(r"0(\d+)d?", str_value(sp)) if is_str_const(sp) else None
        if pad and ty(x) == "int":
            t = mk("call", "str.zfill", (self.to_str(x), num(int(pad.group(1)))), ())
            T.Ctx.types[t] = "str"
            return t
        return mk("str", (mk("fmt", x, sp),))

    def to_str(self, x):
        if x.op == "str":
            return x
        if x.op == "num" and x.args[0].denominator == 1:
            return mk("str", (str(x.args[0]),))
        if x in (TRUE, FALSE, NONE):
            return mk("str", ({"true": "True", "false": "False", "none": "None"}[x.op],))
        if x.op == "ite":
            return ite(x.args[0], self.to_str(x.args[1]), self.to_str(x.args[2]))
        return mk("str", (x,))

    def e_FormattedValue(self, n, st):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]), st)

    # -- operators ---------------------------------------------------------------
    def e_BinOp(self, n, st):
        a = self.val(n.left, st)
        b = self.val(n.right, st)
        r = self.binop(type(n.op), a, b, st)
        return self.wrap(st, r)

    def key_error(self, st, missing):
        """inside a try statement a failing lookup is a path of its own"""
        bad = st.branch(missing)
        if bad is not None and not bad.dead:
            self.raise_here(bad, "KeyError")
        st.assume(not_(missing))

    def not_none(self, st, v, name="TypeError"):
        """an operation that None does not support; False: it is certain to fail"""
        if st is None or not _optional(v):
            return True
        c = self.known(st, isnone(v))
        if c is FALSE:
            return True
        if c is TRUE:
            self.raise_here(st, name)
            return False
        bad = st.branch(c)
        if bad is not None and not bad.dead:
            self.raise_here(bad, name)
        st.assume(not_(c))
        return True

    def raise_here(self, st, name):
        """the operation fails for these operands"""
        from .interp import Out, Ev

        self.emit(st, Ev("raise", name, None, ()))
        if self.raise_sinks:
            self.raise_sinks[-1].append(Out("raise", st.copy(), mk("exception", name, ())))
        st.dead = True
        return mk("undef", "raised")

    def binop(self, op, a, b, st):
        if a.op == "ite" and _container(a) or b.op == "ite" and _container(b):
            x = a if a.op == "ite" and _container(a) else b
            c = x.args[0]
            sides = []
            for k in (1, 2):
                sides.append(
                    self.binop(op, a.args[k] if a is x else a, b.args[k] if b is x else b, st)
                )
            return ite(c, *sides)
        if (a is NONE or b is NONE) and st is not None and not (op is ast.Mod and ty(a) == "str"):
            return self.raise_here(st, "TypeError")
        if st is not None and not (op is ast.Mod and ty(a) == "str"):
            if not self.not_none(st, a) or not self.not_none(st, b):
                return mk("undef", "raised")
            a, b = some(a, st), some(b, st)
        if op in BIN:
            if op is ast.Add and (_pylist(a) or _pylist(b)):
                a, b = self.content(st, a), self.content(st, b)
                if _pylist(a) and _pylist(b):
                    return concat(self.freeze_list(st, a), self.freeze_list(st, b))
                # list + array: numpy
                if is_arrayish(a) or is_arrayish(b):
                    return add(np_array(a), np_array(b))
                if _pylist(b) or _pylist(a):
                    return concat(a, b)
            if op is ast.Mult and (is_str_const(a) and b.op == "num" or is_str_const(b) and a.op == "num"):
                w, k = (a, b) if b.op == "num" else (b, a)
                return const(str_value(w) * int(k.args[0]))
            if op is ast.Mult:
                w, k = (a, b) if b.op == "num" else (b, a)
                if k.op == "num" and opt_strip(ty(w)) == "str" and k.args[0].denominator == 1 and k.args[0] <= 8:
                    return T.cstr(*[self.to_str(w)] * max(0, int(k.args[0])))
            if op is ast.Mult and _pylist(a) and is_arrayish(b):
                a = np_array(a)
            if op is ast.Mult and _pylist(b) and is_arrayish(a):
                b = np_array(b)
            return BIN[op](a, b)
        if op is ast.FloorDiv:
            if is_arr(a) or is_arr(b):
                return ew(lambda x, y: fdiv(x, y, st.facts), a, b)
            return fdiv(a, b, st.facts)
        if op is ast.Mod:
            if a.op == "str":
                r = self.percent(st, a, b)
                return r if r is not None else mk("str", (mk("fmt%", a, self.freeze(st, b)),))
            if is_arr(a) or is_arr(b):
                return ew(lambda x, y: T.mod(x, y, st.facts), a, b)
            return T.mod(a, b, st.facts)
        if op is ast.MatMult:
            r = matmul(a, b)
            if r is None:
                r = mk("call", "matmul", (a, b), ())
                T.Ctx.types[r] = "arr"
            return r
        if a.op == b.op == "set" and op in (ast.BitAnd, ast.BitOr, ast.Sub):
            w = {ast.BitAnd: "intersection", ast.BitOr: "union", ast.Sub: "difference"}[op]
            return mk("call", "set." + w, (self.freeze(st, a), self.freeze(st, b)), ())
        if op in BITS and _boolish(a) and _boolish(b):
            if is_arr(a) or is_arr(b):
                return ew(BITS[op], a, b)
            return BITS[op](a, b)
        return mk("call", op.__name__, (a, b), ())

    def freeze_list(self, st, c):
        return c

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            v = self.eval(n.operand, st)
            return not_(self.truth(st, v))
        c = self.val(n.operand, st)
        if isinstance(n.op, ast.USub):
            return self.wrap(st, neg(c))
        if isinstance(n.op, ast.UAdd):
            return self.wrap(st, c)
        if isinstance(n.op, ast.Invert):
            if _boolish(c):
                return self.wrap(st, ew(not_, c) if is_arr(c) else not_(c))
        return mk("call", type(n.op).__name__, (c,), ())

    def truth(self, st, v):
        c = self.content(st, v)
        k = opt_strip(ty(c))
        if c.op == "set":
            c = c.args[0]
        if isinstance(k, tuple) and k[0] == "cls" and k == ty(c):
            return TRUE
        return truthy(c)

    def e_BoolOp(self, n, st):
        return self.boolop(isinstance(n.op, ast.And), n.values, st)

    def boolop(self, is_and, values, st):
        v = self.eval(values[0], st)
        if len(values) == 1:
            return v
        t = self.truth(st, v)
        t = self.known(st, t)
        go = t if is_and else not_(t)
        if go is FALSE:
            return v
        if go is TRUE:
            return self.boolop(is_and, values[1:], st)
        s1 = st.branch(go)
        s2 = st.branch(not_(go))
        if s1 is None:
            self.replace(st, s2)
            return v
        if s2 is None:
            self.replace(st, s1)
            return self.boolop(is_and, values[1:], st)
        w = self.boolop(is_and, values[1:], s1)
        if s1.dead:
            self.replace(st, s2)
            return v
        self.merge_into(st, go, s1, s2)
        tw = self.content(st, w)
        if ty(tw) == "bool" and (ty(self.content(st, v)) == "bool"):
            return and_(t, tw) if is_and else or_(t, tw)
        return ite(go, w, v)

    def replace(self, st, s):
        st.env, st.heap, st.pc, st.facts, st.dead = s.env, s.heap, s.pc, s.facts, s.dead

    def merge_into(self, st, sel, s1, s2):
        """st := join of the two branches of st"""
        n = len(st.pc)
        if s1.heap == s2.heap and s1.env == s2.env and len(s1.pc) == n + 1 and len(s2.pc) == n + 1:
            return
        j, _ = self._join2(sel, (s1, None), (s2, None), n)
        st.env, st.heap, st.pc, st.facts = j.env, j.heap, j.pc, j.facts

    def known(self, st, c):
        if c in (TRUE, FALSE):
            return c
        c = simplify(c, st.facts)
        d = st.facts.decide(c)
        if d is True:
            return TRUE
        if d is False:
            return FALSE
        return c

    def e_IfExp(self, n, st):
        c = self.known(st, self.truth(st, self.eval(n.test, st)))
        if c is TRUE:
            return self.eval(n.body, st)
        if c is FALSE:
            return self.eval(n.orelse, st)
        s1, s2 = st.branch(c), st.branch(not_(c))
        if s1 is None:
            return self.eval(n.orelse, st)
        if s2 is None:
            return self.eval(n.body, st)
        a = self.eval(n.body, s1)
        b = self.eval(n.orelse, s2)
        if s1.dead and s2.dead:
            st.dead = True
            return NONE
        if s1.dead:
            self.replace(st, s2)
            return b
        if s2.dead:
            self.replace(st, s1)
            return a
        self.merge_into(st, c, s1, s2)
        return ite(c, a, b)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        st.env[n.target.id] = v
        return v

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        out = TRUE
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            c = self.compare(st, op, left, right)
            out = c if out is TRUE else and_(out, c)
            left = right
        return self.wrap(st, out)

    def compare(self, st, op, l, r):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if l is NONE or r is NONE:
                c = isnone(self.content(st, r if l is NONE else l))
            elif l in (TRUE, FALSE) or r in (TRUE, FALSE):
                x, k = (l, r) if r in (TRUE, FALSE) else (r, l)
                x = self.content(st, x)
                if ty(x) == "bool":
                    c = x if k is TRUE else not_(x)
                else:
                    c = mk("is", x, k)
            else:
                m = may_alias(l, r, st.facts)
                c = TRUE if m is True else FALSE if m is False else m
            return c if isinstance(op, ast.Is) else not_(c)
        a, b = self.content(st, l), self.content(st, r)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(st, a, b)
            return c if isinstance(op, ast.In) else not_(c)
        if is_arrayish(a) and _pylist(b):
            b = np_array(self.freeze(st, b))
        if is_arrayish(b) and _pylist(a):
            a = np_array(self.freeze(st, a))
        if a.op in ("list", "tuple", "dict"):
            a = self.freeze(st, a)
        if b.op in ("list", "tuple", "dict"):
            b = self.freeze(st, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if a is b and opt_strip(ty(a)) in ("float", "num", "arr") and l is not NONE:
                if is_arr(a):
                    c = ew(lambda x: not_(_isnan(x)), a)
                else:
                    c = not_(_isnan(a))
            else:
                c = T.eq(a, b)
            return c if isinstance(op, ast.Eq) else not_(c)
        f = {ast.Lt: T.lt, ast.LtE: T.le, ast.Gt: T.gt, ast.GtE: T.ge}[type(op)]
        return f(a, b)

    def contains(self, st, a, b):
        a = self.freeze(st, a)
        if b.op == "set":
            b = b.args[0]
        if b.op in ("list", "tuple"):
            return or_(*[T.eq(a, self.freeze(st, x)) for x in b.args])
        if b.op == "dict":
            return or_(*[T.eq(a, k) for k, _ in b.args])
        if b.op == "call" and b.args[0] in ("dict.keys",):
            return self.contains(st, a, b.args[1][0])
        if b.op == "str":
            if is_str_const(a) and is_str_const(b):
                return TRUE if str_value(a) in str_value(b) else FALSE
            if is_str_const(a) and len(b.args[0]) == 1 and b.args[0][0].op == "typeof":
                # '<class name>' in str(type(x))
                c = self.prog.class_named(str_value(a))
                if c is not None:
                    return self.isinstance_(b.args[0][0].args[0], mk("class", c.qual))
            return mk("in", a, b)
        if b.op == "collect":
            n, cond, body, k = b.args
            if body.op == "splice":
                return mk("in", a, b)
            return mkred("any", n, and_(cond, T.eq(a, body)), k)
        if b.op == "concat":
            return or_(*[self.contains(st, a, p) for p in b.args])
        if b.op == "rep":
            return and_(lt(ZERO, b.args[1]), T.eq(a, b.args[0]))
        if b.op == "ite":
            return ite(b.args[0], self.contains(st, a, b.args[1]), self.contains(st, a, b.args[2]))
        b = self.freeze(st, b)
        return mk("in", a, b)

    # -- subscripts ----------------------------------------------------------------
    def index_of(self, n, st):
        """list of index components of a subscript node"""
        if isinstance(n, ast.Tuple):
            return [self.index_of(e, st)[0] for e in n.elts], True
        if isinstance(n, ast.Slice):
            f = lambda x: None if x is None else self._none_open(self.val(x, st))
            return Sl(f(n.lower), f(n.upper), f(n.step)), False
        v = self.eval(n, st)
        if v is NONE:
            return NEWAXIS, False
        if v.op == "ellipsis":
            return ELL, False
        if v is mk("extf", "numpy.newaxis"):
            return NEWAXIS, False
        if v.op == "slc":
            f = lambda x: None if x is NONE else x
            return Sl(f(v.args[0]), f(v.args[1]), f(v.args[2])), False
        c = self.content(st, v)
        if c.op == "tuple":
            return [self._comp(self.content(st, x)) for x in c.args], True
        if c.op == "call" and c.args[0] == "numpy.ix_":
            return [mk("ix_", x, num(i)) for i, x in enumerate(c.args[1])], True
        if _pylist(c):
            c = np_array(self.freeze(st, c))
        return c, False

    @staticmethod
    def _none_open(t):
        return None if t is NONE else t

    @staticmethod
    def _comp(c):
        if c is NONE or c is mk("extf", "numpy.newaxis"):
            return NEWAXIS
        if c.op == "ellipsis":
            return ELL
        if c.op == "slc":
            f = lambda x: None if x is NONE else x
            return Sl(f(c.args[0]), f(c.args[1]), f(c.args[2]))
        return c

    def indices(self, n, st):
        r, many = self.index_of(n, st)
        return grid_index(r) if many else [r]

    def e_Subscript(self, n, st):
        base = self.eval(n.value, st)
        if base.op == "extf" and base.args[0] in ("numpy.mgrid", "numpy.c_", "numpy.r_"):
            return self.numpy_index_object(st, base.args[0], self.indices(n.slice, st))
        if base.op in ("extf", "class") :
            # typing expressions
            return mk("opaque", "typing")
        idx = self.indices(n.slice, st)
        return self.get_item(st, base, idx)

    def numpy_index_object(self, st, name, idx):
        if name == "numpy.mgrid" and all(isinstance(x, Sl) for x in idx):
            none = lambda x: NONE if x is None else self.freeze(st, x)
            t = mk("call", name, tuple(mk("slc", none(x.lo), none(x.hi), none(x.step)) for x in idx), ())
            T.Ctx.types[t] = "arr"
            n = len(idx)
            ds = tuple(dim(t, k + (n > 1)) for k in range(n))
            T.Ctx.shapes[t] = ((num(n),) + ds) if n > 1 else ds
            return self.wrap(st, t)
        xs = [self.freeze(st, x) if isinstance(x, Term) else x for x in idx]
        if name in ("numpy.c_", "numpy.r_") and all(isinstance(x, Term) and is_arrayish(x) for x in xs):
            xs = [np_array(x) if not is_arr(x) else x for x in xs]
            if all(is_arr(x) and rank(x) == 1 for x in xs):
                if name == "numpy.c_":
                    xs = [index(x, [Sl(), NEWAXIS]) for x in xs]
                r = concatenate(xs, 1 if name == "numpy.c_" else 0)
                if r is not None:
                    return self.wrap(st, r)
        return mk("opaque", name)

    def get_item(self, st, base, idx):
        if base.op == "ite":
            return ite(base.args[0], self.get_item(st, base.args[1], idx), self.get_item(st, base.args[2], idx))
        c = self.content(st, base)
        if c.op == "ite" and base.op != "view":
            xs = [c.args[1], c.args[2]]
            if any(x.op in ("list", "tuple", "concat", "collect", "dict") for x in xs):
                return ite(c.args[0], self.get_item(st, c.args[1], idx), self.get_item(st, c.args[2], idx))
        one = idx[0] if len(idx) == 1 else None
        if c.op == "ext" and c.args[0] == "collections.defaultdict" and len(c.args[1]) == 1 and c.args[1][0].op == "clo":
            # a mapping without entries so far
            return self.call(st, c.args[1][0], [], {}, None)
        if c.op == "attr" and c.args[1] == "shape" and isinstance(one, Term):
            return dim(c.args[0], int(one.args[0])) if one.op == "num" else mk("at", c, one)
        if c.op == "attr" and c.args[1] == "shape" and isinstance(one, Sl):
            if one.lo is None and one.step is None and one.hi is not None and one.hi.op == "num" and one.hi.args[0] > 0:
                return mk("tuple", *[dim(c.args[0], i) for i in range(int(one.hi.args[0]))])
        if c.op in ("list", "tuple") and isinstance(one, Term):
            if one.op == "num" and one.args[0].denominator == 1:
                k = int(one.args[0])
                if -len(c.args) <= k < len(c.args):
                    return c.args[k]
                return mk("undef", "index")
            if c.args and ty(one) == "int":
                if len(c.args) <= 8:
                    r = c.args[-1]
                    for i in range(len(c.args) - 2, -1, -1):
                        r = ite(T.eq(one, num(i)), c.args[i], r)
                    return r
        if c.op in ("list", "tuple") and isinstance(one, Sl):
            b = []
            for x in (one.lo, one.hi, one.step):
                if x is None:
                    b.append(None)
                elif x.op == "num":
                    b.append(int(x.args[0]))
                else:
                    b = None
                    break
            if b is not None:
                r = mk(c.op, *c.args[slice(*b)])
                return self.new_ref(st, r, "list") if c.op == "list" else r
        if c.op == "dict" and isinstance(one, Term):
            k = self.freeze(st, one)
            r = None
            for kk, vv in reversed(c.args):
                e = T.eq(k, kk)
                if e is TRUE:
                    return vv
                if e is FALSE:
                    continue
                r = vv if r is None else ite(e, vv, r)
            if r is not None:
                if self.raise_sinks:
                    self.key_error(st, and_(*[not_(T.eq(k, kk)) for kk, _ in c.args]))
                return r
        if c.op == "str" and is_str_const(c):
            s = str_value(c)
            try:
                if isinstance(one, Sl):
                    b = [None if x is None else int(x.args[0]) for x in (one.lo, one.hi, one.step)]
                    return const(s[slice(*b)])
                if one.op == "num":
                    return const(s[int(one.args[0])])
            except Exception:
                pass
        idx = [i if isinstance(i, Sl) or i in (NEWAXIS, ELL) else i for i in idx]
        k = opt_strip(ty(c))
        if k == "str" and isinstance(one, Sl):
            r = self.slice_term(c, one, st)
            T.Ctx.types[r] = "str"
            return r
        sh = shape(c)
        if is_mapping(c) and isinstance(one, Term) and isinstance(k[1], tuple) and k[1][0] == "list" and self.is_location(base):
            return mk("view", base, ("idx", (self.freeze(st, one),)))
        if isinstance(k, tuple) and k[0] == "list" and sh is None:
            if isinstance(one, Sl):
                r = self.slice_term(c, one, st)
                if ty(r) is None:
                    T.Ctx.types[r] = k
                return self.new_ref(st, r, "list")
            if isinstance(one, Term):
                e = at(c, one)
                if k[1] is not None and ty(e) is None:
                    T.Ctx.types[e] = k[1]
                return e
        if any(isinstance(i, Term) and i.op == "ix_" for i in idx):
            return self.wrap(st, mk("sel", c, tuple(idx)))
        basic = all(not isinstance(i, Term) or not (is_arr(i) or ty(i) == "arr" or ty(i) == "bool") for i in idx)
        r = index(c, idx)
        if basic and any(isinstance(i, Sl) for i in idx) or (basic and sh is not None and is_arr(r)):
            if self.is_location(base):
                return mk("view", base, ("idx", tuple(self._idxkey(i) for i in idx)))
        if ty(r) is None and k == "arr" and any(isinstance(i, Sl) or isinstance(i, Term) and (is_arr(i) or ty(i) in ("arr", "bool")) for i in idx):
            T.Ctx.types[r] = "arr"
        if not basic:
            return self.wrap(st, r)
        return r

    def is_location(self, t):
        return t.op in ("ref", "view", "sym", "attr", "at", "global", "phi", "call", "mret", "ret", "aftr")

    def slice_term(self, c, s, st=None):
        lo, hi, step = s.lo, s.hi, s.step
        if lo is ZERO:
            lo = None
        if c.op == "call" and c.args[0] in ("str.lower", "str.upper") and len(c.args[1]) == 1 and not c.args[2]:
            # letter by letter
            t = mk("call", c.args[0], (self.slice_term(c.args[1][0], s, st),), ())
            T.Ctx.types[t] = "str"
            return t
        if c.op == "slice_of" and len(c.args[1]) == 1 and step is None:
            pass
        if lo is None and hi is None and step is None:
            return c
        ix = (mk("slc", lo or NONE, hi or NONE, step or NONE),)
        return mk("slice_of", c, ix) if st is None else T.cut_list(c, ix, st.facts)

    def e_Slice(self, n, st):
        f = lambda x: NONE if x is None else self.val(x, st)
        return mk("slc", f(n.lower), f(n.upper), f(n.step))

    def set_item(self, st, base, idx, v):
        if base.op == "ite":
            for x, g in ((base.args[1], base.args[0]), (base.args[2], not_(base.args[0]))):
                s = st.branch(g)
                if s is None:
                    continue
                self.set_item(s, x, idx, v)
                o = st.branch(not_(g))
                if o is None:
                    self.replace(st, s)
                else:
                    self.merge_into(st, g, s, o)
            return
        c = self.content(st, base)
        vv = self.content(st, v)
        one = idx[0] if len(idx) == 1 else None
        if any(isinstance(i, Term) and i.op == "ix_" for i in idx):
            ms = [i.args[0] for i in idx]
            new = mk("scatter", c, tuple(ms), self.freeze(st, vv))
            sh = shape(c)
            if sh is not None:
                T.Ctx.shapes[new] = sh
            T.Ctx.types[new] = "arr"
        elif c.op == "dict" and isinstance(one, Term):
            k = self.freeze(st, one)
            out = []
            done = False
            sym = False
            for kk, w in c.args:
                e = T.eq(k, kk)
                if e is TRUE:
                    out.append((kk, v))
                    done = True
                elif e is FALSE:
                    out.append((kk, w))
                else:
                    out.append((kk, ite(e, v, w)))
                    sym = True
            if not done:
                out.append((k, v))
            new = mk("dict", *out)
        elif c.op in ("list",) and isinstance(one, Term) and one.op == "num":
            k = int(one.args[0])
            xs = list(c.args)
            if -len(xs) <= k < len(xs):
                xs[k] = v
            new = mk("list", *xs)
        elif not is_arrayish(c) and isinstance(one, Term) and (_pylist(c) or c.op == "stored" or is_mapping(c)):
            new = (put if is_mapping(c) else lambda A, k, v: mk("stored", A, (k,), v))(c, self.freeze(st, one), self.freeze(st, vv))
            if ty(c) is not None:
                T.Ctx.types[new] = ty(c)
        else:
            if getattr(self, "slice_ranges", False):
                self.record_slices(st, c, idx, v, vv)
            new = store(c, idx, self.freeze(st, vv))
            if new.op == "stored":
                if ty(c) is not None:
                    T.Ctx.types[new] = ty(c)
                if shape(c) is not None:
                    T.Ctx.shapes[new] = shape(c)
        self.mutate(st, base, new, "setitem")

    def record_slices(self, st, c, idx, v, vv):
        """sizes of the source and target of an assignment to a slice"""
        full = expand_idx(c, idx)
        if full is None or not any(isinstance(i, Sl) and (i.lo is not None or i.hi is not None) for i in full):
            return
        sh = shape(c)
        tgt = [(i, sh[k]) for k, i in enumerate(full) if isinstance(i, Sl)]
        src = None
        if v.op == "view" and v.args[1][0] == "idx":
            b = self.content(st, v.args[0])
            fs = expand_idx(b, [self._unidx(i) for i in v.args[1][1]])
            if fs is not None:
                src = [(i, shape(b)[k]) for k, i in enumerate(fs) if isinstance(i, Sl)]
        elif shape(vv) is not None:
            src = [(None, x) for x in shape(vv)]
        fn = self.frames[-1]
        self.slice_records = getattr(self, "slice_records", [])
        self.slice_records.append((st.facts, tgt, src, "%s:%d" % (fn.module.rel, getattr(self.cur, "lineno", 0))))

    # -- attributes --------------------------------------------------------------
    def e_Attribute(self, n, st):
        v = self.eval(n.value, st)
        return self.get_attr(st, v, n.attr)

    prop_opaque = frozenset()

    def class_of(self, v, st=None):
        k = opt_strip(ty(v))
        if isinstance(k, tuple) and k[0] == "cls":
            return self.prog.classes.get(k[1])
        return None

    def get_attr(self, st, v, name):
        if v.op == "ite":
            return ite(v.args[0], self.get_attr(st, v.args[1], name), self.get_attr(st, v.args[2], name))
        op = v.op
        if op == "module":
            m = self.prog.modules[v.args[0]]
            for e in reversed(st.heap.get(("f", name), ())):
                if e[0] == "w" and e[1] is v:
                    return e[2]
            r = self.prog.member(v.args[0], name)
            if r is None:
                return mk("undef", v, name)
            return self.binding_value(st, r)
        if op == "extf":
            return ext_name(v.args[0] + "." + name)
        if op == "class":
            c = self.prog.classes.get(v.args[0])
            log = st.heap.get(("f", name), ())
            for e in reversed(log):
                if e[0] == "w" and e[1] is v:
                    return e[2]
            f = self.prog.find_method(c, name)
            if f is not None:
                if f.kind == "classmethod":
                    return mk("bound", v, f.qual)
                return mk("func", f.qual)
            fa = self.prog.find_attr(c, name)
            if fa is not None:
                return self.class_attr(fa[0], name, fa[1], st)
            if name == "__name__":
                return mk("str", (c.name,))
            return mk("attr", v, name)
        if op == "super":
            c = self.prog.classes.get(v.args[1])
            for b in self.prog.mro(c)[1:]:
                if name in b.methods:
                    f = b.methods[name]
                    if f.kind == "property":
                        return self.call_function(st, f, [v.args[0]], {})
                    return mk("bound", v.args[0], f.qual)
            return mk("bmeth", v.args[0], "super." + name)
        c = self.class_of(v)
        if c is None and ty(v) is None and v.op in ("attr", "at", "sym", "ret", "mret", "call", "phi") and name not in NUMPY_ATTRS:
            c = self.unique_owner(name)
        if c is not None:
            f = self.prog.find_method(c, name)
            if f is not None and self.overridden(c, name):
                f = None
                if self.kind_of(c, name) == "property":
                    return mk("attr", v, name)
                return mk("bmeth", v, name)
            if f is not None:
                if f.kind == "property":
                    if name in self.prop_opaque:
                        r = self.read_field(st, v, name)
                        return r
                    return self.call_function(st, f, [v], {})
                if f.kind == "staticmethod":
                    return mk("func", f.qual)
                if f.kind == "classmethod":
                    return mk("bound", mk("class", c.qual), f.qual)
                # an instance attribute may shadow the method: look at the log
                return mk("bound", v, f.qual)
            r = self.read_field(st, v, name)
            if r.op == "attr" and r.args[0] is v and len(r.args) == 2:
                fa = self.prog.find_attr(c, name)
                if fa is not None and not self.assigned_on_self(c, name):
                    return self.class_attr(fa[0], name, fa[1], st)
            return r
        if op in ("bound", "func", "clo", "bmeth"):
            return mk("attr", v, name)
        ct = self.content(st, v)
        if name == "shape":
            sh = shape(ct)
            if sh is not None:
                return mk("tuple", *sh)
            return mk("attr", ct if op in ("ref", "view") else v, "shape")
        if name == "T":
            if shape(ct) is not None and len(shape(ct)) < 2:
                return v
            if self.is_location(v):
                if v.op == "view" and v.args[1] == ("T",):
                    return v.args[0]
                return mk("view", v, ("T",))
            return self.wrap(st, transpose(ct))
        if name == "size":
            sh = shape(ct)
            if sh is not None:
                return prod_sizes(sh)
            return mk("size", ct)
        if name == "ndim":
            sh = shape(ct)
            if sh is not None:
                return num(len(sh))
            return mk("rank", ct)
        if op in ("ref", "view"):
            if name in ("dtype", "real", "imag", "flat", "strides", "flags"):
                return mk("attr", ct, name)
            return mk("bmeth", v, name)
        return self.read_field(st, v, name)

    def assigned_on_self(self, c, name):
        import ast as A

        for k in self.prog.mro(c):
            for f in k.methods.values():
                for x in A.walk(f.node):
                    if isinstance(x, A.Attribute) and isinstance(x.ctx, A.Store) and x.attr == name:
                        return True
        return False

    def unique_owner(self, name):
        """the only class of the program that defines this method / property"""
        fs = self.prog.by_method.get(name, [])
        fs = [f for f in fs if not f.module.name.startswith("spec")]
        if len(fs) == 1 and not name.startswith("__"):
            return fs[0].cls
        return None

    def kind_of(self, c, name):
        return self.prog.find_method(c, name).kind

    def overridden(self, c, name):
        """the method is abstract or redefined in a subclass, and c is not known to be
        the exact class"""
        f = self.prog.find_method(c, name)
        return f.abstract

    # -- functions -----------------------------------------------------------------
    def e_Lambda(self, n, st):
        return self.make_closure(n, st)

    def make_closure(self, node, st, name="<lambda>"):
        from .interp import Closure, FuncInfo

        fr = st.frame
        fi = FuncInfo(fr.module, node, (fr.fi.qual if fr.fi else "?") + "." + name, fr.cls)
        fi.kind = "function"
        fi.cls = fr.cls
        c = Closure(node, dict(st.env), fr, fi)
        c.live = None
        c.defaults = {}
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        for p, d in list(zip(params[len(params) - len(a.defaults) :], a.defaults)) + [
            (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None
        ]:
            c.defaults[p] = self.eval(d, st)
        CLO[0] += 1
        t = mk("clo", CLO[0])
        self.closures[t] = c
        return t

    def e_Yield(self, n, st):
        from .interp import Ev

        v = self.eval(n.value, st) if n.value is not None else NONE
        self.emit(st, Ev("yield", "yield", None, (self.freeze(st, v),)))
        return mk("opaque", "sent")

    def e_YieldFrom(self, n, st):
        from .interp import Ev

        v = self.eval(n.value, st)
        self.emit(st, Ev("yield", "yield from", None, (self.freeze(st, v),)))
        return mk("opaque", "sent")

    def e_Await(self, n, st):
        return self.eval(n.value, st)

    # -- comprehensions ------------------------------------------------------------
    def e_ListComp(self, n, st):
        return self.new_ref(st, self.comp(n, st), "list")

    def e_GeneratorExp(self, n, st):
        return self.new_ref(st, self.comp(n, st), "gen")

    def e_SetComp(self, n, st):
        return self.new_ref(st, mk("set", self.comp(n, st)), "set")

    def e_DictComp(self, n, st):
        t = self.comp(n, st, pair=True)
        if t.op == "list" and all(x.op == "tuple" for x in t.args):
            return self.new_ref(st, mk("dict", *[(x.args[0], x.args[1]) for x in t.args]), "dict")
        return self.new_ref(st, mk("dictof", t), "dict")

    def comp(self, n, st, pair=False):
        env = dict(st.env)
        outer = self.comp_depth
        self.comp_depth = outer + 1
        if outer == 0:
            before, snap, ntr = st.copy(), self.snapshot(), len(self.trace)
            sinks = [list(x) for x in self.raise_sinks]
        try:
            r = self._comp_gen(n, 0, st, pair)
        except CompEffects:
            if outer:
                raise
            self.replace(st, before)
            self.restore(snap)
            del self.trace[ntr:]
            for x, y in zip(self.raise_sinks, sinks):
                x[:] = y
            self.comp_depth = 0
            r = self.comp_as_loop(n, st, pair)
        finally:
            self.comp_depth = outer
        # names bound by the comprehension do not leak
        for k in list(st.env):
            if k not in env:
                del st.env[k]
            elif st.env[k] is not env[k] and k in _comp_targets(n):
                st.env[k] = env[k]
        return r

    def comp_as_loop(self, n, st, pair):
        """a comprehension whose element expression has effects, as the loop it abbreviates"""
        acc = "$acc"
        name = lambda c: ast.Name(id=acc, ctx=c)
        if pair:
            body = ast.Assign(targets=[ast.Subscript(value=name(ast.Load()), slice=n.key, ctx=ast.Store())], value=n.value)
        else:
            body = ast.Expr(value=ast.Call(func=ast.Attribute(value=name(ast.Load()), attr="append", ctx=ast.Load()), args=[n.elt], keywords=[]))
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = ast.If(test=c, body=[body], orelse=[])
            body = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[])
        ast.copy_location(body, n)
        for x in ast.walk(body):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, n)
        ast.fix_missing_locations(body)
        st.env[acc] = self.new_ref(st, mk("dict") if pair else mk("list"), "dict" if pair else "list")
        keep, self.cur = self.cur, self.cur
        outs = self.block([body], [st.copy()])
        self.cur = keep
        for o in outs:
            if o.kind == "raise" and self.raise_sinks:
                self.raise_sinks[-1].append(o)
        end = self.join([o.st for o in outs if o.kind == "normal"])
        if end is None:
            st.dead = True
            return mk("undef", "comprehension")
        self.replace(st, end)
        return self.freeze(st, st.env.pop(acc))

    def _comp_gen(self, n, gi, st, pair):
        if gi == len(n.generators):
            if pair:
                return mk("list", mk("tuple", self.freeze(st, self.eval(n.key, st)), self.eval(n.value, st)))
            return mk("list", self.eval(n.elt, st))
        g = n.generators[gi]
        it = self.eval(g.iter, st)
        items = self.small_items(st, it)
        if items is not None:
            parts = []
            for x in items:
                self.assign(g.target, x, st)
                parts.append(self._comp_conds(n, gi, g.ifs, st, pair))
            return concat(*parts)
        d = self.iter_desc(st, it)
        lv = self.push_loop(d, st)
        try:
            s = st.copy()
            self.enter_iteration(s, d, lv)
            s0 = s.copy()
            self.assign(g.target, d.elem(lv), s)
            body = self._comp_conds(n, gi, g.ifs, s, pair)
            body = self.freeze(s, body)
        finally:
            self.pop_loop(d, st)
        # effects of the element expression
        if any(s.heap.get(k) != st.heap.get(k) for k in s.heap if k[0] in ("f",) or k[0] == "c" and k[1].op != "ref"):
            raise CompEffects()
        if body.op == "list" and not body.args:
            return mk("list")
        cond, body = split_cond(body)
        c = and_(d.cond(lv), cond)
        return close_collect(d.n, c, body if body.op != "list" or len(body.args) != 1 else body.args[0], lv) if body.op == "list" and len(body.args) == 1 else close_collect(d.n, c, mk("splice", body), lv)

    def _comp_conds(self, n, gi, ifs, st, pair):
        if not ifs:
            return self._comp_gen(n, gi + 1, st, pair)
        c = self.known(st, self.truth(st, self.eval(ifs[0], st)))
        if c is FALSE:
            return mk("list")
        s = st.branch(c)
        if s is None:
            return mk("list")
        r = self._comp_conds(n, gi, ifs[1:], s, pair)
        if c is TRUE:
            self.replace(st, s)
            return r
        r = self.freeze(s, r)
        return ite(c, r, mk("list"))


class CompEffects(Exception):
    pass


def split_cond(body):
    """ite(c, X, []) -> (c, X)"""
    if body.op == "ite":
        c, a, b = body.args
        if b.op == "list" and not b.args:
            c2, x = split_cond(a)
            return and_(c, c2), x
        if a.op == "list" and not a.args:
            c2, x = split_cond(b)
            return and_(not_(c), c2), x
    return TRUE, body


def _comp_targets(n):
    out = set()
    for g in n.generators:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                out.add(x.id)
    return out


def grid_index(idx):
    """the rows where one mask holds crossed with the columns where another does: np.ix_ of the masks"""
    if len(idx) != 2 or not all(isinstance(i, Term) for i in idx):
        return idx
    a, b = idx
    if a.op == b.op == "ix_":
        ms = [mask_of_positions(x.args[0]) for x in idx]
    elif is_arr(a) and is_arr(b) and rank(a) == 2 and shape(a)[1] is ONE and rank(b) == 1 and not arr_is_bool(a):
        ms = [mask_of_positions(mkarr(shape(a)[:1], elem(a, [IX(0), ZERO]))), mask_of_positions(b)]
    else:
        return idx
    if not all(ms):
        return idx
    return [mk("ix_", m, num(k)) for k, m in enumerate(ms)]


def _pylist(t):
    return t.op in ("list", "concat", "collect", "rep", "lrep") or (
        isinstance(opt_strip(ty(t)), tuple) and opt_strip(ty(t))[0] == "list"
    )


def _container(t):
    return _pylist(t) or any(x.op in ("list", "tuple", "concat", "collect", "dict") for x in t.args if isinstance(x, Term))


def _boolish(t):
    if is_arr(t):
        return arr_is_bool(t)
    return ty(t) == "bool"


BITS = {ast.BitAnd: and_, ast.BitOr: or_, ast.BitXor: lambda x, y: not_(T.iff(x, y))}


CLO = [0]


def ext_name(n):
    """the value of an attribute of an imported library"""
    mod, _, x = n.rpartition(".")
    if mod in ("numpy", "math") and x in ("inf", "Inf", "infty", "PINF"):
        return INF
    if mod in ("numpy", "math") and x in ("nan", "NaN", "NAN"):
        return mk("nan")
    if n in ("math.pi", "numpy.pi"):
        c = mk("const", "pi")
        T.Ctx.types[c] = "float"
        return c
    return mk("extf", n)


def _isnan(t):
    if t.op == "num" or ty(t) in ("int", "bool", "str"):
        return FALSE
    return mk("isnan", t)

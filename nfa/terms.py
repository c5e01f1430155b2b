"""Value numbers: hash-consed terms, polynomial / boolean normal forms and the
three-valued equality decision used by the rules.

Nothing here (or anywhere else in this package) runs code of the analysed
program: terms are built from its syntax trees by `interp`.
"""
from fractions import Fraction
import time
import math
import sys

sys.setrecursionlimit(20000)


class Term:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_table = {}
_by_id = []


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_by_id)
        _by_id.append(t)
        _table[key] = t
    return t


TRUE = mk("true")
FALSE = mk("false")
NONE = mk("none")
INF = mk("inf")


def num(v):
    return mk("num", Fraction(v))


ZERO, ONE = num(0), num(1)


def const(v):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if v is None:
        return NONE
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, float):
        if v != v:
            return mk("nan")
        if v == float("inf"):
            return INF
        if v == float("-inf"):
            return neg(INF)
        return num(Fraction(str(v)))
    if isinstance(v, str):
        return mk("str", (v,)) if v else mk("str", ())
    return mk("const", type(v).__name__, v)


def is_str_const(t):
    return t.op == "str" and all(isinstance(p, str) for p in t.args[0])


def str_value(t):
    return "".join(t.args[0])


def cstr(*parts):
    """Concatenation of strings: literal pieces and str(x) pieces."""
    out = []
    for p in parts:
        sub = p.args[0] if isinstance(p, Term) and p.op == "str" else (p,)
        for q in sub:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != "":
                out.append(q)
    if len(out) == 1 and isinstance(out[0], Term) and ty(out[0]) == "str":
        return out[0]
    return mk("str", tuple(out))


# --------------------------------------------------------------------------
# types / shapes of terms (contracts of the public attributes, see facts.py)
# --------------------------------------------------------------------------
class Ctx:
    types = {}
    shapes = {}
    attr_type = None  # callback (base type, name) -> type
    size_attrs = ()  # attributes that hold the size of arrays
    bool_arrays = ()  # attributes that hold arrays of truth values
    attr_shape = None  # callback (term, base type, name) -> sizes
    vocab = None  # set of known attribute names
    disjoint = None  # callback: are two classes disjoint?
    elem_types = {}
    escape = False  # errors of library and user functions that no handler takes are observed
    strict_shapes = False  # sizes that differ by broadcasting only are a difference


def reset_ctx():
    Ctx.types = {}
    Ctx.shapes = {}
    _simp_memo.clear()
    _ty_memo.clear()


_ty_memo = {}
_INTOPS = {"dim", "lv", "bv", "ix", "size", "argmin", "argmax", "trunc"}
_BOOLOPS = {
    "true",
    "false",
    "lt0",
    "eq0",
    "eq",
    "isnone",
    "truthy",
    "in",
    "is",
    "isinst",
    "not",
    "and",
    "or",
    "exc",
    "isnan",
    "same",
    "ltinf",
    "slt",
    "tlt",
}


def ty(t):
    r = Ctx.types.get(t)
    if r is not None:
        return r
    if t in _ty_memo:
        return _ty_memo[t]
    r = _ty(t)
    _ty_memo[t] = r
    return r


def opt_strip(x):
    return x[1] if isinstance(x, tuple) and x[0] == "opt" else x


def _ty(t):
    op = t.op
    if op == "num":
        return "int" if t.args[0].denominator == 1 else "float"
    if op == "inf":
        return "float"
    if op in _BOOLOPS:
        return "bool"
    if op in _INTOPS:
        return "int"
    if op == "red":
        return "bool" if t.args[0] == "any" else ty(t.args[2])
    if op == "fold":
        return ty(t.args[1])
    if op == "state":
        return "arr"
    if op == "str":
        return "str"
    if op == "none":
        return "none"
    if op == "ite":
        a, b = ty(t.args[1]), ty(t.args[2])
        if a == b:
            return a
        if a == "none":
            return ("opt", opt_strip(b)) if b else None
        if b == "none":
            return ("opt", opt_strip(a)) if a else None
        if opt_strip(a) == opt_strip(b):
            return ("opt", opt_strip(a))
        if {a, b} <= {"int", "float", "num"}:
            return "float"
        return None
    if op == "poly":
        r = "int"
        for mono, c in t.args[0]:
            if c.denominator != 1:
                r = "float"
            for a, e in mono:
                k = ty(a)
                if e < 0 or k == "float" or k == "num":
                    r = "float" if r == "int" else r
                elif k == "arr":
                    r = "arr"
                elif k not in ("int", "bool") and r != "arr":
                    return None
        return r
    if op in ("fdiv", "mod"):
        a, b = ty(t.args[0]), ty(t.args[1])
        return "float" if b == "float" and a in ("int", "bool") else a
    if op in ("abs",):
        return ty(t.args[0])
    if op == "sqrt":
        return "float"
    if op == "arr":
        return "arr"
    if op in ("list", "concat", "rep", "collect"):
        if op == "list":
            k = None
            for a in t.args:
                k = ty(a)
                if k is None:
                    break
            return ("list", k)
        if op == "collect":
            return ("list", ty(t.args[2])) if not is_splice(t.args[2]) else ty(
                t.args[2].args[0]
            )
        if op == "concat":
            for a in t.args:
                k = ty(a)
                if isinstance(k, tuple) and k[0] == "list" and k[1] is not None:
                    return k
            return ("list", None)
        return ("list", ty(t.args[0]))
    if op == "tuple":
        return ("tuple",) + tuple(ty(a) for a in t.args)
    if op == "at":
        b = opt_strip(ty(t.args[0]))
        if isinstance(b, tuple) and b[0] == "list":
            return b[1]
        if isinstance(b, tuple) and b[0] == "dict":
            return b[1]
        if isinstance(b, tuple) and b[0] == "tuple":
            i = t.args[1]
            if isinstance(i, Term) and i.op == "num" and 0 <= i.args[0] < len(b) - 1:
                return b[1 + int(i.args[0])]
        if b == "arr":
            sh = shape(t.args[0])
            if sh is not None and len(sh) > len(t.args) - 1:
                return "arr"
            if sh is not None:
                a = t.args[0]
                return Ctx.types.get(mk("elemtype", a), "bool" if a.op == "attr" and a.args[1] in Ctx.bool_arrays else "float")
        if b == "str":
            return "str"
        return None
    if op == "attr":
        b = opt_strip(ty(t.args[0]))
        if Ctx.attr_type is not None:
            return Ctx.attr_type(b, t.args[1])
        return None
    if op in ("obj",):
        return ("cls", t.args[1])
    if op == "slice_of" or op == "stored" and isinstance(ty(t.args[0]), tuple):
        return ty(t.args[0])
    if op in ("func", "clo", "bound", "extf"):
        return "callable"
    return None


def is_splice(t):
    return t.op == "splice"


def scalar_type(k):
    return k in ("int", "float", "num", "bool", "str", "none")


def shape(t):
    """Known shape of an array-valued term as a tuple of size terms, or None."""
    r = Ctx.shapes.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "arr":
        return t.args[0]
    if op == "ite":
        a, b = shape(t.args[1]), shape(t.args[2])
        if a is not None and b is not None and len(a) == len(b):
            return a if a == b else tuple(x if x is y else ite(t.args[0], x, y) for x, y in zip(a, b))
        return None
    if op == "attr" and Ctx.attr_shape is not None:
        return Ctx.attr_shape(t)
    if op == "scatter":
        return shape(t.args[0])
    if op == "fold":
        return shape(t.args[1])
    if op == "state":
        return t.args[1] or None
    return None


# --------------------------------------------------------------------------
# polynomials
# --------------------------------------------------------------------------
def P(t):
    if t.op == "num":
        v = t.args[0]
        return {(): v} if v else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def unP(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return mk("poly", tuple(items))


def _padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    out = []
    for a, e in d.items():
        if not e:
            continue
        if a.op == "sqrt" and abs(e) >= 2:
            q, r = divmod(e, 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            extra = (extra or []) + [(a.args[0], q)]
            if r:
                out.append((a, r))
            continue
        if a.op == "abs" and e % 2 == 0:
            extra = (extra or []) + [(a.args[0], e)]
            continue
        out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out), extra


def _pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, extra = _mmul(m1, m2)
            if extra is None:
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
            else:
                t = {m: c1 * c2}
                for base, e in extra:
                    t = _pmul(t, P(ipow(base, e)))
                r = _padd(r, t)
    return r


def lift2(f):
    def g(a, b):
        if a.op == "arr" or b.op == "arr" or shape(a) or shape(b):
            from .arrays import ew

            return ew(f, a, b)
        return f(a, b)

    g.__name__ = f.__name__
    return g


def lift1(f):
    def g(a):
        if a.op == "arr" or shape(a):
            from .arrays import ew

            return ew(f, a)
        return f(a)

    g.__name__ = f.__name__
    return g


def _numlike(t):
    # booleans used as numbers become 0/1 choices
    if ty(t) == "bool" and t.op not in ("true", "false"):
        if t.op == "ite" and t.args[1].op == "num":
            return t
        return mk("ite", t, ONE, ZERO) if t.op != "ite" else ite(t, ONE, ZERO)
    return t


@lift2
def add(a, b):
    if a.op == "str" or b.op == "str" or (ty(a) == "str" and ty(b) == "str"):
        return cstr(a, b)
    if _listy(a) and _listy(b):
        return concat(a, b)
    if a.op == "tuple" and b.op == "tuple":
        return mk("tuple", *(a.args + b.args))
    return unP(_padd(P(_numlike(a)), P(_numlike(b))))


@lift2
def sub(a, b):
    return unP(_padd(P(_numlike(a)), P(_numlike(b)), -1))


def _listy(t):
    if t.op in ("list", "concat", "rep", "collect"):
        return True
    k = opt_strip(ty(t))
    return isinstance(k, tuple) and k[0] == "list"


@lift2
def mul(a, b):
    if ty(a) == "bool" and ty(b) == "bool":
        return and_(a, b)
    if a.op in ("list", "tuple", "rep") or b.op in ("list", "tuple", "rep"):
        if b.op in ("list", "tuple", "rep"):
            a, b = b, a
        if b.op == "num" and a.op in ("list", "tuple"):
            return mk(a.op, *(a.args * int(b.args[0])))
        if a.op in ("list", "tuple") and len(a.args) == 1:
            return mk("rep", a.args[0], b)
        return mk("lrep", a, b)
    return unP(_pmul(P(_numlike(a)), P(_numlike(b))))


def neg(a):
    return mul(num(-1), a)


def ipow(t, e):
    if e == 0:
        return ONE
    if t.op == "num":
        if e < 0 and t.args[0] == 0:
            return mk("pow", t, num(e))
        return num(t.args[0] ** e)
    if e > 0:
        r = {(): Fraction(1)}
        p = P(t)
        for _ in range(e):
            r = _pmul(r, p)
        return unP(r)
    p = P(t)
    if len(p) == 1:
        (m, c), = p.items()
        t2 = {tuple((a, x * e) for a, x in m): Fraction(1) / c ** (-e)}
        # renormalise (sqrt etc.)
        return unP(_pmul(t2, {(): Fraction(1)}))
    # factor sign/scale so that (2x+2)^-1 and (x+1)^-1 agree
    lead = t.args[0][0][1]
    base = unP({m: c / lead for m, c in p.items()})
    return unP({((base, e),): Fraction(1) / lead ** (-e)})


@lift2
def div(a, b):
    if b is INF:
        return ZERO if a.op == "num" else mk("div", a, b)
    if b.op == "num" and b.args[0] == 0:
        return mk("div", a, b)
    return unP(_pmul(P(_numlike(a)), P(ipow(_numlike(b), -1))))


@lift2
def power(a, b):
    if b.op == "num":
        e = b.args[0]
        if e.denominator == 1 and abs(e) <= 6:
            return ipow(a, int(e))
        if e == Fraction(1, 2):
            return sqrt(a)
    return mk("pow", a, b)


@lift1
def sqrt(a):
    if a.op == "num":
        import math

        n, d = a.args[0].numerator, a.args[0].denominator
        if n >= 0:
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return num(Fraction(rn, rd))
    p = P(a)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 2 and c == 1:
            return absv(m[0][0])
    return mk("sqrt", a)


@lift1
def absv(a):
    if a.op == "num":
        return num(abs(a.args[0]))
    if a.op in ("abs", "sqrt", "dim"):
        return a
    if a.op == "poly" and a.args[0][0][1] < 0:
        a = neg(a)
    return mk("abs", a)


def _split_div(p, d):
    """p = d*q + r, monomial-wise"""
    q, r = {}, {}
    if d.op == "num":
        k = d.args[0]
        for m, c in p.items():
            x = c / k
            if x.denominator == 1:
                q[m] = x
            else:
                r[m] = c
        return q, r
    pd = P(d)
    if len(pd) != 1:
        if p == pd:
            return {(): Fraction(1)}, {}
        # try exact multiples of the whole polynomial
        return {}, p
    (dm, dc), = pd.items()
    for m, c in p.items():
        mm = dict(m)
        ok = True
        for a, e in dm:
            if mm.get(a, 0) < e:
                ok = False
                break
            mm[a] -= e
        x = c / dc
        if ok and x.denominator == 1:
            q[tuple(sorted(((a, e) for a, e in mm.items() if e), key=lambda z: z[0].id))] = x
        else:
            r[m] = c
    return q, r


def _int_range_ok(r, d, facts):
    """0 <= r < d provable?"""
    if facts is None:
        facts = EMPTY
    rt = unP(r)
    if rt is ZERO:
        return True
    return (
        facts.decide(lt(rt, ZERO)) is False and facts.decide(lt(rt, d)) is True
    )


def quotient(x):
    """(p, d) where x is p / d for an integer p and a positive integer number d"""
    if x.op != "poly":
        return None
    d = 1
    for m, c in x.args[0]:
        if not all(ty(a) == "int" and e > 0 for a, e in m):
            return None
        d = d * c.denominator // math.gcd(d, c.denominator)
    return (mul(num(d), x), num(d)) if d > 1 else None


def fdiv(a, b, facts=None):
    if b is ONE:
        return a if ty(a) == "int" else mk("fdiv", a, b)
    if b is ZERO:
        return mk("fdiv", a, b)
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if ty(a) == "int" and ty(b) == "int":
        q, r = _split_div(P(a), b)
        if _int_range_ok(r, b, facts):
            return unP(q)
        if q:
            return add(unP(q), fdiv(unP(r), b, facts)) if _nonneg_atoms(r) else mk(
                "fdiv", a, b
            )
    return mk("fdiv", a, b)


def mod(a, b, facts=None):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if b is ONE and ty(a) == "int":
        return ZERO
    if b is ZERO:
        return mk("mod", a, b)
    if ty(a) == "int" and ty(b) == "int":
        q, r = _split_div(P(a), b)
        if _int_range_ok(r, b, facts):
            return unP(r)
        if q:
            return mod(unP(r), b, facts)
    return mk("mod", a, b)


def _nonneg_atoms(p):
    return True


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
def _norm_cmp(p):
    """scale so that the leading coefficient has magnitude one"""
    if p.op != "poly":
        return p
    lead = p.args[0][0]
    # prefer a non-constant leading monomial
    for m, c in p.args[0]:
        if m != ():
            lead = (m, c)
            break
    k = abs(lead[1])
    if k == 1:
        return p
    return unP({m: c / k for m, c in p.args[0]})


def _counts(t):
    """the condition, if t counts how often it holds"""
    if t.op == "red" and t.args[0] == "sum" and t.args[2].op == "ite" and t.args[2].args[1] is ONE and t.args[2].args[2] is ZERO:
        return mk("red", "any", t.args[1], t.args[2].args[0], t.args[3])
    if t.op == "dim" and t.args[1] == 0 and t.args[0].op == "collect" and t.args[0].args[1] is not TRUE and t.args[0].args[2].op != "splice":
        from .arrays import mkred

        n, c, _, k = t.args[0].args
        return mkred("any", n, c, k)
    return None


def _some(p):
    """count < 1 and 0 < count say whether there is one at all"""
    if p.op != "poly" or len(p.args[0]) > 2:
        return None
    d = dict(p.args[0])
    k = d.pop((), Fraction(0))
    if len(d) != 1:
        return None
    (m, c), = d.items()
    if len(m) != 1 or m[0][1] != 1:
        return None
    r = _counts(m[0][0])
    if r is not None and c > 0 and k < 0 and k + c >= 0:
        return not_(r)
    if r is not None and c < 0 and k == 0:
        return r
    return None


def _lt0(p):
    if p.op == "num":
        return TRUE if p.args[0] < 0 else FALSE
    if p.op == "inf":
        return FALSE
    if p.op == "poly":
        d = dict(p.args[0])
        k = d.get(((INF, 1),))
        if k is not None:
            # finite - inf < 0 for finite quantities; inf itself excluded below
            rest = {m: c for m, c in d.items() if m != ((INF, 1),)}
            if all(m == () for m in rest):
                return TRUE if k < 0 else FALSE
            if len(rest) == 1 and k < 0:
                (m, c), = rest.items()
                if len(m) == 1 and m[0][1] == 1 and c == 1:
                    return mk("ltinf", m[0][0])  # x < inf
            if k > 0:
                return FALSE
    if p.op == "dim":
        return FALSE
    r = _some(p)
    if r is not None:
        return r
    if p.op == "ite":
        return ite(p.args[0], _lt0(p.args[1]), _lt0(p.args[2]))
    return mk("lt0", _norm_cmp(p))


@lift2
def lt(a, b):
    if (a.op == "str" or b.op == "str"):
        return mk("slt", a, b)
    if a.op == "tuple" or b.op == "tuple":
        return mk("tlt", a, b)
    return _lt0(sub(a, b))


@lift2
def le(a, b):
    if (a.op == "str" or b.op == "str"):
        return not_(mk("slt", b, a))
    return not_(_lt0(sub(b, a)))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


_CONSTRUCTORS = {"num", "str", "none", "true", "false", "list", "tuple", "const", "inf", "class", "func", "obj"}


def _numeric(t):
    return t.op in ("num", "poly", "fdiv", "mod", "abs", "sqrt", "dim", "lv", "bv", "ix") or ty(
        t
    ) in ("int", "float", "num")


@lift2
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "ite" and (b.op in _CONSTRUCTORS):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and (a.op in _CONSTRUCTORS):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a is NONE or b is NONE:
        return isnone(b if a is NONE else a)
    if ty(a) == "bool" and ty(b) == "bool":
        return iff(a, b)
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        x, c = (a, b) if b in (TRUE, FALSE) else (b, a)
        k = ty(x)
        if k == "bool":
            return x if c is TRUE else not_(x)
        return mk("eq", *sorted((a, b), key=lambda z: z.id))
    if _numeric(a) or _numeric(b):
        if a.op == "str" or b.op == "str":
            return FALSE
        if opt_strip(ty(a)) in ("int", "float", "num") or _numeric(a) and _numeric(b) or a.op == "num" or b.op == "num":
            p = sub(a, b)
            if p.op == "num":
                return TRUE if p.args[0] == 0 else FALSE
            return eq_zero(p)
    if is_str_const(a) and is_str_const(b):
        return FALSE
    for x, c in ((a, b), (b, a)):
        if x.op == "slice_of" and len(x.args[1]) == 1 and x.args[1][0] == mk("slc", NONE, mk("dim", c, 0), NONE) and opt_strip(ty(c)) == "str":
            r = mk("call", "str.startswith", (x.args[0], c), ())
            Ctx.types.setdefault(r, "bool")
            return r
    for x, c in ((a, b), (b, a)):
        if is_str_const(c) and opt_strip(ty(x if x.op != "at" else x.args[0])) == "str":
            # the beginning or the end of a string compared with a constant
            v, t = str_value(c), None
            if x.op == "at" and len(v) == 1 and len(x.args) == 2 and x.args[1].op == "num" and x.args[1].args[0] in (0, -1):
                t = "str.startswith" if x.args[1].args[0] == 0 else "str.endswith"
            elif x.op == "slice_of" and v and len(x.args[1]) == 1 and x.args[1][0].op == "slc":
                lo, hi, step = x.args[1][0].args
                if lo is NONE and step is NONE and hi is num(len(v)):
                    t = "str.startswith"
                elif hi is NONE and step is NONE and lo is num(-len(v)):
                    t = "str.endswith"
            if t is not None:
                r = mk("call", t, (x.args[0], c), ())
                Ctx.types.setdefault(r, "bool")
                return r
    if a.op == "str" and b.op == "str":
        r = _str_neq(a, b)
        if r:
            return FALSE
    if a.op == b.op == "tuple" or a.op == b.op == "list":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op in _CONSTRUCTORS and b.op in _CONSTRUCTORS and a.op != b.op:
        return FALSE
    if a.op == b.op and a.op in ("class", "func", "const"):
        return FALSE
    return mk("eq", *sorted((a, b), key=lambda z: z.id))


def _str_neq(a, b):
    pa, pb = a.args[0], b.args[0]
    if is_str_const(a) and is_str_const(b):
        return str_value(a) != str_value(b)
    return False


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return or_(and_(a, b), and_(not_(a), not_(b)))


@lift1
def not_(a):
    op = a.op
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if op == "not":
        return a.args[0]
    if op == "and":
        return or_(*[not_(x) for x in a.args])
    if op == "or":
        return and_(*[not_(x) for x in a.args])
    if op == "ite":
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk("not", a)


def _conn(op, neutral, absorb, xs):
    out = []
    for x in xs:
        if x is neutral:
            continue
        if x is absorb:
            return absorb
        for y in x.args if x.op == op else (x,):
            if y not in out:
                out.append(y)
    s = set(out)
    for y in out:
        if _neg_cheap(y) in s:
            return absorb
    other = "or" if op == "and" else "and"
    # absorption and unit resolution
    changed = True
    while changed:
        changed = False
        s = set(out)
        for i, y in enumerate(out):
            if y.op == other:
                ys = set(y.args)
                if any(z in s for z in ys):
                    out.pop(i)
                    changed = True
                    break
                keep = [z for z in y.args if _neg_cheap(z) not in s]
                if len(keep) != len(y.args):
                    out.pop(i)
                    n = (or_ if op == "and" else and_)(*keep)
                    if n is absorb:
                        return absorb
                    if n is not neutral:
                        for z in n.args if n.op == op else (n,):
                            if z not in out:
                                out.append(z)
                            if _neg_cheap(z) in out:
                                return absorb
                    changed = True
                    break
    if not out:
        return neutral
    if len(out) == 1:
        return out[0]
    # (a & b) | (a & !b)  ->  a
    if len(out) == 2 and out[0].op == out[1].op == other:
        s0, s1 = set(out[0].args), set(out[1].args)
        d0, d1 = s0 - s1, s1 - s0
        if len(d0) == len(d1) == 1 and _neg_cheap(next(iter(d0))) is next(iter(d1)):
            return (or_ if op == "and" else and_)(*(s0 & s1))
    out.sort(key=lambda z: z.id)
    return mk(op, *out)


def _neg_cheap(y):
    if y.op == "not":
        return y.args[0]
    if y.op in ("and", "or", "ite", "arr"):
        return None
    return mk("not", y)


def and_(*xs):
    if any(x.op == "arr" for x in xs):
        from .arrays import ew

        r = xs[0]
        for x in xs[1:]:
            r = ew(and_, r, x)
        return r
    return _conn("and", TRUE, FALSE, xs)


def or_(*xs):
    if any(x.op == "arr" for x in xs):
        from .arrays import ew

        r = xs[0]
        for x in xs[1:]:
            r = ew(or_, r, x)
        return r
    return _conn("or", FALSE, TRUE, xs)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    ba, bb = ty(a) == "bool", ty(b) == "bool"
    if ba and bb:
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is FALSE:
            return and_(c, a)
        if b is TRUE:
            return or_(not_(c), a)
        if a is c:
            return or_(c, b)
        if b is c:
            return and_(c, a)
    if a.op in ("concat", "collect"):
        a = _filters_under(a, c, TRUE)
    if b.op in ("concat", "collect"):
        b = _filters_under(b, c, FALSE)
    if a is b:
        return a
    # two refs etc. stay as they are
    if c.op == "ite" and ty(c) == "bool":
        c = or_(and_(c.args[0], c.args[1]), and_(not_(c.args[0]), c.args[2]))
        return ite(c, a, b)
    # n unless it is zero
    if a.op == "dim" and b is ZERO:
        p = lt(ZERO, a)
        if c is p:
            return a
        if c.op == "and" and p in c.args:
            return ite(and_(*[x for x in c.args if x is not p]), a, b)
    elif b.op == "dim" and a is ZERO:
        p = not_(lt(ZERO, b))
        if c is p:
            return b
        if c.op == "or" and p in c.args:
            return ite(or_(*[x for x in c.args if x is not p]), a, b)
    return mk("ite", c, a, b)


def _filters_under(t, c, v):
    """the list t where the condition c is known to be v"""
    if t.op == "concat":
        ps = [_filters_under(p, c, v) for p in t.args]
        return t if all(x is y for x, y in zip(ps, t.args)) else concat(*ps)
    if t.op == "collect" and t.args[1] is not TRUE and contains(t.args[1], c):
        k = subst(t.args[1], {c: v})
        return mk("list") if k is FALSE else mk("collect", t.args[0], k, *t.args[2:])
    return t


def isnone(a):
    if a is NONE:
        return TRUE
    if a.op == "ite":
        return ite(a.args[0], isnone(a.args[1]), isnone(a.args[2]))
    k = ty(a)
    if a.op in (
        "num",
        "poly",
        "str",
        "list",
        "tuple",
        "concat",
        "collect",
        "rep",
        "arr",
        "obj",
        "ref",
        "class",
        "func",
        "clo",
        "bound",
        "extf",
        "fdiv",
        "mod",
        "abs",
        "sqrt",
        "red",
        "true",
        "false",
        "dict",
        "inf",
        "const",
        "view",
    ) or a.op in _BOOLOPS or a.op in _INTOPS:
        return FALSE
    if k is not None and not (isinstance(k, tuple) and k[0] == "opt") and k not in ("any", "none"):
        return FALSE
    return mk("isnone", a)


def min2(a, b):
    return _mm(lt, a, b)


def max2(a, b):
    return _mm(gt, a, b)


@lift2
def _min_s(a, b):
    return _mm_s(True, a, b)


@lift2
def _max_s(a, b):
    return _mm_s(False, a, b)


def _mm(f, a, b):
    return (_min_s if f is lt else _max_s)(a, b)


def _mm_s(is_min, a, b):
    if a is b:
        return a
    if a is INF or b is INF:
        o = b if a is INF else a
        return o if is_min else INF
    if a.id > b.id:
        a, b = b, a
    return ite(lt(a, b), a, b) if is_min else ite(lt(a, b), b, a)


def concat(*parts):
    out = []
    for p in parts:
        for q in p.args if p.op == "concat" else (p,):
            if q.op == "list" and not q.args:
                continue
            if q.op == "list" and out and out[-1].op == "list":
                out[-1] = mk("list", *(out[-1].args + q.args))
            else:
                out.append(q)
    if not out:
        return mk("list")
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


# --------------------------------------------------------------------------
# traversal
# --------------------------------------------------------------------------
def children(t):
    for a in t.args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _tch(a)


def _tch(tp):
    for a in tp:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _tch(a)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, x):
    return any(s is x for s in subterms(t))


def has_op(t, *ops):
    return any(s.op in ops for s in subterms(t))


def _map_arg(a, f):
    if isinstance(a, Term):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map_arg(x, f) for x in a)
    return a


def rebuild(t, f, facts=None):
    """apply f to the children of t and renormalise"""
    op = t.op
    if not t.args:
        return t
    if op == "poly":
        r = {}
        for m, c in t.args[0]:
            cur = {(): c}
            for a, e in m:
                na = f(a)
                cur = _pmul(cur, P(ipow(_numlike(na), e)))
            r = _padd(r, cur)
        return unP(r)
    new = tuple(_map_arg(a, f) for a in t.args)
    if all(x is y or x == y for x, y in zip(new, t.args)):
        if op in ("fdiv", "mod") and facts is not None:
            return (fdiv if op == "fdiv" else mod)(new[0], new[1], facts)
        if op == "slice_of" and facts is not None:
            return cut_list(new[0], new[1], facts)
        return t
    return construct(op, new, facts)


ROUNDING = {"round": round, "npround": round, "floor": math.floor, "ceil": math.ceil}


def construct(op, a, facts=None):
    if op == "lt0":
        return _lt0(a[0])
    if op == "eq0":
        return eq_zero(a[0])
    if op == "eq":
        return eq(a[0], a[1])
    if op == "isnone":
        return isnone(a[0])
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "ite":
        return ite(a[0], a[1], a[2])
    if op == "trunc" and a[0].op == "num":
        return num(int(a[0].args[0]))
    if op == "trunc" and ty(a[0]) == "int":
        return a[0]
    if op == "call" and a[0] in ROUNDING and a[1] and isinstance(a[1][0], Term):
        x, dec = a[1][0], a[1][1:]
        if x.op == "num" and (not dec or dec[0].op == "num"):
            return num(ROUNDING[a[0]](x.args[0], *[int(d.args[0]) for d in dec]))
        if ty(x) == "int" and not dec:
            return x
    if op == "slice_of" and facts is not None:
        return cut_list(a[0], a[1], facts)
    if op == "stored":
        from .arrays import is_mapping, put

        return put(a[0], a[1][0], a[2]) if is_mapping(a[0]) and len(a[1]) == 1 else mk(op, *a)
    if op == "fdiv":
        return fdiv(a[0], a[1], facts)
    if op == "mod":
        return mod(a[0], a[1], facts)
    if op == "abs":
        return absv(a[0])
    if op == "sqrt":
        return sqrt(a[0])
    if op == "str":
        return cstr(*a[0])
    if op == "concat":
        return concat(*a)
    if op == "at":
        from .arrays import at

        return at(a[0], *a[1:])
    if op == "dim":
        from .arrays import dim

        return dim(a[0], a[1])
    if op == "red":
        from .arrays import mkred

        return mkred(*a)
    if op == "arr":
        from .arrays import mkarr

        return mkarr(a[0], a[1])
    if op == "collect":
        from .arrays import mkcollect

        return mkcollect(*a)
    if op == "truthy":
        return truthy(a[0])
    if op == "fold" and a[0] is ONE and isinstance(a[1], Term) and not any(x.op == "fold" for x in subterms(a[2])):
        # a single step
        mp = {mk("hole", "acc", a[4], 0): a[1], mk("hole", "it", a[4]): ZERO}
        mp.update({mk("hole", "acc", a[4], k + 1): o[0] for k, o in enumerate(a[3])})
        return subst(a[2], mp)
    if op == "fold" and a[0] is ZERO:
        return a[1]
    return mk(op, *a)


def cut_list(x, ix, facts):
    """x[:hi] of a list whose length is known to be within hi, or that starts with known items"""
    keep = mk("slice_of", x, ix)
    k = opt_strip(ty(x))
    if not (isinstance(k, tuple) and k[0] == "list") or len(ix) != 1 or ix[0].op != "slc" or ix[0].args[0] is not NONE or ix[0].args[2] is not NONE:
        return keep
    from .arrays import dim

    hi = ix[0].args[1]
    if ty(hi) != "int":
        return keep
    n = dim(x, 0)
    if hi.op == "num" and hi.args[0] < 0:
        if facts.decide(le(neg(hi), n)) is not True:
            return keep
        hi = add(n, hi)
    if facts.decide(le(ZERO, hi)) is not True:
        return keep
    if facts.decide(le(n, hi)) is True:
        return x
    if x.op == "concat" and x.args[0].op == "list":
        k = num(len(x.args[0].args))
        if facts.decide(le(k, hi)) is True:
            rest = concat(*x.args[1:])
            return concat(x.args[0], cut_list(rest, (mk("slc", NONE, sub(hi, k), NONE),), facts))
    if hi is ZERO:
        return mk("list")
    if x.op == "slice_of" and len(x.args[1]) == 1 and x.args[1][0].op == "slc" and x.args[1][0].args[0] is NONE and x.args[1][0].args[2] is NONE:
        a, m = x.args[1][0].args[1], dim(x.args[0], 0)
        if ty(a) == "int" and facts.decide(le(ZERO, a)) is True:
            if facts.decide(le(hi, a)) is True:
                return cut_list(x.args[0], (mk("slc", NONE, hi, NONE),), facts)
            if facts.decide(le(a, hi)) is True:
                return x
    for c in (sub(n, ONE),):
        if hi is not c and facts.decide(le(hi, c)) is True and facts.decide(le(c, hi)) is True:
            hi = c
    return mk("slice_of", x, (mk("slc", NONE, hi, NONE),))


def eq_zero(p):
    if p.op == "num":
        return TRUE if p.args[0] == 0 else FALSE
    if p.op == "ite":
        return ite(p.args[0], eq_zero(p.args[1]), eq_zero(p.args[2]))
    p = _norm_cmp(p)
    if _counts(p) is not None:
        return not_(_counts(p))
    if p.op == "first" and p.args[0] is INF:
        # the search ends at the first index
        return subst(p.args[1], {BV(p.args[2]): ZERO})
    q = neg(p)
    return mk("eq0", p if p.id < q.id else q)


def truthy(a):
    k = ty(a)
    if a in (TRUE, FALSE) or k == "bool":
        return a
    if a is NONE:
        return FALSE
    if a.op == "ite":
        return ite(a.args[0], truthy(a.args[1]), truthy(a.args[2]))
    if a.op == "num":
        return TRUE if a.args[0] else FALSE
    if a.op == "str":
        if not a.args[0]:
            return FALSE
        if any(isinstance(x, str) and x for x in a.args[0]):
            return TRUE
    if a.op in ("list", "tuple"):
        return TRUE if a.args else FALSE
    if a.op in ("class", "func", "clo", "bound", "extf", "obj"):
        return TRUE
    if k in ("int", "float", "num"):
        return not_(eq_zero(a))
    if k == "str":
        from .arrays import dim

        return lt(ZERO, dim(a, 0))
    if a.op == "dict":
        return TRUE if a.args else FALSE
    if isinstance(k, tuple) and k[0] == "list" or a.op in ("concat", "collect", "rep"):
        from .arrays import dim

        return lt(ZERO, dim(a, 0))
    if isinstance(k, tuple) and k[0] == "cls":
        return TRUE
    if isinstance(k, tuple) and k[0] == "opt":
        kk = k[1]
        if isinstance(kk, tuple) and kk[0] == "cls" or kk == "callable":
            return not_(isnone(a))
        if isinstance(kk, tuple) and kk[0] == "list":
            from .arrays import dim

            return and_(not_(isnone(a)), lt(ZERO, dim(a, 0)))
        if kk in ("int", "float", "num"):
            return and_(not_(isnone(a)), not_(eq_zero(a)))
        if kk == "str":
            from .arrays import dim

            return and_(not_(isnone(a)), lt(ZERO, dim(a, 0)))
    return mk("truthy", a)


_sub_memo = {}


def subst(t, mp, facts=None):
    """simultaneous substitution of terms (dict term->term), renormalising"""
    memo = {}
    bound = {x.args[0] for x in mp if x.op == "bv"}
    axes = any(x.op == "ix" for x in mp)

    def go(x):
        if x in mp:
            return mp[x]
        if not x.args:
            return x
        r = memo.get(x)
        if r is None:
            if bound and binder_of(x) in bound:
                b = BV(binder_of(x))
                m2 = {k: v for k, v in mp.items() if k is not b}
                r = subst(x, m2, facts) if m2 else x
            elif axes and x.op == "arr":
                # an array binds the variables of its axes
                m2 = {k: v for k, v in mp.items() if k.op != "ix"}
                e = subst(x.args[1], m2, facts) if m2 else x.args[1]
                s = tuple(go(n) for n in x.args[0])
                r = x if e is x.args[1] and s == x.args[0] else rebuild(mk("arr", s, e), lambda z: z, facts)
            else:
                r = rebuild(x, go, facts)
            memo[x] = r
        return r

    return go(t)


def BV(n):
    return mk("bv", n)


def binder_of(t):
    """name of the variable bound by a reduction, collection or search"""
    if t.op in ("red", "collect"):
        return t.args[3]
    if t.op in ("first", "last") and len(t.args) == 3 and isinstance(t.args[2], int):
        return t.args[2]
    return None


_height = {}


def binder_height(t):
    """largest binder name bound inside t"""
    r = _height.get(t)
    if r is None:
        r = binder_of(t) or 0
        for c in children(t):
            r = max(r, binder_height(c))
        _height[t] = r
    return r


def binder_name(*ts, free=None):
    """the name for the variable of a binder over ts: above every binder inside
    (so alpha-equivalent terms are the same term), and not free in ts"""
    k = 1 + max(binder_height(t) for t in ts)
    fr = set()
    for t in ts:
        fr |= free_binders(t)
    while BV(k) in fr and BV(k) is not free:
        k += 1
    return k


def IX(n):
    return mk("ix", n)


# --------------------------------------------------------------------------
# linear facts
# --------------------------------------------------------------------------
def _linform(p):
    """poly term -> (dict mono->coef, const)"""
    d = P(p)
    d = dict(d)
    c = d.pop((), Fraction(0))
    return d, c


def _all_int(p):
    for m, c in P(p).items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or ty(a) not in ("int", "bool"):
                return False
    return True


def fm_infeasible(cons, cap=400):
    """cons: list of (dict, const, strict) meaning sum + const < 0 (or <= 0).
    Fourier-Motzkin; True only if infeasible over the rationals."""
    cons = [(dict(d), c, s) for d, c, s in cons]
    while True:
        keep = []
        seen = set()
        for d, c, s in cons:
            if not d:
                if c > 0 or (s and c >= 0):
                    return True
                continue
            # normalise by leading
            k = None
            for m in sorted(d, key=_mkey):
                k = abs(d[m])
                break
            d = {m: v / k for m, v in d.items()}
            c = c / k
            key = (tuple(sorted(((m, v) for m, v in d.items()), key=lambda x: _mkey(x[0]))), c, s)
            if key in seen:
                continue
            seen.add(key)
            keep.append((d, c, s))
        cons = keep
        if not cons:
            return False
        # choose variable with fewest products
        cnt = {}
        for d, c, s in cons:
            for m, v in d.items():
                a = cnt.setdefault(m, [0, 0])
                a[0 if v > 0 else 1] += 1
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], _mkey(x)))
        pos, ne, rest = [], [], []
        for con in cons:
            v = con[0].get(m, 0)
            (pos if v > 0 else ne if v < 0 else rest).append(con)
        new = rest
        for d1, c1, s1 in pos:
            for d2, c2, s2 in ne:
                a, b = d1[m], -d2[m]
                d = {}
                for x, v in d1.items():
                    d[x] = d.get(x, 0) + v * b
                for x, v in d2.items():
                    d[x] = d.get(x, 0) + v * a
                d = {x: v for x, v in d.items() if v}
                new.append((d, c1 * b + c2 * a, s1 or s2))
        if len(new) > cap:
            return False
        cons = new


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


class Facts:
    """A conjunction of literals."""

    def __init__(self, parent=None):
        self.lits = dict(parent.lits) if parent else {}
        self.lin = list(parent.lin) if parent else []
        self.neq = list(parent.neq) if parent else []
        self.bad = parent.bad if parent else False
        self.memo = {}
        self.key = None

    def copy(self):
        return Facts(self)

    def assume(self, c, val=True):
        """add the fact that boolean term c has the given value (in place)"""
        if not val:
            c = not_(c)
        if c is TRUE or self.bad:
            return self
        if c is FALSE:
            self.bad = True
            return self
        self.memo = {}
        if c.op == "and":
            for x in c.args:
                self.assume(x)
            return self
        v = True
        a = c
        if c.op == "not":
            v, a = False, c.args[0]
        if a.op in ("or", "ite", "and"):
            # keep as an opaque literal as well
            self.lits[a] = v
            if a.op == "ite" or (a.op == "or" and v):
                s = simplify(a, self)
                if s is not a and s.op not in ("or", "ite"):
                    self.assume(s, v)
            return self
        known = self.decide(a)
        if known is not None:
            if known != v:
                self.bad = True
            return self
        self.lits[a] = v
        if a.op == "lt0":
            d, k = _linform(a.args[0])
            if v:
                if _all_int(a.args[0]):
                    self.lin.append((d, k + 1, False))
                else:
                    self.lin.append((d, k, True))
            else:
                self.lin.append(({m: -x for m, x in d.items()}, -k, False))
        elif a.op == "eq0":
            d, k = _linform(a.args[0])
            if v:
                self.lin.append((d, k, False))
                self.lin.append(({m: -x for m, x in d.items()}, -k, False))
            else:
                self.neq.append(a.args[0])
                q = a.args[0]
                if _size_like(q):
                    self.assume(lt(ZERO, q))
                elif _size_like(neg(q)):
                    self.assume(lt(q, ZERO))
        elif a.op == "isnone" and v:
            self.lits[mk("truthy", a.args[0])] = False
        elif a.op == "truthy" and v:
            self.lits[mk("isnone", a.args[0])] = False
        elif a.op == "isinst" and v:
            self.lits[mk("isnone", a.args[0])] = False
        elif a.op == "red" and a.args[0] == "any" and v:
            self.lin.append(({((a.args[1], 1),): Fraction(-1)}, Fraction(1), False)) if a.args[1].op != "num" else None
        return self

    def with_(self, c, val=True):
        f = self.copy().assume(c, val)
        if not f.bad:
            f.revisit(c)
        return f

    def revisit(self, c):
        """facts that the new one refines: their conditional parts are resolved"""
        a = c.args[0] if c.op == "not" else c
        if a.op in ("and", "or"):
            return
        for x, v in list(self.lits.items()):
            if x is a or x.op not in ("lt0", "eq0", "or", "and", "ite") or not contains(x, a):
                continue
            if x.op in ("lt0", "eq0") and not has_op(x, "ite"):
                continue
            if x.op == "or" and not v or x.op == "and" and v:
                continue
            g = self.copy()
            del g.lits[x]
            g.memo = {}
            if x.op in ("lt0", "eq0"):
                s = construct(x.op, (simplify(x.args[0], g),))
            else:
                s = simplify(x, g)
            if s is not x and s.op not in ("or", "ite"):
                self.assume(s, v)
                if self.bad:
                    return

    def decide(self, a):
        """True / False / None for a boolean term"""
        if a is TRUE:
            return True
        if a is FALSE:
            return False
        if a in self.lits:
            return self.lits[a]
        if a.op == "not":
            r = self.decide(a.args[0])
            return None if r is None else not r
        if a.op == "and":
            rs = [self.decide(x) for x in a.args]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if a.op == "or":
            rs = [self.decide(x) for x in a.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if a in self.memo:
            return self.memo[a]
        r = self._decide_atom(a)
        self.memo[a] = r
        return r

    def _decide_atom(self, a):
        if a.op == "lt0":
            d, k = _linform(a.args[0])
            base = self._cons_for(d)
            if fm_infeasible(base + [({m: -x for m, x in d.items()}, -k, False)]):
                return True
            ii = _all_int(a.args[0])
            if fm_infeasible(base + [(d, k + 1, False) if ii else (d, k, True)]):
                return False
            if ii and False:
                pass
            return None
        if a.op == "eq0":
            d, k = _linform(a.args[0])
            nd = {m: -x for m, x in d.items()}
            base = self._cons_for(d)
            ii = _all_int(a.args[0])
            lo = fm_infeasible(base + [(d, k + 1, False) if ii else (d, k, True)])
            hi = fm_infeasible(base + [(nd, -k + 1, False) if ii else (nd, -k, True)])
            if lo and hi:
                return True
            if fm_infeasible(base + [(d, k, False), (nd, -k, False)]):
                return False
            return None
        if a.op == "isinst":
            x = a.args[0]
            for b, v in self.lits.items():
                if b.op == "isinst" and b.args[0] is x and v and Ctx_disjoint(b.args[1], a.args[1]):
                    return False
            if self.lits.get(mk("isnone", x)) is True:
                return False
        if a.op == "eq":
            x, y = a.args
            if self.lits.get(mk("isnone", x)) is True and y.op in _CONSTRUCTORS:
                return False
            if self.lits.get(mk("isnone", y)) is True and x.op in _CONSTRUCTORS:
                return False
            # x == "a" known, "b" asked
            for z, w in ((x, y), (y, x)):
                if w.op in _CONSTRUCTORS:
                    for b, v in self.lits.items():
                        if v and b.op == "eq" and z in b.args:
                            o = b.args[0] if b.args[1] is z else b.args[1]
                            if o.op in _CONSTRUCTORS and o is not w:
                                return False
        if a.op == "isnone":
            x = a.args[0]
            for b, v in self.lits.items():
                if v and b.op == "eq" and x in b.args:
                    o = b.args[0] if b.args[1] is x else b.args[1]
                    if o.op in _CONSTRUCTORS and o is not NONE:
                        return False
        if a.op == "truthy":
            if self.lits.get(mk("isnone", a.args[0])) is True:
                return False
        return None

    def _cons_for(self, d):
        # constraints plus non-negativity of dims / indices that occur
        cons = list(self.lin)
        ms = set(d)
        for dd, _, _ in cons:
            ms.update(dd)
        for m in list(ms):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fdiv":
                # c * (x // c) <= x <= c * (x // c) + c - 1
                x, c = m[0][0].args
                if c.op == "num" and c.args[0] > 0 and ty(x) == "int":
                    e, k = _linform(x)
                    lo = {q: -v for q, v in e.items()}
                    hi = dict(e)
                    lo[m] = lo.get(m, 0) + c.args[0]
                    hi[m] = hi.get(m, 0) - c.args[0]
                    cons.append((lo, -k, False))
                    cons.append((hi, k - c.args[0] + 1, False))
                    ms.update(e)
        for m in list(ms):
            if len(m) == 1 and m[0][1] == 1:
                b = _rounding(m[0][0])
                if b is not None:
                    # lo <= rounded x - x <= hi
                    x, lo, lo_strict, hi, hi_strict = b
                    e, k = _linform(x)
                    up, dn = {q: -v for q, v in e.items()}, dict(e)
                    up[m] = up.get(m, 0) + 1
                    dn[m] = dn.get(m, 0) - 1
                    cons.append((up, -k - hi, hi_strict))
                    cons.append((dn, k + lo, lo_strict))
                    ms.update(e)
        for m in ms:
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.op in ("dim", "lv", "bv", "ix", "size", "abs", "sqrt"):
                    cons.append(({m: Fraction(-1)}, Fraction(0), False))
                if a.op == "dim" and a.args[0].op == "at" and a.args[1] == 0:
                    # the longest list that a dictionary of lists holds
                    k = opt_strip(ty(a.args[0].args[0]))
                    if isinstance(k, tuple) and k[0] == "dict" and len(k) == 3:
                        e, c0 = _linform(k[2])
                        e = {q: -v for q, v in e.items()}
                        e[m] = e.get(m, 0) + 1
                        cons.append((e, -c0, False))
                if a.op == "red" and a.args[0] == "sum" and _nonneg(a.args[2]):
                    cons.append(({m: Fraction(-1)}, Fraction(0), False))
            elif all(a.op in ("dim", "lv", "bv", "ix", "size") for a, e in m):
                cons.append(({m: Fraction(-1)}, Fraction(0), False))
        for dfact in DIMFACTS:
            cons.append(dfact)
        return cons

    def infeasible(self):
        if self.bad:
            return True
        if self.lin:
            return fm_infeasible(self._cons_for({}))
        return False

    def no_integers(self):
        """are the facts about integers impossible, numbers that are excluded one by one included?"""
        ne = []
        for p in self.neq:
            if _all_int(p):
                d, k = _linform(p)
                ne.append((d, k, self._cons_for(d)))
        if not ne or not self.lin:
            return False
        base = []
        for _, _, c in ne:
            base += [x for x in c if x not in base]

        def none(cons, rest):
            if fm_infeasible(cons):
                return True
            for i, (d, k, _) in enumerate(rest):
                nd = {m: -x for m, x in d.items()}
                lo, hi = (d, k + 1, False), (nd, -k + 1, False)
                if fm_infeasible(cons + [lo]):
                    return none(cons + [hi], rest[:i] + rest[i + 1:])
                if fm_infeasible(cons + [hi]):
                    return none(cons + [lo], rest[:i] + rest[i + 1:])
            return False

        return none(base, ne[:8])

    def neq_violated(self):
        for p in self.neq:
            d, k = _linform(p)
            nd = {m: -x for m, x in d.items()}
            base = self._cons_for(d)
            if fm_infeasible(base + [(d, k, True)]) and fm_infeasible(base + [(nd, -k, True)]):
                return True
        return False


def _rounding(a):
    """(x, lo, strictly, hi, strictly) of a term that rounds x: lo <= a - x <= hi"""
    h, one, z = Fraction(1, 2), Fraction(1), Fraction(0)
    if a.op == "trunc":
        x = a.args[0]
        if ty(x) not in ("int", "float", "num") and x.op != "poly":
            return None
        return (x, -one, True, z, False) if _nonneg(x) or _size_sum(x) else (x, -one, True, one, True)
    if a.op == "call" and len(a.args[1]) == 1 and not a.args[2]:
        n, x = a.args[0], a.args[1][0]
        if not isinstance(x, Term) or ty(x) not in ("int", "float", "num") and x.op != "poly":
            return None
        if n == "floor":
            return (x, -one, True, z, False)
        if n == "ceil":
            return (x, z, False, one, True)
        if n == "round":
            return (x, -h, False, h, False)
    return None


def _size_sum(t):
    """a sum of sizes with positive factors"""
    if t.op in ("dim", "size"):
        return True
    return t.op == "poly" and all(c > 0 and all(a.op in ("dim", "size") for a, _ in m) for m, c in t.args[0])


DIMFACTS = []  # global linear facts (e.g. number of points >= 1)


def _nonneg(t):
    if t.op == "num":
        return t.args[0] >= 0
    if t.op == "ite":
        return _nonneg(t.args[1]) and _nonneg(t.args[2])
    if t.op in ("abs", "sqrt", "dim"):
        return True
    if t.op == "poly":
        return all(c >= 0 and all(e % 2 == 0 or _nonneg(a) for a, e in m) for m, c in t.args[0])
    return False


def _size_like(t):
    """a sum of products of sizes: an integer, never negative"""
    if t.op in ("dim", "size"):
        return True
    return t.op == "poly" and all(
        c > 0 and c.denominator == 1 and all(a.op in ("dim", "size") for a, _ in m) for m, c in t.args[0]
    )


def Ctx_disjoint(c1, c2):
    """classes known to have no common instance"""
    f = getattr(Ctx, "disjoint", None)
    return bool(f and f(c1, c2))


EMPTY = Facts()
_simp_memo = {}


def simplify(t, facts):
    """rewrite t using facts"""
    memo = {}
    for y, v in facts.lits.items():
        if v is True and y.op == "isnone" and y.args[0].op not in ("obj", "list", "tuple"):
            memo[y.args[0]] = NONE
            memo[y] = TRUE
        elif v is True and y.op == "eq0":
            # a size that is known
            d, k = _linform(y.args[0])
            if len(d) == 1:
                (m, c), = d.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("dim", "size"):
                    memo[m[0][0]] = num(Fraction(-k) / c)

    def go(x):
        if not x.args:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in _BOOLOPS or (x.op == "red" and x.args[0] == "any") or x in facts.lits:
            d = facts.decide(x)
            if d is not None:
                memo[x] = TRUE if d else FALSE
                return memo[x]
        if x.op == "ite":
            c = go(x.args[0])
            if c is TRUE:
                r = go(x.args[1])
            elif c is FALSE:
                r = go(x.args[2])
            else:
                r = ite(c, go(x.args[1]), go(x.args[2]))
        elif x.op in ("ref", "obj", "clo", "class", "func"):
            r = x
        else:
            r = rebuild(x, go, facts)
        if r is not x and (r.op in _BOOLOPS):
            d = facts.decide(r)
            if d is not None:
                r = TRUE if d else FALSE
        memo[x] = r
        return r

    return go(t)


# --------------------------------------------------------------------------
# equality decision
# --------------------------------------------------------------------------
EQ, NE, UNK = "eq", "ne", "unk"


def control_atoms(t, acc=None, under=False):
    """boolean atoms in the conditions of t (those that select between values),
    outside binders"""
    acc = [] if acc is None else acc
    seen = set()

    def atoms(c):
        if c in seen:
            return
        seen.add(c)
        if c.op in ("and", "or", "not"):
            for x in c.args:
                atoms(x)
        elif c.op == "ite":
            for x in c.args:
                atoms(x)
        elif c in (TRUE, FALSE):
            return
        else:
            if not has_free_binder(c):
                if c not in acc:
                    acc.append(c)
                for x in children(c):
                    walk(x)

    def walk(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "ite":
            atoms(x.args[0])
            walk(x.args[1])
            walk(x.args[2])
            return
        if x.op in ("collect", "arr", "red") :
            # conditions inside binders that do not depend on the bound variable
            for s in subterms(x):
                if s.op == "ite" and not has_free_binder(s.args[0]):
                    atoms(s.args[0])
            return
        for y in children(x):
            walk(y)

    if ty(t) == "bool":
        atoms(t)
    else:
        walk(t)
    return acc


_fb_memo = {}
_NOFREE = frozenset()


def fold_vars(level):
    """iteration and accumulator of a fold: distinct from those of the folds inside it"""
    it = mk("hole", "it", level)
    Ctx.types.setdefault(it, "int")
    return it, mk("hole", "acc", level, 0)


def fold_level(t):
    return max([0] + [s.args[4] for s in subterms(t) if s.op == "fold"])


def free_binders(t):
    """binder variables (bv / ix) that occur free in t"""
    r = _fb_memo.get(t)
    if r is None:
        if t.op in ("bv", "ix", "hole"):
            r = frozenset([t])
        else:
            acc = set()
            for c in children(t):
                acc |= free_binders(c)
            if t.op in ("red", "collect"):
                acc.discard(BV(t.args[3]))
            elif t.op in ("first", "last") and len(t.args) == 3 and isinstance(t.args[2], int):
                acc.discard(BV(t.args[2]))
            elif t.op == "fold":
                acc = {x for x in acc if not (x.op == "hole" and x.args[1:2] == (t.args[4],))}
            elif t.op == "aftr":
                acc = {x for x in acc if x.op != "hole"}
            elif t.op == "arr":
                inner = {x for x in free_binders(t.args[1]) if x.op == "bv"}
                outer = set()
                for c in t.args[0]:
                    outer |= free_binders(c)
                acc = inner | outer
            r = frozenset(acc) if acc else _NOFREE
        _fb_memo[t] = r
    return r


def has_free_binder(t):
    return bool(free_binders(t))


# results of summarised functions -> another result of the same length
SAME_LENGTH = {}


class Verdict:
    __slots__ = ("v", "why", "facts", "hard")

    def __init__(self, v, why="", facts=None):
        self.v, self.why, self.facts = v, why, facts
        self.hard = False  # established below a construct that is not modelled

    def __repr__(self):
        return f"<{self.v} {self.why}>"


class Budget:
    """steps and seconds one comparison may take"""

    SECONDS = 20

    def __init__(self, n):
        self.n = n
        self.until = time.monotonic() + self.SECONDS

    def use(self):
        self.n -= 1
        if self.n >= 0 and self.n % 8 == 0 and time.monotonic() > self.until:
            self.n = -1
        return self.n >= 0


def equal(a, b, facts=None, budget=4000):
    """EQ / NE / UNK: do a and b denote the same value whenever `facts` hold?"""
    f0 = facts.copy() if facts is not None else Facts()
    r = _go(a, b, f0, Budget(budget))
    if r.v == NE and r.facts is not None:
        w = _hinges(a, b, f0, r.facts)
        if w:
            return Verdict(UNK, w + r.why, r.facts)
    return r


# operators whose truth the case analysis cannot choose freely
COMPLEX = {"red", "collect", "arr", "first", "in", "concat", "exc", "slice_of", "lrep", "post", "phi", "fold", "last"}


def _hinges(a, b, f0, f):
    """the case in which a and b differ assumes a condition that occurs on one
    side only and may be a reformulation of one on the other side"""
    every = [x for x in f.lits if x not in f0.lits]
    new = [x for x in every if has_op(x, *COMPLEX)]
    ia = ib = None
    for x in every:
        oa = opaque_atoms(x)
        if not oa:
            continue
        if ia is None:
            ia, ib = set(subterms(a)), set(subterms(b))
        for u, v in ((ia, ib), (ib, ia)):
            if x in u and x not in v and any(o not in v and o.op == "call" for o in oa):
                # what the other side computes instead may be the same
                if any(y in v and y not in u for y in every):
                    return "unmodelled conditions: "
    if not new:
        return ""
    ia, ib = set(subterms(a)), set(subterms(b))
    sa = [x for x in new if x in ia and x not in ib]
    sb = [x for x in new if x in ib and x not in ia]
    if not sa or not sb:
        return ""
    for x in sa:
        for y in sb:
            if x.op != y.op:
                return "differently formulated conditions: "
            bud = Budget(400)
            r = _leaf_struct(x, y, f0.copy(), bud) if x.op not in ("lt0", "eq0") else _leaf_num(
                x.args[0], y.args[0], f0.copy(), bud
            )
            if r.v == EQ and f.lits[x] != f.lits[y]:
                return "conditions are equivalent: "
            if r.v == UNK:
                return "conditions may be equivalent: "
    return ""


def _go(a, b, facts, bud):
    if a is b:
        return Verdict(EQ)
    if not bud.use():
        return Verdict(UNK, "budget")
    a, b = simplify(a, facts), simplify(b, facts)
    if a is b:
        return Verdict(EQ)
    ats = control_atoms(a)
    control_atoms(b, ats)
    ats = [x for x in ats if facts.decide(x) is None]
    if ats:
        # innermost first: atoms that contain no other undecided atom
        x = _pick(ats)
        res = []
        for v in (True, False):
            f = facts.with_(x, v)
            if f.bad or f.infeasible() or f.neq_violated():
                continue
            r = _go(a, b, f, bud)
            if r.v == NE:
                return r
            res.append(r)
        for r in res:
            if r.v == UNK:
                return r
        return Verdict(EQ)
    r = _leaf(a, b, facts, bud)
    if r.v == NE:
        if facts.no_integers():
            return Verdict(EQ)
        r.facts = facts
        if not r.hard and not trusted(a, b, facts):
            return Verdict(UNK, "unmodelled terms differ: " + r.why, facts)
    return r


def _pick(ats):
    for x in ats:
        inner = set(subterms(x)) - {x}
        if not any(y in inner for y in ats):
            return x
    return ats[0]


OPAQUE = {"call", "opaque", "unk", "mret", "ret", "phi", "post", "fold", "pow", "scatter", "sel", "lrep", "ext", "aftr", "last", "ref", "view", "undef", "state"}


# functions with distinct results for distinct arguments
INJECTIVE = {"range", "setiter", "tuple", "int", "hash", "flatten", "numpy.stack", "numpy.array", "numpy.column_stack"}


def uninterpreted(s):
    """results of library operations that no other expression of the program computes"""
    if s.op not in ("call", "ext") or not isinstance(s.args[0], str):
        return False
    return s.args[0].startswith("cv2.") or s.args[0] in ("hash", "cast", "copy.copy") or s.args[0] == "copy.deepcopy" and s.args[1] and ty(s.args[1][0]) != "arr"


def opaque_atoms(t):
    out = set()
    for s in subterms(t):
        if s.op in OPAQUE:
            if s.args and isinstance(s.args[0], str) and s.args[0].startswith("~"):
                continue  # uninterpreted on both sides by the specification
            if s.op == "call" and s.args[0] in INJECTIVE:
                continue
            if uninterpreted(s):
                continue
            if s.op == "scatter" and all(isinstance(x, Term) and x.op == "arr" and (x.args[1] is TRUE or ty(x.args[1]) == "bool") for x in s.args[1]):
                continue  # written through masks
            out.add(s)
        elif s.op in ("stored", "updated_by") and ty(s) == "arr":
            out.add(s)  # written through index arrays
        elif s.op == "attr" and Ctx.vocab is not None and s.args[1] not in Ctx.vocab:
            out.add(s)
    return out


def trusted(a, b, facts=None):
    """the difference does not hinge on something the analysis has no model of"""
    oa, ob = opaque_atoms(a), opaque_atoms(b)
    ra, rb = {x for x in oa if is_random(x)}, {x for x in ob if is_random(x)}
    if bool(ra) != bool(rb):
        # random on one side only
        oa, ob = oa - ra, ob - rb
    return oa == ob


def is_random(t):
    return t.op in ("call", "ext") and isinstance(t.args[0], str) and (".random" in t.args[0] or t.args[0].startswith("random."))


def _numericish(t):
    if t.op in ("num", "poly"):
        return True
    return ty(t) in ("int", "float", "num") or t.op in ("fdiv", "mod", "abs", "sqrt", "at", "red", "dim", "sym", "attr", "inf")


def ratform(t):
    """numerator, denominator as polynomials (dicts)"""
    p = P(t)
    dens = {}
    for m, c in p.items():
        for a, e in m:
            if e < 0:
                dens[a] = max(dens.get(a, 0), -e)
    if not dens:
        return p, {(): Fraction(1)}
    den = {(): Fraction(1)}
    for a, e in dens.items():
        den = _pmul(den, P(ipow(a, e)))
    nume = {}
    for m, c in p.items():
        cur = {(): c}
        left = dict(dens)
        for a, e in m:
            if e < 0:
                left[a] += e
            else:
                cur = _pmul(cur, P(ipow(a, e)))
        for a, e in left.items():
            if e:
                cur = _pmul(cur, P(ipow(a, e)))
        nume = _padd(nume, cur)
    # nested negative exponents
    if any(e < 0 for m in nume for a, e in m):
        n2, d2 = ratform(unP(nume))
        return n2, _pmul(den, d2)
    return nume, den


def _leaf(a, b, facts, bud):
    if a is b:
        return Verdict(EQ)
    if a.op in ("num", "true", "false", "none", "str", "list", "tuple", "class", "func", "const") and b.op in (
        "num",
        "true",
        "false",
        "none",
        "str",
        "list",
        "tuple",
        "class",
        "func",
        "const",
    ):
        if a.op == b.op == "str":
            return _leaf_str(a, b, facts, bud)
        if a.op == b.op and a.op in ("list", "tuple"):
            if len(a.args) != len(b.args):
                return Verdict(NE, f"{show(a)} vs {show(b)}")
            return _all(a.args, b.args, facts, bud, True)
        if {a.op, b.op} == {"num", "true"} or {a.op, b.op} == {"num", "false"}:
            x = a if a.op == "num" else b
            y = b if a.op == "num" else a
            if x.args[0] == (1 if y is TRUE else 0):
                return Verdict(EQ)
        if {a.op, b.op} == {"list", "tuple"} and len(a.args) == len(b.args):
            r = _all(a.args, b.args, facts, bud, True)
            return r if r.v != EQ else Verdict(UNK, "list vs tuple")
        return Verdict(NE, f"{show(a)} vs {show(b)}")
    if {a.op, b.op} == {"list", "collect"}:
        lst, col = (a, b) if a.op == "list" else (b, a)
        if not lst.args:
            n, cond, body, k = col.args
            if not is_splice(body):
                empty = eq(n, ZERO)
                if cond is not TRUE:
                    from .arrays import mkred

                    empty = or_(empty, not_(mkred("any", n, cond, k)))
                r = _go(empty, TRUE, facts, bud)
                return r if r.v != NE else Verdict(NE, "empty vs " + show(col))
    for x, y in ((a, b), (b, a)):
        # a number that need not be whole, and the same number rounded
        if (x.op == "trunc" and x.args[0] is y or x.op == "call" and x.args[0] in ROUNDING and x.args[1][0] is y) and (
            ty(y) == "float" or y.op == "poly" and any(ty(z) == "float" for m, _ in y.args[0] for z, e in m if e == 1)
        ) and not any(contains(k, y) for k in facts.lits):
            r = Verdict(NE, f"{show(a)} vs {show(b)}")
            r.hard = True
            return r
    sa, sb = shape(a), shape(b)
    if sa is not None and sb is not None:
        from .arrays import arr_equal

        return arr_equal(a, b, facts, bud)
    if a.op == "collect" and b.op == "collect" and len(a.args) == len(b.args):
        return _leaf_collect(a, b, facts, bud)
    if _numericish(a) and _numericish(b) and not (a.op == b.op == "red" and a.args[0] in ("any",)):
        return _leaf_num(a, b, facts, bud)
    return _leaf_struct(a, b, facts, bud)


def _all(xs, ys, facts, bud, inj):
    unk = None
    for x, y in zip(xs, ys):
        if isinstance(x, Term) and isinstance(y, Term):
            r = _go(x, y, facts, bud)
        elif isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                r = Verdict(NE if inj else UNK, f"{x} vs {y}")
            else:
                r = _all(x, y, facts, bud, inj)
        else:
            r = Verdict(EQ) if x == y else Verdict(NE, f"{x!r} vs {y!r}")
        if r.v == NE:
            return r if inj else Verdict(UNK, r.why)
        if r.v == UNK:
            unk = r
    return unk or Verdict(EQ)


def _leaf_str(a, b, facts, bud):
    pa, pb = a.args[0], b.args[0]
    if len(pa) != len(pb):
        pa, pb = (
            tuple(p for p in ps if isinstance(p, str) or facts.decide(lt(ZERO, mk("dim", mk("str", (p,)), 0))) is not False)
            for ps in (pa, pb)
        )
        a, b = mk("str", pa), mk("str", pb)
    if len(pa) == len(pb):
        unk = None
        for x, y in zip(pa, pb):
            if isinstance(x, str) != isinstance(y, str):
                unk = Verdict(NE, f"{show(a)} vs {show(b)}")
                continue
            if isinstance(x, str):
                if x != y:
                    return Verdict(NE, f"{x!r} vs {y!r}")
            else:
                r = _go(x, y, facts, bud)
                if r.v == NE:
                    return r
                if r.v == UNK:
                    unk = r
        return unk or Verdict(EQ)
    # what a and b have in common at both ends does not matter
    pa, pb = list(pa), list(pb)
    for side in (0, -1):
        while pa and pb:
            x, y = pa[side], pb[side]
            if x is y or isinstance(x, str) and x == y:
                del pa[side], pb[side]
            elif isinstance(x, str) and isinstance(y, str):
                k = 0
                while k < min(len(x), len(y)) and (x[k] == y[k] if side == 0 else x[-1 - k] == y[-1 - k]):
                    k += 1
                if not k:
                    break
                pa[side], pb[side] = (x[k:], y[k:]) if side == 0 else (x[:-k], y[:-k])
                pa, pb = [[z for z in p if z != ""] for p in (pa, pb)]
                if k < min(len(x), len(y)):
                    break
            else:
                break
    x, y = mk("str", tuple(pa)), mk("str", tuple(pb))
    r = Verdict(NE, f"{show(a)} vs {show(b)}")
    if (pa or pb) and len(pa) <= 1 and len(pb) <= 1 and trusted(x, y, facts):
        r.hard = True
    return r


def _bound_facts(facts, bv, n):
    f = facts.copy()
    f.assume(not_(lt(bv, ZERO)))
    f.assume(lt(bv, n))
    for x, v in list(facts.lits.items()):
        if not v and x.op == "red" and x.args[0] == "any" and x.args[1] is n:
            f.assume(not_(subst(x.args[2], {BV(x.args[3]): bv})))
    return f


_fresh = [0]


def fresh_index():
    _fresh[0] += 1
    s = mk("sym", "$i%d" % _fresh[0])
    Ctx.types[s] = "int"
    return s


def _leaf_collect(a, b, facts, bud):
    # collect(n, cond, body, k): binds BV(k)
    n1, c1, e1, k1 = a.args
    n2, c2, e2, k2 = b.args
    r = _go(n1, n2, facts, bud)
    if r.v != EQ:
        if r.v == UNK or c1 is TRUE and c2 is TRUE:
            return Verdict(r.v, "length " + r.why)
        if all(n.op == "dim" and n.args[0].op == "sym" and contains(e, n.args[0]) for n, e in ((n1, e1), (n2, e2))) and n1 is not n2:
            return Verdict(NE, "elements of %s and of %s" % (show(n1.args[0]), show(n2.args[0])))
        return Verdict(UNK, "filtered ranges " + r.why)
    i = fresh_index()
    f = _bound_facts(facts, i, n1)
    c1, e1 = subst(c1, {BV(k1): i}), subst(e1, {BV(k1): i})
    c2, e2 = subst(c2, {BV(k2): i}), subst(e2, {BV(k2): i})
    r = _go(c1, c2, f, bud)
    if r.v != EQ:
        return r
    f2 = f.with_(c1)
    if is_splice(e1) != is_splice(e2):
        return Verdict(UNK, "nested collection")
    if is_splice(e1):
        return _go(e1.args[0], e2.args[0], f2, bud)
    return _go(e1, e2, f2, bud)


def _leaf_num(a, b, facts, bud):
    n1, d1 = ratform(a)
    n2, d2 = ratform(b)
    diff = _padd(_pmul(n1, d2), _pmul(n2, d1), -1)
    if not diff:
        return Verdict(EQ)
    dt = unP(diff)
    # entailed by the linear facts?
    e = eq_zero(dt)
    v = facts.decide(e)
    if v is True:
        return Verdict(EQ)
    # unify atoms by congruence
    ats = sorted({x for m in diff for x, _ in m}, key=lambda z: z.id)
    mp = {}
    unk = None
    for i, x in enumerate(ats):
        for y in ats[:i]:
            if y in mp:
                continue
            if x.op == y.op and x.op not in ("sym", "lv", "bv", "ix") and x.args and len(x.args) == len(y.args):
                r = _leaf_struct(x, y, facts, bud)
                if r.v == EQ:
                    mp[x] = y
                    break
                if r.v == UNK:
                    unk = r
    if mp:
        a2, b2 = subst(a, mp), subst(b, mp)
        if a2 is b2:
            return Verdict(EQ)
        if a2 is not a or b2 is not b:
            r = _leaf_num(a2, b2, facts, bud)
            return r
    if unk:
        return unk
    if (a.op, b.op) in _DIFFERENT and _all(a.args, b.args, facts, bud, True).v == EQ:
        return Verdict(NE, f"{show(a)} vs {show(b)}")
    w = _one_sided(a, b, ats)
    if w:
        return Verdict(UNK, w)
    return Verdict(NE, f"{show(a)} vs {show(b)}")


ALGEBRAIC = {"red", "sqrt", "abs", "mod", "fdiv", "pow", "first", "collect", "concat", "trunc", "argmin", "argmax"}


def _one_sided(a, b, ats):
    ia, ib = set(subterms(a)), set(subterms(b))
    ats = [x for x in ats if x.op in ALGEBRAIC]
    sa = [x for x in ats if x in ia and x not in ib]
    sb = [x for x in ats if x in ib and x not in ia]
    if not sa or not sb:
        return ""
    if {x.op for x in sa} != {x.op for x in sb}:
        return "differently formulated terms"
    if any(x.op == "red" and x.args[0] == "sum" for x in sa + sb) and (len(sa) > 1 or len(sb) > 1):
        return "sums may be regrouped"
    return ""


INDEXED = {"at", "attr"}


def _leaf_closure(a, b, facts, bud):
    """local functions: compared by their result for arbitrary arguments"""
    f = getattr(Ctx, "closures", None)
    r = f(a, b) if f is not None and a.op == b.op == "clo" else None
    if r is None:
        return Verdict(UNK, "local functions")
    r = _go(r[0], r[1], facts, bud)
    return r if r.v == EQ else Verdict(UNK, "local functions: " + r.why)


_DIFFERENT = {("argmin", "argmax"), ("argmax", "argmin"), ("fdiv", "mod"), ("mod", "fdiv")}


def is_input_like(t):
    return all(x.op in ("sym", "attr", "at", "num", "poly", "lv", "size", "dim") for x in subterms(t))


def slice_span(t):
    """first index and end of a slice of a list"""
    from .arrays import dim

    x, ix = t.args
    k = opt_strip(ty(x))
    if not (isinstance(k, tuple) and k[0] == "list" or k == "str") or len(ix) != 1 or ix[0].op != "slc" or ix[0].args[2] is not NONE:
        return None
    n = dim(x, 0)

    def pos(v):
        if v.op == "num":
            up = v.args[0] >= 0
            return ite(lt(n, v), n, v) if up else ite(lt(add(n, v), ZERO), ZERO, add(n, v))
        return ite(lt(v, ZERO), ite(lt(add(n, v), ZERO), ZERO, add(n, v)), ite(lt(n, v), n, v))

    lo, hi = ix[0].args[:2]
    if any(v is not NONE and ty(v) != "int" for v in (lo, hi)):
        return None
    lo = ZERO if lo is NONE else pos(lo)
    hi = n if hi is NONE else pos(hi)
    return ite(lt(lo, hi), mk("tuple", lo, hi), mk("tuple", ZERO, ZERO))


def by_text(a, b):
    """one iterates over the distinct values, the other over their distinct texts:
    values that differ only in type (1 and "1") are told apart by the first alone"""

    def body(t):
        for x in subterms(t):
            if x.op == "call" and x.args[0] == "setiter":
                c = x.args[1][0].args[0]
                if c.op == "collect":
                    return c.args[0], subst(c.args[2], {BV(c.args[3]): mk("hole")})

    x, y = body(a), body(b)
    if x is None or y is None or x[0] is not y[0]:
        return None
    for p, q in ((x[1], y[1]), (y[1], x[1])):
        if p.op == "call" and p.args[0] == "cast" and p.args[1] == (q, const("str")) or (
            p.op == "str" and len(p.args[0]) == 1 and p.args[0][0] is q
        ):
            if ty(q) != "str":
                r = Verdict(NE, "values told apart by their text: %s" % show(p))
                r.hard = True
                return r
    return None


def _leaf_cut(x, y, facts):
    """a list and its first elements: equal only while the list is short enough"""
    if not (y.op == "slice_of" and y.args[0] is x and len(y.args[1]) == 1 and y.args[1][0].op == "slc"):
        return None
    lo, hi, step = y.args[1][0].args
    if lo is not NONE or step is not NONE or hi is NONE or facts is None or facts.decide(lt(hi, ZERO)) is not False:
        return None
    c = lt(hi, mk("dim", x, 0))
    d = facts.decide(c)
    if d is False:
        return Verdict(EQ)
    f = facts.with_(c)
    if f.bad or f.infeasible() or f.neq_violated():
        return Verdict(EQ)
    return Verdict(NE, f"{show(x)} vs {show(y)}")


def _leaf_struct(a, b, facts, bud):
    if a.op == "clo" or b.op == "clo":
        return _leaf_closure(a, b, facts, bud)
    if a.op != b.op:
        if a.op == "partial" or b.op == "partial":
            return Verdict(UNK, "callables")
        if (a.op, b.op) in _DIFFERENT and _all(a.args, b.args, facts, bud, True).v == EQ:
            return Verdict(NE, f"{show(a)} vs {show(b)}")
        r = _leaf_cut(a, b, facts) or _leaf_cut(b, a, facts)
        if r is not None:
            return r
        if any(x.op in OPAQUE and not uninterpreted(x) for x in (a, b)):
            return Verdict(UNK, f"{show(a)} vs {show(b)}")
        if any(x.op == "stored" and isinstance(ty(x), tuple) for x in (a, b)):
            return Verdict(UNK, f"{show(a)} vs {show(b)}")
        for x, y in ((a, b), (b, a)):
            if x.op in COMPLEX and y.op not in _CONSTRUCTORS and y.op not in ("num", "true", "false", "none", "sym", "list", "tuple"):
                return Verdict(UNK, f"{show(a)} vs {show(b)}")
        return Verdict(NE, f"{show(a)} vs {show(b)}")
    if a.op == "red":
        if a.args[0] != b.args[0]:
            return Verdict(NE, f"{a.args[0]} vs {b.args[0]}")
        r = _go(a.args[1], b.args[1], facts, bud)
        if r.v != EQ:
            return r
        i = fresh_index()
        f = _bound_facts(facts, i, a.args[1])
        x = subst(a.args[2], {BV(a.args[3]): i})
        y = subst(b.args[2], {BV(b.args[3]): i})
        r = _go(x, y, f, bud)
        return r
    if a.op == "arr":
        from .arrays import arr_equal

        return arr_equal(a, b, facts, bud)
    if a.op == "fold" and len(a.args[3]) == len(b.args[3]):
        r = _all(a.args[:2], b.args[:2], facts, bud, True)
        if r.v == EQ:
            i = fresh_index()
            it = fold_vars(a.args[4])[0]
            mp = {it: i}
            mq = {fold_vars(b.args[4])[0]: i}
            for k, t in enumerate((a.args[1],) + tuple(x[0] for x in a.args[3])):
                s = mk("state", "~acc%d" % k, shape(t) or (), i)
                _ty_memo.pop(s, None)
                Ctx.types[s] = ty(t)
                mp[mk("hole", "acc", a.args[4], k)] = s
                mq[mk("hole", "acc", b.args[4], k)] = s
            f = _bound_facts(facts, i, a.args[0])
            for x in subterms(a.args[2]):
                # the element of an unordered collection in this iteration
                if x.op == "at" and x.args[1:] == (it,) and x.args[0].op == "call" and x.args[0].args[0] == "setiter":
                    z = fresh_index()
                    mp[x] = mq[subst(x, {it: fold_vars(b.args[4])[0]})] = z
                    Ctx.types.pop(z)
            r = _go(subst(a.args[2], mp), subst(b.args[2], mq), f, bud)
            for x, y in zip(a.args[3], b.args[3]):
                if r.v == EQ:
                    r = _all(x[:1], y[:1], facts, bud, True)
                if r.v == EQ:
                    r = _go(subst(x[1], mp), subst(y[1], mq), f, bud)
            if r.v == NE:
                r.hard = True  # the steps differ in some state
        elif r.v == NE and any(x.op == "call" and x.args[0] == "setiter" for x in list(subterms(a.args[0])) + list(subterms(b.args[0]))):
            r = by_text(a.args[0], b.args[0]) or Verdict(UNK, "collections iterated: " + r.why)
        return r
    if a.op == "stored" and isinstance(ty(a), tuple) and ty(a)[0] == "dict":
        r = _all(a.args[:2], b.args[:2], facts, bud, True)
        return _go(a.args[2], b.args[2], facts, bud) if r.v == EQ else Verdict(UNK, f"{show(a)} vs {show(b)}")
    if a.op == "call" and a.args[0] == b.args[0] == "range" and len(a.args[1]) == len(b.args[1]) == 1:
        return _go(a.args[1][0], b.args[1][0], facts, bud)
    if a.op == "slice_of" and a.args[1] != b.args[1]:
        r = _go(a.args[0], b.args[0], facts, bud)
        if r.v == EQ:
            x, y = slice_span(a), slice_span(b)
            if x is not None and y is not None:
                return _go(x, y, facts, bud)
        if r.v != EQ and not (is_input_like(a.args[0]) and is_input_like(b.args[0])):
            return Verdict(UNK, f"{show(a)} vs {show(b)}")
    if len(a.args) != len(b.args):
        return Verdict(NE if a.op not in OPAQUE else UNK, f"{show(a)} vs {show(b)}")
    if a.op in ("sym", "lv", "bv", "ix", "class", "func", "obj", "ref"):
        return Verdict(NE, f"{show(a)} vs {show(b)}")
    if a.op in OPAQUE:
        if a.op == "call" and a.args[0] != b.args[0] and not (uninterpreted(a) and uninterpreted(b)):
            return Verdict(UNK, f"{show(a)} vs {show(b)}")
        r = _all(a.args, b.args, facts, bud, True)
        return r
    return _all(a.args, b.args, facts, bud, True)


def implies(a, b, facts=None, budget=4000):
    """does a imply b?  EQ = yes, NE = refuted, UNK"""
    f = facts.copy() if facts is not None else Facts()
    return equal(or_(not_(a), b), TRUE, f, budget)


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------
def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return repr(t)
    if d > 14:
        return "..."
    op, a = t.op, t.args
    if op == "num":
        v = a[0]
        return str(v) if v.denominator == 1 else str(float(v))
    if op == "str":
        return "+".join(repr(x) if isinstance(x, str) else "str(%s)" % show(x, d + 1) for x in a[0]) or "''"
    if op == "sym":
        return a[0]
    if op == "true":
        return "True"
    if op == "false":
        return "False"
    if op == "none":
        return "None"
    if op == "attr":
        e = "'" * a[2] if len(a) > 2 and isinstance(a[2], int) and a[2] < 6 else ""
        return show(a[0], d + 1) + "." + a[1] + e
    if op == "at":
        return show(a[0], d + 1) + "[" + ", ".join(show(x, d + 1) for x in a[1:]) + "]"
    if op == "poly":
        s = []
        for m, c in a[0]:
            fs = [show(x, d + 1) + ("^%d" % e if e != 1 else "") for x, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c) if c.denominator == 1 else str(float(c)))
            s.append("*".join(fs))
        return "(" + " + ".join(s) + ")"
    if op == "lt0":
        return show(a[0], d + 1) + " < 0"
    if op == "eq0":
        return show(a[0], d + 1) + " == 0"
    if op == "eq":
        return "(%s == %s)" % (show(a[0], d + 1), show(a[1], d + 1))
    if op == "not":
        return "not(" + show(a[0], d + 1) + ")"
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(show(x, d + 1) for x in a) + ")"
    if op == "ite":
        return "(%s if %s else %s)" % (show(a[1], d + 1), show(a[0], d + 1), show(a[2], d + 1))
    if op == "dim":
        return "dim%s(%s)" % (a[1], show(a[0], d + 1))
    if op in ("bv", "ix", "lv"):
        return "%s%s" % (op, a[0])
    if op in ("list", "tuple"):
        return ("[%s]" if op == "list" else "(%s)") % ", ".join(show(x, d + 1) for x in a)
    if op == "obj":
        return "new %s#%s" % (a[1], a[0])
    if op in ("class", "func"):
        return a[0]
    return "%s(%s)" % (op, ", ".join(show(x, d + 1) for x in a))

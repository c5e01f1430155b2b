"""Index calculus: arrays as functions from index variables to scalar terms."""
import itertools

from .terms import *
from . import terms as T

HOLE = mk("hole")
Ctx_int = {HOLE: "int"}


# --------------------------------------------------------------------------
# binders
# --------------------------------------------------------------------------
def mkred(op, n, body, k):
    """reduction of body[BV(k)] over 0 <= BV(k) < n; the binder is renamed to the
    identity of the body, so that alpha-equivalent reductions are one term"""
    T.Ctx.types.setdefault(HOLE, "int")
    if k is not None and contains(body, HOLE):
        # inside the construction of an enclosing binder, whose variable HOLE is;
        # normalised when that one is closed
        j = T.binder_name(n, body, free=BV(k))
        if j != k:
            body = subst(body, {BV(k): BV(j)})
        return mk("red", op, n, body, j)
    h = subst(body, {BV(k): HOLE}) if k is not None else body
    if not contains(h, HOLE):
        if op in ("any", "min", "max"):
            # n > 0 is checked by callers where it matters; any over a constant body
            if op == "any":
                return and_(lt(ZERO, n), h)
            return h
        if op == "sum":
            return mul(n, h)
    if op == "any" and _of_set(n, h):
        return TRUE
    if op in ("any", "sum"):
        sp = range_split(n, (h,))
        if sp is not None:
            m, lo, hi = sp
            return combine(op, [mkred(op, m, lo[0], None), mkred(op, T.sub(n, m), hi[0], None)])
    if n.op == "num" and 0 < n.args[0] <= 8:
        vals = [subst(h, {HOLE: num(i)}) for i in range(int(n.args[0]))]
        return combine(op, vals)
    if op == "sum":
        # pull constant factors and split sums
        if h.op == "poly":
            outs = []
            groups = {}
            for m, c in h.args[0]:
                inn = tuple((a, e) for a, e in m if contains(a, HOLE))
                outm = tuple((a, e) for a, e in m if not contains(a, HOLE))
                groups.setdefault(outm, {})[inn] = c
            if len(groups) > 1 or () not in groups:
                for outm, inn in groups.items():
                    outs.append(mul(unP({outm: 1}), mkred("sum", n, unP(inn), None)))
                r = outs[0]
                for o in outs[1:]:
                    r = add(r, o)
                return r
            lead = h.args[0][0][1]
            if lead != 1:
                return mul(num(lead), mkred("sum", n, unP({m: c / lead for m, c in h.args[0]}), None))
    k = T.binder_name(n, h)
    return mk("red", op, n, subst(h, {HOLE: BV(k)}), k)


def _of_set(n, h):
    """exists i < n with e(i) == x, where x is drawn from the set of the e(i)"""
    if h.op != "eq":
        return False
    for x, e in (h.args, h.args[::-1]):
        if x.op == "at" and x.args[0].op == "call" and x.args[0].args[0] == "setiter":
            c = x.args[0].args[1][0].args[0]
            if c.op == "collect" and c.args[0] is n and c.args[1] is TRUE and subst(c.args[2], {BV(c.args[3]): HOLE}) is e:
                return True
    return False


def combine(op, vals):
    r = vals[0]
    for v in vals[1:]:
        if op == "sum":
            r = add(r, v)
        elif op == "prod":
            r = mul(r, v)
        elif op == "any":
            r = or_(r, v)
        elif op == "min":
            r = min2(r, v)
        elif op == "max":
            r = max2(r, v)
    return r


def shielded(f, *ts):
    """f(*ts), where HOLE occurs in ts as the variable of an enclosing construction"""
    z = fresh_index()
    return subst(f(*[subst(t, {HOLE: z}) for t in ts]), {z: HOLE})


def close_red(op, n, body, sym):
    if contains(body, HOLE) and sym is not HOLE:
        return shielded(lambda n, b: close_red(op, n, b, sym), n, body)
    return mkred(op, n, subst(body, {sym: HOLE}), None)


def range_split(n, ts):
    """(m, parts of ts below m, parts of ts from m on, counted from 0) when the
    terms ts (over HOLE in 0..n) treat the indices below m differently, as an
    element of the concatenation of two lists does"""
    if n.op != "poly":
        return None
    for t in ts:
        if not has_op(t, "lt0"):
            continue
        for x in subterms(t):
            if x.op != "lt0" or not contains(x, HOLE):
                continue
            m = T.sub(HOLE, x.args[0])
            if contains(m, HOLE) or m.op == "num":
                continue
            rest = T.sub(n, m)
            if not T._nonneg(m) or not T._nonneg(rest) or rest.op == "num" and rest.args[0] == 0:
                continue
            lo = [T.simplify(y, T.Facts().assume(not_(lt(HOLE, ZERO))).assume(lt(HOLE, m))) for y in ts]
            hi = [T.simplify(subst(y, {HOLE: add(HOLE, m)}), T.Facts().assume(not_(lt(HOLE, ZERO)))) for y in ts]
            if any(contains(y, x) for y in lo):
                continue
            return m, lo, hi
    return None


def mkcollect(n, cond, body, k):
    T.Ctx.types.setdefault(HOLE, "int")
    if k is not None and (contains(cond, HOLE) or contains(body, HOLE)):
        j = T.binder_name(n, cond, body, free=BV(k))
        if j != k:
            m = {BV(k): BV(j)}
            cond, body = subst(cond, m), subst(body, m)
        return mk("collect", n, cond, body, j)
    if k is not None:
        cond, body = subst(cond, {BV(k): HOLE}), subst(body, {BV(k): HOLE})
    if cond is FALSE:
        return mk("list")
    sp = range_split(n, (cond, body))
    if sp is not None:
        m, lo, hi = sp
        return concat(mkcollect(m, lo[0], lo[1], None), mkcollect(T.sub(n, m), hi[0], hi[1], None))
    if body.op == "splice":
        b = body.args[0]
        if b.op == "list" and len(b.args) == 1:
            body = b.args[0]
        elif b.op == "list" and not b.args:
            return mk("list")
    if n.op == "num" and n.args[0] <= 8 and cond is TRUE:
        vs = [subst(body, {HOLE: num(i)}) for i in range(int(n.args[0]))]
        if body.op != "splice":
            return mk("list", *vs)
        return concat(*[v.args[0] for v in vs])
    if cond is TRUE and body.op == "at" and len(body.args) == 2 and body.args[1] is HOLE and not contains(
        body.args[0], HOLE
    ) and n is dim(body.args[0], 0):
        # [x for x in L] has the content of L
        if body.args[0].op != "arr" and shape(body.args[0]) is None:
            return body.args[0]
    if cond is TRUE and body.op != "splice" and not contains(body, HOLE):
        return mk("rep", body, n)
    k = T.binder_name(n, cond, body)
    m = {HOLE: BV(k)}
    return mk("collect", n, subst(cond, m), subst(body, m), k)


def close_collect(n, cond, body, sym):
    if sym is not HOLE and (contains(cond, HOLE) or contains(body, HOLE)):
        return shielded(lambda n, c, b: close_collect(n, c, b, sym), n, cond, body)
    m = {sym: HOLE}
    T.Ctx.types.setdefault(HOLE, "int")
    return mkcollect(n, subst(cond, m), subst(body, m), None)


# --------------------------------------------------------------------------
# sizes, element access
# --------------------------------------------------------------------------
def dim(t, k):
    if t.op == "ref" or t.op == "view":
        raise AssertionError("deref first")
    sh = shape(t)
    if sh is not None:
        if k < 0:
            k += len(sh)
        if k < len(sh):
            return sh[k]
    if k == 0:
        if t.op in ("list", "tuple"):
            return num(len(t.args))
        if t.op == "collect" and t.args[1] is TRUE and t.args[2].op != "splice":
            return t.args[0]
        if t.op == "rep":
            return t.args[1]
        if t.op == "concat":
            r = ZERO
            for p in t.args:
                r = add(r, dim(p, 0))
            return r
        if t.op == "ite":
            return ite(t.args[0], dim(t.args[1], 0), dim(t.args[2], 0))
        if t.op == "str" and is_str_const(t):
            return num(len(str_value(t)))
        if t.op == "str" and len(t.args[0]) > 1:
            r = ZERO
            for p in t.args[0]:
                r = add(r, num(len(p)) if isinstance(p, str) else mk("dim", mk("str", (p,)), 0))
            return r
        if t.op == "dict":
            return num(len(t.args))
        if t.op == "ret" and t.args[0] in T.SAME_LENGTH:
            t = mk("ret", T.SAME_LENGTH[t.args[0]], *t.args[1:])
    return mk("dim", t, k)


def is_mapping(t):
    k = opt_strip(ty(t))
    return isinstance(k, tuple) and k[0] == "dict"


def put(A, k, v):
    """the mapping A with v under k"""
    r = mk("stored", without(A, k), (k,), v)
    if ty(A) is not None:
        T.Ctx.types.setdefault(r, ty(A))
    return r


def without(A, k):
    """A, or what it was before it was changed at k"""
    while A.op == "stored" and T.eq(A.args[1][0], k) is TRUE:
        A = A.args[0]
    if A.op == "ite":
        x, y = without(A.args[1], k), without(A.args[2], k)
        return x if x is y else ite(A.args[0], x, y)
    return A


def at(A, *idx):
    if not idx:
        return A
    if A.op == "arr":
        n = len(A.args[0])
        if len(idx) >= n:
            r = subst(A.args[1], {IX(i): idx[i] for i in range(n)})
            return at(r, *idx[n:]) if len(idx) > n else r
        return index(A, list(idx))
    if A.op == "ite":
        return ite(A.args[0], at(A.args[1], *idx), at(A.args[2], *idx))
    i = idx[0]
    if A.op in ("list", "tuple") and i.op == "num" and i.args[0].denominator == 1:
        k = int(i.args[0])
        if -len(A.args) <= k < len(A.args):
            r = A.args[k]
            return at(r, *idx[1:])
    if A.op == "collect" and A.args[1] is TRUE and A.args[2].op != "splice" and _nn(i):
        r = subst(A.args[2], {BV(A.args[3]): i})
        return at(r, *idx[1:])
    if A.op == "collect" and i is ZERO and A.args[2].op != "splice":
        return at(subst(A.args[2], {BV(A.args[3]): mk("first", A.args[0], A.args[1], A.args[3])}), *idx[1:])
    if A.op == "rep" and _nn(i):
        return at(A.args[0], *idx[1:])
    if A.op == "slice_of" and i.op == "num" and len(A.args[1]) == 1 and A.args[1][0].op == "slc" and i.args[0] >= 0:
        # the k-th item of x[lo:hi], lo + k < hi
        lo, hi, step = A.args[1][0].args
        lo = ZERO if lo is NONE else lo
        if step is NONE and lo.op == hi.op == "num" and lo.args[0] >= 0 and lo.args[0] + i.args[0] < hi.args[0]:
            return at(A.args[0], add(lo, i), *idx[1:])
    if A.op == "concat" and i.op == "num" and i.args[0] >= 0 and A.args[0].op == "list":
        k = int(i.args[0])
        if k < len(A.args[0].args):
            return at(A.args[0].args[k], *idx[1:])
    if A.op == "concat" and i.op == "num" and i.args[0] < 0 and A.args[-1].op == "list":
        k = int(-i.args[0])
        if k <= len(A.args[-1].args):
            return at(A.args[-1].args[-k], *idx[1:])
    if A.op == "dict" and i.op == "str":
        for k, v in A.args:
            if k is i:
                return at(v, *idx[1:])
    if A.op == "stored" and len(idx) == 1 and is_mapping(A):
        return ite(T.eq(A.args[1][0], i), A.args[2], at(A.args[0], i))
    if A.op == "at":
        sh = None
        # merge M[i][j] into M[i, j] for arrays
        sh = shape(A.args[0])
        if sh is not None and len(sh) >= len(A.args) - 1 + len(idx):
            return mk("at", *(A.args + tuple(idx)))
    if i.op == "num" and i.args[0] < 0 and opt_strip(ty(A)) != "str":
        sh = shape(A)
        if sh is not None or _islist(A):
            return at(A, add(dim(A, 0), i), *idx[1:])
    sh = shape(A)
    if sh is not None and len(idx) < len(sh):
        return index(A, list(idx))
    if sh is None and len(idx) > 1 and _islist(A):
        return at(mk("at", A, i), *idx[1:])
    return mk("at", A, *idx)


def _islist(A):
    k = opt_strip(ty(A))
    return isinstance(k, tuple) and k[0] == "list" or k == "list"


def _nn(i):
    """index known to be non-negative"""
    if i.op == "num":
        return i.args[0] >= 0
    if i.op == "poly":
        return all(c >= 0 for m, c in i.args[0])
    return i.op in ("lv", "bv", "ix", "sym", "at", "hole", "dim")


def is_arr(t):
    return shape(t) is not None


def rank(t):
    sh = shape(t)
    return None if sh is None else len(sh)


def elem(t, ixs):
    """element of t at the given index terms (rank must match)"""
    if t.op == "arr":
        return subst(t.args[1], {IX(i): ixs[i] for i in range(len(ixs))})
    if t.op == "ite":
        return ite(t.args[0], elem(t.args[1], ixs), elem(t.args[2], ixs))
    if len(ixs) == 1 and ixs[0].op in ("argmin", "argmax") and ixs[0].args[0] is t and rank(t) == 1:
        # the element at the position of the extreme
        i = fresh_index()
        return close_red(ixs[0].op[3:], dim(t, 0), at(t, i), i)
    return at(t, *ixs)


_range_memo = {}


def range_facts(sizes):
    f = _range_memo.get(sizes)
    if f is None:
        f = Facts()
        for k, n in enumerate(sizes):
            f.assume(lt(IX(k), n))
        _range_memo[sizes] = f
    return f


def mkarr(sizes, e):
    sizes = tuple(sizes)
    if any(x.op in ("ite", "fdiv", "mod", "lt0", "eq0", "not", "and", "or") for x in subterms(e)):
        e = simplify(e, range_facts(sizes))
    # axes of size one have index zero
    z = {IX(k): ZERO for k, n in enumerate(sizes) if n is ONE}
    if z and any(contains(e, x) for x in z):
        e = subst(e, z)
    # eta
    if e.op == "at" and len(e.args) == len(sizes) + 1:
        ok = all(e.args[1 + k] is IX(k) or (sizes[k] is ONE and e.args[1 + k] is ZERO) for k in range(len(sizes)))
        if ok and not free_binders(e.args[0]) and shape(e.args[0]) == sizes:
            return e.args[0]
    return mk("arr", sizes, e)


def as_arr(t):
    if t.op == "arr":
        return t
    sh = shape(t)
    if sh is None:
        return None
    return mk("arr", sh, elem(t, [IX(k) for k in range(len(sh))]))


def build(sizes, f):
    return mkarr(sizes, f(*[IX(k) for k in range(len(sizes))]))


# --------------------------------------------------------------------------
# elementwise
# --------------------------------------------------------------------------
def bshape(*ts):
    r = []
    for t in ts:
        sh = shape(t)
        if sh is None:
            continue
        sh = list(sh)
        while len(r) < len(sh):
            r.insert(0, ONE)
        off = len(r) - len(sh)
        for i, s in enumerate(sh):
            if r[off + i] is ONE:
                r[off + i] = s
    return tuple(r)


def ew(f, *ts):
    if not any(is_arr(t) for t in ts):
        return f(*ts)
    ts = [np_array(t) if t.op in ("list", "tuple") and not is_arr(t) else t for t in ts]
    sh = bshape(*ts)
    n = len(sh)
    args = []
    for t in ts:
        st = shape(t)
        if st is None:
            args.append(t)
            continue
        off = n - len(st)
        args.append(elem(t, [ZERO if st[i] is ONE and sh[off + i] is not ONE else IX(off + i) for i in range(len(st))]))
    return mkarr(sh, f(*args))


def np_array(t):
    """array from nested sequences"""
    if is_arr(t):
        return t
    if t.op in ("list", "tuple"):
        items = [np_array(x) if x.op in ("list", "tuple", "collect", "rep", "concat") else x for x in t.args]
        if not items:
            return mk("arr", (ZERO,), mk("undef"))
        sub = [shape(x) for x in items]
        n = num(len(items))
        if all(s is None for s in sub):
            e = items[-1]
            for i in range(len(items) - 2, -1, -1):
                e = ite(eq(IX(0), num(i)), items[i], e)
            return mkarr((n,), e)
        if all(s is not None and len(s) == len(sub[0]) for s in sub):
            r = len(sub[0])
            es = [elem(x, [IX(k + 1) for k in range(r)]) for x in items]
            e = es[-1]
            for i in range(len(items) - 2, -1, -1):
                e = ite(eq(IX(0), num(i)), es[i], e)
            return mkarr((n,) + sub[0], e)
        return mk("call", "numpy.array", (t,), ())
    if t.op == "rep":
        x = np_array(t.args[0]) if t.args[0].op in ("list", "tuple", "rep", "collect") else t.args[0]
        sh = shape(x)
        if sh is None:
            return mkarr((t.args[1],), x)
        return mkarr((t.args[1],) + sh, elem(x, [IX(k + 1) for k in range(len(sh))]))
    if t.op == "collect" and t.args[1] is TRUE and t.args[2].op != "splice":
        hole = mk("hole", "np", t.args[3])  # distinct from those of nested comprehensions
        body = subst(t.args[2], {BV(t.args[3]): hole})
        x = np_array(body) if body.op in ("list", "tuple", "rep", "collect") else body
        sh = shape(x)
        if sh is None:
            return mkarr((t.args[0],), subst(x, {hole: IX(0)}))
        e = elem(x, [IX(k + 1) for k in range(len(sh))])
        return mkarr((t.args[0],) + tuple(subst(s, {hole: IX(0)}) for s in sh), subst(e, {hole: IX(0)}))
    if t.op == "concat":
        ps = [np_array(x) if x.op in ("list", "tuple", "rep", "collect") else x for x in t.args]
        if all(is_arr(x) and rank(x) == rank(ps[0]) for x in ps):
            r = concatenate(ps, 0)
            if r is not None and is_arr(r):
                return r
    if t.op == "ite":
        a, b = np_array(t.args[1]), np_array(t.args[2])
        return ite(t.args[0], a, b)
    if ty(t) == "arr" or scalar_type(ty(t)):
        return t
    if _islist(t):
        return mk("call", "numpy.array", (t,), ())
    return t


# --------------------------------------------------------------------------
# indexing
# --------------------------------------------------------------------------
class Sl:
    """slice lo:hi of an axis (None = open)"""

    def __init__(self, lo=None, hi=None, step=None):
        self.lo, self.hi, self.step = lo, hi, step


NEWAXIS = "newaxis"
ELL = "ellipsis"


def _bounds(s, n):
    lo = s.lo if s.lo is not None else ZERO
    hi = s.hi if s.hi is not None else n
    if lo.op == "num" and lo.args[0] < 0:
        lo = add(n, lo)
    if hi.op == "num" and hi.args[0] < 0:
        hi = add(n, hi)
    if hi.op == "num" and n.op == "num" and hi.args[0] > n.args[0]:
        hi = n
    if hi.op == "poly" and hi is not n:
        # -k form of a negative symbolic bound
        p = dict(hi.args[0])
        if len(p) == 1:
            (m, c), = p.items()
            if c < 0:
                hi = add(n, hi)
    if lo.op == "poly":
        p = dict(lo.args[0])
        if len(p) == 1:
            (m, c), = p.items()
            if c < 0:
                lo = add(n, lo)
    return lo, hi


def expand_idx(A, idx):
    """replace Ellipsis / pad with full slices; returns None if rank unknown"""
    sh = shape(A)
    if sh is None:
        return None
    need = len(sh)
    used = 0
    for i in idx:
        if i is NEWAXIS or i is ELL:
            continue
        if isinstance(i, Term) and is_arr(i) and arr_is_bool(i):
            used += rank(i)
        else:
            used += 1
    out = []
    done = False
    for i in idx:
        if i is ELL:
            out.extend([Sl()] * (need - used))
            done = True
        else:
            out.append(i)
    if not done:
        out.extend([Sl()] * (need - used))
    return out if used <= need else None


def arr_is_bool(t):
    if t.op == "arr":
        return ty(t.args[1]) == "bool"
    if t.op == "attr" and t.args[1] in T.Ctx.bool_arrays:
        return True
    return T.Ctx.types.get(mk("elemtype", t)) == "bool"


def index(A, idx):
    """A[idx...]; returns a term (possibly opaque)"""
    full = expand_idx(A, idx)
    if full is None:
        if all(isinstance(i, Term) for i in idx):
            return at_raw(A, idx)
        return mk("slice_of", A, tuple(_idx_term(i) for i in idx))
    sh = shape(A)
    # a boolean mask
    masks = [i for i in full if isinstance(i, Term) and is_arr(i) and arr_is_bool(i)]
    if len(masks) == 1 and rank(masks[0]) == 1 and not any(isinstance(i, Term) and is_arr(i) and i is not masks[0] for i in full):
        r = index(A, [positions(i) if i is masks[0] else i for i in idx])
        if is_arr(r):
            return r
    if masks:
        return mk("sel", A, tuple(_idx_term(i) for i in full))
    adv = [k for k, i in enumerate(full) if isinstance(i, Term) and is_arr(i)]
    if len(adv) > 1 or (adv and any(isinstance(i, Term) and not is_arr(i) for i in full)):
        return mk("sel", A, tuple(_idx_term(i) for i in full))
    osh, sub = [], []
    ax = 0
    for i in full:
        if i is NEWAXIS:
            osh.append(ONE)
            continue
        n = sh[ax]
        ax += 1
        if isinstance(i, Sl):
            if i.step is not None:
                if i.step.op == "num" and i.step.args[0] == -1 and i.lo is None and i.hi is None:
                    k = len(osh)
                    osh.append(n)
                    sub.append(sub_(sub_(n, ONE), IX(k)))
                    continue
                return mk("slice_of", A, tuple(_idx_term(i) for i in idx))
            lo, hi = _bounds(i, n)
            k = len(osh)
            osh.append(sub_(hi, lo))
            sub.append(add(lo, IX(k)))
        elif is_arr(i):
            r = rank(i)
            k = len(osh)
            osh.extend(shape(i))
            sub.append(elem(i, [IX(k + j) for j in range(r)]))
        else:
            if i.op == "num" and i.args[0] < 0:
                i = add(n, i)
            sub.append(i)
    if not osh:
        return elem(A, sub)
    return mkarr(osh, elem(A, sub))


def position_list(m):
    """the list of the indices where the one-dimensional mask m is true"""
    k = fresh_index()
    return close_collect(dim(m, 0), elem(m, [k]), k, k)


def positions(m):
    """indices where the one-dimensional mask m is true, as an array"""
    L = position_list(m)
    n = dim(m, 0)
    if L.op == "list" and not L.args:
        return mkarr((ZERO,), ZERO)
    j = fresh_index()
    count = close_red("sum", n, ite(elem(m, [j]), ONE, ZERO), j)
    e = at(L, IX(0))
    if ty(e) is None:
        T.Ctx.types[e] = "int"
    return mkarr((count,), e)


def sub_(a, b):
    return T.sub(a, b)


def at_raw(A, idx):
    return at(A, *idx)


def _idx_term(i):
    if isinstance(i, Sl):
        return mk("slc", i.lo or NONE, i.hi or NONE, i.step or NONE)
    if i is NEWAXIS:
        return mk("newaxis")
    if i is ELL:
        return mk("ellipsis")
    return i


def store(A, idx, v):
    """content of A after A[idx] = v (functional update)"""
    if v.op in ("list", "tuple", "collect", "rep"):
        v = np_array(v)
    sh = shape(A)
    if sh is None and is_mapping(A) and len(idx) == 1:
        return put(A, idx[0], v)
    if sh is None:
        if len(idx) == 1 and isinstance(idx[0], Term) and A.op in ("list", "dict"):
            i = idx[0]
            if A.op == "list" and i.op == "num":
                k = int(i.args[0])
                xs = list(A.args)
                if -len(xs) <= k < len(xs):
                    xs[k] = v
                    return mk("list", *xs)
            if A.op == "dict" and i.op == "str":
                return mk("dict", *([(k, w) for k, w in A.args if k is not i] + [(i, v)]))
        # x[x op c] = v on an array of unknown rank: pointwise
        if len(idx) == 1 and isinstance(idx[0], Term) and ty(idx[0]) == "bool" and not is_arr(v):
            return ite(idx[0], v, A)
        return mk("stored", A, tuple(_idx_term(i) for i in idx), v)
    full = expand_idx(A, idx)
    if full is None:
        return mk("stored", A, tuple(_idx_term(i) for i in idx), v)
    n = len(sh)
    masks = [i for i in full if isinstance(i, Term) and is_arr(i) and arr_is_bool(i)]
    # np.ix_(m1, m2)
    cond = TRUE
    vix = []  # index terms into v's axes
    ax = 0
    mask_term = None
    for i in full:
        if i is NEWAXIS:
            vix.append((ONE, ZERO))
            continue
        if isinstance(i, Sl):
            if i.step is not None:
                return mk("stored", A, tuple(_idx_term(i) for i in idx), v)
            lo, hi = _bounds(i, sh[ax])
            if lo is not ZERO:
                cond = and_(cond, not_(lt(IX(ax), lo)))
            if hi is not sh[ax]:
                cond = and_(cond, lt(IX(ax), hi))
            vix.append((sub_(hi, lo), sub_(IX(ax), lo)))
            ax += 1
        elif is_arr(i) and arr_is_bool(i):
            r = rank(i)
            m = elem(i, [IX(ax + j) for j in range(r)])
            cond = and_(cond, m)
            mask_term = i
            vix.append(("mask", [IX(ax + j) for j in range(r)]))
            ax += r
        elif is_arr(i):
            m = _picked(i, IX(ax), sh[ax]) if shape(v) is None else None
            if m is None:
                return mk("stored", A, tuple(_idx_term(i) for i in idx), v)
            cond = and_(cond, m)
            vix.append((ONE, ZERO))
            ax += 1
        else:
            if i.op == "num" and i.args[0] < 0:
                i = add(sh[ax], i)
            cond = and_(cond, eq(IX(ax), i))
            ax += 1
    vs = shape(v)
    sels = [x for x in T.subterms(v) if x.op == "sel"] if mask_term is not None and vs is None else []
    if sels:
        # an expression over Y[mask] with the same mask
        want = tuple(_idx_term(i) for i in full)
        ixs = [IX(k) for k in range(n)]
        mp = {}
        for q in sels:
            src, six = q.args
            ss = shape(src)
            if ss is not None and len(ss) == n and len(six) == len(want) and all(
                x is y or (x.op == "slc" and y.op == "slc") for x, y in zip(six, want)
            ):
                mp[q] = elem(src, [ZERO if ss[k] is ONE and sh[k] is not ONE else ixs[k] for k in range(n)])
        if len(mp) == len(sels):
            ve = T.subst(v, mp)
            return mkarr(sh, ite(cond, ve, elem(A, ixs)))
        return mk("stored", A, tuple(_idx_term(i) for i in idx), v)
    if vs is None:
        if v.op in ("sel", "call", "slice_of", "stored") and not scalar_type(ty(v)):
            return mk("stored", A, tuple(_idx_term(i) for i in idx), v)
        ve = v
    else:
        if mask_term is not None:
            r = _store_selected(A, full, sh, vs, v, cond, mask_term)
            return r if r is not None else mk("stored", A, tuple(_idx_term(i) for i in idx), v)
        ixs = []
        k = len(vix) - len(vs)
        if k < 0:
            vv = list(vs)
            lead = [ZERO] * (-k) if all(s is ONE for s in vv[: -k]) else None
            if lead is None:
                return mk("stored", A, tuple(_idx_term(i) for i in idx), v)
            ixs = lead
            vs2 = vv[-k:]
            k = 0
        else:
            vs2 = list(vs)
        for s, (size, ix) in zip(vs2, vix[k:]):
            ixs.append(ZERO if s is ONE else ix)
        ve = elem(v, ixs)
    return mkarr(sh, ite(cond, ve, elem(A, [IX(k) for k in range(n)])))


def _picked(i, j, n):
    """i: the positions where a mask holds, shifted by a size; is j one of them"""
    e = elem(i, [IX(0)]) if rank(i) == 1 else None
    ats = [t for t in T.subterms(e) if t.op == "at" and len(t.args) == 2 and t.args[1] is IX(0)] if e is not None else []
    if len(ats) != 1 or ats[0].args[0].op != "collect":
        return None
    L, c = ats[0].args[0], T.sub(e, ats[0])
    if contains(c, IX(0)) or not _a_size(c) or L.args[2] is not T.BV(L.args[3]):
        return None
    return and_(not_(lt(j, c)), lt(j, add(c, L.args[0])), T.subst(L.args[1], {L.args[2]: T.sub(j, c)}))


def mask_of_positions(i):
    """the mask whose positions the index array i holds, or i if it is a mask"""
    if not is_arr(i) or rank(i) != 1:
        return None
    if arr_is_bool(i):
        return i
    e = elem(i, [IX(0)])
    if e.op != "at" or len(e.args) != 2 or e.args[1] is not IX(0) or e.args[0].op != "collect":
        return None
    n, cond, body, k = e.args[0].args
    return mkarr((n,), T.subst(cond, {body: IX(0)})) if body is T.BV(k) else None


def _a_size(t):
    if t.op == "num":
        return t.args[0] >= 0 and t.args[0].denominator == 1
    atom = lambda a: a.op in ("dim", "size") or a.op == "attr" and a.args[1] in T.Ctx.size_attrs
    return atom(t) or t.op == "poly" and all(c > 0 and all(atom(a) for a, _ in m) for m, c in t.args[0])


def _store_selected(A, full, sh, vs, v, cond, mask):
    """A[mask, ...] = v with v computed from other arrays at the same mask"""
    if rank(mask) != 1 or any(i is NEWAXIS or isinstance(i, Term) and i is not mask for i in full):
        return None
    if len(vs) != len(sh) or any(isinstance(i, Sl) and (i.lo is not None or i.hi is not None) for i in full):
        return None
    ax = [k for k, i in enumerate(full) if i is mask][0]
    p = mk("sym", "selected#")
    T.Ctx.types.setdefault(p, "int")
    e = elem(v, [p if k == ax else ZERO if vs[k] is ONE and sh[k] is not ONE else IX(k) for k in range(len(sh))])
    L = position_list(mask)
    e = T.subst(e, {mk("at", L, p): IX(ax)})
    if contains(e, p):
        return None
    return mkarr(sh, ite(cond, e, elem(A, [IX(k) for k in range(len(sh))])))


# --------------------------------------------------------------------------
# reshaping
# --------------------------------------------------------------------------
def prod_sizes(sh):
    r = ONE
    for s in sh:
        r = mul(r, s)
    return r


def flatten(A):
    A0 = as_arr(A)
    if A0 is None:
        return mk("call", "flatten", (A,), ())
    sh = A0.args[0]
    if len(sh) == 1:
        return A
    return reshape(A0, [prod_sizes(sh)])


def reshape(A, new):
    A0 = as_arr(A)
    if A0 is None:
        return mk("call", "reshape", (A,) + tuple(new), ())
    sh = A0.args[0]
    total = prod_sizes(sh)
    new = list(new)
    unk = [k for k, s in enumerate(new) if s.op == "num" and s.args[0] == -1]
    if unk:
        known = ONE
        for k, s in enumerate(new):
            if k not in unk:
                known = mul(known, s)
        new[unk[0]] = exact_div(total, known)
    # linear index of the new position
    lin = ZERO
    for k, s in enumerate(new):
        lin = add(mul(lin, s), IX(k))
    f = range_facts(tuple(new))
    ixs = [None] * len(sh)
    rest = lin
    # non-trivial axes of the source
    for k in range(len(sh) - 1, -1, -1):
        s = sh[k]
        if s is ONE:
            ixs[k] = ZERO
            continue
        if all(x is ONE for x in sh[:k]):
            ixs[k] = rest
            rest = ZERO
            continue
        ixs[k] = mod(rest, s, f)
        rest = fdiv(rest, s, f)
    return mkarr(new, elem(A0, ixs))


def exact_div(a, b):
    if b is ONE:
        return a
    r = div(a, b)
    if r.op == "poly" or r.op == "num" or r.op in ("dim", "attr", "sym"):
        p = P(r)
        if all(e > 0 for m in p for _, e in m):
            return r
    return fdiv(a, b)


def transpose(A):
    A0 = as_arr(A)
    if A0 is None:
        return mk("call", "transpose", (A,), ())
    sh = A0.args[0]
    n = len(sh)
    if n < 2:
        return A
    return mkarr(tuple(reversed(sh)), elem(A0, [IX(n - 1 - k) for k in range(n)]))


def concatenate(parts, axis):
    parts = [np_array(p) if not is_arr(p) else p for p in parts]
    if any(not is_arr(p) for p in parts):
        return None
    r = rank(parts[0])
    if any(rank(p) != r for p in parts):
        return None
    if axis < 0:
        axis += r
    if len(parts) == 1:
        return parts[0]
    total = ZERO
    offs = []
    for p in parts:
        offs.append(total)
        total = add(total, shape(p)[axis])
    sh = list(shape(parts[0]))
    sh[axis] = total
    e = None
    for p, off in reversed(list(zip(parts, offs))):
        ixs = [IX(k) for k in range(r)]
        ixs[axis] = sub_(IX(axis), off)
        pe = elem(p, ixs)
        e = pe if e is None else ite(lt(IX(axis), add(off, shape(p)[axis])), pe, e)
    return mkarr(sh, e)


def stack(parts, axis=0):
    parts = [np_array(p) if not is_arr(p) else p for p in parts]
    if axis != 0:
        return None
    return np_array(mk("list", *parts))


def reduce_(op, A, axis=None):
    """sum / prod / any / all / min / max over one axis or all"""
    A0 = as_arr(A)
    if A0 is None:
        return None
    sh, e = A0.args
    n = len(sh)
    if op == "all":
        r = reduce_("any", ew(not_, A0), axis)
        return None if r is None else not_(r)
    if axis is None:
        r = e
        sizes = list(sh)
        for k in range(n - 1, -1, -1):
            s = fresh_index()
            r = close_red(op, sizes[k], subst(r, {IX(k): s}), s)
        return r
    if axis < 0:
        axis += n
    s = fresh_index()
    body = subst(e, {IX(axis): s, **{IX(k): IX(k - 1) for k in range(axis + 1, n)}})
    r = close_red(op, sh[axis], body, s)
    rest = sh[:axis] + sh[axis + 1 :]
    if not rest:
        return r
    return mkarr(rest, r)


def mean_(A, axis=None):
    s = reduce_("sum", A, axis)
    if s is None:
        return None
    sh = shape(A)
    n = prod_sizes(sh) if axis is None else sh[axis]
    return div(s, n)


def matmul(A, B):
    a, b = as_arr(A), as_arr(B)
    if a is None or b is None or rank(a) != 2 or rank(b) not in (1, 2):
        return None
    s = fresh_index()
    n = shape(a)[1]
    if n.op != "num" and shape(b)[0].op == "num":
        n = shape(b)[0]
    x = elem(a, [IX(0), s])
    y = elem(b, [s, IX(1)] if rank(b) == 2 else [s])
    body = mul(x, y)
    r = close_red("sum", n, body, s)
    sh = (shape(a)[0],) + ((shape(b)[1],) if rank(b) == 2 else ())
    return mkarr(sh, r)


def arr_equal(a, b, facts, bud):
    sa, sb = shape(a), shape(b)
    if len(sa) != len(sb):
        if not T.Ctx.strict_shapes and (all(x is ONE for x in sa) or all(x is ONE for x in sb)):
            return Verdict(UNK, "rank differs")
        return Verdict(NE, f"rank {len(sa)} vs {len(sb)}")
    for x, y in zip(sa, sb):
        r = T._go(x, y, facts, bud)
        if r.v == NE and (x is ONE or y is ONE) and not T.Ctx.strict_shapes:
            return Verdict(UNK, "broadcast size")
        if r.v != EQ:
            return Verdict(UNK if r.v == UNK else NE, "size: " + r.why)
    f = facts.copy()
    if a.op in ("arr", "ite") and b.op in ("arr", "ite"):
        n = 1
        for x in sa:
            if x.op == "num" and n * x.args[0] <= 12:
                n *= int(x.args[0])
        if n > 1:
            # few elements along an axis: one by one
            left = 12
            axes = []
            for x in sa:
                if x.op == "num" and 0 < x.args[0] <= left:
                    left //= int(x.args[0])
                    axes.append([num(k) for k in range(int(x.args[0]))])
                else:
                    i = fresh_index()
                    f.assume(not_(lt(i, ZERO)))
                    f.assume(lt(i, x))
                    axes.append([i])
            worst = Verdict(EQ)
            for ixs in itertools.product(*axes):
                r = T._go(elem(a, list(ixs)), elem(b, list(ixs)), f, bud)
                if r.v == NE:
                    return r
                if r.v == UNK:
                    worst = r
            return worst
    ixs = []
    for n in sa:
        i = fresh_index()
        ixs.append(i)
        f.assume(not_(lt(i, ZERO)))
        f.assume(lt(i, n))
    ea, eb = elem(a, ixs), elem(b, ixs)
    if shape(a) is not None and a.op not in ("arr", "ite") and b.op not in ("arr", "ite"):
        # two opaque arrays
        if a.op == b.op or ea.op == eb.op == "at" and ea.args[0] is a and eb.args[0] is b:
            return T._leaf_struct(a, b, facts, bud)
    return T._go(ea, eb, f, bud)

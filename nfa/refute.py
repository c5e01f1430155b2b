"""Formulas that the normal form does not identify: looks for an instance of the
sizes (and, after that, of the numbers) for which both fold to constants or normal
forms that are distinct. Everything happens on terms; nothing is executed."""
import itertools
import time
from fractions import Fraction

from . import terms as T
from .terms import *

SIZES = [(2, 3, 4, 5, 3, 2), (3, 2, 2, 3, 4, 2), (2, 2, 2, 2, 2, 2), (1, 2, 3, 2, 1, 3), (1, 1, 1, 1, 1, 1)]
VALUES = [Fraction(x) for x in (3, 7, 2, 11, 5, 13, 29, 17, 23, 19, 31, 37, 43, 41, 53, 47)]


INPUT_OPS = {"sym", "attr", "at", "size", "num", "poly", "dim", "str", "fld", "class", "module", "global", "const"}


def is_input(s):
    """part of the arguments, of which nothing is known but the facts"""
    return all(x.op in INPUT_OPS for x in subterms(s))


def free_leaves(out, a, b):
    """leaves that may take any value: inputs and what both formulas refer to"""
    sa, sb = set(subterms(a)), set(subterms(b))
    return [s for s in out if is_input(s) or s in sa and s in sb]


def bounds(leaves):
    """what is known of the leaves themselves"""
    out = []
    for s in leaves:
        if s.op == "dim" and s.args[0].op == "at":
            k = opt_strip(ty(s.args[0].args[0]))
            if isinstance(k, tuple) and k[0] == "dict" and len(k) == 3:
                out.append((le(s, k[2]), True))
    return out


def int_leaves(ts):
    out, idx = [], []
    for t in ts:
        for s in subterms(t):
            if s in out or s in idx:
                continue
            if s.op == "size" or s.op == "dim" and ty(s.args[0]) != "str" and s.args[0].op != "str":
                out.append(s)
            elif s.op == "attr" and s.args[1] in T.Ctx.size_attrs:
                out.append(s)
            elif s.op == "sym" and isinstance(s.args[0], str) and s.args[0].startswith("$i") and ty(s) == "int":
                idx.append(s)
    return sorted(out, key=lambda z: z.id), sorted(idx, key=lambda z: z.id)


def unroll(t):
    """folds with a constant small number of steps"""
    for _ in range(6):
        fs = [s for s in subterms(t) if s.op == "fold" and s.args[0].op == "num" and 0 < s.args[0].args[0] <= 4
              and not free_binders(s)]
        if not fs:
            return t
        f = fs[0]
        n, acc, body, others, lev = f.args
        st = [o[0] for o in others]
        for j in range(int(n.args[0])):
            mp = {mk("hole", "acc", lev, 0): acc, mk("hole", "it", lev): num(j)}
            mp.update({mk("hole", "acc", lev, k + 1): v for k, v in enumerate(st)})
            acc = subst(body, mp)
            st = [subst(o[1], mp) for o in others]
        t = subst(t, {f: acc})
    return t


def approx(t):
    """value of a constant numeric term (square roots allowed), or None"""
    if t.op == "num":
        return float(t.args[0])
    if t.op == "poly":
        s = 0.0
        for m, c in t.args[0]:
            v = float(c)
            for a, e in m:
                x = approx(a)
                if x is None or x == 0 and e < 0:
                    return None
                v *= x ** e
            s += v
        return s
    if t.op == "sqrt":
        x = approx(t.args[0])
        return None if x is None or x < 0 else x ** 0.5
    return None


def rounded(op, x, dec):
    import math

    if op == "floor":
        return Fraction(math.floor(x))
    if op == "ceil":
        return Fraction(math.ceil(x))
    if op == "trunc":
        return Fraction(int(x))
    return Fraction(round(x, dec)) if dec is not None else Fraction(round(x))


def fold_round(t):
    """rounding functions of constants"""
    for _ in range(8):
        mp = {}
        for s in subterms(t):
            if s.op == "trunc" or s.op == "call" and s.args[0] in ("floor", "ceil", "round", "npround", "trunc"):
                x, *dec = s.args[1] if s.op == "call" else s.args
                if dec and dec[0].op != "num" or not isinstance(x, Term):
                    continue
                v = x.args[0] if x.op == "num" else approx(x)
                if v is None:
                    continue
                op = s.args[0] if s.op == "call" else "trunc"
                mp[s] = num(rounded(op, v, int(dec[0].args[0]) if dec else None))
        if not mp:
            return t
        t = subst(t, mp)
    return t


STR = ("lower", "upper", "split", "rsplit", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "zfill",
       "splitlines", "isdigit", "title", "capitalize", "find", "rfind", "count", "partition", "rpartition", "removeprefix",
       "removesuffix")


def const_value(t):
    if is_str_const(t):
        return str_value(t)
    if t.op == "num" and t.args[0].denominator == 1:
        return int(t.args[0])
    return None


def term_of(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, str):
        return cstr(v)
    if isinstance(v, int):
        return num(v)
    return mk("list" if isinstance(v, list) else "tuple", *[term_of(x) for x in v])


def fold_str(t):
    """operations on constant strings"""
    import posixpath

    for _ in range(10):
        mp = {}
        for s in subterms(t):
            v = None
            if s.op == "str" or s.op == "call" and isinstance(s.args[0], str) and s.args[0].startswith(("str.", "os.path.")):
                parts = s.args[0] if s.op == "str" else s.args[1]
                k = next((k for k, x in enumerate(parts) if isinstance(x, Term) and x.op == "ite"), None)
                if k is not None:
                    alt = [parts[:k] + (b,) + parts[k + 1:] for b in parts[k].args[1:]]
                    mp[s] = ite(parts[k].args[0], *[cstr(*[x if isinstance(x, Term) else cstr(x) for x in a]) if s.op == "str"
                                                    else mk("call", s.args[0], a, s.args[2]) for a in alt])
                    continue
            if s.op == "call" and isinstance(s.args[0], str) and not s.args[2]:
                a = [const_value(x) if isinstance(x, Term) else None for x in s.args[1]]
                if not a or any(x is None for x in a):
                    continue
                n = s.args[0]
                if n.startswith("str.") and n[4:] in STR and isinstance(a[0], str):
                    v = getattr(str, n[4:])(*a)
                elif n == "os.path.join" and all(isinstance(x, str) for x in a):
                    v = posixpath.join(*a)
                elif n in ("os.path.basename", "os.path.dirname", "os.path.split", "os.path.splitext"):
                    v = getattr(posixpath, n[8:])(*a)
            elif s.op == "slice_of" and is_str_const(s.args[0]) and len(s.args[1]) == 1 and s.args[1][0].op == "slc":
                b = s.args[1][0].args
                if all(isinstance(x, Term) and (x is NONE or x.op == "num") for x in b):
                    v = str_value(s.args[0])[slice(*[None if x is NONE else int(x.args[0]) for x in b])]
            elif s.op == "in" and is_str_const(s.args[0]) and is_str_const(s.args[1]):
                v = str_value(s.args[0]) in str_value(s.args[1])
            elif s.op == "str" and any(isinstance(x, Term) and (is_str_const(x) or x.op == "num" and x.args[0].denominator == 1 and ty(x) == "int") for x in s.args[0]):
                mp[s] = cstr(*[term_of(str(const_value(x))) if isinstance(x, Term) and const_value(x) is not None else x if isinstance(x, Term) else cstr(x)
                               for x in s.args[0]])
                continue
            if v is not None:
                mp[s] = term_of(v)
        mp = {k: v for k, v in mp.items() if k is not v}
        if not mp:
            return t
        t = subst(t, mp)
    return t


STRINGS = ("p%d/q%d.r.Avi", "~k%d_%d", "C%d.%d.mp4", "/a%d/b%d/c.MP4")


def string_leaves(ts):
    out = []
    for t in ts:
        for s in subterms(t):
            # what is only printed may be a string
            c = [x for x in s.args[0] if isinstance(x, Term) and ty(x) in (None, "any")] if s.op == "str" else []
            c += [x for x in s.args[1] if ty(x) in (None, "any")] if s.op == "call" and str(s.args[0]).startswith("os.path.") else []
            c += [s] if opt_strip(ty(s)) == "str" else []
            for x in c:
                if x not in out and is_input(x) and not free_binders(x) and x.op in ("at", "attr", "sym") and (x.op != "at" or all(y.op == "num" for y in x.args[1:])):
                    out.append(x)
    inner = {x for s in out for x in subterms(s) if x is not s}
    return sorted([s for s in out if s not in inner], key=lambda z: z.id)


def numeric_leaves(ts):
    out = []
    for t in ts:
        for s in subterms(t):
            if s in out or free_binders(s):
                continue
            if s.op in ("at", "attr", "sym") and opt_strip(ty(s)) in ("float", "num", "int") and not (s.op == "sym" and str(s.args[0]).startswith("$i")):
                if s.op == "at" and not all(x.op == "num" for x in s.args[1:]):
                    continue
                out.append(s)
    # outermost only
    inner = {x for s in out for x in subterms(s) if x is not s}
    return sorted([s for s in out if s not in inner], key=lambda z: z.id)


def holds(lits, mp, fold=lambda t: t):
    f = Facts()
    for c, v in lits:
        x = fold(subst(c, mp))
        if x is (FALSE if v else TRUE):
            return None
        f.assume(x, v)
        if f.bad:
            return None
    return None if f.infeasible() else f


def refute(a, b, facts, limit=4.0):
    t0 = time.time()
    lits = list(facts.lits.items())
    if sum(1 for _ in subterms(a)) + sum(1 for _ in subterms(b)) > 3000:
        return None
    sizes, idx = int_leaves([a, b] + [c for c, _ in lits])
    tries = 0
    sizes = [s for s in free_leaves(sizes, a, b) if not any(x.op == "call" and str(x.args[0]).startswith("str.") for x in subterms(s))]
    lits = lits + bounds(sizes)
    if len(sizes) > 6 or len(idx) > 4:
        return None
    for sa in SIZES if sizes else SIZES[:1]:
        mp0 = dict(zip(sizes, (num(x) for x in sa)))
        for ia in itertools.product(range(3), repeat=len(idx)):
            if time.time() - t0 > limit or tries > 12:
                return None
            mp = dict(mp0)
            mp.update(zip(idx, map(num, ia)))
            f = holds(lits, mp)
            if f is None:
                continue
            tries += 1
            x, y = simplify(fold_round(unroll(subst(a, mp))), f), simplify(fold_round(unroll(subst(b, mp))), f)
            if x is y:
                continue
            r = T._go(x, y, f, T.Budget(150))
            if r.v == NE:
                return instance(mp, r)
            if r.v == UNK:
                r = numbers(x, y, f)
                if r is not None:
                    return instance(mp, r)
    return None


def instance(mp, r):
    w = ", ".join("%s=%s" % (show(k), show(v)) for k, v in mp.items())
    v = T.Verdict(NE, (("for " + w + ": ") if w else "") + r.why)
    return v


def is_by_zero(t):
    return t.op == "pow" and t.args[0] is ZERO and t.args[1].op == "num" and t.args[1].args[0] < 0


def by_zero(t):
    """is something certainly divided by zero to compute t?"""
    if is_by_zero(t):
        return True
    if t.op in ("ite", "and", "or", "collect", "red", "fold", "arr", "clo", "dict"):
        return False
    return any(by_zero(x) for a in t.args for x in _terms(a))


def _terms(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from _terms(x)


def numbers(x, y, f):
    ls = free_leaves(numeric_leaves([x, y] + list(f.lits)), x, y)
    ss = string_leaves([x, y] + list(f.lits))
    if not ls and not ss or len(ls) + len(ss) > 40:
        return None
    for shift in list(range(8 if ss else 4)) + [-1]:
        # the second sample is not integral where floats may occur
        frac = Fraction(5, 8) if shift % 4 == 1 else Fraction(0)
        # the last one has small values on both sides of zero
        # or nothing above zero
        mp = {s: num((0, -1, 1, 2)[k % 4] if shift > 0 else -(k % 3)) for k, s in enumerate(ls)} if shift % 4 == 3 else {
              s: num(VALUES[(k * (1 + shift) + shift) % len(VALUES)] + (k // len(VALUES)) * 60 + (frac if ty(s) != "int" else 0))
              for k, s in enumerate(ls)}
        # optional numbers are None in every other sample
        mp.update((s, NONE) for k, s in enumerate(ls) if opt_strip(ty(s)) is not ty(s) and (shift + k) % 2 == 0)
        mp.update((s, NONE if shift >= 4 and (shift + k) % 2 and ty(s) != "str" else cstr(STRINGS[(shift + k) % 4] % (k, k))) for k, s in enumerate(ss))
        fold = (lambda t: fold_str(fold_round(t))) if ss else fold_round
        g = holds(list(f.lits.items()), mp, fold)
        if g is None:
            continue
        u, v = simplify(fold(subst(x, mp)), g), simplify(fold(subst(y, mp)), g)
        p, q = approx(u), approx(v)
        if p is None or q is None:
            if by_zero(u) and not any(is_by_zero(s) for s in subterms(v)) or by_zero(v) and not any(is_by_zero(s) for s in subterms(u)):
                return T.Verdict(NE, "at %s: a division by zero in one of the two" % ", ".join("%s=%s" % (show(k), show(w)) for k, w in list(mp.items())[:6]))
            if u is not v and T.trusted(u, v, g):
                r = T._go(u, v, g, T.Budget(150))
                if r.v == NE:
                    return T.Verdict(NE, "at %s: %s" % (", ".join("%s=%s" % (show(k), show(w)) for k, w in list(mp.items())[:6]), r.why))
            continue
        if abs(p - q) > 1e-6 * max(1.0, abs(p), abs(q)):
            return T.Verdict(NE, "at %s: %.6g vs %.6g" % (", ".join("%s=%s" % (show(k), show(w)) for k, w in list(mp.items())[:6]), p, q))
    return None

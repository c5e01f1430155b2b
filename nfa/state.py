"""Abstract states: environment, heap (field logs and contents), path literals."""
from .terms import *
from . import terms as T
from .terms import Ctx, Ctx_disjoint
from .arrays import *


class State:
    __slots__ = ("env", "heap", "pc", "facts", "dead", "frame")

    def __init__(self, env=None, heap=None, pc=(), facts=None, frame=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.facts = facts if facts is not None else Facts()
        self.dead = False
        self.frame = frame

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc, self.facts, self.frame)

    def branch(self, c):
        """copy under the extra literal c, or None if infeasible"""
        if c is TRUE:
            return self.copy()
        f = self.facts.with_(c)
        if f.bad:
            return None
        s = State(dict(self.env), dict(self.heap), self.pc + (c,), f, self.frame)
        return s

    def assume(self, c):
        if c is TRUE:
            return
        self.facts = self.facts.with_(c)
        self.pc = self.pc + (c,)
        if self.facts.bad:
            self.dead = True

    def guard(self):
        return and_(*self.pc)


def unify(pat, t, var, binding):
    """match pat against t with one variable; binding is a dict"""
    if pat is var:
        if var in binding:
            return binding[var] is t
        binding[var] = t
        return True
    if pat is t:
        return True
    if not contains(pat, var):
        return False
    if pat.op != t.op or len(pat.args) != len(t.args):
        return False
    return _unify_args(pat.args, t.args, var, binding)


def _unify_args(a, b, var, binding):
    for x, y in zip(a, b):
        if isinstance(x, Term):
            if not isinstance(y, Term) or not unify(x, y, var, binding):
                return False
        elif isinstance(x, tuple):
            if not isinstance(y, tuple) or len(x) != len(y) or not _unify_args(x, y, var, binding):
                return False
        elif x != y:
            return False
    return True


def match_each(pat, t, var):
    b = {}
    if unify(pat, t, var, b) and var in b:
        return b[var]
    return None


def root_of(t):
    """the location that owns the memory of t"""
    while t.op == "view":
        t = t.args[0]
    return t


def may_alias(a, b, facts):
    """True / False / Term (condition) : can a and b be the same object?"""
    if a is b:
        return True
    ka, kb = opt_strip(ty(a)), opt_strip(ty(b))
    if isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] == kb[0] == "cls":
        if Ctx_disjoint(mk("class", ka[1]), mk("class", kb[1])):
            return False
    elif ka is not None and kb is not None and ka != kb and not (
        isinstance(ka, tuple) and isinstance(kb, tuple)
    ):
        return False
    if a.op in ("obj", "ref") or b.op in ("obj", "ref"):
        x, y = (a, b) if a.op in ("obj", "ref") else (b, a)
        if x.op == y.op == "obj" and x.args[:2] == y.args[:2]:
            c = and_(*[T.eq(p, q) for p, q in zip(x.args[2:], y.args[2:])])
            d = facts.decide(c)
            return c if d is None else d
        if y.op in ("obj", "ref"):
            return False
        if not contains(y, x):
            return False
    if a.op in ("class", "module", "none") or b.op in ("class", "module", "none"):
        return False
    if a.op == "sym" and b.op == "sym":
        return False
    if a.op == "at" and b.op == "at" and a.args[0] is b.args[0] and len(a.args) == len(b.args) == 2:
        c = T.eq(a.args[1], b.args[1])
        d = facts.decide(c)
        if d is not None:
            return d
        return c
    if a.op == "attr" and b.op == "attr" and len(a.args) == len(b.args) and a.args[1] == b.args[1]:
        # the same field of two objects that are not the same object: fields that hold
        # objects are not assumed to be shared, unless the owners may be the same
        return may_alias(a.args[0], b.args[0], facts)
    if a.op == "sym" and b.op in ("attr", "at") or b.op == "sym" and a.op in ("attr", "at"):
        x, y = (a, b) if a.op == "sym" else (b, a)
        if ka is None or kb is None:
            return mk("same", *sorted((a, b), key=lambda z: z.id))
    return mk("same", *sorted((a, b), key=lambda z: z.id))



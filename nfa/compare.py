"""Equivalence of what two functions do: one of the analysed program, one a
reference snippet; both summarised by `interp` over the same unknowns.

Compared are the returned value, the fields written, the memory of the caller
that is changed, the sequence of calls with effects (per channel) and the
condition under which an exception leaves the function.
"""
from . import terms as T
from .terms import *
from .arrays import *
from .state import State
from .interp import Interp, LoopNode, Ev
from .refute import refute

IGNORED_KINDS = {"pcall", "pmcall", "mut", "caught"}
IGNORED_NAMES = {
    "print", "builtins.print", "rich.print", "warnings.warn", "logging.warning", "warning", "warn_once",
    "norfair.utils.warn_once", "logging.warn", "logging.info", "logging.debug",
}


class Summary:
    pass


def summarise(prog, fi, unit, args, label):
    I = Interp(prog, stops=unit.stops(prog))
    for k, v in unit.interp_options.items():
        setattr(I, k, v)
    I.stop_effects = dict(unit.stop_effects(prog))
    f = Facts()
    st = State({}, {}, (), f)
    I.entry_facts = f
    unit.prepare(I, st, args)
    f = st.facts
    I.entry_facts = f
    I.base_facts = f
    v = I.call_function(st, fi, [], dict(args))
    s = Summary()
    s.I, s.st, s.fi = I, st, fi
    s.facts = f
    s.ret_loc = v
    s.label = label
    s.dead = st.dead
    s.ret = I.freeze(st, v) if not st.dead else mk("undef", "noreturn")
    s.trace = I.trace
    s.raises = {}
    collect_raises(I.trace, s.raises, ())
    s.noraise = not_(or_(*s.raises.values())) if s.raises else TRUE
    s.yields = getattr(I, "yields", [])
    return s


def collect_raises(tr, out, loops):
    for e in tr:
        if isinstance(e, LoopNode):
            sub = {}
            collect_raises(e.body, sub, loops + (e,))
            for k, c in sub.items():
                r = close_red("any", e.n, and_(e.cond, c), e.lv)
                out[k] = or_(out.get(k, FALSE), and_(e.guard, r))
        elif e.kind == "raise":
            out[e.name] = or_(out.get(e.name, FALSE), e.guard)


# --------------------------------------------------------------------------
# objects created by either side are identified by class and order
# --------------------------------------------------------------------------
class Renamer:
    def __init__(self, s):
        objs = set()

        def scan(t):
            if isinstance(t, Term):
                for x in subterms(t):
                    if x.op == "obj":
                        objs.add((x.args[0], x.args[1]))

        scan(s.ret)
        for k, v in s.st.heap.items():
            if k[0] == "f":
                for e in log_entries(v):
                    for x in e:
                        scan(x)
            elif isinstance(v, Term):
                scan(v)

        def tr(t):
            for e in t:
                if isinstance(e, LoopNode):
                    tr(e.body)
                else:
                    for x in e.args:
                        scan(x)
                    for x in e.kw.values():
                        scan(x)
                    if e.recv is not None:
                        scan(e.recv)

        tr(s.trace)
        self.map = {}
        self.counts = {}
        for n, q in sorted(objs, key=lambda z: z[0]):
            k = self.counts.get(q, 0)
            self.counts[q] = k + 1
            self.map[(n, q)] = k
        self.memo = {}
        self.folds = None

    def __call__(self, t):
        t = self.rename(t)
        return self.folds(t) if self.folds is not None and isinstance(t, Term) and has_op(t, "fold") else t

    def rename(self, t):
        if not self.map or not isinstance(t, Term) or not has_op(t, "obj"):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self._go(t)
            self.memo[t] = r
        return r

    def _go(self, t):
        if t.op == "obj":
            k = self.map.get((t.args[0], t.args[1]))
            rest = tuple(self.rename(x) if isinstance(x, Term) else x for x in t.args[2:])
            return mk("obj", "#%s" % k, t.args[1], *rest)
        if not has_op(t, "obj"):
            return t
        return rebuild(t, self.rename)


class Folds:
    """one representative for loops whose steps compute the same in every state"""

    def __init__(self, facts):
        self.reps = []  # everything but the number of iterations
        self.of = {}
        self.memo = {}
        self.facts = facts

    def __call__(self, t):
        if not t.args or not has_op(t, "fold"):
            return t
        r = self.memo.get(t)
        if r is None:
            r = rebuild(t, self)
            if r.op == "fold":
                k = self.rep(r)
                if k != r.args[1:]:
                    o, r = r, mk("fold", r.args[0], *k)
                    for d in (Ctx.types, Ctx.shapes):
                        if o in d:
                            d.setdefault(r, d[o])
            self.memo[t] = r
        return r

    def rep(self, t):
        k = t.args[1:]
        if k in self.of:
            return self.of[k]
        self.of[k] = k
        for z in self.reps:
            if len(z[2]) == len(k[2]) and self.same(t, k, z):
                self.of[k] = z
                break
        else:
            self.reps.append(k)
        return self.of[k]

    def same(self, t, k, z):
        i = fresh_index()
        f = self.facts.copy()
        f.assume(not_(lt(i, ZERO)))
        x, y = mk("fold", i, *k), mk("fold", i, *z)
        for d in (Ctx.types, Ctx.shapes):
            if t in d:
                d.setdefault(x, d[t])
                d.setdefault(y, d[t])
        return T.equal(x, y, f, 200).v == EQ


class Res:
    """verdict about one observable"""

    def __init__(self, key, v, why="", where=""):
        self.key, self.v, self.why, self.where = key, v, why, where

    def __repr__(self):
        return f"{self.key}: {self.v} {self.why} {self.where}"


def in_range(t, var, length):
    """the condition under which the items of sequences that t takes at var exist"""
    if t.op == "ite":
        return and_(in_range(t.args[0], var, length), ite(t.args[0], in_range(t.args[1], var, length), in_range(t.args[2], var, length)))
    out = [in_range(c, var, length) for c in children(t)]
    if t.op == "at" and t.args[1] is var:
        out.append(lt(var, length(t.args[0])))
    return and_(*out)


class Comparer:
    def __init__(self, impl, spec, unit):
        self.a, self.b, self.unit = impl, spec, unit
        self.ra, self.rb = Renamer(impl), Renamer(spec)
        self.ra.folds = self.rb.folds = Folds(impl.facts)
        self.objs_differ = {q for q in set(self.ra.counts) | set(self.rb.counts) if self.ra.counts.get(q) != self.rb.counts.get(q)}
        self.results = []
        self.obligations = 0
        self.origin = {}  # condition -> the sides (0 program, 1 reference) whose guards have it
        self.cases = 0

    # ------------------------------------------------------------------
    def closures(self, x, y):
        out = []
        ca, cb = self.a.I.closures.get(x), self.b.I.closures.get(y)
        if ca is None or cb is None:
            return None
        syms = None
        for s, ren, c, v in ((self.a, self.ra, ca, x), (self.b, self.rb, cb, y)):
            ar = c.fi.node.args
            if ar.vararg or ar.kwarg or ar.kwonlyargs:
                return None
            n = len(ar.posonlyargs + ar.args)
            if syms is None:
                syms = [fresh_index() for _ in range(n)]
                for z in syms:
                    Ctx.types.pop(z, None)
            if n != len(syms):
                return None
            st = s.st.copy() if s.st is not None else None
            if st is None:
                return None
            n0 = len(s.I.unsupported)
            try:
                r = s.I.freeze(st, s.I.call(st, v, list(syms), {}, None))
            except Exception:
                return None
            if len(s.I.unsupported) > n0:
                return None
            out.append(ren(r))
        return out

    def verdict(self, x, y, facts):
        Ctx.closures = self.closures
        self.obligations += 1
        r = equal(x, y, facts, self.unit.budget)
        if r.v == UNK and not has_op(x, "obj", "ref") and not has_op(y, "obj", "ref"):
            try:
                r = refute(x, y, facts) or r
            except RecursionError:
                pass
        if r.v == NE and self.a.I.unsupported:
            return Verdict(UNK, "constructs without a model: %s; " % (self.a.I.unsupported[:2],) + r.why, r.facts)
        if r.v == NE and self.objs_differ and (has_op(x, "obj") or has_op(y, "obj")):
            qs = {s.args[1] for t in (x, y) for s in subterms(t) if s.op == "obj"}
            if qs & self.objs_differ:
                return Verdict(UNK, "created objects are not aligned; " + r.why, r.facts)
        return r

    def report(self, key, r, where=""):
        why = r.why
        if r.v == NE and r.facts is not None:
            lits = [show(k) if v else "not(" + show(k) + ")" for k, v in r.facts.lits.items() if k not in self.a.facts.lits]
            if lits:
                why += "  when " + " and ".join(x[:160] for x in lits[:8])
        self.results.append(Res(key, r.v, why[:1200], where or self.fn_where()))

    def fn_where(self):
        f = self.a.fi
        return f"{f.file}:{f.line} in {f.qual}"

    def run(self):
        a, b = self.a, self.b
        base = a.facts
        # exceptions ---------------------------------------------------
        names = set(a.raises) | set(b.raises)
        for n in sorted(names):
            x, y = self.ra(a.raises.get(n, FALSE)), self.rb(b.raises.get(n, FALSE))
            r = self.verdict(x, y, base)
            w = self.raise_site(n)
            self.report("raise:" + n, r, w)
        f = base.copy()
        f.assume(self.ra(a.noraise))
        f.assume(self.rb(b.noraise))
        self.f = f
        if a.dead and b.dead:
            self.report("ret", Verdict(EQ))
            self.events(f)
            return self.results
        if a.dead != b.dead:
            self.report("ret", Verdict(NE if not a.I.unsupported else UNK, "one of them never returns"))
            return self.results
        # result ---------------------------------------------------------
        if self.unit.wants("ret"):
            self.report("ret", self.verdict(self.ra(a.ret), self.rb(b.ret), f), self.return_site())
        self.fields(f)
        self.contents(f)
        self.events(f)
        self.yielded(f)
        return self.results

    def raise_site(self, n):
        for e in walk(self.a.trace):
            if not isinstance(e, LoopNode) and e.kind == "raise" and e.name == n:
                return e.where()
        return self.fn_where()

    def return_site(self):
        import ast

        f = self.a.fi
        if isinstance(f.node, ast.Lambda):
            return self.fn_where()
        rs = [x for x in ast.walk(f.node) if isinstance(x, ast.Return)]
        ln = rs[-1].lineno if rs else f.line
        return f"{f.file}:{ln} in {f.qual}"

    # fields -----------------------------------------------------------
    def fields(self, f):
        a, b = self.a, self.b
        names = {k[1] for s in (a, b) for k in s.st.heap if k[0] == "f"}
        for name in sorted(names):
            key = "field:" + name
            if not self.unit.wants(key):
                continue
            targets = []
            for s, ren in ((a, self.ra), (b, self.rb)):
                for e in log_entries(s.st.heap.get(("f", name), ())):
                    if e[0] == "w":
                        t = ("w", ren(e[1]))
                        if t not in [x[0] for x in targets]:
                            targets.append((t, None))
                    else:
                        pat, var = ren(e[1]), e[2]
                        t = ("each", subst(pat, {var: BV(900)}))
                        if t not in [x[0] for x in targets]:
                            targets.append((t, (pat, var)))
            for (kind, tgt), info in targets:
                if kind == "w":
                    if tgt.op == "obj" and not self.visible(tgt):
                        continue
                    if tgt.op in ("ref",):
                        continue
                    if isinstance(tgt, Term) and has_op(tgt, "lv"):
                        continue
                    x = self.read(a, self.ra, tgt, name)
                    y = self.read(b, self.rb, tgt, name)
                    g = f
                else:
                    pat, var = info
                    i = fresh_index()
                    g = f.copy()
                    g.assume(not_(lt(i, ZERO)))
                    h = g.copy()
                    h.assume(subst(in_range(pat, var, lambda t: a.I.length(a.st, t)), {var: i}))
                    if not h.bad:
                        g = h
                    tb = subst(pat, {var: i})
                    if pat.op == "obj":
                        # an object of every iteration: its field, in the iterations that create it
                        x, y = self.made(a, self.ra, name, tb, i, g), self.made(b, self.rb, name, tb, i, g)
                        if x is None or y is None:
                            continue
                        r = self.verdict(x, y, g)
                        self.report(key, r, self.write_site(name))
                        continue
                    x = self.read(a, self.ra, tb, name)
                    y = self.read(b, self.rb, tb, name)
                r = self.verdict(x, y, g)
                if r.v == UNK and kind == "w" and self.unset(tgt, name, x, y):
                    r = Verdict(NE, "the attribute %s is not set, expected %s" % (name, show(y)[:200]))
                self.report(key, r, self.write_site(name))

    def unset(self, tgt, name, x, y):
        """an attribute of a new object that stays without a value although it is read somewhere"""
        import ast

        if tgt.op == "obj":
            if x.op != "undef" or has_op(y, "undef"):
                return False
            cls = tgt.args[1]
        elif tgt.op == "sym" and self.a.fi.name == "__init__" and self.a.fi.cls is not None:
            if x is not mk("attr", tgt, name) or contains(y, x):
                return False
            cls = self.a.fi.cls
            cls = cls if isinstance(cls, str) else cls.qual
        else:
            return False
        prog = self.a.I.prog
        c = prog.classes.get(cls)
        if c is None or prog.find_attr(c, name) or prog.find_method(c, name):
            return False
        if prog.find_method(c, "__getattr__") or prog.find_method(c, "__slots__"):
            return False
        return any(isinstance(z, ast.Attribute) and z.attr == name and isinstance(z.ctx, ast.Load)
                   for fi in prog.functions.values() for z in ast.walk(fi.node))

    def made(self, s, ren, name, tb, i, g):
        r = None
        for e in log_entries(s.st.heap.get(("f", name), ())):
            if e[0] == "each" and subst(ren(e[1]), {e[2]: i}) is tb:
                g.assume(ren(subst(e[3], {e[2]: i})))
                r = ren(s.I.freeze(s.st, subst(e[4], {e[2]: i})))
        return r

    def visible(self, o):
        return True

    def write_site(self, name):
        import ast

        f = self.a.fi
        for q in [f.qual] + sorted(self.a.I.calls_analysed):
            fi = self.a.I.prog.functions.get(q) or self.method(q)
            if fi is None:
                continue
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store):
                    return f"{fi.file}:{x.lineno} in {fi.qual}"
        return self.fn_where()

    def method(self, q):
        c, _, m = q.rpartition(".")
        c = self.a.I.prog.classes.get(c)
        return c.methods.get(m) if c else None

    def read(self, s, ren, base, name):
        # translate the renamed base back
        inv = {v: k for k, v in self.bases(s, ren).items()}
        o = inv.get(base, base)
        v = s.I.read_field(s.st, o, name)
        return ren(s.I.freeze(s.st, v))

    def bases(self, s, ren):
        out = {}
        for k, v in s.st.heap.items():
            if k[0] == "f":
                for e in log_entries(v):
                    if e[0] == "w":
                        out[e[1]] = ren(e[1])
        return out

    # memory of the caller ----------------------------------------------
    def contents(self, f):
        a, b = self.a, self.b
        locs = []
        for s in (a, b):
            for k in s.st.heap:
                if k[0] == "c" and k[1].op not in ("ref", "view") and k[1] not in locs and not has_op(k[1], "lv"):
                    locs.append(k[1])
        for loc in locs:
            key = self.loc_key(loc)
            if not self.unit.wants(key):
                continue
            if loc.op == "attr":
                x, y = self.read(a, self.ra, loc.args[0], loc.args[1]), self.read(b, self.rb, loc.args[0], loc.args[1])
            else:
                x, y = self.ra(a.I.freeze(a.st, loc)), self.rb(b.I.freeze(b.st, loc))
            r = self.verdict(x, y, f)
            if r.v == UNK and y is loc and overwritten(x, loc):
                r = Verdict(NE, "modified in place: " + show(x)[:200])
            self.report(key, r)
        for s in (a, b):
            for pat, var, cond, val in s.st.heap.get("eachc", ()):
                key = self.loc_key(pat)
                i = fresh_index()
                g = f.copy()
                g.assume(not_(lt(i, ZERO)))
                tb = subst(pat, {var: i})
                x = self.ra(a.I.freeze(a.st, tb))
                y = self.rb(b.I.freeze(b.st, tb))
                self.report(key, self.verdict(x, y, g))

    @staticmethod
    def loc_key(loc):
        if loc.op == "attr":
            return "field:" + loc.args[1]
        if loc.op == "sym":
            return "content:" + loc.args[0]
        return "content:" + loc.op

    # effects -------------------------------------------------------------
    def channel(self, e):
        return self.unit.channel(e)

    def events(self, f):
        chans = {}
        for side, s in ((0, self.a), (1, self.b)):
            for e in walk(s.trace):
                if isinstance(e, LoopNode):
                    continue
                c = self.channel(e)
                if c is not None:
                    chans.setdefault(c, [0, 0])[side] += 1
        for c in sorted(chans):
            key = "event:" + c
            if not self.unit.wants(key):
                continue
            xs = self.flatten(self.a, self.ra, c)
            ys = self.flatten(self.b, self.rb, c)
            n0 = self.obligations
            r, where = self.seq(xs, ys, f.copy(), Budget(self.unit.seq_budget))
            if r.v == NE and self.a.I.unsupported:
                r = Verdict(UNK, "constructs without a model: %s; " % (self.a.I.unsupported[:2],) + r.why, r.facts)
            self.report(key, r, where)

    def flatten(self, s, ren, c):
        out = []
        for e in s.trace:
            it = self.item(s, ren, e, c)
            if it is not None:
                out.append(it)
        return out

    def item(self, s, ren, e, c):
        if isinstance(e, LoopNode):
            body = []
            for x in e.body:
                it = self.item(s, ren, x, c)
                if it is not None:
                    body.append(it)
            if not body:
                return None
            g, n = ren(e.guard), ren(e.n)
            while n.op == "ite" and ZERO in n.args[1:]:
                # only where there is anything to iterate over
                g = and_(g, n.args[0] if n.args[2] is ZERO else not_(n.args[0]))
                n = n.args[1] if n.args[2] is ZERO else n.args[2]
            return {
                "loop": True, "g": g, "lv": e.lv, "n": n, "cond": ren(e.cond),
                "stop": ren(e.stop), "body": body, "where": e.where(),
            }
        if self.channel(e) != c:
            return None
        return self.event_item(s, ren, e)

    def event_item(self, s, ren, e):
        st = State({}, dict(e.heap), (), e.facts)
        fz = lambda t: ren(s.I.freeze(st, t))
        ins = self.unit.event_args(e, fz)
        if ins is None:
            ins = ([fz(x) for x in e.args], {k: fz(v) for k, v in e.kw.items()}, fz(e.recv) if e.recv is not None and e.recv.op in ("ref", "view") else ren(e.recv) if e.recv is not None else None)
        args, kw, recv = ins
        return {"loop": False, "g": ren(e.guard), "name": e.name, "args": args, "kw": kw, "recv": recv, "where": e.where()}

    def seq(self, xs, ys, f, bud):
        """do the two sequences of guarded items coincide under f?"""
        xs, ys = list(xs), list(ys)
        unk = None
        while True:
            xs, ys = self.drop(xs, f), self.drop(ys, f)
            if not xs and not ys:
                return unk or Verdict(EQ), ""
            if not bud.use():
                return Verdict(UNK, "budget"), ""
            gx = simplify(xs[0]["g"], f) if xs else None
            gy = simplify(ys[0]["g"], f) if ys else None
            if xs and ys and (gx is gy or self.same_guard(gx, gy, f)):
                fg = f.with_(gx)
                if fg.bad or fg.infeasible():
                    xs, ys = xs[1:], ys[1:]
                    continue
                # the two may still be different items of sequences that only
                # align under the split; try the direct alignment first
                r, w = self.same(xs[0], ys[0], fg, bud)
                if r.v == EQ:
                    xs, ys = xs[1:], ys[1:]
                    continue
                if gx is TRUE and not self.range_atoms(xs[0], ys[0], f):
                    if r.v == UNK:
                        t = self.totals(xs, ys, f)
                        if t is not None:
                            return t, w
                    return r, w
            # split on an undecided guard
            g = None
            for t in (gx, gy):
                if t is not None and t is not TRUE:
                    ats = [z for z in T.control_atoms(t) if f.decide(z) is None]
                    if ats:
                        g = T._pick(ats)
                        break
            if g is None:
                ats = self.range_atoms(xs[0] if xs else None, ys[0] if ys else None, f)
                if ats:
                    g = T._pick(ats)
            if g is None:
                side = xs[0] if xs else ys[0]
                what = self.describe(side)
                if xs and ys:
                    r, w = self.same(xs[0], ys[0], f, bud)
                    if r.v == EQ:
                        xs, ys = xs[1:], ys[1:]
                        continue
                    if r.v == UNK:
                        t = self.totals(xs, ys, f)
                        if t is not None:
                            return t, w
                    return r, w
                r = self.lonely(side, f, what, bool(xs))
                if r.v == EQ:
                    xs, ys = xs[1:], ys[1:]
                    continue
                return r, side["where"] if xs else self.fn_where()
            og = self.origin.setdefault(g, set())
            for side, its in ((0, xs), (1, ys)):
                if any(contains(simplify(it["g"], f), g) for it in its):
                    og.add(side)
            for v in (True, False):
                f2 = f.with_(g, v)
                if f2.bad or f2.infeasible() or f2.neq_violated():
                    continue
                r, w = self.seq(xs, ys, f2, bud)
                if r.v == NE:
                    return r, w
                if r.v == UNK:
                    unk = (r, w)
            return unk if unk else (Verdict(EQ), "")

    def range_atoms(self, x, y, f):
        """undecided conditions that the number of iterations of a loop depends on"""
        out = {}
        for it in (x, y):
            if it is not None and it["loop"]:
                n = simplify(it["n"], f)
                if n.op == "ite":
                    out.update(dict.fromkeys(z for z in T.control_atoms(n) if f.decide(z) is None))
        return list(out)

    def totals(self, xs, ys, f):
        """how often the effects happen altogether, where that does not depend on conditions"""
        n = []
        looped = any(it["loop"] for it in xs) and any(it["loop"] for it in ys)
        if not looped:
            return None
        # what both have in common cancels out
        xs, ys = list(xs), list(ys)
        for x in xs[:6]:
            for y in ys[:6]:
                if self.same_guard(simplify(x["g"], f), simplify(y["g"], f), f) and self.same(x, y, f, T.Budget(2000))[0].v == EQ:
                    xs.remove(x)
                    ys.remove(y)
                    break
        for its in (xs, ys):
            ks = [self.count(it, f) for it in its]
            if any(k is None for k in ks):
                return None
            t = ZERO
            for k in ks:
                t = add(t, k)
            n.append(t)
        r = self.verdict(n[0], n[1], f)
        if r.v != NE:
            return None
        return Verdict(NE, "number of effects: %s; expected %s" % (
            "; ".join(self.describe(x) for x in xs[:4])[:300], "; ".join(self.describe(x) for x in ys[:4])[:300]), r.facts)

    def count(self, it, f):
        if simplify(it["g"], f) is not TRUE:
            return None
        if not it["loop"]:
            return num(1)
        if it["cond"] is not TRUE or it["stop"] is not FALSE:
            return None
        t = ZERO
        for x in it["body"]:
            k = self.count(x, f)
            if k is None or contains(k, it["lv"]):
                return None
            t = add(t, k)
        return mul(simplify(it["n"], f), t)

    def lonely(self, it, f, what, extra):
        """an item without a partner"""
        why = ("effect without counterpart: " if extra else "missing effect: ") + what
        if it["loop"]:
            d = f.decide(lt(ZERO, it["n"]))
            if d is False:
                return Verdict(EQ)
            # does some iteration have the effect?
            f2 = f.with_(lt(ZERO, it["n"]))
            if f2.bad or f2.infeasible():
                return Verdict(EQ)
            if not self.loop_effective(it, f2):
                return Verdict(UNK, why)
        new = [k for k in self.new_lits(f) if k in self.origin]
        hard = [k for k in new if any(s.op in T.OPAQUE and s.op not in ("ret", "call", "mret", "ext") for s in subterms(k))]
        if hard:
            # an additional case on one side is a difference; a condition that
            # only the other side has may be the same one written differently
            only = [self.origin[k] for k in new]
            if any(len(self.origin[k]) != 1 for k in hard) or {0} in only and {1} in only:
                return Verdict(UNK, why, f)
        return Verdict(NE, why, f)

    def new_lits(self, f):
        return [k for k in f.lits if k not in self.a.facts.lits]

    def loop_effective(self, it, f):
        return True

    def same_guard(self, x, y, f):
        return equal(x, y, f, 300).v == EQ

    def drop(self, xs, f):
        while xs:
            g = simplify(xs[0]["g"], f)
            d = f.decide(g)
            if g is FALSE or d is False:
                xs = xs[1:]
                continue
            if self.idle(xs[0], f):
                xs = xs[1:]
                continue
            break
        return xs

    def idle(self, it, f):
        """a loop that has no effect given the facts"""
        if not it["loop"]:
            return f.decide(simplify(it["g"], f)) is False
        if f.decide(lt(ZERO, it["n"])) is False:
            return True
        return all(self.idle(x, f) for x in it["body"])

    def describe(self, it):
        if it["loop"]:
            return "loop over %s: " % show(it["n"])[:80] + "; ".join(self.describe(x) for x in it["body"][:3])
        a = [show(x)[:80] for x in it["args"]] + ["%s=%s" % (k, show(v)[:80]) for k, v in it["kw"].items()]
        r = show(it["recv"])[:80] + "." if it["recv"] is not None else ""
        return r + it["name"] + "(" + ", ".join(a) + ")"

    def same(self, x, y, f, bud):
        if x["loop"] != y["loop"]:
            return Verdict(UNK, "loop vs single effect: %s / %s" % (self.describe(x)[:200], self.describe(y)[:200])), x["where"]
        if x["loop"]:
            r = self.verdict(x["n"], y["n"], f)
            if r.v != EQ:
                # both ranges may be filtered forms of one another
                t = T.by_text(x["n"], y["n"])
                if t is not None:
                    return t, x["where"]
                return (r if r.v == UNK else Verdict(UNK, "loop ranges: " + r.why)), x["where"]
            i = fresh_index()
            f2 = f.copy()
            f2.assume(not_(lt(i, ZERO)))
            f2.assume(lt(i, x["n"]))
            bx = self.retag(x, i)
            by = self.retag(y, i)
            r = self.verdict(bx["stop"], by["stop"], f2)
            if r.v != EQ:
                return Verdict(r.v, "loop ends differently: " + r.why, r.facts), x["where"]
            # the iteration condition is part of the guards of the body
            for z in (bx, by):
                c = z["cond"]
                if c is not TRUE:
                    for e in z["body"]:
                        e["g"] = and_(c, e["g"])
            return self.seq(bx["body"], by["body"], f2, bud)
        self.obligations += 1
        if x["name"] != y["name"]:
            return Verdict(NE, "%s instead of %s" % (self.describe(x)[:200], self.describe(y)[:200]), f), x["where"]
        unk = None
        pairs = []
        if (x["recv"] is None) != (y["recv"] is None):
            return Verdict(UNK, "receiver"), x["where"]
        if x["recv"] is not None:
            pairs.append(("receiver", x["recv"], y["recv"]))
        if len(x["args"]) != len(y["args"]) or set(x["kw"]) != set(y["kw"]):
            v = UNK if any(t.op in ("starred",) for t in list(x["args"]) + list(y["args"])) or "**" in set(x["kw"]) | set(y["kw"]) else NE
            return Verdict(v, "arguments of %s, expected %s" % (self.describe(x)[:300], self.describe(y)[:300]), f), x["where"]
        for k, (p, q) in enumerate(zip(x["args"], y["args"])):
            pairs.append(("argument %d" % (k + 1), p, q))
        for k in x["kw"]:
            pairs.append((k, x["kw"][k], y["kw"][k]))
        for k, p, q in pairs:
            r = self.verdict(p, q, f)
            if r.v == NE:
                return Verdict(NE, "%s of %s: %s" % (k, x["name"], r.why), r.facts), x["where"]
            if r.v == UNK:
                unk = Verdict(UNK, "%s of %s: %s" % (k, x["name"], r.why), r.facts)
        return unk or Verdict(EQ), x["where"]

    def retag(self, it, i):
        mp = {it["lv"]: i}

        def f(t):
            return subst(t, mp) if isinstance(t, Term) and contains(t, it["lv"]) else t

        def go(x):
            y = dict(x)
            y["g"] = f(x["g"])
            if x["loop"]:
                for k in ("n", "cond", "stop"):
                    y[k] = f(x[k])
                y["body"] = [go(z) for z in x["body"]]
            else:
                y["args"] = [f(z) for z in x["args"]]
                y["kw"] = {k: f(z) for k, z in x["kw"].items()}
                if x["recv"] is not None:
                    y["recv"] = f(x["recv"])
            return y

        r = dict(it)
        for k in ("cond", "stop"):
            r[k] = f(it[k])
        r["body"] = [go(z) for z in it["body"]]
        return r

    # generators ----------------------------------------------------------
    def yielded(self, f):
        pass


def overwritten(x, loc):
    """x is what loc holds after modelled stores into it"""
    if x.op == "ite":
        return overwritten(x.args[1], loc) or overwritten(x.args[2], loc)
    return x.op in ("fold", "arr", "updated_by", "stored", "concat", "collect") and contains(x, loc) and not has_op(x, "unk")


def log_entries(log):
    for e in log:
        if e[0] == "join":
            yield from log_entries(e[2])
            yield from log_entries(e[3])
        elif e[0] in ("w", "each"):
            yield e


def walk(tr):
    for x in tr:
        yield x
        if isinstance(x, LoopNode):
            yield from walk(x.body)

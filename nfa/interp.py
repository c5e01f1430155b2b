"""Value-flow analysis of Python functions.

A syntax-directed dataflow analysis that assigns every expression a value number
(a term, see terms.py), keeps a field/content heap, merges states at joins with
gated phi terms and summarises loops by their per-iteration transfer function.
Calls of functions of the analysed program are analysed in their caller's context
(inlined) unless they are listed in `stops`; effects that are visible outside are
recorded as a tree of events.  Nothing is executed."""
import ast
from .terms import *
from . import terms as T
from .arrays import *
from .arrays import Sl, NEWAXIS, ELL
from .state import *
from .prog import FuncInfo, walk_own


class Unsupported(Exception):
    pass


class Ev:
    """an effect: call of something external / of a stop, mutation, raise, yield..."""

    __slots__ = ("kind", "name", "recv", "args", "kw", "guard", "loops", "file", "line", "func", "ret", "heap", "facts", "seq", "extra")

    def __init__(self, kind, name, recv=None, args=(), kw=None, ret=None):
        self.kind, self.name, self.recv, self.args, self.kw, self.ret = kind, name, recv, tuple(args), dict(kw or {}), ret
        self.guard = TRUE
        self.loops = ()
        self.extra = None

    def where(self):
        return f"{self.file}:{self.line} in {self.func}"

    def __repr__(self):
        a = [show(x) for x in self.args] + [f"{k}={show(v)}" for k, v in self.kw.items()]
        r = (show(self.recv) + "." if self.recv is not None else "")
        g = "" if self.guard is TRUE else "  if " + show(self.guard)
        return f"{self.kind}:{r}{self.name}({', '.join(a)}){g} @{self.line}"


FRESH = {"numpy." + x for x in (
    "linalg.inv linalg.norm dot matmul cumsum cumprod sort argsort unique concatenate vstack hstack stack block tile repeat "
    "round around where array copy full zeros ones empty linspace arange random.random random.rand random.randint roll "
    "take outer cross meshgrid power exp log sin cos arctan2 floor ceil maximum minimum add subtract multiply divide "
    "loadtxt genfromtxt nan_to_num clip sum mean median std var min max prod argmin argmax delete insert append pad cov"
).split()}


class LoopNode:
    __slots__ = ("kind", "lv", "n", "cond", "body", "guard", "file", "line", "func", "facts", "stop", "loops", "info", "seq")

    def __init__(self, kind, lv, n):
        self.kind, self.lv, self.n = kind, lv, n
        self.cond = TRUE
        self.body = []
        self.guard = TRUE
        self.stop = FALSE
        self.loops = ()
        self.info = None

    def where(self):
        return f"{self.file}:{self.line} in {self.func}"

    def __repr__(self):
        return f"loop {show(self.lv)}<{show(self.n)} cond {show(self.cond)} stop {show(self.stop)}: {self.body!r}"


def walk_trace(tr):
    for x in tr:
        yield x
        if isinstance(x, LoopNode):
            yield from walk_trace(x.body)


class Out:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Frame:
    def __init__(self, fi, module):
        self.fi, self.module = fi, module
        self.cls = getattr(fi, "cls", None)
        self.self_name = None
        self.closure = None
        self.globals = set()
        self.nonlocals = set()


class Closure:
    def __init__(self, node, env, frame, fi):
        self.node, self.env, self.frame, self.fi = node, env, frame, fi


from .ops import OpsMixin, ext_name
from .ext import ExtMixin
from .loops import LoopMixin
from .stmts import StmtMixin


class Interp(OpsMixin, ExtMixin, LoopMixin, StmtMixin):
    MAXDEPTH = 30

    def __init__(self, prog, stops=(), attr_types=None, attr_shapes=None, tagbase=""):
        self.prog = prog
        self.stops = set(stops)
        self.stop_effects = {}
        self.trace = []
        self.trace_stack = []
        self.loops = []
        self.frames = []
        self.raise_sinks = []
        self.comp_depth = 0
        self.created = {}  # object -> condition of its creation
        self.unsupported = []
        self.closures = {}
        self.seq = 0
        self.nref = 0
        self.one_of_two = {}
        self.int_arrays = {}  # arrays created with an integer type: what is stored in them is truncated
        self.nobj = 0
        self.counts = {}
        self.calls_analysed = set()
        self.cur = None
        self.yields = []
        self.attr_types = attr_types or {}
        self.attr_shapes = attr_shapes or {}
        self.inline_stack = []
        self.evaluating = set()
        self.const_cache = {}
        self.shared, self.shared_writes = {}, []  # results of memoised functions, changes in place of them
        self.ncalls = 0
        self.returned_in_loop = None

    # ---------------------------------------------------------------- events
    def emit(self, st, ev):
        self.seq += 1
        ev.seq = self.seq
        ev.guard = st.guard()
        ev.loops = tuple(self.loops)
        ev.facts = st.facts
        ev.heap = dict(st.heap)
        self.locate(ev)
        self.trace.append(ev)
        return ev

    def locate(self, ev):
        f = self.frames[-1] if self.frames else None
        ev.file = f.module.rel if f else "?"
        ev.func = f.fi.qual if f and f.fi else "?"
        ev.line = getattr(self.cur, "lineno", 0)

    def note(self, what, node=None):
        f = self.frames[-1] if self.frames else None
        self.unsupported.append(
            (f.module.rel if f else "?", getattr(node or self.cur, "lineno", 0), what)
        )

    # ---------------------------------------------------------------- allocation
    def new_ref(self, st, content, tag="v"):
        if content.op == "ref" or content.op == "view":
            return content
        self.nref += 1
        r = mk("ref", self.nref, tag)
        st.heap[("c", r)] = content
        return r

    def wrap(self, st, t):
        """a freshly computed value: arrays / unknown values get their own memory"""
        k = ty(t)
        if t.op in ("ref", "view", "none", "true", "false", "num", "str", "class", "func", "extf", "bound", "clo", "obj"):
            return t
        if scalar_type(k) or isinstance(k, tuple) and k[0] in ("cls",):
            return t
        if k == "callable":
            return t
        if t.op == "tuple":
            return t
        return self.new_ref(st, t)

    def content(self, st, t, depth=0):
        op = t.op
        if op == "ref":
            return st.heap.get(("c", t), t)
        if op == "view":
            return self.view_content(self.content(st, t.args[0]), t.args[1])
        if op == "ite":
            c1, c2 = self.content(st, t.args[1]), self.content(st, t.args[2])
            r = self.one_of_two.get((t, c1, c2))
            return r if r is not None else ite(t.args[0], c1, c2)
        r = st.heap.get(("c", t))
        if r is not None:
            return r
        if op == "global":
            return getattr(self, "global_content", {}).get(t, t)
        r = self.each_content(st, t)
        if r is not None:
            return r
        return t

    def view_content(self, c, how):
        if how[0] == "idx":
            return index(c, [self._unidx(x) for x in how[1]])
        if how[0] == "T":
            return transpose(c)
        if how[0] == "reshape":
            return reshape(c, list(how[1]))
        raise Unsupported("view")

    @staticmethod
    def _idxkey(x):
        if isinstance(x, Sl):
            return ("sl", x.lo or NONE, x.hi or NONE, x.step or NONE)
        return x

    @staticmethod
    def _unidx(x):
        if isinstance(x, tuple) and x and x[0] == "sl":
            a = [None if y is NONE else y for y in x[1:]]
            return Sl(*a)
        return x

    def each_content(self, st, t):
        log = st.heap.get("eachc")
        if not log:
            return None
        for pat, var, cond, val in reversed(log):
            j = match_each(pat, t, var)
            if j is not None:
                c = subst(cond, {var: j})
                d = st.facts.decide(simplify(c, st.facts))
                v = subst(val, {var: j})
                if d is True:
                    return v
                if d is False:
                    continue
                return ite(c, v, t)
        return None

    def freeze(self, st, t, memo=None):
        """t with every reference replaced by its content"""
        if memo is None:
            memo = {}
        if t in memo:
            return memo[t]
        r = self._freeze(st, t, memo)
        memo[t] = r
        return r

    def _freeze(self, st, t, memo):
        if t.op in ("ref", "view"):
            memo[t] = t
            c = self.content(st, t)
            if c is t:
                return t
            return self.freeze(st, c, memo)
        if t.op in ("sym", "attr", "at"):
            c = self.content(st, t)
            if c is not t:
                memo[t] = t
                return self.freeze(st, c, memo)
        if not t.args:
            return t
        if t.op in ("attr",):
            return t
        if t.op in ("list", "tuple", "ite", "dict", "concat", "set", "kwset"):
            return rebuild(t, lambda x: self.freeze(st, x, memo))
        if has_op(t, "ref", "view"):
            return rebuild(t, lambda x: self.freeze(st, x, memo))
        return t

    # ---------------------------------------------------------------- fields
    def read_field(self, st, base, name):
        if base.op == "ite":
            return ite(
                base.args[0],
                self.read_field(st, base.args[1], name),
                self.read_field(st, base.args[2], name),
            )
        log = st.heap.get(("f", name), ())
        return self._read_log(st, log, len(log), base, name)

    def _read_log(self, st, log, n, base, name):
        for i in range(n - 1, -1, -1):
            ent = log[i]
            if ent[0] == "w":
                b = ent[1]
                if b is base:
                    return ent[2]
                m = may_alias(b, base, st.facts)
                if m is True:
                    return ent[2]
                if m is False:
                    continue
                return ite(m, ent[2], self._read_log(st, log, i, base, name))
            if ent[0] == "fx":
                old = self._read_log(st, log, i, base, name)
                return ent[1](self, st, base, name, old)
            if ent[0] == "join":
                return ite(
                    ent[1],
                    self._read_log(st, ent[2], len(ent[2]), base, name),
                    self._read_log(st, ent[3], len(ent[3]), base, name),
                )
            if ent[0] == "each":
                _, pat, var, cond, val = ent
                j = match_each(pat, base, var)
                if j is not None:
                    c = subst(cond, {var: j})
                    d = st.facts.decide(simplify(c, st.facts))
                    if d is True:
                        return subst(val, {var: j})
                    if d is False:
                        continue
                    return ite(c, subst(val, {var: j}), self._read_log(st, log, i, base, name))
                # another object: may it be an element of the list?
                if self.cannot_be(pat, base):
                    continue
                h = {var: mk("hole", "each")}
                return mk("aftr", base, name, subst(pat, h), subst(cond, h), subst(val, h))
        return self.initial_field(st, base, name)

    def cannot_be(self, pat, base):
        ka, kb = opt_strip(ty(pat)), opt_strip(ty(base))
        if isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] == kb[0] == "cls":
            return Ctx_disjoint(mk("class", ka[1]), mk("class", kb[1]))
        if base.op in ("class", "module"):
            return True
        if base.op == "obj" and not contains(pat, base):
            # a fresh object is no element of a list that existed before
            return not has_op(pat, "obj", "ref")
        if base.op == "sym" and pat.op != "sym":
            return isinstance(kb, tuple) and kb[0] == "cls" and isinstance(ka, tuple) and ka != kb
        return False

    def initial_field(self, st, base, name):
        if base.op == "obj":
            c = self.prog.classes.get(base.args[1])
            if c is not None:
                fa = self.prog.find_attr(c, name)
                if fa:
                    return self.class_attr(fa[0], name, fa[1], st)
            return mk("undef", base, name)
        if base.op == "global":
            r = getattr(self, "global_fields", {}).get((base, name))
            if r is not None:
                return r
        ep = st.heap.get(("e", base), 0)
        if ep:
            return mk("attr", base, name, ep)
        return mk("attr", base, name)

    def write_field(self, st, base, name, val):
        if base.op == "ite":
            c = base.args[0]
            for x, g in ((base.args[1], c), (base.args[2], not_(c))):
                old = self.read_field(st, x, name)
                self.write_field(st, x, name, ite(g, val, old))
            return
        log = st.heap.get(("f", name), ())
        log = tuple(e for e in log if not (e[0] == "w" and e[1] is base)) + (("w", base, val),)
        st.heap[("f", name)] = log

    def set_content(self, st, loc, c):
        """update the memory location loc"""
        if loc.op == "view":
            how = loc.args[1]
            base = loc.args[0]
            if how[0] == "idx":
                a = row_changed(self.content(st, base), how[1], c)
                self.set_content(
                    st, base, a if a is not None else store(self.content(st, base), [self._unidx(x) for x in how[1]], c)
                )
            elif how[0] == "T":
                self.set_content(st, base, transpose(c))
            elif how[0] == "reshape":
                sh = shape(self.content(st, base))
                if sh is None:
                    self.set_content(st, base, mk("opaque", "reshaped-store", base, c))
                else:
                    self.set_content(st, base, reshape(c, list(sh)))
            return
        if loc.op == "ite":
            g = loc.args[0]
            for x, k in ((loc.args[1], g), (loc.args[2], not_(g))):
                self.set_content(st, x, ite(k, c, self.content(st, x)))
            # what either holds now is c, whichever it is
            self.one_of_two[loc, self.content(st, loc.args[1]), self.content(st, loc.args[2])] = c
            return
        d = self.int_arrays.get(loc)
        if d is not None:
            from .methods import cast

            f = self.trunc if d in ("int", "int32", "int64") else lambda x: cast(x, mk("str", (d,)))
            c = ew(f, c) if is_arr(c) else mk("call", "cast", (c, mk("str", (d,))), ())
        st.heap[("c", loc)] = c

    def may_alias(self, c):
        """the value of an unmodelled function, which may be a view of its argument"""
        while c.op in ("at", "stored", "attr") and c.args:
            c = c.args[0]
        if c.op == "call" and isinstance(c.args[0], str) and c.args[0].startswith("numpy.") and c.args[0] not in FRESH:
            if any(not scalar_type(ty(x)) for x in c.args[1]):
                self.note("change in place of the result of " + c.args[0])

    def mutate(self, st, loc, c, what):
        self.may_alias(self.content(st, loc))
        if self.shared:
            from .unit import roots

            for r, _ in roots(self, st, loc):
                if r in self.shared:
                    f = self.frames[-1]
                    self.shared_writes.append(("%s:%d in %s" % (f.module.rel, getattr(self.cur, "lineno", 0), f.fi.qual), self.shared[r]))
        self.set_content(st, loc, c)
        ev = Ev("mut", what, recv=loc)
        self.emit(st, ev)

    def bump(self, st, base):
        """an opaque call on `base` may have changed its fields"""
        k = st.heap.get(("e", base), 0) + 1
        st.heap[("e", base)] = k
        for key in [x for x in st.heap if x[0] == "f"]:
            log = st.heap[key]
            if any(e[0] == "w" and e[1] is base for e in log):
                st.heap[key] = tuple(e for e in log if not (e[0] == "w" and e[1] is base)) + (
                    ("w", base, mk("attr", base, key[1], k)),
                )

    # ---------------------------------------------------------------- joins
    def join(self, sts):
        """merge states (pairwise disjoint path conditions)"""
        sts = [s for s in sts if s is not None and not s.dead]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        r, _ = self.join_vals([(s, None) for s in sts])
        return r

    def join_vals(self, items):
        """items: [(state, value or None)] -> (state, value)"""
        if len(items) == 1:
            return items[0]
        # common prefix of the path literals
        pre = 0
        first = items[0][0].pc
        while all(len(s.pc) > pre and pre < len(first) and s.pc[pre] is first[pre] for s, _ in items):
            pre += 1
        lit = None
        for s, _ in items:
            if len(s.pc) > pre:
                x = s.pc[pre]
                nx = not_(x)
                yes = [it for it in items if len(it[0].pc) > pre and it[0].pc[pre] is x]
                no = [it for it in items if len(it[0].pc) > pre and it[0].pc[pre] is nx]
                if yes and no and len(yes) + len(no) == len(items):
                    lit = x
                    break
        if lit is not None:
            a = self.join_vals(yes)
            b = self.join_vals(no)
            return self._join2(lit, a, b, pre)
        # fall back: split off the first item
        s0, _ = items[0]
        sel = and_(*s0.pc[pre:])
        rest = self.join_vals(items[1:])
        return self._join2(sel, items[0], rest, pre)

    def _join2(self, sel, a, b, pre):
        (sa, va), (sb, vb) = a, b
        if sa is sb:
            return a
        pc = sa.pc[:pre]
        ga, gb = and_(*sa.pc[pre:]), and_(*sb.pc[pre:])
        rest = or_(ga, gb)
        f = Facts()
        f = self._facts_of(pc)
        env = self._join_env(sel, sa.env, sb.env)
        heap = self._join_heap(sel, sa, sb)
        st = State(env, heap, pc, f, sa.frame)
        if rest is not TRUE:
            st.pc = pc + (rest,)
            st.facts = f.with_(rest)
        v = None
        if va is not None or vb is not None:
            v = ite(sel, va if va is not None else NONE, vb if vb is not None else NONE)
        return st, v

    def _facts_of(self, pc):
        f = self.entry_facts.copy()
        for c in pc:
            f.assume(c)
        return f

    def _join_env(self, sel, a, b):
        if a is b:
            return a
        env = {}
        for k in a:
            x = a[k]
            if k in b:
                y = b[k]
                env[k] = x if x is y else ite(sel, x, y)
            else:
                env[k] = ite(sel, x, mk("unbound", k))
        for k in b:
            if k not in a:
                env[k] = ite(sel, mk("unbound", k), b[k])
        return env

    def _join_heap(self, sel, sa, sb):
        a, b = sa.heap, sb.heap
        heap = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k), b.get(k)
            if x is y or x == y:
                heap[k] = x
                continue
            if k == "eachc":
                heap[k] = self._join_each(sel, x or (), y or ())
            elif k[0] == "c":
                x = k[1] if x is None else x
                y = k[1] if y is None else y
                heap[k] = x if x is y else ite(sel, x, y) if not (k[1].op == "ref" and (x is k[1] or y is k[1])) else (
                    y if x is k[1] else x
                )
            elif k[0] == "e":
                heap[k] = max(x or 0, y or 0)
            elif k[0] == "f":
                heap[k] = self._join_log(sel, sa, sb, k[1], x or (), y or ())
            else:
                heap[k] = x if x is not None else y
        return heap

    def _join_each(self, sel, x, y):
        n = 0
        while n < min(len(x), len(y)) and x[n] == y[n]:
            n += 1
        out = list(x[:n])
        for e in x[n:]:
            out.append((e[0], e[1], and_(sel, e[2]), e[3]))
        for e in y[n:]:
            out.append((e[0], e[1], and_(not_(sel), e[2]), e[3]))
        return tuple(out)

    def _join_log(self, sel, sa, sb, name, x, y):
        n = 0
        while n < min(len(x), len(y)) and x[n] == y[n]:
            n += 1
        # a write of the common part may have been replaced by a later one
        out = list(x[:n])
        xs, ys = x[n:], y[n:]
        if any(e[0] in ("fx", "join") for e in xs + ys):
            return (("join", sel, x, y),)
        if any(e[0] == "each" for e in xs + ys):
            for e in xs:
                out.append(
                    ("each", e[1], e[2], and_(sel, e[3]), e[4])
                    if e[0] == "each"
                    else ("w", e[1], ite(sel, e[2], self._read_log(sb, y, len(y), e[1], name)))
                )
            for e in ys:
                if e[0] == "each":
                    out.append(("each", e[1], e[2], and_(not_(sel), e[3]), e[4]))
                elif not any(o[0] == "w" and o[1] is e[1] for o in out):
                    out.append(("w", e[1], ite(sel, self._read_log(sa, x, len(x), e[1], name), e[2])))
            return tuple(out)
        bases = []
        for e in xs + ys:
            if e[1] not in bases:
                bases.append(e[1])
        for b in bases:
            va = self._read_log(sa, x, len(x), b, name)
            vb = self._read_log(sb, y, len(y), b, name)
            out = [e for e in out if not (e[0] == "w" and e[1] is b)]
            out.append(("w", b, va if va is vb else ite(sel, va, vb)))
        return tuple(out)

    # ---------------------------------------------------------------- functions
    def call_function(self, st, fi, args, kw, closure=None, recv=None, node=None):
        """analyse a call of a function of the program; returns the value term and
        leaves the effects in st"""
        bound = self.bind(st, fi.node, args, kw, fi, closure)
        if bound is None:
            self.note("arguments of " + fi.qual)
            return mk("opaque", "badcall", fi.qual)
        if fi.is_gen and self.inline_stack:
            t = mk("call", "gen:" + fi.qual, tuple(self.freeze(st, v) for v in bound.values()), ())
            self.emit(st, Ev("call", fi.qual, None, (), {k: self.freeze(st, v) for k, v in bound.items()}, t))
            return t
        if fi.qual in self.stops and self.inline_stack:
            return self.call_stop(st, fi, bound)
        if fi.abstract:
            return self.opaque_call(st, fi.qual, list(bound.values()), {})
        if fi.decorated and self.inline_stack:
            self.note("decorator %s of %s" % (fi.decorated[0], fi.qual))
            return self.opaque_call(st, fi.qual, list(bound.values()), {})
        if self.inline_stack.count(fi.qual) >= 2 or len(self.inline_stack) > self.MAXDEPTH:
            self.note("recursion " + fi.qual)
            return mk("call", fi.qual, tuple(self.freeze(st, v) for v in bound.values()), ())
        self.calls_analysed.add(fi.qual)
        v = self.run_body(st, fi, bound, closure)
        if fi.cached and self.inline_stack:
            self.cached_result(st, v, fi)
        return v

    def cached_result(self, st, v, fi):
        """a memoised function hands out the same object at each call"""
        from .unit import roots

        if fi.cached == "cached_property":
            self.note("cached property " + fi.qual)
        for r, own in roots(self, st, v):
            if own:
                self.shared[r] = fi.qual

    def run_body(self, st, fi, bound, closure=None):
        fr = Frame(fi, fi.module)
        fr.closure = closure
        self.frames.append(fr)
        self.inline_stack.append(fi.qual)
        cur = self.cur
        saved_env, saved_pc, saved_frame = st.env, st.pc, st.frame
        inner = st.copy()
        inner.env = dict(bound)
        inner.frame = fr
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body, inner)
                outs = [Out("return", inner, v)]
            else:
                for s in fi.node.body:
                    if isinstance(s, (ast.Global, ast.Nonlocal)):
                        fr.globals.update(s.names)
                outs = self.block(fi.node.body, [inner])
        finally:
            self.frames.pop()
            self.inline_stack.pop()
            self.cur = cur
        rets, raises = [], []
        for o in outs:
            if o.st is None or o.st.dead:
                continue
            if o.kind == "return":
                rets.append((o.st, o.val))
            elif o.kind == "normal":
                rets.append((o.st, NONE))
            elif o.kind == "raise":
                raises.append(o)
        for o in raises:
            s = o.st
            s.env = saved_env
            s.frame = saved_frame
            if self.raise_sinks:
                self.raise_sinks[-1].append(o)
        if not rets:
            st.dead = True
            return mk("undef", "noreturn")
        rs, v = self.join_vals(rets)
        st.heap = rs.heap
        st.pc = rs.pc
        st.facts = rs.facts
        st.env = saved_env
        st.frame = saved_frame
        return v

    def call_stop(self, st, fi, bound):
        frozen = {k: self.freeze(st, v) for k, v in bound.items()}
        recv = None
        kw = dict(frozen)
        if fi.cls is not None and fi.kind in ("function", "property", "classmethod"):
            k0 = next(iter(bound), None)
            if k0 is not None:
                recv = bound[k0]
                kw.pop(k0)
        eff = self.stop_effects.get(fi.qual)
        ret = mk("ret", fi.qual, tuple(sorted((k, v) for k, v in frozen.items())))
        ev = Ev("call", fi.qual, recv, (), kw, ret)
        ev.extra = bound
        self.emit(st, ev)
        if eff is not None:
            r = eff(self, st, bound, ev)
            if r is not None:
                ev.ret = r
                return r
        return ret

    def bind(self, st, node, args, kw, fi, closure=None):
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        star = None
        for i, v in enumerate(args):
            if v.op == "starred":
                star = (i, v.args[0])
                break
        if star:
            c = self.content(st, star[1])
            if c.op in ("list", "tuple") :
                args[star[0] : star[0] + 1] = list(c.args)
                return self.bind(st, node, args, kw, fi, closure)
            if not a.vararg:
                return None
        for i, v in enumerate(args):
            if i < len(params):
                out[params[i]] = v
        extra = args[len(params) :]
        if a.vararg:
            out[a.vararg.arg] = mk("tuple", *extra)
        elif extra:
            return None
        allp = params + [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k == "**":
                c = self.content(st, v)
                if c.op == "dict" and all(p[0].op == "str" for p in c.args):
                    for kk, vv in c.args:
                        if str_value(kk) in allp:
                            out[str_value(kk)] = vv
                        else:
                            rest[str_value(kk)] = vv
                elif a.kwarg:
                    rest["**"] = v
                else:
                    return None
            elif k in allp:
                if k in out:
                    return None
                out[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            if set(rest) == {"**"}:
                out[a.kwarg.arg] = rest["**"]
            else:
                out[a.kwarg.arg] = self.new_ref(st, mk("dict", *[(mk("str", (k,)), v) for k, v in sorted(rest.items())]))
        elif rest:
            return None
        defs = list(zip(params[len(params) - len(a.defaults) :], a.defaults)) + [
            (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None
        ]
        for k, d in defs:
            if k not in out:
                out[k] = self.default_value(st, fi, k, d, closure)
        for p in allp:
            if p not in out:
                return None
        # keep declaration order
        order = [p for p in params] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + (
            [a.kwarg.arg] if a.kwarg else []
        )
        return {p: out[p] for p in order if p in out}

    def default_value(self, st, fi, name, expr, closure):
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        if closure is not None and name in getattr(closure, "defaults", {}):
            return closure.defaults[name]
        try:
            return self.module_expr(fi.module, expr, ("default", fi.qual, name))
        except Unsupported:
            return mk("defval", fi.qual, name)

    # ------------------------------------------------------------ module constants
    def module_expr(self, module, expr, key):
        """value of an expression evaluated at import time; mutable values are
        identified by their key (a process-wide location)"""
        if key in self.const_cache:
            return self.const_cache[key]
        if key in self.evaluating:
            return mk("global", *map(str, key))
        self.evaluating.add(key)
        fr = Frame(FuncInfo(module, ast.parse("def _m(): pass").body[0], module.name + ".<module>"), module)
        saved = (self.trace, self.loops, self.raise_sinks, self.cur)
        self.trace, self.loops, self.raise_sinks = [], [], [[]]
        self.frames.append(fr)
        st = State({}, {}, (), self.entry_facts.copy(), fr)
        try:
            v = self.eval(expr, st)
            c = self.freeze(st, v)
            if v.op == "ref" and c.op not in ("obj", "dict", "list", "set") and ty(c) == "arr":
                # an array made at import time
                loc = mk("global", *map(str, key))
                T.Ctx.types[loc] = "arr"
                self.global_content = getattr(self, "global_content", {})
                self.global_content[loc] = c
                r = loc
            elif c.op in ("dict", "list", "set") and v.op == "ref" and key[-1] in self.prog.mutated:
                # changed by some function: what it holds now is not known
                r = mk("global", *map(str, key))
                T.Ctx.types[r] = c.op if c.op != "dict" else ("dict", None)
            elif c.op == "obj" or c.op in ("dict", "list", "set") and v.op == "ref":
                loc = mk("global", *map(str, key))
                if c.op == "obj":
                    T.Ctx.types[loc] = ("cls", c.args[1])
                    self.global_fields = getattr(self, "global_fields", {})
                    for k, log in st.heap.items():
                        if k[0] == "f":
                            for e in log:
                                if e[0] == "w" and e[1] is c:
                                    self.global_fields[(loc, k[1])] = self.freeze(st, e[2])
                    r = loc
                else:
                    self.global_content = getattr(self, "global_content", {})
                    self.global_content[loc] = c
                    r = loc
            else:
                r = c
        finally:
            self.frames.pop()
            self.trace, self.loops, self.raise_sinks, self.cur = saved
            self.evaluating.discard(key)
        self.const_cache[key] = r
        return r

    def class_attr(self, c, name, expr, st):
        if (c.qual, name) in self.prog.global_writes:
            base = mk("class", c.qual)
            log = st.heap.get(("f", name), ())
            for e in reversed(log):
                if e[0] == "w" and e[1] is base:
                    return e[2]
            return mk("attr", base, name)
        return self.class_const(c, name, expr)

    def class_const(self, c, name, expr):
        # names in the class body resolve to earlier class attributes first
        if isinstance(expr, ast.Name) and expr.id in c.attrs and expr.id != name:
            return self.class_const(c, expr.id, c.attrs[expr.id])
        return self.module_expr(c.module, expr, ("classattr", c.qual, name))

    def lookup_global(self, st, module, name):
        for e in reversed(st.heap.get(("f", name), ())):
            if e[0] == "w" and e[1] is mk("module", module.name):
                return e[2]
        r = self.prog.resolve(module, name)
        if r is None:
            return None
        return self.binding_value(st, r)

    def binding_value(self, st, r):
        if r[0] == "func":
            return mk("func", r[1])
        if r[0] == "class":
            return mk("class", r[1])
        if r[0] == "module":
            return mk("module", r[1])
        if r[0] == "ext":
            return ext_name(r[1])
        if r[0] == "expr":
            _, m, e, n = r
            if (m.name, n) in self.prog.global_writes:
                return mk("attr", mk("module", m.name), n)
            v = self.module_expr(m, e, ("global", m.name, n))
            return v
        raise Unsupported(str(r))


def row_changed(A, ix, row):
    """the matrix A whose row ix is now `row`, with what row kept of A said of every row"""
    if len(ix) != 1 or not isinstance(ix[0], Term) or not is_arr(A) or rank(A) != 2 or is_arr(ix[0]):
        return None
    if not is_arr(row) or rank(row) != 1 or ix[0].op == "num":
        return None
    i = ix[0]
    old = elem(A, [i, IX(0)])
    if old.op not in ("at", "phi") or not contains(elem(row, [IX(0)]), old):
        return None
    mark = mk("sym", "kept#")
    e = T.subst(elem(row, [IX(0)]), {old: mark})
    e = T.subst(T.subst(e, {IX(0): IX(1)}), {mark: elem(A, [IX(0), IX(1)])})
    c, keep = eq(IX(0), i), elem(A, [IX(0), IX(1)])
    while e.op == "ite" and (e.args[2] is keep or e.args[1] is keep):
        c, e = (and_(c, e.args[0]), e.args[1]) if e.args[2] is keep else (and_(c, not_(e.args[0])), e.args[2])
    return mkarr(shape(A), ite(c, e, keep))

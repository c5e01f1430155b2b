"""Calls: functions of the program, classes, builtins, methods of builtin types,
numpy and other externals."""
import ast
import re
from .terms import *
from . import terms as T
from .arrays import *
from .arrays import Sl, NEWAXIS, ELL
from .state import *
from . import npmodel
from .npmodel import SIGS, NP, PURE_EXT, NumpyMixin
from .methods import MethodMixin


def _num_const(t):
    return t.op == "num"


class ExtMixin(MethodMixin, NumpyMixin):
    # ------------------------------------------------------------------ dispatch
    def e_Call(self, n, st):
        f = self.eval(n.func, st)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                c = self.content(st, v)
                if c.op in ("list", "tuple"):
                    args.extend(c.args)
                else:
                    args.append(mk("starred", v))
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                c = self.content(st, v)
                if c.op == "dict" and all(is_str_const(x) for x, _ in c.args):
                    for x, w in c.args:
                        kw[str_value(x)] = w
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        self.cur = n
        if st.dead:
            return NONE
        return self.call(st, f, args, kw, n)

    def call(self, st, f, args, kw, node=None):
        if f.op == "ite":
            return self.call_ite(st, f, args, kw, node)
        f = self.content(st, f) if f.op == "ref" else f
        op = f.op
        if op == "ite":
            return self.call_ite(st, f, args, kw, node)
        if op == "func":
            fi = self.prog.functions.get(f.args[0]) or self.func_by_qual(f.args[0])
            return self.call_function(st, fi, args, kw)
        if op == "bound":
            fi = self.func_by_qual(f.args[1])
            return self.call_function(st, fi, [f.args[0]] + list(args), kw)
        if op == "class":
            return self.construct_obj(st, f.args[0], args, kw)
        if op == "clo":
            c = self.closures[f]
            return self.call_function(st, c.fi, args, kw, c)
        if op == "partial":
            kk = {k: v for k, v in f.args[2]}
            kk.update(kw)
            return self.call(st, f.args[0], list(f.args[1]) + list(args), kk, node)
        if op == "bmeth":
            return self.call_method(st, f.args[0], f.args[1], args, kw, node)
        if op == "extf":
            return self.call_ext(st, f.args[0], args, kw, node)
        if op == "attr":
            return self.call_method(st, f.args[0], f.args[1], args, kw, node, fval=f)
        if op == "const" or op == "undef":
            return mk("undef", "call")
        # an unknown callable
        c = self.class_of(f)
        if c is not None:
            m = self.prog.find_method(c, "__call__")
            if m is not None:
                return self.call_function(st, m, [f] + list(args), kw)
        return self.opaque_call(st, f, args, kw)

    def call_ite(self, st, f, args, kw, node):
        g = self.known(st, f.args[0])
        if g is TRUE or g is FALSE:
            return self.call(st, f.args[1] if g is TRUE else f.args[2], args, kw, node)
        s1, s2 = st.branch(g), st.branch(not_(g))
        if s1 is None:
            return self.call(st, f.args[2], args, kw, node)
        if s2 is None:
            return self.call(st, f.args[1], args, kw, node)
        a = self.call(s1, f.args[1], args, kw, node)
        b = self.call(s2, f.args[2], args, kw, node)
        return self.merge_vals(st, g, s1, a, s2, b)

    def merge_vals(self, st, g, s1, a, s2, b):
        if s1.dead and s2.dead:
            st.dead = True
            return NONE
        if s1.dead:
            self.replace(st, s2)
            return b
        if s2.dead:
            self.replace(st, s1)
            return a
        self.merge_into(st, g, s1, s2)
        return ite(g, a, b)

    def func_by_qual(self, q):
        f = self.prog.functions.get(q)
        if f is not None:
            return f
        c, _, m = q.rpartition(".")
        k = self.prog.classes.get(c)
        if k is not None:
            return k.methods.get(m) or k.setters.get(m)
        return None

    def construct_obj(self, st, qual, args, kw):
        c = self.prog.classes[qual]
        if qual in self.stops:
            init = self.prog.find_method(c, "__init__")
            o = self.new_obj(qual)
            self.created[o] = st.guard()
            bound = self.bind(st, init.node, [o] + list(args), kw, init) if init else {}
            if bound is None:
                self.note("arguments of " + qual)
                return mk("opaque", "badcall", qual)
            ps = list(bound)
            fk = {k: self.freeze(st, v) for k, v in bound.items() if not ps or k != ps[0]}
            from .interp import Ev

            ev = Ev("call", qual, None, (), fk, o)
            ev.extra = bound
            self.emit(st, ev)
            eff = self.stop_effects.get(qual)
            if eff is not None:
                eff(self, st, bound, ev)
            return o
        o = self.new_obj(qual)
        self.created[o] = st.guard()
        init = self.prog.find_method(c, "__init__")
        if init is not None:
            self.call_function(st, init, [o] + list(args), kw)
        elif args or kw:
            # base class outside the program
            self.opaque_call(st, mk("class", qual), args, kw)
        return o

    def new_obj(self, qual):
        self.nobj += 1
        return mk("obj", self.nobj, qual, *[l.lv for l in self.loops])

    # ------------------------------------------------------------------ opaque calls
    def opaque_call(self, st, f, args, kw):
        """a call whose callee is not part of the analysed program"""
        from .interp import Ev

        name = f if isinstance(f, str) else None
        fargs = tuple(self.freeze(st, a) for a in args)
        fkw = tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items()))
        cal = mk("extf", name) if name else f
        self.ncalls += 1
        t = mk("ucall", cal, fargs, fkw)
        ev = Ev("ucall", name or "", cal, fargs, dict(fkw), t)
        ev.extra = tuple(args)
        self.emit(st, ev)
        return t

    def ext_event(self, st, name, args, kw, t, recv=None):
        from .interp import Ev

        fa = tuple(self.freeze(st, a) for a in args)
        fk = {k: self.freeze(st, v) for k, v in kw.items()}
        ev = Ev("ecall", name, recv, fa, fk, t)
        ev.extra = tuple(args)
        return self.emit(st, ev)

    # ------------------------------------------------------------------ types
    def isinstance_(self, x, c):
        if c.op in ("tuple", "list"):
            return or_(*[self.isinstance_(x, k) for k in c.args])
        if x.op == "ite":
            return ite(x.args[0], self.isinstance_(x.args[1], c), self.isinstance_(x.args[2], c))
        if x is NONE:
            return TRUE if c is mk("extf", "builtins.object") else FALSE
        k = ty(x)
        opt = isinstance(k, tuple) and k[0] == "opt"
        k = opt_strip(k)
        yes = not_(isnone(x)) if opt else TRUE
        if c.op == "class":
            if isinstance(k, tuple) and k[0] == "cls":
                kc = self.prog.classes.get(k[1])
                if kc is not None:
                    if any(m.qual == c.args[0] for m in self.prog.mro(kc)):
                        return yes
                    if Ctx_disjoint(mk("class", k[1]), c):
                        return FALSE
                elif k[1] == c.args[0]:
                    return yes
            elif k is not None:
                return FALSE
        elif c.op == "extf":
            n = c.args[0]
            if n in ("typing.Callable", "typing_extensions.Callable"):
                n = "collections.abc.Callable"
            if n.startswith("typing.") and n[7:].lower() in ("list", "dict", "tuple", "set"):
                n = "builtins." + n[7:].lower()
            table = {
                "builtins.str": "str",
                "builtins.int": "int",
                "builtins.float": "float",
                "builtins.bool": "bool",
                "numpy.ndarray": "arr",
                "builtins.list": "list",
                "builtins.tuple": "tuple",
                "builtins.dict": "dict",
            }
            if n in table and k is not None:
                w = table[n]
                kk = k[0] if isinstance(k, tuple) else k
                if kk == w or (w == "int" and kk == "bool"):
                    if w == "float":
                        return mk("isinst", x, n)
                    return yes
                if kk in ("num",) and w in ("int", "float"):
                    return mk("isinst", x, n)
                if kk == "float" and w in ("int", "float"):
                    return mk("isinst", x, n)
                if kk == "int" and w == "float":
                    return mk("isinst", x, n) if x.op != "num" else FALSE
                if kk == "callable":
                    return FALSE
                return FALSE
            if x.op in ("list", "concat", "collect", "rep"):
                return TRUE if n == "builtins.list" else mk("isinst", x, n)
            if n == "collections.abc.Callable" and k == "callable":
                return TRUE
            return mk("isinst", x, n)
        name = c.args[0] if c.op in ("class", "extf") else c
        return mk("isinst", x, name)

    # ------------------------------------------------------------------ builtins
    def call_ext(self, st, name, args, kw, node):
        if name.startswith("builtins."):
            m = getattr(self, "b_" + name[9:], None)
            if m is not None:
                r = m(st, args, kw)
                if r is not None:
                    return r
            return self.generic_ext(st, name, args, kw)
        if name.startswith("numpy.") or name in NP:
            r = self.call_numpy(st, name, args, kw)
            if r is not None:
                return r
            return self.generic_ext(st, name, args, kw)
        m = getattr(self, "x_" + name.replace(".", "_"), None)
        if m is not None:
            r = m(st, args, kw)
            if r is not None:
                return r
        return self.generic_ext(st, name, args, kw)

    def norm_args(self, name, args, kw):
        """positional / keyword normalisation for externals with a known signature"""
        sig = SIGS.get(name)
        if sig is None or any(a.op == "starred" for a in args) or "**" in kw:
            return list(args), dict(kw)
        params, defaults = sig
        kw = dict(kw)
        for p, a in zip(params, args):
            kw.setdefault(p, a)
        for p, d in defaults.items():
            if p in kw and kw[p] is d:
                del kw[p]
        return list(args[len(params):]), kw

    def regex_test(self, st, name, args, kw):
        """a test against a constant pattern of fixed length"""
        import re._parser as sre

        if name not in ("re.match", "re.fullmatch") or len(args) != 2 or kw:
            return None
        p, s = [self.freeze(st, a) for a in args]
        if not is_str_const(p):
            return None
        if is_str_const(s):
            try:
                if getattr(re, name[3:])(str_value(p), str_value(s)) is None:
                    return NONE
            except re.error:
                return None

        def classes(items):
            out = []
            for op, av in items:
                op = str(op)
                if op == "LITERAL":
                    out.append(frozenset([av]))
                elif op == "IN":
                    cs = set()
                    for o, v in av:
                        if str(o) == "LITERAL":
                            cs.add(v)
                        elif str(o) == "RANGE":
                            cs.update(range(v[0], v[1] + 1))
                        elif str(o) == "CATEGORY" and str(v) == "CATEGORY_DIGIT":
                            cs.update(range(48, 58))
                        else:
                            return None
                    out.append(frozenset(cs))
                elif op == "MAX_REPEAT" and av[0] == av[1]:
                    sub = classes(av[2])
                    if sub is None:
                        return None
                    out += sub * av[0]
                elif op == "SUBPATTERN":
                    sub = classes(av[3])
                    if sub is None:
                        return None
                    out += sub
                elif op == "AT" and str(av) in ("AT_END", "AT_END_STRING"):
                    out.append("end")
                elif op == "AT" and str(av) in ("AT_BEGINNING", "AT_BEGINNING_STRING") and not out:
                    pass
                else:
                    return None
            return out

        try:
            cs = classes(sre.parse(str_value(p)))
        except Exception:
            return None
        if cs is None or "end" in cs[:-1]:
            return None
        if name == "re.fullmatch" and cs[-1:] != ["end"]:
            cs.append("end")
        key = ";".join(c if c == "end" else "".join("%04x" % x for x in sorted(c)) for c in cs)
        if is_str_const(s):
            return mk("obj", "re.Match", "re.Match")
        return mk("call", "~regex", (const(key), s), ())

    def generic_ext(self, st, name, args, kw):
        t = self.regex_test(st, name, args, kw) if name.startswith("re.") else None
        if t is not None:
            return t
        args, kw = self.norm_args(name, args, kw)
        fa = tuple(self.freeze(st, a) for a in args)
        fk = tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items()))
        pure = name in PURE_EXT or name.startswith(("numpy.", "math.", "re.", "os.path.", "scipy.", "builtins.")) and name not in npmodel.IMPURE
        if pure:
            t = mk("call", name, fa, fk)
            k = npmodel.RET_TYPES.get(name)
            if k is not None:
                T.Ctx.types.setdefault(t, k)
            sh = npmodel.ret_shape(self, name, fa, dict(fk))
            if sh is not None:
                T.Ctx.shapes[t] = sh
            self.ext_event(st, name, args, kw, t).kind = "pcall"
            parts = npmodel.ret_parts(name, t, dict(fk))
            if parts is not None:
                return parts
            return self.wrap(st, t) if ty(t) == "arr" else t
        i = npmodel.MUTATES.get(name)
        if i is not None and getattr(self, "draw_events", False) and kw.get(i) is not None:
            # what is drawn on which image matters, not the pixels
            loc = kw[i]
            img = dict(fk)[i]
            if loc.op == "ref":
                img = mk("private_image", img)
            kw = dict(kw, **{i: img})
            fk = tuple(sorted((k, img if k == i else v) for k, v in fk))
            self.ext_event(st, name, args, kw, self.impure_term(st, name, fa, fk))
            return loc
        t = self.impure_term(st, name, fa, fk)
        k = npmodel.RET_TYPES.get(name)
        if k is not None:
            T.Ctx.types.setdefault(t, k)
        if name == "numpy.loadtxt" and dict(fk).get("ndmin") is num(2):
            T.Ctx.shapes[t] = (dim(t, 0), dim(t, 1))
        self.ext_event(st, name, args, kw, t)
        if i is not None:
            loc = kw.get(i) if isinstance(i, str) else None
            if loc is not None:
                self.draw_on(st, loc, t)
                return loc
        return t

    def draw_on(self, st, loc, t):
        c = self.content(st, loc)
        new = mk("drawn", t)
        T.Ctx.types[new] = "arr"
        sh = shape(c)
        if sh is not None:
            T.Ctx.shapes[new] = sh
        else:
            T.Ctx.shapes.pop(new, None)
        self.drawn_shape(c, new)
        self.mutate(st, loc, new, "draw")

    def drawn_shape(self, c, new):
        self.same_shape = getattr(self, "same_shape", {})
        self.same_shape[new] = self.same_shape.get(c, c)

    def impure_term(self, st, name, fa, fk):
        key = (name, fa, fk)
        k = self.counts.get(key, 0)
        self.counts[key] = k + 1
        lvs = tuple(l.lv for l in self.loops)
        return mk("ext", name, fa, fk, k, lvs)

    def b_print(self, st, a, kw):
        f = kw.get("file")
        if f is None or opt_strip(ty(f)) != "file" or any(x.op == "starred" for x in a) or set(kw) - {"file", "sep", "end", "flush"}:
            return None
        sep = self.freeze(st, kw["sep"]) if "sep" in kw else cstr(" ")
        end = self.freeze(st, kw["end"]) if "end" in kw else cstr("\n")
        parts = []
        for x in a:
            parts += ([sep] if parts else []) + [self.to_str(self.freeze(st, x))]
        self.file_write(st, f, cstr(*parts, end))
        return NONE

    def b_isinstance(self, st, a, kw):
        x = self.content(st, a[0])
        if a[0].op in ("obj", "sym", "attr", "at") and x is not a[0] and ty(a[0]) is not None:
            x = a[0]
        c = self.content(st, a[1])
        return self.isinstance_(x, c)

    def b_issubclass(self, st, a, kw):
        return mk("call", "issubclass", (a[0], a[1]), ())

    def b_type(self, st, a, kw):
        x = self.content(st, a[0])
        k = ty(a[0])
        if a[0].op == "obj":
            return mk("class", a[0].args[1])
        return mk("typeof", self.freeze(st, a[0]))

    def b_str(self, st, a, kw):
        if not a:
            return cstr("")
        return self.to_str(self.freeze(st, a[0]))

    def b_repr(self, st, a, kw):
        return mk("str", (mk("fmt", self.freeze(st, a[0]), mk("str", ("!r",))),))

    def b_len(self, st, a, kw):
        c = self.content(st, a[0])
        if c.op == "set":
            return mk("call", "len", (self.freeze(st, c),), ())
        return self.length(st, c)

    def length(self, st, c):
        if c.op == "ite":
            return ite(c.args[0], self.length(st, c.args[1]), self.length(st, c.args[2]))
        if c.op == "call" and c.args[0] in ("dict.items", "dict.keys", "dict.values"):
            return dim(c.args[1][0], 0)
        if c.op == "concat":
            r = ZERO
            for p in c.args:
                r = add(r, self.length(st, p))
            return r
        if c.op == "collect":
            n, cond, body, k = c.args
            i = fresh_index()
            cc, bb = subst(cond, {BV(k): i}), subst(body, {BV(k): i})
            if bb.op == "splice":
                inner = self.length(st, bb.args[0])
            else:
                inner = ONE
            return close_red("sum", n, ite(cc, inner, ZERO), i)
        if c.op == "slice_of" and len(c.args[1]) == 1:
            s = c.args[1][0]
            n = self.length(st, c.args[0])
            lo, hi, step = s.args
            if lo is NONE and step is NONE and hi.op == "num":
                if hi.args[0] < 0:
                    return max2(ZERO, add(n, hi))
                return min2(n, hi)
            if hi is NONE and step is NONE and lo.op == "num":
                if lo.args[0] >= 0:
                    return max2(ZERO, T.sub(n, lo))
                return min2(n, neg(lo))
        c = self.freeze_shallow(st, c)
        return dim(c, 0)

    def freeze_shallow(self, st, c):
        if c.op in ("list", "tuple", "dict"):
            return c
        return self.freeze(st, c)

    def b_int(self, st, a, kw):
        if not a:
            return ZERO
        x = self.content(st, a[0])
        if len(a) > 1 or kw:
            b = a[1] if len(a) > 1 else kw.get("base")
            b = self.content(st, b)
            if is_str_const(x) and b.op == "num":
                try:
                    return num(int(str_value(x), int(b.args[0])))
                except ValueError:
                    return mk("undef", "int")
            x = self.strip_int_str(self.freeze(st, x))
            return self.typed(mk("call", "int", (x, b), ()), "int")
        return self.trunc(self.freeze(st, x))

    def strip_int_str(self, x):
        return x

    def typed(self, t, k):
        T.Ctx.types.setdefault(t, k)
        return t

    def trunc(self, x):
        if x.op == "ite":
            return ite(x.args[0], self.trunc(x.args[1]), self.trunc(x.args[2]))
        if x.op == "num":
            return num(int(x.args[0]))
        k = ty(x)
        if k == "int":
            return x
        if k == "bool":
            return ite(x, ONE, ZERO)
        if x.op == "call" and x.args[0] in ("round",) :
            return x
        if is_str_const(x):
            try:
                return num(int(str_value(x)))
            except ValueError:
                return mk("undef", "int")
        if k == "str":
            return self.typed(mk("call", "int", (x,), ()), "int")
        if is_arr(x) and all(s is ONE for s in shape(x)):
            x = elem(x, [ZERO] * rank(x))
        q = T.quotient(x)
        if q is not None:
            # int(p / d) of integers rounds towards zero, p // d towards minus infinity
            p, d = q
            fd = lambda y: T.fdiv(y, d)
            return ite(lt(p, ZERO), T.neg(fd(T.neg(p))), fd(p))
        return mk("trunc", x)

    def b_float(self, st, a, kw):
        x = self.freeze(st, a[0]) if a else ZERO
        if is_str_const(x):
            s = str_value(x).lower()
            if s in ("inf", "infinity"):
                return INF
            try:
                return const(float(s))
            except ValueError:
                pass
        if ty(x) in ("int", "float", "num"):
            return x
        if is_arr(x) and all(s is ONE for s in shape(x)):
            return elem(x, [ZERO] * rank(x))
        return self.typed(mk("call", "float", (x,), ()), "float")

    def b_bool(self, st, a, kw):
        return self.truth(st, a[0]) if a else FALSE

    def b_round(self, st, a, kw):
        x = self.freeze(st, a[0])
        if x.op == "num" and len(a) == 1:
            return num(round(x.args[0]))
        if ty(x) == "int" and len(a) == 1:
            return x
        if len(a) == 1:
            return self.typed(mk("call", "round", (x,), ()), "int")
        return self.typed(mk("call", "round", (x, self.freeze(st, a[1])), ()), "float")

    def b_abs(self, st, a, kw):
        x = self.freeze(st, a[0])
        if is_arr(x):
            return self.wrap(st, ew(absv, x))
        return self.wrap(st, absv(x)) if ty(x) == "arr" else absv(x)

    def b_min(self, st, a, kw):
        return self.minmax(st, a, kw, True)

    def b_max(self, st, a, kw):
        return self.minmax(st, a, kw, False)

    def minmax(self, st, a, kw, is_min):
        f = min2 if is_min else max2
        if kw:
            return None
        if len(a) == 1:
            c = self.freeze(st, a[0])
            return self.red_seq("min" if is_min else "max", c)
        r = self.freeze(st, a[0])
        for x in a[1:]:
            r = f(r, self.freeze(st, x))
        return r

    def red_seq(self, op, c):
        if c.op in ("list", "tuple"):
            if not c.args:
                return mk("undef", op)
            return combine(op, list(c.args))
        if c.op == "ite":
            return ite(c.args[0], self.red_seq(op, c.args[1]), self.red_seq(op, c.args[2]))
        if c.op == "collect" and c.args[1] is TRUE and c.args[2].op != "splice":
            return mkred(op, c.args[0], c.args[2], c.args[3])
        if is_arr(c) and rank(c) == 1:
            return reduce_(op, c)
        return mk("call", op, (c,), ())

    def b_sum(self, st, a, kw):
        c = self.freeze(st, a[0])
        start = a[1] if len(a) > 1 else kw.get("start", ZERO)
        r = self.sum_seq(c)
        return r if start is ZERO else add(start, r)

    def sum_seq(self, c):
        b = lambda x: ite(x, ONE, ZERO) if ty(x) == "bool" else x
        if c.op in ("list", "tuple"):
            r = ZERO
            for x in c.args:
                r = add(r, b(x))
            return r
        if c.op == "ite":
            return ite(c.args[0], self.sum_seq(c.args[1]), self.sum_seq(c.args[2]))
        if c.op == "concat":
            r = ZERO
            for x in c.args:
                r = add(r, self.sum_seq(x))
            return r
        if c.op == "rep":
            return mul(b(c.args[0]), c.args[1])
        if c.op == "collect":
            n, cond, body, k = c.args
            body = self.sum_seq(body.args[0]) if body.op == "splice" else b(body)
            return mkred("sum", n, ite(cond, body, ZERO), k)
        if is_arr(c):
            return reduce_("sum", ew(b, c), 0)
        return mk("call", "sum", (c,), ())

    def b_any(self, st, a, kw):
        return self.any_seq(st, self.content(st, a[0]))

    def any_seq(self, st, c, neg_=False):
        """any(x) / any(not x)"""
        tr = lambda x: not_(self.truth(st, x)) if neg_ else self.truth(st, x)
        if c.op == "set":
            c = c.args[0]
        if c.op in ("list", "tuple"):
            return or_(*[tr(x) for x in c.args])
        if c.op == "ite":
            return ite(c.args[0], self.any_seq(st, c.args[1], neg_), self.any_seq(st, c.args[2], neg_))
        if c.op == "concat":
            return or_(*[self.any_seq(st, p, neg_) for p in c.args])
        if c.op == "rep":
            return and_(lt(ZERO, c.args[1]), tr(c.args[0]))
        c = self.freeze(st, c)
        if c.op == "collect":
            n, cond, body, k = c.args
            body = self.any_seq(st, body.args[0], neg_) if body.op == "splice" else tr(body)
            return mkred("any", n, and_(cond, body), k)
        if is_arr(c) and rank(c) == 1:
            i = fresh_index()
            return close_red("any", shape(c)[0], tr(elem(c, [i])), i)
        k = opt_strip(ty(c))
        if isinstance(k, tuple) and k[0] == "list":
            i = fresh_index()
            return close_red("any", dim(c, 0), tr(at(c, i)), i)
        return self.typed(mk("call", "any", (c, TRUE if neg_ else FALSE), ()), "bool")

    def b_all(self, st, a, kw):
        return not_(self.any_seq(st, self.content(st, a[0]), True))

    def as_list(self, st, c):
        """list content equal to iterating over c, or None"""
        if c.op in ("list", "concat", "collect", "rep"):
            return c
        if c.op == "tuple":
            return mk("list", *c.args)
        if c.op == "dict":
            return mk("list", *[k for k, _ in c.args])
        if c.op == "ite":
            a, b = self.as_list(st, c.args[1]), self.as_list(st, c.args[2])
            if a is not None and b is not None and a.op == b.op == "list" and len(a.args) == len(b.args):
                return mk("list", *[ite(c.args[0], x, y) for x, y in zip(a.args, b.args)])
            return None if a is None or b is None else ite(c.args[0], a, b)
        if c.op == "str" and is_str_const(c):
            return mk("list", *[const(x) for x in str_value(c)])
        k = opt_strip(ty(c))
        if isinstance(k, tuple) and k[0] == "list":
            return c
        if c.op == "call" and c.args[0] in ("range", "enumerate", "zip", "dict.items", "dict.keys", "dict.values", "reversed"):
            items = self.small_items(st, c)
            if items is not None:
                return mk("list", *items)
            d = self.iter_desc(st, c)
            i = fresh_index()
            return close_collect(d.n, d.cond(i), d.elem(i), i)
        if is_arr(c):
            n = shape(c)[0]
            if n.op == "num" and n.args[0] <= 8:
                return mk("list", *[index(c, [num(k)]) for k in range(int(n.args[0]))])
            i = fresh_index()
            return close_collect(shape(c)[0], TRUE, at(c, i) if rank(c) == 1 else index(c, [i]), i)
        return None

    def b_list(self, st, a, kw):
        if not a:
            return self.new_ref(st, mk("list"), "list")
        c = self.content(st, a[0])
        if c.op == "set":
            c = c.args[0]
        r = self.as_list(st, c)
        if r is None:
            r = self.typed(mk("call", "list", (self.freeze(st, c),), ()), ("list", None))
        return self.new_ref(st, r, "list")

    def b_tuple(self, st, a, kw):
        if not a:
            return mk("tuple")
        c = self.content(st, a[0])
        if c.op == "tuple":
            return c
        r = self.as_list(st, c)
        return self.to_tuple(st, r if r is not None else c)

    def to_tuple(self, st, r):
        if r.op == "list":
            return mk("tuple", *r.args)
        if r.op == "ite":
            return ite(r.args[0], self.to_tuple(st, r.args[1]), self.to_tuple(st, r.args[2]))
        f = self.freeze(st, r)
        if is_arr(f) and rank(f) == 1 and shape(f)[0].op == "num":
            return mk("tuple", *[elem(f, [num(i)]) for i in range(int(shape(f)[0].args[0]))])
        return self.typed(mk("call", "tuple", (f,), ()), ty(f) if isinstance(ty(f), tuple) and ty(f)[0] == "list" else None)

    def b_set(self, st, a, kw):
        if not a:
            return self.new_ref(st, mk("set", mk("list")), "set")
        c = self.content(st, a[0])
        r = self.as_list(st, c)
        return self.new_ref(st, mk("set", self.freeze(st, r if r is not None else c)), "set")

    def b_frozenset(self, st, a, kw):
        return self.b_set(st, a, kw)

    def b_dict(self, st, a, kw):
        items = [(const(k), v) for k, v in kw.items()]
        if not a:
            return self.new_ref(st, mk("dict", *items), "dict")
        c = self.content(st, a[0])
        if c.op == "dict":
            out = [x for x in c.args if not any(k is x[0] for k, _ in items)] + items
            return self.new_ref(st, mk("dict", *out), "dict")
        lst = self.as_list(st, c)
        if lst is not None and lst.op == "list" and all(self.content(st, x).op in ("tuple", "list") for x in lst.args):
            prs = [self.content(st, x).args for x in lst.args]
            return self.new_ref(st, mk("dict", *[(p[0], p[1]) for p in prs] + items), "dict")
        if not items:
            return self.new_ref(st, mk("dictof", self.freeze(st, c)), "dict")
        return None

    def x_collections_OrderedDict(self, st, a, kw):
        return self.b_dict(st, a, kw)

    def seq_call(self, name, *xs):
        return mk("call", name, tuple(xs), ())

    def b_range(self, st, a, kw):
        return self.seq_call("range", *[self.freeze(st, x) for x in a])

    def b_enumerate(self, st, a, kw):
        s = a[1] if len(a) > 1 else kw.get("start", ZERO)
        return self.seq_call("enumerate", self.iter_arg(st, a[0]), self.freeze(st, s))

    def b_zip(self, st, a, kw):
        return self.seq_call("zip", *[self.iter_arg(st, x) for x in a])

    def b_reversed(self, st, a, kw):
        return self.seq_call("reversed", self.iter_arg(st, a[0]))

    def iter_arg(self, st, x):
        c = self.content(st, x)
        if x.op in ("ref", "view") and is_arr(c) and rank(c) > 1:
            return x  # its rows are views: they may be written
        return c

    def b_map(self, st, a, kw):
        it = self.content(st, a[1])
        if len(a) != 2:
            return None
        items = self.small_items(st, it)
        if items is not None:
            return self.new_ref(st, mk("list", *[self.call(st, a[0], [x], {}) for x in items]), "gen")
        d = self.iter_desc(st, it)
        lv = self.push_loop(d, st)
        try:
            s = st.copy()
            self.enter_iteration(s, d, lv)
            v = self.freeze(s, self.call(s, a[0], [d.elem(lv)], {}))
        finally:
            self.pop_loop(d, st)
        return self.new_ref(st, close_collect(d.n, d.cond(lv), v, lv), "gen")

    def b_filter(self, st, a, kw):
        it = self.content(st, a[1])
        d = self.iter_desc(st, it)
        lv = self.push_loop(d, st)
        try:
            s = st.copy()
            self.enter_iteration(s, d, lv)
            x = d.elem(lv)
            v = self.truth(s, x if a[0] is NONE else self.call(s, a[0], [x], {}))
        finally:
            self.pop_loop(d, st)
        return self.new_ref(st, close_collect(d.n, and_(d.cond(lv), v), self.freeze(s, x), lv), "gen")

    def b_iter(self, st, a, kw):
        c = self.content(st, a[0])
        return self.new_ref(st, mk("iter", self.freeze(st, c) if c.op not in ("list", "tuple", "collect", "concat") else c, ZERO), "iter")

    def b_next(self, st, a, kw):
        from .interp import Ev

        c = self.content(st, a[0])
        dflt = a[1] if len(a) > 1 else None
        if c.op == "iter":
            seq, pos = c.args
            lst = self.as_list(st, seq) or seq
            n = self.length(st, lst)
            self.set_content(st, a[0], mk("iter", seq, add(pos, ONE)))
            v = at(lst, pos) if not (lst.op == "list" and pos.op == "num" and pos.args[0] >= len(lst.args)) else NONE
            if dflt is not None:
                return ite(lt(pos, n), v, dflt)
            return v
        if c.op in ("list", "collect", "concat", "ite"):
            f = self.first_of(st, c)
            if f is not None:
                has, v = f
                if dflt is not None:
                    return ite(has, v, dflt)
                return v
        t = self.impure_term(st, "next", (self.freeze(st, c),), ())
        self.ext_event(st, "builtins.next", a, kw, t)
        return t

    def first_of(self, st, c):
        """(non-empty?, first element) of a list content"""
        if c.op == "list":
            return (TRUE, c.args[0]) if c.args else (FALSE, NONE)
        if c.op == "ite":
            a, b = self.first_of(st, c.args[1]), self.first_of(st, c.args[2])
            if a is None or b is None:
                return None
            return ite(c.args[0], a[0], b[0]), ite(c.args[0], a[1], b[1])
        if c.op == "collect":
            n, cond, body, k = c.args
            if body.op == "splice":
                return None
            i = fresh_index()
            f = self.first_index(n, subst(cond, {BV(k): i}), i)
            return mkred("any", n, cond, k), subst(body, {BV(k): f})
        return None

    def first_index(self, n, cond, sym):
        if contains(cond, HOLE) and sym is not HOLE:
            return shielded(lambda m, c: self.first_index(m, c, sym), n, cond)
        h = subst(cond, {sym: HOLE})
        T.Ctx.types.setdefault(HOLE, "int")
        if h is TRUE:
            return ZERO
        k = T.binder_name(n, h)
        t = mk("first", n, subst(h, {HOLE: BV(k)}), k)
        T.Ctx.types[t] = "int"
        return t

    def b_sorted(self, st, a, kw):
        c = self.content(st, a[0])
        r = self.as_list(st, c)
        c = self.freeze(st, r if r is not None else c)
        key = kw.get("key")
        kt = NONE
        if key is not None and key is not NONE:
            # key as a function of a canonical element
            x = mk("sym", "sortkey")
            e = self.elem_type(c)
            if e is not None:
                T.Ctx.types[x] = e
            s = st.copy()
            saved, self.trace = self.trace, []
            try:
                kt = self.freeze(s, self.call(s, key, [x], {}))
            finally:
                self.trace = saved
        rev = kw.get("reverse", FALSE)
        t = mk("call", "sorted", (c, kt, rev), ())
        k = opt_strip(ty(c))
        T.Ctx.types[t] = k if isinstance(k, tuple) and k[0] == "list" else ("list", None)
        return self.new_ref(st, t, "list")

    def elem_type(self, c):
        k = opt_strip(ty(c))
        return k[1] if isinstance(k, tuple) and k[0] == "list" else None

    def b_getattr(self, st, a, kw):
        nm = self.content(st, a[1])
        if is_str_const(nm):
            if len(a) == 2:
                return self.get_attr(st, a[0], str_value(nm))
            if a[0] is NONE:
                return a[2]
            c = self.class_of(a[0])
            if c is not None:
                n = self.known(st, isnone(a[0])) if isinstance(a[0], Term) else FALSE
                if n is TRUE:
                    return a[2]
                if n is FALSE:
                    return self.get_attr(st, a[0], str_value(nm))
                s2 = st.branch(not_(n))
                return ite(n, a[2], self.get_attr(s2, a[0], str_value(nm)))
            x = self.freeze(st, a[0])
            n = self.known(st, isnone(x)) if ty(x) is None else FALSE
            if n is not FALSE:
                rest = mk("call", "getattr", (x, nm, self.freeze(st, a[2])), ())
                return ite(n, self.freeze(st, a[2]), rest)
        return mk("call", "getattr", tuple(self.freeze(st, x) for x in a), ())

    def b_setattr(self, st, a, kw):
        nm = self.content(st, a[1])
        if is_str_const(nm):
            self.set_attr(st, a[0], str_value(nm), a[2])
            return NONE
        return None

    def b_hasattr(self, st, a, kw):
        nm = self.content(st, a[1])
        if is_str_const(nm):
            c = self.class_of(a[0])
            if c is not None:
                n = str_value(nm)
                if self.prog.find_method(c, n) or self.prog.find_attr(c, n) or self.assigned_on_self(c, n):
                    return TRUE
        return self.typed(mk("call", "hasattr", (self.freeze(st, a[0]), nm), ()), "bool")

    def b_hash(self, st, a, kw):
        c = self.freeze(st, a[0])
        return self.typed(mk("call", "hash", (c,), ()), "int")

    def b_id(self, st, a, kw):
        return self.typed(mk("idof", a[0]), "int")

    def b_callable(self, st, a, kw):
        c = self.content(st, a[0])
        k = ty(c)
        if c.op in ("func", "clo", "bound", "class", "extf", "partial") or k == "callable":
            return TRUE
        if isinstance(k, tuple) and k[0] == "cls":
            kc = self.prog.classes.get(k[1])
            if kc is not None:
                return TRUE if self.prog.find_method(kc, "__call__") else FALSE
        if k in ("str", "none", "int", "float", "arr", "bool"):
            return FALSE
        return self.isinstance_(c, mk("extf", "collections.abc.Callable"))

    def b_super(self, st, a, kw):
        fr = st.frame
        if a:
            return mk("super", a[1], a[0].args[0])
        cls = fr.cls
        f = fr.closure
        slf = None
        node = fr.fi.node
        ps = [x.arg for x in node.args.posonlyargs + node.args.args]
        slf = st.env.get(ps[0]) if ps else None
        return mk("super", slf, cls.qual)

    def b_slice(self, st, a, kw):
        xs = [self.freeze(st, x) for x in a]
        if len(xs) == 1:
            xs = [NONE, xs[0], NONE]
        while len(xs) < 3:
            xs.append(NONE)
        return mk("slc", *xs)

    def b_divmod(self, st, a, kw):
        x, y = self.freeze(st, a[0]), self.freeze(st, a[1])
        return mk("tuple", fdiv(x, y, st.facts), T.mod(x, y, st.facts))

    def b_pow(self, st, a, kw):
        return power(self.freeze(st, a[0]), self.freeze(st, a[1])) if len(a) == 2 else None

    def x_functools_partial(self, st, a, kw):
        return mk("partial", a[0], tuple(a[1:]), tuple(sorted(kw.items())))

    def x_functools_wraps(self, st, a, kw):
        return mk("extf", "identity")

    def x_os_makedirs(self, st, a, kw):
        n = dict(zip(("name", "mode", "exist_ok"), a))
        n.update(kw)
        p = n.pop("name", None)
        ok = n.pop("exist_ok", FALSE)
        if p is None or n or ok not in (TRUE, FALSE):
            return None
        p = self.freeze(st, p)
        make = lambda s: self.generic_ext(s, "os.makedirs", [p], {})
        key = ("os.path.exists", (p,), ())
        lvs = tuple(l.lv for l in self.loops)
        if ok is FALSE or any(st.facts.decide(self.truth(st, mk("ext", *key, k, lvs))) is False for k in range(self.counts.get(key, 0))):
            return make(st) and NONE
        # made unless it is there
        there = self.known(st, self.truth(st, self.generic_ext(st, "os.path.exists", [p], {})))
        if there is TRUE:
            return NONE
        s1, s2 = st.branch(not_(there)), st.branch(there)
        make(s1)
        self.merge_into(st, not_(there), s1, s2)
        return NONE

    def b_format(self, st, a, kw):
        x = self.freeze(st, a[0])
        return self.formatted(st, x, self.freeze(st, a[1]) if len(a) > 1 else None)

    def x_os_path_basename(self, st, a, kw):
        return self.path_part(st, a, kw, 1)

    def x_os_path_dirname(self, st, a, kw):
        return self.path_part(st, a, kw, 0)

    def path_part(self, st, a, kw, i):
        if len(a) != 1 or kw:
            return None
        t = mk("at", self.generic_ext(st, "os.path.split", a, {}), num(i))
        T.Ctx.types[t] = "str"
        return t

    def x_identity(self, st, a, kw):
        return a[0]

    def x_math_sqrt(self, st, a, kw):
        return sqrt(self.freeze(st, a[0]))

    def x_math_floor(self, st, a, kw):
        x = self.freeze(st, a[0])
        if x.op == "num":
            import math

            return num(math.floor(x.args[0]))
        return None

    def x_math_hypot(self, st, a, kw):
        r = ZERO
        for x in a:
            x = self.freeze(st, x)
            r = add(r, mul(x, x))
        return sqrt(r)

    def x_copy_copy(self, st, a, kw):
        c = self.content(st, a[0])
        if c.op in ("list", "dict", "concat", "collect", "arr") or is_arr(c) or opt_strip(ty(c)) == "arr":
            return self.copy_ref(st, c)
        return None

    def copy_ref(self, st, c, tag="copy"):
        self.nref += 1
        r = mk("ref", self.nref, tag)
        st.heap[("c", r)] = c
        return r

    def x_itertools_chain(self, st, a, kw):
        ps = [self.as_list(st, self.content(st, x)) for x in a]
        if any(p is None for p in ps):
            return None
        return self.new_ref(st, concat(*ps), "gen")

    def x_itertools_product(self, st, a, kw):
        if len(a) == 2 and not kw:
            cs = [self.content(st, z) for z in a]
            x, y = (c if c.op == "call" and c.args[0] in ("enumerate", "zip", "range") else self.as_list(st, c) for c in cs)
            if x is None or y is None:
                return None
            return self.seq_call("product", self.freeze(st, x), self.freeze(st, y))
        return None

"""Methods of builtin types, arrays and objects of unknown classes."""
from .terms import *
from . import terms as T
from .arrays import *
from .arrays import Sl
from .state import *
from .npmodel import order_of, flatten_order, reshape_order
import re


class MethodMixin:
    pure_methods = frozenset()  # methods of external / abstract objects without effects
    method_types = {}

    def call_method(self, st, recv, name, args, kw, node=None, fval=None):
        if recv.op == "ite":
            g = self.known(st, recv.args[0])
            if g is TRUE or g is FALSE:
                return self.call(st, self.get_attr_m(st, recv.args[1 if g is TRUE else 2], name), args, kw, node)
            s1, s2 = st.branch(g), st.branch(not_(g))
            if s1 is None or s2 is None:
                return self.call(st, self.get_attr_m(st, recv.args[2 if s1 is None else 1], name), args, kw, node)
            a = self.call(s1, self.get_attr_m(s1, recv.args[1], name), args, kw, node)
            b = self.call(s2, self.get_attr_m(s2, recv.args[2], name), args, kw, node)
            return self.merge_vals(st, g, s1, a, s2, b)
        c = self.content(st, recv)
        if fval is not None and self.class_of(recv) is not None and not (
            self.prog.find_method(self.class_of(recv), name)
        ):
            # a data attribute holding a callable
            m = self.class_of(fval)
            if m is not None and self.prog.find_method(m, "__call__"):
                return self.call_function(st, self.prog.find_method(m, "__call__"), [fval] + list(args), kw)
            return self.opaque_call(st, fval, args, kw)
        k = opt_strip(ty(c))
        r = None
        if c.op == "str" or k == "str":
            r = self.str_method(st, c, name, args, kw)
        elif c.op == "dict" or c.op == "dictof" or k == "dict" or is_mapping(c):
            r = self.dict_method(st, recv, c, name, args, kw)
        elif c.op == "set":
            r = self.set_method(st, recv, c, name, args, kw)
        elif c.op in ("list", "concat", "collect", "rep", "sortedby", "stored", "popped") and not is_arrayish_(c) or isinstance(k, tuple) and k[0] == "list":
            r = self.list_method(st, recv, c, name, args, kw)
        elif c.op == "tuple":
            r = self.tuple_method(st, c, name, args, kw)
        elif is_arrayish_(c):
            r = self.array_method(st, recv, c, name, args, kw)
        elif c.op == "ite" and recv.op == "ref" and any(x.op in ("list", "concat", "collect", "dict") for x in c.args[1:]):
            r = self.list_method(st, recv, c, name, args, kw)
        elif recv.op == "typeof" and False:
            pass
        if r is None and k is None and fval is not None and name in ARRAYISH_METHODS and recv.op not in ("sym",):
            r = self.array_method(st, recv, c, name, args, kw)
        if r is None and k is None and name in ARRAY_READS and library_result(c):
            r = self.array_method(st, recv, c, name, args, kw)
        if r is not None:
            return r
        return self.unknown_method(st, recv, name, args, kw)

    def get_attr_m(self, st, recv, name):
        if recv is NONE:
            return mk("undef", "NoneType." + name)
        return self.get_attr(st, recv, name) if self.class_of(recv) is not None else mk("bmeth", recv, name)

    def file_write(self, st, recv, text):
        """consecutive writes to one text file are one write of the concatenated text"""
        from .interp import Ev

        last = self.trace[-1] if self.trace else None
        if isinstance(last, Ev) and last.kind == "mcall" and last.name == "write" and last.recv is recv and last.guard is st.guard() and len(last.args) == 1:
            last.args = (cstr(last.args[0], text),)
            return last.ret
        t = mk("mret", self.freeze(st, recv), "write", (text,), (), st.heap.get(("e", recv), 0))
        T.Ctx.types[t] = "int"
        ev = Ev("mcall", "write", recv, (text,), {}, t)
        self.emit(st, ev)
        self.bump(st, recv)
        return t

    def unknown_method(self, st, recv, name, args, kw):
        from .interp import Ev

        if name == "write" and len(args) == 1 and not kw and opt_strip(ty(recv)) == "file":
            return self.file_write(st, recv, self.freeze(st, args[0]))
        fr = self.freeze(st, recv) if recv.op in ("ref", "view") else recv
        fa = [self.freeze(st, a) for a in args]
        fk = {k: self.freeze(st, v) for k, v in kw.items()}
        fa, fk = self.norm_method(name, fa, fk, recv)
        ft = tuple(fa)
        fkt = tuple(sorted(fk.items()))
        quiet = name in QUIET_FRAME and fk.get("inplace", FALSE) is FALSE and _data_frame(fr)
        pure = name in self.pure_methods or name in PURE_METHODS
        ep = st.heap.get(("e", recv), 0)
        t = mk("mret", fr, name, ft, fkt, 0 if pure else ep)
        self.method_result(st, recv, name, ft, fk, t)
        ev = Ev("mcall", name, recv, fa, fk, t)
        ev.extra = tuple(args) + tuple(kw[x] for x in sorted(kw))
        if pure or quiet:
            ev.kind = "pmcall"
        self.emit(st, ev)
        if not pure and not quiet:
            self.bump(st, recv)
        if ty(t) == "arr":
            if T.Ctx.types.get(mk("memoryof", recv, name)) == "view":
                return t
            return self.wrap(st, t)
        return t

    method_sigs = {}

    def norm_method(self, name, fa, fk, recv=None):
        if name == "update" and fa and len(fa) <= 3 and set(fk) <= {"R", "H"} and ty(fa[0]) in ("arr", None):
            # the update of a filter: update(z, R=None, H=None)
            fk = dict(fk)
            for p, a in zip(("R", "H"), fa[1:]):
                fk.setdefault(p, a)
            return fa[:1], {k: v for k, v in fk.items() if v is not NONE}
        sig = self.method_sigs.get(name)
        if sig is None or any(a.op == "starred" for a in fa):
            return fa, fk
        fk = dict(fk)
        for p, a in zip(sig, fa):
            fk.setdefault(p, a)
        return fa[len(sig):], fk

    def method_result(self, st, recv, name, fa, fk, t):
        k = self.method_types.get(name)
        if callable(k):
            k = k(self, recv, fa, fk, t)
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "arr":
            T.Ctx.shapes.setdefault(t, k[1](fa, fk) if callable(k[1]) else k[1])
            k = "arr"
        if k is not None:
            T.Ctx.types.setdefault(t, k)

    # ------------------------------------------------------------------ strings
    def str_method(self, st, c, name, args, kw):
        fa = [self.freeze(st, a) for a in args]
        consts = is_str_const(c) and all(is_str_const(a) or a.op == "num" or a in (NONE, TRUE, FALSE) for a in fa) and not kw
        if consts and name in STR_FOLD:
            try:
                v = getattr(str_value(c), name)(*[pyval(a) for a in fa])
                return self.lift_const(st, v)
            except Exception:
                return mk("undef", "str." + name)
        if name == "format":
            r = self.format_pieces(st, c, args, kw)
            if r is not None:
                return r
            return mk("str", (mk("fmt.format", c, tuple(fa), tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items()))),))
        if name == "join":
            x = self.freeze(st, args[0])
            if x.op in ("list", "tuple") and is_str_const(c):
                parts = []
                for i, p in enumerate(x.args):
                    if i:
                        parts.append(c)
                    parts.append(p)
                return cstr(*parts)
            return self.typed(mk("call", "str.join", (c, x), ()), "str")
        if name in ("startswith", "endswith") and fa and is_str_const(fa[0]) and c.op == "str" and c.args[0]:
            p = c.args[0][0 if name == "startswith" else -1]
            s = str_value(fa[0])
            if isinstance(p, str) and len(p) >= len(s):
                return TRUE if getattr(p, name)(s) else FALSE
        if name in STR_RET:
            t = mk("call", "str." + name, (c,) + tuple(fa), tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items())))
            k = STR_RET[name]
            T.Ctx.types.setdefault(t, k)
            if isinstance(k, tuple):
                return self.new_ref(st, t, "list")
            return t
        return None

    def format_pieces(self, st, c, args, kw):
        """'..{}..'.format(..) with plain fields, as the formatted string with the same pieces"""
        import string

        if not is_str_const(c) or any(a.op == "starred" for a in args) or "**" in kw:
            return None
        pieces, n = [], 0
        try:
            for text, field, spec, conv in string.Formatter().parse(str_value(c)):
                if text:
                    pieces.append(mk("str", (text,)))
                if field is None:
                    continue
                if "{" in spec or conv not in (None, "s"):
                    return None
                if field == "" or field.isdigit():
                    i = n if field == "" else int(field)
                    n += 1
                    if i >= len(args):
                        return None
                    x = args[i]
                elif field.isidentifier() and field in kw:
                    x = kw[field]
                else:
                    return None
                pieces.append(self.formatted(st, self.freeze(st, x), cstr(spec) if spec else None))
        except ValueError:
            return None
        return cstr(*pieces)

    def lift_const(self, st, v):
        if isinstance(v, list):
            return self.new_ref(st, mk("list", *[const(x) for x in v]), "list")
        if isinstance(v, tuple):
            return mk("tuple", *[const(x) for x in v])
        return const(v)

    # ------------------------------------------------------------------ lists
    def list_method(self, st, recv, c, name, args, kw):
        if name == "append":
            self.mutate(st, recv, self.cat(c, mk("list", args[0])), "append")
            return NONE
        if name == "extend":
            x = self.content(st, args[0])
            y = self.as_list(st, x)
            if y is None:
                y = mk("call", "list", (self.freeze(st, x),), ())
                T.Ctx.types[y] = ("list", None)
            self.mutate(st, recv, self.cat(c, y), "extend")
            return NONE
        if name == "insert":
            i = self.content(st, args[0])
            if i is ZERO:
                new = self.cat(mk("list", args[1]), c)
            else:
                new = self.typed(mk("inserted", c, i, self.freeze(st, args[1])), ty(c))
            self.mutate(st, recv, new, "insert")
            return NONE
        if name == "pop":
            i = self.content(st, args[0]) if args else num(-1)
            if c.op == "list" and i.op == "num" and -len(c.args) <= int(i.args[0]) < len(c.args):
                xs = list(c.args)
                v = xs.pop(int(i.args[0]))
                self.mutate(st, recv, mk("list", *xs), "pop")
                return v
            v = at(c, i)
            if i is ZERO:
                new = self.slice_term(c, Sl(ONE, None, None), st)
            elif i.op == "num" and i.args[0] == -1:
                new = self.slice_term(c, Sl(None, num(-1), None), st)
            else:
                new = mk("popped", c, i)
            if ty(new) is None and ty(c) is not None:
                T.Ctx.types[new] = ty(c)
            self.mutate(st, recv, new, "pop")
            return v
        if name == "remove":
            x = self.freeze(st, args[0])
            if c.op == "list" and x in c.args:
                xs = list(c.args)
                xs.remove(x)
                new = mk("list", *xs)
            else:
                new = self.typed(mk("removed", self.freeze(st, c), x), ty(c))
            self.mutate(st, recv, new, "remove")
            return NONE
        if name == "clear":
            self.mutate(st, recv, mk("list"), "clear")
            return NONE
        if name == "copy":
            return self.copy_ref(st, c, "list")
        if name == "reverse":
            i = fresh_index()
            n = self.length(st, c)
            new = close_collect(n, TRUE, at(c, T.sub(T.sub(n, ONE), i)), i)
            self.mutate(st, recv, new, "reverse")
            return NONE
        if name == "sort":
            t = self.b_sorted(st, [recv], kw)
            self.mutate(st, recv, self.content(st, t), "sort")
            return NONE
        if name == "index":
            return self.typed(mk("call", "list.index", (self.freeze(st, c),) + tuple(self.freeze(st, a) for a in args), ()), "int")
        if name == "count":
            return self.typed(mk("call", "list.count", (self.freeze(st, c), self.freeze(st, args[0])), ()), "int")
        return None

    def cat(self, c, x):
        if c.op == "ite" and x.op == "list":
            # keep the choice outside: both sides get the new element
            if c.args[1].op in ("list", "concat", "collect") and c.args[2].op in ("list", "concat", "collect"):
                return ite(c.args[0], self.cat(c.args[1], x), self.cat(c.args[2], x))
        if c.op == "tuple":
            c = mk("list", *c.args)
        return concat(c, x)

    def tuple_method(self, st, c, name, args, kw):
        if name in ("index", "count"):
            return self.typed(mk("call", "list." + name, (self.freeze(st, c), self.freeze(st, args[0])), ()), "int")
        return None

    def set_method(self, st, recv, c, name, args, kw):
        inner = c.args[0]
        if name in ("add",):
            x = self.freeze(st, args[0])
            self.mutate(st, recv, mk("set", self.cat(inner, mk("list", x))), "add")
            return NONE
        if name == "update":
            y = self.as_list(st, self.content(st, args[0]))
            if y is not None:
                self.mutate(st, recv, mk("set", self.cat(inner, self.freeze(st, y))), "update")
                return NONE
        if name in ("issubset", "issuperset", "isdisjoint"):
            return self.typed(mk("call", "set." + name, (self.freeze(st, c), self.freeze(st, args[0])), ()), "bool")
        if name in ("union", "intersection", "difference", "copy", "symmetric_difference"):
            return self.new_ref(st, mk("call", "set." + name, (self.freeze(st, c),) + tuple(self.freeze(st, a) for a in args), ()), "set")
        if name in ("discard", "remove", "pop", "clear"):
            self.mutate(st, recv, mk("set", mk("removed", inner, tuple(self.freeze(st, a) for a in args))), name)
            return NONE
        return None

    # ------------------------------------------------------------------ dicts
    def dict_method(self, st, recv, c, name, args, kw):
        if name in ("keys", "values", "items") and c.op == "dict":
            if name == "keys":
                return mk("list", *[k for k, _ in c.args])
            if name == "values":
                return mk("list", *[v for _, v in c.args])
            return mk("list", *[mk("tuple", k, v) for k, v in c.args])
        fc = self.freeze(st, c)
        if name in ("keys", "values", "items"):
            return mk("call", "dict." + name, (fc,), ())
        if name == "get":
            k = self.freeze(st, args[0])
            d = args[1] if len(args) > 1 else kw.get("default", NONE)
            return self.dict_get(st, c, k, d)
        if name == "copy":
            return self.copy_ref(st, c, "dict")
        if name == "setdefault":
            k = self.freeze(st, args[0])
            d = args[1] if len(args) > 1 else NONE
            has = self.known(st, self.contains(st, k, c))
            old = self.get_item(st, recv, [k])
            if has is TRUE:
                return old
            v = ite(has, old, d)
            self.set_item(st, recv, [k], v)
            return v
        if name == "update":
            x = self.content(st, args[0]) if args else mk("dict")
            pairs = None
            if x.op == "dict":
                pairs = list(x.args)
            if pairs is not None and c.op == "dict":
                for k, v in pairs + [(const(k), v) for k, v in kw.items()]:
                    self.set_item(st, recv, [k], v)
                return NONE
            self.mutate(st, recv, mk("updated", fc, self.freeze(st, x), tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items()))), "update")
            return NONE
        if name == "pop":
            k = self.freeze(st, args[0])
            v = self.dict_get(st, c, k, args[1] if len(args) > 1 else NONE)
            if c.op == "dict" and all(T.eq(k, x) in (TRUE, FALSE) for x, _ in c.args):
                self.mutate(st, recv, mk("dict", *[p for p in c.args if T.eq(k, p[0]) is FALSE]), "pop")
            else:
                self.mutate(st, recv, mk("popped", fc, k), "pop")
            return v
        if name == "clear":
            self.mutate(st, recv, mk("dict"), "clear")
            return NONE
        return None

    def dict_get(self, st, c, k, d):
        if c.op == "dict":
            r = d
            for kk, vv in c.args:
                e = T.eq(k, kk)
                if e is TRUE:
                    return vv
                if e is not FALSE:
                    r = ite(e, vv, r)
            return r
        fc = self.freeze(st, c)
        return ite(mk("in", k, fc), at(fc, k), d)

    # ------------------------------------------------------------------ arrays
    def array_method(self, st, recv, c, name, args, kw):
        if name == "copy" and len(args) <= 1 and all(k == "order" for k in kw):
            return self.copy_ref(st, c)
        if name in ("tolist",):
            sh = shape(c)
            if sh is not None and len(sh) == 1 :
                i = fresh_index()
                return self.new_ref(st, close_collect(sh[0], TRUE, elem(c, [i]), i), "list")
            return self.new_ref(st, self.typed(mk("call", "tolist", (self.freeze(st, c),), ()), ("list", None)), "list")
        if name in ("astype",) and len(args) + len(kw) == 1 and (args or "dtype" in kw):
            return self.astype(st, c, self.content(st, args[0]) if args else self.content(st, kw["dtype"]))
        if name in ("flatten", "ravel"):
            order = order_of([self.freeze(st, x) for x in args], {k: self.freeze(st, x) for k, x in kw.items()}, 0)
            r = flatten_order(self.freeze(st, c), order) if order and len(args) + len(kw) <= 1 and all(k == "order" for k in kw) else None
            if r is None:
                return None
            if r.op == "call":
                T.Ctx.types[r] = "arr"
            if name == "ravel" and order == "C" and self.is_location(recv) and shape(c) is not None:
                return mk("view", recv, ("reshape", tuple(shape(r)))) if shape(r) is not None else self.copy_ref(st, r)
            return self.copy_ref(st, r)
        if name == "reshape":
            sh = args
            if len(args) == 1:
                x = self.content(st, args[0])
                sh = x.args if x.op in ("tuple", "list") else [x]
            order = order_of((), {k: self.freeze(st, x) for k, x in kw.items()}, 0)
            r = reshape_order(self.freeze(st, c), [self.freeze(st, x) for x in sh], order) if order and all(k == "order" for k in kw) else None
            if r is None:
                return None
            if order == "C" and shape(r) is not None and self.is_location(recv):
                return mk("view", recv, ("reshape", tuple(shape(r))))
            if r.op == "call":
                T.Ctx.types[r] = "arr"
            return self.wrap(st, r)
        if name == "transpose" and not args:
            return self.get_attr(st, recv, "T")
        if name in ("fill",):
            v = self.content(st, args[0])
            self.mutate(st, recv, store(c, [Sl()] * (rank(c) or 1), v) if shape(c) else mk("stored", c, (mk("ellipsis"),), v), "fill")
            return NONE
        if name == "item" and not args:
            sh = shape(c)
            if sh is not None and all(s is ONE for s in sh):
                return elem(c, [ZERO] * len(sh))
            return self.typed(mk("call", "item", (self.freeze(st, c),), ()), "float")
        if name in NP_AS_METHOD:
            return self.call_ext(st, "numpy." + name, [recv] + list(args), kw, None)
        return None

    def astype(self, st, c, dt):
        c = self.freeze(st, c)
        n = dt.args[0] if dt.op == "extf" else str_value(dt) if is_str_const(dt) else None
        if n is not None:
            n = n.split(".")[-1]
        if n is None and is_arr(c):
            return self.wrap(st, ew(lambda x: cast(x, dt), c))
        if n is None:
            t = mk("call", "astype", (c, dt), ())
            T.Ctx.types[t] = "arr"
            return self.wrap(st, t)
        if n.startswith("float"):
            f = lambda x: ite(x, ONE, ZERO) if ty(x) == "bool" else x
            if n in ("float32", "float16"):
                f2 = lambda x: x
            return self.wrap(st, ew(f, c) if is_arr(c) else c)
        if n in ("int", "int32", "int64", "int_"):
            if is_arr(c):
                return self.wrap(st, ew(self.trunc, c))
            t = mk("call", "astype", (c, mk("str", ("int",))), ())
            T.Ctx.types[t] = "arr"
            if shape(c) is not None:
                T.Ctx.shapes[t] = shape(c)
            return self.wrap(st, t)
        if n in ("bool", "bool_"):
            if is_arr(c):
                return self.wrap(st, ew(lambda x: x if ty(x) == "bool" else not_(T.eq(x, ZERO)), c))
        elif is_arr(c):
            return self.wrap(st, ew(lambda x: cast(x, mk("str", (n,))), c))
        t = mk("call", "astype", (c, mk("str", (n,))), ())
        T.Ctx.types[t] = "arr"
        if shape(c) is not None:
            T.Ctx.shapes[t] = shape(c)
        return self.wrap(st, t)


def cast(x, dt):
    """element x converted to the dtype dt (which is not a plain int, float or bool)"""
    if ty(x) == "bool":
        x = ite(x, ONE, ZERO)
    if x.op == "num" and x.args[0].denominator == 1 and 0 <= x.args[0] <= 127:
        return x
    if x.op == "ite":
        return ite(x.args[0], cast(x.args[1], dt), cast(x.args[2], dt))
    if x.op == "at" and dt.op == "attr" and dt.args[1] == "dtype" and dt.args[0] is x.args[0]:
        return x
    if x.op == "call" and x.args[0] == "cast" and x.args[1][1] is dt:
        return x
    t = mk("call", "cast", (x, dt), ())
    T.Ctx.types[t] = "int" if is_str_const(dt) and "int" in str_value(dt) else "num"
    return t


ARRAY_READS = {"sum", "mean", "min", "max", "any", "all", "astype", "ravel", "flatten", "reshape", "argmax", "argmin", "nonzero", "copy", "item", "squeeze", "prod"}


def library_result(t):
    """what an array library's function returned, or a part of it"""
    while t.op in ("at", "ite"):
        t = t.args[0 if t.op == "at" else 1]
    return t.op == "call" and isinstance(t.args[0], str) and t.args[0].split(".")[0] in ("np", "numpy", "cv2", "scipy")


def is_arrayish_(t):
    return is_arr(t) or opt_strip(ty(t)) == "arr"


def pyval(t):
    if t is NONE:
        return None
    if t in (TRUE, FALSE):
        return t is TRUE
    if t.op == "num":
        v = t.args[0]
        return int(v) if v.denominator == 1 else float(v)
    return str_value(t)


ARRAYISH_METHODS = {"astype", "ravel", "reshape", "flatten", "all", "any"}
NP_AS_METHOD = {
    "sum", "mean", "any", "all", "min", "max", "argmin", "argmax", "round", "dot", "diagonal", "std", "repeat",
    "squeeze", "prod", "clip", "cumsum", "nonzero", "argsort",
}
STR_FOLD = {
    "lower", "upper", "split", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "zfill", "isdigit",
    "rjust", "ljust", "title", "capitalize", "partition", "rpartition", "rsplit", "count", "find", "rfind", "index",
}
STR_RET = {
    "lower": "str", "upper": "str", "strip": "str", "lstrip": "str", "rstrip": "str", "replace": "str", "zfill": "str",
    "startswith": "bool", "endswith": "bool", "isdigit": "bool", "isnumeric": "bool", "isdecimal": "bool", "isalpha": "bool", "isalnum": "bool", "islower": "bool", "isupper": "bool", "isspace": "bool", "find": "int", "rfind": "int", "count": "int", "title": "str",
    "split": ("list", "str"), "rsplit": ("list", "str"), "splitlines": ("list", "str"), "rjust": "str", "ljust": "str", "capitalize": "str",
}
# methods of a data frame that give a new one
QUIET_FRAME = {"set_index", "drop", "copy", "reset_index", "rename", "astype", "assign", "sort_values"}


def _data_frame(t):
    while t.op in ("mret", "stored", "deleted"):
        t = t.args[0]
    return t.op == "call" and t.args[0] == "pandas.DataFrame"


PURE_METHODS = {"fileno", "isOpened", "get_shape", "exists", "as_posix"}

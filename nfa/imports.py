"""What importing the package does when optional packages are missing.

An abstract interpreter for module bodies: names are bound to abstract values
(a present library, a norfair module, class, function or instance, a constant,
or something unknown), `import` of a missing package raises ImportError, and
`try` handlers are matched against what is raised.  Statements under a test
that is not known are followed on both sides; what they raise is only a
possibility.  It works on the syntax trees; nothing is imported."""
import ast
import builtins
import re


class V:
    """abstract value"""


class Unk(V):
    pass


UNKV = Unk()


class Const(V):
    def __init__(self, v):
        self.v = v


class Seq(V):
    def __init__(self, items):
        self.items = items


class Lib(V):
    """something of an optional package that is present"""

    def __init__(self, pkg, path=""):
        self.pkg, self.path = pkg, path


class Ext(V):
    """something of a required package or of the standard library"""

    def __init__(self, path):
        self.path = path


class Mod(V):
    def __init__(self, name):
        self.name = name


class Cls(V):
    def __init__(self, node, mod, ns, bases):
        self.node, self.mod, self.ns, self.bases = node, mod, ns, bases

    def find(self, name):
        if name in self.ns:
            return self.ns[name]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.find(name)
                if r is not None:
                    return r
        return None

    def open(self):
        """has a base class that is not known"""
        return any(not isinstance(b, (Cls, Builtin)) or isinstance(b, Cls) and b.open() for b in self.bases)

    def builtin_base(self):
        for b in self.bases:
            if isinstance(b, Builtin):
                return b.name
            if isinstance(b, Cls):
                r = b.builtin_base()
                if r:
                    return r
        return None


class Inst(V):
    def __init__(self, cls):
        self.cls, self.fields = cls, {}


class Fn(V):
    def __init__(self, node, mod, env):
        self.node, self.mod, self.env = node, mod, env
        self.defaults, self.kw_defaults = [], []
        self.deco = False


class Meth(V):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Builtin(V):
    def __init__(self, name):
        self.name = name


class Raised(Exception):
    def __init__(self, kind, msg, mod, node, value=None):
        self.kind, self.msg, self.mod, self.node, self.value = kind, msg, mod, node, value

    def where(self):
        return "%s:%d" % (self.mod.rel, getattr(self.node, "lineno", 0))

    def text(self):
        return "%s%s" % (self.kind, ": " + self.msg[:120] if isinstance(self.msg, str) else "")


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Cut(Exception):
    """break / continue"""


def catches(name, kind):
    """does `except name` catch an exception of this kind (None: not known)"""
    a, b = getattr(builtins, name, None), getattr(builtins, kind or "", None)
    if not isinstance(a, type) or not isinstance(b, type):
        return None
    return issubclass(b, a)


class Importer:
    def __init__(self, prog, missing, optional):
        self.prog, self.missing, self.optional = prog, missing, optional
        self.env = {}  # module -> names
        self.state = {}
        self.maybe = []  # what may be raised, under a test that is not known
        self.uncertain = 0
        self.depth = 0
        self.steps = 0
        self.future = {}

    # -- modules ------------------------------------------------------------
    def load(self, name, mod, node):
        if name in self.state:
            return
        m = self.prog.modules.get(name)
        if m is None:
            raise Raised("ModuleNotFoundError", "No module named %s" % name, mod, node)
        if "." in name:
            self.load(name.rpartition(".")[0], m, node)
        if name in self.state:
            return
        self.state[name] = "started"
        env = self.env[name] = {"__name__": Const(name), "__file__": UNKV, "__doc__": UNKV}
        try:
            self.block(m.tree.body, env, m, env)
        except Raised:
            self.state.pop(name, None)
            raise
        self.state[name] = "done"
        p, _, last = name.rpartition(".")
        if p in self.env:
            self.env[p].setdefault(last, Mod(name))

    def import_name(self, full, mod, node):
        """value of the module `full`"""
        top = full.split(".")[0]
        if top in self.missing:
            raise Raised("ImportError", "No module named %s" % top, mod, node)
        if top in self.optional:
            return Lib(top, full)
        if top == "norfair":
            self.load(full, mod, node)
            return Mod(full)
        return Ext(full)

    def absolute(self, m, s):
        if not s.level:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[: -(s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    # -- statements -----------------------------------------------------------
    def block(self, stmts, env, m, glob):
        for s in stmts:
            self.stmt(s, env, m, glob)

    def stmt(self, s, env, m, glob):
        self.steps += 1
        if self.steps > 200000:
            raise RuntimeError("import analysis too long")
        f = getattr(self, "s_" + type(s).__name__, None)
        if f is not None:
            f(s, env, m, glob)

    def s_Import(self, s, env, m, glob):
        for a in s.names:
            v = self.import_name(a.name, m, s)
            if a.asname:
                env[a.asname] = v
            else:
                top = a.name.split(".")[0]
                env[top] = v if "." not in a.name else self.import_name(top, m, s)

    def s_ImportFrom(self, s, env, m, glob):
        base = self.absolute(m, s)
        if base == "__future__":
            self.future.setdefault(m.name, set()).update(a.name for a in s.names)
            return
        v = self.import_name(base, m, s)
        for a in s.names:
            if a.name == "*":
                if isinstance(v, Mod):
                    e = self.env[v.name]
                    al = e.get("__all__")
                    if isinstance(al, Seq) and all(isinstance(x, Const) for x in al.items):
                        names = [x.v for x in al.items]
                    else:
                        names = [n for n in e if not n.startswith("_")]
                    for n in names:
                        if n in e:
                            env[n] = e[n]
                continue
            env[a.asname or a.name] = self.member(v, a.name, m, s)

    def member(self, v, name, m, node):
        """from v import name"""
        if isinstance(v, Lib):
            return Lib(v.pkg, v.path + "." + name)
        if isinstance(v, Ext):
            if v.path == "typing" and name == "TYPE_CHECKING":
                return Const(False)
            return Ext(v.path + "." + name)
        if isinstance(v, Mod):
            e = self.env.get(v.name, {})
            if name in e:
                return e[name]
            sub = v.name + "." + name
            if sub in self.prog.modules:
                self.load(sub, m, node)
                return Mod(sub)
            raise Raised("ImportError", "cannot import name %s from %s" % (name, v.name), m, node)
        return UNKV

    def assign(self, t, v, env, m, glob):
        if isinstance(t, ast.Name):
            (glob if t.id in env.get("#global", ()) else env)[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = v.items if isinstance(v, Seq) and len(v.items) == len(t.elts) else [UNKV] * len(t.elts)
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, m, glob)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, m, glob)
            if isinstance(b, Inst):
                b.fields[t.attr] = v
            elif isinstance(b, Cls):
                b.ns[t.attr] = v
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env, m, glob)
            if isinstance(t.slice, ast.Constant) and isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Name) \
                    and t.value.func.id == "globals" and isinstance(t.slice.value, str):
                glob[t.slice.value] = v
            else:
                self.ev(t.slice, env, m, glob)

    def s_Assign(self, s, env, m, glob):
        v = self.ev(s.value, env, m, glob)
        for t in s.targets:
            self.assign(t, v, env, m, glob)

    def s_AnnAssign(self, s, env, m, glob):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, m, glob), env, m, glob)
        if env is glob or "#class" in env:
            self.annotation(s.annotation, env, m, glob)

    def annotation(self, a, env, m, glob):
        if a is not None and "annotations" not in self.future.get(m.name, ()):
            self.ev(a, env, m, glob)

    def s_AugAssign(self, s, env, m, glob):
        self.ev(s.value, env, m, glob)
        self.assign(s.target, UNKV, env, m, glob)

    def s_Expr(self, s, env, m, glob):
        self.ev(s.value, env, m, glob)

    def s_Return(self, s, env, m, glob):
        raise Return(self.ev(s.value, env, m, glob) if s.value is not None else Const(None))

    def s_Global(self, s, env, m, glob):
        env.setdefault("#global", set()).update(s.names)

    def s_Break(self, s, env, m, glob):
        raise Cut()

    s_Continue = s_Break

    def s_Delete(self, s, env, m, glob):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)

    def s_Assert(self, s, env, m, glob):
        self.ev(s.test, env, m, glob)

    def truth(self, v):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Seq):
            return bool(v.items)
        if isinstance(v, (Lib, Mod, Cls, Fn)):
            return True
        return None

    def branch(self, alts, env, m, glob):
        """both sides of a test that is not known"""
        start = dict(env)
        ends = []
        rets, raised = [], []
        for body in alts:
            env.clear()
            env.update(start)
            self.uncertain += 1
            try:
                self.block(body, env, m, glob)
                ends.append(dict(env))
            except Raised as r:
                raised.append(r)
            except Return as r:
                rets.append(r)
            except Cut:
                ends.append(dict(env))
            finally:
                self.uncertain -= 1
        if not ends:
            if raised and not rets:
                raise raised[0]
            if rets and not raised and len(rets) == 1:
                raise rets[0]
            self.maybe += raised
            raise Return(UNKV)
        self.maybe += raised
        env.clear()
        for n in set().union(*ends):
            vs = [e.get(n) for e in ends]
            if n.startswith("#"):
                env[n] = next(v for v in vs if v is not None)
            elif all(v is vs[0] for v in vs):
                env[n] = vs[0]
            else:
                some = [v for v in vs if v is not None]
                env[n] = some[0] if len(some) == 1 and not isinstance(some[0], Const) else UNKV
        if rets:
            env["#returned"] = True  # may have returned: what follows is a possibility

    def s_If(self, s, env, m, glob):
        t = self.truth(self.ev(s.test, env, m, glob))
        if t is True:
            self.block(s.body, env, m, glob)
        elif t is False:
            self.block(s.orelse, env, m, glob)
        else:
            self.branch([s.body, s.orelse], env, m, glob)

    def s_For(self, s, env, m, glob):
        it = self.ev(s.iter, env, m, glob)
        if isinstance(it, Seq) and len(it.items) <= 50:
            for v in it.items:
                self.assign(s.target, v, env, m, glob)
                try:
                    self.block(s.body, env, m, glob)
                except Cut:
                    pass
        else:
            self.assign(s.target, UNKV, env, m, glob)
            self.branch([s.body, []], env, m, glob)
        self.block(s.orelse, env, m, glob)

    def s_While(self, s, env, m, glob):
        self.ev(s.test, env, m, glob)
        self.branch([s.body, []], env, m, glob)

    def s_With(self, s, env, m, glob):
        quiet = []
        for i in s.items:
            v = self.ev(i.context_expr, env, m, glob)
            c = i.context_expr
            if isinstance(c, ast.Call):
                f = self.ev(c.func, env, m, glob)
                if isinstance(f, Ext) and f.path == "contextlib.suppress":
                    quiet += [self.handler_names(a, env, m, glob) for a in c.args]
            if i.optional_vars is not None:
                self.assign(i.optional_vars, UNKV if not isinstance(v, V) else v, env, m, glob)
        try:
            self.block(s.body, env, m, glob)
        except Raised as r:
            for names in quiet:
                if any(catches(n, r.kind) for n in names or ()):
                    return
            raise

    def handler_names(self, t, env, m, glob):
        """names of the builtin exceptions of a handler; None: catches all; [] unknown"""
        if t is None:
            return ["BaseException"]
        if isinstance(t, ast.Tuple):
            return [n for x in t.elts for n in self.handler_names(x, env, m, glob)]
        v = self.ev(t, env, m, glob)
        if isinstance(v, Seq):
            return [x.name for x in v.items if isinstance(x, Builtin)]
        if isinstance(v, Builtin):
            return [v.name]
        if isinstance(v, Cls):
            return []
        return []

    def s_Try(self, s, env, m, glob):
        try:
            try:
                self.block(s.body, env, m, glob)
            except Raised as r:
                for h in s.handlers:
                    names = self.handler_names(h.type, env, m, glob)
                    if any(catches(n, r.kind) for n in names):
                        if h.name:
                            env[h.name] = r.value if r.value is not None else UNKV
                        old = env.get("#exc")
                        env["#exc"] = r
                        try:
                            self.block(h.body, env, m, glob)
                        finally:
                            env["#exc"] = old
                            if old is None:
                                env.pop("#exc", None)
                            if h.name:
                                env.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, m, glob)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env, m, glob)

    s_TryStar = s_Try

    def s_Raise(self, s, env, m, glob):
        if s.exc is None:
            r = env.get("#exc")
            if r is not None:
                raise Raised(r.kind, r.msg, r.mod, r.node, r.value)
            raise Raised(None, None, m, s)
        v = self.ev(s.exc, env, m, glob)
        if isinstance(v, Builtin):
            raise Raised(v.name, "", m, s, v)
        if isinstance(v, Inst):
            kind = v.cls.name if isinstance(v.cls, Builtin) else v.cls.builtin_base()
            a = v.fields.get("#args") or []
            msg = a[0].v if a and isinstance(a[0], Const) and isinstance(a[0].v, str) else (None if a else "")
            raise Raised(kind, msg, m, s, v)
        if isinstance(v, Cls):
            raise Raised(v.builtin_base(), "", m, s, v)
        raise Raised(None, None, m, s, v)

    def s_FunctionDef(self, s, env, m, glob):
        a = s.args
        f = Fn(s, m, (env, glob))
        f.defaults = [self.ev(d, env, m, glob) for d in a.defaults]
        f.kw_defaults = [self.ev(d, env, m, glob) if d is not None else None for d in a.kw_defaults]
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            self.annotation(x.annotation, env, m, glob)
        self.annotation(s.returns, env, m, glob)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env, m, glob)
            if isinstance(dv, Builtin) and dv.name == "property":
                f.deco = "property"
            elif isinstance(dv, Builtin) and dv.name in ("staticmethod", "classmethod"):
                f.deco = dv.name
            elif isinstance(dv, Fn):
                v = self.call(dv, [v], {}, m, s)
            elif isinstance(dv, (Inst, Lib)):
                v = self.call(dv, [v], {}, m, s)
        env[s.name] = v

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, env, m, glob):
        bases = [self.ev(b, env, m, glob) for b in s.bases]
        for k in s.keywords:
            self.ev(k.value, env, m, glob)
        outer = env
        ns = dict(env) if env is not glob else {}
        ns["#class"] = True
        self.block(s.body, ns, m, glob)
        if outer is not glob:
            ns = {k: v for k, v in ns.items() if k not in outer or outer[k] is not v}
        ns.pop("#class", None)
        for d in s.decorator_list:
            self.ev(d, env, m, glob)
        env[s.name] = Cls(s, m, ns, bases)

    # -- expressions ------------------------------------------------------------
    def ev(self, e, env, m, glob):
        self.steps += 1
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is not None:
            return f(e, env, m, glob)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env, m, glob)
        return UNKV

    def e_Constant(self, e, env, m, glob):
        return Const(e.value)

    def e_Tuple(self, e, env, m, glob):
        return Seq([self.ev(x.value if isinstance(x, ast.Starred) else x, env, m, glob) for x in e.elts])

    e_List = e_Tuple

    def e_Lambda(self, e, env, m, glob):
        f = Fn(e, m, (env, glob))
        f.defaults = [self.ev(d, env, m, glob) for d in e.args.defaults]
        f.kw_defaults = [self.ev(d, env, m, glob) if d is not None else None for d in e.args.kw_defaults]
        return f

    def lookup(self, name, env, glob):
        e = env
        while e is not None:
            if name in e and name not in e.get("#global", ()):
                return e[name]
            e = e.get("#outer")
        return glob.get(name)

    def e_Name(self, e, env, m, glob):
        v = self.lookup(e.id, env, glob)
        if v is not None:
            return v
        if hasattr(builtins, e.id):
            return Builtin(e.id)
        if self.uncertain:
            return UNKV
        raise Raised("NameError", "name %s is not defined" % e.id, m, e)

    def e_Attribute(self, e, env, m, glob):
        return self.attr(self.ev(e.value, env, m, glob), e.attr, m, e)

    def attr(self, v, name, m, node):
        if isinstance(v, Lib):
            return Lib(v.pkg, v.path + "." + name)
        if isinstance(v, Ext):
            if v.path == "typing" and name == "TYPE_CHECKING":
                return Const(False)
            return Ext(v.path + "." + name)
        if isinstance(v, Mod):
            e = self.env.get(v.name, {})
            if name in e:
                return e[name]
            if self.state.get(v.name) == "done" and not self.uncertain:
                raise Raised("AttributeError", "module %s has no attribute %s" % (v.name, name), m, node)
            return UNKV
        if isinstance(v, Inst) and isinstance(v.cls, Cls):
            g = v.cls.find("__getattribute__")
            if isinstance(g, Fn) and not g.deco:
                return self.call(Meth(g, v), [Const(name)], {}, m, node)
            if name in v.fields:
                return v.fields[name]
            r = v.cls.find(name)
            if isinstance(r, Fn):
                if r.deco == "property":
                    return self.call(Meth(r, v), [], {}, m, node)
                return r if r.deco == "staticmethod" else Meth(r, v)
            if r is not None:
                return r
            if name in ("__class__", "__dict__", "__doc__", "__module__"):
                return v.cls if name == "__class__" else UNKV
            g = v.cls.find("__getattr__")
            if isinstance(g, Fn) and not g.deco:
                return self.call(Meth(g, v), [Const(name)], {}, m, node)
            if v.cls.open() or v.cls.builtin_base() not in (None, "object") or g is not None:
                return UNKV
            raise Raised("AttributeError", "%s object has no attribute %s" % (v.cls.node.name, name), m, node)
        if isinstance(v, Cls):
            r = v.find(name)
            if r is not None:
                return r
            if name.startswith("__") or v.open() or v.builtin_base() not in (None, "object") or v.node.keywords:
                return Const(v.node.name) if name == "__name__" else UNKV
            raise Raised("AttributeError", "class %s has no attribute %s" % (v.node.name, name), m, node)
        if isinstance(v, Const):
            if v.v is None and not name.startswith("__"):
                raise Raised("AttributeError", "NoneType object has no attribute %s" % name, m, node)
            if isinstance(v.v, (bool, int, float, str)) and not hasattr(v.v, name):
                raise Raised("AttributeError", "%s object has no attribute %s" % (type(v.v).__name__, name), m, node)
            return Meth(Builtin("str." + name), v) if isinstance(v.v, str) else UNKV
        return UNKV

    def e_Call(self, e, env, m, glob):
        f = self.ev(e.func, env, m, glob)
        args = []
        for a in e.args:
            v = self.ev(a.value if isinstance(a, ast.Starred) else a, env, m, glob)
            if isinstance(a, ast.Starred):
                args += v.items if isinstance(v, Seq) else [UNKV]
            else:
                args.append(v)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, m, glob)
            if k.arg:
                kw[k.arg] = v
        if isinstance(f, Builtin) and f.name == "super":
            return UNKV
        if isinstance(f, Builtin) and f.name == "globals":
            return UNKV
        if isinstance(f, Ext) and args and isinstance(args[0], Const) and isinstance(args[0].v, str):
            if f.path == "importlib.import_module" and not args[0].v.startswith("."):
                return self.import_name(args[0].v, m, e)
            if f.path == "importlib.util.find_spec":
                return Const(None) if args[0].v.split(".")[0] in self.missing else Ext("spec")
        if isinstance(f, Builtin) and f.name == "__import__" and args and isinstance(args[0], Const):
            return self.import_name(str(args[0].v).split(".")[0], m, e)
        return self.call(f, args, kw, m, e)

    def call(self, f, args, kw, m, node):
        if isinstance(f, Meth):
            if isinstance(f.fn, Builtin):
                if f.fn.name.startswith("str.") and all(isinstance(a, Const) for a in args) and all(isinstance(a, Const) for a in kw.values()):
                    try:
                        return Const(getattr(f.self_.v, f.fn.name[4:])(*[a.v for a in args], **{k: v.v for k, v in kw.items()}))
                    except Exception:
                        return UNKV
                return UNKV
            return self.call(f.fn, [f.self_] + args, kw, m, node)
        if isinstance(f, Builtin):
            t = getattr(builtins, f.name, None)
            if isinstance(t, type) and issubclass(t, BaseException):
                i = Inst(f)
                i.fields["#args"] = args
                return i
            if f.name in ("getattr", "hasattr") and len(args) >= 2 and isinstance(args[1], Const):
                try:
                    v = self.attr(args[0], args[1].v, m, node)
                except Raised as r:
                    if r.kind == "AttributeError":
                        if f.name == "hasattr":
                            return Const(False)
                        if len(args) > 2:
                            return args[2]
                    raise
                return v if f.name == "getattr" else UNKV
            if f.name == "isinstance" and len(args) == 2 and isinstance(args[1], Cls):
                if isinstance(args[0], Inst):
                    c = args[0].cls
                    return Const(True) if c is args[1] else UNKV
                if isinstance(args[0], Lib):
                    return Const(False)
            if f.name in ("str", "repr") and len(args) == 1 and isinstance(args[0], Const):
                return Const(str(args[0].v)) if f.name == "str" else Const(repr(args[0].v))
            return UNKV
        if isinstance(f, Cls):
            i = Inst(f)
            i.fields["#args"] = args
            init = f.find("__init__")
            if isinstance(init, Fn):
                self.call(init, [i] + args, kw, m, node)
            return i
        if isinstance(f, Inst) and isinstance(f.cls, Cls):
            c = f.cls.find("__call__")
            if isinstance(c, Fn):
                return self.call(c, [f] + args, kw, m, node)
            if c is None and not f.cls.open():
                raise Raised("TypeError", "%s object is not callable" % f.cls.node.name, m, node)
            return UNKV
        if isinstance(f, Const) and (f.v is None or isinstance(f.v, (str, int, float))):
            raise Raised("TypeError", "%r is not callable" % (f.v,), m, node)
        if not isinstance(f, Fn):
            return UNKV
        if self.depth > 12:
            return UNKV
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(f.node)):
            return UNKV
        a = f.node.args
        env = {"#outer": f.env[0] if f.env[0] is not f.env[1] and "#class" not in f.env[0] else None}
        if env["#outer"] is None:
            del env["#outer"]
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(names, args):
            env[n] = v
        for n, v in zip(names[len(names) - len(f.defaults):], f.defaults):
            env.setdefault(n, v)
        if a.vararg:
            env[a.vararg.arg] = Seq(args[len(names):])
        for x, v in zip(a.kwonlyargs, f.kw_defaults):
            env.setdefault(x.arg, v if v is not None else UNKV)
        env.update({k: v for k, v in kw.items() if k in names or k in [x.arg for x in a.kwonlyargs]})
        if a.kwarg:
            env[a.kwarg.arg] = UNKV
        for n in names + [x.arg for x in a.kwonlyargs]:
            env.setdefault(n, UNKV)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.mod, f.env[1])
            self.block(f.node.body, env, f.mod, f.env[1])
            return Const(None)
        except Return as r:
            return UNKV if "#returned" in env else r.v
        except Raised as r:
            if "#returned" not in env:
                raise
            self.maybe.append(r)
            return UNKV
        except Cut:
            return UNKV
        finally:
            self.depth -= 1

    def e_JoinedStr(self, e, env, m, glob):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(str(x.value))
            else:
                v = self.ev(x.value, env, m, glob)
                out.append(str(v.v) if isinstance(v, Const) and x.format_spec is None and x.conversion == -1 else "\0")
        return Const("".join(out))

    def e_BinOp(self, e, env, m, glob):
        a, b = self.ev(e.left, env, m, glob), self.ev(e.right, env, m, glob)
        if isinstance(a, Const) and isinstance(a.v, str):
            if isinstance(e.op, ast.Add) and isinstance(b, Const) and isinstance(b.v, str):
                return Const(a.v + b.v)
            if isinstance(e.op, ast.Mod):
                try:
                    if isinstance(b, Const):
                        return Const(a.v % b.v)
                    if isinstance(b, Seq) and all(isinstance(x, Const) for x in b.items):
                        return Const(a.v % tuple(x.v for x in b.items))
                except Exception:
                    pass
                return UNKV
        return UNKV

    def e_BoolOp(self, e, env, m, glob):
        isand = isinstance(e.op, ast.And)
        last = UNKV
        unknown = False
        for x in e.values:
            last = self.ev(x, env, m, glob) if not unknown else self.soft(x, env, m, glob)
            t = self.truth(last)
            if t is None:
                unknown = True
            elif t is not isand and not unknown:
                return last
        return UNKV if unknown else last

    def soft(self, e, env, m, glob):
        self.uncertain += 1
        try:
            return self.ev(e, env, m, glob)
        except Raised as r:
            self.maybe.append(r)
            return UNKV
        finally:
            self.uncertain -= 1

    def e_UnaryOp(self, e, env, m, glob):
        v = self.ev(e.operand, env, m, glob)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return UNKV if t is None else Const(not t)
        return UNKV

    def e_Compare(self, e, env, m, glob):
        vs = [self.ev(x, env, m, glob) for x in [e.left] + e.comparators]
        if len(vs) == 2:
            a, b = vs
            op = e.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(b, Const) and b.v is None:
                if isinstance(a, Const):
                    r = a.v is None
                elif isinstance(a, Unk):
                    return UNKV
                else:
                    r = False
                return Const(r if isinstance(op, ast.Is) else not r)
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(op, (ast.Eq, ast.NotEq)):
                return Const((a.v == b.v) == isinstance(op, ast.Eq))
            if isinstance(a, Const) and isinstance(b, Seq) and isinstance(op, (ast.In, ast.NotIn)) and all(isinstance(x, Const) for x in b.items):
                return Const((a.v in [x.v for x in b.items]) == isinstance(op, ast.In))
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(op, (ast.In, ast.NotIn)) and isinstance(a.v, str) and isinstance(b.v, str):
                return Const((a.v in b.v) == isinstance(op, ast.In))
        return UNKV

    def e_IfExp(self, e, env, m, glob):
        t = self.truth(self.ev(e.test, env, m, glob))
        if t is None:
            a, b = self.soft(e.body, env, m, glob), self.soft(e.orelse, env, m, glob)
            return a if a is b else UNKV
        return self.ev(e.body if t else e.orelse, env, m, glob)

    def comp(self, e, env, m, glob):
        env = dict(env)
        for g in e.generators:
            self.soft(g.iter, env, m, glob)
            self.assign(g.target, UNKV, env, m, glob)
            for c in g.ifs:
                self.soft(c, env, m, glob)
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
            self.soft(x, env, m, glob)
        return UNKV

    e_ListComp = e_SetComp = e_DictComp = e_GeneratorExp = comp

    def e_NamedExpr(self, e, env, m, glob):
        v = self.ev(e.value, env, m, glob)
        self.assign(e.target, v, env, m, glob)
        return v


def says(msg, extra):
    """does the message name norfair[extra]?"""
    return re.search(r"norfair\\?\[[^\]\s]*\b%s\b" % re.escape(extra), msg) is not None

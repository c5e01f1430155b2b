"""The analysed program: parsed modules, name resolution, classes, methods.

Everything here works on syntax trees of /repo's current working tree."""
import ast
import os

from .lib import LIB
import hashlib


class FuncInfo:
    owner = None  # the function that a use of the interface is about

    def __init__(self, module, node, qual, cls=None):
        self.module, self.node, self.qual, self.cls = module, node, qual, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.kind = "function"
        self.cached, self.decorated = None, []
        for d in getattr(node, "decorator_list", ()):
            n = _deco(d)
            last = n.rpartition(".")[2]
            if last in ("lru_cache", "cache", "cached_property"):
                self.cached = last
            elif last not in ("property", "setter", "deleter", "getter", "classmethod", "staticmethod", "abstractmethod",
                              "wraps", "overload", "override", "final"):
                self.decorated.append(n)
            if n == "property" or n.endswith("cached_property"):
                self.kind = "property"
            elif n.endswith(".setter") or n.endswith(".deleter"):
                self.kind = "setter"
            elif n in ("classmethod", "staticmethod"):
                self.kind = n
            elif n == "abstractmethod" or n.endswith(".abstractmethod"):
                self.abstract = True
        self.is_gen = any(
            isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(node)
        )

    abstract = False
    cached, decorated = None, ()

    @property
    def file(self):
        if self.owner is not None:
            return self.owner.file
        return self.module.rel

    @property
    def line(self):
        if self.owner is not None:
            return self.owner.line
        return self.node.lineno


def _deco(d):
    if isinstance(d, ast.Call):
        d = d.func
    try:
        return ast.unparse(d)
    except Exception:
        return ""


MUTATORS = frozenset("append appendleft add clear discard extend fill insert itemset pop popitem popleft put remove reverse "
                     "setdefault sort update resize".split())


def walk_own(node):
    """nodes of a function body, not descending into nested functions/classes"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))


class ClassInfo:
    def __init__(self, module, node, qual):
        self.module, self.node, self.qual = module, node, qual
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}  # name -> ast expr
        self.anns = {}
        for s in node.body:
            self._add(s)

    def _add(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = FuncInfo(self.module, s, self.qual + "." + s.name, self)
            if f.kind == "setter":
                self.setters[s.name] = f
            else:
                self.methods[s.name] = f
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            self.anns[s.target.id] = s.annotation
            if s.value is not None:
                self.attrs[s.target.id] = s.value
        elif isinstance(s, (ast.If, ast.Try)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.stmt):
                    self._add(x)


class Module:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src, filename=path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.names = {}  # name -> binding
        self.functions = {}
        self.classes = {}
        self.guarded = {}  # optional-import fallbacks: name -> expression in the handler
        self.all = None
        self.body = list(self.tree.body)


class Program:
    def __init__(self, root, pkg="norfair"):
        self.root = root
        self.modules = {}
        self.functions = {}  # qual -> FuncInfo
        self.classes = {}  # qual -> ClassInfo
        self.errors = []
        base = os.path.join(root, pkg)
        for d, ds, fs in sorted(os.walk(base)):
            ds[:] = [x for x in ds if x != "__pycache__"]
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.modules[name] = Module(name, p, rel, src)
        for name, src in LIB.items():
            if any(name in m.src for m in self.modules.values()):
                self.modules[name] = Module(name, "<lib>", "<lib:%s>" % name, src)
        for m in list(self.modules.values()):
            self._bind(m, m.tree.body)
        self._star()
        self.by_method = {}
        self.by_prop = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)
        self.global_writes = self._find_global_writes()
        self.mutated = self._find_mutated()

    def add_source(self, name, src, like=None):
        """a module of specification snippets, resolved in the same program"""
        m = Module(name, "<spec>", "<spec:%s>" % name, src)
        if like is not None:
            m.names.update(self.modules[like].names)
        self.modules[name] = m
        self._bind(m, m.tree.body)
        return m

    # -- binding ------------------------------------------------------------
    def _bind(self, m, body, guarded=False):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(m, s, m.name + "." + s.name)
                self.functions[f.qual] = f
                m.functions[s.name] = f
                m.names[s.name] = ("func", f.qual)
            elif isinstance(s, ast.ClassDef):
                c = ClassInfo(m, s, m.name + "." + s.name)
                self.classes[c.qual] = c
                m.classes[s.name] = c
                m.names[s.name] = ("class", c.qual)
                for f in c.methods.values():
                    self.functions[f.qual] = f
                for f in c.setters.values():
                    self.functions[f.qual + ".setter"] = f
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.names[a.asname] = ("mod", a.name)
                    else:
                        m.names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._abs(m, s)
                for a in s.names:
                    if a.name == "*":
                        m.names.setdefault("*", ("star", []))[1].append(base)
                    else:
                        m.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for nm, sub in _targets(t, s.value):
                        if guarded and nm in m.names and m.names[nm][0] in ("mod", "from"):
                            m.guarded[nm] = sub
                            continue
                        m.names[nm] = ("expr", sub)
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    m.names[s.target.id] = ("expr", s.value)
            elif isinstance(s, ast.If):
                t = ast.unparse(s.test)
                if "version_info" in t and "<" in t:
                    self._bind(m, s.orelse)
                elif t in ("False", "0"):
                    self._bind(m, s.orelse)
                else:
                    self._bind(m, s.body)
                    if not t.endswith("TYPE_CHECKING"):
                        for x in s.orelse:
                            pass
            elif isinstance(s, ast.Try):
                self._bind(m, s.body)
                for h in s.handlers:
                    self._bind(m, h.body, guarded=True)
                self._bind(m, s.orelse)
                self._bind(m, s.finalbody)
            elif isinstance(s, ast.With):
                self._bind(m, s.body)

    def _abs(self, m, s):
        if s.level == 0:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[: len(parts) - (s.level - 1)]
        if s.module:
            parts = parts + s.module.split(".")
        return ".".join(parts)

    def _star(self):
        for _ in range(3):
            for m in self.modules.values():
                st = m.names.get("*")
                if not st:
                    continue
                for base in st[1]:
                    src = self.modules.get(base)
                    if src is None:
                        continue
                    allx = None
                    b = src.names.get("__all__")
                    if b and b[0] == "expr":
                        try:
                            allx = ast.literal_eval(b[1])
                        except Exception:
                            allx = None
                    for n, v in list(src.names.items()):
                        if n == "*" or n.startswith("_") and allx is None:
                            continue
                        if allx is not None and n not in allx:
                            continue
                        m.names.setdefault(n, ("from", base, n))

    def resolve(self, module, name, depth=0):
        """binding of a global name: ('func',q) ('class',q) ('module',name)
        ('ext',dotted) ('expr',module,ast) or None"""
        if depth > 10:
            return None
        b = module.names.get(name)
        if b is None:
            return None
        if b[0] in ("func", "class"):
            return b
        if b[0] == "expr":
            return ("expr", module, b[1], name)
        if b[0] == "mod":
            return ("module", b[1]) if b[1] in self.modules else ("ext", b[1])
        if b[0] == "from":
            base, n = b[1], b[2]
            if base in self.modules:
                src = self.modules[base]
                r = self.resolve(src, n, depth + 1)
                if r is not None:
                    return r
                if base + "." + n in self.modules:
                    return ("module", base + "." + n)
                return None
            return ("ext", base + "." + n)
        return None

    def member(self, modname, name):
        m = self.modules[modname]
        r = self.resolve(m, name)
        if r is None and modname + "." + name in self.modules:
            return ("module", modname + "." + name)
        return r

    # -- classes ---------------------------------------------------------------
    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b)
            if r and r[0] == "class":
                out.append(self.classes[r[1]])
        return out

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            return self.resolve(module, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(module, e.value)
            if r is None:
                return None
            if r[0] == "module":
                return self.member(r[1], e.attr)
            if r[0] == "ext":
                return ("ext", r[1] + "." + e.attr)
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(module, ast.parse(e.value, mode="eval").body)
            except SyntaxError:
                return None
        return None

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k)]

    def class_named(self, name):
        """the class of that name, wherever it is defined"""
        r = [c for c in self.classes.values() if c.name == name]
        return r[0] if len(r) == 1 else None

    def func_named(self, name):
        r = [f for q, f in self.functions.items() if f.cls is None and f.name == name]
        return r[0] if len(r) == 1 else None

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(self.modules[n].src.encode())
        return h.hexdigest()

    # -- class attributes / module globals that functions assign --------------------
    def _find_mutated(self):
        """names (variables or attributes) of containers that some function changes in place"""
        out = {}
        for f in self.functions.values():
            if f.module.path.startswith("<"):
                continue
            for x in ast.walk(f.node):
                t = None
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    t = x.value
                elif isinstance(x, ast.AugAssign):
                    t = x.target
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    t = x.func.value
                while isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(t, ast.Attribute):
                    out.setdefault(t.attr, (f, x))
                elif isinstance(t, ast.Name):
                    a = f.node.args
                    local = {y.arg for y in a.posonlyargs + a.args + a.kwonlyargs} | {
                        y.id for y in ast.walk(f.node) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                    if t.id not in local:
                        out.setdefault(t.id, (f, x))
        return out

    def _find_global_writes(self):
        """set of (class qual, attr) assigned through the class or `cls`, and
        (module, name) assigned through `global`"""
        out = set()
        for f in self.functions.values():
            cls = f.cls
            gl = set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Global):
                    gl.update(x.names)
            for x in ast.walk(f.node):
                tg = []
                if isinstance(x, ast.Assign):
                    tg = x.targets
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                    tg = [x.target]
                for t in tg:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name):
                            if y.value.id == "cls" and cls is not None and f.kind == "classmethod":
                                out.add((cls.qual, y.attr))
                            else:
                                r = self.resolve(f.module, y.value.id)
                                if r and r[0] == "class":
                                    out.add((r[1], y.attr))
                        elif isinstance(y, ast.Name) and y.id in gl:
                            out.add((f.module.name, y.id))
        return out


def _targets(t, v):
    if isinstance(t, ast.Name):
        yield t.id, v
    elif isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
            for a, b in zip(t.elts, v.elts):
                yield from _targets(a, b)
        else:
            for i, a in enumerate(t.elts):
                if isinstance(a, ast.Name):
                    yield a.id, ast.Subscript(value=v, slice=ast.Constant(i), ctx=ast.Load())

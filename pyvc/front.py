"""Front end: reads /repo's source on every run and builds the module / class /
function tables.  Nothing of the executable text is dropped except docstrings,
comments, decorators other than property/setter/staticmethod/classmethod, and
module-level statements that are not imports, assignments, classes or functions."""
import ast
import os

REPO = os.environ.get("PYVC_REPO", "/repo")

MODULES = ["jsgf.errors", "jsgf.references", "jsgf.expansions", "jsgf.rules",
           "jsgf.grammars", "jsgf.parser", "jsgf.ext.expansions", "jsgf.ext.rules",
           "jsgf.ext.grammars", "jsgf"]


class Fn(object):
    def __init__(self, name, node, module, cls=None, kind="method"):
        self.name, self.node, self.module, self.cls, self.kind = \
            name, node, module, cls, kind
        self.is_gen = _is_gen(node)

    @property
    def qual(self):
        if self.cls is not None:
            return "%s.%s.%s" % (self.module.name, self.cls.name, self.name)
        return "%s.%s" % (self.module.name, self.name)

    def __repr__(self):
        return "<Fn %s>" % self.qual


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Prop(object):
    def __init__(self, name, fget=None, fset=None):
        self.name, self.fget, self.fset = name, fget, fset


class Cls(object):
    def __init__(self, name, module, base_names):
        self.name, self.module, self.base_names = name, module, base_names
        self.attrs = {}     # name -> Fn | Prop | ('alias', name) | ('const', ast expr)
        self.bases = []
        self.mro = []
        self.id = None
        self.external = False

    @property
    def qual(self):
        return "%s.%s" % (self.module.name if self.module else "builtins", self.name)

    def __repr__(self):
        return "<Cls %s>" % self.name

    def lookup(self, name, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.attrs:
                a = c.attrs[name]
                if isinstance(a, tuple) and a[0] == "alias":
                    if a[1] == name:
                        return c, a
                    return self.lookup(a[1]) if after is None else c.lookup(a[1])
                return c, a
        return None, None

    def issub(self, other):
        return other in self.mro


class Module(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.names = {}     # name -> Fn | Cls | ('import', module, name|None) | ('var', expr)
        self.tree = None


def _dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        return _dotted(n.value) + "." + n.attr
    return "?"


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = {}       # simple name -> Cls (names are unique in this code base)
        self.problems = []
        for m in MODULES:
            p = os.path.join(self.repo, *m.split("."))
            path = os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"
            if os.path.exists(path):
                self._load(m, path)
        self._builtin_classes()
        self._link()

    # ---- loading
    def _load(self, name, path):
        mod = Module(name, path)
        with open(path, encoding="utf-8") as f:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mod.tree = ast.parse(f.read(), path)
        self.modules[name] = mod
        self._scope(mod, mod.tree.body)

    def _scope(self, mod, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                mod.names[st.name] = Fn(st.name, st, mod)
            elif isinstance(st, ast.ClassDef):
                mod.names[st.name] = self._cls(mod, st)
            elif isinstance(st, ast.ImportFrom):
                base = self._resolve_mod(mod, st.module, st.level)
                for a in st.names:
                    mod.names[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    mod.names[a.asname or a.name.split(".")[0]] = \
                        ("import", a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Name):
                mod.names[st.targets[0].id] = ("var", st.value)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Tuple):
                for t in st.targets[0].elts:
                    mod.names[_dotted(t)] = ("var", None)
            elif isinstance(st, (ast.If, ast.Try)):
                self._scope(mod, st.body)

    @staticmethod
    def _resolve_mod(mod, name, level):
        if not level:
            return name
        parts = mod.name.split(".")
        is_pkg = mod.path.endswith("__init__.py")
        up = parts if is_pkg else parts[:-1]
        if level > 1:
            up = up[:len(up) - (level - 1)]
        return ".".join(up + ([name] if name else []))

    def _cls(self, mod, node):
        c = Cls(node.name, mod, [_dotted(b) for b in node.bases])
        c.node = node
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self._method(mod, c, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self._classvar(mod, c, t.id, st.value)
                    elif isinstance(t, ast.Tuple):
                        for k, e in enumerate(t.elts):
                            c.attrs[_dotted(e)] = ("const", ast.Subscript(
                                value=st.value, slice=ast.Constant(k), ctx=ast.Load()))
        self.classes[c.name] = c
        return c

    def _method(self, mod, c, st):
        kind = "method"
        for d in st.decorator_list:
            dn = _dotted(d)
            if dn == "staticmethod":
                kind = "static"
            elif dn == "classmethod":
                kind = "class"
            elif dn == "property":
                kind = "prop"
            elif dn.endswith(".setter"):
                kind = "setter"
        fn = Fn(st.name, st, mod, c, kind)
        if kind == "prop":
            c.attrs[st.name] = Prop(st.name, fget=fn)
        elif kind == "setter":
            base = _dotted([d for d in st.decorator_list
                            if _dotted(d).endswith(".setter")][0])[:-len(".setter")]
            old = c.attrs.get(base)
            fn.name = st.name + ".setter"
            c.attrs[st.name] = Prop(st.name, fget=old.fget if old else None, fset=fn)
        else:
            c.attrs[st.name] = fn

    def _classvar(self, mod, c, name, value):
        if isinstance(value, ast.Call) and _dotted(value.func) == "property":
            fget = fset = None
            args = list(value.args)
            kws = {k.arg: k.value for k in value.keywords}
            g = args[0] if args else kws.get("fget")
            s = args[1] if len(args) > 1 else kws.get("fset")

            def mk(x, nm):
                if x is None:
                    return None
                if isinstance(x, ast.Lambda):
                    return Fn(nm, x, mod, c, "prop")
                a = c.attrs.get(_dotted(x))
                return a
            c.attrs[name] = Prop(name, mk(g, name), mk(s, name + ".setter"))
        elif isinstance(value, ast.Name) and value.id in c.attrs:
            c.attrs[name] = ("alias", value.id)
        else:
            c.attrs[name] = ("const", value)

    def _builtin_classes(self):
        def mk(n, bases=()):
            if n in self.classes:
                return
            c = Cls(n, None, list(bases))
            c.external = True
            self.classes[n] = c
        mk("object")
        for n in ["list", "tuple", "dict", "set", "str", "int", "bool", "float",
                  "slice", "type", "function", "bytes", "iterator"]:
            mk(n, ["object"])
        mk("BaseException", ["object"])
        mk("Exception", ["BaseException"])
        for n in ["TypeError", "ValueError", "KeyError", "IndexError",
                  "AttributeError", "NotImplementedError", "AssertionError",
                  "RuntimeError", "ZeroDivisionError", "StopIteration", "OSError",
                  "ParseException"]:
            mk(n, ["Exception"])
        mk("ParserElement", ["object"])

    def _link(self):
        for c in self.classes.values():
            for b in c.base_names:
                k = b.split(".")[-1]
                c.bases.append(self.classes.get(k) or self.classes["object"])
            if not c.bases and c.name != "object":
                c.bases = [self.classes["object"]]

        def mro(c):
            if c.mro:
                return c.mro
            seqs = [list(mro(b)) for b in c.bases] + [list(c.bases)]
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise ValueError("bad mro %s" % c.name)
                out.append(h)
                for s in seqs:
                    if s[0] is h:
                        s.pop(0)
            c.mro = out
            return out
        for i, c in enumerate(sorted(self.classes.values(), key=lambda c: c.name)):
            mro(c)
            c.id = i + 1
        self.by_id = {c.id: c for c in self.classes.values()}

    # ---- queries
    def subclasses(self, name):
        b = self.classes[name]
        return [c for c in self.classes.values() if c.issub(b)]

    def resolve(self, mod, name, depth=0):
        """Global name in a module -> Fn | Cls | Module | ('ext', dotted) | ('var', mod, name, expr)."""
        x = mod.names.get(name)
        if x is None:
            return None
        if isinstance(x, (Fn, Cls)):
            return x
        if x[0] == "var":
            return ("var", mod, name, x[1])
        _, m, n = x
        if n is None:
            return self.modules.get(m) or ("ext", m)
        if m in self.modules:
            r = self.resolve(self.modules[m], n, depth + 1) if depth < 8 else None
            if r is not None:
                return r
        sub = "%s.%s" % (m, n)
        if sub in self.modules:
            return self.modules[sub]
        return ("ext", sub)

    def find_fn(self, dotted):
        """'jsgf.expansions.map_expansion' or 'Sequence.compile'."""
        parts = dotted.split(".")
        for k in range(len(parts), 0, -1):
            m = ".".join(parts[:k])
            if m in self.modules:
                rest = parts[k:]
                x = self.modules[m].names.get(rest[0])
                if len(rest) == 1:
                    return x
                return x.lookup(rest[1])[1]
        c = self.classes[parts[0]]
        return c.lookup(parts[1])[1]

"""Program model: parses every non-test module of the repository (source only,
nothing is imported or run) and resolves names, classes, methods and imports."""
import ast, os, hashlib, warnings

PKG = "wfa_planning_evaluation_framework"
warnings.simplefilter("ignore")


class AnalysisBroken(Exception):
    pass


class Func:
    def __init__(self, qual, node, module, cls=None, outer=None):
        self.qual, self.node, self.module, self.cls, self.outer = qual, node, module, cls, outer
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.decorators = []
        self.kind = "function"
        if cls is not None:
            self.kind = "method"
        for d in getattr(node, "decorator_list", []):
            txt = ast.unparse(d)
            self.decorators.append(txt)
            if txt == "staticmethod":
                self.kind = "staticmethod"
            elif txt == "classmethod":
                self.kind = "classmethod"
            elif txt in ("property", "functools.cached_property", "cached_property"):
                self.kind = "property"
            elif txt.endswith(".setter"):
                self.kind = "setter"
            elif txt.endswith("abstractmethod"):
                self.abstract = True
        self.is_generator = False
        for n in walk_own(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_generator = True

    abstract = False

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def loc(self, node=None):
        n = node if node is not None else self.node
        return "%s:%s" % (self.module.relpath, getattr(n, "lineno", "?"))

    def __repr__(self):
        return "<Func %s>" % self.qual


def walk_own(fn):
    """Nodes of a function body, not descending into nested functions/classes/lambdas."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                if isinstance(c, ast.Lambda):
                    yield c
                continue
            stack.append(c)


class Class:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.methods, self.setters = {}, {}
        self.class_attrs = {}       # name -> expr
        self.annotations = {}       # name -> annotation expr
        self.field_order = []
        self.bases = []             # resolved: Class or dotted str
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(qual + "." + st.name, st, module, cls=self)
                if f.kind == "setter":
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.annotations[st.target.id] = st.annotation
                self.field_order.append(st.target.id)
                if st.value is not None:
                    self.class_attrs[st.target.id] = st.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.class_attrs[t.id] = st.value

    def own_fields(self):
        """names assigned as self.<name> in the methods of this class"""
        if not hasattr(self, "_own_fields"):
            fs = set(self.class_attrs) | set(self.annotations)
            for m in list(self.methods.values()) + list(self.setters.values()):
                args = m.node.args.args
                me = args[0].arg if args else None
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                        fs.add(n.attr)
            self._own_fields = fs
        return self._own_fields

    def computed_fields(self):
        """pairs of fields the constructor computes from the same input, one of them by more than a copy"""
        if not hasattr(self, "_computed"):
            init = self.methods.get("__init__")
            self._computed = set()
            if init is not None and init.node.args.args:
                me = init.node.args.args[0].arg
                params = {a.arg for a in init.node.args.args[1:] + init.node.args.kwonlyargs}
                uses, copies = {}, set()

                def inputs(e):
                    r = set()
                    for n in ast.walk(e):
                        if isinstance(n, ast.Name):
                            r |= {n.id} if n.id in params else uses.get(n.id, set())
                        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                            r |= uses.get("." + n.attr, set())
                    return r
                for _ in range(2):
                    for st in ast.walk(init.node):
                        if not isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For)) or getattr(st, "value", True) is None:
                            continue
                        src = st.iter if isinstance(st, ast.For) else st.value
                        for tg in st.targets if isinstance(st, ast.Assign) else [st.target]:
                            for n in ast.walk(tg):
                                k = n.id if isinstance(n, ast.Name) and n.id != me else "." + n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me else None
                                if k is not None:
                                    uses[k] = uses.get(k, set()) | inputs(src)
                                    if isinstance(src, ast.Name):
                                        copies.add(k)
                fs = [k for k in uses if k[0] == "."]
                for f in fs:
                    for g in fs:
                        if f != g and uses[f] & uses[g] and not (f in copies and g in copies):
                            self._computed.add((f[1:], g[1:]))
        return self._computed

    def has_member(self, name):
        return any(name in c.methods or name in c.setters or name in c.own_fields() for c in self.mro())

    def mro(self):
        out, seen = [], set()

        def go(c):
            if not isinstance(c, Class) or c.qual in seen:
                return
            seen.add(c.qual)
            out.append(c)
            for b in c.bases:
                go(b)
        go(self)
        return out

    def external_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, Class)]
        return out

    @property
    def is_namedtuple(self):
        return any(b in ("typing.NamedTuple",) for b in self.external_bases())

    @property
    def is_dataclass(self):
        return any("dataclass" in ast.unparse(d) for d in self.node.decorator_list)

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, cls, name):
        m = self.mro()
        try:
            i = [c.qual for c in m].index(cls.qual)
        except ValueError:
            return None
        for c in m[i + 1:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def class_attr(self, name):
        for c in self.mro():
            if name in c.class_attrs:
                return c, c.class_attrs[name]
        return None

    def is_sub(self, other):
        return any(c.qual == other.qual for c in self.mro())

    def __repr__(self):
        return "<Class %s>" % self.qual


class Plain(ast.NodeTransformer):
    """a, b = x, y  ->  a = x; b = y   where the order does not matter"""
    def visit_Assign(self, n):
        if len(n.targets) != 1 or not isinstance(n.targets[0], ast.Tuple) or not isinstance(n.value, ast.Tuple):
            return n
        ts, vs = n.targets[0].elts, n.value.elts
        if len(ts) != len(vs) or any(isinstance(x, ast.Starred) for x in ts + vs) or not all(isinstance(x, (ast.Name, ast.Attribute)) for x in ts):
            return n
        seen = set()
        for t, v in zip(ts, vs):
            if any(isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) in seen for x in ast.walk(v)):
                return n
            if any(isinstance(x, ast.Call) for x in ast.walk(v)) and any("." in x for x in seen):
                return n
            seen.add(ast.unparse(t))
        return [ast.copy_location(ast.Assign([t], v, lineno=n.lineno), n) for t, v in zip(ts, vs)]


def plain(tree):
    return ast.fix_missing_locations(Plain().visit(tree))


class Module:
    def __init__(self, name, path, relpath, src):
        self.name, self.path, self.relpath, self.src = name, path, relpath, src
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = plain(ast.parse(src, filename=path))
        self.functions, self.classes = {}, {}
        self.imports = {}     # local -> dotted canonical
        self.assigns = {}     # name -> list of expr
        self.star = []
        for st in self.tree.body:
            self._top(st)
        # imports inside functions, unless the name means something else at module level
        bound = set(self.functions) | set(self.classes) | set(self.assigns)
        for st in ast.walk(self.tree):
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                for n, target in self.bindings(st):
                    if n not in bound:
                        self.imports.setdefault(n, target)

    def bindings(self, st):
        """(local name, what it is bound to) of an import statement"""
        if isinstance(st, ast.Import):
            return [(a.asname, canon(a.name)) if a.asname else (a.name.split(".")[0], canon(a.name.split(".")[0])) for a in st.names]
        base = st.module or ""
        if st.level:
            parts = self.name.split(".")[: -st.level]
            base = ".".join([PKG] + parts + ([st.module] if st.module else []))
        return [(a.asname or a.name, canon(base + "." + a.name)) for a in st.names if a.name != "*"]

    def _top(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.functions[st.name] = Func(self.name + "." + st.name, st, self)
        elif isinstance(st, ast.ClassDef):
            self.classes[st.name] = Class(self.name + "." + st.name, st, self)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            self.imports.update(self.bindings(st))
            if isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names):
                self.star.append(canon(st.module or ""))
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self.assigns.setdefault(n.id, []).append(st.value if isinstance(t, ast.Name) else None)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.assigns.setdefault(st.target.id, []).append(st.value)
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            self.assigns.setdefault(st.target.id, []).append(None)
        elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for f in ("body", "orelse", "finalbody"):
                for s in getattr(st, f, []) or []:
                    self._top(s)
            for h in getattr(st, "handlers", []) or []:
                for s in h.body:
                    self._top(s)
            if isinstance(st, ast.For):
                for n in ast.walk(st.target):
                    if isinstance(n, ast.Name):
                        self.assigns.setdefault(n.id, []).append(None)


def canon(dotted):
    if dotted == PKG:
        return "@repo"
    if dotted.startswith(PKG + "."):
        return "@repo." + dotted[len(PKG) + 1:]
    return dotted


# canonical spellings of re-exported / aliased external names
ALIASES = {
    "numpy.random.mtrand.RandomState": "numpy.random.RandomState",
    "numpy.nan": "numpy.nan", "numpy.NaN": "numpy.nan", "numpy.NAN": "numpy.nan", "math.nan": "numpy.nan",
    "numpy.Inf": "numpy.inf", "numpy.infty": "numpy.inf", "math.inf": "numpy.inf",
    "numpy.absolute": "numpy.abs", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "bisect.bisect": "bisect.bisect_right", "numpy.float": "float",
    "numpy.concatenate": "numpy.concatenate",
}


class Program:
    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, "src")
        if not os.path.isdir(self.src):
            raise AnalysisBroken("no src directory under %s" % root)
        self.modules = {}
        self.digest = hashlib.sha256()
        for dp, dn, fn in os.walk(self.src):
            dn[:] = sorted(d for d in dn if d not in ("tests", "__pycache__"))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                if f.endswith("_test.py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.src)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith("__init__"):
                    name = name[:-9].rstrip(".") or "__init__"
                try:
                    s = open(p, encoding="utf-8").read()
                    m = Module(name, p, "src/" + rel, s)
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
                self.digest.update(rel.encode() + s.encode())
                self.modules[name] = m
        self._resolve_bases()
        self.all_classes = [c for m in self.modules.values() for c in m.classes.values()]
        self.computed = set().union(*[c.computed_fields() for c in self.all_classes])
        self.all_functions = [f for m in self.modules.values() for f in m.functions.values()] + \
            [f for c in self.all_classes for f in list(c.methods.values()) + list(c.setters.values())]

    def _resolve_bases(self):
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    c.bases.append(self.resolve_expr(m, b))

    # -- name resolution -------------------------------------------------
    def lookup_repo(self, dotted):
        """dotted without '@repo.' -> Module | Class | Func | (Module, assigned-name) | None"""
        if dotted in self.modules:
            return self.modules[dotted]
        if "." in dotted:
            head, tail = dotted.rsplit(".", 1)
            m = self.modules.get(head)
            if m is not None:
                return self.module_member(m, tail)
            h = self.lookup_repo(head)
            if isinstance(h, Class):
                return h.find(tail)
        # package prefix?
        if any(k.startswith(dotted + ".") for k in self.modules):
            return ("package", dotted)
        return None

    def module_member(self, m, name, depth=0):
        if name in m.classes:
            return m.classes[name]
        if name in m.functions:
            return m.functions[name]
        if name in m.imports:
            return self.resolve_dotted(m.imports[name], depth + 1)
        if name in m.assigns:
            return ("assign", m, name)
        return None

    def resolve_dotted(self, dotted, depth=0):
        if depth > 10:
            return dotted
        if dotted == "@repo":
            return ("package", "")
        if dotted.startswith("@repo."):
            r = self.lookup_repo(dotted[6:])
            if r is not None:
                return self.deref_assign(r, depth)
            return ("missing", dotted)
        return ALIASES.get(dotted, dotted)

    def deref_assign(self, r, depth=0):
        """follow module-level aliases NAME = other.NAME"""
        if isinstance(r, tuple) and r[0] == "assign" and depth < 10:
            _, m, name = r
            vs = m.assigns[name]
            if len(vs) == 1 and isinstance(vs[0], (ast.Name, ast.Attribute)):
                x = self.resolve_expr(m, vs[0], depth + 1)
                if isinstance(x, (Class, Func, Module)) or (isinstance(x, str)):
                    return x
        return r

    def resolve_name(self, m, name, depth=0):
        r = self.module_member(m, name, depth)
        if r is None:
            return None
        return self.deref_assign(r, depth)

    def resolve_expr(self, m, e, depth=0):
        """resolve a Name/Attribute expression at module scope to entity or dotted string"""
        if isinstance(e, ast.Name):
            r = self.resolve_name(m, e.id, depth)
            return r if r is not None else e.id
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, depth)
            return self.member(b, e.attr, depth)
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value, depth)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(m, ast.parse(e.value, mode="eval").body, depth)
            except SyntaxError:
                return None
        return None

    def member(self, b, attr, depth=0):
        if isinstance(b, Module):
            r = self.module_member(b, attr, depth)
            return self.deref_assign(r, depth) if r is not None else ("missing", b.name + "." + attr)
        if isinstance(b, tuple) and b[0] == "package":
            d = (b[1] + "." if b[1] else "") + attr
            r = self.lookup_repo(d)
            return r if r is not None else ("missing", d)
        if isinstance(b, str):
            d = b + "." + attr
            return ALIASES.get(d, d)
        if isinstance(b, Class):
            return b.find(attr)
        return None

    def cls(self, qual):
        mod, name = qual.rsplit(".", 1)
        m = self.modules.get(mod)
        c = m.classes.get(name) if m else None
        if c is None:
            # moved elsewhere: search by name, following re-exports
            cands = [k for k in self.all_classes if k.name == name]
            if len(cands) == 1:
                return cands[0]
            raise AnalysisBroken("anchor class %s not found" % qual)
        return c

    def func(self, qual):
        mod, name = qual.rsplit(".", 1)
        m = self.modules.get(mod)
        if m:
            r = self.module_member(m, name)
            if isinstance(r, Func):
                return r
        cands = [f for mm in self.modules.values() for f in mm.functions.values() if f.name == name]
        if len(cands) == 1:
            return cands[0]
        raise AnalysisBroken("anchor function %s not found" % qual)

    def method(self, cls, name):
        f = cls.find(name)
        if f is None:
            raise AnalysisBroken("anchor method %s.%s not found" % (cls.qual, name))
        return f

    def repo_modules(self):
        return [m for n, m in self.modules.items() if not n.startswith("$")]

    def subclasses(self, cls):
        return [c for c in self.all_classes if c is not cls and c.is_sub(cls)]

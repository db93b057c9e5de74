"""Scope-aware walks over the syntax trees of the program."""
import ast
from .program import Class, Func, Module


def functions(m):
    """every function/method/nested function/lambda of a module: (qual, node, class or None)"""
    out = []

    def go(n, prefix, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((prefix + "." + c.name, c, cls))
                go(c, prefix + "." + c.name, cls)
            elif isinstance(c, ast.ClassDef):
                go(c, prefix + "." + c.name, m.classes.get(c.name) if n is m.tree else None)
            else:
                go(c, prefix, cls)
    go(m.tree, m.name, None)
    return out


def bound_names(fn):
    """names bound in the function's own scope"""
    if hasattr(fn, "_bound"):
        return fn._bound
    out = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    glob = set()
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add((x.asname or x.name).split(".")[0])
        st.extend(ast.iter_child_nodes(n))
    fn._bound = out - glob
    return fn._bound


class Scoped(ast.NodeVisitor):
    """walks a module keeping the stack of enclosing functions"""

    def __init__(self, prog, m):
        self.prog, self.m = prog, m
        self.stack = []
        self.cls = []

    def is_local(self, name):
        return any(name in bound_names(f) for f in self.stack)

    def local_import(self, name):
        for f in reversed(self.stack):
            if name in bound_names(f):
                for n in ast.walk(f):
                    if isinstance(n, ast.Import):
                        for x in n.names:
                            if (x.asname or x.name.split(".")[0]) == name:
                                return x.name if x.asname else name
                    if isinstance(n, ast.ImportFrom):
                        for x in n.names:
                            if (x.asname or x.name) == name:
                                return (n.module or "") + "." + x.name
                return None
        return None

    def resolve(self, e):
        """entity or dotted name an expression denotes, None for local values"""
        r = e
        while isinstance(r, ast.Attribute):
            r = r.value
        if not isinstance(r, ast.Name):
            return None
        if self.is_local(r.id):
            d = self.local_import(r.id)
            if d is None:
                return None
            from .program import canon, ALIASES
            x = self.prog.resolve_dotted(canon(d))
            names = []
            q = e
            while isinstance(q, ast.Attribute):
                names.append(q.attr)
                q = q.value
            for n in reversed(names):
                x = self.prog.member(x, n)
            return x
        return self.prog.resolve_expr(self.m, e)

    def qual(self):
        return ".".join([self.m.name] + [c.name for c in self.cls] + [f.name for f in self.stack if hasattr(f, "name")])

    def where(self, node):
        return "%s:%s %s" % (self.m.relpath, getattr(node, "lineno", "?"), self.qual())

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)
        self.stack.append(n)
        self.enter(n)
        for s in n.body:
            self.visit(s)
        self.stack.pop()
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)
        self.stack.append(n)
        self.visit(n.body)
        self.stack.pop()

    def visit_ClassDef(self, n):
        for d in n.decorator_list + n.bases:
            self.visit(d)
        self.cls.append(n)
        st, self.stack = self.stack, []
        for s in n.body:
            self.visit(s)
        self.stack = st
        self.cls.pop()

    def enter(self, n):
        pass


def parents(root):
    out = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def param_default(fn, name):
    """default expression of a parameter, None when it has none"""
    a = fn.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d.get(name)


def is_param(fn, name):
    a = fn.args
    return name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

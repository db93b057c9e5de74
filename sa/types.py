"""Light, conservative type inference over the syntax tree (annotations, constructors, return annotations)."""
import ast
from .program import Class, Func, Module
from .astutil import bound_names

LISTS = ("typing.List", "typing.Iterable", "typing.Sequence", "typing.Iterator", "typing.Generator", "typing.Set", "typing.Tuple", "list", "set", "tuple", "typing.Collection")


def inst(c):
    return ("inst", c)


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.fields = {}
        self.env_memo = {}

    # ---- annotations
    def ann(self, m, e):
        if e is None:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Subscript):
            h = self.prog.resolve_expr(m, e.value)
            if h == "typing.Optional":
                return self.ann(m, e.slice)
            if h in ("typing.Type", "type"):
                k = self.ann(m, e.slice)
                return ("class", k[1]) if k and k[0] == "inst" else None
            if h in LISTS:
                s = e.slice
                if isinstance(s, ast.Tuple):
                    s = s.elts[0] if h in ("typing.Generator",) or len(s.elts) == 2 and isinstance(s.elts[1], ast.Constant) else None
                k = self.ann(m, s) if s is not None else None
                return ("list", k) if k else None
            if h in ("typing.Dict", "dict") and isinstance(e.slice, ast.Tuple) and len(e.slice.elts) == 2:
                k = self.ann(m, e.slice.elts[1])
                return ("dict", k) if k else None
            return None
        r = self.prog.resolve_expr(m, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        return inst(r) if isinstance(r, Class) else None

    # ---- functions
    def ret(self, f):
        r = self.ann(f.module, getattr(f.node, "returns", None))
        if f.is_generator and r and r[0] != "list":
            return ("list", r)
        return r

    def env(self, fn, m, cls, outer=None):
        """name -> type of the function's local names (flow-insensitive, only unambiguous ones)"""
        if fn in self.env_memo:
            return self.env_memo[fn]
        env = dict(outer or {})
        for n in bound_names(fn):
            env.pop(n, None)
        self.env_memo[fn] = env
        a = fn.args
        params = a.posonlyargs + a.args + a.kwonlyargs
        deco = [ast.unparse(d) for d in getattr(fn, "decorator_list", [])]
        stored = {}
        multi = set()
        for n in own(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                stored.setdefault(n.targets[0].id, []).append(("val", n.value))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                stored.setdefault(n.target.id, []).append(("ann", n.annotation))
            elif isinstance(n, (ast.For,)) and isinstance(n.target, ast.Name):
                stored.setdefault(n.target.id, []).append(("iter", n.iter))
            elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name):
                multi.add(n.optional_vars.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                multi.add(n.id)
        counts = {}
        for n in own(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                counts[n.id] = counts.get(n.id, 0) + 1
        self_name = None
        if cls is not None and params and "staticmethod" not in deco and outer is None:
            self_name = params[0].arg
        for i, p in enumerate(params):
            if p.arg in counts:
                continue
            if p.arg == self_name:
                env[p.arg] = ("class", cls) if "classmethod" in deco else inst(cls)
            else:
                t = self.ann(m, p.annotation)
                if t:
                    env[p.arg] = t
        pn = {p.arg for p in params}
        for _ in range(2):
            for n, vs in stored.items():
                if n in pn or len(vs) != counts.get(n, 0):
                    continue
                ts = []
                for kind, v in vs:
                    if kind == "ann":
                        ts.append(self.ann(m, v))
                    elif kind == "iter":
                        x = self.of(v, env, m, cls)
                        ts.append(x[1] if x and x[0] == "list" else None)
                    else:
                        ts.append(self.of(v, env, m, cls))
                if ts and all(x == ts[0] for x in ts) and ts[0]:
                    env[n] = ts[0]
        return env

    # ---- fields
    def field(self, cls, name):
        key = (cls.qual, name)
        if key in self.fields:
            return self.fields[key]
        self.fields[key] = None
        res = None
        for c in cls.mro():
            f = c.methods.get(name)
            if f is not None:
                res = self.ret(f) if f.kind == "property" else None
                break
            if name in c.annotations:
                res = self.ann(c.module, c.annotations[name])
                break
            ts = []
            for f in c.methods.values():
                a = f.node.args.args
                if not a or f.kind in ("staticmethod", "classmethod"):
                    continue
                for n in ast.walk(f.node):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
                    for q in tg:
                        for w in ast.walk(q):
                            if isinstance(w, ast.Attribute) and w.attr == name and isinstance(w.value, ast.Name) and w.value.id == a[0].arg and isinstance(w.ctx, ast.Store):
                                if isinstance(n, ast.AnnAssign):
                                    ts.append(self.ann(c.module, n.annotation))
                                elif isinstance(n, ast.Assign) and q is w:
                                    ts.append(self.of(n.value, self.env(f.node, c.module, c), c.module, c))
                                else:
                                    ts.append(None)
            if ts:
                res = ts[0] if all(x == ts[0] for x in ts) else None
                break
        self.fields[key] = res
        return res

    # ---- expressions
    def of(self, e, env, m, cls):
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return None
        if isinstance(e, ast.Attribute):
            b = self.of(e.value, env, m, cls)
            if b and b[0] == "inst":
                return self.field(b[1], e.attr)
            return None
        if isinstance(e, ast.Call):
            f = self.callee(e.func, env, m, cls)
            if f is None:
                return None
            kind, x = f[0], f[1]
            if kind == "new":
                return inst(x)
            if kind == "func":
                r = self.ret(x)
                return r
            return None
        if isinstance(e, ast.Subscript):
            b = self.of(e.value, env, m, cls)
            if b and b[0] == "list":
                return b if isinstance(e.slice, ast.Slice) else b[1]
            if b and b[0] == "dict":
                return b[1]
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.of(e.body, env, m, cls), self.of(e.orelse, env, m, cls)
            return a if a == b else None
        return None

    def callee(self, fx, env, m, cls):
        """('new', Class) | ('func', Func, bound?, receiver class) | None"""
        if isinstance(fx, ast.Name) and fx.id in env:
            t = env[fx.id]
            if t[0] == "class":
                return None          # may be any subclass
            if t[0] == "inst":
                f = t[1].find("__call__")
                return ("func", f, True, t[1]) if f else None
            return None
        if isinstance(fx, ast.Attribute):
            if isinstance(fx.value, ast.Call) and isinstance(fx.value.func, ast.Name) and fx.value.func.id == "super" and cls is not None and not fx.value.args:
                for b in cls.mro()[1:]:
                    if fx.attr in b.methods:
                        return ("func", b.methods[fx.attr], True, b)
                return None
            t = self.of(fx.value, env, m, cls)
            if t and t[0] in ("inst", "class"):
                f = t[1].find(fx.attr)
                if f is None or f.kind == "property":
                    return None
                bound = f.kind != "staticmethod" and (t[0] == "inst" or f.kind == "classmethod")
                return ("func", f, bound, t[1])
        return None


def own(fn):
    """nodes of the function's own scope (comprehension variables excluded)"""
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # element variables live in their own scope
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.comprehension):
                    st.append(c.iter)
                    st.extend(c.ifs)
                else:
                    st.append(c)
            continue
        st.extend(ast.iter_child_nodes(n))


def bind(node, call, bound, skip_first=None):
    """why a call does not fit the signature of a function, None when it fits or cannot be told"""
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    ponly = len(a.posonlyargs)
    drop = 1 if bound else 0
    names = pos[drop:]
    ndef = len(a.defaults)
    required = set(pos[: len(pos) - ndef][drop:]) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(names) and a.vararg is None:
        return "takes %d positional arguments but %d are given" % (len(names), npos)
    given = set(names[:npos])
    kwn = {x.arg for x in a.kwonlyargs}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in names and k.arg not in kwn and a.kwarg is None:
            return "has no parameter %s" % k.arg
        if k.arg in given and not star:
            return "gets %s twice" % k.arg
        given.add(k.arg)
    if not star and not dstar:
        miss = [x for x in names + sorted(kwn) if x in required and x not in given]
        if miss:
            return "is not given %s" % ", ".join(miss)
    return None

"""Behaviour-preserving rewrites of the whole source tree, to look for false alarms.

usage: refactor.py TRANSFORM OUT [file-substring[:function]]   writes a rewritten copy of /repo to OUT
       refactor.py --all [NAME...]                  rewrites and runs every check, one line per alarm
"""
import ast, copy, os, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
T = {}


def transform(c):
    T[c.__name__] = c
    return c


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def simple(e):
    return not any(isinstance(n, (ast.Lambda, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Starred)) for n in ast.walk(e))


def has(e, *kinds):
    return any(isinstance(n, kinds) for n in ast.walk(e))


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self, p="tmp"):
        self.n += 1
        return "%s_%d" % (p, self.n)

    def blocks(self, node, f):
        """apply f to every statement list"""
        for field in ("body", "orelse", "finalbody"):
            b = getattr(node, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, field, f(b) or [ast.Pass()] if field == "body" else f(b))
        for h in getattr(node, "handlers", []) or []:
            h.body = f(h.body)
        return node

    def infunc(self, tree, f):
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef,)):
                f(n)
        return tree


def L(x): return ast.Name(x, ast.Load())
def S(x): return ast.Name(x, ast.Store())
def assign(x, v): return ast.Assign([S(x)], v, lineno=0)


def neg(c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return c.operand
    return ast.UnaryOp(ast.Not(), c)


@transform
class rename_locals(Base):
    def visit_Module(self, m):
        def go(f):
            if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) and n is not f for n in ast.walk(f)):
                return
            a = f.args
            params = {p.arg for p in a.args + a.kwonlyargs + a.posonlyargs + [x for x in (a.vararg, a.kwarg) if x]}
            loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and n.id in loc:
                    n.id = n.id.strip("_") + "_value"
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    pass
        return self.infunc(m, go)


@transform
class return_via_local(Base):
    def visit_Module(self, m):
        def go(f):
            def block(b):
                out = []
                for s in b:
                    self.blocks(s, block) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                        out += [assign("outcome", s.value), ast.Return(L("outcome"))]
                    else:
                        out.append(s)
                return out
            self.blocks(f, block)
        return self.infunc(m, go)


def loop_of(target, comp, kind):
    """statements computing a comprehension into name target"""
    g = comp.generators
    if kind == "list":
        init, body = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(L(target), "append", ast.Load()), [comp.elt], []))
    elif kind == "set":
        init, body = ast.Call(L("set"), [], []), ast.Expr(ast.Call(ast.Attribute(L(target), "add", ast.Load()), [comp.elt], []))
    else:
        init, body = ast.Dict([], []), ast.Assign([ast.Subscript(L(target), comp.key, ast.Store())], comp.value, lineno=0)
    inner = [body]
    for gen in reversed(g):
        for c in reversed(gen.ifs):
            inner = [ast.If(c, inner, [])]
        inner = [ast.For(gen.target, gen.iter, inner, [], lineno=0)]
    return [assign(target, init)] + inner


@transform
class comp_to_loop(Base):
    """x = [..] / return [..]  ->  explicit loop"""
    def visit_Module(self, m):
        def go(f):
            def used(comp):
                t = set().union(*[names(g.target) for g in comp.generators])
                outer = [n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id in t]
                inner = [n for n in ast.walk(comp) if isinstance(n, ast.Name) and n.id in t]
                return len(outer) != len(inner) or any(a.arg in t for a in f.args.args)
            def block(b):
                out = []
                for s in b:
                    self.blocks(s, block) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                    v = getattr(s, "value", None)
                    kind = {ast.ListComp: "list", ast.SetComp: "set", ast.DictComp: "dict"}.get(type(v))
                    if kind and isinstance(s, (ast.Assign, ast.Return)) and not used(v) and not any(gg.is_async for gg in v.generators):
                        n = self.fresh("items")
                        out += loop_of(n, v, kind)
                        s.value = L(n)
                    out.append(s)
                return out
            self.blocks(f, block)
        return self.infunc(m, go)


@transform
class nested_comp_to_loop(Base):
    """every list comprehension or generator that is the argument of sum/max/min/len/set/np.array in a simple statement"""
    def visit_Module(self, m):
        me = self
        def go(f):
            def block(b):
                out = []
                for s in b:
                    me.blocks(s, block) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                    if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
                        v = s.value
                        calls = [v] if isinstance(v, ast.Call) else [x for x in (getattr(v, "left", None), getattr(v, "right", None)) if isinstance(x, ast.Call)][:1]
                        for c in calls:
                            if c.args and isinstance(c.args[0], (ast.ListComp, ast.GeneratorExp)) and ast.unparse(c.func) in ("sum", "max", "min", "len", "set", "np.array", "list", "tuple", "sorted"):
                                comp = c.args[0]
                                t = set().union(*[names(g.target) for g in comp.generators])
                                if len([n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id in t]) == len([n for n in ast.walk(comp) if isinstance(n, ast.Name) and n.id in t]):
                                    n = me.fresh("items")
                                    out += loop_of(n, comp, "list")
                                    c.args[0] = L(n)
                    out.append(s)
                return out
            me.blocks(f, block)
        return self.infunc(m, go)


@transform
class invert_if(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(neg(n.test), n.orelse, n.body)


def leaves(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


@transform
class else_after_return(Base):
    def visit_Module(self, m):
        def go(f):
            def block(b):
                for s in b:
                    self.blocks(s, block) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                for i, s in enumerate(b):
                    if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and b[i + 1:]:
                        s.orelse = block(b[i + 1:])
                        return b[:i + 1]
                return b
            self.blocks(f, block)
        return self.infunc(m, go)


@transform
class no_else_after_return(Base):
    def visit_Module(self, m):
        def go(f):
            def block(b):
                out = []
                for s in b:
                    self.blocks(s, block) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                    if isinstance(s, ast.If) and s.orelse and leaves(s.body):
                        rest, s.orelse = s.orelse, []
                        out += [s] + rest
                    else:
                        out.append(s)
                return out
            self.blocks(f, block)
        return self.infunc(m, go)


@transform
class aug_to_plain(Base):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and not isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            return n
        if has(n.target, ast.Call):
            return n
        load = copy.deepcopy(n.target)
        load.ctx = ast.Load()
        return ast.Assign([n.target], ast.BinOp(load, n.op, n.value), lineno=0)


@transform
class hoist_args(Base):
    """calls inside arguments become temporaries, in evaluation order"""
    def visit_Module(self, m):
        me = self
        def go(f):
            def block(b):
                out = []
                for s in b:
                    me.blocks(s, block) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                    if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call) and simple(s.value):
                        c = s.value
                        if not has(c.func, ast.Call):
                            for i, a in enumerate(c.args):
                                if isinstance(a, (ast.Call, ast.BinOp)):
                                    n = me.fresh("arg")
                                    out.append(assign(n, a))
                                    c.args[i] = L(n)
                            for k in c.keywords:
                                if k.arg and isinstance(k.value, (ast.Call, ast.BinOp)):
                                    n = me.fresh("arg")
                                    out.append(assign(n, k.value))
                                    k.value = L(n)
                    out.append(s)
                return out
            me.blocks(f, block)
        return self.infunc(m, go)


@transform
class range_len_to_enumerate(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and ast.unparse(it.func) == "range" and len(it.args) == 1 and isinstance(it.args[0], ast.Call) and ast.unparse(it.args[0].func) == "len":
            n.iter = ast.Call(L("enumerate"), it.args[0].args, [])
            n.target = ast.Tuple([n.target, S("_unused")], ast.Store())
        return n


@transform
class enumerate_to_zip(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) == "enumerate" and len(n.args) == 1 and isinstance(n.args[0], (ast.Name, ast.Attribute)):
            return ast.Call(L("zip"), [ast.Call(L("range"), [ast.Call(L("len"), [n.args[0]], [])], []), n.args[0]], [])
        return n


@transform
class unpack_in_body(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Tuple):
            v = self.fresh("pair")
            n.body = [ast.Assign([n.target], L(v), lineno=0)] + n.body
            n.target = S(v)
        return n


@transform
class index_pairs(Base):
    """for a, b in xs -> for p in xs: a = p[0]; b = p[1]"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in n.target.elts):
            v = self.fresh("entry")
            n.body = [assign(e.id, ast.Subscript(L(v), ast.Constant(i), ast.Load())) for i, e in enumerate(n.target.elts) if e.id != "_"] + n.body
            n.target = S(v)
        return n


@transform
class fstring_to_format(Base):
    def visit_JoinedStr(self, n):
        parts, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts += v.value.replace("{", "{{").replace("}", "}}")
            else:
                conv = {-1: "", 115: "!s", 114: "!r", 97: "!a"}[v.conversion]
                spec = ""
                if v.format_spec is not None:
                    if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return n
                    spec = ":" + "".join(x.value for x in v.format_spec.values)
                parts += "{" + conv + spec + "}"
                args.append(self.visit(v.value))
        return ast.Call(ast.Attribute(ast.Constant(parts), "format", ast.Load()), args, [])


@transform
class fstring_to_concat(Base):
    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion not in (-1, 115)) for v in n.values):
            return n
        ps = [ast.Constant(v.value) if isinstance(v, ast.Constant) else ast.Call(L("str"), [self.visit(v.value)], []) for v in n.values]
        out = ps[0] if ps else ast.Constant("")
        for p in ps[1:]:
            out = ast.BinOp(out, ast.Add(), p)
        return out


@transform
class flip_compare(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        F = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in F and not has(n, ast.Call):
            return ast.Compare(n.comparators[0], [F[type(n.ops[0])]()], [n.left])
        return n


@transform
class negate_compare(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        F = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}
        if len(n.ops) == 1 and type(n.ops[0]) in F:
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [F[type(n.ops[0])]()], n.comparators))
        return n


@transform
class split_chain(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2:
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])])
        return n


@transform
class ifexp_to_if(Base):
    def visit_Module(self, m):
        def go(f):
            def block(b):
                out = []
                for s in b:
                    self.blocks(s, block) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                        a, c = copy.deepcopy(s), copy.deepcopy(s)
                        a.value, c.value = s.value.body, s.value.orelse
                        out.append(ast.If(s.value.test, [a], [c]))
                    else:
                        out.append(s)
                return out
            self.blocks(f, block)
        return self.infunc(m, go)


@transform
class if_to_ifexp(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and type(n.body[0]) is type(n.orelse[0]):
            a, b = n.body[0], n.orelse[0]
            if isinstance(a, ast.Return) and a.value is not None and b.value is not None:
                return ast.Return(ast.IfExp(n.test, a.value, b.value))
            if isinstance(a, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and len(a.targets) == 1:
                return ast.Assign(a.targets, ast.IfExp(n.test, a.value, b.value), lineno=0)
        return n


@transform
class guard_continue(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body[-1]
            n.body = n.body[:-1] + [ast.If(neg(i.test), [ast.Continue()], [])] + i.body
        return n


@transform
class for_to_while(Base):
    """for i in range(n) -> counted while loop"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(n.target, ast.Name) and isinstance(it, ast.Call) and ast.unparse(it.func) == "range" and 1 <= len(it.args) <= 2 and not n.orelse and not has(n, ast.Continue):
            i = n.target.id
            lo, hi = (ast.Constant(0), it.args[0]) if len(it.args) == 1 else it.args
            if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == i for s in n.body for x in ast.walk(s)):
                return n
            e = self.fresh("end")
            return [assign(e, hi), assign(i, lo), ast.While(ast.Compare(L(i), [ast.Lt()], [L(e)]), n.body + [ast.AugAssign(S(i), ast.Add(), ast.Constant(1))], [])]
        return n


@transform
class append_to_plus(Base):
    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "append" and isinstance(v.func.value, ast.Name) and len(v.args) == 1:
            x = v.func.value.id
            return ast.AugAssign(S(x), ast.Add(), ast.List([v.args[0]], ast.Load()))
        return n


@transform
class append_to_extend(Base):
    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "append" and isinstance(v.func.value, ast.Name) and len(v.args) == 1:
            v.func.attr = "extend"
            v.args = [ast.List(v.args, ast.Load())]
        return n


@transform
class comp_to_map(Base):
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name) and not has(n.elt, ast.ListComp, ast.GeneratorExp, ast.Lambda):
            g = n.generators[0]
            a = ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
            return ast.Call(L("list"), [ast.Call(L("map"), [ast.Lambda(a, n.elt), g.iter], [])], [])
        return n


@transform
class listcomp_to_genexp(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) in ("sum", "max", "min", "set", "any", "all", "list", "tuple", "sorted", "dict", "Counter") and len(n.args) == 1 and isinstance(n.args[0], ast.ListComp):
            n.args[0] = ast.GeneratorExp(n.args[0].elt, n.args[0].generators)
        return n


@transform
class genexp_to_listcomp(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        for i, a in enumerate(n.args):
            if isinstance(a, ast.GeneratorExp):
                n.args[i] = ast.ListComp(a.elt, a.generators)
        return n


@transform
class set_comp(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) == "set" and len(n.args) == 1 and isinstance(n.args[0], (ast.ListComp, ast.GeneratorExp)):
            return ast.SetComp(n.args[0].elt, n.args[0].generators)
        return n


def free_locals(f, e):
    a = f.args
    params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]]
    loc = set(params) | {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {h.name for h in ast.walk(f) if isinstance(h, ast.ExceptHandler) and h.name} | {g.name for g in ast.walk(f) if isinstance(g, ast.FunctionDef) and g is not f}
    bound = set()
    for c in ast.walk(e):
        if isinstance(c, ast.comprehension):
            bound |= names(c.target)
        if isinstance(c, ast.Lambda):
            bound |= {x.arg for x in c.args.args}
    out = []
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n.id in loc and n.id not in bound and n.id not in out:
            out.append(n.id)
    return out, bound & loc


@transform
class extract_expr_method(Base):
    """the value of each return or assignment in a method moves to a new private method"""
    pick = staticmethod(lambda v: True)

    def visit_ClassDef(self, c):
        new = []
        for f in list(c.body):
            if not isinstance(f, ast.FunctionDef) or not f.args.args or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)):
                continue
            if any(ast.unparse(d) in ("staticmethod", "classmethod") for d in f.decorator_list) or f.name in ("__new__",):
                continue
            me = f.args.args[0].arg
            k = 0

            def block(b):
                nonlocal k
                for s in b:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        continue
                    self.blocks(s, block)
                    if isinstance(s, (ast.Return, ast.Assign)) and s.value is not None and isinstance(s.value, (ast.ListComp, ast.BinOp, ast.Call, ast.DictComp, ast.IfExp, ast.JoinedStr)) and not has(s.value, ast.NamedExpr, ast.Starred) and "super()" not in ast.unparse(s.value):
                        fl, clash = free_locals(f, s.value)
                        nested = {g.name for g in ast.walk(f) if isinstance(g, ast.FunctionDef) and g is not f}
                        if clash - {"_"} or set(fl) & nested:
                            continue
                        ps = [x for x in fl if x != me]
                        k += 1
                        nm = "_%s_%s_part%d" % (c.name.lower(), f.name.strip("_"), k)
                        fn = ast.FunctionDef(nm, ast.arguments(posonlyargs=[], args=[ast.arg(me)] + [ast.arg(p) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=[]), [ast.Return(s.value)], [], lineno=0)
                        new.append(fn)
                        s.value = ast.Call(ast.Attribute(L(me), nm, ast.Load()), [L(p) for p in ps], [])
                return b
            bases = [ast.unparse(x) for x in c.bases]
            self.blocks(f, block)
        c.body += new
        return c


@transform
class extract_expr_function(extract_expr_method):
    """... to a new module level function"""
    def visit_Module(self, m):
        added = []
        for c in m.body:
            if isinstance(c, ast.ClassDef):
                before = len(c.body)
                super().visit_ClassDef(c)
                moved = c.body[before:]
                c.body = c.body[:before]
                nm = {f.name: "_m%s" % f.name for f in moved}
                for n in ast.walk(c):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in nm and isinstance(n.func.value, ast.Name):
                        n.args = [n.func.value] + n.args
                        n.func = L(nm[n.func.attr])
                for f in moved:
                    f.name = nm[f.name]
                added += moved
        m.body += added
        return m


@transform
class extract_loop_body(Base):
    """body of a for loop in a method moves to a helper when it assigns no outer local"""
    def visit_ClassDef(self, c):
        new = []
        for f in list(c.body):
            if not isinstance(f, ast.FunctionDef) or not f.args.args or any(ast.unparse(d) in ("staticmethod", "classmethod") for d in f.decorator_list):
                continue
            me = f.args.args[0].arg
            k = 0
            for lp in [n for n in ast.walk(f) if isinstance(n, ast.For)]:
                if any(isinstance(n, ast.For) for s in lp.body for n in ast.walk(s)):
                    continue
                if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Return, ast.Break, ast.Continue, ast.FunctionDef)) for s in lp.body for n in ast.walk(s)):
                    continue
                stored = set().union(*[names(s, ast.Store) for s in lp.body])
                comp = {x for s in lp.body for g in ast.walk(s) if isinstance(g, ast.comprehension) for x in names(g.target)}
                outside = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)} - stored
                inner_only = all(sum(1 for n in ast.walk(f) if isinstance(n, ast.Name) and n.id == x) == sum(1 for s in lp.body for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == x) for x in stored)
                if not inner_only:
                    continue
                if any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) for s in lp.body for n in ast.walk(s)):
                    continue
                fl = []
                for s in lp.body:
                    for x in free_locals(f, s)[0]:
                        if x not in fl and x not in stored and x != me:
                            fl.append(x)
                if comp & set(fl):
                    continue
                k += 1
                nm = "_%s_%s_step%d" % (c.name.lower(), f.name.strip("_"), k)
                new.append(ast.FunctionDef(nm, ast.arguments(posonlyargs=[], args=[ast.arg(me)] + [ast.arg(p) for p in fl], kwonlyargs=[], kw_defaults=[], defaults=[]), lp.body, [], lineno=0))
                lp.body = [ast.Expr(ast.Call(ast.Attribute(L(me), nm, ast.Load()), [L(p) for p in fl], []))]
        c.body += new
        return c


@transform
class lambda_to_def(Base):
    def visit_Module(self, m):
        me = self
        def go(f):
            def block(b):
                out = []
                for s in b:
                    me.blocks(s, block) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                    if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None:
                        for n in ast.walk(s.value):
                            if isinstance(n, ast.Call):
                                for i, a in enumerate(n.args):
                                    if isinstance(a, ast.Lambda):
                                        nm = me.fresh("fn")
                                        out.append(ast.FunctionDef(nm, a.args, [ast.Return(a.body)], [], lineno=0))
                                        n.args[i] = L(nm)
                                for k in n.keywords:
                                    if isinstance(k.value, ast.Lambda):
                                        nm = me.fresh("fn")
                                        out.append(ast.FunctionDef(nm, k.value.args, [ast.Return(k.value.body)], [], lineno=0))
                                        k.value = L(nm)
                    out.append(s)
                return out
            me.blocks(f, block)
        return self.infunc(m, go)


@transform
class hoist_constants(Base):
    def visit_Module(self, m):
        vals = {}
        class V(ast.NodeTransformer):
            def visit_Constant(s, n):
                if isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and n.value not in (0, 1, -1, 2):
                    nm = "_CONST_%d" % len(vals)
                    for k, v in vals.items():
                        if type(v) is type(n.value) and v == n.value:
                            nm = k
                    vals[nm] = n.value
                    return L(nm)
                return n
            def visit_JoinedStr(s, n):
                return n
        for i, st in enumerate(m.body):
            if isinstance(st, ast.ClassDef):
                for f in st.body:
                    if isinstance(f, ast.FunctionDef):
                        f.body = [V().visit(x) for x in f.body]
            elif isinstance(st, ast.FunctionDef):
                st.body = [V().visit(x) for x in st.body]
        k = next((i for i, st in enumerate(m.body) if not isinstance(st, (ast.Import, ast.ImportFrom)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant))), len(m.body))
        m.body[k:k] = [assign(n, ast.Constant(v)) for n, v in vals.items()]
        return m


@transform
class swap_statements(Base):
    """swap adjacent independent assignments that make no calls"""
    def visit_Module(self, m):
        def go(f):
            def pure(s):
                return isinstance(s, ast.Assign) and all(isinstance(t, (ast.Name, ast.Attribute)) for t in s.targets) and not has(s.value, ast.Call, ast.Yield)
            def key(t):
                return ast.unparse(t)
            def block(b):
                for s in b:
                    self.blocks(s, block) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                i = 0
                while i + 1 < len(b):
                    p, q = b[i], b[i + 1]
                    if pure(p) and pure(q):
                        tp, tq = {key(t) for t in p.targets}, {key(t) for t in q.targets}
                        up = {ast.unparse(n) for n in ast.walk(p.value) if isinstance(n, (ast.Name, ast.Attribute))}
                        uq = {ast.unparse(n) for n in ast.walk(q.value) if isinstance(n, (ast.Name, ast.Attribute))}
                        if not (tp & tq) and not (tp & uq) and not (tq & up):
                            b[i], b[i + 1] = q, p
                            i += 2
                            continue
                    i += 1
                return b
            self.blocks(f, block)
        return self.infunc(m, go)


@transform
class inline_locals(Base):
    """x = e (used once, in the next statement) -> e in place"""
    def visit_Module(self, m):
        def go(f):
            def block(b):
                for s in b:
                    self.blocks(s, block) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                i = 0
                while i + 1 < len(b):
                    s, nx = b[i], b[i + 1]
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(nx, (ast.Assign, ast.Return, ast.Expr)):
                        x = s.targets[0].id
                        uses = [n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id == x]
                        inn = [n for n in ast.walk(nx) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load)]
                        if len(uses) == 2 and len(inn) == 1 and not any(inn[0] in list(ast.walk(c)) for c in ast.walk(nx) if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda))):
                            first = next((n for n in ast.walk(nx.value) if isinstance(n, ast.Call)), None)
                            if first is None or first is nx.value and inn[0] in first.args[:1] or not has(s.value, ast.Call):
                                class R(ast.NodeTransformer):
                                    def visit_Name(r, n):
                                        return s.value if n is inn[0] else n
                                R().visit(nx)
                                del b[i]
                                continue
                    i += 1
                return b
            self.blocks(f, block)
        return self.infunc(m, go)


@transform
class tuple_assign(Base):
    """two adjacent independent assignments of constants become one tuple assignment"""
    def visit_Module(self, m):
        def go(f):
            def block(b):
                out = []
                for s in b:
                    self.blocks(s, block) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                    p = out[-1] if out else None
                    if p is not None and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute)) and not isinstance(x.value, ast.Tuple) for x in (p, s)) and not has(s.value, ast.Call) \
                            and ast.unparse(p.targets[0]) not in {ast.unparse(n) for n in ast.walk(s.value) if isinstance(n, (ast.Name, ast.Attribute))} and not has(p.value, ast.Call):
                        out[-1] = ast.Assign([ast.Tuple([p.targets[0], s.targets[0]], ast.Store())], ast.Tuple([p.value, s.value], ast.Load()), lineno=0)
                    else:
                        out.append(s)
                return out
            self.blocks(f, block)
        return self.infunc(m, go)


@transform
class import_modules(Base):
    """import numpy as np -> import numpy"""
    def visit_Module(self, m):
        al = {}
        for s in m.body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname and "." not in a.name:
                        al[a.asname] = a.name
                        a.asname = None
        for n in ast.walk(m):
            if isinstance(n, ast.Name) and n.id in al:
                n.id = al[n.id]
        return m


@transform
class add_type_hints(Base):
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.List):
            return ast.AnnAssign(n.targets[0], L("list"), n.value, 1)
        return n

    def visit_ClassDef(self, c):
        for i, f in enumerate(c.body):
            if isinstance(f, ast.FunctionDef):
                c.body[i] = self.visit(f)
        return c


@transform
class kwargs_positional(Base):
    """self._x(a, k=b) with all keywords in parameter order -> positional (same class)"""
    def visit_ClassDef(self, c):
        sig = {f.name: [a.arg for a in f.args.args][1:] for f in c.body if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.args.kwonlyargs}
        for n in ast.walk(c):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and n.func.attr in sig:
                ps = sig[n.func.attr]
                if n.keywords and all(k.arg for k in n.keywords):
                    if [k.arg for k in n.keywords] == ps[len(n.args):len(n.args) + len(n.keywords)]:
                        n.args += [k.value for k in n.keywords]
                        n.keywords = []
                elif not n.keywords and n.args and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(ps):
                    n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)]
                    n.args = []
        return c


@transform
class nested_ifs(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


@transform
class de_morgan(Base):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), [neg(v) for v in n.values])) if self.boolean else n

    boolean = False

    def visit_If(self, n):
        self.boolean = True
        n.test = self.visit(n.test)
        self.boolean = False
        n.body = [self.visit(s) for s in n.body]
        n.orelse = [self.visit(s) for s in n.orelse]
        return n


@transform
class len_to_truth(Base):
    """`if not xs` on lists is left alone; `if x:` becomes `if bool(x):`"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, (ast.Name, ast.Attribute)):
            n.test = ast.Call(L("bool"), [n.test], [])
        return n


@transform
class super_explicit(Base):
    def visit_ClassDef(self, c):
        for n in ast.walk(c):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
                n.args = [L(c.name), L("self")]
        return c


@transform
class reorder_methods(Base):
    def visit_ClassDef(self, c):
        fs = [f for f in c.body if isinstance(f, ast.FunctionDef)]
        if any("setter" in ast.unparse(d) for f in fs for d in f.decorator_list):
            return c
        fs = fs[:1] + sorted(fs[1:], key=lambda f: f.name, reverse=True)
        it = iter(fs)
        c.body = [next(it) if isinstance(s, ast.FunctionDef) else s for s in c.body]
        return c


@transform
class self_alias(Base):
    """local names for attributes read in a method that never stores them"""
    def visit_ClassDef(self, c):
        props = {f.name for f in c.body if isinstance(f, ast.FunctionDef)}
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or not f.args.args or f.args.args[0].arg != "self" or f.name == "__init__" or f.decorator_list:
                continue
            if has(f, ast.Yield, ast.YieldFrom):
                continue
            reads = {}
            bad = set()
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    if isinstance(n.ctx, ast.Store):
                        bad.add(n.attr)
                    reads[n.attr] = reads.get(n.attr, 0) + 1
            calls = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" for n in ast.walk(f))
            if calls:
                continue
            todo = [a for a, k in reads.items() if k > 1 and a not in bad and a not in props and a.startswith("_")]
            class R(ast.NodeTransformer):
                def visit_Attribute(r, n):
                    r.generic_visit(n)
                    if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in todo and isinstance(n.ctx, ast.Load):
                        return L("own" + n.attr)
                    return n
            f.body = [R().visit(s) for s in f.body]
            k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
            f.body[k:k] = [assign("own" + a, ast.Attribute(L("self"), a, ast.Load())) for a in todo]
        return c


@transform
class sum_to_loop(Base):
    """x = sum(...) -> accumulation loop"""
    def visit_Module(self, m):
        me = self
        def go(f):
            def block(b):
                out = []
                for s in b:
                    me.blocks(s, block) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                    v = getattr(s, "value", None)
                    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) and ast.unparse(v.func) == "sum" and len(v.args) == 1 and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)):
                        comp = v.args[0]
                        t = set().union(*[names(g.target) for g in comp.generators])
                        if len([n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id in t]) == len([n for n in ast.walk(comp) if isinstance(n, ast.Name) and n.id in t]):
                            n = me.fresh("total")
                            inner = [ast.AugAssign(S(n), ast.Add(), comp.elt)]
                            for gen in reversed(comp.generators):
                                for c in reversed(gen.ifs):
                                    inner = [ast.If(c, inner, [])]
                                inner = [ast.For(gen.target, gen.iter, inner, [], lineno=0)]
                            out += [assign(n, ast.Constant(0))] + inner
                            s.value = L(n)
                    out.append(s)
                return out
            me.blocks(f, block)
        return self.infunc(m, go)


@transform
class property_inline(Base):
    """self.prop -> what it returns, for one-line properties of the same class"""
    def visit_ClassDef(self, c):
        one = {}
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and [ast.unparse(d) for d in f.decorator_list] == ["property"]:
                b = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(b) == 1 and isinstance(b[0], ast.Return):
                    one[f.name] = b[0].value
        class R(ast.NodeTransformer):
            def visit_Attribute(r, n):
                r.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in one and isinstance(n.ctx, ast.Load):
                    return copy.deepcopy(one[n.attr])
                return n
        return R().visit(c)


def rewrite(name, out, only=None):
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(REPO, out, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    changed = []
    fs, _, fn = (only or "").partition(":")
    for p in sorted(glob.glob(out + "/src/**/*.py", recursive=True)):
        if "/tests/" in p or p.endswith("_test.py") or fs and fs not in p:
            continue
        src = open(p).read()
        tree = ast.parse(src)
        before = ast.unparse(tree)
        new = T[name]().visit(tree)
        if fn:
            old = ast.parse(src)
            # keep only the named function's rewrite (and anything added)
            pick(old, new, fn)
            new = old
        ast.fix_missing_locations(new)
        after = ast.unparse(new)
        if after != before:
            compile(after, p, "exec")
            open(p, "w").write(after + "\n")
            changed.append(os.path.relpath(p, out))
    return changed


def pick(old, new, fn):
    def fdefs(t):
        r = {}
        for c in t.body:
            if isinstance(c, ast.FunctionDef):
                r[(None, c.name)] = (t, c)
            elif isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef):
                        r[(c.name, f.name)] = (c, f)
        return r
    a, b = fdefs(old), fdefs(new)
    for k, (ow, f) in b.items():
        if k not in a:
            tgt = old if k[0] is None else next(c for c in old.body if isinstance(c, ast.ClassDef) and c.name == k[0])
            tgt.body.append(f)
        elif k[1] == fn:
            o, g = a[k]
            o.body[o.body.index(g)] = f


def check(root, cid):
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "sa.check", cid], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, VERIF_REPO=root, VERIF_EVIDENCE="/tmp/rf/ev"), capture_output=True, text=True)
    return r


def main():
    if sys.argv[1] != "--all":
        print("\n".join(rewrite(sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None)))
        return
    os.makedirs("/tmp/rf/ev", exist_ok=True)
    todo = sys.argv[2:] or list(T)
    cids = os.environ.get("CHECKS", "").split() or ["C%02d" % i for i in range(1, 29)]
    ex = ThreadPoolExecutor(8)
    for n in todo:
        root = "/tmp/rf/" + n
        ch = rewrite(n, root)
        res = list(ex.map(lambda c: check(root, c), cids))
        und = {}
        print("%-24s %2d files" % (n, len(ch)), flush=True)
        for c, r in zip(cids, res):
            last = (r.stdout.strip().splitlines() or [""])[-1]
            if r.returncode != 0:
                msg = [l for l in r.stdout.splitlines() if l and not l.startswith("VIOLATION")]
                print("   ALARM %s rc=%d %s" % (c, r.returncode, (" | ".join(msg) or r.stderr[-300:])[:400]), flush=True)
            elif "undecided=0" not in last:
                u = last.split("undecided=")[-1].split()[0]
                und[c] = u
        if und:
            print("   undecided " + " ".join("%s=%s" % x for x in und.items()), flush=True)
        if not os.environ.get("KEEP"):
            shutil.rmtree(root)


if __name__ == "__main__":
    main()

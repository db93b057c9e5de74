"""C11: every operation resolves."""
import ast
import builtins
from ..astutil import Scoped, bound_names, functions
from ..program import Class, Func, Module
from ..types import Types, bind, own

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__class__", "__annotations__", "__builtins__", "__spec__", "__path__"}
TUPLE = {"_replace", "_asdict", "_fields", "_make", "count", "index", "_field_defaults"}
OBJ = set(dir(object)) | {"__dict__", "__name__", "__qualname__", "__module__", "__wrapped__"}


def run(ctx):
    ctx.rule("names", "every name read in a function is bound in an enclosing scope, the module or the builtins; every name imported from the framework exists; a local name is assigned on every branch that reaches its use (loops taken to run)")
    ctx.rule("attributes", "every attribute read from self or from a value of a framework type is a member of that class, its bases or its subclasses; in a constructor it is set before it is read")
    ctx.rule("calls", "every call of a framework function, method or constructor that can be resolved binds to its signature")
    ctx.rule("interface", "every leaf class provides each abstract operation of its bases with a signature that accepts every call the interface accepts")
    ty = Types(ctx.prog)
    outside = outer_stores(ctx.prog)
    for m in ctx.prog.repo_modules():
        imports(ctx, m)
        v = Visit(ctx, m, ty, outside)
        v.visit(m.tree)
        for q, fn, cls in functions(m):
            ctx.see([q])
            definite(ctx, m, q, fn)
    for c in ctx.prog.all_classes:
        interface(ctx, c)
        construction(ctx, c)


def imports(ctx, m):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and n.module and n.module.startswith("wfa_planning_evaluation_framework"):
            for a in n.names:
                if a.name == "*":
                    continue
                r = ctx.prog.resolve_dotted("@repo" + n.module[len("wfa_planning_evaluation_framework"):] + "." + a.name)
                where = "%s:%d" % (m.relpath, n.lineno)
                if isinstance(r, tuple) and r[0] == "missing":
                    ctx.fail("names", m.name + " import " + a.name, where, "%s does not exist" % (n.module + "." + a.name))
                else:
                    ctx.ok("names", m.name + " import " + a.name)


def outer_stores(prog):
    """attribute names assigned on something other than self, or through setattr/__dict__"""
    out = set()
    for m in prog.repo_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                out.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


def dynamic(c):
    """the class may have members that are not visible"""
    for k in c.mro():
        if any(x in k.methods for x in ("__getattr__", "__getattribute__")):
            return True
        for n in ast.walk(k.node):
            if isinstance(n, ast.Attribute) and n.attr == "__dict__" or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                return True
    for b in c.external_bases():
        if b not in ("object", "abc.ABC", "typing.NamedTuple", "typing.Generic", "ABC", "Exception", "ValueError"):
            return True
    return any(ast.unparse(d).split("(")[0].endswith(("dataclass",)) is False and False for d in c.node.decorator_list)


def member(prog, c, name, outside):
    if c.has_member(name) or name in OBJ or name in outside:
        return True
    if c.is_namedtuple and name in TUPLE:
        return True
    if dynamic(c):
        return True
    return any(s.has_member(name) for s in prog.subclasses(c))


class Visit(Scoped):
    def __init__(self, ctx, m, ty, outside):
        super().__init__(ctx.prog, m)
        self.ctx, self.ty, self.outside = ctx, ty, outside
        self.envs = [{}]
        self.comp = []

    def env(self):
        return self.envs[-1]

    def curcls(self):
        return self.m.classes.get(self.cls[-1].name) if len(self.cls) == 1 else None

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)
        outer = self.env() if self.stack else None
        env = self.ty.env(n, self.m, self.curcls(), outer)
        self.stack.append(n)
        self.envs.append(env)
        for s in n.body:
            self.visit(s)
        self.envs.pop()
        self.stack.pop()
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        env = {k: v for k, v in self.env().items() if k not in bound_names(n)}
        self.stack.append(n)
        self.envs.append(env)
        self.visit(n.body)
        self.envs.pop()
        self.stack.pop()

    def visit_comp(self, n):
        # element variables: own scope
        env = dict(self.env())
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
                    env.pop(x.id, None)
            if isinstance(g.target, ast.Name):
                k = self.ty.of(g.iter, env, self.m, self.curcls())
                if k and k[0] == "list" and k[1]:
                    env[g.target.id] = k[1]
        self.comp.append(names)
        self.envs.append(env)
        self.generic_visit(n)
        self.envs.pop()
        self.comp.pop()
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_comp

    def bound(self, name):
        if any(name in c for c in self.comp) or self.is_local(name) or name in BUILTINS:
            return True
        if self.prog.module_member(self.m, name) is not None:
            return True
        if self.m.star:
            return True
        if not self.stack and self.cls:
            return True
        # global statements elsewhere
        return any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(self.m.tree))

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            if self.bound(n.id):
                self.ctx.checked.append(("names", "")) if False else None
            else:
                self.ctx.fail("names", self.qual() + ":" + n.id, self.where(n), "the name %s is not bound" % n.id)

    def visit_Attribute(self, n):
        self.visit(n.value)
        if not isinstance(n.ctx, ast.Load):
            return
        t = self.ty.of(n.value, self.env(), self.m, self.curcls())
        sub = "%s:%s" % (self.qual(), ast.unparse(n)[:60])
        if t and t[0] in ("inst", "class"):
            c = t[1]
            if member(self.prog, c, n.attr, self.outside):
                self.ctx.ok("attributes", sub)
            elif self.hasattr_guard(n):
                pass
            else:
                self.ctx.fail("attributes", sub, self.where(n), "%s has no attribute %s" % (c.qual, n.attr))
            return
        r = self.resolve(n.value)
        if isinstance(r, Module):
            x = self.prog.module_member(r, n.attr)
            if x is None and not r.star and n.attr not in OBJ and n.attr not in ("__file__",) and not self.prog.lookup_repo(r.name + "." + n.attr):
                self.ctx.fail("names", sub, self.where(n), "module %s has no %s" % (r.name, n.attr))
            else:
                self.ctx.ok("names", sub)
        elif isinstance(r, Class):
            if member(self.prog, r, n.attr, self.outside) or any("Enum" in str(b) for b in r.external_bases()):
                self.ctx.ok("attributes", sub)
            else:
                self.ctx.fail("attributes", sub, self.where(n), "%s has no attribute %s" % (r.qual, n.attr))
        elif isinstance(r, tuple) and r[0] == "missing":
            self.ctx.fail("names", sub, self.where(n), "%s does not exist" % (r[1],))

    def hasattr_guard(self, n):
        for f in self.stack:
            for x in ast.walk(f):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == n.attr:
                    return True
                if isinstance(x, ast.ExceptHandler) and x.type is not None and "AttributeError" in ast.unparse(x.type):
                    return True
        return False

    def visit_Call(self, n):
        self.generic_visit(n)
        sub = "%s:%s" % (self.qual(), ast.unparse(n.func)[:60])
        f = self.ty.callee(n.func, self.env(), self.m, self.curcls())
        target = None
        if f is not None and f[0] == "func" and f[1] is not None:
            target, bound = f[1], f[2]
        else:
            r = self.resolve(n.func)
            if isinstance(r, Class):
                self.construct(r, n, sub)
                return
            if isinstance(r, Func):
                target = r
                bound = r.kind == "classmethod"
        if isinstance(n.func, ast.Name) and n.func.id == "cls" or target is None:
            return
        if decorated(target):
            return
        why = bind(target.node, n, bound)
        if why:
            # an overriding method in a subclass may accept the call, the declared one does not
            self.ctx.fail("calls", sub, self.where(n), "%s %s" % (target.qual, why))
        else:
            self.ctx.ok("calls", sub)

    def construct(self, c, n, sub):
        ab = missing_abstract(c)
        if ab:
            self.ctx.fail("calls", sub, self.where(n), "%s is abstract: %s is not provided" % (c.qual, ", ".join(sorted(ab))))
            return
        node = init_of(c)
        if node is None:
            return
        why = bind(node, n, True)
        if why:
            self.ctx.fail("calls", sub, self.where(n), "constructor of %s %s" % (c.qual, why))
        else:
            self.ctx.ok("calls", sub)


def decorated(f):
    ok = ("staticmethod", "classmethod", "abstractmethod", "abc.abstractmethod", "property", "functools.lru_cache", "lru_cache", "functools.cache", "cache")
    return any(d.split("(")[0] not in ok and not d.startswith(("lru_cache", "functools.lru_cache")) for d in f.decorators)


def init_of(c):
    f = c.find("__init__")
    if f is not None:
        return f.node
    if c.is_namedtuple:
        args = [ast.arg(arg="self")] + [ast.arg(arg=x) for k in reversed(c.mro()) for x in k.field_order]
        d = [c.class_attrs[x] for k in reversed(c.mro()) for x in k.field_order if x in k.class_attrs]
        return ast.FunctionDef(name="__new__", args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=d), body=[], decorator_list=[])
    if c.is_dataclass or c.external_bases() and any(b not in ("abc.ABC", "object", "typing.Generic") for b in c.external_bases()):
        return None
    if "__new__" in [k for x in c.mro() for k in x.methods]:
        return None
    return ast.FunctionDef(name="__init__", args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="self")], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[], decorator_list=[])


def is_abc(c):
    for k in c.mro():
        if any(b in ("abc.ABC", "ABC") for b in k.bases if isinstance(b, str)):
            return True
        if any(w.arg == "metaclass" and "ABCMeta" in ast.unparse(w.value) for w in k.node.keywords):
            return True
    return False


def missing_abstract(c):
    if not is_abc(c):
        return set()
    out = set()
    for k in c.mro():
        for n, f in k.methods.items():
            if f.abstract and c.find(n) is f:
                out.add(n)
    return out


def unimplemented(c):
    """operations whose only definition raises NotImplementedError"""
    out = set()
    for k in c.mro()[1:]:
        for n, f in k.methods.items():
            body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            if n.startswith("_") and not any(isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.value, ast.Name) and x.value.id == "self"
                                             for kk in c.mro() for g in kk.methods.values() if c.find(g.name) is g for x in ast.walk(g.node)):
                continue
            if c.find(n) is f and len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None and "NotImplementedError" in ast.unparse(body[0].exc):
                out.add(n)
    return out


def interface(ctx, c):
    leaf = not ctx.prog.subclasses(c)
    ab = missing_abstract(c) | unimplemented(c)
    if leaf and ab and len(c.mro()) > 1:
        ctx.fail("interface", c.qual, "%s:%d %s" % (c.module.relpath, c.node.lineno, c.qual), "does not provide %s" % ", ".join(sorted(ab)))
    elif leaf and len(c.mro()) > 1:
        ctx.ok("interface", c.qual)
    for n, f in c.methods.items():
        if n.startswith("__") and n not in ("__call__",):
            continue
        for b in c.mro()[1:]:
            g = b.methods.get(n)
            if g is None:
                continue
            why = incompatible(f, g)
            sub = "%s.%s" % (c.qual, n)
            if why and (g.abstract or not n.startswith("_")):
                ctx.fail("interface", sub, "%s:%d %s" % (c.module.relpath, f.node.lineno, f.qual), "%s, declared by %s, %s" % (n, g.qual, why))
            else:
                ctx.ok("interface", sub)
            break


def incompatible(f, g):
    """why f cannot stand in for g"""
    if (f.kind == "property") != (g.kind == "property"):
        return "is a property on one side only"
    if f.kind == "property":
        return None
    a, b = f.node.args, g.node.args
    pa, pb = [x.arg for x in a.posonlyargs + a.args], [x.arg for x in b.posonlyargs + b.args]
    if f.kind in ("method", "classmethod"):
        pa = pa[1:]
    if g.kind in ("method", "classmethod"):
        pb = pb[1:]
    da = len(a.defaults)
    reqa = pa[: len(pa) - da]
    if len(reqa) > len(pb) and b.vararg is None:
        return "requires %s" % ", ".join(reqa[len(pb):])
    if len(pa) < len(pb) and a.vararg is None:
        return "does not accept %s" % ", ".join(pb[len(pa):])
    optb = pb[len(pb) - len(b.defaults):] if b.defaults else []
    bad = [x for x in reqa[: len(pb)] if pb[reqa.index(x)] in optb]
    if bad:
        return "requires %s, which is optional in the interface" % bad[0]
    return None


# ------------------------------------------------------------ definite assignment
class Stop(Exception):
    pass


def definite(ctx, m, q, fn):
    names = bound_names(fn) - {x.arg for x in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs + [y for y in (fn.args.vararg, fn.args.kwarg) if y]}
    if not names:
        return
    for n in ast.walk(fn):
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            return
    bad = []
    try:
        block(fn.body, set(), names, bad, {})
    except RecursionError:
        return
    seen = set()
    for n, conds in bad:
        if n.id in seen:
            continue
        seen.add(n.id)
        ctx.fail("names", q + ":" + n.id, "%s:%d %s" % (m.relpath, n.lineno, q), "the local name %s may not be assigned when it is read" % n.id)
    if not bad:
        ctx.ok("names", q + " locals")


def uses(e, have, names, bad):
    """report reads of unassigned names in an expression; add walrus bindings"""
    st = [e]
    while st:
        n = st.pop()
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            comp = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            uses(n.generators[0].iter, have, names, bad)
            sub = have | comp
            for g in n.generators[1:]:
                uses(g.iter, sub, names, bad)
            for g in n.generators:
                for i in g.ifs:
                    uses(i, sub, names, bad)
            for k in ("elt", "key", "value"):
                if hasattr(n, k):
                    uses(getattr(n, k), sub, names, bad)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and n.id not in have:
            bad.append((n, None))
        if isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Name):
            have.add(n.target.id)
        st.extend(ast.iter_child_nodes(n))


def targets(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,))}


DEAD = object()


def block(body, have, names, bad, known):
    """-> set of names assigned at the end, or DEAD"""
    have = set(have)
    for st in body:
        have = stmt(st, have, names, bad, known)
        if have is DEAD:
            return DEAD
    return have


def join(xs):
    xs = [x for x in xs if x is not DEAD]
    if not xs:
        return DEAD
    out = set(xs[0])
    for x in xs[1:]:
        out &= x
    return out


def stmt(st, have, names, bad, known):
    if isinstance(st, (ast.Return, ast.Raise)):
        for x in ast.iter_child_nodes(st):
            uses(x, have, names, bad)
        return DEAD
    if isinstance(st, (ast.Break, ast.Continue)):
        return DEAD
    if isinstance(st, ast.If):
        uses(st.test, have, names, bad)
        key = ast.unparse(st.test)
        k2 = dict(known)
        # the same test made before: a name assigned under it is assigned here too
        pos = have | known.get(key, set())
        neg = have | known.get("not " + key, set())
        if isinstance(st.test, ast.UnaryOp) and isinstance(st.test.op, ast.Not):
            inner = ast.unparse(st.test.operand)
            pos |= known.get("not " + inner, set())
            neg |= known.get(inner, set())
        a = block(st.body, pos, names, bad, k2)
        b = block(st.orelse, neg, names, bad, k2)
        if a is not DEAD:
            known[key] = known.get(key, set()) | a
        elif b is not DEAD:
            pass
        if b is not DEAD:
            known["not " + key] = known.get("not " + key, set()) | b
        return join([a, b])
    if isinstance(st, (ast.For, ast.AsyncFor)):
        uses(st.iter, have, names, bad)
        a = block(st.body, have | targets(st.target), names, bad, dict(known))
        got = set(have) | targets(st.target) | stored(st.body)
        b = block(st.orelse, got, names, bad, known) if st.orelse else got
        return b
    if isinstance(st, ast.While):
        uses(st.test, have, names, bad)
        block(st.body, have, names, bad, dict(known))
        got = set(have) | stored(st.body)
        return block(st.orelse, got, names, bad, known) if st.orelse else got
    if isinstance(st, (ast.With, ast.AsyncWith)):
        for i in st.items:
            uses(i.context_expr, have, names, bad)
            if i.optional_vars is not None:
                have = have | targets(i.optional_vars)
        return block(st.body, have, names, bad, known)
    if isinstance(st, ast.Try):
        a = block(st.body, have, names, bad, known)
        outs = []
        if a is not DEAD:
            outs.append(block(st.orelse, a, names, bad, known) if st.orelse else a)
        for h in st.handlers:
            # in a handler: what held before, and (leniently) what the body assigned before its last statement
            pre = set(have) | stored(st.body[:-1])
            outs.append(block(h.body, pre | ({h.name} if h.name else set()), names, bad, dict(known)))
        r = join(outs) if outs else DEAD
        if st.finalbody:
            f = block(st.finalbody, r if r is not DEAD else set(have) | stored(st.body), names, bad, known)
            if f is DEAD:
                return DEAD
            return DEAD if r is DEAD else f
        return r
    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return have | {st.name}
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        return have | {(a.asname or a.name).split(".")[0] for a in st.names}
    if isinstance(st, ast.Match):
        uses(st.subject, have, names, bad)
        return set(have) | stored([st])
    if isinstance(st, ast.Delete):
        return have
    if isinstance(st, ast.AugAssign):
        uses(st.value, have, names, bad)
        if isinstance(st.target, ast.Name):
            if st.target.id in names and st.target.id not in have:
                bad.append((st.target, None))
            return have | {st.target.id}
        uses(st.target, have, names, bad)
        return have
    if isinstance(st, (ast.Assign, ast.AnnAssign)):
        if st.value is not None:
            uses(st.value, have, names, bad)
        ts = st.targets if isinstance(st, ast.Assign) else [st.target]
        for x in ts:
            uses(x, have, names, bad)
        if st.value is None:
            return have
        out = set(have)
        for x in ts:
            out |= targets(x)
        # names assigned again invalidate tests remembered about them
        for k in [k for k in known if any(w in k for w in targets(ts[0]))]:
            known.pop(k)
        return out
    if isinstance(st, ast.Assert) or isinstance(st, ast.Expr):
        uses(st, have, names, bad)
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func) in ("sys.exit", "exit", "os._exit"):
            return DEAD
        return have
    return have


def stored(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
    return out


# ------------------------------------------------------------ construction order
def construction(ctx, c):
    f = c.find("__init__")
    if f is None or c.is_namedtuple or dynamic(c) or c.is_dataclass:
        return
    fields = set()
    for k in c.mro():
        for mth in list(k.methods.values()) + list(k.setters.values()):
            a = mth.node.args.args
            me = a[0].arg if a else None
            for n in ast.walk(mth.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    fields.add(n.attr)
    known = {n for k in c.mro() for n in list(k.methods) + list(k.class_attrs)}
    w = Build(ctx, c, fields - known)
    w.run(f, set(), [f.qual])
    if w.bad:
        for attr, node, fn in w.bad[:3]:
            ctx.fail("attributes", "%s construction %s" % (c.qual, attr), "%s:%d %s" % (fn.module.relpath, node.lineno, fn.qual), "constructing %s reads self.%s before it is set" % (c.qual, attr))
    else:
        ctx.ok("attributes", c.qual + " construction order")


class Build:
    def __init__(self, ctx, c, fields):
        self.ctx, self.c, self.fields, self.bad = ctx, c, fields, []

    def run(self, f, have, stack):
        a = f.node.args.args
        me = a[0].arg if a else None
        self.body(f.node.body, have, f, me, stack)
        return have

    def body(self, ss, have, f, me, stack):
        for s in ss:
            self.stmt(s, have, f, me, stack)

    def stmt(self, s, have, f, me, stack):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return
        if isinstance(s, ast.If):
            self.expr(s.test, have, f, me, stack)
            a, b = set(have), set(have)
            self.body(s.body, a, f, me, stack)
            self.body(s.orelse, b, f, me, stack)
            have |= a | b
            return
        if isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
            for fld in ("iter", "test"):
                if hasattr(s, fld):
                    self.expr(getattr(s, fld), have, f, me, stack)
            for i in getattr(s, "items", []):
                self.expr(i.context_expr, have, f, me, stack)
            if hasattr(s, "target"):
                self.store(s.target, have, me)
            self.body(s.body, have, f, me, stack)
            for h in getattr(s, "handlers", []):
                self.body(h.body, have, f, me, stack)
            for fld in ("orelse", "finalbody"):
                self.body(getattr(s, fld, []) or [], have, f, me, stack)
            return
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is not None:
                self.expr(s.value, have, f, me, stack)
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                if isinstance(s, ast.AugAssign) and isinstance(t, ast.Attribute):
                    self.read(t, have, f, me)
                if not (isinstance(s, ast.AnnAssign) and s.value is None):
                    self.store(t, have, me)
                for n in ast.walk(t):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                        self.read(n, have, f, me)
            return
        for x in ast.iter_child_nodes(s):
            self.expr(x, have, f, me, stack)

    def store(self, t, have, me):
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                have.add(n.attr)

    def read(self, n, have, f, me):
        if isinstance(n.value, ast.Name) and n.value.id == me and n.attr in self.fields and n.attr not in have:
            self.bad.append((n.attr, n, f))
            have.add(n.attr)

    def expr(self, e, have, f, me, stack):
        if isinstance(e, (ast.Lambda,)):
            return
        if isinstance(e, ast.Call):
            for x in list(e.args) + [k.value for k in e.keywords]:
                self.expr(x, have, f, me, stack)
            fx = e.func
            g = None
            if isinstance(fx, ast.Attribute):
                if isinstance(fx.value, ast.Name) and fx.value.id == me:
                    g = self.c.find(fx.attr)
                elif isinstance(fx.value, ast.Call) and isinstance(fx.value.func, ast.Name) and fx.value.func.id == "super":
                    if f.cls is not None:
                        g = self.c.find_after(f.cls, fx.attr)
            if g is not None and g.kind == "method" and g.qual not in stack and len(stack) < 12:
                self.run(g, have, stack + [g.qual])
            self.expr(fx, have, f, me, stack)
            return
        if isinstance(e, ast.Attribute):
            self.expr(e.value, have, f, me, stack)
            if isinstance(e.ctx, ast.Load):
                if isinstance(e.value, ast.Name) and e.value.id == me:
                    g = self.c.find(e.attr)
                    if g is not None and g.kind == "property" and g.qual not in stack and len(stack) < 12:
                        self.run(g, have, stack + [g.qual])
                self.read(e, have, f, me)
            return
        for x in ast.iter_child_nodes(e):
            self.expr(x, have, f, me, stack)

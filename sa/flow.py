"""Abstract evaluation of functions to value terms and ordered effects.

Nothing of the repository is executed: statements of the syntax tree are
interpreted over terms (value numbering).  Branches are merged with `ite`, loops
are summarised by recognising what they accumulate, calls to repository
functions are followed to their definitions.
"""
import ast
import copy
from . import terms as t
from .terms import T, mk, const, TRUE, FALSE, NONE, ZERO, ONE, EMPTY, EMPTYDICT
from .program import Program, Module, Class, Func, AnalysisBroken

MAXDEPTH = 14
MAXUNROLL = 40


class Budget(Exception):
    pass


class StaleSpec(Exception):
    """a reference definition mentions something the code no longer has"""


OLDV = mk("var", "$old")


def oldor(x):
    """depends on whether a key was there already"""
    return t.has_op(x, ("oldor",))




class Effect:
    __slots__ = ("kind", "name", "base", "args", "kw", "guard", "loops", "node", "func", "seq", "tries", "value", "pc", "stack")

    def __init__(self, kind, name, base, args, kw, guard, loops, node, func, seq, tries, value=None, pc=(), stack=()):
        self.kind, self.name, self.base, self.args, self.kw = kind, name, base, args, kw
        self.guard, self.loops, self.node, self.func, self.seq, self.tries = guard, loops, node, func, seq, tries
        self.value = value
        self.pc = pc
        self.stack = stack

    def map(self, f):
        return Effect(self.kind, self.name, f(self.base) if self.base is not None else None,
                      tuple(f(a) for a in self.args), tuple((k, f(v)) for k, v in self.kw), f(self.guard),
                      tuple((l, f(s), f(c)) for l, s, c in self.loops), self.node, self.func, self.seq, self.tries,
                      f(self.value) if self.value is not None else None, tuple((f(c), k) for c, k in self.pc), self.stack)

    def where(self):
        return "%s:%s" % (self.func.module.relpath if self.func else "?", getattr(self.node, "lineno", "?"))

    def __repr__(self):
        return "<%s %s%s(%s) if %s loops=%d @%s>" % (self.kind, (t.show(self.base) + ".") if self.base is not None else "", self.name,
                                                     ", ".join([t.show(a) for a in self.args] + ["%s=%s" % (k, t.show(v)) for k, v in self.kw]),
                                                     t.show(self.guard), len(self.loops), self.where())


class Frame:
    def __init__(self, func, module, cls=None, parent=None, selfterm=None):
        self.func, self.module, self.cls, self.parent, self.selfterm = func, module, cls, parent, selfterm
        self.exits, self.kills = [], []
        self.base = 0
        self.yields = None
        self.loop = None
        self.globals = set()
        self.nonlocals = set()


class State:
    __slots__ = ("env", "store", "ov", "pc", "dead")

    def __init__(self, env, store, ov, pc, dead=False):
        self.env, self.store, self.ov, self.pc, self.dead = env, store, ov, pc, dead

    def copy(self):
        return State(dict(self.env), dict(self.store), dict(self.ov), list(self.pc), self.dead)


UNDEF = mk("undef")

# external functions with no effect and a value determined by their arguments
RANDOM_METHODS = {"random", "integers", "randint", "permutation", "poisson", "gamma", "zipf", "shuffle", "normal", "multinomial",
                  "multivariate_hypergeometric", "rand", "choice", "dirichlet", "uniform", "exponential", "geometric", "laplace",
                  "standard_normal", "randn", "binomial", "beta", "sample", "random_sample", "hypergeometric", "permuted", "random_integers"}

SEQ_METHODS = {"append", "extend", "insert", "sort", "reverse", "pop", "remove", "clear", "copy", "count", "index", "update", "add",
               "discard", "get", "items", "keys", "values", "setdefault", "union", "difference", "intersection", "tolist", "most_common",
               "elements", "subtract", "popitem", "symmetric_difference", "flatten", "astype", "sum", "mean", "appendleft", "issubset",
               "issuperset", "isdisjoint", "max", "min", "round", "cumsum", "tobytes", "move_to_end", "popleft", "ravel", "__contains__", "__len__", "__getitem__"}
MUTATORS = {"append", "extend", "insert", "sort", "reverse", "pop", "remove", "clear", "update", "add", "discard", "setdefault",
            "subtract", "popitem", "appendleft", "difference_update", "intersection_update", "symmetric_difference_update",
            "__setitem__", "__delitem__", "fill", "popleft", "move_to_end", "resize", "put", "itemset"}

TYPING = {"List", "Iterable", "Sequence", "Tuple", "Set", "Collection", "Iterator", "list", "tuple", "set", "Generator", "FrozenSet"}


class Interp:
    def __init__(self, prog, stop=(), unfold=(), inline_depth=MAXDEPTH, stop_pred=None, budget=400000, noinline=()):
        self.prog = prog
        self.stop = set(stop)            # qualnames kept as uninterpreted calls
        self.unfold = set(unfold)        # classes whose instances are expanded to ghost constructor arguments
        self.stop_pred = stop_pred
        self.depth_limit = inline_depth
        self.effects = []
        t.typehook = self.typeof
        self.unpacks = []
        self.st = State({}, {}, {}, [])
        self.frames = []
        self.loops = []
        self.tries = []
        self.nref = 0
        self.nexc = 0
        self.counters = set()       # references made by collections.Counter
        self.nrand = {}
        self.closures = {}
        self.seqno = 0
        self.modcache = {}
        self.ctor_cache = {}
        self.field_cache = {}
        self.steps = 0
        self.budget = budget
        self.visited = set()
        self.opaque_reasons = []
        self.callstack = []
        self.assumed_types = {}

    # ------------------------------------------------------------------ heap
    def newref(self, val):
        self.nref += 1
        r = mk("ref", self.nref)
        self.st.store[r] = val
        return r

    def val(self, x):
        """resolve references to the current value, recursively"""
        if x is None:
            return None
        if not t.has_op(x, ("ref",)):
            return x
        return self._val(x, 0)

    def _val(self, x, d):
        if d > 30:
            return t.opaque("cyclic")
        if x.op == "ref":
            v = self.st.store.get(x)
            if v is None:
                return t.opaque("dangling")
            if v.op == "newobj":
                over = tuple(sorted(((k[1], self._val(w, d + 1)) for k, w in self.st.ov.items() if k[0] is x), key=lambda z: z[0]))
                base = mk("new", v.args[0], tuple((k, self.val(w)) for k, w in v.args[1]))
                ctor_fields = v.args[2]
                diff = []
                init = dict(ctor_fields)
                for k, w in over:
                    w0 = init.get(k)
                    if w0 is None or self._val(w0, d + 1) is not w:
                        diff.append((k, w))
                return mk("with", base, tuple(diff)) if diff else base
            return self._val(v, d + 1)
        if not t.has_op(x, ("ref",)):
            return x
        return t.rewrite(x, lambda y: self._val(y, d + 1) if y.op == "ref" else None)

    def peek(self, x):
        """top-level value of a reference, inner references kept"""
        n = 0
        while x.op == "ref" and n < 20:
            v = self.st.store.get(x)
            if v is None or v.op == "newobj":
                return x
            x = v
            n += 1
        return x

    # --------------------------------------------------------------- effects
    def guard(self, base=0):
        return t.and_([c for c, k in self.st.pc[base:]])

    def emit(self, kind, name, base=None, args=(), kw=(), node=None, value=None):
        self.seqno += 1
        f = self.frames[-1].func if self.frames else None
        stack = tuple(fr.func for fr in self.frames)
        e = Effect(kind, name, base, tuple(args), tuple(kw), self.guard(), tuple(self.loops), node, f, self.seqno, tuple(self.tries), value, tuple(self.st.pc), stack)
        self.effects.append(e)
        return e

    def kill(self, kind):
        fr = self.frames[-1]
        fr.kills.append((list(self.st.pc), kind))
        self.st.dead = True

    # ----------------------------------------------------------------- types
    def ann_type(self, module, e):
        if e is None:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.List) and len(e.elts) == 1:
            x = self.ann_type(module, e.elts[0])
            return ("list", x)
        if isinstance(e, ast.Name) and e.id in ("int", "float", "str", "bool"):
            return e.id
        if isinstance(e, ast.Subscript):
            b = e.value
            nm = b.id if isinstance(b, ast.Name) else getattr(b, "attr", None)
            sl = e.slice
            if nm in TYPING:
                if isinstance(sl, ast.Tuple):
                    el = [x for x in sl.elts if not (isinstance(x, ast.Constant) and x.value is Ellipsis)]
                    if nm in ("Tuple", "tuple") and len(el) != 1:
                        return ("tuple", tuple(self.ann_type(module, x) for x in el))
                    return ("list", self.ann_type(module, el[0]))
                return ("list", self.ann_type(module, sl))
            if nm in ("Dict", "dict", "Mapping", "DefaultDict") and isinstance(sl, ast.Tuple):
                return ("dict", self.ann_type(module, sl.elts[0]), self.ann_type(module, sl.elts[1]))
            if nm == "Optional":
                return self.ann_type(module, sl)
            if nm == "Type":
                return None
            return None
        r = self.prog.resolve_expr(module, e)
        if isinstance(r, Class):
            return r
        return None

    def param_types(self, func):
        out = {}
        a = func.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            ty = self.ann_type(func.module, p.annotation)
            if ty is not None:
                out[p.arg] = ty
        return out

    def field_type(self, cls, name):
        key = (cls.qual, name)
        if key in self.field_cache:
            return self.field_cache[key]
        self.field_cache[key] = None
        r = None
        for c in cls.mro():
            if name in c.annotations:
                r = self.ann_type(c.module, c.annotations[name])
                break
            m = c.methods.get(name)
            if m is not None and m.kind == "property":
                r = self.ann_type(m.module, m.node.returns)
                if r is None:
                    # property returning a field
                    rets = [s for s in ast.walk(m.node) if isinstance(s, ast.Return) and s.value is not None]
                    if len(rets) == 1 and isinstance(rets[0].value, ast.Attribute) and isinstance(rets[0].value.value, ast.Name) and rets[0].value.value.id == "self":
                        r = self.field_type(cls, rets[0].value.attr)
                break
            init = c.methods.get("__init__")
            if init is None:
                continue
            pt = self.param_types(init)
            for st in ast.walk(init.node):
                if isinstance(st, ast.Assign):
                    for tg in st.targets:
                        if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == "self" and tg.attr == name:
                            v = st.value
                            while isinstance(v, ast.Call) and v.args and ast.unparse(v.func) in ("deepcopy", "copy.deepcopy", "copy.copy", "list", "tuple", "sorted"):
                                v = v.args[0]
                            if isinstance(v, ast.Name):
                                r = r or pt.get(v.id)
                            elif isinstance(v, ast.Call):
                                k = self.prog.resolve_expr(init.module, v.func)
                                r = r or self.expr_type(cls, pt, v, init.module)
                                if isinstance(k, Class):
                                    r = r or k
                                elif isinstance(v.func, ast.Name) and v.func.id in ("max", "min", "len", "sum", "int", "float", "abs"):
                                    r = r or ("int" if v.func.id in ("len", "int") else "float")
                            else:
                                r = r or self.expr_type(cls, pt, v, init.module)
                elif isinstance(st, ast.Call) and isinstance(st.func, ast.Attribute) and st.func.attr == "append" and len(st.args) == 1 and ast.unparse(st.func.value) == "self." + name:
                    k = self.expr_type(cls, pt, st.args[0], init.module)
                    r = r or (("list", k) if isinstance(k, Class) else None)
            if r is not None:
                break
        self.field_cache[key] = r
        return r

    def expr_type(self, cls, names, e, module=None, depth=0):
        """the type of an expression of a constructor, from the annotations of its parameters"""
        if isinstance(e, ast.Name):
            return names.get(e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
            return self.field_type(cls, e.attr)
        if isinstance(e, ast.Call) and e.args and ast.unparse(e.func) in ("deepcopy", "copy.deepcopy", "copy.copy", "list", "tuple", "sorted"):
            return self.expr_type(cls, names, e.args[0], module, depth)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("max", "min", "len", "sum", "int", "float", "abs"):
                return "int" if e.func.id in ("len", "int") else "float"
            own = isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self"
            g = cls.find(e.func.attr) if own else self.prog.resolve_expr(module, e.func) if module is not None and isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if isinstance(g, Class):
                return g
            if isinstance(g, Func) and depth < 3 and not isinstance(g.node, ast.Lambda):
                r = self.ann_type(g.module, g.node.returns)
                rets = [n for n in ast.walk(g.node) if isinstance(n, ast.Return) and n.value is not None]
                if r is not None or len(rets) != 1:
                    return r
                ps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
                if own and g.kind != "staticmethod":
                    ps = ps[1:]
                inner = self.param_types(g)
                for p, a in list(zip(ps, e.args)) + [(k.arg, k.value) for k in e.keywords if k.arg]:
                    ty = self.expr_type(cls, names, a, module, depth)
                    if ty is not None:
                        inner.setdefault(p, ty)
                return self.expr_type(cls, inner, rets[0].value, g.module, depth + 1)
            return None
        if isinstance(e, ast.Subscript):
            b = self.expr_type(cls, names, e.value, module, depth)
            if isinstance(b, tuple) and b[0] == "list":
                return b if isinstance(e.slice, ast.Slice) else b[1]
            if isinstance(b, tuple) and b[0] == "tuple" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and 0 <= e.slice.value < len(b[1]):
                return b[1][e.slice.value]
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and isinstance(e.elt, ast.Call):
            k = self.prog.resolve_expr(module, e.elt.func) if module is not None and isinstance(e.elt.func, (ast.Name, ast.Attribute)) else None
            if isinstance(k, Class):
                return ("list", k)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            b = self.expr_type(cls, names, e.generators[0].iter, module, depth)
            if isinstance(b, tuple) and b[0] == "list":
                tg, inner = e.generators[0].target, dict(names)
                if isinstance(tg, ast.Name):
                    inner[tg.id] = b[1]
                elif isinstance(tg, ast.Tuple) and isinstance(b[1], tuple) and b[1][0] == "tuple" and len(tg.elts) == len(b[1][1]):
                    for n, ty in zip(tg.elts, b[1][1]):
                        if isinstance(n, ast.Name):
                            inner[n.id] = ty
                r = self.expr_type(cls, inner, e.elt, module, depth)
                return ("list", r) if r is not None else None
        return None

    def typeof(self, x, d=0):
        if x is None or d > 12:
            return None
        if x in self.assumed_types:
            return self.assumed_types[x]
        o = x.op
        if o == "var":
            return t.VAR_TYPES.get(x)
        if o == "ref":
            v = self.st.store.get(x)
            if v is None:
                return None
            if v.op == "newobj":
                return self.class_of(v.args[0])
            return self.typeof(v, d + 1)
        if o == "new":
            return self.class_of(x.args[0])
        if o == "with":
            return self.typeof(x.args[0], d + 1)
        if o in ("deepcopy", "copy", "sorted", "reversed", "slice", "arr"):
            return self.typeof(x.args[0], d + 1)
        if o == "attr":
            b = self.typeof(x.args[0], d + 1)
            if isinstance(b, Class):
                if x.args[1].startswith("$"):
                    init = b.find("__init__")
                    if init is not None:
                        return self.param_types(init).get(x.args[1][1:])
                    return self.field_type(b, x.args[1][1:])
                return self.field_type(b, x.args[1])
            return None
        if o == "item":
            b = self.typeof(x.args[0], d + 1)
            if isinstance(b, tuple):
                if b[0] == "list":
                    return b[1]
                if b[0] == "dict":
                    return b[2]
                if b[0] == "tuple":
                    n = t.numval(x.args[1])
                    if n is not None and 0 <= n < len(b[1]):
                        return b[1][int(n)]
            return None
        if o == "fold" and isinstance(x.args[0], int) and x.args[3].op == "seq" and x.args[0] < len(x.args[3].args):
            v = x.args[3].args[x.args[0]]
            return ("dict", None, None) if v.op in ("dict", "scatter", "dput") else self.typeof(v, d + 1)
        if o == "keys":
            b = self.typeof(x.args[0], d + 1)
            if isinstance(b, tuple) and b[0] == "dict":
                return ("list", b[1])
        if o == "rcall":
            f = self.func_by_qual(x.args[0])
            if f is not None:
                return self.ann_type(f.module, f.node.returns)
        if o == "ite":
            a, b = self.typeof(x.args[1], d + 1), self.typeof(x.args[2], d + 1)
            return a if a == b else None
        if o == "gen":
            e = self.typeof(x.args[3], d + 1)
            return ("list", e) if e is not None else None
        if o == "seq" and x.args:
            e = self.typeof(x.args[0], d + 1)
            return ("list", e) if e is not None else None
        return None

    def class_of(self, qual):
        try:
            return self.prog.cls(qual)
        except AnalysisBroken:
            return None

    def func_by_qual(self, qual):
        r = self.prog.lookup_repo(qual)
        return r if isinstance(r, Func) else None

    # ---------------------------------------------------------- entry points
    def make_self(self, cls, name="self"):
        return t.var(name, cls)

    def param_vars(self, func, skip_self=True, types=None):
        pt = self.param_types(func)
        if types:
            pt.update(types)
        out = {}
        a = func.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        if skip_self and func.cls is not None and func.kind not in ("staticmethod",):
            ps = ps[1:]
        for p in ps + [k.arg for k in a.kwonlyargs]:
            out[p] = t.var(p, pt.get(p))
        return out

    def construct(self, cls, args=None, selfname="self"):
        """evaluate __init__ on symbolic arguments; returns (self term, arg vars)"""
        s = t.var(selfname, cls)
        init = cls.find("__init__")
        if init is None:
            return s, {}
        vs = self.param_vars(init)
        if args:
            vs.update(args)
        self.invoke(init, self.with_defaults(init, vs, s), selfterm=s, cls=cls)
        return s, vs

    def with_defaults(self, func, vs, selfterm=None):
        d = dict(vs)
        a = func.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        if func.cls is not None and func.kind != "staticmethod" and names:
            if func.kind == "classmethod":
                d.setdefault(names[0], selfterm if selfterm is not None else mk("clsref", func.cls.qual))
            else:
                d[names[0]] = selfterm
        if a.vararg:
            d.setdefault(a.vararg.arg, t.var(a.vararg.arg))
        if a.kwarg:
            d.setdefault(a.kwarg.arg, t.var(a.kwarg.arg))
        return d

    def run_method(self, cls, name, args=None, selfterm=None):
        f = self.prog.method(cls, name)
        s = selfterm if selfterm is not None else (mk("clsref", cls.qual) if f.kind == "classmethod" else t.var("self", cls))
        vs = self.param_vars(f)
        if args:
            vs.update(args)
        r = self.invoke(f, self.with_defaults(f, vs, s), selfterm=s, cls=cls)
        return self.val(r)

    def run_func(self, func, args=None):
        vs = self.param_vars(func)
        if args:
            vs.update(args)
        r = self.invoke(func, self.with_defaults(func, vs), cls=func.cls)
        return self.val(r)

    # -------------------------------------------------------------- invoking
    def invoke(self, func, bound, selfterm=None, cls=None, parent=None):
        """evaluate the body with parameters bound; returns value term"""
        self.visited.add(func.qual)
        fr = Frame(func, func.module, cls or func.cls, parent, selfterm)
        fr.base = len(self.st.pc)
        if func.is_generator:
            fr.yields = self.newref(EMPTY)
        saved_env = self.st.env
        saved_loops, saved_tries = self.loops, self.tries
        self.st.env = dict(bound)
        self.frames.append(fr)
        self.callstack.append(func.qual)
        pc0 = list(self.st.pc)
        try:
            body = func.node.body
            if isinstance(body, list):
                self.exec_block(body)
                if not self.st.dead:
                    self.record_exit(NONE)
            else:
                v = self.ev(body)
                self.record_exit(v)
        finally:
            self.frames.pop()
            self.callstack.pop()
        res = self.finish(fr, pc0)
        self.st.env = saved_env
        self.loops, self.tries = saved_loops, saved_tries
        if fr.yields is not None:
            return fr.yields
        return res

    def record_exit(self, v):
        fr = self.frames[-1]
        g = self.guard(fr.base)
        fr.exits.append((g, v, dict(self.st.store), dict(self.st.ov)))

    def finish(self, fr, pc0):
        exits = fr.exits
        raises = [t.and_([c for c, k in pc[fr.base:]]) for pc, kind in fr.kills if kind == "raise"]
        if not exits:
            self.st.pc = pc0
            self.st.dead = True
            fr2 = self.frames[-1] if self.frames else None
            if fr2 is not None:
                fr2.kills.append((list(pc0), "raise"))
            return mk("never")
        g, v, store, ov = exits[-1]
        st = State(self.st.env, store, ov, pc0)
        self.st = st
        for g2, v2, store2, ov2 in reversed(exits[:-1]):
            a = State({}, store2, ov2, pc0)
            b = State({}, self.st.store, self.st.ov, pc0)
            v = self.merge_val(g2, v2, v, a, b)
            m = self.merge_states(g2, a, b)
            self.st.store, self.st.ov = m.store, m.ov
            extra = {k: x for k, x in self.st.store.items()}
            self.st.store = extra
            if v.op == "mref":
                r = v.args[0]
                self.st.store[r] = v.args[1]
                v = r
        self.st.dead = False
        self.st.pc = list(pc0)
        for r in raises:
            n = t.not_(r)
            if n is not TRUE:
                self.st.pc.append((n, "noraise"))
                if self.frames:
                    # surfaces as a kill of the caller too
                    self.frames[-1].kills.append((list(pc0) + [(r, "branch")], "raise"))
        return v

    def merge_val(self, c, a, b, sa, sb):
        if a is b:
            return a
        save = self.st
        if a.op == "ref" and b.op == "ref":
            va, vb = sa.store.get(a), sb.store.get(b)
            if va is not None and vb is not None and va.op != "newobj" and vb.op != "newobj":
                self.nref += 1
                r = mk("ref", self.nref)
                mv = t.ite(c, va, vb)
                return mk("mref", r, mv)
        self.st = sa
        x = self.val(a)
        self.st = sb
        y = self.val(b)
        self.st = save
        return t.ite(c, x, y)

    def merge_states(self, c, A, B):
        store = {}
        for k in set(A.store) | set(B.store):
            va, vb = A.store.get(k), B.store.get(k)
            if va is None:
                store[k] = vb
            elif vb is None or va is vb:
                store[k] = va
            elif va.op == "newobj" or vb.op == "newobj":
                store[k] = va
            else:
                store[k] = t.ite(c, va, vb)
        ov = {}
        extra = {}
        for k in set(A.ov) | set(B.ov):
            va, vb = A.ov.get(k), B.ov.get(k)
            if va is vb:
                ov[k] = va
                continue
            if va is None:
                va = self.initial_field(k)
            if vb is None:
                vb = self.initial_field(k)
            m = self.merge_val(c, va, vb, A, B)
            if m.op == "mref":
                extra[m.args[0]] = m.args[1]
                m = m.args[0]
            ov[k] = m
        env = {}
        for k in set(A.env) | set(B.env):
            va, vb = A.env.get(k, UNDEF), B.env.get(k, UNDEF)
            if va is vb:
                env[k] = va
                continue
            m = self.merge_val(c, va, vb, A, B)
            if m.op == "mref":
                extra[m.args[0]] = m.args[1]
                m = m.args[0]
            env[k] = m
        store.update(extra)
        return State(env, store, ov, [], False)

    def initial_field(self, key):
        base, name = key
        if base.op in ("ref",):
            return UNDEF
        return self.raw_attr(base, name)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st.dead:
                return
            self.steps += 1
            if self.steps > self.budget:
                raise Budget()
            self.exec(s)

    def exec(self, s):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.note("stmt " + type(s).__name__)
            return
        m(s)

    def note(self, why):
        self.opaque_reasons.append(why)

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        m = self.frames[-1].module
        for n, target in m.bindings(s):
            self.st.env[n] = self.entity(self.prog.resolve_dotted(target), n)

    x_ImportFrom = x_Import

    def x_Global(self, s):
        self.frames[-1].globals.update(s.names)

    def x_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.discarded = s.value
        self.ev(s.value)

    def x_Assert(self, s):
        c = t.truth(self.ev_val(s.test))
        if c is TRUE:
            return
        self.emit("assert", "AssertionError", node=s, args=(c,))
        self.st.pc.append((c, "noraise"))
        self.frames[-1].kills.append((self.st.pc[:-1] + [(t.not_(c), "branch")], "raise"))

    def x_Delete(self, s):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                self.st.env.pop(tg.id, None)
            elif isinstance(tg, ast.Subscript):
                base = self.ev(tg.value)
                self.emit("mutate", "del", base=self.val(base), args=(self.ev_val(tg.slice) if not isinstance(tg.slice, ast.Slice) else NONE,), node=s)
                if base.op == "ref":
                    v = self.peek(base)
                    k = self.ev_val(tg.slice) if not isinstance(tg.slice, ast.Slice) else t.opaque("slice")
                    self.st.store[base] = mk("ddel", v, k) if v.op != "dict" else self.dict_del(v, k)

    def dict_del(self, v, k):
        return mk("dict", tuple((a, b) for a, b in v.args[0] if a is not k))

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        if self.st.dead:
            return
        self.record_exit(v)
        self.kill("return")

    def x_Raise(self, s):
        name, args = "Exception", ()
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                r = self.prog.resolve_expr(self.frames[-1].module, e.func)
                name = r if isinstance(r, str) else getattr(r, "qual", "?")
                args = tuple(self.ev_val(a) for a in e.args if not isinstance(a, ast.Starred))
            else:
                r = self.prog.resolve_expr(self.frames[-1].module, e)
                name = r if isinstance(r, str) else getattr(r, "qual", "?")
        else:
            name = "reraise"
        if self.st.dead:
            return
        self.emit("raise", name, args=args, node=s)
        self.kill("raise")

    def x_If(self, s):
        c = t.truth(self.ev_val(s.test))
        if self.st.dead:
            return
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, fa, fb):
        c = self.simplify_pc(c)
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        fr = self.frames[-1]
        base = self.st
        n, k = len(base.pc), len(fr.kills)
        A, B = base.copy(), base.copy()
        A.pc.append((c, "branch"))
        B.pc.append((t.not_(c), "branch"))
        self.st = A
        fa()
        A = self.st
        self.st = B
        fb()
        B = self.st
        if A.dead and B.dead:
            base.dead = True
            self.st = base
            return
        if A.dead:
            st = B
        elif B.dead:
            st = A
        else:
            self.st = base
            st = self.merge_states(c, A, B)
        st.pc = list(base.pc)
        st.dead = False
        self.st = st
        self.add_kills(fr, k, n)

    def add_kills(self, fr, k, n):
        for pc, kind in fr.kills[k:]:
            cond = t.and_([x for x, _ in pc[n:]])
            nc = t.not_(cond)
            nc = self.simplify_pc(nc)
            if nc is TRUE:
                continue
            for x in t.conjuncts(nc):
                self.st.pc.append((x, "noraise" if kind == "raise" else "branch"))

    def simplify_pc(self, c):
        if c in (TRUE, FALSE):
            return c
        known = set()
        for x, _ in self.st.pc:
            known.update(t.conjuncts(x))
        if c in known:
            return TRUE
        if t.not_(c) in known:
            return FALSE
        if c.op in ("and", "or"):
            xs = [TRUE if x in known else (FALSE if t.not_(x) in known else x) for x in c.args[0]]
            return (t.and_ if c.op == "and" else t.or_)(xs)
        return c

    # assignment
    def x_Assign(self, s):
        v = self.ev(s.value)
        if self.st.dead:
            return
        for tg in s.targets:
            self.assign(tg, v, s)

    def x_AnnAssign(self, s):
        if s.value is not None:
            v = self.ev(s.value)
            if not self.st.dead:
                self.assign(s.target, v, s)

    def assign(self, tg, v, node=None):
        if isinstance(tg, ast.Name):
            fr = self.frames[-1]
            if tg.id in fr.globals:
                self.emit("global", tg.id, args=(self.val(v),), node=node)
            if tg.id in fr.nonlocals:
                self.emit("nonlocal", tg.id, args=(self.val(v),), node=node)
            self.st.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            starred = [i for i, x in enumerate(tg.elts) if isinstance(x, ast.Starred)]
            pv = self.peek(v)
            if starred:
                i = starred[0]
                pv = self.val(pv)
                n = len(tg.elts)
                for j in range(i):
                    self.assign(tg.elts[j], t.item(pv, const(j)), node)
                tail = n - i - 1
                self.assign(tg.elts[i].value, self.newref(t.slice_(pv, const(i), const(-tail) if tail else NONE)), node)
                for j in range(i + 1, n):
                    self.assign(tg.elts[j], t.item(pv, const(j - n)), node)
                return
            if pv.op != "seq" and pv.op in ("var", "attr", "item", "slice"):
                self.unpacks.append(t.eq(t.length(pv), const(len(tg.elts))))
            if pv.op == "mcall":
                self.emit("unpack", str(len(tg.elts)), base=self.val(pv), node=node)
            for i, x in enumerate(tg.elts):
                self.assign(x, self.unpack_item(pv, i, len(tg.elts)), node)
        elif isinstance(tg, ast.Attribute):
            base = self.ev(tg.value)
            self.set_attr(base, tg.attr, v, node)
        elif isinstance(tg, ast.Subscript):
            self.set_item(tg, v, node)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, node)

    def unpack_item(self, pv, i, n):
        if pv.op == "seq" and len(pv.args) == n:
            return pv.args[i]
        ty = self.typeof(pv)
        if isinstance(ty, Class) and ty.is_namedtuple and i < len(ty.field_order):
            return self.get_attr(pv, ty.field_order[i])
        return t.item(pv, const(i))

    def set_attr(self, base, name, v, node=None):
        b = base
        if b.op != "ref":
            b = self.peek(b)
        cls = self.typeof(b)
        if isinstance(cls, Class):
            setter = cls.find_setter(name)
            if setter is not None and len(self.callstack) < self.depth_limit:
                ps = setter.params()
                self.invoke(setter, {ps[0]: b, ps[1]: v}, selfterm=b, cls=cls)
                return
        self.emit("setattr", name, base=b if b.op == "ref" else self.val(b), args=(self.val(v),), node=node)
        self.st.ov[(b, name)] = v

    def set_item(self, tg, v, node=None):
        base = self.ev(tg.value)
        if isinstance(tg.slice, ast.Slice):
            lo, hi, step = self.slice_parts(tg.slice)
            pb = self.peek(base)
            self.emit("mutate", "setslice", base=base if base.op == "ref" else self.val(base), args=(lo, hi, self.val(v)), node=node)
            if lo in (NONE, ZERO) and hi is NONE and step is NONE:
                nv = self.val(v)
            else:
                nv = mk("setslice", self.val(pb), lo, hi, step, self.val(v))
            self.rebind(tg.value, base, nv)
            return
        k = self.ev(tg.slice)
        k = self.val(k)
        # nested element of a local container:  base[k1][k2] = v
        pb = self.peek(base)
        self.emit("mutate", "setitem", base=base if base.op == "ref" else self.val(base), args=(k, self.val(v)), node=node)
        vv = v if v.op == "ref" else self.val(v)
        if base.op != "ref" and isinstance(tg.value, ast.Subscript) and not isinstance(tg.value.slice, ast.Slice):
            outer = self.ev(tg.value.value)
            if outer.op == "ref":
                k1 = self.ev_val(tg.value.slice)
                ov = self.peek(outer)
                inner = t.item(ov, k1)
                d = self.delta_item(inner, k, self.val(v))
                if d is not None:
                    self.st.store[outer] = self.nscatter(ov, k1, k, d)
                    return
                self.st.store[outer] = self.put(ov, k1, self.put(inner, k, vv))
                return
        d = self.delta_item(self.val(pb), k, self.val(v)) if not t.is_const(k) else None
        if d is not None and pb.op != "seq":
            nv = t.scatter(pb, t.seq((t.seq((k, d)),)))
        else:
            nv = self.put(pb, k, vv)
        self.rebind(tg.value, base, nv)

    def nscatter(self, base, k1, k2, d):
        return mk("nscatter", base, t.seq((t.seq((k1, k2, d)),)))

    def delta_item(self, container, k, v):
        """v = container[k] + d  ->  d (d not mentioning container[k]); None otherwise"""
        cands = [t.item(container, k)]
        for c in cands:
            if c.op in ("num", "const"):
                continue
            for g in t.subterms(v):
                if g is c or (g.op == "get" and g.args[0] is container and g.args[1] is k and g.args[2] is ZERO):
                    d = t.sub(v, g)
                    if not t.occurs(g, d) and d.op not in ("call",):
                        return d
        return None

    def put(self, base, k, v):
        """container with element k set"""
        if base.op == "dict":
            return t.dput(base, t.seq((t.seq((k, v)),)))
        if base.op in ("dput",) or base is EMPTYDICT:
            return t.dput(base, t.seq((t.seq((k, v)),)))
        if base.op == "scatter" and base.args[0] in (EMPTYDICT,) or base.op == "nscatter":
            return t.dput(base, t.seq((t.seq((k, v)),)))
        if base.op == "carry" and base.args[1] == "dict":
            return t.dput(base, t.seq((t.seq((k, v)),)))
        ty = self.typeof(base)
        if isinstance(ty, tuple) and ty[0] == "dict":
            return t.dput(base, t.seq((t.seq((k, v)),)))
        if t.strval(k) is not None:
            return t.dput(base, t.seq((t.seq((k, v)),)))
        if base.op == "carry":
            return mk("upd", base, k, v)
        if base.op == "arr":
            return mk("arr", self.put(base.args[0], k, v))
        return t.upd(base, k, v)

    def rebind(self, node, base, nv):
        """store new content of a mutated container"""
        if base.op == "ref":
            self.st.store[base] = nv
            return
        r = self.newref(nv)
        if isinstance(node, ast.Name):
            self.st.env[node.id] = r
        elif isinstance(node, ast.Attribute):
            b = self.ev(node.value)
            b = b if b.op == "ref" else self.peek(b)
            self.st.ov[(b, node.attr)] = r
        elif isinstance(node, ast.Subscript) and not isinstance(node.slice, ast.Slice):
            outer = self.ev(node.value)
            k = self.ev_val(node.slice)
            ov = self.peek(outer)
            self.rebind(node.value, outer, self.put(ov, k, nv))

    def x_AugAssign(self, s):
        tg = s.target
        op = type(s.op).__name__
        if isinstance(tg, ast.Subscript) and not isinstance(tg.slice, ast.Slice) and op in ("Add", "Sub", "BitOr"):
            base = self.ev(tg.value)
            k = self.ev_val(tg.slice)
            v = self.ev(s.value)
            if self.st.dead:
                return
            vv = self.val(v)
            pb = self.peek(base)
            self.emit("mutate", "augitem", base=base if base.op == "ref" else self.val(base), args=(k, vv), node=s)
            if op == "BitOr":
                old = t.item(self.val(pb), k)
                if pb.op == "dict" or pb.op in ("scatteror", "carry") or pb is EMPTYDICT:
                    nv = self.scatteror(pb, k, vv)
                else:
                    nv = self.put(pb, k, t.bitor(old, vv))
                self.rebind(tg.value, base, nv)
                return
            if op == "Sub":
                vv = t.neg(vv)
            inner = t.item(pb, k)
            if inner.op == "ref" or t.is_seq(self.peek(inner)) or t.is_seq(vv):
                # list element extended in place
                if inner.op == "ref":
                    self.st.store[inner] = t.add(self.peek(inner), v if v.op != "ref" else self.peek(v))
                else:
                    self.rebind(tg.value, base, self.put(pb, k, t.add(inner, vv)))
                return
            if base.op != "ref" and isinstance(tg.value, ast.Subscript) and not isinstance(tg.value.slice, ast.Slice):
                outer = self.ev(tg.value.value)
                if outer.op == "ref":
                    k1 = self.ev_val(tg.value.slice)
                    self.st.store[outer] = self.nscatter(self.peek(outer), k1, k, vv)
                    return
            if pb.op == "seq" and t.is_const(k):
                nv = t.upd(pb, k, t.add(inner, vv))
            else:
                nv = t.scatter(pb, t.seq((t.seq((k, vv)),)))
            self.rebind(tg.value, base, nv)
            return
        cur = self.ev(tg_load(tg))
        v = self.ev(s.value)
        if self.st.dead:
            return
        pc = self.peek(cur)
        if op == "Add" and (t.is_seq(pc) or pc.op == "carry" and pc.args[1] == "list") and pc.op != "arr":
            self.emit("mutate", "iadd", base=cur if cur.op == "ref" else self.val(cur), args=(self.val(v),), node=s)
            nv = t.concat([pc, self.peek(v)])
            if cur.op == "ref":
                self.st.store[cur] = nv
            else:
                self.rebind(tg, cur, nv)
            return
        if cur.op == "ref" and (pc.op in ("set", "dict", "dput", "scatter", "setadd") or pc.op == "carry" and pc.args[1] in ("set", "dict")):
            self.emit("mutate", "i" + op, base=cur, args=(self.val(v),), node=s)
            if op == "BitOr" and (pc.op in ("set", "setadd") or pc.op == "carry" and pc.args[1] == "set"):
                self.st.store[cur] = self.set_union(pc, self.val(v))
                return
            self.st.store[cur] = self.binop(op, self.val(cur), self.val(v))
            return
        nv = self.binop(op, self.val(cur), self.val(v))
        if cur.op != "ref" and not t.is_scalar(self.val(cur)) and isinstance(tg, ast.Name) and self.val(cur).op in ("var",) and t.VAR_TYPES.get(self.val(cur)) not in ("int", "float", "str", "bool"):
            self.emit("maybe_inplace", op, base=self.val(cur), args=(self.val(v),), node=s)
        self.assign(tg, nv, s)

    def scatteror(self, base, k, v):
        g = t.seq((t.seq((k, v)),))
        if base.op == "scatteror":
            return mk("scatteror", base.args[0], t.concat([base.args[1], g]))
        return mk("scatteror", base, g)

    def set_union(self, a, b):
        sa = a.args[0] if a.op == "set" else a
        sb = b.args[0] if b.op == "set" else b
        if a.op in ("carry",) or a.op == "setadd":
            return mk("setadd", a, sb) if a.op != "setadd" else mk("setadd", a.args[0], t.concat([a.args[1], sb]))
        return t.set_(t.concat([sa, sb]))

    # ------------------------------------------------------------- try / with
    def x_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if self.st.dead:
                return
            e = self.emit("enter", "with", base=self.val(v), node=s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        self.exec_block(s.body)

    def x_Try(self, s):
        fr = self.frames[-1]
        self.nexc += 1
        eid = self.nexc
        exc = mk("exc", eid)
        types = []
        for h in s.handlers:
            types.append(self.handler_types(h))
        pre = self.st.copy()
        base_tries = self.tries
        n, k, ne = len(self.st.pc), len(fr.kills), len(self.effects)
        self.tries = base_tries + [(eid, "body", tuple(types))]
        self.exec_block(s.body)
        body = self.st
        if not body.dead and s.orelse:
            self.tries = base_tries + [(eid, "else", tuple(types))]
            self.exec_block(s.orelse)
            body = self.st
        mod_env = {x for x in set(body.env) | set(pre.env) if body.env.get(x) is not pre.env.get(x)}
        mod_store = {x for x in body.store if x in pre.store and body.store[x] is not pre.store[x]}
        mod_ov = {x for x in set(body.ov) | set(pre.ov) if body.ov.get(x) is not pre.ov.get(x)}
        result = body
        body_kills = fr.kills[k:]
        states = []
        for h in s.handlers:
            hs = pre.copy()
            for x in mod_env:
                hs.env[x] = mk("maybe", eid, x) if x not in pre.env else pre.env[x]
            hs.pc = list(pre.pc) + [(exc, "branch")]
            hs.dead = False
            self.st = hs
            self.tries = base_tries + [(eid, "handler", ())]
            if h.name:
                self.st.env[h.name] = mk("excval", eid)
            k2 = len(fr.kills)
            self.exec_block(h.body)
            states.append((self.st, fr.kills[k2:]))
        self.tries = base_tries
        cur = None
        # raises inside the body are caught when a handler exists
        kept = []
        for pc, kind in body_kills:
            if kind == "raise" and s.handlers:
                continue
            kept.append((pc, kind))
        fr.kills = fr.kills[:k] + kept + [x for _, ks in states for x in ks]
        alive_h = [st for st, _ in states if not st.dead]
        if body.dead:
            if not alive_h:
                st = pre
                st.dead = True
            else:
                st = alive_h[0]
                st.pc = list(pre.pc)
        else:
            st = body
            st.pc = list(pre.pc)
            for hs in alive_h[:1]:
                self.st = pre
                m = self.merge_states(exc, hs, body)
                m.pc = list(pre.pc)
                st = m
            if s.handlers and not alive_h:
                st.pc.append((t.not_(exc), "noraise" if all(all(kd == "raise" for _, kd in ks) for _, ks in states) else "branch"))
        self.st = st
        if s.finalbody and not self.st.dead:
            self.tries = base_tries + [(eid, "finally", ())]
            self.exec_block(s.finalbody)
            self.tries = base_tries

    def handler_types(self, h):
        if h.type is None:
            return ("BaseException",)
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in es:
            r = self.prog.resolve_expr(self.frames[-1].module, e)
            out.append(r if isinstance(r, str) else getattr(r, "qual", "?"))
        return tuple(out)

    # ------------------------------------------------------------------ loops
    def x_While(self, s):
        b = s.body[0]
        if isinstance(s.test, ast.Constant) and s.test.value and len(s.body) > 1 and not s.orelse and isinstance(b, ast.If) and not b.orelse \
                and len(b.body) == 1 and isinstance(b.body[0], ast.Break):
            # while True: if c: break; ...  is  while not c: ...
            c = b.test.operand if isinstance(b.test, ast.UnaryOp) and isinstance(b.test.op, ast.Not) else flipped(b.test)
            s = ast.copy_location(ast.While(c, s.body[1:], []), s)
            ast.fix_missing_locations(s)
        if self.bisection(s):
            return
        d = counted(s)
        if d is not None and self.counted_while(s, *d):
            return
        c0 = self.ev_val(s.test)
        mod = self.probe(lambda: (self.exec_block(s.body)))
        wname = lambda kind, key: str(key[1]) if isinstance(key, tuple) else next(
            (n for n, v in self.st.env.items() if v is key), "#%d" % mod.index((kind, key))) if isinstance(key, T) else str(key)
        names = {m: wname(*m) for m in mod}
        deps = self.read_in(s)
        for kind, key in mod:
            self.set_loc(kind, key, mk("whilev", self.node_id(s), names[(kind, key)], deps))
        c = t.truth(self.ev_val(s.test))
        self.loops = self.loops + [(t.fresh_lv(), t.opaque("while"), TRUE)]
        n = len(self.st.pc)
        fr = self.frames[-1]
        k = len(fr.kills)
        base = self.st
        self.st = base.copy()
        self.st.pc.append((c, "branch"))
        saved = fr.loop
        fr.loop = {"continue": [], "break": []}
        self.exec_block(s.body)
        fr.loop = saved
        self.loops = self.loops[:-1]
        fr.kills = fr.kills[:k] + [x for x in fr.kills[k:] if x[1] in ("return", "raise")]
        self.st = base
        self.st.dead = False
        for kind, key in mod:
            self.set_loc(kind, key, mk("whilev", self.node_id(s), names[(kind, key)] + "'", deps))
        if isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
            self.st.dead = True

    def bisection(self, s):
        """while lo < hi: mid = (lo + hi) // 2; if xs[mid] < v: lo = mid + 1 else: hi = mid"""
        nm = lambda x: x.id if isinstance(x, ast.Name) else None
        T_ = s.test
        if s.orelse or len(s.body) != 2 or not isinstance(T_, ast.Compare) or len(T_.ops) != 1:
            return False
        lo, hi = (nm(T_.left), nm(T_.comparators[0])) if isinstance(T_.ops[0], ast.Lt) else (nm(T_.comparators[0]), nm(T_.left)) if isinstance(T_.ops[0], ast.Gt) else (None, None)
        m, i = s.body
        if lo is None or hi is None or not isinstance(m, ast.Assign) or len(m.targets) != 1 or nm(m.targets[0]) is None or not isinstance(i, ast.If):
            return False
        mid = m.targets[0].id
        if ast.unparse(m.value) not in [x % {"l": a, "h": b} for a, b in ((lo, hi), (hi, lo)) for x in ("(%(l)s + %(h)s) // 2", "int((%(l)s + %(h)s) / 2)", "%(l)s + %(h)s >> 1")] + ["%s + (%s - %s) // 2" % (lo, hi, lo)]:
            return False
        up, down = ["%s = %s + 1" % (lo, mid)], ["%s = %s" % (hi, mid)]
        yes, no = [[ast.unparse(x) for x in b] for b in (i.body, i.orelse)]
        C = i.test
        if not isinstance(C, ast.Compare) or len(C.ops) != 1 or (yes, no) not in ((up, down), (down, up)):
            return False
        back = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}
        turn = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        op, x, v = type(C.ops[0]), C.left, C.comparators[0]
        if op not in back:
            return False
        at = lambda y: isinstance(y, ast.Subscript) and nm(y.slice) == mid and isinstance(y.value, (ast.Name, ast.Attribute)) and mid not in ast.unparse(y.value)
        if not at(x):
            x, v, op = v, x, turn[op]
        if not at(x) or {nm(y) for y in ast.walk(v)} & {mid, lo, hi}:
            return False
        if (yes, no) == (down, up):
            op = back[op]
        if op not in (ast.Lt, ast.LtE):
            return False
        ld = lambda n: ast.copy_location(ast.Name(n, ast.Load()), s)
        if self.ev_val(ld(lo)) is not ZERO:
            return False
        xs = self.ev_val(x.value)
        if self.ev_val(ld(hi)) is not t.length(xs):
            return False
        r = self.ext_call("bisect.bisect_right" if op is ast.LtE else "bisect.bisect_left", [xs, self.ev_val(v)], [], s)
        for n in (lo, hi):
            self.assign(ast.copy_location(ast.Name(n, ast.Store()), s), r, s)
        self.assign(ast.copy_location(ast.Name(mid, ast.Store()), s), t.opaque("bisection"), s)
        return True

    def counted_while(self, s, name, end, incl, step):
        """while name < end: ...; name += step, where the body does not change end: a for loop over a range"""
        tgt = ast.copy_location(ast.Name(name, ast.Store()), s) if isinstance(name, str) else None
        lo = self.ev_val(ast.copy_location(ast.Name(name, ast.Load()), s) if tgt is not None else name)
        hi = self.ev_val(end)
        if self.st.dead:
            return True
        base, ne = self.st, len(self.effects)
        mods = self.probe(lambda: self.exec_block(s.body))
        self.st = base.copy()
        for kind, key in mods:
            v = self.get_loc(kind, key)
            self.set_loc(kind, key, mk("carry", t.fresh_lv(), self.shape(v)) if v is not UNDEF else v)
        same = self.ev_val(end) is hi
        self.st = base
        self.effects = self.effects[:ne]
        if not same or not self.counts(lo, mods):
            return False
        if incl is None and not t.is_nonneg(lo):
            return False
        if incl:
            hi = t.add(hi, ONE) if step > 0 else t.sub(hi, ONE)
        if step not in (1, -1) and has_break(s.body):
            return False
        rng = self.val(self.ext_call("range", [lo, hi] + ([const(step)] if step != 1 else []), [], s))
        brk = has_break(s.body)
        self.for_over(rng, lambda elem: (tgt is None or self.assign(tgt, elem, s), self.exec_block(s.body)), s, has_break=brk)
        if not self.st.dead and tgt is not None:
            self.assign(tgt, t.opaque("break") if brk or step not in (1, -1) else t.max_([lo, hi]) if step > 0 else t.min_([lo, hi]), s)
        return True

    @staticmethod
    def counts(lo, mods):
        return not t.has_op(lo, ("carry", "opaque", "whilev"))

    def read_in(self, s):
        """values, before the loop, of the variables that it reads"""
        names = sorted({x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)})
        out = []
        for n in names:
            v = self.st.env.get(n)
            if v is not None and v is not UNDEF and v.op not in ("closure", "fn", "bound"):
                out.append(self.val(v))
        return tuple(out)

    def node_id(self, s):
        return "%s" % (self.frames[-1].func.qual,)

    def probe(self, body):
        """locations written by one execution of body (state, effects and exits discarded)"""
        fr = self.frames[-1]
        saved = (self.st, len(self.effects), len(fr.exits), len(fr.kills), fr.loop, self.seqno, dict(self.nrand), self.nexc, fr.yields)
        st0 = self.st
        self.st = st0.copy()
        fr.loop = {"continue": [], "break": []}
        body()
        after = [self.st] + fr.loop["continue"] + fr.loop["break"]
        mods = []
        for a in after:
            for x in a.env:
                if a.env[x] is not st0.env.get(x) and ("env", x) not in mods:
                    mods.append(("env", x))
            for x in a.store:
                if x in st0.store and a.store[x] is not st0.store[x] and ("store", x) not in mods:
                    mods.append(("store", x))
            for x in a.ov:
                if a.ov[x] is not st0.ov.get(x) and ("ov", x) not in mods and not self.born(x, st0):
                    mods.append(("ov", x))
        self.st = st0
        self.effects = self.effects[:saved[1]]
        fr.exits = fr.exits[:saved[2]]
        fr.kills = fr.kills[:saved[3]]
        fr.loop = saved[4]
        self.seqno = saved[5]
        self.nrand = saved[6]
        self.nexc = saved[7]
        return mods

    @staticmethod
    def born(key, st):
        """the field belongs to an object that did not exist in state st"""
        o = key[0]
        return isinstance(o, T) and o.op == "ref" and o not in st.store

    def get_loc(self, kind, key):
        if kind == "env":
            return self.st.env.get(key, UNDEF)
        if kind == "store":
            return self.st.store.get(key, UNDEF)
        return self.st.ov.get(key, None) or self.initial_field(key)

    def set_loc(self, kind, key, v):
        if kind == "env":
            self.st.env[key] = v
        elif kind == "store":
            self.st.store[key] = v
        else:
            self.st.ov[key] = v

    def x_For(self, s):
        it = self.ev(s.iter)
        if self.st.dead:
            return
        if s.body and isinstance(s.body[-1], ast.Break) and len(s.body) > 1 and not has_jump(s.body[:-1]) and not s.orelse:
            # every iteration leaves the loop: only the first element matters
            v = strip_arr(self.val(it))
            if v.op not in ("opaque", "carry"):
                if v.op not in ("seq",):
                    l, size, filt, elem = self.open_stream(v)
                    ok = filt is TRUE and elem.op != "flat"
                    first, some = t.replace(elem, {l: ZERO}), t.truth_size(size)
                else:
                    ok, first, some = True, v.args[0] if v.args else None, TRUE if v.args else FALSE
                if ok:
                    if some is FALSE:
                        return
                    return self.branch(some, lambda: (self.assign(s.target, first, s), self.exec_block(s.body[:-1])), lambda: None)
        if s.orelse and has_break(s.body):
            flag = "$broke%d" % s.lineno
            body = [flag_breaks(x, flag) for x in s.body]
            self.assign(ast.Name(flag, ast.Store()), FALSE, s)
            self.for_over(self.val(it), lambda elem: (self.assign(s.target, elem, s), self.exec_block(body)), s, has_break=True)
            if not self.st.dead:
                c = t.truth(self.val(self.ev(ast.copy_location(ast.Name(flag, ast.Load()), s))))
                self.branch(t.not_(c), lambda: self.exec_block(s.orelse), lambda: None)
            return
        self.for_over(self.val(it), lambda elem: (self.assign(s.target, elem, s), self.exec_block(s.body)), s, has_break=has_break(s.body))
        if s.orelse and not self.st.dead:
            self.exec_block(s.orelse)

    def for_over(self, stream, body, node=None, has_break=False):
        """run body(elem) for the elements of a stream term, summarising"""
        stream = strip_arr(stream)
        if stream.op == "seq" and len(stream.args) <= MAXUNROLL and not has_break:
            return self.unroll(list(stream.args), body)
        if stream.op in ("dict",) and len(stream.args[0]) <= MAXUNROLL and not has_break:
            return self.unroll([k for k, v in stream.args[0]], body)
        if stream.op in ("keys", "items", "values") and stream.args[0].op == "dict" and len(stream.args[0].args[0]) <= MAXUNROLL and not has_break:
            d = stream.args[0].args[0]
            f = {"keys": lambda k, v: k, "values": lambda k, v: v, "items": lambda k, v: t.seq((k, v))}[stream.op]
            return self.unroll([f(k, v) for k, v in d], body)
        if stream.op == "concat" and not has_break:
            for part in stream.args[0]:
                if not self.st.dead:
                    self.for_over(part, body, node, has_break)
            return
        if stream.op == "ite" and not has_break:
            return self.branch(stream.args[0], lambda: self.for_over(stream.args[1], body, node), lambda: self.for_over(stream.args[2], body, node))
        l, size, filt, elem = self.open_stream(stream)
        if size is ZERO:
            return
        if elem.op == "flat":
            inner = elem.args[0]
            return self.loop(l, size, filt, lambda: self.for_over(inner, body, node, has_break), node)
        return self.loop(l, size, filt, lambda: body(elem), node)

    def unroll(self, elems, body):
        fr = self.frames[-1]
        for e in elems:
            if self.st.dead:
                return
            saved = fr.loop
            fr.loop = {"continue": [], "break": []}
            k = len(fr.kills)
            n = len(self.st.pc)
            pc0 = list(self.st.pc)
            body(e)
            self.merge_continue(fr, k, n, pc0)
            fr.loop = saved

    def merge_continue(self, fr, k, n, pc0):
        """join states that reached `continue` with the fall-through state"""
        conts = fr.loop["continue"]
        if conts:
            for c in reversed(conts):
                g = t.and_([x for x, _ in c.pc[n:]])
                if self.st.dead:
                    c2 = c
                    c2.dead = False
                    c2.pc = list(pc0)
                    self.st = c2
                else:
                    m = self.merge_states(g, c, self.st)
                    m.pc = list(pc0)
                    self.st = m
            fr.kills = fr.kills[:k] + [x for x in fr.kills[k:] if x[1] != "continue"]
            self.add_kills(fr, k, n)

    def x_Continue(self, s):
        fr = self.frames[-1]
        if fr.loop is not None:
            fr.loop["continue"].append(self.st.copy())
        self.kill("continue")

    def x_Break(self, s):
        fr = self.frames[-1]
        if fr.loop is not None:
            fr.loop["break"].append(self.st.copy())
        self.kill("break")

    def open_stream(self, stream):
        """-> (lv, size, filter, element)"""
        if stream.op == "set" and False:
            pass
        l = t.fresh_lv()
        if stream.op == "gen":
            f, e = t.open_gen(stream, l)
            return l, stream.args[1], f, e
        if stream.op == "zip":
            return l, t.length(stream), TRUE, t.seq([t.item(x, l) for x in stream.args[0]])
        if stream.op == "dput" and t.entries(stream) is not None or stream.op == "nscatter" and not t.is_seq(stream.args[0]):
            return self.open_stream(t.keys_(stream))
        if stream.op in ("keys", "items") and (stream.args[0].op == "nscatter"):
            return self.open_stream(t.keys_(stream.args[0]) if stream.op == "keys" else t.items_(stream.args[0]))
        if stream.op == "scatter" and stream.args[0] is EMPTYDICT or stream.op in ("dput", "scatteror", "dict", "dfold"):
            return l, t.length(stream), TRUE, t.item(mk("keys", stream), l)
        ty = self.typeof(stream)
        if isinstance(ty, tuple) and ty[0] == "dict" and stream.op not in ("keys",):
            return l, t.length(stream), TRUE, t.item(mk("keys", stream), l)
        return l, t.length(stream), TRUE, t.item(stream, l)

    def loop(self, l, size, filt, body, node=None):
        fr = self.frames[-1]
        saved_loop = fr.loop
        outer_loops = self.loops

        def run():
            n = len(self.st.pc)
            k = len(fr.kills)
            for x in t.conjuncts(filt):
                self.st.pc.append((x, "branch"))
            n2 = len(self.st.pc)
            pc0 = list(self.st.pc)
            body()
            self.merge_continue(fr, k, n2, pc0)
        mods = self.probe(run)
        counters = (self.seqno, dict(self.nrand), self.nexc)
        preset = None
        for again in range(5):
            r = self.loop_with(mods, l, size, filt, run, fr, saved_loop, outer_loops, preset)
            if r is True:
                return
            preset = r
            self.seqno, self.nrand, self.nexc = counters[0], dict(counters[1]), counters[2]
        for kind, key in mods:
            self.set_loc(kind, key, t.opaque("loop"))

    def loop_with(self, mods, l, size, filt, run, fr, saved_loop, outer_loops, preset=None):
        """summarise the loop, given the locations its body writes; None if it turned out to write others,
        the known values at the start of an iteration if running the body again with them helps"""
        init = {}
        carries = {}
        for kind, key in mods:
            v0 = self.get_loc(kind, key)
            init[(kind, key)] = v0
            c = mk("carry", t.fresh_lv(), self.shape(v0))
            carries[(kind, key)] = c
        base = self.st
        st = base.copy()
        self.st = st
        for kind, key in mods:
            v0 = init[(kind, key)]
            if preset and (kind, key) in preset[0]:
                pv = preset[0][(kind, key)]
                if kind in ("env", "ov") and v0.op == "ref":
                    pv = self.newref(pv)
                self.set_loc(kind, key, pv)
                continue
            if kind in ("env", "ov") and v0.op == "ref":
                # name rebinding to another container: carry a fresh container
                r = self.newref(carries[(kind, key)])
                self.set_loc(kind, key, r)
            elif v0 is UNDEF:
                self.set_loc(kind, key, UNDEF)
            else:
                self.set_loc(kind, key, carries[(kind, key)])
            if isinstance(key, T) or True:
                ty = self.typeof(v0) if v0 is not UNDEF else None
                if ty is not None:
                    self.assumed_types[carries[(kind, key)]] = ty
        fr.loop = {"continue": [], "break": []}
        ke, kk, nx = len(self.effects), len(fr.kills), len(fr.exits)
        n = len(self.st.pc)
        self.loops = outer_loops + [(l, size, filt)]
        run()
        self.loops = outer_loops
        breaks = fr.loop["break"]
        fr.loop = saved_loop
        after = self.st
        dead = after.dead
        body_effects = self.effects[ke:]
        self.effects = self.effects[:ke]
        extra = []
        for kind, new, old in [q for b in [after] + breaks for q in (("env", b.env, base.env), ("store", b.store, base.store), ("ov", b.ov, base.ov))]:
            for x in new:
                if (kind, x) not in mods and (kind, x) not in extra and new[x] is not old.get(x) and (kind != "store" or x in old) \
                        and not (kind == "ov" and self.born(x, base)):
                    extra.append((kind, x))
        if extra and (not dead or breaks):
            mods.extend(extra)
            self.st = base
            del fr.kills[kk:]
            del fr.exits[nx:]
            for c in carries.values():
                self.assumed_types.pop(c, None)
            return None
        loop_kills = fr.kills[kk:]
        fr.kills = fr.kills[:kk]
        loop_exits = fr.exits[nx:]
        fr.exits = fr.exits[:nx]
        filt2 = filt
        bsize = size
        brk = [t.and_([x for x, _ in b.pc[n:]]) for b in breaks]
        if brk and not dead:
            cond = t.or_([t.and_([c for c in t.conjuncts(b)]) for b in brk])
            stable = not any(c in set(t.subterms(cond)) for c in carries.values())
            if stable and self.monotone(cond, l, size):
                extra = t.not_(cond)
                filt2 = t.and_([filt, extra])
            elif stable:
                bsize = mk("firstidx", t.mk_gen(l, size, TRUE, cond))
            else:
                bsize = t.opaque("break")
        elif brk and dead:
            # every path of the body leaves the loop: at most one iteration matters
            bsize = t.opaque("break")
        # closed forms
        self.st = base
        post = {}
        for kind, key in mods:
            self.st = after
            v = self.get_loc(kind, key)
            if v.op == "ref":
                v = self.peek(v)
                v = self.val(v) if v.op != "ref" else self.val(v)
            else:
                v = self.val(v)
            post[(kind, key)] = v
        self.st = base
        if preset:
            rest = [m for m in mods if m not in preset[0]]
            cl_pre, cl_post = self.closed_forms(rest, carries, init, post, l, bsize, filt2, filt, dead)
            for m in preset[0]:
                cl_pre[m], cl_post[m] = preset[0][m], preset[1][m]
        else:
            cl_pre, cl_post = self.closed_forms(mods, carries, init, post, l, bsize, filt2, filt, dead)
            lists = {carries[m]: m for m in mods if cl_pre.get(m) is not None and carries[m].args[1] == "list"
                     and not any(c in carries.values() for c in t.subterms(cl_pre[m]))}
            back = self.reads_back(set(lists), list(post.values()), body_effects) if lists and not brk and not dead else ()
            if back:
                for c in carries.values():
                    self.assumed_types.pop(c, None)
                return ({m: cl_pre[m] for c, m in lists.items() if c in back}, {m: cl_post[m] for c, m in lists.items() if c in back})
        if brk:
            self.left_by_break(mods, carries, init, cl_post, post, breaks, brk, l, size, filt, bsize, dead, base)
        # effects: substitute carries by their value at iteration l
        sub = {carries[m]: cl_pre[m] for m in mods if cl_pre.get(m) is not None}
        left = [x for x in loop_kills if x[1] == "return"]
        for e in body_effects:
            e = e.map(lambda x: t.replace(x, sub)) if sub else e
            if left or brk and not (filt2 is not filt and set(t.conjuncts(t.not_(cond))) <= set(t.conjuncts(e.guard))):
                # iterations after the one that leaves the loop do not happen
                e = e.map(lambda x: x)
                e.loops = tuple((x, t.opaque("break") if x is l else sz, f) for x, sz, f in e.loops)
            self.effects.append(e)
        for (kind, key) in mods:
            v0 = init[(kind, key)]
            nv = cl_post[(kind, key)]
            if kind in ("env", "ov") and v0.op == "ref":
                nv = self.newref(nv)
            elif kind in ("env", "ov") and v0 is UNDEF and t.is_seq(nv):
                nv = nv
            self.set_loc(kind, key, nv)
        # exits and kills inside the loop
        for g, v, store, ovx in loop_exits:
            self.st.store.update({k: x for k, x in store.items() if k not in self.st.store})
            save = self.st
            self.st = State({}, store, ovx, [])
            v = self.val(v)
            self.st = save
            inner = self.rel_guard(g, fr)
            inner = t.replace(inner, sub) if sub else inner
            v = t.replace(v, sub) if sub else v
            anyc = t.any_(t.mk_gen(l, size, TRUE, inner)) if t.occurs(l, inner) else t.and_([inner, t.truth_size(size)])
            vv = v if not t.occurs(l, v) else mk("first", t.mk_gen(l, size, inner, v))
            pre = self.guard(fr.base)
            fr.exits.append((t.and_([pre, anyc]), vv, dict(self.st.store), dict(self.st.ov)))
        for pc, kind in loop_kills:
            if kind not in ("return", "raise"):
                continue
            inner = t.and_([x for x, _ in pc[n:]])
            inner = t.replace(inner, sub) if sub else inner
            anyc = t.any_(t.mk_gen(l, size, TRUE, inner)) if t.occurs(l, inner) else t.and_([inner, t.truth_size(size)])
            fr.kills.append((list(self.st.pc) + [(anyc, "branch")], kind))
            nc = t.not_(anyc)
            if nc is not TRUE:
                self.st.pc.append((nc, "noraise" if kind == "raise" else "branch"))
        for c in carries.values():
            self.assumed_types.pop(c, None)
        return True

    def reads_back(self, lists, posts, effects):
        """the lists under construction whose elements the body looks at"""
        out = set()
        for x in posts + [y for e in effects for y in [e.base] + list(e.args) + [v for _, v in e.kw] + [e.guard] if y is not None]:
            for y in t.subterms(x):
                if y.op == "item" and y.args[0].op in ("concat", "carry"):
                    out.update(c for c in t.subterms(y.args[0]) if c in lists)
        return out

    def rel_guard(self, g, fr):
        """guard g (relative to frame) minus the guard at loop entry"""
        have = set()
        for x, _ in self.st.pc[fr.base:]:
            have.update(t.conjuncts(x))
        return t.and_([x for x in t.conjuncts(g) if x not in have])

    def shape(self, v):
        v = self.peek(v) if v.op == "ref" else v
        if v.op == "carry":
            return v.args[1]
        if v.op in ("set", "setadd"):
            return "set"
        if t.is_seq(v):
            return "list"
        if v.op in ("dict", "dput", "scatter", "scatteror", "nscatter", "dfold"):
            return "dict"
        if v.op in ("set", "setadd"):
            return "set"
        ty = self.typeof(v)
        if isinstance(ty, tuple):
            return ty[0]
        return "any"

    def monotone(self, cond, l, size):
        """once cond holds for an element it holds for all later ones (sorted data)"""
        c = cond
        if c.op in ("lt0", "le0"):
            # find  item(item(S,l),K) or item(S,l) with S sorted on that key, ascending; coefficient sign decides
            for c0, m in t._poly(c.args[0]).items() if False else [(cc, mm) for mm, cc in t._poly(c.args[0]).items()]:
                for a, e in m:
                    if t.occurs(l, a):
                        s = sorted_source(a, l)
                        if s is None or len(m) != 1 or e != 1:
                            return False
                        if c0 > 0:      # grows -> "< 0" stops holding
                            return False
            return True
        return False

    def left_by_break(self, mods, carries, init, fin, post, breaks, brk, l, size, filt, bsize, dead, base):
        """values after a loop that was left by break: what the iteration that left it had done until then"""
        cond = t.or_([t.and_(list(t.conjuncts(b))) for b in brk])
        done = {carries[m]: fin[m] for m in mods}
        if dead:
            done = {carries[m]: self.val(init[m]) if init[m] is not UNDEF else UNDEF for m in mods}
        stable = not any(c in set(t.subterms(cond)) for c in carries.values())
        new = {}
        for m in mods:
            c, vb = carries[m], None
            for b, g in reversed(list(zip(breaks, brk))):
                self.st = b
                v = self.get_loc(*m)
                v = self.val(self.peek(v)) if v.op == "ref" else self.val(v)
                vb = v if vb is None else t.ite(g, v, vb)
            self.st = base
            if vb is c and not dead:
                continue
            if dead:
                # the first iteration leaves the loop
                if filt is not TRUE or any(done[x] is UNDEF for x in t.subterms(vb) if x in done):
                    new[m] = t.opaque("break", vb)
                    continue
                v = t.replace(t.replace(vb, done), {l: ZERO})
                new[m] = v if init[m] is UNDEF else t.ite(t.truth_size(size), v, done[c])
                continue
            if not stable and vb is post[m]:
                continue        # leaves the loop at the end of an iteration; how many there were is not known anyway
            if not stable or any(x in done and (done[x] is UNDEF or t.occurs(l, done[x])) for x in t.subterms(vb)):
                new[m] = t.opaque("break", vb, fin[m])
                continue
            g = t.and_([filt, cond])
            v = vb
            inner = [x for x in t.subterms(v) if x in done]
            if t.occurs(l, v):
                parts = v.args[0] if v.op == "concat" and v.args[0][0] is c else None
                if parts is not None:
                    v = t.concat([c] + [t.map_stream(x, lambda e: mk("first", t.mk_gen(l, size, g, e))) if x.op == "seq" and not any(y in done for y in t.subterms(x)) else t.opaque("break", x) for x in parts[1:]])
                elif inner:
                    v = t.opaque("break", vb, fin[m])
                else:
                    v = mk("first", t.mk_gen(l, size, g, v))
            v = t.replace(v, done)
            anyc = t.any_(t.mk_gen(l, size, TRUE, g)) if t.occurs(l, g) else t.and_([g, t.truth_size(size)])
            new[m] = v if fin[m] is UNDEF else t.ite(anyc, v, fin[m])
        self.st = base
        fin.update(new)

    def closed_forms(self, mods, carries, init, post, l, size, filt, filt0, dead):
        """value of every carried location at iteration l and after the loop"""
        pre, fin = {}, {}
        cset = {c: m for m, c in carries.items()}
        pending = list(mods)
        opaque_size = size.op == "opaque"

        def free(x, except_=None):
            return [cset[s] for s in t.subterms(x) if s.op == "carry" and s in cset and s is not except_]

        while pending:
            progress = True
            while pending and progress:
                progress = False
                for m in list(pending):
                    c, v0, p = carries[m], init[m], post[m]
                    v0 = self.val(v0) if v0 is not UNDEF else UNDEF
                    others = [o for o in free(p, c) if o is not m]
                    if others:
                        if any(pre.get(o) is None for o in others):
                            if not all(o in pre for o in others):
                                continue
                        p = t.replace(p, {carries[o]: pre[o] for o in others if pre.get(o) is not None})
                    r = self.recognise(p, c, v0, l, size, filt, filt0)
                    if r is not None:
                        pre[m], fin[m] = r
                        pending.remove(m)
                        progress = True
            if not pending:
                break
            # mutually dependent or unrecognised: uninterpreted fold over a smallest group that needs no other pending value
            needs = {m: {o for o in free(post[m]) if o in pending} for m in pending}
            reach = {}
            for m in pending:
                seen, todo = set(), [m]
                while todo:
                    x = todo.pop()
                    for o in needs[x]:
                        if o not in seen:
                            seen.add(o)
                            todo.append(o)
                reach[m] = seen | {m}
            group = min(reach.values(), key=lambda g: (len(g), sorted((m[0], str(m[1])) for m in g)))
            order = sorted(group, key=lambda m: (m[0], str(m[1])))
            known = {carries[o]: pre[o] for o in mods if pre.get(o) is not None}
            lvs = [l] + [carries[o] for o in order]
            body = t.mk_lam(len(lvs), lvs, t.seq([t.replace(post[o], known) for o in order]))
            inits = t.seq([self.val(init[o]) if init[o] is not UNDEF else UNDEF for o in order])
            for i, m in enumerate(order):
                fin[m] = mk("fold", i, size, filt, inits, body)
                pre[m] = None if t.occurs(l, fin[m]) else mk("foldpre", i, l, size, filt, inits, body)
                pending.remove(m)
        return pre, fin

    def recognise(self, p, c, v0, l, size, filt, filt0):
        """p: value after one iteration in terms of carry c.  -> (value before iteration l, final value)"""
        occ = t.occurs(c, p)
        if not occ:
            last = t.mk_gen(l, size, filt, p)
            if not t.occurs(l, p) and filt is TRUE:
                f = t.ite(t.truth_size(size), p, v0) if v0 is not UNDEF else p
            else:
                f = mk("last", last, v0)
            return mk("prev", l, t.mk_gen(l, size, filt, p), v0), f
        if p is c:
            return v0, v0
        # list accumulation
        parts = self.list_suffix(p, c)
        if parts is not None and parts.op == "seq" and t.occurs(c, parts) and filt is TRUE:
            # as many elements as iterations so far
            parts = t.replace(parts, {mk("len", c): t.add(t.length(v0), t.mul(const(len(parts.args)), l))})
        if parts is not None and not t.occurs(c, parts):
            upto = lambda hi: t.concat([v0, t.mk_gen(l2, hi, t.replace(filt, {l: l2}), mk("flat", t.replace(parts, {l: l2})))])
            l2 = t.fresh_lv()
            fin = t.concat([v0, t.mk_gen(l, size, filt, mk("flat", parts))])
            pre = upto(l)
            return pre, fin
        # an element is appended unless it is there already
        if p.op == "ite" and v0 is EMPTY:
            cond, a, b = p.args
            if a is not c:
                cond, a, b = t.not_(cond), b, a
            if a is c and b.op == "concat" and len(b.args[0]) == 2 and b.args[0][0] is c and b.args[0][1].op == "seq" and len(b.args[0][1].args) == 1:
                e = b.args[0][1].args[0]
                if cond is mk("in", e, c) and not t.occurs(c, e):
                    return None, t.keys_(t.dput(EMPTYDICT, t.mk_gen(l, size, filt, t.seq((e, NONE)))))
        # each iteration puts its elements in front
        if p.op == "concat" and p.args[0][-1] is c and not any(t.occurs(c, q) for q in p.args[0][:-1]):
            parts = t.reversed_(t.concat(list(p.args[0][:-1])))
            l2 = t.fresh_lv()
            pre = t.concat([t.reversed_(t.mk_gen(l2, l, t.replace(filt, {l: l2}), mk("flat", t.replace(parts, {l: l2})))), v0])
            return pre, t.concat([t.reversed_(t.mk_gen(l, size, filt, mk("flat", parts))), v0])
        # scatter accumulation  x[k] += v
        sc = self.split_op(p, c, "scatter")
        if sc is not None:
            if not t.occurs(c, sc):
                fin = t.scatter(v0, t.mk_gen(l, size, filt, mk("flat", sc)))
                l2 = t.fresh_lv()
                pre = t.scatter(v0, t.mk_gen(l2, l, t.replace(filt, {l: l2}), mk("flat", t.replace(sc, {l: l2}))))
                return pre, fin
            r = self.recurrence(sc, c, v0, l, size, filt)
            if r is not None:
                return None, r
            return None
        for op in ("scatteror", "nscatter"):
            sc = self.split_op(p, c, op)
            if sc is not None and not t.occurs(c, sc):
                base = v0
                g = t.mk_gen(l, size, filt, mk("flat", sc))
                g = t.norm_pairs(g) if op == "scatteror" else g
                if base.op == op:
                    return None, mk(op, base.args[0], t.concat([base.args[1], g]))
                return None, mk(op, base, g)
        sc = self.split_op(p, c, "dput")
        if sc is not None and not t.occurs(c, sc):
            return None, t.dput(v0, t.mk_gen(l, size, filt, mk("flat", sc)))
        sc = self.split_op(p, c, "stores")
        if sc is not None and not t.occurs(c, sc):
            g = t.mk_gen(l, size, filt, mk("flat", sc))
            if v0.op in ("dput", "dict"):
                return None, t.dput(v0, g)
            return None, mk("stores", v0, g)
        if p.op == "last" and p.args[1] is c and not t.occurs(c, p.args[0]):
            return None, mk("last", t.mk_gen(l, size, filt, mk("flat", p.args[0])), v0)
        sc = self.split_op(p, c, "setadd")
        if sc is not None and not t.occurs(c, sc):
            g = t.mk_gen(l, size, filt, mk("flat", sc))
            l2 = t.fresh_lv()
            pre = mk("setpre", l, t.set_(t.concat([v0.args[0] if v0.op == "set" else v0, g])))
            return pre, t.set_(t.concat([v0.args[0] if v0.op == "set" else v0, g]))
        # x[k] = f(x[k])
        if c.args[1] == "dict" and v0 is not UNDEF and (v0.op in ("dict", "dput", "scatter", "scatteror", "dfold") or v0.op == "carry" and v0.args[1] == "dict"):
            ps = self.dict_step(p, c)
            if ps is not None:
                m = self.memo(ps, v0, l, filt)
                if m is not None:
                    k, v, same = m
                    fin = t.dput(v0, t.mk_gen(l, size, filt, t.seq((k, v)))) if same else self.dfold(v0, ps, l, size, filt)
                    return mk("memodict", l, k, v, TRUE if same else FALSE), fin
                return None, self.dfold(v0, ps, l, size, filt)
        # upd scan:  x[i] = f(x[i+1])
        if p.op == "upd" and p.args[0] is c:
            k, v = p.args[1], p.args[2]
            d = self.delta_item(c, k, v)
            if d is not None:
                r = self.recurrence(t.seq((t.seq((k, d)),)), c, v0, l, size, filt)
                if r is not None:
                    return None, r
            if not t.occurs(c, v):
                # independent element stores x[k(i)] = v(i)
                g = self.store_gen(k, v, v0, l, size, filt)
                if g is not None:
                    return None, g
            return None
        # numeric accumulation
        d = self.numeric_delta(p, c)
        if d is not None and not t.occurs(c, d):
            if v0 is UNDEF:
                return None
            fin = t.add(v0, t.sum_(t.mk_gen(l, size, filt, d)))
            l2 = t.fresh_lv()
            pre = t.add(v0, t.sum_(t.mk_gen(l2, l, t.replace(filt, {l: l2}), t.replace(d, {l: l2}))))
            return pre, fin
        # a mask collected bit by bit (of distinct members)
        b = t.unbitor(p, c) if v0 is ZERO else None
        if b is not None and not t.occurs(c, b) and b.op == "pow" and t.numval(b.args[0]) == 2 and t.occurs(l, b):
            return None, t.sum_(t.mk_gen(l, size, filt, b))
        # max / min
        for op, ex in (("max", "maxof"), ("min", "minof")):
            if p.op == op and c in p.args[0]:
                rest = t._minmax(op, [x for x in p.args[0] if x is not c])
                if not t.occurs(c, rest):
                    g = t.mk_gen(l, size, filt, rest)
                    e = t.extreme(ex, t.concat([t.seq((v0,)), g]))
                    l2 = t.fresh_lv()
                    pre = t.extreme(ex, t.concat([t.seq((v0,)), t.mk_gen(l2, l, t.replace(filt, {l: l2}), t.replace(rest, {l: l2}))]))
                    return pre, e
        if p.op == "ite" and v0 is NONE and c in p.args[1:]:
            # the largest or smallest so far, None before the first
            cond, v = (p.args[0], p.args[1]) if p.args[2] is c else (t.not_(p.args[0]), p.args[2])
            none = mk("isnone", c)
            if cond.op == "or" and none in cond.args[0] and not t.occurs(c, v):
                rest = t.or_([x for x in cond.args[0] if x is not none])
                ex = "maxof" if rest in (t.lt(c, v), t.le(c, v)) else "minof" if rest in (t.lt(v, c), t.le(v, c)) else None
                if ex:
                    some = t.truth_size(size) if filt is TRUE else t.any_(t.mk_gen(l, size, TRUE, filt))
                    return None, t.ite(some, t.extreme(ex, t.mk_gen(l, size, filt, v)), NONE)
        if p.op == "ite":
            # conditional max/min or guarded updates
            for cond, yes, no in ((p.args[0], p.args[1], p.args[2]), (t.not_(p.args[0]), p.args[2], p.args[1])):
                if no is c and not t.occurs(c, cond):
                    return self.recognise(yes, c, v0, l, size, t.and_([filt, cond]), filt0) if yes.op != "ite" or True else None
        # boolean accumulation
        if p.op == "or" and c in p.args[0]:
            rest = t.or_([x for x in p.args[0] if x is not c])
            if not t.occurs(c, rest):
                l2 = t.fresh_lv()
                return t.or_([v0, t.any_(t.mk_gen(l2, l, t.replace(filt, {l: l2}), t.replace(rest, {l: l2})))]), t.or_([v0, t.any_(t.mk_gen(l, size, filt, rest))])
        if p.op == "and" and c in p.args[0]:
            rest = t.and_([x for x in p.args[0] if x is not c])
            if not t.occurs(c, rest):
                return None, t.and_([v0, t.all_(t.mk_gen(l, size, filt, rest))])
        if p.op in ("truth",) and p.args[0] is c:
            return v0, v0
        # products
        q = self.factor(p, c)
        if q is not None and not t.occurs(c, q):
            return None, t.mul(v0, mk("prod", t.mk_gen(l, size, filt, q)))
        # string accumulation
        if p.op == "strcat" and p.args[0][0] is c and not any(t.occurs(c, x) for x in p.args[0][1:]):
            return None, t.strcat([v0, mk("join", const(""), t.mk_gen(l, size, filt, t.strcat(list(p.args[0][1:]))))])
        return None

    def memo(self, ps, v0, l, filt):
        """a table of results filled as they are first needed: (key, value, the value is a function of the key)"""
        if v0 is not EMPTYDICT and not (v0.op == "dict" and not v0.args[0]) or ps.op != "seq" or len(ps.args) != 1 or ps.args[0].op != "seq":
            return None
        k, v = ps.args[0].args
        if v.op != "oldor" or t.has_op(v, ("rand", "carry", "opaque", "whilev", "next", "callv", "fold", "foldpre")) or not t.occurs(l, k):
            return None
        v = v.args[0]
        if oldor(v) or t.occurs(OLDV, v) or any(y.op in ("call", "ecall", "ext") and y.args[0] in ("next", "iter") or y.op == "mcall" and y.args[1] in ("pop", "popleft", "popitem") for y in t.subterms(v)):
            return None
        x = t.fresh_lv()
        distinct = k is l or k.op == "seq" and l in k.args
        return k, v, distinct or not t.occurs(l, t.replace(v, {y: x for y in (k.args if k.op == "seq" else ()) + (k,) if t.occurs(l, y)}))

    def dict_step(self, p, c):
        """one iteration's updates of the dict c as pairs (key, new value in terms of the old value at that key)"""
        if p is c:
            return EMPTY
        if p.op == "ite":
            a, b = self.dict_step(p.args[1], c), self.dict_step(p.args[2], c)
            if a is None or b is None:
                return None
            if not t.occurs(c, p.args[0]):
                return t.ite(p.args[0], a, b)
            cond, x, y = p.args[0], a, b
            if cond.op == "not":
                cond, x, y = cond.args[0], b, a
            if cond.op == "in" and cond.args[1] is c and all(z.op == "seq" and len(z.args) == 1 and z.args[0].args[0] is cond.args[0] for z in (x, y)):
                if t.replace(x.args[0].args[1], {OLDV: ZERO}) is y.args[0].args[1]:
                    return x
                x, y = x.args[0].args[1], y.args[0].args[1]
                if not t.occurs(OLDV, y) and not oldor(x) and not oldor(y):
                    d = t.sub(x, OLDV)
                    if not t.occurs(OLDV, d) and t.is_const(d):
                        # the first time y, then d more each time
                        return t.seq((t.seq((cond.args[0], t.add(mk("oldor", t.sub(y, d)), d))),))
            if cond.op == "isnone" and cond.args[0].op == "get" and cond.args[0].args[0] is c and cond.args[0].args[2] is NONE and y is EMPTY \
                    and x.op == "seq" and len(x.args) == 1 and x.args[0].op == "seq" and len(x.args[0].args) == 2 and x.args[0].args[0] is cond.args[0].args[1]:
                # looked up, and entered when it was not there (or was None)
                cond, x, y = mk("in", x.args[0].args[0], c), EMPTY, x
            if cond.op == "in" and cond.args[1] is c and x is EMPTY and y.op == "seq" and len(y.args) == 1 and y.args[0].op == "seq" and y.args[0].args[0] is cond.args[0] \
                    and not t.occurs(OLDV, y.args[0].args[1]) and not oldor(y.args[0].args[1]):
                return t.seq((t.seq((cond.args[0], mk("oldor", y.args[0].args[1]))),))
            return None
        if p.op == "setdefault" and p.args[0] is c and not t.occurs(c, p.args[1]) and not t.occurs(c, p.args[2]):
            return t.seq((t.seq((p.args[1], mk("oldor", p.args[2]))),))
        if p.op == "dmerge" and p.args[0] is c and not t.occurs(c, p.args[1]) and p.args[1].op in ("scatter", "dput", "rcall", "var", "attr", "item"):
            D = p.args[1]
            l2 = t.fresh_lv()
            return t.mk_gen(l2, t.length(D), TRUE, t.seq((t.item(mk("keys", D), l2), t.item(D, t.item(mk("keys", D), l2)))))
        if p.op == "upd" and p.args[0] is c:
            pairs = t.seq((t.seq((p.args[1], p.args[2])),))
        elif p.op == "dput" and p.args[0] is c:
            pairs = p.args[1]
        elif p.op == "dfold" and p.args[0] is c:
            return p.args[1] if not t.occurs(c, p.args[1]) else None
        elif p.op in ("scatter", "scatteror") and p.args[0] is c and not t.occurs(c, p.args[1]):
            f = (lambda e: t.seq((t.item(e, ZERO), t.add(OLDV, t.item(e, ONE))))) if p.op == "scatter" else (lambda e: t.seq((t.item(e, ZERO), t.bitor(OLDV, t.item(e, ONE)))))
            return t.map_stream(p.args[1], f)
        else:
            return None
        if pairs.op != "seq" or len(pairs.args) != 1 or pairs.args[0].op != "seq":
            return None
        k, v = pairs.args[0].args
        if t.occurs(c, k):
            return None
        v = t.replace(v, {t.item(c, k): OLDV, mk("get", c, k, ZERO): OLDV})
        v = t.rewrite(v, lambda y: mk("oldor", y.args[2]) if y.op == "get" and y.args[0] is c and y.args[1] is k and not t.occurs(c, y.args[2]) else None)
        if t.occurs(c, v):
            return None
        return t.seq((t.seq((k, v)),))

    def dfold(self, v0, ps, l, size, filt):
        def all_(s, f):
            if s.op == "seq":
                return all(x.op == "seq" and len(x.args) == 2 and f(x.args[1]) for x in s.args)
            if s.op == "concat":
                return all(all_(x, f) for x in s.args[0])
            if s.op == "ite":
                return all_(s.args[1], f) and all_(s.args[2], f)
            if s.op == "gen":
                _, e = t.open_gen(s, t.fresh_lv())
                return all_(e.args[0], f) if e.op == "flat" else all_(t.seq((e,)), f)
            return False
        g = lambda x: t.mk_gen(l, size, filt, mk("flat", x))
        if oldor(ps):
            return mk("dfold", v0.args[0], t.concat([v0.args[1], g(ps)])) if v0.op == "dfold" else mk("dfold", v0, g(ps))
        if all_(ps, lambda v: not t.occurs(OLDV, v)):
            return t.dput(v0, g(ps))
        if all_(ps, lambda v: not t.occurs(OLDV, t.sub(v, OLDV))):
            return t.scatter(v0, g(t.map_stream(ps, lambda e: t.seq((t.item(e, ZERO), t.sub(t.item(e, ONE), OLDV))))))
        ors = []
        for v in {x.args[1] for x in t.subterms(ps) if x.op == "seq" and len(x.args) == 2 and t.occurs(OLDV, x.args[1])}:
            b = t.unbitor(v, OLDV)
            if b is not None:
                ors.append((v, b))
        if ors and all_(ps, lambda v: t.unbitor(v, OLDV) is not None):
            q = t.norm_pairs(g(t.map_stream(ps, lambda e: t.seq((t.item(e, ZERO), t.unbitor(t.item(e, ONE), OLDV))))))
            if v0.op == "scatteror":
                return mk("scatteror", v0.args[0], t.concat([v0.args[1], q]))
            return mk("scatteror", v0, q)
        if v0.op == "dfold":
            return mk("dfold", v0.args[0], t.concat([v0.args[1], g(ps)]))
        return mk("dfold", v0, g(ps))

    def factor(self, p, c):
        if p.op == "poly":
            items = p.args[0]
            if all(any(a is c and e == 1 for a, e in m) for _, m in items):
                return t.div(p, c)
        return None

    def list_suffix(self, p, c):
        """p = c ++ X  -> X"""
        if p.op == "concat" and p.args[0][0] is c:
            return t.concat(list(p.args[0][1:]))
        if p.op == "ite":
            a = EMPTY if p.args[1] is c else self.list_suffix(p.args[1], c)
            b = EMPTY if p.args[2] is c else self.list_suffix(p.args[2], c)
            if a is not None and b is not None:
                return t.ite(p.args[0], a, b)
        return None

    def split_op(self, p, c, op):
        """p = op(c, stream) (possibly guarded)  -> stream"""
        if p.op == op and p.args[0] is c:
            return p.args[1]
        if p.op == op and p.args[0].op in (op, "ite"):
            a = self.split_op(p.args[0], c, op)
            if a is not None:
                return t.concat([a, p.args[1]])
        if p.op == "ite":
            a = EMPTY if p.args[1] is c else self.split_op(p.args[1], c, op)
            b = EMPTY if p.args[2] is c else self.split_op(p.args[2], c, op)
            if a is not None and b is not None:
                return t.ite(p.args[0], a, b)
        return None

    def numeric_delta(self, p, c):
        if p.op == "ite":
            a = ZERO if p.args[1] is c else self.numeric_delta(p.args[1], c)
            b = ZERO if p.args[2] is c else self.numeric_delta(p.args[2], c)
            if a is not None and b is not None:
                return t.ite(p.args[0], a, b)
            return None
        if p is c:
            return ZERO
        if p.op == "poly":
            d = t.sub(p, c)
            return d
        if p.op == "arr":
            return None
        return None

    def recurrence(self, sc, c, v0, l, size, filt):
        """x[k] += x[k+1] downwards -> suffix sums; x[k] += x[k-1] upwards -> prefix sums"""
        if filt is not TRUE or sc.op != "seq" or len(sc.args) != 1:
            return None
        k, v = sc.args[0].args
        L = t.length(v0)
        if v is mk("item", c, t.add(k, ONE)):
            # k must run L-2, L-3, ..., 0
            if t.sub(L, const(2)) is t.replace(k, {l: ZERO}) and t.sub(k, t.replace(k, {l: t.add(l, ONE)})) is ONE \
                    and t.sub(size, t.sub(L, ONE)) is ZERO:
                return t.suffixsum(v0)
        if v is mk("item", c, t.sub(k, ONE)):
            if t.replace(k, {l: ZERO}) is ONE and t.sub(t.replace(k, {l: t.add(l, ONE)}), k) is ONE and t.sub(size, t.sub(L, ONE)) is ZERO:
                return t.prefixsum(v0)
        return mk("recur", v0, t.mk_gen(l, size, filt, t.replace(sc, {c: mk("var", "$self")})))

    def store_gen(self, k, v, v0, l, size, filt):
        if filt is TRUE and k is l and t.is_seq(v0) and size is t.length(v0):
            return t.mk_gen(l, size, TRUE, v)
        return mk("stores", v0, t.mk_gen(l, size, filt, t.seq((k, v))))

    # ------------------------------------------------------------ definitions
    def x_FunctionDef(self, s):
        f = Func(self.frames[-1].func.qual + "." + s.name, s, self.frames[-1].module, outer=self.frames[-1].func)
        self.st.env[s.name] = self.closure(f)

    def closure(self, f):
        cid = len(self.closures) + 1
        fr = self.frames[-1]
        self.closures[cid] = (f, fr, self.st.env)
        return mk("closure", cid)

    def x_ClassDef(self, s):
        self.st.env[s.name] = t.opaque("class")

    # ------------------------------------------------------------ expressions
    def ev_val(self, e):
        return self.val(self.ev(e))

    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note("expr " + type(e).__name__)
            return t.opaque(type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        n = e.id
        if n in self.st.env:
            return self.st.env[n]
        # closures see the enclosing frame
        fr = self.frames[-1]
        p = fr.parent
        while p is not None:
            env = p[1]
            if n in env:
                return env[n]
            p = p[0].parent
        return self.global_name(fr.module, n)

    def global_name(self, module, n):
        r = self.prog.resolve_name(module, n)
        return self.entity(r, n)

    def entity(self, r, n=None):
        if r is None:
            if n in ("True", "False", "None"):
                return {"True": TRUE, "False": FALSE, "None": NONE}[n]
            return mk("ext", n)
        if isinstance(r, Class):
            return mk("clsref", r.qual)
        if isinstance(r, Func):
            return mk("fn", r.qual)
        if isinstance(r, Module):
            return mk("modref", r.name)
        if isinstance(r, str):
            return mk("ext", r)
        if isinstance(r, tuple) and r[0] == "assign":
            return self.module_value(r[1], r[2])
        if isinstance(r, tuple) and r[0] == "package":
            return mk("modref", "package:" + r[1])
        return mk("ext", "missing:" + str(n))

    def module_value(self, m, name):
        key = (m.name, name)
        if key in self.modcache:
            return self.modcache[key]
        self.modcache[key] = mk("global", m.name + "." + name)
        vs = m.assigns.get(name) or [None]
        if len(vs) != 1 or vs[0] is None:
            return self.modcache[key]
        f = Func.__new__(Func)
        f.qual, f.node, f.module, f.cls, f.outer, f.name, f.kind, f.is_generator, f.decorators = m.name, m.tree, m, None, None, "<module>", "function", False, []
        fr = Frame(f, m)
        saved = (self.st, self.effects, self.loops, self.tries)
        self.st = State({}, {}, {}, [])
        self.effects = []
        self.frames.append(fr)
        try:
            v = self.ev_val(vs[0])
        finally:
            self.frames.pop()
            self.st, self.effects, self.loops, self.tries = saved
        if v.op == "opaque":
            v = mk("global", m.name + "." + name)
        self.modcache[key] = v
        return v

    def e_Attribute(self, e):
        b = self.ev(e.value)
        return self.get_attr(b, e.attr, e)

    def get_attr(self, b, name, node=None):
        if b.op == "ref":
            if (b, name) in self.st.ov:
                return self.st.ov[(b, name)]
        else:
            if (b, name) in self.st.ov:
                return self.st.ov[(b, name)]
        pb = self.peek(b)
        if pb is not b and (pb, name) in self.st.ov:
            return self.st.ov[(pb, name)]
        return self.raw_attr(b, name, node)

    def raw_attr(self, b, name, node=None):
        o = b.op
        if o == "modref":
            mn = b.args[0]
            if mn.startswith("package:"):
                r = self.prog.member(("package", mn[8:]), name)
            else:
                r = self.prog.member(self.prog.modules[mn], name)
            return self.entity(r, name)
        if o == "ext":
            d = b.args[0] + "." + name
            from .program import ALIASES
            return mk("ext", ALIASES.get(d, d))
        if o == "clsref":
            c = self.class_of(b.args[0])
            if c is not None:
                m = c.find(name)
                if m is not None:
                    if m.kind == "classmethod":
                        return mk("bound", b, m.qual)
                    return mk("fn", m.qual)
                ca = c.class_attr(name)
                if ca is not None:
                    return self.class_attr_value(ca[0], ca[1], name)
            return mk("attr", b, name)
        if o == "super":
            return mk("superattr", b, name)
        if o == "ite":
            x, y = self.get_attr(b.args[1], name), self.get_attr(b.args[2], name)
            if x.op not in ("bound",) and y.op not in ("bound",):
                return t.ite(b.args[0], self.val(x), self.val(y))
        cls = self.typeof(b)
        if isinstance(cls, Class) and self.frames and self.frames[-1].module.name.startswith("$spec") and not cls.module.name.startswith("$spec") \
                and not cls.is_namedtuple and not cls.has_member(name) and not any(name in c.own_fields() or name in c.methods for c in self.prog.subclasses(cls)):
            raise StaleSpec("%s has no %s" % (cls.qual, name))
        if isinstance(cls, Class):
            m = cls.find(name)
            if m is not None:
                if m.kind == "property":
                    if self.stopped(m.qual) or len(self.callstack) >= self.depth_limit or m.qual in self.callstack:
                        if self.stopped(m.qual):
                            self.emit("prop", m.qual, base=self.val(b), value=mk("attr", self.val(b), name))
                        return mk("attr", self.val(b), name)
                    ps = m.params()
                    return self.invoke(m, {ps[0]: b}, selfterm=b, cls=cls)
                return mk("bound", b, m.qual)
            if o == "with":
                for k, v in b.args[1]:
                    if k == name:
                        return v
                return self.get_attr(b.args[0], name)
            if o == "new":
                r = self.new_field(b, cls, name)
                if r is not None:
                    return r
            if o == "ref":
                v = self.st.store.get(b)
                if v is not None and v.op == "newobj" and cls.is_namedtuple:
                    return dict(v.args[1]).get(name) or mk("attr", self.val(b), name)
                ca = cls.class_attr(name)
                if ca is not None:
                    return self.class_attr_value(ca[0], ca[1], name)
                return mk("attr", self.val(b), name)
            if cls.qual in self.unfold and not name.startswith("$"):
                r = self.ghost_field(b, cls, name)
                if r is not None:
                    return r
            if not cls.is_namedtuple and cls.class_attr(name) is not None and not self.sets_attr(cls, name):
                ca = cls.class_attr(name)
                return self.class_attr_value(ca[0], ca[1], name)
        if name == "size":
            pv = self.val(b)
            if pv.op == "arr" and pv.args[0].op == "gen" and pv.args[0].args[3].op not in ("gen", "seq", "arr", "flat"):
                return t.length(pv.args[0])
        if o == "ref" and name in MUTATORS and self.st.store.get(b) is not None and self.st.store[b].op not in ("newobj", "ref"):
            return mk("attr", b, name)          # the method changes the container that every alias sees
        if o == "ref":
            b = self.val(b)
        return mk("attr", b, name)

    def sets_attr(self, cls, name):
        for c in cls.mro():
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name:
                    return True
        return False

    def class_attr_value(self, c, expr, name):
        f = Func.__new__(Func)
        f.qual, f.node, f.module, f.cls, f.outer, f.name, f.kind, f.is_generator, f.decorators = c.qual, c.node, c.module, None, None, "<class>", "function", False, []
        saved = (self.st, self.effects)
        self.st = State({}, {}, {}, [])
        self.effects = []
        self.frames.append(Frame(f, c.module))
        try:
            return self.ev_val(expr)
        finally:
            self.frames.pop()
            self.st, self.effects = saved

    def ghost_field(self, b, cls, name):
        """field of an instance as built by its constructor from ghost arguments"""
        init = cls.find("__init__")
        if init is None:
            return None
        args = {}
        ps = init.params()[1:]
        for p in ps:
            args[p] = mk("attr", b, "$" + p)
        return self.ctor_field(cls, tuple(sorted(args.items())), name)

    def new_field(self, b, cls, name):
        args = b.args[1]
        if cls.is_namedtuple or cls.is_dataclass:
            return dict(args).get(name)
        return self.ctor_field(cls, args, name)

    def ctor_field(self, cls, args, name):
        key = (cls.qual, args)
        if key not in self.ctor_cache:
            init = cls.find("__init__")
            if init is None or len(self.callstack) >= self.depth_limit:
                return None
            sub = Interp(self.prog, self.stop, self.unfold, self.depth_limit, self.stop_pred, self.budget)
            sub.callstack = list(self.callstack)
            sub.modcache, sub.field_cache, sub.ctor_cache = self.modcache, self.field_cache, self.ctor_cache
            s = t.var("$obj", cls)
            self.ctor_cache[key] = None
            d = dict(args)
            try:
                sub.invoke(init, sub.with_defaults(init, d, s), selfterm=s, cls=cls)
                fields = {}
                for (bb, k), v in sub.st.ov.items():
                    if bb is s:
                        fields[k] = sub.val(v)
                self.ctor_cache[key] = fields
            except Budget:
                raise
        f = self.ctor_cache[key]
        if f is None:
            return None
        return f.get(name)

    def stopped(self, qual):
        if qual in self.stop:
            return True
        return bool(self.stop_pred and self.stop_pred(qual))

    # ---- displays
    def e_List(self, e):
        return self.newref(self.display(e.elts))

    def e_Tuple(self, e):
        return self.display(e.elts)

    def display(self, elts):
        parts, cur = [], []
        for x in elts:
            if isinstance(x, ast.Starred):
                if cur:
                    parts.append(t.seq(cur))
                    cur = []
                parts.append(as_list(self.val(self.ev(x.value)), self))
            else:
                cur.append(self.ev(x))
        if cur:
            parts.append(t.seq(cur))
        return t.concat(parts) if parts else EMPTY

    def e_Set(self, e):
        return self.newref(t.set_(self.val(self.display(e.elts))))

    def e_Dict(self, e):
        d = EMPTYDICT
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.val(self.ev(v))
                if x.op == "dict":
                    for a, b in x.args[0]:
                        d = t.dput(d, t.seq((t.seq((a, b)),)))
                else:
                    d = t.dmerge(d, x)
            else:
                d = t.dput(d, t.seq((t.seq((self.ev_val(k), self.ev(v))),)))
        return self.newref(d)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.fmt_value(v))
        return t.strcat(parts)

    def fmt_value(self, v):
        x = self.ev(v.value)
        spec = ""
        if v.format_spec is not None:
            sp = self.ev_val(v.format_spec)
            spec = t.strval(sp)
            if spec is None:
                return mk("fmt", self.val(x), sp)
        if v.conversion == 114:
            return mk("fmt", self.val(x), "!r")
        return self.to_str(x, spec or "")

    def to_str(self, x, spec=""):
        x0 = x
        pv = self.peek(x)
        cls = self.typeof(pv)
        if spec == "" and isinstance(cls, Class):
            m = cls.find("__str__")
            if m is not None and not self.stopped(m.qual) and len(self.callstack) < self.depth_limit and m.qual not in self.callstack[-2:]:
                return self.val(self.invoke(m, {m.params()[0]: x}, selfterm=x, cls=cls))
        return t.fmt(self.val(x), spec)

    # ---- comprehensions
    def e_ListComp(self, e):
        return self.newref(self.comp(e.generators, lambda: self.ev(e.elt)))

    def e_GeneratorExp(self, e):
        return self.comp(e.generators, lambda: self.ev(e.elt))

    def e_SetComp(self, e):
        return self.newref(t.set_(self.val(self.comp(e.generators, lambda: self.ev(e.elt)))))

    def e_DictComp(self, e):
        g = self.val(self.comp(e.generators, lambda: t.seq((self.ev_val(e.key), self.ev_val(e.value)))))
        if g.op == "seq":
            d = EMPTYDICT
            for p in g.args:
                d = t.dput(d, t.seq((p,)))
            return self.newref(d)
        return self.newref(mk("dput", EMPTYDICT, g))

    def comp(self, gens, elt):
        saved = dict(self.st.env)
        acc = self.newref(EMPTY)

        def level(i):
            if i == len(gens):
                v = self.val(elt())
                self.st.store[acc] = t.concat([self.st.store[acc], t.seq((v,))])
                return
            g = gens[i]
            it = self.val(self.ev(g.iter))

            def body(elem):
                self.assign(g.target, elem)
                conds = [t.truth(self.ev_val(c)) for c in g.ifs]
                c = t.and_(conds)
                if c is TRUE:
                    level(i + 1)
                else:
                    self.branch(c, lambda: level(i + 1), lambda: None)
            self.for_over(it, body)
        level(0)
        r = self.st.store.pop(acc)
        self.st.env = saved
        return r

    def e_Lambda(self, e):
        f = Func("%s.<lambda>" % self.frames[-1].func.qual, e, self.frames[-1].module, outer=self.frames[-1].func)
        a = e.args
        if a.vararg or a.kwarg or a.defaults:
            return self.closure(f)
        n = len(a.args)
        lvs = [t.fresh_lv() for _ in range(n)]
        vs = [mk("lamarg", l.args[0]) for l in lvs]
        saved = self.st
        ne, fr = len(self.effects), self.frames[-1]
        self.st = saved.copy()
        for p, v in zip(a.args, vs):
            self.st.env[p.arg] = v
        k = len(fr.kills)
        body = self.val(self.ev(e.body))
        effs = self.effects[ne:]
        self.effects = self.effects[:ne]
        fr.kills = fr.kills[:k]
        self.st = saved
        if any(x.kind in ("call", "setattr", "mutate", "raise", "unknown") for x in effs) or t.has_op(body, ("opaque",)):
            cl = self.closure(f)
            return cl
        if any(x.op == "attr" and x.args[0].op == "lamarg" and x.args[0] in vs for x in t.subterms(body)):
            return self.closure(f)          # what a field means depends on the type of the argument
        return t.mk_lam(n, vs, body)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        v = self.val(v)
        fr = self.frames[-1]
        self.emit("yield", "yield", args=(v,), node=e)
        self.st.store[fr.yields] = t.concat([self.st.store[fr.yields], t.seq((v,))])
        return NONE

    def e_YieldFrom(self, e):
        v = self.val(self.ev(e.value))
        fr = self.frames[-1]
        self.st.store[fr.yields] = t.concat([self.st.store[fr.yields], as_list(v, self)])
        return NONE

    # ---- operators
    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        acc = None
        base_pc = list(self.st.pc)
        vals = []
        for i, x in enumerate(e.values):
            v = self.val(self.ev(x))
            vals.append(v)
            if i < len(e.values) - 1:
                self.st.pc.append((t.truth(v) if isand else t.not_(t.truth(v)), "branch"))
        self.st.pc = base_pc
        r = vals[-1]
        for v in reversed(vals[:-1]):
            if t.is_bool(v) and t.is_bool(r):
                r = t.and_([v, r]) if isand else t.or_([v, r])
            else:
                r = t.ite(t.truth(v), r, v) if isand else t.ite(t.truth(v), v, r)
        return r

    def e_UnaryOp(self, e):
        v = self.ev_val(e.operand)
        if isinstance(e.op, ast.Not):
            return t.not_(t.truth(v))
        if isinstance(e.op, ast.USub):
            return t.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("call", "invert", (v,), ())

    def e_BinOp(self, e):
        a, b = self.ev_val(e.left), self.ev_val(e.right)
        r = self.binop(type(e.op).__name__, a, b)
        if t.is_seq(r) and r.op != "arr":
            return self.newref(r)
        return r

    def binop(self, op, a, b):
        # canonical element forms of literal-length lists
        if op == "Add":
            ta, tb = self.typeof(a), self.typeof(b)
            if isinstance(ta, tuple) and isinstance(tb, tuple) or (isinstance(ta, tuple) and t.is_seq(b)) or (isinstance(tb, tuple) and t.is_seq(a)):
                return t.concat([a, b])
            if ta == "str" or tb == "str":
                return t.strcat([a, b])
            if a.op == "carry" and a.args[1] == "list":
                return t.concat([a, b])
            return t.add(a, b)
        if op == "Sub":
            return t.sub(a, b)
        if op == "Mult":
            return t.mul(a, b)
        if op == "Div":
            return t.div(a, b)
        if op == "FloorDiv":
            if t.numval(a) is not None and t.numval(b):
                return const(t.numval(a) // t.numval(b))
            return mk("floordiv", a, b)
        if op == "Mod":
            s = t.strval(a)
            if s is not None:
                return self.percent(s, b)
            return mk("mod", a, b)
        if op == "Pow":
            return t.power(a, b)
        if op == "LShift":
            return t.shl(a, b)
        if op == "BitOr":
            isset = lambda x: x.op in ("set", "setadd") or x.op == "carry" and x.args[1] == "set"
            if isset(a):
                return self.set_union(a, b)
            if isset(b):
                return self.set_union(b, a)
            if a.op == "dict" or b.op == "dict":
                return t.dmerge(a, b)
            return t.bitor(a, b)
        if op == "BitAnd":
            return mk("bitand", *sorted((a, b)))
        if op == "RShift":
            return mk("shr", a, b)
        if op == "BitXor":
            return mk("bitxor", *sorted((a, b)))
        if op == "MatMult":
            return mk("call", "matmul", (a, b), ())
        return t.opaque("op " + op)

    def percent(self, s, b):
        args = list(b.args) if b.op == "seq" else [b]
        out, i, cur = [], 0, ""
        j = 0
        while j < len(s):
            if s[j] == "%" and j + 1 < len(s):
                if s[j + 1] == "%":
                    cur += "%"
                    j += 2
                    continue
                k = j + 1
                while k < len(s) and s[k] not in "sdrfgeixX":
                    k += 1
                spec = s[j + 1:k + 1]
                out.append(const(cur))
                cur = ""
                if i < len(args):
                    out.append(t.fmt(args[i], "" if spec in ("s", "d") else "%" + spec))
                    i += 1
                j = k + 1
            else:
                cur += s[j]
                j += 1
        out.append(const(cur))
        return t.strcat(out)

    def e_Compare(self, e):
        left = self.ev_val(e.left)
        cs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev_val(r)
            cs.append(self.compare(type(op).__name__, left, right))
            left = right
        return t.and_(cs) if len(cs) > 1 else cs[0]

    def compare(self, op, a, b):
        if a.op == "arr" or b.op == "arr":
            if op in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"):
                return t.lift(lambda x, y: self.compare(op, x, y), a, b)
        if op == "Lt":
            return t.lt(a, b)
        if op == "LtE":
            return t.le(a, b)
        if op == "Gt":
            return t.lt(b, a)
        if op == "GtE":
            return t.le(b, a)
        if op in ("Eq",):
            return t.eq(a, b)
        if op == "NotEq":
            return t.not_(t.eq(a, b))
        if op == "Is":
            return t.eq(a, b) if (a in (NONE, TRUE, FALSE) or b in (NONE, TRUE, FALSE)) else (TRUE if a is b else mk("is", *sorted((a, b))))
        if op == "IsNot":
            return t.not_(self.compare("Is", a, b))
        if op == "In":
            return self.contains(a, b)
        if op == "NotIn":
            return t.not_(self.contains(a, b))
        return t.opaque("cmp " + op)

    def contains(self, a, b):
        b = strip_arr(b)
        while b.op in ("set", "keys", "sorted") and b.op != "seq":
            if b.op == "set" or b.op == "sorted" or b.op == "keys":
                b = b.args[0]
        if b.op == "seq":
            return t.or_([t.eq(a, x) for x in b.args])
        if b.op == "dict":
            return t.or_([t.eq(a, k) for k, _ in b.args[0]])
        if b.op == "dput" and b.args[0] is EMPTYDICT:
            b = t.map_stream(b.args[1], lambda p: t.item(p, ZERO))
        if b.op == "scatter" and b.args[0] is EMPTYDICT:
            b = t.map_stream(b.args[1], lambda p: t.item(p, ZERO))
        return mk("in", a, t.strip_perm(b) if b.op == "gen" else b)

    def e_IfExp(self, e):
        c = t.truth(self.ev_val(e.test))
        c = self.simplify_pc(c)
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        out = {}

        def fa():
            out["a"] = self.val(self.ev(e.body))

        def fb():
            out["b"] = self.val(self.ev(e.orelse))
        self.branch(c, fa, fb)
        return t.ite(c, out.get("a", UNDEF), out.get("b", UNDEF))

    def slice_parts(self, s):
        f = lambda x: self.ev_val(x) if x is not None else NONE
        return f(s.lower), f(s.upper), f(s.step)

    def elements(self, v):
        """an array that is not known to be a table"""
        c = v.args[0] if v.op == "arr" else v
        return t.is_seq(c) or c.op in ("attr", "var", "item", "rand")

    def e_Subscript(self, e):
        b = self.ev(e.value)
        if b.op in ("ext", "clsref") and isinstance(e.ctx, ast.Load) and b.op == "ext" and b.args[0].startswith("typing."):
            return t.opaque("typing")
        if isinstance(e.slice, ast.Slice):
            lo, hi, step = self.slice_parts(e.slice)
            r = t.slice_(self.val(b), lo, hi, step)
            r = self.sorted_prefix(r)
            return self.newref(r)
        if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
            parts = []
            for x in e.slice.elts:
                if isinstance(x, ast.Slice):
                    lo, hi, st = self.slice_parts(x)
                    parts.append(mk("sl", lo, hi, st))
                else:
                    parts.append(self.ev_val(x))
            return t.mitem(self.val(b), tuple(parts))
        k = self.ev_val(e.slice)
        if isinstance(e.slice, ast.Tuple) and k.op == "seq" and len(k.args) == 2 and sum(x.op in ("arr", "gen") or x.op == "rand" and x.args[0] == "permutation" for x in k.args) == 1:
            r = t.mitem(self.val(b), tuple(k.args))
            if r.op != "mitem":
                return self.newref(r)
        if not isinstance(e.slice, ast.Tuple) and (k.op == "rand" and k.args[0] == "permutation" or k.op == "call" and k.args[0] in ("numpy.argsort", "numpy.random.permutation")):
            vb = self.val(b)                    # only an array can be indexed by an array
            if vb.op != "opaque" and self.elements(vb):
                l = t.fresh_lv()
                return self.newref(mk("arr", t.mk_gen(l, t.length(k), t.TRUE, t.item(vb.args[0] if vb.op == "arr" else vb, t.item(k, l)))))
        if k.op in ("seq", "gen", "arr"):
            vb = self.val(b)
            if vb.op == "arr" and isinstance(e.slice, ast.Tuple) and k.op == "seq" and len(k.args) == 2 and vb.args[0].op == "gen" and vb.args[0].args[3].op in ("gen", "seq"):
                if all(x.op not in ("gen", "seq", "arr") for x in k.args):
                    return self.rand_item(t.item(t.item(vb, k.args[0]), k.args[1]))
            elif vb.op == "arr" and not isinstance(e.slice, ast.Tuple) and k.op in ("gen", "arr") and not t.is_bool((k if k.op == "gen" else k.args[0]).args[-1]):
                ks = k.args[0] if k.op == "arr" else k
                l = t.fresh_lv()
                return self.newref(mk("arr", t.mk_gen(l, t.length(ks), t.TRUE, t.item(vb.args[0], t.item(ks, l)))))
        if b.op == "ref":
            pb = self.peek(b)
            if pb.op in ("seq", "dict") or t.has_op(pb, ("ref",)):
                r = t.item(pb, k)
                if r.op == "ref":
                    return r
            r = t.item(self.val(pb), k)
            return self.rand_item(r)
        vb = self.val(b)
        ty = self.typeof(vb)
        if isinstance(ty, Class) and ty.is_namedtuple:
            n = t.numval(k)
            if n is not None and 0 <= n < len(ty.field_order):
                return self.get_attr(vb, ty.field_order[int(n)])
        return t.item(vb, k)

    def rand_item(self, r):
        return r

    def sorted_prefix(self, r):
        """S[:count(x<=v)] for S sorted by x -> the elements with x<=v"""
        if r.op == "slice" and r.args[1] is ZERO and r.args[2].op == "sum" and r.args[0].op == "sorted":
            S, n = r.args[0], r.args[2]
            g = n.args[0]
            if g.op == "gen" and g.args[3] is ONE and g.args[1] is t.length(S) and S.args[2] is FALSE:
                l = t.fresh_lv()
                f, _ = t.open_gen(g, l)
                X = S.args[0]
                # count is over X (order removed); filter must be monotone in the sort key
                f2 = t.replace(f, {t.item(X, l): t.item(S, l)})
                cond = t.not_(f2)
                if not t.occurs(X, f2) or True:
                    if self.monotone(cond, l, t.length(S)):
                        return t.mk_gen(l, t.length(S), f2, t.item(S, l))
        return r

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fr = self.frames[-1]
            f = fr
            return mk("super", self.super_self(fr), (f.func.cls.qual if f.func.cls else ""))
        fn = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.val(self.ev(a.value))
                if v.op == "seq":
                    args.extend(v.args)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a))
        kw = []
        for k in e.keywords:
            if k.arg is None:
                v = self.val(self.ev(k.value))
                if v.op == "dict" and all(t.strval(x) is not None for x, _ in v.args[0]):
                    kw.extend((t.strval(x), y) for x, y in v.args[0])
                elif v.op == "dmerge" or v.op == "dput" or v.op == "dict":
                    kw.append(("**", v))
                else:
                    kw.append(("**", v))
            else:
                kw.append((k.arg, self.ev(k.value)))
        if self.st.dead:
            return mk("never")
        return self.apply(fn, args, kw, e)

    def super_self(self, fr):
        if fr.selfterm is not None:
            return fr.selfterm
        return t.opaque("super")

    def apply(self, fn, args, kw, node):
        o = fn.op
        if o == "ref":
            fn = self.peek(fn)
            o = fn.op
            if o == "ref":
                cls = self.typeof(fn)
                if isinstance(cls, Class) and cls.find("__call__"):
                    return self.call_repo(cls.find("__call__"), [fn] + args, kw, node, selfterm=fn, cls=cls)
        if o == "superattr":
            s, cq = fn.args[0].args
            runtime = self.typeof(s)
            owner = self.class_of(cq)
            base_cls = runtime if isinstance(runtime, Class) else owner
            if owner is not None and base_cls is not None:
                m = base_cls.find_after(owner, fn.args[1])
                if m is not None:
                    return self.call_repo(m, [s] + args, kw, node, selfterm=s, cls=base_cls)
            return NONE
        if o == "fn":
            f = self.func_by_qual(fn.args[0])
            if f is None:
                return self.unknown(fn, args, kw, node)
            if f.cls is not None and f.kind in ("method", "property") and args:
                return self.call_repo(f, args, kw, node, selfterm=args[0], cls=self.typeof(args[0]) if isinstance(self.typeof(args[0]), Class) else f.cls)
            return self.call_repo(f, args, kw, node, cls=f.cls)
        if o == "clsref":
            return self.construct_new(fn.args[0], args, kw, node)
        if o == "bound":
            b, q = fn.args
            f = self.func_by_qual(q)
            cls = self.typeof(b) if b.op != "clsref" else self.class_of(b.args[0])
            if f.kind == "staticmethod":
                return self.call_repo(f, args, kw, node, cls=cls)
            if f.kind == "classmethod":
                cb = b if b.op == "clsref" else mk("clsref", cls.qual)
                return self.call_repo(f, [cb] + args, kw, node, selfterm=cb, cls=cls)
            return self.call_repo(f, [b] + args, kw, node, selfterm=b, cls=cls)
        if o == "lam":
            if len(args) == fn.args[1] and not kw:
                return t.apply_lam(fn, [self.val(a) for a in args])
        if o == "closure":
            f, fr, env = self.closures[fn.args[0]]
            return self.call_repo(f, args, kw, node, parent=(fr, env), selfterm=fr.selfterm, cls=fr.cls)
        if o == "ext":
            return self.ext_call(fn.args[0], args, kw, node)
        if o == "attr":
            base, name = fn.args
            return self.ext_method(base, name, args, kw, node, fn)
        if o == "partial":
            return self.apply(fn.args[0], list(fn.args[1]) + args, list(fn.args[2]) + kw, node)
        if o == "ite":
            a = self.val(self.apply(fn.args[1], args, kw, node))
            b = self.val(self.apply(fn.args[2], args, kw, node))
            return t.ite(fn.args[0], a, b)
        cls = self.typeof(fn)
        if isinstance(cls, Class) and cls.find("__call__"):
            m = cls.find("__call__")
            return self.call_repo(m, [fn] + args, kw, node, selfterm=fn, cls=cls)
        return self.unknown(fn, args, kw, node)

    def reify(self, x, depth=0):
        """callable argument -> lam term"""
        if x.op == "closure" and depth < 3:
            f, fr, env = self.closures[x.args[0]]
            a = f.node.args
            if a.vararg or a.kwarg:
                return x
            n = len(a.args)
            vs = [mk("lamarg", t.fresh_lv().args[0]) for _ in range(n)]
            ne, st = len(self.effects), self.st
            self.st = st.copy()
            try:
                b = self.val(self.call_repo(f, list(vs), [], f.node, parent=(fr, env), selfterm=fr.selfterm, cls=fr.cls))
            finally:
                self.effects = self.effects[:ne]
                self.st = st
            return t.mk_lam(n, vs, b)
        if x.op == "fn":
            return x
        if x.op == "bound":
            return mk("bound", self.val(x.args[0]), x.args[1])
        return x

    def unknown(self, fn, args, kw, node):
        fv = self.val(fn)
        av = tuple(self.reify(self.val(a)) for a in args)
        kv = tuple(sorted(((k, self.reify(self.val(v))) for k, v in kw), key=lambda z: z[0]))
        r = mk("callv", fv, av, kv)
        self.emit("unknown", "()", base=fv, args=av, kw=kv, node=node, value=r)
        return r

    def bind(self, f, args, kw, drop_first=False):
        """parameter -> value; None when the call does not fit or is not static"""
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        rest = []
        if any(x.op == "star" for x in args):
            i = next(i for i, x in enumerate(args) if x.op == "star")
            if i == len(args) - 1:
                sv = args[i].args[0]
                args = list(args[:i])
                need = [p for p in pos[len(args):] if p not in dict(kw)]
                if a.vararg is None:
                    args += [t.item(sv, const(j)) for j in range(len(need))]
                else:
                    for p, v in zip(pos, args):
                        out[p] = v
                    if len(args) >= len(pos):
                        out[a.vararg.arg] = t.concat([t.seq(args[len(pos):]), sv])
                        args = None
                    else:
                        return None
            else:
                return None
        if args is not None:
            if len(args) > len(pos):
                if a.vararg is None:
                    return None
                rest = args[len(pos):]
            for p, v in zip(pos, args):
                out[p] = v
            if a.vararg is not None:
                out[a.vararg.arg] = t.seq(rest)
        extra = []
        names = set(pos) | {k.arg for k in a.kwonlyargs}
        for k, v in kw:
            if k == "**":
                extra.append((k, v))
            elif k in names:
                if k in out:
                    return None
                out[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                return None
        if a.kwarg is not None:
            out[a.kwarg.arg] = mk("dict", tuple((const(k), self.val(v)) for k, v in extra if k != "**"))
        elif extra:
            out["**"] = extra[0][1]
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[k.arg] = d
        for p in pos + [k.arg for k in a.kwonlyargs]:
            if p not in out:
                if p in defaults:
                    out[p] = self.default_value(f, defaults[p])
                elif "**" in out:
                    out[p] = t.item(out["**"], const(p))
                else:
                    return None
        return out

    def default_value(self, f, expr):
        saved = (self.st, self.effects)
        self.st = State({}, dict(self.st.store), {}, [])
        self.effects = []
        fr = Frame(f, f.module)
        self.frames.append(fr)
        try:
            return self.ev_val(expr)
        finally:
            self.frames.pop()
            st = self.st
            self.st, self.effects = saved

    def call_repo(self, f, args, kw, node, selfterm=None, cls=None, parent=None):
        b = self.bind(f, args, kw)
        if b is None:
            r = mk("badcall", f.qual, tuple(self.val(a) for a in args), tuple((k, self.val(v)) for k, v in kw))
            self.emit("badcall", f.qual, args=[self.val(a) for a in args], kw=[(k, self.val(v)) for k, v in kw], node=node, value=r)
            return r
        ext = b.pop("**", None)
        if any(d.startswith("lru_cache") or "cache" in d for d in f.decorators):
            pass
        if self.stopped(f.qual) or len(self.callstack) >= self.depth_limit or self.callstack.count(f.qual) >= 2 or self.is_stub(f):
            kv = tuple((k, self.reify(self.val(v))) for k, v in b.items())
            kv = kv + ((("**", ext),) if ext is not None else ())
            r = mk("rcall", f.qual, kv)
            self.emit("call", f.qual, args=[v for _, v in kv], kw=kv, node=node, value=r)
            return r
        self.emit("inline", f.qual, args=[], kw=[(k, v if v.op == "ref" else self.val(v)) for k, v in b.items()], node=node)
        ann = self.param_types(f)
        for p, ty in ann.items():
            v = b.get(p)
            if v is not None and v.op in ("attr", "item", "carry", "lv", "rcall", "mcall", "call", "callv", "lamarg") and isinstance(ty, (Class, tuple)) and self.typeof(v) is None:
                self.assumed_types[v] = ty
        return self.invoke(f, b, selfterm=selfterm, cls=cls, parent=parent)

    def is_stub(self, f):
        """abstract or unimplemented operation: only docstring/pass/raise NotImplementedError"""
        body = f.node.body
        if not isinstance(body, list):
            return False
        body = [s for s in body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if not body:
            return True
        if len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None and "NotImplementedError" in ast.unparse(body[0].exc):
            return True
        if len(body) == 1 and isinstance(body[0], ast.Pass):
            return True
        return False

    def construct_new(self, qual, args, kw, node):
        cls = self.class_of(qual)
        if cls is None:
            return self.unknown(mk("clsref", qual), args, kw, node)
        if cls.is_namedtuple or (cls.is_dataclass and cls.find("__init__") is None):
            fields = []
            for c in reversed(cls.mro()):
                fields += [x for x in c.field_order if x not in fields]
            vals = {}
            for p, v in zip(fields, args):
                vals[p] = self.val(v)
            extra = None
            for k, v in kw:
                if k == "**":
                    extra = self.val(v)
                else:
                    vals[k] = self.val(v)
            for p in fields:
                if p not in vals:
                    ca = cls.class_attr(p)
                    if extra is not None:
                        vals[p] = t.item(extra, const(p))
                    elif ca is not None:
                        vals[p] = self.class_attr_value(ca[0], ca[1], p)
                    else:
                        vals[p] = UNDEF
            bad = [k for k in vals if k not in fields]
            r = mk("new", cls.qual, tuple((p, vals[p]) for p in fields))
            if bad or len(args) > len(fields) or any(v is UNDEF for v in vals.values()):
                self.emit("badcall", cls.qual, args=[self.val(a) for a in args], kw=[(k, self.val(v)) for k, v in kw], node=node, value=r)
            self.emit("new", cls.qual, kw=r.args[1], node=node, value=r)
            return r
        init = cls.find("__init__")
        if init is None:
            r = mk("new", cls.qual, ())
            self.emit("new", cls.qual, node=node, value=r)
            if args or kw:
                pass
            self.nref += 1
            ref = mk("ref", self.nref)
            self.st.store[ref] = mk("newobj", cls.qual, (), ())
            return ref
        b = self.bind(init, [UNDEF] + args, kw)
        if b is None:
            r = mk("badcall", cls.qual, tuple(self.val(a) for a in args), tuple((k, self.val(v)) for k, v in kw))
            self.emit("badcall", cls.qual, args=[self.val(a) for a in args], kw=[(k, self.val(v)) for k, v in kw], node=node, value=r)
            return r
        ext = b.pop("**", None)
        ps = init.params()
        b.pop(ps[0], None)
        av = tuple((k, self.reify(self.val(v))) for k, v in b.items())
        av = tuple(sorted(av)) if False else tuple((p, dict(av)[p]) for p in [x for x in ps[1:] + [k.arg for k in init.node.args.kwonlyargs] if x in dict(av)])
        self.nref += 1
        ref = mk("ref", self.nref)
        if self.stopped(cls.qual) or len(self.callstack) >= self.depth_limit or self.callstack.count(init.qual) >= 2:
            self.st.store[ref] = mk("newobj", cls.qual, av, ())
            self.emit("new", cls.qual, kw=av + ((("**", ext),) if ext is not None else ()), node=node, value=mk("new", cls.qual, av))
            return mk("new", cls.qual, av)
        self.st.store[ref] = mk("newobj", cls.qual, av, ())
        self.emit("new", cls.qual, kw=av, node=node, value=mk("new", cls.qual, av))
        b[ps[0]] = ref
        self.invoke(init, b, selfterm=ref, cls=cls)
        fields = tuple((k[1], v) for k, v in self.st.ov.items() if k[0] is ref)
        fields = tuple((n, v if v.op != "ref" else self.val(v)) for n, v in fields)
        self.st.store[ref] = mk("newobj", cls.qual, av, fields)
        return ref

    # ---------------------------------------------------- builtins, numpy, ...
    def ext_call(self, name, args, kw, node):
        from . import builtins_model as bm
        r = bm.call(self, name, args, kw, node)
        if r is not None:
            return r
        av = tuple(self.reify(self.val(a)) for a in args)
        kv = tuple(sorted(((k, self.reify(self.val(v))) for k, v in kw), key=lambda z: z[0]))
        r = mk("call", name, av, kv)
        if name.startswith("numpy.random.") and name.rsplit(".", 1)[1] in RANDOM_METHODS:
            n = self.nrand.get(name, 0)
            self.nrand[name] = n + 1
            r = mk("rand", name, NONE, av, kv, n, tuple(l for l, _, _ in self.loops))
        if name == "cvxopt.solvers.qp":
            d = dict(kv)
            for p in ("P", "q", "G", "h", "A", "b")[len(av):]:
                if p in d:
                    av += (d.pop(p),)
                else:
                    break
            kv = tuple(sorted(d.items()))
            r = mk("call", name, av, kv)
        self.emit("call", name, args=av, kw=kv, node=node, value=r)
        if name in bm.MUTATORS and args:
            k = 1 if name in bm.MUTATORS_2ND else 0
            if k < len(args):
                bm.mutated(self, args[k], name.rsplit(".", 1)[1], [a for i, a in enumerate(args) if i != k], node)
                if args[k].op == "ref":
                    self.st.store[args[k]] = t.opaque("changed by %s" % name)
        elif self.discarded is node and name not in bm.HARMLESS:
            for a in args:
                if a.op == "ref" and self.peek(a).op != "newobj":
                    self.st.store[a] = t.opaque("may be changed by %s" % name)
        return r

    discarded = None

    def ext_method(self, base, name, args, kw, node, fn):
        from . import builtins_model as bm
        r = bm.method(self, base, name, args, kw, node)
        if r is not None:
            return r
        bv = self.val(base)
        av = tuple(self.reify(self.val(a)) for a in args)
        kv = tuple(sorted(((k, self.reify(self.val(v))) for k, v in kw), key=lambda z: z[0]))
        if name == "uniform" and self.rng_like(bv):       # uniform() and uniform(0, 1) are random()
            d = dict(kv)
            lo, hi = (av + (ZERO, ONE)[len(av):])[:2] if len(av) <= 2 else (None, None)
            lo, hi = d.pop("low", lo), d.pop("high", hi)
            if lo is ZERO and hi is ONE:
                name, av, kv = "random", (), tuple(sorted(d.items()))
        if name in ("random", "standard_normal", "random_sample") and len(av) == 1 and not kv:
            av, kv = (), (("size", av[0]),)
        if name in RANDOM_METHODS and self.rng_like(bv):
            n = self.nrand.get((bv, name), 0)
            self.nrand[(bv, name)] = n + 1
            r = mk("rand", name, bv, av, kv, n, tuple(l for l, _, _ in self.loops))
            if name == "shuffle" and args and args[0].op == "ref":
                v = self.peek(args[0])
                self.emit("call", name, base=bv, args=av, kw=kv, node=node, value=NONE)
                self.st.store[args[0]] = mk("shuffled", self.val(v))
                return NONE
        else:
            r = mk("mcall", bv, name, av, kv)
        self.emit("call", name, base=bv, args=av, kw=kv, node=node, value=r)
        return r

    def rng_like(self, b):
        return True

    def e_Slice(self, e):
        return t.opaque("slice")


def strip_arr(x):
    while x.op in ("arr", "copy", "deepcopy"):
        x = x.args[0]
    return x


def as_list(v, ip):
    """value as a sequence (iteration order)"""
    v = strip_arr(v)
    if v.op in ("scatter", "dput", "dict", "scatteror", "dfold") and not (v.op == "scatter" and t.is_seq(v.args[0])):
        if v.op == "dict":
            return t.seq([k for k, _ in v.args[0]])
        return t.keys_(v)
    ty = ip.typeof(v)
    if isinstance(ty, tuple) and ty[0] == "dict" and v.op not in ("keys", "values", "items"):
        return t.keys_(v)
    if v.op == "zip":
        l = t.fresh_lv()
        return t.mk_gen(l, t.length(v), TRUE, t.item(v, l))
    return v


def tg_load(tg):
    x = ast.copy_location(type(tg)(**{f: getattr(tg, f) for f in tg._fields}), tg)
    x.ctx = ast.Load()
    return x


def flipped(test):
    """the negation of a test"""
    back = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and type(test.ops[0]) in back:
        return ast.copy_location(ast.Compare(test.left, [back[type(test.ops[0])]()], test.comparators), test)
    return ast.copy_location(ast.UnaryOp(ast.Not(), test), test)


def has_break(body):
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, (ast.For, ast.While)):
                stack.extend(n.orelse)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def counted(s):
    """(name, end, inclusive, step) when the while loop counts a variable up, or down, to a bound"""
    c = s.test
    if s.orelse:
        return None
    if isinstance(c, ast.Name):
        k = steps(s, c.id)
        return (c.id, ast.copy_location(ast.Constant(0), c), None, k) if k == -1 else None
    if not (isinstance(c, ast.Compare) and len(c.ops) == 1):
        return None
    l, op, r = c.left, c.ops[0], c.comparators[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        l, op, r = r, ast.Lt() if isinstance(op, ast.Gt) else ast.LtE(), l
    if not isinstance(op, (ast.Lt, ast.LtE)):
        return None
    if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and len(l.args) == 1 and isinstance(l.args[0], ast.Name) and grows(s, l.args[0].id):
        return l, r, isinstance(op, ast.LtE), 1
    for n, end, up in ((l, r, True), (r, l, False)):
        if not isinstance(n, ast.Name):
            continue
        if any(isinstance(x, (ast.Div, ast.Pow)) or isinstance(x, ast.Constant) and isinstance(x.value, float) for x in ast.walk(end)):
            continue
        k = steps(s, n.id)
        if k is not None and (k > 0) == up:
            return n.id, end, isinstance(op, ast.LtE), k
    return None


def grows(s, name):
    """every iteration appends one element to the list"""
    n = 0
    for x in s.body:
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and isinstance(x.value.func.value, ast.Name) \
                and x.value.func.value.id == name:
            if x.value.func.attr != "append":
                return False
            n += 1
        elif n == 0 and has_continue([x]):
            return False
        elif any(isinstance(y, ast.Name) and y.id == name and not isinstance(y.ctx, ast.Load)
                 or isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == name and y.attr in MUTATORS for y in ast.walk(x)):
            return False
    return n == 1


def steps(s, name):
    """the constant the body adds to the variable, once in every iteration"""
    step = None
    for x in s.body:
        k = None
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
            if isinstance(x.op, (ast.Add, ast.Sub)) and isinstance(x.value, ast.Constant) and type(x.value.value) is int:
                k = x.value.value if isinstance(x.op, ast.Add) else -x.value.value
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name:
            v = x.value
            if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)):
                p, q = v.left, v.right
                if isinstance(v.op, ast.Add) and isinstance(p, ast.Constant):
                    p, q = q, p
                if isinstance(p, ast.Name) and p.id == name and isinstance(q, ast.Constant) and type(q.value) is int:
                    k = q.value if isinstance(v.op, ast.Add) else -q.value
        else:
            if any(isinstance(y, ast.Name) and y.id == name and not isinstance(y.ctx, ast.Load) for y in ast.walk(x)):
                return None
            if step is None and has_continue([x]):
                return None
            continue
        if not k or step is not None:
            return None
        step = k
    return step


def has_continue(body):
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Continue):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def has_jump(body):
    """break or continue of the enclosing loop"""
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Break, ast.Continue)):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, (ast.For, ast.While)):
                stack.extend(n.orelse)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class _Flag(ast.NodeTransformer):
    def __init__(self, flag):
        self.flag = flag

    def visit_Break(self, n):
        a = ast.Assign([ast.Name(self.flag, ast.Store())], ast.Constant(True))
        return [ast.fix_missing_locations(ast.copy_location(a, n)), n]

    def visit_For(self, n):
        n.orelse = [y for x in n.orelse for y in _many(self.visit(x))]
        return n

    visit_While = visit_For

    def visit_FunctionDef(self, n):
        return n

    visit_ClassDef = visit_Lambda = visit_FunctionDef


def _many(x):
    return x if isinstance(x, list) else [x]


def flag_breaks(s, flag):
    """a copy of a statement that records in `flag` that it leaves the loop"""
    r = _Flag(flag).visit(copy.deepcopy(s))
    return r if not isinstance(r, list) else ast.copy_location(ast.If(ast.Constant(True), r, []), s)


def sorted_source(a, l):
    """a = S[l] or S[l][K] where S is sorted ascending on that key"""
    if a.op == "item" and a.args[1] is l and a.args[0].op == "sorted":
        S = a.args[0]
        if S.args[1] is NONE and S.args[2] is FALSE:
            return S
    if a.op == "item" and a.args[0].op == "item" and a.args[0].args[1] is l and a.args[0].args[0].op == "sorted":
        S = a.args[0].args[0]
        k = S.args[1]
        if S.args[2] is FALSE and k.op == "lam" and k.args[2] is mk("item", mk("lamv", k.args[0], 0), a.args[1]):
            return S
    return None

"""May-alias and write-effect analysis over the syntax tree (flow-sensitive for local names, field-sensitive weak heap, calls
followed into the repository with virtual dispatch, bounded unrolling to a fixpoint).

Objects are abstract: the objects reachable from an entry parameter (one per access path), allocation sites, module globals,
mutable defaults.  Numbers, strings, functions and classes are not objects: they cannot be modified."""
import ast
from .program import Class, Func, Module
from .astutil import bound_names

IMM = ("imm",)
SCALARS = {"int", "float", "str", "bool", "bytes", "complex", "None", "numpy.float64", "numpy.int64", "typing.Callable", "typing.Type", "type", "typing.Text", "typing.Hashable", "collections.abc.Callable"}
LISTS = {"typing.List": "list", "list": "list", "typing.MutableSequence": "list", "typing.Iterable": "iter", "typing.Sequence": "iter", "typing.Iterator": "iter", "typing.Generator": "iter", "typing.Collection": "iter", "typing.Set": "set", "set": "set", "typing.FrozenSet": "tuple", "frozenset": "tuple"}
DICTS = {"typing.Dict", "dict", "typing.Mapping", "typing.DefaultDict", "collections.defaultdict", "typing.MutableMapping"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard", "difference_update", "intersection_update", "symmetric_difference_update", "fill", "resize", "partition", "itemset", "appendleft", "popleft", "rotate", "put", "setfield", "setflags", "byteswap", "__setitem__", "__delitem__", "__iadd__"}
STORES = {"append", "extend", "insert", "update", "setdefault", "add", "appendleft", "__setitem__"}
EXT_MUT = {"random.shuffle": 0, "numpy.random.shuffle": 0, "numpy.put": 0, "numpy.fill_diagonal": 0, "numpy.copyto": 0, "numpy.place": 0, "numpy.putmask": 0, "heapq.heappush": 0, "heapq.heappop": 0, "heapq.heapify": 0, "bisect.insort": 0, "operator.setitem": 0, "numpy.add.at": 0, "setattr": 0, "delattr": 0}
DRAWS = {"random", "normal", "uniform", "integers", "choice", "shuffle", "permutation", "poisson", "gamma", "beta", "binomial", "geometric", "laplace", "exponential", "zipf", "rand", "randn", "randint", "standard_normal", "bytes", "multinomial", "dirichlet", "negative_binomial", "spawn", "permuted"}
VIEWS = {"numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.reshape", "numpy.transpose", "numpy.squeeze", "numpy.broadcast_to", "numpy.swapaxes", "numpy.flip", "numpy.diagonal"}
SHALLOW = {"list": "list", "tuple": "tuple", "set": "set", "frozenset": "tuple", "sorted": "list", "reversed": "iter", "iter": "iter", "copy.copy": None, "collections.deque": "list", "itertools.islice": "iter", "itertools.cycle": "iter", "itertools.chain": "iter", "filter": "iter", "itertools.chain.from_iterable": "iter"}
PAIRS = {"zip", "enumerate", "itertools.product", "itertools.combinations", "itertools.permutations", "itertools.zip_longest", "itertools.groupby", "itertools.combinations_with_replacement", "itertools.accumulate"}
PICK = {"min", "max", "next", "functools.reduce", "typing.cast"}


class Obj:
    __slots__ = ("root", "path", "kind", "site", "exempt", "parent", "fn", "src")

    def __init__(self, root, path, kind, site=None, exempt=False, parent=None):
        self.root, self.path, self.kind, self.site, self.exempt, self.parent = root, path, kind, site, exempt, parent
        self.fn = None
        self.src = ()

    def __repr__(self):
        return "<%s%s %s>" % (self.root, self.path, kshow(self.kind))


def kshow(k):
    if k is None:
        return "?"
    if k[0] in ("inst", "class"):
        return "%s" % k[1].name
    return k[0] + ("[%s]" % kshow(k[1]) if len(k) > 1 else "")


class Val:
    __slots__ = ("objs", "taint")

    def __init__(self, objs=frozenset(), taint=frozenset()):
        self.objs, self.taint = frozenset(objs), frozenset(taint)

    def __or__(self, o):
        if o is NOTHING or o is self:
            return self
        return Val(self.objs | o.objs, self.taint | o.taint)

    def __eq__(self, o):
        return self.objs == o.objs and self.taint == o.taint

    def __hash__(self):
        return hash((self.objs, self.taint))


NOTHING = Val()


class Write:
    __slots__ = ("obj", "field", "taint", "pcs", "node", "func", "op", "own", "key", "via")

    def __init__(self, obj, field, taint, pc, node, func, op, own, key=None):
        self.obj, self.field, self.taint, self.node, self.func, self.op, self.own, self.key = obj, field, taint, node, func, op, own, key
        self.pcs = {pc}
        self.via = set()

    def where(self):
        return "%s:%s %s" % (self.func.module.relpath, getattr(self.node, "lineno", "?"), self.func.qual)


class Kinds:
    """static kinds from annotations and initialisers"""

    def __init__(self, prog):
        self.depth = []
        self.prog = prog
        self.memo = {}

    def ann(self, m, e):
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            if e.value is None:
                return IMM
            if isinstance(e.value, str):
                try:
                    return self.ann(m, ast.parse(e.value, mode="eval").body)
                except SyntaxError:
                    return None
            return None
        if isinstance(e, ast.BinOp):
            return self.union([self.ann(m, e.left), self.ann(m, e.right)])
        if isinstance(e, ast.List) and len(e.elts) == 1:
            return ("list", self.ann(m, e.elts[0]))
        if isinstance(e, ast.Subscript):
            h = self.prog.resolve_expr(m, e.value)
            sl = e.slice
            el = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if h == "typing.Optional":
                return self.ann(m, sl)
            if h == "typing.Union":
                return self.union([self.ann(m, x) for x in el])
            if h in ("typing.Type", "type"):
                k = self.ann(m, sl)
                return ("class", k[1]) if k and k[0] == "inst" else IMM
            if h in SCALARS:
                return IMM
            if h in LISTS:
                return (LISTS[h], self.ann(m, el[0]))
            if h in ("typing.Tuple", "tuple"):
                ks = [self.ann(m, x) for x in el if not (isinstance(x, ast.Constant) and x.value is Ellipsis)]
                if all(k == IMM for k in ks):
                    return IMM
                return ("tuple", self.union(ks))
            if h in DICTS:
                return ("dict", self.ann(m, el[1]) if len(el) > 1 else None)
            return None
        r = self.prog.resolve_expr(m, e)
        if isinstance(r, Class):
            if any(b in ("enum.Enum", "Enum", "enum.IntEnum") for b in r.external_bases()):
                return IMM
            return ("inst", r)
        if isinstance(r, str):
            if r in SCALARS:
                return IMM
            if r in LISTS:
                return (LISTS[r], None)
            if r in DICTS:
                return ("dict", None)
            if r in ("typing.Tuple", "tuple"):
                return ("tuple", None)
            if r in ("numpy.ndarray", "numpy.array", "numpy.typing.ArrayLike"):
                return ("nd",)
            if r in ("numpy.random.Generator", "numpy.random.RandomState", "random.Random"):
                return ("rng",)
            if r in ("typing.TextIO", "typing.IO", "typing.BinaryIO", "io.TextIOBase", "io.IOBase"):
                return ("file",)
        return None

    def union(self, ks):
        ks = [k for k in ks if k != IMM] or [IMM]
        return ks[0] if all(k == ks[0] for k in ks) else None

    def field(self, cls, name):
        key = (cls.qual, name)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        res = None
        for c in cls.mro():
            if name in c.annotations:
                res = self.ann(c.module, c.annotations[name])
                break
            ks, found = [], False
            for f in c.methods.values():
                a = f.node.args.args
                if not a or f.kind in ("staticmethod", "classmethod"):
                    continue
                for n in ast.walk(f.node):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
                    for q in tg:
                        if isinstance(q, ast.Attribute) and q.attr == name and isinstance(q.value, ast.Name) and q.value.id == a[0].arg:
                            found = True
                            if isinstance(n, ast.AnnAssign) and self.ann(c.module, n.annotation):
                                ks.append(self.ann(c.module, n.annotation))
                            elif isinstance(n, ast.AugAssign):
                                continue
                            else:
                                ks.append(self.expr(n.value, f, c))
            if found:
                res = self.union(ks) if ks and all(k is not None for k in ks) else None
                break
        self.memo[key] = res
        return res

    def returned(self, g, f, cls, e, env):
        """kind of what a helper returns: annotation, else its return expressions on the kinds of the arguments"""
        k = self.ann(g.module, g.node.returns) if g.node.returns is not None else None
        if k is not None or len(self.depth) > 3 or g in self.depth or isinstance(g.node, ast.Lambda):
            return k
        ps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
        inner = {}
        if ps and g.cls is not None and g.kind not in ("staticmethod",) and isinstance(e.func, ast.Attribute):
            ps = ps[1:]
        for p, a in zip(ps, e.args):
            inner[p] = self.expr(a, f, cls, env)
        for a in e.keywords:
            if a.arg:
                inner[a.arg] = self.expr(a.value, f, cls, env)
        rets = [n for n in ast.walk(g.node) if isinstance(n, ast.Return) and n.value is not None]
        self.depth.append(g)
        try:
            ks = [self.expr(n.value, g, cls if g.cls is not None else None, inner) for n in rets]
        finally:
            self.depth.pop()
        return self.union(ks) if ks and None not in ks else None

    def expr(self, e, f, cls, env=None):
        m = f.module
        if e is None:
            return None
        if env and isinstance(e, ast.Name) and env.get(e.id) is not None:
            return env[e.id]
        if isinstance(e, ast.Constant) or isinstance(e, (ast.JoinedStr, ast.Compare, ast.Lambda)):
            return IMM
        if isinstance(e, ast.UnaryOp):
            return self.expr(e.operand, f, cls, env) if not isinstance(e.op, ast.Not) else IMM
        if isinstance(e, ast.BinOp):
            ks = [self.expr(e.left, f, cls, env), self.expr(e.right, f, cls, env)]
            return self.union(ks) if None not in ks else None
        if isinstance(e, ast.IfExp):
            ks = [self.expr(e.body, f, cls, env), self.expr(e.orelse, f, cls, env)]
            return self.union(ks) if None not in ks else None
        if isinstance(e, (ast.List, ast.ListComp)):
            k = self.expr(e.elts[0], f, cls, env) if isinstance(e, ast.List) and e.elts else self.expr(e.elt, f, cls, env) if isinstance(e, ast.ListComp) else None
            return ("list", k)
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ("dict", None)
        if isinstance(e, (ast.Set, ast.SetComp)):
            return ("set", None)
        if isinstance(e, ast.Name):
            a = f.node.args
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                if p.arg == e.id:
                    return self.ann(m, p.annotation)
            vs = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id]
            st = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store)]
            if len(vs) == len(st) == 1 and not any(isinstance(n, ast.Name) and n.id == e.id for n in ast.walk(vs[0])):
                return self.expr(vs[0], f, cls, env)
            return None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.node.args.args and e.value.id == f.node.args.args[0].arg and cls is not None:
            return self.field(cls, e.attr)
        if isinstance(e, ast.Call):
            r = self.prog.resolve_expr(m, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if isinstance(r, Class):
                return ("inst", r)
            if isinstance(r, Func):
                return self.returned(r, f, cls, e, env)
            if r in ("int", "float", "str", "bool", "len", "abs", "round", "sum", "min", "max", "math.log", "math.exp", "math.sqrt"):
                return IMM
            if r in ("copy.deepcopy", "copy.copy") and e.args:
                return self.expr(e.args[0], f, cls, env)
            if r in ("list", "sorted"):
                k = self.expr(e.args[0], f, cls, env) if e.args else None
                return ("list", k[1] if k and len(k) > 1 else None)
            if r == "tuple":
                k = self.expr(e.args[0], f, cls, env) if e.args else None
                k = k[1] if k and len(k) > 1 else None
                return IMM if k == IMM else ("tuple", k)
            if r in ("set",):
                return ("set", None)
            if r in ("dict", "collections.defaultdict", "defaultdict"):
                return ("dict", None)
            if r in ("numpy.array", "numpy.zeros", "numpy.ones", "numpy.arange", "numpy.asarray"):
                return ("nd",)
            if r in ("numpy.random.default_rng",):
                return ("rng",)
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and cls is not None and f.node.args.args and e.func.value.id == f.node.args.args[0].arg:
                g = cls.find(e.func.attr)
                if g is not None:
                    return self.returned(g, f, cls, e, env)
        return None


class Frame:
    def __init__(self, func, cls, self_objs):
        self.func, self.cls, self.self_objs = func, cls, self_objs
        self.ret, self.yields = NOTHING, None


class Alias:
    MAXDEPTH = 14

    def __init__(self, prog, exempt=()):
        self.prog, self.kinds = prog, Kinds(prog)
        self.exempt_classes = exempt
        self.heap, self.htaint, self.children, self.sites = {}, {}, {}, {}
        self.writes = {}
        self.fields = {}
        self.stack, self.frames = [], []
        self.pc = []
        self.memo, self.version = {}, 0
        self.visited = set()
        self.draws = {}

    # ---- objects
    def exempt(self, kind):
        if kind is None:
            return False
        if kind[0] in ("rng", "file"):
            return True
        return kind[0] == "inst" and any(kind[1].is_sub(c) for c in self.exempt_classes)

    def param(self, root, kind, path=""):
        if kind == IMM or kind is not None and kind[0] == "class":
            if kind != IMM:
                o = self.fnobj(("class", kind[1], True))
                return Val({o}, {"arg:" + root})
            return Val((), {"arg:" + root})
        key = (root, path)
        if key not in self.children:
            self.children[key] = Obj(root, path, kind, exempt=self.exempt(kind))
        return Val({self.children[key]}, {"arg:" + root} if root != "self" else ())

    def fnobj(self, fn):
        k = ("fn",) + tuple(id(x) if not isinstance(x, (str, bool)) else x for x in fn)
        if k not in self.sites:
            o = Obj(None, "", IMM)
            o.fn = fn
            self.sites[k] = o
        return self.sites[k]

    def alloc(self, node, kind, tag=""):
        k = (id(node), tag, tuple(id(f.func.node) for f in self.frames[-3:]))
        if k not in self.sites:
            self.sites[k] = Obj(None, "", kind, node)
        return self.sites[k]

    def glob(self, name, kind):
        k = ("global", name)
        if k not in self.children:
            self.children[k] = Obj("global " + name, "", kind, exempt=self.exempt(kind))
        return self.children[k]

    def child_kind(self, o, field):
        k = o.kind
        if k is None:
            return None
        if field == "*":
            if k[0] in ("list", "iter", "tuple", "dict", "set"):
                return k[1]
            if k[0] == "nd":
                return IMM
            if k[0] == "inst" and k[1].is_namedtuple:
                return None
            return None
        if k[0] == "inst":
            return self.kinds.field(k[1], field)
        return None

    def get(self, o, field):
        out = set(self.heap.get((o, field), ()))
        if field != "*" and o.kind is not None and o.kind[0] not in ("inst",):
            out |= self.heap.get((o, "*"), set()) if o.root is None else set()
        for s in o.src:
            out |= self.get(s, field)
        if o.root is not None:
            ck = self.child_kind(o, field)
            if ck == IMM:
                return out
            if ck is not None and ck[0] == "class":
                out.add(self.fnobj(("class", ck[1], True)))
                return out
            key = (o, field)
            if key not in self.children:
                if o.path.count(".") + o.path.count("[") >= 5:
                    self.children[key] = o
                else:
                    self.children[key] = Obj(o.root, o.path + ("[]" if field == "*" else "." + field), ck, exempt=o.exempt or self.exempt(ck), parent=o)
            out.add(self.children[key])
        return out

    def put(self, o, field, v):
        if o.fn is not None:
            return
        cur = self.heap.setdefault((o, field), set())
        self.fields.setdefault(o, set()).add(field)
        n = len(cur)
        cur |= v.objs
        ct = self.htaint.setdefault((o, field), set())
        m = len(ct)
        ct |= v.taint
        if len(cur) != n or len(ct) != m:
            self.version += 1

    def deep(self, objs, limit=400):
        """objects reachable from objs without creating symbolic children"""
        seen, st = set(), list(objs)
        while st and len(seen) < limit:
            o = st.pop()
            if o in seen:
                continue
            seen.add(o)
            for f in self.fields.get(o, ()):
                st.extend(self.heap[(o, f)])
            st.extend(o.src)
        return seen

    def vtaint(self, v):
        """taint of the value and of what it contains"""
        t = set(v.taint)
        if v.objs:
            for o in self.deep(v.objs):
                for f in self.fields.get(o, ()):
                    t |= self.htaint[(o, f)]
        return frozenset(t)

    def write(self, objs, field, v, node, op, key=None):
        fr = self.frames[-1]
        tn = self.vtaint(v)
        for o in objs:
            if o.fn is not None:
                continue
            own, owner, via, x = None, None, None, o
            while x is not None and own is None:
                if x.kind and x.kind[0] == "inst":
                    via = next((f.func for f in self.frames if x in f.self_objs), None)
                    if via is not None:
                        own, owner = x.kind[1], x
                x = x.parent
            k = (o, field, id(node), op)
            w = self.writes.get(k)
            pc = tuple(self.pc)
            if w is None:
                w = self.writes[k] = Write(o, field, tn, pc, node, fr.func, op, own, key)
            else:
                w.taint = w.taint | tn
                w.pcs.add(pc)
                w.own = w.own and own
            w.via.add((owner, via))

    # ---- entry points
    def run(self, thunk, rounds=4):
        v = NOTHING
        for _ in range(rounds):
            n = self.version
            self.memo = {}
            v = v | thunk()
            if self.version == n:
                break
        return v

    def invoke(self, f, self_val, args, dyn=None):
        """call a repo function with values by name"""
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if self_val is not None and names:
            env[names[0]] = self_val
        for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            if p.arg in args:
                env[p.arg] = args[p.arg]
        return self.body(f, env, dyn or f.cls, self_val)

    def symbolic(self, f, skip=1, prefix=""):
        a = f.node.args
        ps = a.posonlyargs + a.args
        out = {}
        for p in ps[skip:] + a.kwonlyargs:
            k = self.kinds.ann(f.module, p.annotation)
            if k is None and p.annotation is None:
                k = default_kind(f, p.arg)
            out[p.arg] = self.param(prefix + p.arg, k)
        if a.vararg:
            out[a.vararg.arg] = self.param(prefix + a.vararg.arg, ("tuple", self.kinds.ann(f.module, a.vararg.annotation)))
        if a.kwarg:
            out[a.kwarg.arg] = self.param(prefix + a.kwarg.arg, ("dict", self.kinds.ann(f.module, a.kwarg.annotation)))
        return out

    # ---- functions
    def body(self, f, env, dyn, self_val, closure=None):
        node = f.node
        self_objs = self_val.objs if self_val is not None else frozenset()
        pcs = frozenset(x for p in self.pc for x in p)
        key = (id(node), tuple(sorted((k, v) for k, v in env.items() if True) if False else sorted(((k, hash(v)) for k, v in env.items()))), self_objs, pcs)
        if key in self.memo:
            return self.memo[key]
        if len(self.frames) > self.MAXDEPTH or sum(1 for g in self.frames if g.func.node is node) >= 2:
            return NOTHING
        self.memo[key] = NOTHING
        self.visited.add(f.qual)
        a = node.args
        pos = a.posonlyargs + a.args
        full = dict(closure or {})
        fr = Frame(f, dyn, self_objs)
        self.frames.append(fr)
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg not in env:
                env[p.arg] = self.default(f, p.arg, d)
        for p in pos + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            full[p.arg] = env.get(p.arg, NOTHING)
        npc = len(self.pc)
        if isinstance(node, ast.Lambda):
            fr.ret = self.ev(node.body, full)
        else:
            self.block(node.body, full)
        del self.pc[npc:]
        self.frames.pop()
        r = fr.ret
        if fr.yields is not None:
            o = self.alloc(node, ("iter", None), "yield")
            self.put(o, "*", fr.yields)
            r = Val({o}, fr.yields.taint)
        self.memo[key] = r
        return r

    def default(self, f, name, d):
        k = None
        if isinstance(d, ast.List):
            k = ("list", None)
        elif isinstance(d, (ast.Dict, ast.DictComp)):
            k = ("dict", None)
        elif isinstance(d, (ast.Set, ast.ListComp)):
            k = ("list", None)
        elif isinstance(d, ast.Call) and self.prog.resolve_expr(f.module, d.func) in ("dict", "list", "set"):
            k = (self.prog.resolve_expr(f.module, d.func), None)
        if k is None:
            return self.ev(d, {}) if isinstance(d, ast.Lambda) else NOTHING
        key = ("default", f.qual, name)
        if key not in self.children:
            self.children[key] = Obj("default %s(%s)" % (f.qual, name), "", k)
        return Val({self.children[key]})

    # ---- statements
    def block(self, stmts, env):
        """True when control does not fall through"""
        for s in stmts:
            if self.stmt(s, env):
                return True
        return False

    def join(self, env, a, b):
        for k in set(a) | set(b):
            env[k] = a.get(k, NOTHING) | b.get(k, NOTHING)

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for tg in s.targets:
                self.assign(tg, v, env, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s)
        elif isinstance(s, ast.AugAssign):
            self.aug(s, env)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.frames[-1].ret = self.frames[-1].ret | self.ev(s.value, env)
            return True
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, env)
            return True
        elif isinstance(s, (ast.Break, ast.Continue)):
            return False
        elif isinstance(s, ast.If):
            t = self.ev(s.test, env)
            n = len(self.pc)
            g = self.vtaint(t)
            self.pc.append(g)
            a, b = dict(env), dict(env)
            ra = self.block(s.body, a)
            del self.pc[n + 1:]
            rb = self.block(s.orelse, b)
            del self.pc[n:]
            if ra and rb:
                return True
            if ra or rb:
                env.clear()
                env.update(b if ra else a)
                self.pc.append(g)
            else:
                self.join(env, a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            el = self.elements(it, s)
            n = len(self.pc)
            self.pc.append(self.vtaint(it))
            for _ in range(2):
                a = dict(env)
                self.assign(s.target, el, a, s)
                self.block(s.body, a)
                self.join(env, env, a)
                del self.pc[n + 1:]
            del self.pc[n:]
            self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            n = len(self.pc)
            for _ in range(2):
                t = self.ev(s.test, env)
                self.pc.append(self.vtaint(t))
                a = dict(env)
                self.block(s.body, a)
                self.join(env, env, a)
                del self.pc[n:]
            self.block(s.orelse, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, s)
            return self.block(s.body, env)
        elif isinstance(s, ast.Try):
            a = dict(env)
            r = self.block(s.body, a)
            outs = []
            if not r:
                r = self.block(s.orelse, a)
            if not r:
                outs.append(a)
            for h in s.handlers:
                b = dict(env)
                self.join(b, b, a)
                if not self.block(h.body, b):
                    outs.append(b)
            if not outs:
                self.block(s.finalbody, dict(a))
                return True
            env.clear()
            for o in outs:
                self.join(env, env, o)
            return self.block(s.finalbody, env)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env[s.name] = Val({self.fnobj(("local", s, env, self.frames[-1]))})
        elif isinstance(s, ast.Delete):
            for tg in s.targets:
                if isinstance(tg, ast.Subscript):
                    b = self.ev(tg.value, env)
                    self.write(b.objs, "*", self.ev(tg.slice, env), tg, "del")
                elif isinstance(tg, ast.Attribute):
                    self.write(self.ev(tg.value, env).objs, tg.attr, NOTHING, tg, "del")
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        elif isinstance(s, ast.Match):
            self.ev(s.subject, env)
            outs = [dict(env)]
            for c in s.cases:
                b = dict(env)
                if not self.block(c.body, b):
                    outs.append(b)
            for o in outs:
                self.join(env, env, o)
        return False

    def assign(self, tg, v, env, s):
        if isinstance(tg, ast.Name):
            env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            el = self.elements(v, s)
            parts = None
            if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(tg.elts) and tg in s.targets and not any(isinstance(x, ast.Starred) for x in list(tg.elts) + list(s.value.elts)):
                parts = [self.ev(x, env) for x in s.value.elts]
            for i, x in enumerate(tg.elts):
                self.assign(x.value if isinstance(x, ast.Starred) else x, parts[i] if parts else el, env, None)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, env)
            self.write(b.objs, tg.attr, Val((), v.taint) if s is not None and empty(getattr(s, "value", None)) else v, tg, "=")
            for o in b.objs:
                st = o.kind[1].find_setter(tg.attr) if o.kind and o.kind[0] == "inst" else None
                if st is not None:
                    self.body(st, {st.params()[0]: Val({o}), st.params()[1]: v}, o.kind[1], Val({o}))
                else:
                    self.put(o, tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, env)
            k = self.ev(tg.slice, env)
            self.write(b.objs, "*", Val(v.objs, v.taint | k.taint), tg, "[]=", key=(tg.slice, k))
            for o in b.objs:
                self.put(o, "*", v)

    def aug(self, s, env):
        v = self.ev(s.value, env)
        if isinstance(s.target, ast.Name):
            cur = self.ev(ast.Name(s.target.id, ast.Load()), env)
            ms = [o for o in cur.objs if o.kind is not None and o.kind[0] in ("list", "nd", "dict", "set", "iter")]
            if any(o.kind and o.kind[0] in ("list", "tuple", "iter") for o in v.objs):
                ms += [o for o in cur.objs if o.kind is None]
            self.write(ms, "*", v, s, "augmented")
            for o in ms:
                for x in v.objs:
                    self.put(o, "*", Val(self.get(x, "*"), v.taint))
            env[s.target.id] = cur | Val((), v.taint) if ms else Val(cur.objs if any(o.kind is None for o in cur.objs) else (), cur.taint | v.taint)
        elif isinstance(s.target, ast.Attribute):
            b = self.ev(s.target.value, env)
            cur = self.ev(ast.copy_location(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target), env)
            self.write(b.objs, s.target.attr, cur | v, s, "augmented")
            ms = [o for o in cur.objs if o.kind is not None and o.kind[0] in ("list", "nd", "dict", "set", "iter")]
            self.write(ms, "*", v, s, "augmented")
            for o in b.objs:
                self.put(o, s.target.attr, Val((), v.taint | cur.taint))
            for o in ms:
                for x in v.objs:
                    self.put(o, "*", Val(self.get(x, "*"), v.taint))
        elif isinstance(s.target, ast.Subscript):
            b = self.ev(s.target.value, env)
            k = self.ev(s.target.slice, env)
            self.write(b.objs, "*", Val(v.objs, v.taint | k.taint | b.taint), s, "augmented")
            for o in b.objs:
                self.put(o, "*", Val((), v.taint))
                for x in self.get(o, "*"):
                    if x.kind is not None and x.kind[0] in ("list", "nd", "dict", "set"):
                        self.write([x], "*", v, s, "augmented")

    # ---- expressions
    def elements(self, v, node):
        out = set()
        tn = set(v.taint)
        for o in v.objs:
            if o.kind is not None and o.kind[0] == "dict" and False:
                continue
            out |= self.get(o, "*")
            tn |= self.htaint.get((o, "*"), set())
            if o.kind and o.kind[0] == "inst":
                if o.kind[1].is_namedtuple:
                    for c in o.kind[1].field_order:
                        out |= self.get(o, c)
                f = o.kind[1].find("__iter__")
                if f is not None:
                    r = self.body(f, {f.params()[0]: Val({o})}, o.kind[1], Val({o}))
                    for x in r.objs:
                        out |= self.get(x, "*")
        return Val(out, tn)

    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        v = NOTHING
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                v = v | Val((), self.vtaint(self.ev(c, env)))
        return v

    def e_Constant(self, e, env):
        return NOTHING

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        fr = self.frames[-1]
        r = self.prog.resolve_expr(fr.func.module, e)
        return self.entity(r)

    def entity(self, r):
        if isinstance(r, Func):
            return Val({self.fnobj(("func", r))})
        if isinstance(r, Class):
            return Val({self.fnobj(("class", r, False))})
        if isinstance(r, tuple) and r and r[0] == "assign":
            _, m, name = r
            vs = m.assigns[name]
            k = None
            x = vs[-1]
            if isinstance(x, (ast.List, ast.ListComp)):
                k = ("list", None)
            elif isinstance(x, (ast.Dict, ast.DictComp)):
                k = ("dict", None)
            elif isinstance(x, ast.Set):
                k = ("set", None)
            elif isinstance(x, ast.Call):
                c = self.prog.resolve_expr(m, x.func) if isinstance(x.func, (ast.Name, ast.Attribute)) else None
                if c in ("dict", "list", "set", "collections.defaultdict", "collections.OrderedDict", "collections.Counter"):
                    k = ("dict" if c not in ("list", "set") else c, None)
                elif isinstance(c, Class):
                    k = ("inst", c)
                elif c in ("numpy.random.default_rng", "numpy.random.RandomState"):
                    k = ("rng",)
                elif c in ("numpy.array", "numpy.zeros", "numpy.ones"):
                    k = ("nd",)
            if k is not None:
                o = self.glob(m.name + "." + name, k)
                if isinstance(x, ast.Dict) and not (o, "*") in self.heap:
                    for y in x.values:
                        z = self.prog.resolve_expr(m, y) if isinstance(y, (ast.Name, ast.Attribute)) else None
                        if isinstance(z, (Class, Func)):
                            self.put(o, "*", self.entity(z))
                return Val({o})
        return NOTHING

    def e_Attribute(self, e, env):
        dn = self.dotted(e, env)
        if dn is not None:
            return self.entity(dn) if not isinstance(dn, str) else NOTHING
        b = self.ev(e.value, env)
        return self.attr(b, e.attr, e)

    def dotted(self, e, env):
        """entity an attribute chain rooted at a module-level name denotes"""
        r = e
        while isinstance(r, ast.Attribute):
            r = r.value
        if not isinstance(r, ast.Name) or r.id in env:
            return None
        x = self.prog.resolve_expr(self.frames[-1].func.module, e)
        root = self.prog.resolve_expr(self.frames[-1].func.module, r)
        if isinstance(root, tuple) and root and root[0] == "assign":
            return None
        if isinstance(root, Class) and not isinstance(x, (Func, Class)):
            return None
        return x if x is not None else "?"

    def attr(self, b, name, node):
        out, tn = set(), set(b.taint)
        for o in b.objs:
            if o.fn is not None:
                if o.fn[0] == "class":
                    f = o.fn[1].find(name)
                    if f is not None:
                        out.add(self.fnobj(("func", f)) if f.kind == "staticmethod" else self.fnobj(("bound", f, o)))
                    else:
                        out |= self.classattr(o.fn[1], name)
                continue
            if o.root == "self":
                tn.add("self:" + (o.path + "." + name).lstrip("."))
            if o.kind and o.kind[0] == "inst":
                found = False
                for f in self.dispatch(o, name):
                    found = True
                    if f.kind == "property":
                        r = self.body(f, {f.params()[0]: Val({o})}, o.kind[1], Val({o}))
                        out |= r.objs
                        tn |= r.taint
                    elif f.kind == "staticmethod":
                        out.add(self.fnobj(("func", f)))
                    else:
                        out.add(self.fnobj(("bound", f, o)))
                if found:
                    continue
                if name not in inst_fields(o.kind[1]) and not o.kind[1].is_namedtuple:
                    out |= self.classattr(o.kind[1], name)
            elif o.kind and o.kind[0] == "nd":
                if name in ("T", "real", "flat"):
                    out.add(o)
                continue
            out |= self.get(o, name)
            tn |= self.htaint.get((o, name), set())
        return Val(out, tn)

    def classattr(self, cls, name):
        ca = cls.class_attr(name)
        if ca is None:
            return set()
        c, x = ca
        k = {ast.List: ("list", None), ast.Dict: ("dict", None), ast.Set: ("set", None)}.get(type(x))
        if k is None and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("dict", "list", "set"):
            k = (x.func.id, None)
        return {self.glob(c.qual + "." + name, k)} if k else set()

    def dispatch(self, o, name):
        cls = o.kind[1]
        f = cls.find(name)
        out = [f] if f is not None else []
        if o.root is not None:
            if o.root == "self" and o.path == "":
                return out
            for c in self.prog.subclasses(cls):
                g = c.methods.get(name)
                if g is not None and g not in out:
                    out.append(g)
        return out

    def e_Subscript(self, e, env):
        b = self.ev(e.value, env)
        k = self.ev(e.slice, env)
        if isinstance(e.slice, ast.Slice):
            out = set()
            for o in b.objs:
                if o.kind and o.kind[0] == "nd":
                    out.add(o)
                else:
                    n = self.alloc(e, ("list", None))
                    self.put(n, "*", Val(self.get(o, "*"), self.htaint.get((o, "*"), set())))
                    out.add(n)
            return Val(out, b.taint | k.taint)
        el = self.elements(b, e)
        extra = {o for o in b.objs if o.kind and o.kind[0] == "nd"}
        return Val(el.objs | extra, el.taint | k.taint)

    def e_List(self, e, env):
        o = self.alloc(e, ("tuple" if isinstance(e, ast.Tuple) else "set" if isinstance(e, ast.Set) else "list", None))
        tn = set()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.elements(self.ev(x.value, env), e)
            else:
                v = self.ev(x, env)
            tn |= self.vtaint(v)
            self.put(o, "*", v)
        return Val({o}, tn)

    e_Tuple = e_List
    e_Set = e_List

    def e_Dict(self, e, env):
        o = self.alloc(e, ("dict", None))
        tn = set()
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, env)
            if k is None:
                v = self.elements(v, e)
            else:
                tn |= self.ev(k, env).taint
            tn |= self.vtaint(v)
            self.put(o, "*", v)
        return Val({o}, tn)

    def comp(self, e, env, elts, kind):
        env = dict(env)
        n = len(self.pc)
        tn = set()
        for g in e.generators:
            it = self.ev(g.iter, env)
            self.assign(g.target, self.elements(it, g), env, None)
            tn |= self.vtaint(it)
            for i in g.ifs:
                tn |= self.vtaint(self.ev(i, env))
            self.pc.append(frozenset(tn))
        o = self.alloc(e, (kind, None))
        for x in elts:
            v = self.ev(x, env)
            self.put(o, "*", v)
            tn |= self.vtaint(v)
        del self.pc[n:]
        return Val({o}, tn)

    def e_ListComp(self, e, env):
        return self.comp(e, env, [e.elt], "list")

    def e_SetComp(self, e, env):
        return self.comp(e, env, [e.elt], "set")

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, [e.elt], "iter")

    def e_DictComp(self, e, env):
        return self.comp(e, env, [e.key, e.value], "dict")

    def e_Lambda(self, e, env):
        return Val({self.fnobj(("local", e, env, self.frames[-1] if self.frames else None))})

    def e_IfExp(self, e, env):
        t = self.ev(e.test, env)
        self.pc.append(self.vtaint(t))
        v = self.ev(e.body, env) | self.ev(e.orelse, env)
        self.pc.pop()
        return Val(v.objs, v.taint | self.vtaint(t))

    def e_BoolOp(self, e, env):
        v = NOTHING
        n = len(self.pc)
        for x in e.values:
            y = self.ev(x, env)
            v = v | y
            self.pc.append(self.vtaint(y))
        del self.pc[n:]
        return v

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        tn = self.vtaint(a) | self.vtaint(b)
        if isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr)):
            ls = [o for o in a.objs | b.objs if o.kind and o.kind[0] in ("list", "tuple", "iter", "dict", "set")]
            if ls:
                n = self.alloc(e, (ls[0].kind[0], None))
                for o in ls:
                    self.put(n, "*", Val(self.get(o, "*"), self.htaint.get((o, "*"), set())))
                return Val({n}, tn)
        return Val((), tn)

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else NOTHING
        fr = self.frames[-1]
        fr.yields = v if fr.yields is None else fr.yields | v
        return NOTHING

    def e_YieldFrom(self, e, env):
        v = self.elements(self.ev(e.value, env), e)
        fr = self.frames[-1]
        fr.yields = v if fr.yields is None else fr.yields | v
        return NOTHING

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Starred(self, e, env):
        return self.elements(self.ev(e.value, env), e)

    # ---- calls
    def args(self, e, env):
        pos, star, kw, dstar = [], NOTHING, {}, None
        for x in e.args:
            if isinstance(x, ast.Starred):
                star = star | self.elements(self.ev(x.value, env), e)
                pos.append(None)
            else:
                pos.append(self.ev(x, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                dstar = (dstar or NOTHING) | self.elements(v, e)
            else:
                kw[k.arg] = v
        return pos, star, kw, dstar

    def e_Call(self, e, env):
        fx = e.func
        pos, star, kw, dstar = A = self.args(e, env)
        allv = NOTHING
        for v in [p for p in pos if p is not None] + [star] + list(kw.values()) + ([dstar] if dstar else []):
            allv = allv | v
        # super()
        if isinstance(fx, ast.Attribute) and isinstance(fx.value, ast.Call) and isinstance(fx.value.func, ast.Name) and fx.value.func.id == "super":
            fr = self.frames[-1]
            if fr.func.cls is not None and fr.cls is not None:
                g = fr.cls.find_after(fr.func.cls, fx.attr)
                if g is not None:
                    return self.call_repo(g, Val(fr.self_objs), A, fr.cls, e)
            return NOTHING
        ext = None
        if isinstance(fx, ast.Name) and fx.id not in env:
            r = self.prog.resolve_expr(self.frames[-1].func.module, fx)
            ext = r if isinstance(r, str) else None
        elif isinstance(fx, ast.Attribute):
            r = self.dotted(fx, env)
            ext = r if isinstance(r, str) else None
        if ext is not None:
            return self.external(ext, e, env, A, allv)
        if isinstance(fx, ast.Attribute) and self.dotted(fx, env) is None:
            b = self.ev(fx.value, env)
            return self.method(b, fx.attr, e, A, allv)
        f = self.ev(fx, env)
        return self.apply(f, e, A, allv)

    def apply(self, f, e, A, allv):
        out = Val((), f.taint)
        known = False
        for o in f.objs:
            if o.fn is not None:
                known = True
                out = out | self.call_fn(o.fn, A, e)
            elif o.kind and o.kind[0] == "inst":
                for g in self.dispatch(o, "__call__"):
                    known = True
                    out = out | self.call_repo(g, Val({o}), A, o.kind[1], e)
        if not known:
            self.callbacks(allv)
            out = out | Val((), self.vtaint(allv))
        return out

    def call_fn(self, fn, A, e):
        if fn[0] == "func":
            return self.call_repo(fn[1], None, A, fn[1].cls, e)
        if fn[0] == "bound":
            f, o = fn[1], fn[2]
            cls = o.fn[1] if o.fn is not None else o.kind[1] if o.kind and o.kind[0] == "inst" else f.cls
            if o.fn is not None and f.kind == "method":
                return self.call_repo(f, None, A, cls, e)      # Class.method(obj, ...)
            return self.call_repo(f, Val({o}), A, cls, e)
        if fn[0] == "class":
            return self.construct(fn[1], A, e, fn[2])
        if fn[0] == "local":
            _, node, env, fr = fn
            f = Func("%s.<local>" % (fr.func.qual if fr else "?"), node, (fr or self.frames[-1]).func.module)
            if fr is not None:
                f.cls = None
            args = self.bind(f, None, A)
            cl = dict(env)
            for n in bound_names(node):
                cl.pop(n, None)
            if fr is not None:
                # names the closure uses
                return self.body(f, args, fr.cls, Val(fr.self_objs), closure=cl)
            return self.body(f, args, None, None, closure=cl)
        return NOTHING

    def construct(self, cls, A, e, sub):
        cs = [cls]
        if sub:
            cs += [c for c in self.prog.subclasses(cls)]
        out = set()
        for c in cs:
            o = self.alloc(e, ("inst", c), c.qual)
            init = c.find("__init__")
            if init is not None:
                self.call_repo(init, Val({o}), A, c, e)
            else:
                order = []
                for b in reversed(c.mro()):
                    order += [x for x in b.field_order if x not in order]
                pos, star, kw, dstar = A
                for n, v in zip(order, pos):
                    if v is not None:
                        self.put(o, n, v)
                for n, v in kw.items():
                    self.put(o, n, v)
                for n in order:
                    if star is not NOTHING:
                        self.put(o, n, star)
                    if dstar is not None:
                        self.put(o, n, dstar)
                pi = c.find("__post_init__")
                if pi is not None:
                    self.call_repo(pi, Val({o}), ([], NOTHING, {}, None), c, e)
            out.add(o)
        return Val(out, ())

    def bind(self, f, self_val, A):
        pos, star, kw, dstar = A
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        i = 0
        if self_val is not None and names and f.kind in ("method", "property", "classmethod", "setter"):
            env[names[0]] = self_val
            i = 1
        starred = False
        for v in pos:
            if v is None:
                starred = True
                for n in names[i:]:
                    env[n] = env.get(n, NOTHING) | star
                if a.vararg:
                    env[a.vararg.arg] = self.rest(f, a.vararg.arg, star)
                continue
            if starred:
                for n in names[i:]:
                    env[n] = env.get(n, NOTHING) | v
            elif i < len(names):
                env[names[i]] = v
                i += 1
            elif a.vararg:
                env[a.vararg.arg] = self.rest(f, a.vararg.arg, v)
        allnames = set(names) | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in allnames:
                env[k] = v
            elif a.kwarg:
                env[a.kwarg.arg] = self.rest(f, a.kwarg.arg, v)
        if dstar is not None:
            for n in allnames - set(env):
                d = self.paramdefault(f, n)
                env[n] = dstar | d if d is not None else dstar
            if a.kwarg:
                env[a.kwarg.arg] = self.rest(f, a.kwarg.arg, dstar)
        return env

    def paramdefault(self, f, n):
        a = f.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg == n:
                return self.default(f, n, d)
        return None

    def rest(self, f, name, v):
        k = (id(f.node), name, "rest", tuple(id(x.func.node) for x in self.frames[-3:]))
        if k not in self.sites:
            self.sites[k] = Obj(None, "", ("list", None))
        o = self.sites[k]
        self.put(o, "*", v)
        return Val({o}, v.taint)

    def call_repo(self, f, self_val, A, dyn, e):
        env = self.bind(f, self_val, A)
        if self_val is None and f.kind == "method" and f.params() and f.params()[0] in env:
            self_val = env[f.params()[0]]
        if f.kind == "classmethod":
            p = f.params()[0]
            if p not in env or True:
                env = self.bind(f, Val({self.fnobj(("class", dyn or f.cls, False))}), A)
            self_val = None
        kinds = f.node.args
        return self.body(f, env, dyn, self_val)

    def callbacks(self, v):
        """functions handed to code outside the repository may be called with anything"""
        for o in v.objs:
            if o.fn is not None and o.fn[0] in ("local", "func", "bound"):
                node = o.fn[1] if o.fn[0] == "local" else o.fn[1].node
                n = len(node.args.args)
                x = Val((), v.taint | frozenset(["lib"]))
                self.call_fn(o.fn, ([x] * (n - (1 if o.fn[0] == "bound" else 0)), NOTHING, {}, None), node)

    def fresh(self, node, kind, v, tag=""):
        n = self.alloc(node, kind, tag)
        self.put(n, "*", v)
        return Val({n}, v.taint)

    def clone(self, o, node, memo, depth=0):
        """deep copy: fresh objects with the same shape"""
        if o.fn is not None:
            return o
        if o in memo:
            return memo[o]
        n = self.alloc(node, o.kind, "clone%s" % id(o))
        memo[o] = n
        if depth < 6:
            for f in sorted(self.fields.get(o, ())):
                xs = self.heap[(o, f)]
                self.put(n, f, Val({self.clone(x, node, memo, depth + 1) for x in xs}, self.htaint.get((o, f), ())))
            if o.root is not None and o.kind is not None and o.kind[0] in ("list", "iter", "tuple", "dict"):
                for x in self.get(o, "*"):
                    self.put(n, "*", Val({self.clone(x, node, memo, depth + 1)}))
            if o.root is not None and o.kind is not None and o.kind[0] == "inst":
                for fl in sorted(inst_fields(o.kind[1])):
                    for x in self.get(o, fl):
                        self.put(n, fl, Val({self.clone(x, node, memo, depth + 1)}))
        return n

    def external(self, name, e, env, A, allv):
        pos, star, kw, dstar = A
        a0 = pos[0] if pos and pos[0] is not None else star
        tn = self.vtaint(allv)
        if name in EXT_MUT:
            tgt = pos[EXT_MUT[name]] if len(pos) > EXT_MUT[name] and pos[EXT_MUT[name]] is not None else a0
            fld = "*"
            if name in ("setattr", "delattr"):
                fld = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else "?"
            self.write(tgt.objs, fld, Val((), tn), e, name)
            if name == "setattr" and len(pos) > 2 and pos[2] is not None:
                for o in tgt.objs:
                    self.put(o, fld, pos[2])
            return NOTHING
        if "out" in kw:
            self.write(kw["out"].objs, "*", Val((), tn), e, "out=")
        if name.startswith("numpy.random.") and name.split(".")[-1] in DRAWS or name.startswith("random.") and name.split(".")[-1] in DRAWS:
            self.draws[id(e)] = (name, e, self.frames[-1].func)
        if name == "copy.deepcopy":
            memo = {}
            return Val({self.clone(o, e, memo) for o in a0.objs}, a0.taint)
        if name == "getattr" and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
            v = self.attr(a0, e.args[1].value, e)
            return v | pos[2] if len(pos) > 2 and pos[2] is not None else v
        if name == "hasattr" and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
            ts = {"self:" + (o.path + "." + e.args[1].value).lstrip(".") for o in a0.objs if o.root == "self"}
            return Val((), a0.taint | ts)
        if name in ("vars",):
            return Val(a0.objs, a0.taint)
        if name in ("numpy.array", "numpy.copy", "numpy.sort"):
            cp = kw.get("copy")
            if any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                return self.view(a0, e, tn)
            n = self.alloc(e, ("nd",))
            objs = [x for o in a0.objs for x in self.get(o, "*") if x.kind and x.kind[0] == "inst"]
            if objs:
                self.put(n, "*", Val(objs))
            return Val({n}, tn)
        if name in VIEWS:
            return self.view(a0, e, tn)
        if name.startswith("numpy.") and name.split(".")[-1] in ("zeros", "ones", "empty", "full", "arange", "linspace", "concatenate", "cumsum", "zeros_like", "ones_like", "stack", "vstack", "hstack", "outer", "dot", "exp", "log", "maximum", "minimum"):
            return Val({self.alloc(e, ("nd",))}, tn)
        if name in SHALLOW:
            k = SHALLOW[name]
            srcs = [p for p in pos if p is not None] + [star]
            if name == "filter":
                self.callbacks(a0)
                srcs = srcs[1:]
            if "key" in kw:
                self.key_call(kw["key"], srcs, e)
            n = self.alloc(e, (k, None) if k else None)
            if k is None and a0.objs:
                ks = {o.kind for o in a0.objs}
                n.kind = ks.pop() if len(ks) == 1 else None
                n.src = tuple(o for o in a0.objs if o is not n)
            for s in srcs:
                v = self.elements(s, e)
                if name == "itertools.chain.from_iterable":
                    v = self.elements(v, e)
                self.put(n, "*", v)
            return Val({n}, tn)
        if name == "dict" or name in ("collections.OrderedDict", "collections.defaultdict", "collections.Counter"):
            n = self.alloc(e, ("dict", None))
            for s in [p for p in pos if p is not None]:
                v = self.elements(s, e)
                self.put(n, "*", v)
                for o in v.objs:
                    if o.kind and o.kind[0] in ("tuple", "iter"):
                        self.put(n, "*", Val(self.get(o, "*")))
            for v in kw.values():
                self.put(n, "*", v)
            if dstar is not None:
                self.put(n, "*", dstar)
            return Val({n}, tn)
        if name in PAIRS:
            n = self.alloc(e, ("iter", None))
            p = self.alloc(e, ("tuple", None), "pair")
            for s in [x for x in pos if x is not None]:
                self.put(p, "*", self.elements(s, e))
            if star is not NOTHING:
                for o in star.objs:
                    self.put(p, "*", Val(self.get(o, "*")))
            self.put(n, "*", Val({p}))
            return Val({n}, tn)
        if name == "map":
            el = NOTHING
            argv = [self.elements(p, e) for p in pos[1:] if p is not None]
            r = self.apply(a0, e, (argv, NOTHING, {}, None), allv)
            n = self.alloc(e, ("iter", None))
            self.put(n, "*", r)
            return Val({n}, tn)
        if name in PICK:
            out = set()
            if "key" in kw:
                self.key_call(kw["key"], [p for p in pos if p is not None], e)
            for s in [p for p in pos if p is not None]:
                out |= self.elements(s, e).objs
                if len(pos) > 1:
                    out |= s.objs
            return Val(out, tn)
        if name == "functools.partial":
            return Val({self.fnobj(("partial", e))} | a0.objs, tn)
        self.callbacks(allv)
        for k in kw.values():
            self.callbacks(k)
        for o in allv.objs:
            if o.kind and o.kind[0] in ("list", "tuple", "iter", "dict"):
                self.callbacks(Val(self.heap.get((o, "*"), ())))
        return Val((), tn)

    def key_call(self, key, srcs, e):
        for s in srcs:
            self.apply(key, e, ([self.elements(s, e)], NOTHING, {}, None), NOTHING)

    def view(self, v, e, tn):
        out = {o for o in v.objs if o.kind is None or o.kind[0] == "nd"}
        if not out:
            out = {self.alloc(e, ("nd",))}
        return Val(out, tn)

    def method(self, b, name, e, A, allv):
        pos, star, kw, dstar = A
        out = NOTHING
        tn = b.taint | self.vtaint(allv)
        known = False
        if not b.objs:
            self.callbacks(allv)
            return Val((), tn)
        for o in b.objs:
            if o.fn is not None:
                v = self.attr(Val({o}), name, e)
                for x in v.objs:
                    if x.fn is not None:
                        known = True
                        out = out | self.call_fn(x.fn, A, e)
                continue
            k = o.kind[0] if o.kind else None
            if k == "inst":
                fs = self.dispatch(o, name)
                if fs:
                    known = True
                    for f in fs:
                        if f.kind == "property":
                            r = self.body(f, {f.params()[0]: Val({o})}, o.kind[1], Val({o}))
                            out = out | self.apply(r, e, A, allv)
                        else:
                            out = out | self.call_repo(f, None if f.kind == "staticmethod" else Val({o}), A, o.kind[1], e)
                    continue
                if name == "_replace" and o.kind[1].is_namedtuple:
                    n = self.alloc(e, o.kind)
                    n.src = tuple({*n.src, o} - {n})
                    for kk, v in kw.items():
                        self.put(n, kk, v)
                    out = out | Val({n}, tn)
                    continue
                if name == "_asdict":
                    n = self.alloc(e, ("dict", None))
                    for fl in o.kind[1].field_order:
                        self.put(n, "*", Val(self.get(o, fl)))
                    out = out | Val({n}, tn)
                    continue
                if o.kind[1].external_bases() and name in MUTATORS:
                    self.write([o], "*", Val((), tn), e, name)
                # a callable stored in a field
                v = Val(self.get(o, name))
                if any(x.fn is not None for x in v.objs):
                    out = out | self.apply(v, e, A, allv)
                else:
                    self.callbacks(allv)
                    out = out | Val((), tn)
                if o.root == "self" and o.path == "":
                    out = out | Val((), {"self:" + name})
                continue
            if k == "rng":
                if name in DRAWS:
                    self.write([o], "*", NOTHING, e, "draw")
                if name in ("shuffle",) and pos and pos[0] is not None:
                    self.write(pos[0].objs, "*", Val((), tn), e, "shuffle")
                continue
            if k == "file":
                continue
            if name in MUTATORS:
                self.write([o], "*", Val(allv.objs, tn), e, name)
                if name in STORES:
                    for p in [x for x in pos if x is not None]:
                        if name in ("extend", "update"):
                            self.put(o, "*", self.elements(p, e))
                        else:
                            self.put(o, "*", p)
                    for v in kw.values():
                        self.put(o, "*", v)
                if name in ("pop", "setdefault", "popitem", "popleft"):
                    out = out | Val(self.get(o, "*"), tn | self.htaint.get((o, "*"), set()))
                if name == "sort" and "key" in kw:
                    self.key_call(kw["key"], [Val({o})], e)
                continue
            if name == "shuffle" and pos and pos[0] is not None:
                self.write(pos[0].objs, "*", Val((), tn), e, "shuffle")
                continue
            if any(x.arg == "inplace" and isinstance(x.value, ast.Constant) and x.value.value is True for x in e.keywords):
                self.write([o], "*", Val((), tn), e, name + "(inplace)")
            if name in ("copy", "__copy__"):
                if k == "nd":
                    out = out | Val({self.alloc(e, ("nd",))}, tn)
                else:
                    n = self.alloc(e, o.kind)
                    self.put(n, "*", Val(self.get(o, "*"), self.htaint.get((o, "*"), set())))
                    out = out | Val({n}, tn)
            elif name in ("values", "keys") and k != "nd":
                out = out | self.fresh(e, ("iter", None), Val(self.get(o, "*") if name == "values" else (), tn))
            elif name == "items":
                n = self.alloc(e, ("iter", None))
                p = self.alloc(e, ("tuple", None), "pair")
                self.put(p, "*", Val(self.get(o, "*"), self.htaint.get((o, "*"), set())))
                self.put(n, "*", Val({p}, tn))
                out = out | Val({n}, tn)
            elif name == "get":
                d = pos[1] if len(pos) > 1 and pos[1] is not None else NOTHING
                out = out | Val(self.get(o, "*"), tn | self.htaint.get((o, "*"), set())) | d
            elif name in ("reshape", "ravel", "transpose", "view", "squeeze", "swapaxes", "diagonal") and k in (None, "nd"):
                out = out | Val({o}, tn)
            else:
                out = out | Val((), tn)
                self.callbacks(allv)
        return Val(out.objs, out.taint | tn)


def empty(e):
    """an empty container literal: what it later holds is recorded where it is put in"""
    return isinstance(e, (ast.List, ast.Tuple)) and not e.elts or isinstance(e, ast.Dict) and not e.keys or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("dict", "list", "set", "defaultdict") and not any(isinstance(a, (ast.Name, ast.Attribute)) and e.func.id != "defaultdict" for a in e.args)


def default_kind(f, name):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if p.arg == name and isinstance(d, ast.Constant) and d.value is not None:
            return IMM
    return None


def inst_fields(cls):
    if not hasattr(cls, "_inst_fields"):
        cls._inst_fields = _inst_fields(cls)
    return cls._inst_fields


def _inst_fields(cls):
    out = set()
    for c in cls.mro():
        for m in list(c.methods.values()) + list(c.setters.values()):
            a = m.node.args.args
            if not a:
                continue
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == a[0].arg:
                    out.add(n.attr)
        if c.is_namedtuple or c.is_dataclass:
            out |= set(c.field_order)
    return out

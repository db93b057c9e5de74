"""Models of the Python builtins, containers and numpy operations the code uses.

`call` / `method` return the value term, or None when the operation is left
uninterpreted (an opaque but deterministic `call`/`mcall` term plus an effect).
"""
import ast
import string
from . import terms as t
from .terms import mk, const, TRUE, FALSE, NONE, ZERO, ONE, EMPTY, EMPTYDICT
from .program import Class

PURE = {
    "math.ceil", "math.floor", "math.sqrt", "math.exp", "math.log", "math.comb", "numpy.exp", "numpy.log", "numpy.sqrt", "numpy.log2",
    "math.log2", "math.pow", "hash", "id", "type", "repr", "bin", "ord", "chr", "hasattr", "numpy.isnan", "math.isnan", "divmod",
}
MUTATORS = {"numpy.fill_diagonal", "numpy.put", "numpy.place", "numpy.copyto", "numpy.putmask", "numpy.put_along_axis", "heapq.heapify", "heapq.heappush",
            "heapq.heappop", "heapq.heappushpop", "heapq.heapreplace", "random.shuffle", "numpy.random.shuffle", "bisect.insort",
            "bisect.insort_left", "bisect.insort_right", "operator.setitem", "operator.delitem", "operator.iadd", "numpy.add.at"}
MUTATORS_2ND = set()
HARMLESS = {"numpy.random.seed", "random.seed", "time.sleep", "os.makedirs", "os.chdir", "gc.collect"}
NPTRANSPARENT = {"cvxopt.matrix", "numpy.array", "numpy.asarray", "numpy.float64", "numpy.ndarray", "numpy.copy", "numpy.ravel"}


def unref(ip, x):
    return ip.val(x)


def lst(ip, x):
    from .flow import as_list
    return as_list(ip.val(x), ip)


def apply1(ip, fn, args, node):
    return ip.val(ip.apply(fn, list(args), [], node))


def map_call(ip, fn, streams, node):
    """[fn(x) for x in stream] evaluated in loop context"""
    acc = ip.newref(EMPTY)
    s = streams[0] if len(streams) == 1 else mk("zip", tuple(streams))

    def body(elem):
        args = [elem] if len(streams) == 1 else [t.item(elem, const(i)) for i in range(len(streams))]
        v = ip.val(ip.apply(fn, args, [], node))
        ip.st.store[acc] = t.concat([ip.st.store[acc], t.seq((v,))])
    ip.for_over(s, body, node)
    return ip.st.store.pop(acc)


def kwd(kw, name, default=NONE):
    for k, v in kw:
        if k == name:
            return v
    return default


def keyfun(ip, key, node):
    key = ip.val(key)
    if key is NONE:
        return NONE
    if key.op == "lam":
        return key
    k = ip.reify(key)
    if k.op == "lam":
        return k
    if key.op in ("fn", "bound", "closure"):
        # evaluate on a symbolic argument
        v = mk("lamarg", t.fresh_lv().args[0])
        ne, st = len(ip.effects), ip.st
        ip.st = st.copy()
        try:
            b = ip.val(ip.apply(key, [v], [], node))
        finally:
            ip.effects = ip.effects[:ne]
            ip.st = st
        return t.mk_lam(1, [v], b)
    if key.op == "ext":
        return key
    return k


def gen(n, f):
    l = t.fresh_lv()
    return t.mk_gen(l, n, TRUE, f(l))


def rng(a, b, s):
    if s is ONE:
        n = t.sub(b, a)
        k = t.numval(n)
        if k is None and not t.is_int(b):
            pass
        return gen(n, lambda l: t.add(a, l))
    k = t.numval(s)
    if k == -1:
        return gen(t.sub(a, b), lambda l: t.sub(a, l))
    if k is not None and t.numval(a) is not None and t.numval(b) is not None:
        return t.seq([const(x) for x in range(int(t.numval(a)), int(t.numval(b)), int(k))])
    if k is not None and k > 0:
        n = mk("call", "math.ceil", (t.div(t.sub(b, a), s),), ())
        return gen(n, lambda l: t.add(a, t.mul(s, l)))
    return mk("call", "range", (a, b, s), ())


def count_sorted(ip, S, x, right, key=NONE):
    """number of elements of sorted S that are <= x (right) or < x"""
    S0 = S
    if S.op == "gen" and S.args[2] is TRUE:
        # [e.key for e in sorted(..., key)]
        l = t.fresh_lv()
        f, e = t.open_gen(S, l)
        from .flow import sorted_source
        src = sorted_source(e, l)
        if src is None:
            return None
        c = t.le(e, x) if right else t.lt(e, x)
        return t.sum_(t.mk_gen(l, S.args[1], c, ONE))
    if S.op == "sorted" and S.args[1] is NONE and S.args[2] is FALSE:
        l = t.fresh_lv()
        e = t.item(S, l)
        c = t.le(e, x) if right else t.lt(e, x)
        return t.sum_(t.mk_gen(l, t.length(S), c, ONE))
    return None


def isarr(x):
    return x.op == "arr"


def toarr(x):
    return x if x.op == "arr" else mk("arr", x)


def elementwise(f, *xs):
    if any(x.op == "arr" or t.is_seq(x) for x in xs):
        n = None
        l = t.fresh_lv()
        ys = []
        for x in xs:
            if x.op == "arr" or t.is_seq(x):
                y = x.args[0] if x.op == "arr" else x
                if n is None:
                    n = t.length(y)
                ys.append(t.item(y, l))
            else:
                ys.append(x)
        return mk("arr", t.mk_gen(l, n, TRUE, f(*ys)))
    return None


def format_str(ip, s, args, kw):
    out, auto = [], 0
    try:
        parsed = list(string.Formatter().parse(s))
    except ValueError:
        return None
    kd = dict(kw)
    for lit, field, spec, conv in parsed:
        if lit:
            out.append(const(lit))
        if field is None:
            continue
        name = field
        rest = ""
        for i, ch in enumerate(field):
            if ch in ".[":
                name, rest = field[:i], field[i:]
                break
        if name == "":
            v = args[auto] if auto < len(args) else None
            auto += 1
        elif name.isdigit():
            v = args[int(name)] if int(name) < len(args) else None
        else:
            v = kd.get(name)
        if v is None:
            return None
        if rest:
            if rest.startswith(".") and rest[1:].isidentifier():
                v = ip.get_attr(v, rest[1:])
            elif rest.startswith("[") and rest.endswith("]"):
                k = rest[1:-1]
                v = t.item(ip.val(v), const(int(k)) if k.isdigit() else const(k))
            else:
                return None
        if conv == "r":
            out.append(mk("fmt", ip.val(v), "!r"))
        else:
            out.append(ip.to_str(v, spec or ""))
    return t.strcat(out)


def join(ip, sep, x):
    x = lst(ip, x)
    if x.op == "seq":
        parts = []
        for i, y in enumerate(x.args):
            if i and t.strval(sep) != "":
                parts.append(sep)
            parts.append(y)
        return t.strcat(parts)
    if x.op == "concat" and t.strval(sep) == "":
        return t.strcat([join(ip, sep, p) for p in x.args[0]])
    if x.op == "sorted" and False:
        pass
    return mk("join", sep, x)


def counter_of(ip, x):
    x = lst(ip, x)
    return t.scatter(EMPTYDICT, t.map_stream(x, lambda e: t.seq((e, ONE))))


def flatten_stream(x):
    """chain.from_iterable"""
    if x.op == "seq":
        return t.concat(list(x.args))
    if x.op == "concat":
        return t.concat([flatten_stream(p) for p in x.args[0]])
    if x.op == "gen":
        l = t.fresh_lv()
        f, e = t.open_gen(x, l)
        if e.op == "flat":
            return t.mk_gen(l, x.args[1], f, mk("flat", flatten_stream(e.args[0])))
        return t.mk_gen(l, x.args[1], f, mk("flat", e))
    l = t.fresh_lv()
    return t.mk_gen(l, t.length(x), TRUE, mk("flat", t.item(x, l)))


KEYWORDS = {"enumerate": {"start"}, "sum": {"start"}, "min": {"key", "default"}, "max": {"key", "default"}, "sorted": {"key", "reverse"},
            "numpy.searchsorted": {"side"}, "bisect.bisect_right": {"lo", "hi"}, "bisect.bisect_left": {"lo", "hi"}, "bisect.bisect": {"lo", "hi"},
            "numpy.concatenate": {"axis"}}
ANYKEYWORD = {"dict", "collections.OrderedDict", "pandas.DataFrame", "functools.partial", "print", "warnings.warn", "math.isclose", "math.isinf",
              "numpy.isinf", "numpy.isfinite", "itertools.product", "itertools.combinations", "itertools.permutations", "itertools.cycle",
              "itertools.count", "itertools.tee", "itertools.groupby", "cvxopt.matrix"}
FLOATS = {"float", "numpy.float64", "numpy.double", "numpy.float_"}


def foreign(ip, name, kw):
    """keyword arguments whose effect is not modelled"""
    for k, v in kw:
        if name in ANYKEYWORD or name in PURE or k in KEYWORDS.get(name, ()):
            if name == "numpy.concatenate" and ip.val(v) not in (NONE, ZERO):
                return True
            continue
        v = ip.val(v)
        if k == "dtype" and (v.op == "ext" and v.args[0] in FLOATS or t.strval(v) in ("float", "float64", "d")):
            continue
        if k == "copy":
            continue
        return True
    return False


def call(ip, name, args, kw, node):
    if kw and foreign(ip, name, kw):
        return None
    if len(args) > 1 and name in ("int", "any", "all", "numpy.any", "numpy.all", "str", "numpy.arange", "numpy.array", "numpy.asarray") and \
            not (name == "numpy.arange" and len(args) <= 3):
        return None
    A = lambda i: ip.val(args[i])
    n = len(args)
    if any(a.op == "star" for a in args):
        if name in ("zip", "itertools.product", "itertools.chain", "max", "min") and n == 1:
            s = args[0].args[0]
            if name == "itertools.chain":
                return flatten_stream(s)
            if name in ("max", "min"):
                return t.extreme(name + "of", s)
            if name == "zip":
                return mk("unzip", s)
        return None
    if name.endswith(".merge_two_sketches") and n == 2 and not kw:
        # merging is a commutative, associative union: a formal sum of sketches
        ip.emit("call", name, args=(A(0), A(1)), node=node, value=t.add(A(0), A(1)))
        return t.add(A(0), A(1))
    if name == "pandas.DataFrame" and n + len(kw) == 1 and (n or kw[0][0] == "data"):
        x = A(0) if n else ip.val(kw[0][1])
        if x.op in ("dict", "dput", "scatter"):
            r = mk("df", x)
            ip.emit("call", name, args=(x,), node=node, value=r)
            return r
    if name == "len" and n == 1:
        x = A(0)
        cls = ip.typeof(x)
        if isinstance(cls, Class) and cls.find("__len__"):
            return ip.call_repo(cls.find("__len__"), [args[0]], [], node, selfterm=args[0], cls=cls)
        return t.length(x)
    if name == "range":
        if n == 1:
            return rng(ZERO, A(0), ONE)
        if n == 2:
            return rng(A(0), A(1), ONE)
        return rng(A(0), A(1), A(2))
    if name == "enumerate":
        x = lst(ip, args[0])
        st = A(1) if n > 1 else kwd(kw, "start", ZERO)
        L = t.length(x)
        if x.op == "seq":
            return t.seq([t.seq((t.add(st, const(i)), e)) for i, e in enumerate(x.args)])
        if x.op == "gen" and (x.args[2] is not TRUE or x.args[3].op == "flat"):
            return mk("enum", x, st)
        return gen(L, lambda l: t.seq((t.add(st, l), t.item(x, l))))
    if name == "zip":
        xs = [lst(ip, a) for a in args]
        if all(x.op == "seq" for x in xs) and xs:
            return t.seq([t.seq(z) for z in zip(*[x.args for x in xs])])
        return mk("zip", tuple(xs))
    if name in ("sum", "numpy.sum", "math.fsum", "numpy.nansum"):
        if n >= 1 and not (set(k for k, _ in kw) - {"start"}):
            x = A(0)
            s = A(1) if n > 1 and name == "sum" else kwd(kw, "start", ZERO)
            if n > 1 and name != "sum":
                return None
            x = lst(ip, x)
            if s is not ZERO and (t.is_seq(s)):
                return ip.newref(t.concat([s, flatten_stream(x)]))
            if name == "numpy.nansum":
                return mk("call", name, (x,), ())
            if name == "numpy.sum" and x.op == "gen" and x.args[2] is TRUE and x.args[3].op in ("gen", "seq"):
                x = flatten_stream(x)
            return t.add(ip.val(s), t.sum_(x))
        return None
    if name in ("min", "max", "numpy.min", "numpy.max", "numpy.amax", "numpy.amin"):
        op = name.rsplit(".")[-1].replace("amax", "max").replace("amin", "min")
        key, dflt = kwd(kw, "key"), kwd(kw, "default", None)
        if n == 1 and key is NONE and not [k for k, _ in kw if k not in ("default", "key")]:
            x = lst(ip, args[0])
            r = t.extreme(op + "of", x)
            if dflt is not None:
                r = t.ite(t.truth(x), r, ip.val(dflt))
            return r
        if n > 1 and key is NONE and not kw:
            return (t.min_ if op == "min" else t.max_)([A(i) for i in range(n)])
        if key is not NONE:
            k = keyfun(ip, key, node)
            x = lst(ip, args[0]) if n == 1 else t.seq([A(i) for i in range(n)])
            return mk("argext", op, x, k, ip.val(dflt) if dflt is not None else NONE)
        return None
    if name == "sorted":
        x = lst(ip, args[0])
        return ip.newref(t.sorted_(x, keyfun(ip, kwd(kw, "key"), node), t.truth(ip.val(kwd(kw, "reverse", FALSE)))))
    if name in ("reversed", "numpy.flip", "numpy.flipud") and n == 1 and not kw:
        return t.reversed_(lst(ip, args[0]))
    if name in ("list", "tuple", "iter", "builtins.list"):
        if n == 0:
            return ip.newref(EMPTY)
        x = lst(ip, args[0])
        if t.KEEP_COPIES[0]:
            x = t.copy_(x)
        return ip.newref(x) if name != "iter" else x
    if name in ("set", "frozenset"):
        return ip.newref(t.set_(lst(ip, args[0])) if n else mk("set", EMPTY))
    if name in ("dict", "collections.OrderedDict"):
        if n == 0:
            d = EMPTYDICT
        else:
            x = A(0)
            if x.op in ("dict", "dput", "scatter", "scatteror", "nscatter", "dfold") or (isinstance(ip.typeof(x), tuple) and ip.typeof(x)[0] == "dict") \
                    or x.op in ("var", "attr", "dmerge") and not isinstance(ip.typeof(x), tuple):
                d = t.copy_(x)
            else:
                g = lst(ip, args[0])
                d = EMPTYDICT
                if g.op == "zip":
                    g = gen(t.length(g), lambda l: t.item(g, l))
                if g.op == "seq" and all(p.op == "seq" and len(p.args) == 2 for p in g.args):
                    for p in g.args:
                        d = t.dput(d, t.seq((p,)))
                else:
                    d = mk("dput", EMPTYDICT, g)
        for k, v in kw:
            if k == "**":
                vv = ip.val(v)
                if vv.op == "dict":
                    for a, b in vv.args[0]:
                        d = t.dput(d, t.seq((t.seq((a, b)),)))
                else:
                    d = t.dmerge(d, vv)
            else:
                d = t.dput(d, t.seq((t.seq((const(k), v)),)))
        return ip.newref(d)
    if name == "dict.fromkeys" and n >= 1:
        v = A(1) if n > 1 else NONE
        g = lst(ip, args[0])
        return ip.newref(t.dput(EMPTYDICT, t.map_stream(g, lambda e: t.seq((e, v)))))
    if name == "collections.Counter":
        x = A(0) if n else EMPTYDICT
        r = ip.newref(x if dictlike(ip, x) else counter_of(ip, x))
        ip.counters.add(r)
        return r
    if name == "collections.defaultdict":
        if n == 2:
            return ip.newref(A(1))
        return ip.newref(EMPTYDICT)
    if name == "collections.deque":
        return ip.newref(lst(ip, args[0]) if n else EMPTY)
    if name in ("copy.deepcopy", "copy.copy"):
        x = A(0)
        v = (t.deepcopy if name.endswith("deepcopy") else t.copy_)(x)
        if x.op in ("new", "with") and args[0].op == "ref":
            r = ip.newref(ip.st.store.get(args[0]))
            for (b, k), w in list(ip.st.ov.items()):
                if b is args[0]:
                    ip.st.ov[(r, k)] = w
            return r
        if t.is_scalar(x) or t.is_str(x):
            return x
        if isinstance(ip.typeof(x), Class):
            return v
        return ip.newref(v)
    if name in ("abs", "numpy.abs", "numpy.absolute", "math.fabs", "numpy.fabs"):
        x = A(0)
        e = elementwise(t.absv, x)
        return e if e is not None else t.absv(x)
    if name in ("any", "numpy.any"):
        return t.any_(lst(ip, args[0]))
    if name in ("all", "numpy.all"):
        return t.all_(lst(ip, args[0]))
    if name in ("bool",):
        return t.truth(A(0)) if n else FALSE
    if name in ("int", "numpy.int64", "numpy.int32"):
        x = A(0) if n else ZERO
        if n == 1 and t.is_bool(x):
            return t.bit(x)
        if n == 1 and t.is_int(x):
            return x
        if n == 1 and x.op == "num":
            return const(int(x.args[0]))
        if x.op == "call" and x.args[0] in ("math.ceil", "math.floor", "round", "numpy.ceil", "numpy.floor"):
            return mk("call", "int", (x,), ())
        return mk("call", "int", (x,), ())
    if name in ("float", "numpy.float64"):
        x = A(0)
        s = t.strval(x)
        if s is not None:
            try:
                return const(float(s))
            except ValueError:
                return None
        if t.is_numeric(x) or t.is_scalar(x):
            return x
        return mk("call", "float", (x,), ())
    if name == "str":
        return ip.to_str(args[0]) if n else const("")
    if name == "format":
        return ip.to_str(args[0], t.strval(A(1)) if n > 1 else "")
    if name == "round":
        return mk("call", "round", tuple(A(i) for i in range(n)), ())
    if name == "isinstance":
        return isinst(ip, args, node)
    if name == "issubclass":
        return mk("call", "issubclass", tuple(A(i) for i in range(n)), ())
    if name == "callable":
        return mk("call", "callable", (A(0),), ())
    if name == "getattr" and n >= 2 and t.strval(A(1)) is not None:
        return ip.get_attr(args[0], t.strval(A(1)), node)
    if name == "setattr" and n == 3 and t.strval(A(1)) is not None:
        ip.set_attr(args[0], t.strval(A(1)), args[2], node)
        return NONE
    if name == "map":
        return map_call(ip, args[0], [lst(ip, a) for a in args[1:]], node)
    if name in ("filter", "itertools.filterfalse"):
        x = lst(ip, args[1])
        fn = args[0]
        acc = ip.newref(EMPTY)

        def body(elem):
            c = t.truth(ip.val(ip.apply(fn, [elem], [], node)) if ip.val(fn) is not NONE else elem)
            if name != "filter":
                c = t.not_(c)
            ip.branch(c, lambda: ip.st.store.__setitem__(acc, t.concat([ip.st.store[acc], t.seq((elem,))])), lambda: None)
        ip.for_over(x, body, node)
        return ip.st.store.pop(acc)
    if name in ("print", "warnings.warn"):
        ip.emit("call", name, args=[ip.val(a) for a in args], node=node, value=NONE)
        return NONE
    if name == "functools.partial":
        return mk("partial", args[0], tuple(args[1:]), tuple(kw))
    if name == "functools.reduce":
        x = lst(ip, args[1])
        if n == 3:
            acc = ip.newref(mk("seq", args[2] if args[2].op != "ref" else A(2)))
            box = ["$acc"]
            ip.st.env["$acc"] = A(2)

            def rbody(elem):
                ip.st.env["$acc"] = ip.val(ip.apply(args[0], [ip.st.env["$acc"], elem], [], node))
            ip.for_over(x, rbody, node)
            return ip.st.env.pop("$acc")
        return None
    if name == "operator.itemgetter" and n == 1:
        v = mk("lamarg", t.fresh_lv().args[0])
        return t.mk_lam(1, [v], t.item(v, A(0)))
    if name == "operator.itemgetter" and n > 1:
        v = mk("lamarg", t.fresh_lv().args[0])
        return t.mk_lam(1, [v], t.seq([t.item(v, A(i)) for i in range(n)]))
    if name == "operator.attrgetter" and n == 1 and t.strval(A(0)):
        v = mk("lamarg", t.fresh_lv().args[0])
        return t.mk_lam(1, [v], mk("attr", v, t.strval(A(0))))
    if name in ("itertools.chain.from_iterable",):
        return flatten_stream(lst(ip, args[0]))
    if name == "itertools.chain":
        return t.concat([lst(ip, a) for a in args])
    if name in ("itertools.accumulate", "numpy.cumsum") and n == 1 and not kw:
        x = lst(ip, args[0])
        r = t.prefixsum(x)
        return toarr(r) if name.startswith("numpy") else r
    if name == "itertools.islice":
        x = lst(ip, args[0])
        if n == 2:
            return t.slice_(x, ZERO, A(1))
        if n == 3:
            return t.slice_(x, A(1), A(2))
        return None
    if name == "itertools.repeat" and n == 2:
        return t.rep(t.seq((A(0),)), A(1))
    if name == "itertools.starmap":
        x = lst(ip, args[1])
        acc = ip.newref(EMPTY)

        def sbody(elem):
            ar = list(elem.args) if elem.op == "seq" else [mk("star", elem)]
            v = ip.val(ip.apply(args[0], ar, [], node))
            ip.st.store[acc] = t.concat([ip.st.store[acc], t.seq((v,))])
        ip.for_over(x, sbody, node)
        return ip.st.store.pop(acc)
    if name == "itertools.product" and n == 1 and args[0].op != "star" and [k for k, _ in kw] == ["repeat"]:
        return mk("call", name, (mk("star", t.mk_gen(t.fresh_lv(), ip.val(kw[0][1]), TRUE, lst(ip, args[0]))),), ())
    if name in ("itertools.product", "itertools.combinations", "itertools.permutations", "itertools.cycle", "itertools.count", "itertools.tee", "itertools.groupby"):
        return mk("call", name, tuple(lst(ip, a) for a in args), tuple(sorted((k, ip.val(v)) for k, v in kw)))
    if name in ("bisect.bisect_right", "bisect.bisect", "bisect.bisect_left", "numpy.searchsorted"):
        S = lst(ip, args[0])
        right = name in ("bisect.bisect_right", "bisect.bisect")
        if name == "numpy.searchsorted":
            right = t.strval(ip.val(kwd(kw, "side", const("left")))) == "right"
        lo = A(2) if n > 2 else ip.val(kwd(kw, "lo", ZERO))
        hi = A(3) if n > 3 else ip.val(kwd(kw, "hi", NONE))
        if n >= 2 and (n == 2 or name != "numpy.searchsorted"):
            r = count_sorted(ip, S, A(1), right)
            if r is not None:
                if hi is not NONE:
                    r = t.min_([r, hi])
                return r if lo is ZERO else t.max_([lo, r])
        return mk("call", name if name != "bisect.bisect" else "bisect.bisect_right", (S,) + tuple(A(i) for i in range(1, n)),
                  tuple(sorted((k, ip.val(v)) for k, v in kw)))
    if name in NPTRANSPARENT and n >= 1:
        x = A(0)
        if t.is_seq(x) or x.op == "arr":
            x = x.args[0] if x.op == "arr" else x
            if x.op == "gen" and x.args[3].op in ("gen", "seq"):
                pass
            if name in ("numpy.array", "numpy.copy") and t.KEEP_COPIES[0]:
                x = t.deepcopy(x)
            return mk("arr", x)
        if t.is_scalar(x):
            return x
        if t.KEEP_COPIES[0] and name in ("numpy.array", "numpy.copy"):
            return mk("arr", t.deepcopy(x))
        return mk("arr", x)
    if name in ("numpy.mean", "statistics.mean", "numpy.average") and n == 1 and not kw:
        x = lst(ip, args[0])
        return t.div(t.sum_(x), t.length(x))
    if name == "numpy.arange":
        if n == 1:
            return mk("arr", rng(ZERO, A(0), ONE))
        if n == 2:
            return mk("arr", rng(A(0), A(1), ONE))
        return mk("arr", rng(A(0), A(1), A(2)))
    if name in ("numpy.zeros", "numpy.ones", "numpy.full") and n >= 1:
        v = {"numpy.zeros": ZERO, "numpy.ones": ONE}.get(name) or (A(1) if n > 1 else NONE)
        sh = A(0)
        if sh.op == "seq":
            if len(sh.args) == 1:
                sh = sh.args[0]
            elif len(sh.args) == 2:
                return ip.newref(mk("arr", gen(sh.args[0], lambda l: gen(sh.args[1], lambda l2: v))))
            else:
                return None
        elif not (t.is_scalar(sh) or sh.op in ("attr", "poly", "num", "len", "sum", "call")):
            return None
        return ip.newref(mk("arr", gen(sh, lambda l: v)))
    if name in ("numpy.minimum", "numpy.maximum"):
        f = (lambda a, b: t.min_([a, b])) if name.endswith("minimum") else (lambda a, b: t.max_([a, b]))
        r = elementwise(f, A(0), A(1))
        return r if r is not None else f(A(0), A(1))
    if name == "numpy.where" and n == 3 and not kw:
        xs = [A(0), A(1), A(2)]
        arrs = [x for x in xs if x.op in ("arr", "gen", "seq")]
        if arrs and all(x in arrs or t.is_scalar(x) for x in xs):
            l = t.fresh_lv()
            at = [t.item(x.args[0] if x.op == "arr" else x, l) if x in arrs else x for x in xs]
            return ip.newref(mk("arr", t.mk_gen(l, t.length(arrs[0]), TRUE, t.ite(t.truth(at[0]), at[1], at[2]))))
        if t.is_scalar(xs[0]):
            return t.ite(t.truth(xs[0]), xs[1], xs[2])
    if name in ("numpy.divide", "numpy.add", "numpy.subtract", "numpy.multiply", "numpy.power") and n == 2 and not kw:
        f = {"divide": t.div, "add": t.add, "subtract": t.sub, "multiply": t.mul, "power": t.power}[name.rsplit(".", 1)[1]]
        r = elementwise(f, A(0), A(1))
        return r if r is not None else f(A(0), A(1))
    if name in ("numpy.square",):
        return t.power(A(0), const(2))
    if name in ("numpy.dot", "numpy.inner") and n == 2:
        a, b = lst(ip, args[0]), lst(ip, args[1])
        if (t.is_seq(a) or t.is_seq(b)):
            l = t.fresh_lv()
            return t.sum_(t.mk_gen(l, t.length(a), TRUE, t.mul(t.item(a, l), t.item(b, l))))
        return None
    if name == "numpy.repeat" and n == 2 and not kw:
        a, k = lst(ip, args[0]), A(1)
        if t.is_seq(a):
            l = t.fresh_lv()
            c = t.item(k.args[0] if k.op == "arr" else k, l) if t.is_seq(k) or k.op in ("arr", "rand") or not t.is_scalar(k) else k
            return ip.newref(mk("arr", t.mk_gen(l, t.length(a), TRUE, mk("flat", t.rep(t.seq((t.item(a, l),)), c)))))
    if name == "numpy.outer" and n == 2 and not kw:
        a, b = lst(ip, args[0]), lst(ip, args[1])
        return ip.newref(mk("arr", gen(t.length(a), lambda l: gen(t.length(b), lambda l2: t.mul(t.item(a, l), t.item(b, l2))))))
    if name == "numpy.diag" and n == 1 and not kw:
        a = lst(ip, args[0])
        if a.op == "gen" and a.args[2] is TRUE:
            if a.args[3].op == "gen" and a.args[3].args[2] is TRUE:
                return mk("arr", gen(a.args[1], lambda l: t.item(t.item(a, l), l)))
            if a.args[3].op in ("poly", "item", "num"):
                return mk("arr", gen(a.args[1], lambda l: gen(a.args[1], lambda l2: t.ite(t.eq(l, l2), t.item(a, l), ZERO))))
        return None
    if name == "numpy.fill_diagonal" and n == 2 and not kw and args[0].op == "ref":
        a = ip.peek(args[0])
        a = a.args[0] if a.op == "arr" else a
        v = A(1)
        if a.op == "gen" and a.args[2] is TRUE and a.args[3].op == "gen" and a.args[3].args[2] is TRUE and t.is_scalar(v):
            mutated(ip, args[0], "fill_diagonal", args[1:], node)
            ip.st.store[args[0]] = mk("arr", gen(a.args[1], lambda l: gen(t.length(t.item(a, l)), lambda l2: t.ite(t.eq(l, l2), v, t.item(t.item(a, l), l2)))))
            return NONE
    if name in ("numpy.eye", "numpy.identity") and n == 1 and not kw:
        return ip.newref(mk("arr", gen(A(0), lambda l: gen(A(0), lambda l2: t.ite(t.eq(l, l2), ONE, ZERO)))))
    if name in ("numpy.concatenate", "numpy.hstack") and n == 1:
        x = lst(ip, args[0])
        if x.op == "seq":
            return mk("arr", t.concat(list(x.args)))
        return mk("arr", flatten_stream(x))
    if name == "numpy.append" and n == 2 and not kw:
        b = A(1)
        return mk("arr", t.concat([lst(ip, args[0]), b if t.is_seq(b) or b.op == "arr" else t.seq((b,))]))
    if name == "numpy.insert" and n == 3 and A(1) is ZERO and not kw:
        return mk("arr", t.concat([t.seq((A(2),)), lst(ip, args[0])]))
    if name == "pow" and n == 2:
        return t.power(A(0), A(1))
    if name in ("math.isclose", "math.isinf", "numpy.isinf", "numpy.isfinite"):
        return mk("call", name, tuple(A(i) for i in range(n)), tuple(sorted((k, ip.val(v)) for k, v in kw)))
    if name in PURE:
        nm = {"numpy.exp": "math.exp", "numpy.log": "math.log", "numpy.sqrt": "math.sqrt", "numpy.isnan": "math.isnan", "numpy.log2": "math.log2"}.get(name, name)
        xs = [A(i) for i in range(n)]
        if n == 1:
            r = elementwise(lambda x: mk("call", nm, (x,), ()), xs[0])
            if r is not None and name.startswith("numpy."):
                return r
        return mk("call", nm, tuple(xs), tuple(sorted((k, ip.val(v)) for k, v in kw)))
    if name == "next":
        x = A(0)
        if n == 2:
            return mk("first", x, A(1)) if not t.is_seq(x) or x.op == "gen" else None
        if x.op == "gen":
            if x.args[2] is TRUE and x.args[3].op != "flat":
                return t.item(x, ZERO)
            return mk("first", x)
        return None
    return None


def isinst(ip, args, node):
    x = ip.val(args[0])
    c = ip.val(args[1])
    cls = ip.typeof(x)
    cs = list(c.args) if c.op == "seq" else [c]
    if isinstance(cls, Class):
        quals = {k.qual for k in cls.mro()}
        if all(k.op == "clsref" for k in cs) and x.op in ("new", "with"):
            return const(any(k.args[0] in quals for k in cs))
    return mk("isinstance", x, c)


def set_container(ip, base, nv, node):
    if base.op == "ref":
        ip.st.store[base] = nv
    elif node is not None and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
        ip.rebind(node.func.value, base, nv)


def mutated(ip, base, name, args, node):
    ip.emit("mutate", name, base=base if base.op == "ref" else ip.val(base), args=[ip.val(a) for a in args], node=node)


def method(ip, base, name, args, kw, node):
    pb = ip.peek(base)
    if pb.op == "ref":
        return None
    arr = pb.op == "arr"
    core = pb.args[0] if arr else pb
    ty = ip.typeof(pb)
    if isinstance(ty, Class) and not ty.is_namedtuple:
        return None
    A = lambda i: ip.val(args[i])
    n = len(args)
    isdict = core.op in ("dict", "dput", "scatter", "scatteror", "nscatter", "dmerge", "dfold") and not (core.op == "scatter" and t.is_seq(core.args[0])) \
        or (isinstance(ty, tuple) and ty[0] == "dict") or (core.op == "carry" and core.args[1] == "dict")
    islist = (t.is_seq(core) and core.op != "set") or (isinstance(ty, tuple) and ty[0] == "list") or (core.op == "carry" and core.args[1] == "list")
    isset = core.op in ("set", "setadd") or (core.op == "carry" and core.args[1] == "set")
    if isset:
        isdict = islist = False
    # ---------------------------------------------------------------- namedtuples
    if isinstance(ty, Class) and ty.is_namedtuple and name == "_replace":
        fields = [(f, dict((k, ip.val(v)) for k, v in kw).get(f) or ip.val(ip.get_attr(pb, f))) for f in ty.field_order]
        bad = [k for k, _ in kw if k not in ty.field_order]
        r = mk("new", ty.qual, tuple(fields))
        if bad:
            ip.emit("badcall", ty.qual + "._replace", kw=[(k, ip.val(v)) for k, v in kw], node=node, value=r)
        return r
    if isinstance(ty, Class) and ty.is_namedtuple and name == "_asdict":
        return ip.newref(mk("dict", tuple((const(f), ip.val(ip.get_attr(pb, f))) for f in ty.field_order)))
    # ---------------------------------------------------------------- strings
    if name == "format" and t.strval(pb) is not None:
        return format_str(ip, t.strval(pb), args, kw)
    if name == "join" and n == 1 and (t.is_str(pb) or pb.op == "attr") and t.is_str(pb):
        return join(ip, pb, args[0])
    s = t.strval(pb)
    if s is not None and name in ("upper", "lower", "strip") and n == 0:
        return const(getattr(s, name)())
    if s is not None and name == "split" and n <= 1 and not kw:
        sep = t.strval(A(0)) if n else None
        return ip.newref(t.seq([const(x) for x in s.split(sep)]))
    # ---------------------------------------------------------------- map-like pools
    if name in ("map", "imap", "uimap", "imap_unordered", "amap", "starmap", "map_async", "apply_async", "apply") and n >= 2:
        fn = args[0]
        if fn.op in ("closure", "lam", "fn", "bound", "partial"):
            bv = ip.val(base)
            ip.emit("call", name, base=bv, args=[ip.reify(ip.val(args[0]))] + [ip.val(a) for a in args[1:]], node=node, value=NONE)
            if name in ("map", "imap", "uimap", "imap_unordered", "amap"):
                r = map_call(ip, fn, [lst(ip, a) for a in args[1:]], node)
                return ip.newref(r)
    # ---------------------------------------------------------------- lists
    if islist or isset or isdict or core.op in ("seq",):
        r = container(ip, base, pb, core, name, args, kw, node, isdict, islist, isset)
        if r is not None:
            return r
        from .flow import MUTATORS
        if name in MUTATORS and base.op == "ref":
            mutated(ip, base, name, args, node)
            v = ip.val(pb)
            set_container(ip, base, t.opaque("mutated by " + name, v), node)
            return t.opaque(name, v)
    if name in ("tolist", "flatten", "ravel", "copy") and n == 0 and (arr or islist):
        v = core if name == "tolist" else pb
        return ip.newref(v)
    if name == "astype":
        if arr:
            return mk("arr", mk("call", "astype", (core,) + tuple(A(i) for i in range(n)), ()))
        return None
    if name == "sum" and n == 0 and not kw and (arr or islist):
        return t.sum_(core)
    if name == "mean" and n == 0 and not kw and (arr or islist):
        return t.div(t.sum_(core), t.length(core))
    if name in ("max", "min") and n == 0 and not kw and (arr or islist):
        return t.extreme(name + "of", core)
    if name == "cumsum" and n == 0 and not kw and arr:
        return t.prefixsum(pb)
    if name in ("any", "all") and n == 0 and not kw and arr:
        return (t.any_ if name == "any" else t.all_)(core)
    from .flow import MUTATORS
    if name in MUTATORS and (core.op in ("var", "attr", "item", "global", "carry") or base.op == "ref" and name in ("append", "extend", "insert") and core.op not in ("newobj", "ref")):
        # mutation of a container of unknown shape
        gty = guess_kind(name)
        if gty and not looks_external(pb, ip):
            return container(ip, base, pb, core, name, args, kw, node, gty == "dict", gty == "list", gty == "set")
    if name in ("items", "keys", "values") and n == 0 and core.op in ("var", "attr", "item", "global", "carry", "rcall", "callv") and not isinstance(ty, Class):
        return mk(name, pb)
    if name == "get" and n in (1, 2) and core.op in ("var", "attr", "global") and not isinstance(ty, Class):
        return mk("get", pb, A(0), A(1) if n > 1 else NONE)
    return None


def looks_external(pb, ip):
    return pb.op == "var" and isinstance(ip.typeof(pb), Class)


def guess_kind(name):
    if name in ("append", "extend", "insert", "sort", "reverse"):
        return "list"
    if name in ("setdefault", "popitem", "update"):
        return "dict"
    if name in ("discard",):
        return "set"
    return None


def container(ip, base, pb, core, name, args, kw, node, isdict, islist, isset):
    A = lambda i: ip.val(args[i])
    n = len(args)
    arr = pb.op == "arr"
    wrap = (lambda x: mk("arr", x) if arr and x.op != "arr" else x)
    if islist and not isdict:
        if name == "append":
            mutated(ip, base, name, args, node)
            v = args[0] if args[0].op == "ref" else A(0)
            set_container(ip, base, t.concat([core, t.seq((v,))]), node)
            return NONE
        if name == "extend":
            mutated(ip, base, name, args, node)
            set_container(ip, base, t.concat([core, lst(ip, args[0])]), node)
            return NONE
        if name == "insert":
            mutated(ip, base, name, args, node)
            v = A(1)
            if A(0) is ZERO:
                set_container(ip, base, t.concat([t.seq((v,)), core]), node)
            else:
                set_container(ip, base, t.concat([t.slice_(core, ZERO, A(0)), t.seq((v,)), t.slice_(core, A(0), NONE)]), node)
            return NONE
        if name == "sort":
            mutated(ip, base, name, [], node)
            k = keyfun(ip, kwd(kw, "key"), node)
            set_container(ip, base, wrap(t.sorted_(ip.val(core), k, t.truth(ip.val(kwd(kw, "reverse", FALSE))))), node)
            return NONE
        if name == "reverse":
            mutated(ip, base, name, args, node)
            set_container(ip, base, wrap(t.reversed_(ip.val(core))), node)
            return NONE
        if name == "pop":
            mutated(ip, base, name, args, node)
            v = ip.val(core)
            i = A(0) if n else const(-1)
            r = t.item(v, i)
            if i is const(-1):
                set_container(ip, base, t.slice_(v, ZERO, const(-1)), node)
            elif i is ZERO:
                set_container(ip, base, t.slice_(v, ONE, NONE), node)
            else:
                set_container(ip, base, t.opaque("pop", v, i), node)
            return r
        if name in ("remove",):
            mutated(ip, base, name, args, node)
            set_container(ip, base, mk("removed", ip.val(core), A(0)), node)
            return NONE
        if name == "clear":
            mutated(ip, base, name, args, node)
            set_container(ip, base, EMPTY, node)
            return NONE
        if name == "copy" and n == 0:
            return ip.newref(t.copy_(pb))
        if name in ("fill",):
            mutated(ip, base, name, args, node)
            set_container(ip, base, wrap(gen(t.length(core), lambda l: A(0))), node)
            return NONE
        if name == "count" and n == 1:
            l = t.fresh_lv()
            v = ip.val(core)
            return t.sum_(t.mk_gen(l, t.length(v), t.eq(t.item(v, l), A(0)), ONE))
        if name == "index":
            return mk("indexof", ip.val(core), A(0))
        if name == "tolist":
            return ip.newref(ip.val(core))
        if name == "flatten":
            v = ip.val(core)
            if v.op == "gen" and v.args[3].op in ("gen", "seq"):
                return ip.newref(mk("arr", flatten_stream(v)))
            return ip.newref(wrap(v))
        return None
    if isdict:
        if name == "items":
            v = ip.val(pb)
            if v.op == "dict":
                return t.seq([t.seq((k, x)) for k, x in v.args[0]])
            return t.items_(v)
        if name == "keys":
            v = ip.val(pb)
            if v.op == "dict":
                return t.seq([k for k, x in v.args[0]])
            return t.keys_(v)
        if name == "values":
            v = ip.val(pb)
            if v.op == "dict":
                return t.seq([x for k, x in v.args[0]])
            return t.values_(v)
        if name == "get":
            v = ip.val(pb)
            d = A(1) if n > 1 else NONE
            k = A(0)
            if v.op == "dict" and t.is_const(k):
                for a, b in v.args[0]:
                    if a is k:
                        return b
                return d
            return mk("get", v, k, d)
        if name == "update":
            mutated(ip, base, name, args, node)
            v = ip.val(pb)
            for a in args:
                av = ip.val(a)
                if counter_like(ip, base):
                    # a Counter adds
                    if av.op == "scatter" and av.args[0] is EMPTYDICT:
                        v = t.scatter(v, av.args[1])
                    elif av.op == "dict":
                        v = t.scatter(v, t.seq([t.seq((p, q)) for p, q in av.args[0]]))
                    elif dictlike(ip, av):
                        l = t.fresh_lv()
                        k = t.item(mk("keys", av), l)
                        v = t.scatter(v, t.mk_gen(l, t.length(av), TRUE, t.seq((k, t.item(av, k)))))
                    elif t.is_seq(av):
                        v = t.scatter(v, t.map_stream(lst(ip, a), lambda e: t.seq((e, ONE))))
                    else:
                        v = t.opaque("counter update")
                elif av.op == "dict":
                    for p, q in av.args[0]:
                        v = t.dput(v, t.seq((t.seq((p, q)),)))
                elif av.op == "dput" and av.args[0] is EMPTYDICT:
                    v = t.dput(v, av.args[1])
                elif t.is_seq(av) and av.op != "dict":
                    v = t.dput(v, av)
                else:
                    v = t.dmerge(v, av)
            for k, x in kw:
                v = t.dput(v, t.seq((t.seq((const(k), ip.val(x))),)))
            set_container(ip, base, v, node)
            return NONE
        if name == "setdefault":
            mutated(ip, base, name, args, node)
            v = ip.val(pb)
            k = A(0)
            d = A(1) if n > 1 else NONE
            if v.op == "dict" and t.is_const(k):
                for a, b in v.args[0]:
                    if a is k:
                        return b
            set_container(ip, base, mk("setdefault", v, k, d), node)
            return mk("get", v, k, d)
        if name == "pop":
            mutated(ip, base, name, args, node)
            v = ip.val(pb)
            k = A(0)
            if v.op == "dict" and t.is_const(k):
                hit = [b for a, b in v.args[0] if a is k]
                set_container(ip, base, ip.dict_del(v, k), node)
                if hit:
                    return hit[0]
                return A(1) if n > 1 else t.opaque("pop")
            set_container(ip, base, mk("ddel", v, k), node)
            return mk("get", v, k, A(1)) if n > 1 else t.item(v, k)
        if name == "clear":
            mutated(ip, base, name, args, node)
            set_container(ip, base, EMPTYDICT, node)
            return NONE
        if name == "copy" and n == 0:
            return ip.newref(t.copy_(pb))
        return None
    if isset:
        if name == "add":
            mutated(ip, base, name, args, node)
            set_container(ip, base, ip.set_union(ip.val(core), t.seq((A(0),))), node)
            return NONE
        if name == "update":
            mutated(ip, base, name, args, node)
            v = ip.val(core)
            for a in args:
                v = ip.set_union(v, lst(ip, a))
            set_container(ip, base, v, node)
            return NONE
        if name == "union":
            v = ip.val(core)
            if core.op == "carry":
                v = core
            for a in args:
                if a.op == "star":
                    v = ip.set_union(v, flatten_stream(a.args[0]))
                else:
                    v = ip.set_union(v, lst(ip, a))
            return ip.newref(v)
        if name == "copy":
            return ip.newref(t.copy_(pb))
        if name in ("discard", "remove", "clear", "difference_update", "intersection_update", "pop"):
            mutated(ip, base, name, args, node)
            v = ip.val(core)
            set_container(ip, base, mk("set" + name, v, tuple(ip.val(a) for a in args)), node)
            return NONE if name != "pop" else t.opaque("pop")
        if name in ("difference", "intersection", "issubset", "issuperset", "isdisjoint"):
            return mk("call", name, (ip.val(core),) + tuple(lst(ip, a) for a in args), ())
        return None
    return None


def counter_like(ip, base):
    return base in ip.counters


def dictlike(ip, x):
    return x.op in ("dict", "scatter", "dput", "scatteror", "nscatter", "dfold") or (isinstance(ip.typeof(x), tuple) and ip.typeof(x)[0] == "dict")


def shallow(x):
    return x

"""Deciding whether two value terms denote the same value.

equal      the normal forms coincide
differs    the terms are fully modelled and differ at a few specific points
undecided  the shapes are too different (or partly unmodelled) to tell
"""
from . import terms as t
from .terms import TRUE, FALSE, NONE, ZERO, ONE, EMPTY, mk, const

UNMODELLED = ("opaque", "whilev", "fold", "foldpre", "prev", "last", "unknown", "maybe", "never", "stores", "recur",
              "excval", "undef", "setpre", "unzip", "enum", "setslice", "removed", "cyclic", "carry", "firstidx",
              "setdefault", "ddel", "exc", "star", "firstof", "first", "memodict", "firstval")
LEAF = ("var", "num", "const", "ext", "clsref", "fn", "lv", "bv", "lamv", "global", "modref")
COMMUT = ("and", "or", "min", "max")
WRAP = {"sorted", "reversed", "set", "slice", "abs", "prefixsum", "suffixsum", "maxof", "minof", "sum", "len", "not", "min", "max", "fmt"}
SIMPLE = set(LEAF) | {"attr", "item", "poly", "len", "num", "const", "abs", "min", "max", "sum", "maxof", "minof", "set", "gen", "slice",
                      "lt0", "le0", "eq0", "eq", "and", "or", "not", "truth", "isnone", "in", "all", "pow", "strcat", "fmt", "seq", "dict",
                      "concat", "new", "rcall", "call", "mcall", "keys", "values", "items", "get", "flat", "scatter", "dput", "sorted",
                      "reversed", "prefixsum", "suffixsum", "rand", "dfold", "ite", "zip", "lam", "join", "bitand", "bitor", "floordiv", "mod",
                      "scatteror", "nscatter", "upd", "callv", "with", "prod", "shr", "argext", "arr", "isinstance", "rep"}
SOFTWRAP = {"float", "copy", "astype", "numpy.squeeze"}     # wrappers that usually keep the value


STRFUN = {"split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "title", "capitalize", "casefold", "removesuffix", "removeprefix", "zfill", "partition", "rpartition", "encode", "swapcase"}


def strips(x, y):
    """x is y passed through string operations that lose or change characters"""
    n = 0
    while x is not y:
        if x.op == "mcall" and x.args[1] in STRFUN:
            x, n = x.args[0], n + 1
        elif x.op in ("item", "slice") and isinstance(x.args[0], t.T):
            x = x.args[0]
        elif x.op == "slice":
            x, n = x.args[0], n + 1
        else:
            return False
    return n > 0


def stringy(x):
    """x is text: a piece of a split line, say"""
    return x.op == "item" and x.args[0].op == "mcall" and x.args[0].args[1] in ("split", "rsplit") or x.op == "mcall" and x.args[1] in STRFUN


ACCUM = ("scatter", "scatteror", "dput", "dfold")


class M:
    def __init__(self, kind, a, b, note=""):
        self.kind, self.a, self.b, self.note = kind, a, b, note

    def __repr__(self):
        return "%s: %s  vs  %s" % (self.kind, t.show(self.a)[:200], t.show(self.b)[:200])


def clean(x):
    """value view: drop array/copy/float wrappers"""
    def f(y):
        if y.op in ("arr", "deepcopy", "copy"):
            return y.args[0]
        if y.op in ("le0", "lt0"):
            return t.extremal(y.args[0], t.le if y.op == "le0" else t.lt)
        return None
    return t.rewrite(x, f)


def specialise(x, c, val):
    """x under the assumption that condition c is val"""
    x = t.assume(x, c, val)
    m = {}
    for k, v in ([(q, True) for q in t.conjuncts(c)] if val else
                 ([(q, False) for q in c.args[0]] if c.op == "or" else [(c, False)])):
        n = k
        if n.op == "not":
            n, v = n.args[0], not v
        if n.op == "truth" and not v:
            X = n.args[0]
            m[mk("len", X)] = ZERO
            m[mk("truth", X)] = FALSE
        elif n.op == "isnone" and v:
            m[n.args[0]] = NONE
        elif n.op == "eq" and v:
            a, b = n.args
            if t.is_const(a):
                m[b] = a
            elif t.is_const(b):
                m[a] = b
        elif n.op == "eq0" and v:
            s = solve(n.args[0])
            if s:
                m[s[0]] = s[1]
        elif n.op in ("le0", "lt0"):
            # p <= q  (or p >= q when the condition is false): min and max of the two are known
            p0 = n.args[0] if v else t.neg(n.args[0])
            for z in t.subterms(x):
                if z.op in ("min", "max") and len(z.args[0]) == 2:
                    p, q = z.args[0]
                    for u, w in ((p, q), (q, p)):
                        c0 = t.numval(t.sub(t.sub(u, w), p0))
                        strict = (n.op == "lt0") == v and t.is_int(p0)
                        if c0 is not None and c0 <= (1 if strict else 0):
                            m[z] = u if z.op == "min" else w
        elif n.op == "truth":
            m[n] = TRUE if v else FALSE
    for k, v in list(m.items()):
        n = t.numval(v) if k.op == "len" else None
        if n is not None and n >= 1:        # the last of n is number n-1
            for j in range(1, int(n) + 1):
                m[mk("item", k.args[0], const(-j))] = t.item(k.args[0], const(int(n) - j))
    # len(X) <= 0 style facts already map to truth
    return t.replace(x, m) if m else x


def solve(d):
    """d == 0  ->  (atom, value)"""
    p = t._poly(d)
    best = None
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if sum(1 for mm in p for x, e in mm if x is a) == 1 and not any(t.occurs(a, x) for mm in p for x, e in mm if x is not a):
                if best is None or a.uid > best[0].uid:
                    best = (a, c)
    if best is None:
        return None
    a, c = best
    rest = t.sub(d, t.mul(const(c), a))
    return a, t.div(t.neg(rest), const(c))


def shape(x):
    """field path from a variable, with entries picked by position only"""
    if x.op == "var":
        return (x,)
    if x.op == "attr":
        s = shape(x.args[0])
        return s and s + (x.args[1],)
    if x.op == "item":
        s = shape(x.args[0])
        return s + ("[]",) if s and not t.has_op(x.args[1], ("item", "attr", "var", "call", "rcall", "mcall", "callv", "opaque")) and t.free_lvs(x.args[1]) else None
    return None


class Differ:
    def __init__(self, maxsplit=7):
        self.maxsplit = maxsplit
        self.memo = {}

    def diff(self, a, b, depth=0, splits=0):
        if a is b:
            return []
        if depth > 60:
            return [M("structural", a, b)]
        key = (a, b)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = [M("structural", a, b)]
        r = self._diff(a, b, depth + 1, splits)
        self.memo[key] = r
        return r

    def _diff(self, a, b, d, sp):
        if (a.op == "poly" or b.op == "poly") and t.same_ratio(a, b):
            return []
        if a.op in ("arr", "deepcopy", "copy"):
            return self.diff(a.args[0], b, d, sp)
        if b.op in ("arr", "deepcopy", "copy"):
            return self.diff(a, b.args[0], d, sp)
        for x, y in ((a, b), (b, a)):
            if x.op == "unzip" and y.op == "call" and y.args[0] == "itertools.product" and len(y.args[1]) == 1 and y.args[1][0].op == "star" and y.args[1][0].args[0] is x.args[0]:
                return [M("operator", a, b)]
            if y.op in ACCUM + ("set",) and (x.op == "fold" and skipping(x) or x.op == "item" and x.args[0].op == "fold" and x.args[1] is ZERO and skipping(x.args[0])):
                return [M("skipped step", a, b)]
            if x.op == "firstval" and x.args[1] is y and x.args[0].op == "item" and modelled(y):
                return [M("value remembered under too small a key", a, b)]
        if a.op in UNMODELLED or b.op in UNMODELLED:
            if a.op == b.op and len(a.args) == len(b.args) and a.op not in ("opaque",):
                return self.generic(a, b, d, sp)
            return [M("unmodelled", a, b)]
        if a.op == "sum" and b.op == "sum":
            i, j = t.fresh_lv(), t.fresh_lv()
            p, q, r = double(a, i, j), double(b, j, i), double(b, i, j)
            if p and q and p[0] is q[1] and p[1] is q[0] and p[2] is q[2] or p and r and p == r:
                return []       # a double sum, its loops the other way round
        if a.op == "sorted" and b.op == "set" and a.args[0] is b:
            return [M("soft", a, b)]        # any order of a set's elements will do
        for x, y, which in ((a, b, "extra"), (b, a, "missing")):
            if x.op in ("mod", "floordiv") and (t.numval(x.args[1]) or 0) > 1 and (x.args[0] is y or simple_leaf(x.args[0]) and y.op == "poly" and atoms(y) == atoms(x.args[0])):
                return [M("%s %s" % (which, x.op), a, b)]
            if x.op == "set" and x.args[0].op == "slice" and y.op == "set" and t.set_(x.args[0].args[0]) is y:
                return [M("%s slice" % which, a, b)]
            if x.op == "dfold" and y.op == "scatter" and x.args[0] is y.args[0] and other_start(x.args[1], y.args[1]):
                return [M("%s initial value" % which, a, b)]
            if x.op == "prefixsum" and y.op == "suffixsum" and x.args[0] is t.reversed_(y.args[0]) and modelled(y):
                return [M("reversed", a, b)]
            if x.op == "scatter" and y.op == "suffixsum" and y.args[0].op == "scatter" and x.args[0] is y.args[0].args[0] and plain_counts(x.args[1]) and plain_counts(y.args[0].args[1]) and x.args[1].args[1] is y.args[0].args[1].args[1]:
                return [M("%s running total" % ("missing" if which == "extra" else "extra"), a, b)]     # so many exactly, against so many or more
            if x.op == "scatter" and y.op == "suffixsum" and starts_late(x):
                return [M("%s offset" % which, a, b)]
            if mask_test(x, y):
                return [M("mask test", a, b)]
            if y.op == "gen" and once_each(y) is not None and (once_each(y) is x or t.strip_perm(once_each(y)) is t.strip_perm(x)):
                return [M("%s multiplicity" % which, a, b)]
            if x.op == "sum" and y.op == "sum" and counted_again(x.args[0], y.args[0]):
                return [M("%s counted again" % which, a, b)]
            if x.op == "len" and x.args[0].op == "set" and t.length(x.args[0].args[0]) is y and not t.has_op(x, ("mcall", "call", "rcall")):
                return [M("%s set" % which, a, b)]
            if x.op == "item" and x.args[0].op == "sorted" and t.item(x.args[0].args[0], x.args[1]) is y and modelled(x) and not t.has_op(x, ("set", "keys", "scatter", "dput")) and x.args[0].args[0].op == "gen":
                return [M("%s sorted" % which, a, b)]
            if x.op == "keys" and x.args[0].op == "dput" and x.args[0].args[0] is t.EMPTYDICT and not t.has_op(y, ("set", "keys")) \
                    and (y.op in ("var", "attr") and simple_leaf(y) or y.op == "gen" and y.args[1].op == "len" and y.args[1].args[0].op in ("var", "attr", "rcall") and y.args[2] is TRUE) \
                    and t.map_stream(x.args[0].args[1], lambda e: t.item(e, ZERO)) is y:
                return [M("%s set" % which, a, b)]
            if x.op == "item" and x.args[0].op == "set" and t.item(x.args[0].args[0], x.args[1]) is y and not t.has_op(x, ("mcall", "call", "rcall")):
                return [M("%s set" % which, a, b)]
            if x.op in ("var", "attr") and simple_leaf(x) and y.op == "fmt" and modelled(y) and t.has_op(y, ("rand",)) and not t.has_op(y, ("var", "attr", "lv")):
                return [M("leaf", a, b)]
            if x.op in ("var", "attr") and simple_leaf(x) and y.op == "new" and len(y.args) == 2 and y.args[1] and all(v.op in ("num", "const") for _, v in y.args[1]):
                return [M("leaf", a, b)]        # a record of constants instead of the one given
            if drawn(x) and y.op in ("lv", "num") and not t.has_op(y, ("rand",)):
                return [M("%s random draw" % which, a, b)]
        if a.op == "ite" or b.op == "ite":
            return self.split(a, b, d, sp)
        for x, y in ((a, b), (b, a)):
            if x.op == "gen" and x.args[2] is TRUE and x.args[3].op != "flat" and y.op == "poly":
                # scalar times a random vector
                vec = [v for v in atoms(y) if v.op == "rand" and dict(v.args[3]).get("size") is x.args[1]]
                if len(vec) == 1:
                    l = t.fresh_lv()
                    _, e = t.open_gen(x, l)
                    y2 = t.replace(y, {vec[0]: t.item(vec[0], l)})
                    return self.diff(e, y2, d, sp) if x is a else self.diff(y2, e, d, sp)
            if x.op == "call" and x.args[0] in ("bisect.bisect_right", "bisect.bisect_left") and y.op == "sum" and len(x.args[1]) == 2 and raw(x.args[1][0]) and modelled(y):
                return [M("bisection of an unsorted list", a, b)]
        if self.observed(a, b):
            return [M("leaf", a, b)]
        num = lambda x: x.op in ("poly", "num") or (x.op in LEAF and False)
        if num(a) or num(b):
            return self.poly(a, b, d, sp)
        if (a.op in ("min", "max") or b.op in ("min", "max")) and {a.op, b.op} & (set(LEAF) | {"attr", "len", "item"}):
            va, vb = [[at_point(x, n) for n in (7, 1000)] for x in (a, b)]
            if single(a) and single(a) == single(b) and None not in va + vb and all(p != q for p, q in zip(va, vb)):
                return [M("arithmetic", a, b)]
        if a.op == b.op:
            if a.op in COMMUT:
                return self.sets(a, b, list(a.args[0]), list(b.args[0]), d, sp)
            if a.op == "gen":
                return self.gens(a, b, d, sp)
            if a.op == "lam":
                if a.args[1] != b.args[1]:
                    return [M("structural", a, b)]
                ls = [t.fresh_lv() for _ in range(a.args[1])]
                return self.diff(t.apply_lam(a, ls), t.apply_lam(b, ls), d, sp)
            if a.op in ("concat", "strcat"):
                return self.parts(a, b, list(a.args[0]), list(b.args[0]), d, sp)
            if a.op == "seq":
                return self.parts(a, b, list(a.args), list(b.args), d, sp)
            if a.op == "dict":
                return self.keyed(a, b, a.args[0], b.args[0], d, sp)
            if a.op in ("lt0", "le0", "eq0"):
                return self.rel(a, b, d, sp)
            if a.op in ("new", "rcall", "badcall") and a.args[0] == b.args[0] and len(a.args) == 2:
                return self.keyed(a, b, a.args[1], b.args[1], d, sp)
            if a.op in LEAF:
                return [M("leaf", a, b)]
            if a.op == "keys" and a.args[0].op in ACCUM and b.args[0].op in ACCUM and a.args[0].args[0] is b.args[0].args[0]:
                ka, kb = [t.map_stream(x.args[0].args[1], lambda e: t.item(e, ZERO)) for x in (a, b)]
                return self.diff(ka, kb, d, sp)
            if a.op in ("scatter", "dput") and a.args[0] is b.args[0]:
                return self.tables(a, b, d, sp)
            return self.generic(a, b, d, sp)
        return self.cross(a, b, d, sp)

    def tables(self, a, b, d, sp):
        """two dictionaries filled from streams of (key, value) pairs"""
        ms = self.generic(a, b, d, sp)
        if not any(m.kind in SOFT for m in ms):
            return ms
        if not modelled(a) or not modelled(b):
            return ms
        ka, kb = inner_key(a.args[1]), inner_key(b.args[1])
        if ka is not None and kb is not None and (ka.op == "seq") != (kb.op == "seq"):
            return [M("key", ka, kb)]
        if a.op == "scatter":
            # different totals mean different tables
            ta, tb = [t.sum_(t.map_stream(x.args[1], lambda e: t.item(e, ONE))) for x in (a, b)]
            if ta is not tb and not t.has_op(ta, ("scatter", "dput")) and not t.has_op(tb, ("scatter", "dput")):
                mt = self.diff(ta, tb, d, sp)
                if mt and not any(m.kind in SOFT for m in mt):
                    return mt
        return ms

    # -- different operators -------------------------------------------------
    def cross(self, a, b, d, sp):
        rel = ("lt0", "le0", "eq0")
        if a.op in rel and b.op in rel:
            return self.rel(a, b, d, sp)
        if a.op == "not" and b.op != "not" and t.is_bool(b):
            na = a.args[0]
            if na is b:
                return [M("negated", a, b)]
        if b.op == "not" and a is b.args[0]:
            return [M("negated", a, b)]
        # missing / extra wrapper
        for x, y, which in ((a, b, "extra"), (b, a, "missing")):
            if x.op == "call" and x.args[0] in SOFTWRAP and y in x.args[1] and not (x.args[0] == "float" and stringy(y)):
                return [M("soft", a, b)]
            if x.op in COMMUT and y in x.args[0]:
                return [M("%s %s" % (which, x.op), a, b)]
            if x.op in WRAP and any(k is y for k in t.children(x)):
                return [M("%s %s" % (which, x.op), a, b)]
            if x.op == "call" and y in x.args[1]:
                return [M("%s call %s" % (which, x.args[0]), a, b)]
            if x.op == "concat" and y in x.args[0]:
                return [M("%s part" % which, a, b)]
            if strips(x, y):
                return [M("%s string operation" % which, a, b)]
            if x.op == "call" and x.args[0] == "float" and len(x.args[1]) == 1 and x.args[1][0] is y and stringy(y):
                return [M("%s float" % which, a, b)]
        for x, y in ((a, b), (b, a)):
            if x.op in ("maxof", "minof", "sum") and x.args[0].op == "gen" and y.op in ("attr", "item") and t.has_op(y, ("lv", "bv")):
                # one element of a collection against an aggregate over all of it
                l = t.fresh_lv()
                f, e = t.open_gen(x.args[0], l)
                if f is TRUE and any(t.replace(y, {v: l}) is e for v in t.free_lvs(y)):
                    return [M("aggregate", a, b)]
        for x, y, which in ((a, b, "extra"), (b, a, "missing")):
            if x.op == "sum" and x.args[0].op == "gen" and x.args[0].args[1] is y:
                f, e = t.open_gen(x.args[0], t.fresh_lv())
                if e is ONE and f is not TRUE and modelled(f):
                    return [M(which + " filter", a, b)]
        if a.op in ACCUM and b.op in ACCUM and a.args[0] is b.args[0]:
            ka, kb = [t.map_stream(x.args[1], lambda e: t.item(e, ZERO)) for x in (a, b)]
            bits = "scatteror" in (a.op, b.op) and "dput" not in (a.op, b.op) and (a.args[1] is b.args[1] or added_bits(a, b) or added_bits(b, a))
            if ka is kb and bits and a.op != b.op:
                return [M("structural", a, b)]        # distinct bits may as well be added
            if ka is kb and modelled(a) and modelled(b):
                return [M("accumulation", a, b)]
            if t.set_(ka) is t.set_(kb) and modelled(a) and modelled(b) and (nested(a.args[1]) or constant_values(a) or constant_values(b)) and {a.op, b.op} == {"dput", "scatter"}:
                return [M("accumulation", a, b)]
        for x, y in ((a, b), (b, a)):
            if x.op in ("mod", "floordiv") and y.op in ("min", "max") and modelled(x) and modelled(y):
                return [M("operator", a, b)]
            if x.op in ("maxof", "minof", "sum") and x.args[0].op == "gen" and x.args[0].args[2] is TRUE and y.op == "item" and x.args[0].args[1].op == "len" and x.args[0].args[1].args[0].op == "var":
                # one element of an arbitrary list against an aggregate over all of it
                L = x.args[0].args[1].args[0]
                l = t.fresh_lv()
                _, e = t.open_gen(x.args[0], l)
                if any(z.op == "item" and z.args[0] is L and t.numval(z.args[1]) is not None and t.replace(e, {t.item(L, l): z}) is y for z in t.subterms(y)):
                    return [M("aggregate", a, b)]
        for x, y in ((a, b), (b, a)):
            # a list against an element-wise image of it
            if x.op == "gen" and x.args[2] is TRUE and x.args[3].op != "flat" and (y.op in ("var", "attr", "item", "rcall", "callv") and (x.args[1] is t.length(y) or x.args[1].op == "len") or y.op in ("suffixsum", "prefixsum") and x.args[1] is t.length(y) and y in [z.args[0] for z in t.subterms(x) if z.op == "item"]):
                l = t.fresh_lv()
                _, e = t.open_gen(x, l)
                return self.diff(e, t.item(y, l), d, sp) if x is a else self.diff(t.item(y, l), e, d, sp)
            if x.op == "gen" and x.args[2] is TRUE and x.args[3].op == "item" and y.op in ("var", "attr", "item", "rcall", "callv"):
                l = t.fresh_lv()
                _, e = t.open_gen(x, l)
                if e.op == "item" and e.args[0].op == y.op and e.args[1] is l and (e.args[0] is y or not self.diff(e.args[0], y, d + 1, sp)) and t.numval(t.sub(x.args[1], t.length(e.args[0]))):
                    return [M("length", a, b)]
            if x.op == "gen" and x.args[2].op in ("lt0", "le0") and x.args[3].op == "item" and x.args[3].args[0] is y and y.op == "var":
                # an arbitrary list of numbers against those of its entries beyond some bound
                l = t.fresh_lv()
                f, e = t.open_gen(x, l)
                if e is t.item(y, l) and e in atoms(f.args[0]) and atoms(f.args[0]) == {e}:
                    return [M("filter", a, b)]
            if x.op in ("sum", "maxof", "minof") and y.op == "item" and x.args[0] is y.args[0]:
                return [M("aggregate" if t.numval(y.args[1]) is None else "aggregate?", a, b)]
            if x.op == "truth" and y.op in rel and atoms(y.args[0]) in ({x.args[0]}, {mk("len", x.args[0])}) and t._poly(y.args[0]).get(()):
                return [M("comparison", a, b)]
            if x.op == "not" and x.args[0].op in rel and y.op in rel and atoms(x.args[0].args[0]) & atoms(y.args[0]) and modelled(x) and modelled(y) and len(atoms(x.args[0].args[0]) | atoms(y.args[0])) <= 3:
                return [M("comparison", a, b)]
            if x.op in ("min", "max") and len(x.args[0]) == 2 and shape(y) is not None and all(shape(z) == shape(y) for z in x.args[0]) and y not in x.args[0]:
                return [M("extreme", a, b)]     # the larger of two entries against one picked by position
        for x, y in ((a, b), (b, a)):
            if x.op == "sum" and x.args[0].op == "gen" and x.args[0].args[3].op != "flat" and y.op in ("max", "maxof", "min", "minof"):
                # all of them together against the largest
                e = t.extreme("maxof" if y.op[:3] == "max" else "minof", x.args[0])
                if e is y or t._minmax(y.op[:3], [ZERO, e]) is y:
                    return [M("operator", a, b)]
        pairs = [{"min", "max"}, {"maxof", "minof"}, {"prefixsum", "suffixsum"}, {"maxof", "sum"}, {"minof", "sum"}, {"prod", "sum"}, {"and", "or"}, {"bitand", "bitor"}]
        if {a.op, b.op} in pairs:
            ca, cb = set(t.children(a)), set(t.children(b))
            if ca == cb:
                return [M("operator", a, b)]
        la, lb = simple_leaf(a), simple_leaf(b)
        if la and lb:
            return [M("leaf", a, b)]
        if (la and t.is_const(a)) or (lb and t.is_const(b)):
            o = b if la and t.is_const(a) else a
            if modelled(o) and size(o) < 120:
                return [M("constant", a, b)]
        if a.op in ("and", "or") and b.op not in ("and", "or") or b.op in ("and", "or") and a.op not in ("and", "or"):
            x, y = (a, b) if a.op in ("and", "or") else (b, a)
            if t.is_bool(y) or y.op in ("lt0", "le0"):
                return self.sets(a, b, list(a.args[0]) if a is x else [a], list(b.args[0]) if b is x else [b], d, sp)
        if seqlike(a) and seqlike(b):
            # lists of different lengths differ, whatever they hold
            la, lb = t.length(a), t.length(b)
            s1 = single(la) | single(lb)
            if not t.has_op(a, ("fmt", "join", "strcat")) and len(s1) == 1 and next(iter(s1)).op == "len" and simple_leaf(next(iter(s1)).args[0]):
                va, vb = at_point(la, 10 ** 6), at_point(lb, 10 ** 6)
                if va is not None and vb is not None and va != vb:
                    return [M("length", a, b)]
        return [M("structural", a, b)]

    def rel(self, a, b, d, sp):
        da, db = a.args[0], b.args[0]
        if da is db:
            return [M("comparison", a, b)]
        # same atoms?
        at, bt = atoms(da), atoms(db)
        if at == bt:
            return [M("comparison", a, b)]
        r = self.poly(da, db, d, sp)
        return r

    def poly(self, a, b, d, sp):
        A, B = atoms(a), atoms(b)
        cases = sorted(x for x in A ^ B if x.op == "ite")
        if cases and sp < self.maxsplit:
            c = cases[0].args[0]
            out = []
            for val in (True, False):
                out += self.diff(specialise(a, c, val), specialise(b, c, val), d, sp + 1)
            if not out or not any(m.kind in SOFT for m in out):
                return out
        if A == B:
            if all(modelled(x) for x in A):
                return [M("arithmetic", a, b)]
            return [M("unmodelled", a, b)]
        onlya, onlyb = A - B, B - A
        for xs, p, q, which in ((onlya, a, b, "extra"), (onlyb, b, a, "missing")):
            for x in xs:
                kids = list(x.args[0]) if x.op in ("min", "max") else [x.args[0]] if x.op == "abs" else []
                if any(t.replace(p, {x: k}) is q for k in kids):
                    return [M("%s %s" % (which, x.op), a, b)]
        if len(onlya) == 1 and len(onlyb) == 1:
            x, y = next(iter(onlya)), next(iter(onlyb))
            r = swapped(a, x, y)
            if r is not b:
                r = t.replace(a, {x: y})
            if r is b or atoms(r) == B:
                m = self.diff(x, y, d, sp)
                if r is not b:
                    if not any(k.kind in SOFT for k in m):
                        return [M("arithmetic", a, b)]
                    m = m + [M("arithmetic", r, b)]
                return m
        if len(onlya) == len(onlyb) and 1 < len(onlya) <= 3:
            import itertools
            best = None
            xs = sorted(onlya)
            perms = [p for p in itertools.permutations(sorted(onlyb)) if t.replace(a, dict(zip(xs, p))) is b]
            alike = [sum(skeleton(x) == skeleton(y) for x, y in zip(xs, p)) for p in perms]
            for perm, n in zip(perms, alike):
                if n == max(alike):
                    ms = []
                    for x, y in zip(xs, perm):
                        ms += self.diff(x, y, d, sp)
                    if best is None or score(ms) < score(best):
                        best = ms
            if best is not None:
                return best
        for p, q, rev in ((a, b, False), (b, a, True)):
            # first element(s) taken out of a sum on one side only
            P, Q = atoms(p), atoms(q)
            for g in sorted(x for x in Q - P if x.op == "sum" and x.args[0].op == "gen" and x.args[0].args[2] is TRUE and x.args[0].args[3].op != "flat"):
                _, first = t.open_gen(g.args[0], ZERO)
                if first in P - Q and any(x.op == "sum" for x in P - Q):
                    l = t.fresh_lv()
                    _, e = t.open_gen(g.args[0], t.add(l, ONE))
                    q2 = t.replace(q, {g: t.add(first, mk("sum", t.mk_gen(l, t.sub(g.args[0].args[1], ONE), TRUE, e)))})
                    if first in atoms(q2) and first not in atoms(t.sub(p, q2)):
                        return self.poly(q2, p, d + 1, sp) if rev else self.poly(p, q2, d + 1, sp)
        da, db = degrees(a), degrees(b)
        if da is not None and db is not None and da != db:
            return [M("arithmetic", a, b)]
        if (not onlya or not onlyb) and all(modelled(x) for x in onlya | onlyb):
            if all(size(x) < 60 for x in onlya | onlyb):
                return [M("arithmetic", a, b)]
        # one side is a plain number
        if t.numval(a) is not None or t.numval(b) is not None:
            o = b if t.numval(a) is not None else a
            if modelled(o) and size(o) < 120:
                return [M("constant", a, b)]
        # wrapper around one atom
        for x, y in ((a, b), (b, a)):
            if x.op in WRAP and any(k is y for k in t.children(x)):
                return [M("wrapper " + x.op, a, b)]
            if x.op in COMMUT and y in x.args[0]:
                return [M("wrapper " + x.op, a, b)]
            if x.op == "call" and y in x.args[1]:
                return [M("soft" if x.args[0] in SOFTWRAP else "wrapper " + x.args[0], a, b)]
        if simple_leaf(a) and modelled(b) and size(b) < 40 or simple_leaf(b) and modelled(a) and size(a) < 40:
            return [M("leaf", a, b)]
        l = t.fresh_lv()
        pa, pb = pushed(a, l), pushed(b, l)
        if pa is not None and pb is not None and pa[0] is pb[0]:
            # (not conclusive where the two merely name the indices of a double sum the other way round)
            ms = self.diff(pa[1], pb[1], d + 1, sp)
            if ms and all(m.kind.split(" ")[0] in ("extra", "missing") for m in ms):
                return ms
        return [M("structural", a, b)]

    def observed(self, a, b):
        """a field of an object on one side, what one of its methods says about another input on the other"""
        for x, y in ((a, b), (b, a)):
            if x.op == "mcall" and y.op == "attr" and not t.has_op(x, HIDING) and not t.has_op(y, HIDING):
                o = x
                given = set()
                while o.op == "mcall":
                    for z in o.args[2]:
                        given |= sources(z)
                    o = o.args[0]
                if o is y.args[0] and any(not any(q == g or q.startswith(g) or g.startswith(q) for q in sources(y)) for g in given):
                    return True
        return False

    # -- same operator -------------------------------------------------------
    def generic(self, a, b, d, sp):
        if len(a.args) != len(b.args):
            return [M("structural", a, b)]
        out = []
        for x, y in zip(a.args, b.args):
            out += self.arg(a, b, x, y, d, sp)
        return out

    def arg(self, a, b, x, y, d, sp):
        if isinstance(x, t.T) and isinstance(y, t.T):
            return self.diff(x, y, d, sp)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x and y and all(isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], str) for e in x + y):
                return self.keyed(a, b, x, y, d, sp)
            if len(x) != len(y):
                return [M("arity", a, b)]
            out = []
            for p, q in zip(x, y):
                out += self.arg(a, b, p, q, d, sp)
            return out
        if x != y:
            if isinstance(x, (str, int)) and type(x) == type(y):
                return [M("leaf", a, b)]
            return [M("structural", a, b)]
        return []

    def keyed(self, a, b, x, y, d, sp):
        dx, dy = dict(x), dict(y)
        out = []
        for k in list(dx) + [k for k in dy if k not in dx]:
            if k not in dx or k not in dy:
                out.append(M("missing key" if k not in dx else "extra key", a, b, str(k if isinstance(k, str) else t.show(k))))
            else:
                out += self.diff(dx[k], dy[k], d, sp)
        return out

    def gens(self, a, b, d, sp):
        out = self.diff(a.args[1], b.args[1], d, sp)
        l = t.fresh_lv()
        fa, ea = t.open_gen(a, l)
        fb, eb = t.open_gen(b, l)
        if (ea.op == "flat") != (eb.op == "flat"):
            return [M("structural", a, b)]
        if out and fa is TRUE and fb is TRUE and ea.op == eb.op == "strcat" and all(m.kind in ("extra set", "missing set") for m in out):
            return out      # one piece of text for each entry, against one for each distinct entry
        out = out + self.diff(fa, fb, d, sp) if fa is not fb else out
        out = out + self.diff(ea, eb, d, sp)
        if any(m.kind in SOFT for m in out):
            # the same function of the values of two different tables
            z = t.fresh_lv()
            da, db = [next(iter(sorted(y.args[0] for y in t.subterms(e) if y.op == "item" and y.args[0].op in ACCUM + ("fold",)
                                       and (y.args[1].op == "item" and y.args[1].args[0].op == "keys" and y.args[1].args[0].args[0] is y.args[0] and y.args[1].args[1] is l or y.args[1] is l))), None)
                      for e in (ea, eb)]
            if da is not None and db is not None and da is not db and fa is fb:
                ra, rb = [t.replace(e, {t.item(x, t.item(mk("keys", x), l)): z, mk("item", x, l): z}) for e, x in ((ea, da), (eb, db))]
                if ra is rb and a.args[1] is t.length(da) and b.args[1] is t.length(db):
                    return self.diff(da, db, d, sp)
        if len(out) >= 3 and all(m.kind in ("structural", "leaf", "arithmetic") for m in out) and size(a) > 3 and not shares(a, b):
            return [M("structural", a, b)]
        return out

    def sets(self, a, b, xs, ys, d, sp):
        ox = [x for x in xs if x not in ys]
        oy = [y for y in ys if y not in xs]
        if not ox or not oy:
            rest = ox or oy
            if len(rest) <= 3 and all(modelled(r) for r in rest):
                return [M("missing operand" if oy else "extra operand", a, b)]
            return [M("structural", a, b)]
        if len(ox) == 1 and len(oy) == 1:
            return self.diff(ox[0], oy[0], d, sp)
        if len(ox) == len(oy) and len(ox) <= 3:
            import itertools
            best = None
            for perm in itertools.permutations(oy):
                ms = []
                for x, y in zip(ox, perm):
                    ms += self.diff(x, y, d, sp)
                if best is None or score(ms) < score(best):
                    best = ms
            return best
        # try to pair by best match, remaining operands count as missing/extra
        small, big = (ox, oy) if len(ox) < len(oy) else (oy, ox)
        left = list(big)
        out = []
        for x in small:
            best = None
            for y in left:
                p, q = (x, y) if small is ox else (y, x)
                ms = self.diff(p, q, d, sp)
                if best is None or score(ms) < score(best[1]):
                    best = (y, ms)
            out += best[1]
            left.remove(best[0])
        if len(left) <= 2 and all(modelled(r) for r in left) and not any(m.kind in ("structural", "unmodelled") for m in out):
            return out + [M("missing operand" if big is oy else "extra operand", a, b)]
        return [M("structural", a, b)]

    def parts(self, a, b, xs, ys, d, sp):
        # strip common prefix / suffix
        i = 0
        while i < min(len(xs), len(ys)) and xs[i] is ys[i]:
            i += 1
        j = 0
        while j < min(len(xs), len(ys)) - i and xs[-1 - j] is ys[-1 - j]:
            j += 1
        rx, ry = xs[i:len(xs) - j], ys[i:len(ys) - j]
        if not rx or not ry:
            rest = rx or ry
            if len(rest) <= 3 and all(modelled(r) for r in rest) and (i + j > 0 or a.op in ("seq", "strcat")):
                return [M("missing part" if ry else "extra part", a, b)]
            return [M("structural", a, b)]
        if len(rx) == len(ry):
            if sorted(rx) == sorted(ry) and all(modelled(r) for r in rx):
                return [M("order", a, b)]
            out = []
            for x, y in zip(rx, ry):
                out += self.diff(x, y, d, sp)
            return out
        return [M("structural", a, b)]

    def split(self, a, b, d, sp):
        if sp >= self.maxsplit:
            return [M("structural", a, b)]
        c = b.args[0] if b.op == "ite" else a.args[0]
        if a.op == "ite" and b.op == "ite" and a.args[0] is not c:
            # same shape, different condition: a wrong condition
            if a.args[1] is b.args[1] and a.args[2] is b.args[2]:
                return self.diff(a.args[0], b.args[0], d, sp + 1)
            n = t.not_(a.args[0])
            if a.args[1] is b.args[2] and a.args[2] is b.args[1]:
                return self.diff(n, b.args[0], d, sp + 1)
            for ca, xa, ya in ((a.args[0], a.args[1], a.args[2]), (n, a.args[2], a.args[1])):
                ms = self.diff(ca, b.args[0], d, sp + 1) + self.diff(xa, b.args[1], d, sp + 1) + self.diff(ya, b.args[2], d, sp + 1)
                if not any(m.kind in SOFT for m in ms):
                    return ms
        out = []
        for val in (True, False):
            x, y = specialise(a, c, val), specialise(b, c, val)
            ms = self.diff(x, y, d, sp + 1)
            for m in ms:
                out.append(M(m.kind, m.a, m.b, (m.note + " when %s%s" % ("" if val else "not ", t.show(c)[:80])) if not m.note else m.note))
        return out


def shares(a, b):
    la = {x for x in t.subterms(a) if x.op in ("var", "attr")}
    lb = {x for x in t.subterms(b) if x.op in ("var", "attr")}
    return bool(la & lb)


def drawn(x):
    """a draw with replacement, or an element of a vector of such draws"""
    while x.op == "item":
        x = x.args[0]
    return x.op == "rand" and x.args[0] in ("integers", "randint", "random", "rand", "uniform", "normal", "poisson", "gamma", "exponential", "zipf")


def skeleton(x):
    """what is read, without the index it is read at"""
    if x.op == "attr":
        return (skeleton(x.args[0]), x.args[1])
    if x.op == "item":
        return (skeleton(x.args[0]), "[]")
    return x


def score(ms):
    return sum({"structural": 50, "unmodelled": 50, "soft": 1}.get(m.kind, 3) for m in ms)


def atoms(x):
    return {a for m in t._poly(x) for a, e in m}


def size(x):
    return sum(1 for _ in t.subterms(x))


def modelled(x):
    return not t.has_op(x, UNMODELLED)


def raw(g):
    """the elements of an arbitrary list, in the order given"""
    return g.op == "gen" and g.args[1].op == "len" and g.args[1].args[0].op == "var" and g.args[2] is TRUE and not t.has_op(g, ("sorted",)) or g.op == "var"


def nested(g):
    """keys may come up again in a later round of the outer loop"""
    return g.op == "gen" and g.args[3].op == "flat"


def constant_values(x):
    e = x.args[1]
    while e.op == "gen":
        e = e.args[3]
        if e.op == "flat":
            e = e.args[0]
    return x.op == "dput" and e.op == "seq" and len(e.args) == 2 and t.is_const(e.args[1])


def inner_key(g):
    while g.op == "gen":
        e = g.args[3]
        if e.op == "flat":
            g = e.args[0]
            continue
        return e.args[0] if e.op == "seq" and len(e.args) == 2 else None
    return None


def skipping(f):
    """a loop that leaves its table as it is once the table has reached some size"""
    lam = f.args[4] if len(f.args) > 4 else None
    if lam is None or lam.op != "lam":
        return False
    ls = [t.fresh_lv() for _ in range(lam.args[1])]
    body = t.apply_lam(lam, ls)
    if body.op != "seq" or len(body.args) != 1 or body.args[0].op != "ite":
        return False
    c, x, y = body.args[0].args
    acc = ls[1] if len(ls) > 1 else None
    if acc is None or not (x is acc) != (y is acc):
        return False
    return c.op in ("le0", "lt0") and mk("len", acc) in atoms(c.args[0]) and all(v is mk("len", acc) or not t.occurs(acc, v) for v in atoms(c.args[0]))


def double(x, i, j):
    """a sum of sums over two independent ranges: (first range, second range, the term at i, j)"""
    g = x.args[0]
    if g.op != "gen" or g.args[2] is not TRUE:
        return None
    _, e = t.open_gen(g, i)
    if e.op == "flat":
        e = t.sum_(e.args[0]) if hasattr(t, "sum_") else mk("sum", e.args[0])
    p = pushed(e, j)
    if p is None or t.occurs(i, p[0]):
        return None
    return g.args[1], p[0], p[1]


def plain_counts(g):
    """one is counted under one key for each member"""
    return g.op == "gen" and g.args[3].op == "seq" and len(g.args[3].args) == 2 and g.args[3].args[1] is ONE


def pushed(x, l):
    """a product with one sum in it, as the sum of the products: (number of terms, the term at an arbitrary index)"""
    if x.op not in ("poly", "sum") or len(t._poly(x)) != 1:
        return None
    (m, c), = t._poly(x).items()
    sums = [(y, e) for y, e in m if y.op == "sum"]
    if len(sums) != 1 or sums[0][1] != 1:
        return None
    g = sums[0][0].args[0]
    if g.op != "gen" or g.args[2] is not TRUE or g.args[3].op == "flat":
        return None
    _, e = t.open_gen(g, l)
    return g.args[1], t.replace(x, {sums[0][0]: e})


def seqlike(x):
    return x.op in ("seq", "concat") or x.op == "gen" and x.args[2] is TRUE and x.args[3].op != "flat"


def single(x):
    """the one quantity a min/max/linear term is about"""
    if x.op == "num":
        return set()
    if x.op == "poly":
        r = set()
        for a in atoms(x):
            r |= single(a)
        return r
    if x.op in ("min", "max"):
        r = set()
        for a in x.args[0]:
            r |= single(a)
        return r
    return {x}


def at_point(x, n):
    """value of such a term when that quantity is n"""
    if x.op == "num":
        return x.args[0]
    if x.op == "poly":
        r = 0
        for m, c in t._poly(x).items():
            for a, e in m:
                v = at_point(a, n)
                if v is None or e != 1:
                    return None
                c = c * v
            r += c
        return r
    if x.op in ("min", "max"):
        vs = [at_point(a, n) for a in x.args[0]]
        return None if None in vs else (min if x.op == "min" else max)(vs)
    return n if len(single(x)) == 1 and simple_leaf(x) else None


def degrees(x, depth=0):
    """the monomials of a polynomial in its inputs, each as total degree per input; None when not a plain polynomial.
    Sums over collections are looked through, so the order of nested sums does not matter."""
    if depth > 12:
        return None
    if x.op == "num":
        return {()} if x is not ZERO else set()
    if x.op in ("poly",):
        out = set()
        for m in t._poly(x):
            cur = {()}
            for a, e in m:
                if e != int(e) or e < 0 or e > 4:
                    return None
                da = degrees(a, depth + 1)
                if da is None:
                    return None
                for _ in range(int(e)):
                    cur = {join(p, q) for p in cur for q in da}
                    if len(cur) > 200:
                        return None
            out |= cur
        return out
    if x.op == "sum" and x.args[0].op == "gen":
        g = x.args[0]
        if g.args[2] is not t.TRUE:
            return None
        e = g.args[3]
        if e.op == "flat":
            return degrees(mk("sum", e.args[0]), depth + 1) if e.args[0].op == "gen" else None
        return degrees(e, depth + 1)
    y = x
    while y.op == "item":
        y = y.args[0]
    if y.op == "var" or y.op == "attr" and simple_leaf(y):
        return {((y, 1),)}
    return None


def join(p, q):
    d = dict(p)
    for k, v in q:
        d[k] = d.get(k, 0) + v
    return tuple(sorted(d.items()))


def simple_leaf(x):
    while x.op in ("attr", "item", "len"):
        if x.op == "item" and not simple_leaf(x.args[1]):
            return False
        x = x.args[0]
    return x.op in LEAF or x.op == "poly" and all(simple_leaf(a) for a in atoms(x))


SOFT = {"structural", "unmodelled", "soft"}


HIDING = ("opaque", "unknown", "whilev", "maybe", "never", "excval", "undef", "cyclic", "exc", "carry", "closure", "star")


def sources(x, full=False):
    """input access paths the value is computed from (elements of one collection share a path)"""
    out, seen = set(), set()

    def path(y):
        if y.op == "var":
            return y.args[0]
        if y.op == "attr":
            p = path(y.args[0])
            return None if p is None else p + "." + str(y.args[1])
        if y.op == "item":
            p = path(y.args[0])
            if p is None:
                return None
            k = y.args[1]
            if y.args[0].op == "item" and k.op in ("num", "const"):
                return p + "[%s]" % t.show(k)
            return p + "[]"
        return None

    def go(y):
        if y in seen:
            return
        seen.add(y)
        if y.op in ("len", "truth", "isnone", "isinstance") and not full:
            return
        if y.op == "rcall":
            out.add(y.args[0] + "()")
        p = path(y)
        if p is not None:
            out.add(p)
            while y.op in ("attr", "item"):
                if y.op == "item":
                    go(y.args[1])
                y = y.args[0]
            return
        for c in t.children(y):
            go(c)
    go(x)
    return out


COMPUTED = set()        # (field, field): computed by a constructor from the same input

REMOVE = ("setdiscard", "setremove", "setclear", "setdifference_update", "setintersection_update", "removed", "ddel")


def dependence(a, b):
    """differences in what the two values are computed from; only for fully visible terms"""
    if t.has_op(b, HIDING):
        return []
    visible = not t.has_op(a, HIDING)
    sa, sb = sources(a), sources(b)
    if t.has_op(a, ("bitxor",)):
        sa = {p for p in sa if p != "$old"}
    fa, fb = sources(a, True), sources(b, True)
    def cover(p, whole, S):
        parts = p.split(".")
        for i in range(len(parts) - 1, 0, -1):
            # another field of the same object, computed by the constructor from the same input
            f = parts[i].split("[")[0]
            pre = ".".join(parts[:i]) + "."
            if any(q.startswith(pre) and (f, q[len(pre):].split(".")[0].split("[")[0]) in COMPUTED for q in S):
                return True
        return any(q == p or q.startswith(p + ".") or q.startswith(p + "[") for q in S) or any(p.startswith(q + ".") or p.startswith(q + "[") for q in whole)
    out = []
    # a method called on an object whose class is not known may be any of that name
    dyn = {y.args[1] for y in t.subterms(a) if y.op == "mcall"}
    for p in sorted(sb):
        if p.endswith("()") and p[:-2].rsplit(".", 1)[-1] in dyn:
            continue
        if visible and not cover(p, sa, fa):
            out.append(M("dependence", const("does not depend on " + p), const("depends on " + p)))
    for p in sorted(sa):
        if not cover(p, sb, fb):
            out.append(M("dependence", const("depends on " + p), const("does not depend on " + p)))
    if t.has_op(a, REMOVE) and not t.has_op(b, REMOVE) and not out:
        out.append(M("dependence", const("drops elements"), const("keeps every element")))
    return out


def other_start(ps, qs):
    """same keys; a counter that starts from a constant other than 0"""
    kp, kq = [t.strip_perm(t.map_stream(x, lambda e: t.item(e, ZERO))) for x in (ps, qs)]
    if kp is not kq:
        return False
    return any(y.op == "oldor" and t.numval(y.args[0]) not in (None, 0) for y in t.subterms(ps))


def starts_late(x):
    """scatter into zeros whose first entries are never touched"""
    if x.args[0].op != "gen" or x.args[0].args[3] is not ZERO or x.args[1].op != "gen":
        return False
    e = t.open_gen(x.args[1], t.fresh_lv())[1]
    if e.op != "flat" or e.args[0].op != "gen":
        return False
    i = t.fresh_lv()
    kv = t.open_gen(e.args[0], i)[1]
    return kv.op == "seq" and len(kv.args) == 2 and (t.numval(t.sub(kv.args[0], i)) or 0) > 0


def mask_test(x, y):
    """r & m == r  against  r & m != 0"""
    if x.op == "eq0" and y.op == "not" and y.args[0].op == "eq0":
        z = y.args[0].args[0]
        if z.op == "bitand":
            return any(t.sub(z, r) is x.args[0] or t.sub(r, z) is x.args[0] for r in z.args)
    return False


def once_each(g):
    """the stream g without the repetition of each element"""
    l = t.fresh_lv()
    f, e = t.open_gen(g, l)
    if e.op != "flat" or e.args[0].op != "gen" or e.args[0].args[2] is not TRUE or e.args[0].args[3].op == "flat":
        return None
    i = t.fresh_lv()
    v = t.open_gen(e.args[0], i)[1]
    if t.occurs(i, v) or t.numval(e.args[0].args[1]) is not None:
        return None
    return t.mk_gen(l, g.args[1], f, v)


def counted_again(x, y):
    """x: for every member of one collection, the sum over those of another it selects by a bit; y: one sum over the other"""
    if x.op != "gen" or y.op != "gen" or y.args[3].op == "flat":
        return False
    l = t.fresh_lv()
    f, e = t.open_gen(x, l)
    if f is not TRUE:
        return False
    g = e.args[0] if e.op in ("sum", "flat") else None
    if g is None or g.op != "gen" or g.args[1] is not y.args[1] or t.occurs(l, g.args[1]):
        return False
    k = t.fresh_lv()
    (fg, eg), (fy, ey) = t.open_gen(g, k), t.open_gen(y, k)
    return eg is ey and not t.occurs(l, eg) and t.occurs(l, fg) and t.has_op(fg, ("bitand",)) and t.has_op(fy, ("bitand",))


def one_call(a, b):
    """the two differ only in the arguments of one call (of an opaque function or a probability law), and those differ"""
    def calls(x):
        return {y for y in t.subterms(x) if y.op == "rcall" or y.op == "call" and y.args[0].startswith("scipy.stats.")}
    ca, cb = calls(a), calls(b)
    xs, ys = ca - cb, cb - ca
    # calls enclosing another differing call differ because of it
    inner = lambda zs: [z for z in zs if not any(w is not z and w in zs for w in t.subterms(z))]
    xs, ys = inner(xs), inner(ys)
    if len(xs) != 1 or len(ys) != 1 or xs[0].op != ys[0].op or xs[0].args[0] != ys[0].args[0]:
        return []
    try:
        if clean(t.replace(a, {xs[0]: ys[0]})) is not b:
            return []
    except RecursionError:
        return []
    st, ms = verdict(xs[0], ys[0], dep=False)
    return ms if st == "differs" else []


def added_bits(a, b):
    """a combines with ^ the powers of two which b combines with |"""
    x = [y for y in t.subterms(a) if y.op == "bitxor"]
    if len(x) != 1 or len(x[0].args) != 2:
        return False
    v = [y for y in x[0].args if y.op == "pow" and t.numval(y.args[0]) == 2]
    return len(v) == 1 and any(y.op == "seq" and len(y.args) == 2 and y.args[1] is v[0] for y in t.subterms(b.args[1]))


def swapped(p, x, y):
    """the polynomial p with y for its atom x, and x left as it is inside other atoms"""
    out = ZERO
    for m, c in t._poly(p).items():
        v = t.const(c)
        for z, e in m:
            v = t.mul(v, t.power(y if z is x else z, t.const(e)))
        out = t.add(out, v)
    return out


def verdict(a, b, limit=5, dep=True, closed=False):
    """-> ('equal'|'differs'|'undecided', mismatches)"""
    if a is b:
        return "equal", []
    a2, b2 = clean(a), clean(b)
    if a2 is b2:
        return "equal", []
    ms = Differ().diff(a2, b2)
    if not ms:
        return "equal", []
    # an index that has escaped from its loop on one side only is not a value that can be compared
    stray = {x for x in set(t.free_lvs(a2)) ^ set(t.free_lvs(b2)) if x.op == "lv"}
    if closed and stray:
        ms = [M("unmodelled", m.a, m.b) if m.kind not in SOFT and stray & (set(t.free_lvs(m.a)) | set(t.free_lvs(m.b))) else m for m in ms]
    seen, uniq = set(), []
    for m in ms:
        if (m.a, m.b) not in seen:
            seen.add((m.a, m.b))
            uniq.append(m)
    sure = [m for m in uniq if m.kind != "aggregate?"]      # the collection may have one element
    if any(m.kind in SOFT for m in uniq) or len(uniq) > limit or not sure:
        d = (dependence(a2, b2) or one_call(a2, b2)) if dep else []
        if d:
            return "differs", d[:limit]
        return "undecided", uniq
    return "differs", uniq

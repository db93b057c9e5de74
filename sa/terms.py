"""Interned value terms with normalising constructors (value numbering).

A term denotes the value an expression has, as a function of the inputs of the
analysed entry point.  Equal terms denote equal values; loops that build
collections or totals are represented by binder terms `gen`.
"""
from fractions import Fraction
import math
from functools import lru_cache

_table = {}
_counter = [0]


class T:
    __slots__ = ("op", "args", "uid", "bh", "mask")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.uid < o.uid


BINDERS = ("gen", "lam")


_opbits = {}


def opbit(op):
    b = _opbits.get(op)
    if b is None:
        b = _opbits[op] = 1 << len(_opbits)
    return b


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args = op, args
        _counter[0] += 1
        t.uid = _counter[0]
        bh = 0
        mask = opbit(op)
        for c in children(t):
            if c.bh > bh:
                bh = c.bh
            mask |= c.mask
        if op in BINDERS:
            bh = args[0]
        t.bh = bh
        t.mask = mask
        _table[key] = t
    return t


def _kids(a, out):
    if isinstance(a, T):
        out.append(a)
    elif isinstance(a, tuple):
        for x in a:
            _kids(x, out)


def children(t):
    out = []
    for a in t.args:
        _kids(a, out)
    return out


def subterms(t, seen=None):
    """all distinct subterms, parents first"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def occurs(x, t):
    """x is a subterm of t (subterms are created before their parents)"""
    u = x.uid
    if t.uid < u or (t.mask & x.mask) != x.mask:
        return False
    seen = set()
    stack = [t]
    m = x.mask
    while stack:
        y = stack.pop()
        if y is x:
            return True
        if y.uid <= u or y.uid in seen or (y.mask & m) != m:
            continue
        seen.add(y.uid)
        stack.extend(children(y))
    return False


def has_op(t, ops):
    m = 0
    for o in ops:
        m |= opbit(o)
    return bool(t.mask & m)


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk("const", type(v).__name__, v)
    if isinstance(v, Fraction):
        return mk("num", v)
    if isinstance(v, int):
        return mk("num", Fraction(v))
    if isinstance(v, float):
        if math.isinf(v):
            return mk("ext", "numpy.inf") if v > 0 else neg(mk("ext", "numpy.inf"))
        if math.isnan(v):
            return mk("ext", "numpy.nan")
        return mk("num", Fraction(repr(v)))
    return mk("const", type(v).__name__, repr(v))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)
EMPTY = mk("seq")
EMPTYDICT = mk("dict", ())


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0] if t.op == "num" else None


def is_const(t):
    return t.op in ("num", "const")


def strval(t):
    if t.op == "const" and t.args[0] == "str":
        return t.args[1]
    return None


# types of free variables: var term -> type descriptor
VAR_TYPES = {}
GIVEN = set()          # variables known not to be None


def var(name, typ=None):
    t = mk("var", name)
    if typ is not None:
        VAR_TYPES[t] = typ
    return t


_lv = [0]


def fresh_lv():
    _lv[0] += 1
    return mk("lv", _lv[0])


_op = [0]


def opaque(why, *deps):
    _op[0] += 1
    return mk("opaque", _op[0], why, tuple(deps))


# ---------------------------------------------------------------- polynomials
def _poly(t):
    """-> dict {monomial: Fraction}, monomial = tuple((atom,exp),...) sorted"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return {m: c for c, m in t.args[0]}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    if is_bool(t):
        return {((bit(t), 1),): Fraction(1)}
    return {((t, 1),): Fraction(1)}


def bit(c):
    """the number 1 when c holds, 0 otherwise"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == "not":
        return mk("ite", c.args[0], ZERO, ONE)
    n = not_(c)
    if n.uid < c.uid and n.op != "not":
        return mk("ite", n, ZERO, ONE)
    return mk("ite", c, ONE, ZERO)


def _unpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if any(e < 0 and a.op == "poly" for m in d for a, e in m):
        d = _cancel(d)
        if not d:
            return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(((c, m) for m, c in d.items()), key=lambda x: _mkey(x[1]))
    return mk("poly", tuple(items))


def _cancel(d):
    """cancel N/P where N is a monomial multiple of the polynomial P"""
    for P in {a for m in d for a, e in m if e < 0 and a.op == "poly"}:
        pd = _poly(P)
        with_, without = {}, {}
        for m, c in d.items():
            if any(a is P and e < 0 for a, e in m):
                with_[_mmul(m, ((P, 1),))] = c
            else:
                without[m] = c
        num = dict(with_)
        quot = {}
        changed = False
        lead = max(pd, key=_mkey)
        for _ in range(20):
            hit = None
            for m in num:
                q = _mdiv_exact(m, lead)
                if q is not None:
                    # only useful if all terms of q*P are present in num
                    if all(_mmul(q, pm) in num for pm in pd):
                        hit = (m, q)
                        break
            if not hit:
                break
            m, q = hit
            k = num[m] / pd[lead]
            for pm, pc in pd.items():
                mm = _mmul(q, pm)
                num[mm] = num.get(mm, 0) - k * pc
                if num[mm] == 0:
                    del num[mm]
            quot[q] = quot.get(q, 0) + k
            changed = True
        if changed:
            d = dict(without)
            for m, c in quot.items():
                d[m] = d.get(m, 0) + c
            for m, c in num.items():
                mm = _mmul(m, ((P, -1),))
                d[mm] = d.get(mm, 0) + c
            d = {m: c for m, c in d.items() if c != 0}
    return d


def _mdiv_exact(m, lead):
    dm = dict(m)
    for a, e in lead:
        if dm.get(a, 0) < e:
            return None
        dm[a] = dm.get(a, 0) - e
    return tuple(sorted(((a, e) for a, e in dm.items() if e), key=lambda x: x[0].uid))


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def ratfun(x, limit=400, depth=0):
    """(numerator, denominator) polynomials over atoms that are not sums; None when too large"""
    num, den = {}, {(): Fraction(1)}
    for m, c in _poly(x).items():
        n, d = {(): c}, {(): Fraction(1)}
        for a, e in m:
            if not isinstance(e, int) and getattr(e, "denominator", 1) != 1:
                return None
            e = int(e)
            if a.op == "poly" and depth < 6:
                r = ratfun(a, limit, depth + 1)
                if r is None:
                    return None
                an, ad = r if e > 0 else (r[1], r[0])
            else:
                an, ad = ({((a, 1),): Fraction(1)}, {(): Fraction(1)}) if e > 0 else ({(): Fraction(1)}, {((a, 1),): Fraction(1)})
            for _ in range(abs(e)):
                n, d = _pmul(n, an), _pmul(d, ad)
                if len(n) > limit or len(d) > limit or not d:
                    return None
        if d == den:
            num = {m2: num.get(m2, 0) + n.get(m2, 0) for m2 in set(num) | set(n)}
        else:
            p, q = _pmul(num, d), _pmul(n, den)
            num = {m2: p.get(m2, 0) + q.get(m2, 0) for m2 in set(p) | set(q)}
            den = _pmul(den, d)
        num = {m2: c2 for m2, c2 in num.items() if c2}
        if len(num) > limit or len(den) > limit or not den:
            return None
    return num, den


def same_ratio(a, b):
    """equal as rational functions of their atoms"""
    deep = lambda x: x.op == "poly" and any(at.op == "poly" or e < 0 for m in _poly(x) for at, e in m)
    if not deep(a) and not deep(b):
        return False
    ra = ratfun(a)
    rb = ratfun(b) if ra is not None else None
    if rb is None:
        return False
    return _pmul(ra[0], rb[1]) == _pmul(rb[0], ra[1])


def _mkey(m):
    return (len(m), tuple((a.uid, e) for a, e in m))


def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].uid))


SEQISH = ("seq", "gen", "concat", "sorted", "slice", "rep")


def is_seq(t):
    if t.op in ("deepcopy", "copy"):
        return is_seq(t.args[0])
    if t.op == "ite":
        return is_seq(t.args[1]) and is_seq(t.args[2])
    if t.op == "scatter":
        return is_seq(t.args[0])
    return t.op in SEQISH or (t.op in ("suffixsum", "prefixsum", "reversed", "keys", "values", "items", "zip", "set"))


def is_str(t):
    return strval(t) is not None or t.op in ("strcat", "join", "fmt")


@lru_cache(maxsize=300000)
def add(a, b):
    if is_str(a) or is_str(b):
        return strcat([a, b])
    if a.op == "arr" or b.op == "arr":
        return lift(add, a, b)
    if is_seq(a) or is_seq(b):
        return concat([a, b])
    if a.op == "ite" and (is_seq(a.args[1]) or is_seq(a.args[2])):
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    d = dict(_poly(a))
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return _unpoly(d)


def neg(a):
    if a.op == "arr":
        return lift(lambda x, y: neg(x), a, ZERO)
    return mul(const(-1), a)


@lru_cache(maxsize=300000)
def sub(a, b):
    if a.op == "arr" or b.op == "arr":
        return lift(sub, a, b)
    if a.op in ("set", "keys", "dict", "scatter", "dput") or b.op == "set":
        return mk("call", "difference", (a, b), ())
    d = dict(_poly(a))
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) - c
    return _unpoly(d)


@lru_cache(maxsize=300000)
def mul(a, b):
    if a.op == "arr" or b.op == "arr":
        return lift(mul, a, b)
    for x, y in ((a, b), (b, a)):
        if x.op in ("seq", "concat") or (x.op == "gen"):
            return rep(x, y)
    for x, y in ((a, b), (b, a)):
        if is_bool(x):
            x = bit(x)
        if x.op == "ite" and (x.args[1] is ZERO or x.args[2] is ZERO) and y.op != "num":
            return ite(x.args[0], mul(x.args[1], y), mul(x.args[2], y))
    d = {}
    pa, pb = _poly(a), _poly(b)
    if len(pa) * len(pb) > 60:
        pa = {((a, 1),): Fraction(1)} if a.op == "poly" else pa
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _unpoly(d)


@lru_cache(maxsize=300000)
def div(a, b):
    if a.op == "arr" or b.op == "arr":
        return lift(div, a, b)
    pb = _poly(b)
    if not pb:
        return mk("call", "div", (a, b), ())
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = {tuple((x, -e) for x, e in m): 1 / c}
    else:
        lead = pb[max(pb, key=_mkey)]
        atom = _unpoly({m: c / lead for m, c in pb.items()})
        inv = {((atom, -1),): 1 / lead}
    d = {}
    for m1, c1 in _poly(a).items():
        for m2, c2 in inv.items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _unpoly(d)


def power(a, b):
    if a.op == "arr":
        return lift(power, a, b)
    n = numval(b)
    if n is not None and n.denominator == 1:
        n = int(n)
        if n == 0:
            return ONE
        if n == 1:
            return a
        p = _poly(a)
        if numval(a) is not None and (n > 0 or numval(a) != 0):
            return const(numval(a) ** n)
        if len(p) == 1:
            (m, c), = p.items()
            return _unpoly({tuple((x, e * n) for x, e in m): c ** n})
        if n == 2:
            return mul(a, a)
        if n == -1:
            return div(ONE, a)
    return mk("pow", a, b)


def shl(a, b):
    return mul(a, power(const(2), b))


def absv(a):
    if a.op == "arr":
        return lift(lambda x, y: absv(x), a, ZERO)
    if a.op == "num":
        return const(abs(a.args[0]))
    if a.op == "poly":
        items = a.args[0]
        if items[-1][0] < 0:
            a = neg(a)
    return mk("abs", a)


# ---------------------------------------------------------------- numeric kinds
def is_int(t):
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.op in ("len", "lv", "bv", "floordiv", "bitand", "bitor"):
        return True
    if t.op == "poly":
        return all(c.denominator == 1 and all(e > 0 and is_int(a) for a, e in m) for c, m in t.args[0])
    if t.op == "var":
        return VAR_TYPES.get(t) == "int" or len(t.args) > 1 and t.args[1] == "nat"
    if t.op == "sum":
        g = t.args[0]
        return g.op == "gen" and is_int(g.args[3])
    if t.op in ("min", "max"):
        return all(is_int(x) for x in t.args[0])
    if t.op == "call" and t.args[0] in ("int",):
        return True
    if t.op == "pow":
        return is_int(t.args[0]) and is_int(t.args[1])
    return False


def is_numeric(t):
    if is_int(t) or t.op in ("num", "poly", "abs", "pow", "sum", "min", "max"):
        return True
    if t.op == "var":
        return VAR_TYPES.get(t) in ("int", "float") or len(t.args) > 1
    return False


# ---------------------------------------------------------------- booleans
BOOLOPS = ("lt0", "le0", "eq0", "eq", "not", "and", "or", "truth", "isnone", "in", "all", "isinstance", "exc")


def is_bool(t):
    return t in (TRUE, FALSE) or t.op in BOOLOPS or (t.op == "call" and t.args[0] in ("any", "isinstance", "callable"))


@lru_cache(maxsize=300000)
def _scale(d):
    p = _poly(d)
    lead = p[max(p, key=_mkey)]
    k = abs(lead)
    return _unpoly({m: c / k for m, c in p.items()}), lead > 0


def _integral(d):
    """clear denominators of integer-atom polynomials, keep integrality"""
    p = _poly(d)
    if not all(all(e > 0 and is_int(a) for a, e in m) for m in p):
        return None
    l = 1
    for c in p.values():
        l = l * c.denominator // math.gcd(l, c.denominator)
    nonconst = [int(c * l) for m, c in p.items() if m != ()]
    if not nonconst:
        return None
    g = 0
    for c in nonconst:
        g = math.gcd(g, c)
    k = Fraction(l, g)
    return {m: c * k for m, c in p.items()}


def is_nonneg(t):
    """value is known to be >= 0"""
    o = t.op
    if o == "num":
        return t.args[0] >= 0
    if o in ("len", "lv", "bv", "abs", "firstidx"):
        return True
    if o == "var":
        return len(t.args) > 1
    if o == "poly":
        return all(c >= 0 and all(is_nonneg(a) for a, e in m) for c, m in t.args[0])
    if o == "sum":
        g = t.args[0]
        return g.op == "gen" and is_nonneg(g.args[3])
    if o == "max":
        return any(is_nonneg(x) for x in t.args[0])
    if o == "min":
        return all(is_nonneg(x) for x in t.args[0])
    if o == "pow":
        return is_nonneg(t.args[0])
    if o == "ite":
        return is_nonneg(t.args[1]) and is_nonneg(t.args[2])
    if o == "rand":
        return t.args[0].rsplit(".", 1)[-1] in NONNEG_DRAWS
    if o == "item":
        x = t.args[0]
        return x.op == "rand" and x.args[0].rsplit(".", 1)[-1] in NONNEG_DRAWS and x.args[0].rsplit(".", 1)[-1] != "choice"
    return False


POS_DRAWS = {"zipf", "geometric"}
NONNEG_DRAWS = {"poisson", "gamma", "exponential", "standard_exponential", "standard_gamma", "binomial", "negative_binomial", "beta", "chisquare",
                "random", "random_sample", "pareto", "lognormal", "weibull", "wald"} | POS_DRAWS


def is_pos(t):
    """value is known to be > 0"""
    if t.op == "num":
        return t.args[0] > 0
    if t.op == "var":
        return len(t.args) > 1 and t.args[1] == "posf"
    if t.op == "poly":
        return all(c >= 0 and all(is_nonneg(a) for a, e in m) for c, m in t.args[0]) and any(c > 0 and all(is_pos(a) for a, e in m) for c, m in t.args[0])
    if t.op == "pow":
        return is_pos(t.args[0])
    if t.op == "ite":
        return is_pos(t.args[1]) and is_pos(t.args[2])
    if t.op == "max":
        return any(is_pos(x) for x in t.args[0])
    if t.op == "min":
        return all(is_pos(x) for x in t.args[0])
    r = t.args[0] if t.op == "item" else t
    if r.op == "rand":
        return r.args[0].rsplit(".", 1)[-1] in POS_DRAWS
    return False


def sign(d):
    """(lower, upper): is d >= 0, > 0, <= 0, < 0 for certain"""
    p = _poly(d)
    c0 = p.get((), Fraction(0))
    rest = [(m, c) for m, c in p.items() if m != ()]
    if is_pos(d):
        return ">"
    if is_pos(neg(d)):
        return "<"
    if rest and all(all(is_nonneg(a) for a, e in m) for m, c in rest):
        if all(c > 0 for m, c in rest):
            if c0 > 0:
                return ">"
            if c0 == 0:
                return ">="
        if all(c < 0 for m, c in rest):
            if c0 < 0:
                return "<"
            if c0 == 0:
                return "<="
    return None


@lru_cache(maxsize=300000)
def lt(a, b):
    if strval(a) is not None and strval(b) is not None:
        return const(strval(a) < strval(b))
    d = sub(a, b)
    if d.op == "num":
        return const(d.args[0] < 0)
    s = sign(d)
    if s in (">", ">="):
        return FALSE
    if s == "<":
        return TRUE
    p = _integral(d)
    if p is not None:                       # integers: d < 0  <=>  d <= -1
        c0 = p.get((), Fraction(0))
        # d' + c0 < 0 with d' integer:  d' + floor(c0')...  -> d' <= ceil(-c0)-1
        bound = math.ceil(-c0) - 1
        p[()] = Fraction(-bound)
        return _le0(_unpoly(p))
    d, _ = _scale(d)
    return mk("lt0", d)


@lru_cache(maxsize=300000)
def le(a, b):
    d = sub(a, b)
    if d.op == "num":
        return const(d.args[0] <= 0)
    s = sign(d)
    if s in ("<", "<="):
        return TRUE
    if s == ">":
        return FALSE
    p = _integral(d)
    if p is not None:
        c0 = p.get((), Fraction(0))
        bound = math.floor(-c0)
        p[()] = Fraction(-bound)
        return _le0(_unpoly(p))
    d, _ = _scale(d)
    return mk("le0", d)


def extremal(d, cmp):
    """min(a, b) + c < 0 when a + c < 0 or b + c < 0, and so on"""
    p = _poly(d)
    ms = [(m, c) for m, c in p.items() if any(x.op in ("min", "max") for x, _ in m)]
    if len(ms) != 1 or len(ms[0][0]) != 1 or ms[0][0][0][1] != 1:
        return None
    (m, c), = ms
    x = m[0][0]
    if len(x.args[0]) > 4:
        return None
    rest = _unpoly({k: v for k, v in p.items() if k != m})
    parts = [cmp(add(mul(const(c), y), rest), ZERO) for y in x.args[0]]
    return or_(parts) if (x.op == "min") == (c > 0) else and_(parts)


def _le0(d):
    """d <= 0, integer polynomial; recognise emptiness tests"""
    p = _poly(d)
    if len(p) <= 2:
        nc = [(m, c) for m, c in p.items() if m != ()]
        c0 = p.get((), Fraction(0))
        if len(nc) == 1 and len(nc[0][0]) == 1 and nc[0][0][0][1] == 1 and nc[0][0][0][0].op == "len":
            L = nc[0][0][0][0]
            c = nc[0][1]
            if c == -1 and c0 == 1:          # 1 - len <= 0
                return truth(L.args[0])
            if c == 1 and c0 == 0:           # len <= 0
                return not_(truth(L.args[0]))
            if c == -1 and c0 <= 0:
                return TRUE
            if c == 1 and c0 > 0:
                return FALSE
    return mk("le0", d)


def _eqshape(a, b):
    if a is b:
        return TRUE
    if a.op == "seq" and b.op == "seq":
        if len(a.args) != len(b.args):
            return FALSE
        return and_([eq(x, y) for x, y in zip(a.args, b.args)])
    return None


def eq(a, b):
    if a is b:
        return TRUE
    if a is NONE or b is NONE:
        return isnone(b if a is NONE else a)
    r = _eqshape(a, b)
    if r is not None:
        return r
    if is_bool(a) and b in (TRUE, FALSE):
        return a if b is TRUE else not_(a)
    if is_bool(b) and a in (TRUE, FALSE):
        return b if a is TRUE else not_(b)
    if is_const(a) and is_const(b):
        return const(a is b)
    if a.op in ("const", "strcat", "fmt") or b.op in ("const", "strcat", "fmt"):
        return mk("eq", *sorted((a, b)))
    for x, y in ((a, b), (b, a)):
        if x is EMPTY and y.op != "seq":
            return not_(truth(y))
    d = sub(a, b)
    if d.op == "num":
        return const(d.args[0] == 0)
    if sign(d) in ("<", ">"):
        return FALSE
    d, pos = _scale(d)
    if not pos:
        d = neg(d)
    if d.op == "len":
        return not_(truth(d.args[0]))
    return mk("eq0", d)


def isnone(a):
    if a is NONE:
        return TRUE
    if a.op == "var" and (a in GIVEN or len(a.args) > 1):
        return FALSE
    if is_const(a) or is_seq(a) or is_bool(a) or is_str(a) or a.op in ("poly", "dict", "set", "new", "arr", "len", "lam", "closure", "scatter", "dput", "objref", "sum", "min", "max", "clsref"):
        return FALSE
    if a.op == "ite":
        return ite(a.args[0], isnone(a.args[1]), isnone(a.args[2]))
    return mk("isnone", a)


def truth(a):
    if is_bool(a):
        return a
    if a.op in ("poly", "var", "pow") and is_pos(a):
        return TRUE
    if a.op == "num":
        return const(a.args[0] != 0)
    if a.op == "const":
        return const(bool(a.args[1]) if a.args[0] != "ellipsis" else True)
    if a.op == "seq":
        return const(len(a.args) > 0)
    if a.op == "dict":
        return const(len(a.args[0]) > 0)
    if a.op == "len":
        return truth(a.args[0])
    if a.op == "dput" and entries(a) is not None:
        return truth(entries(a))
    if a.op in ("new", "lam", "closure", "clsref"):
        return TRUE
    if a.op in ("deepcopy", "arr", "sorted", "reversed", "keys", "items", "values"):
        return truth(a.args[0])
    if a.op == "gen":
        h, size, filt, elem = a.args
        if filt is TRUE and elem.op != "flat":
            return not_(le(size, ZERO)) if size.op != "len" else truth(size)
        l = fresh_lv()
        g = open_gen(a, l)
        if elem.op != "flat":
            return any_(mk_gen(l, size, TRUE, g[0]))
    if a.op == "set":
        return truth(a.args[0])
    if a.op == "concat":
        return or_([truth(x) for x in a.args[0]])
    if a.op == "ite":
        return ite(a.args[0], truth(a.args[1]), truth(a.args[2]))
    if a.op == "strcat" and any(strval(p) for p in a.args[0]):
        return TRUE
    if is_numeric(a):
        return not_(eq(a, ZERO))
    return mk("truth", a)


@lru_cache(maxsize=300000)
def not_(a):
    a = truth(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt0":
        return le(neg(a.args[0]), ZERO)
    if a.op == "le0":
        return lt(neg(a.args[0]), ZERO)
    if a.op == "and":
        return or_([not_(x) for x in a.args[0]])
    if a.op == "or":
        return and_([not_(x) for x in a.args[0]])
    if a.op == "ite":
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk("not", a)


def and_(xs):
    out = []
    for x in xs:
        x = truth(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.args[0] if x.op == "and" else (x,)):
            if y not in out:
                out.append(y)
    s = set(out)
    for x in out:
        if not_(x) in s:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out)))


def or_(xs):
    out = []
    for x in xs:
        x = truth(x)
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.args[0] if x.op == "or" else (x,)):
            if y not in out:
                out.append(y)
    s = set(out)
    for x in out:
        if not_(x) in s:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out)))


def conjuncts(c):
    if c is TRUE:
        return ()
    if c.op == "and":
        return c.args[0]
    return (c,)


def in_range(c, l, size):
    """simplify a condition on l knowing 0 <= l < size (linear atoms only)"""
    if c.op in ("and", "or"):
        return (and_ if c.op == "and" else or_)([in_range(x, l, size) for x in c.args[0]])
    if c.op == "not" and c.args[0].op in ("lt0", "le0", "eq0"):
        return not_(in_range(c.args[0], l, size))
    if c.op not in ("lt0", "le0") or not occurs(l, c):
        return c
    d = c.args[0]
    co = None
    for m, k in _poly(d).items():
        if any(a is l or occurs(l, a) for a, _ in m):
            if len(m) != 1 or m[0][0] is not l or m[0][1] != 1:
                return c
            co = k
    if co is None:
        return c
    lo, hi = replace(d, {l: ZERO}), replace(d, {l: sub(size, ONE)})
    if co < 0:
        lo, hi = hi, lo
    f = lt if c.op == "lt0" else le
    if f(hi, ZERO) is TRUE:
        return TRUE
    if f(lo, ZERO) is FALSE:
        return FALSE
    return c


def any_(stream):
    """any over the truth of elements"""
    if stream.op == "seq":
        return or_([truth(x) for x in stream.args])
    if stream.op == "gen":
        l = fresh_lv()
        f, e = open_gen(stream, l)
        c = f
        if e.op == "flat":
            c = and_([f, any_(e.args[0])])
        else:
            c = and_([f, truth(e)])
        c = in_range(c, l, stream.args[1])
        if c is FALSE:
            return FALSE
        if c is TRUE:
            return truth_size(stream.args[1])
        if not occurs(l, c):
            return and_([c, truth_size(stream.args[1])])
        if c.op == "or":
            return or_([any_(mk_gen(l, stream.args[1], TRUE, k)) for k in c.args[0]])
        n = not_(c)
        if n.op == "eq0" and n.args[0].op == "bitand":
            # some bit of a mask (of distinct members) is set: the mask meets the number
            for x, y in (n.args[0].args, n.args[0].args[::-1]):
                if x.op == "pow" and numval(x.args[0]) == 2 and occurs(l, x) and not occurs(l, y):
                    m = sum_(mk_gen(l, stream.args[1], TRUE, x))
                    return not_(eq(replace(n.args[0], {x: m}), ZERO))
        return not_(mk("all", strip_perm(mk_gen(l, stream.args[1], TRUE, n))))
    if stream.op in ("sorted", "reversed", "deepcopy", "arr", "set"):
        return any_(stream.args[0])
    return not_(all_of(stream, negate=True))


def truth_size(size):
    if size.op == "len":
        return truth(size.args[0])
    return lt(ZERO, size)


def all_of(stream, negate=False):
    l = fresh_lv()
    e = truth(item(stream, l))
    if negate:
        e = not_(e)
    return mk("all", mk_gen(l, length(stream), TRUE, e))


def all_(stream):
    if stream.op == "seq":
        return and_([truth(x) for x in stream.args])
    if stream.op == "gen":
        l = fresh_lv()
        f, e = open_gen(stream, l)
        inner = not_(all_(e.args[0])) if e.op == "flat" else not_(e)
        return not_(any_(mk_gen(l, stream.args[1], TRUE, and_([f, inner]))))
    return all_of(stream)


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return or_([c, b])
        if b is FALSE:
            return and_([c, a])
        if a is FALSE:
            return and_([not_(c), b])
        if b is TRUE:
            return or_([not_(c), a])
    if a.op == "ite" and a.args[2] is b:
        return ite(and_([c, a.args[0]]), a.args[1], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_([c, b.args[0]]), a, b.args[2])
    if c.op in ("lt0", "le0"):
        d = c.args[0]
        # d = k*(x - y), k > 0 ; c: x < y
        diff = sub(a, b)
        if diff.op != "num" and not is_seq(a) and not is_seq(b) and not is_str(a) and not is_str(b):
            try:
                if same_direction(diff, d, c):
                    return min_([a, b])
                if same_direction(neg(diff), d, c):
                    return max_([a, b])
                # clamps:  lo if x < lo else min(x, hi),  hi if x > hi else max(x, lo),  lo <= hi
                for out, inn, cc in ((a, b, c), (b, a, not_(c))):
                    if cc.op in ("lt0", "le0") and out.op == "num" and inn.op in ("min", "max") and len(inn.args[0]) == 2:
                        ks = [k for k in inn.args[0] if k.op == "num"]
                        xs = [x for x in inn.args[0] if x.op != "num"]
                        if len(ks) == 1 and len(xs) == 1:
                            dx = sub(out, xs[0])
                            if inn.op == "min" and numval(out) <= numval(ks[0]) and same_direction(neg(dx), cc.args[0], cc):
                                return min_([max_([xs[0], out]), ks[0]])
                            if inn.op == "max" and numval(out) >= numval(ks[0]) and same_direction(dx, cc.args[0], cc):
                                return min_([max_([xs[0], ks[0]]), out])
            except ZeroDivisionError:
                pass
    # canonical polarity: order by negation uid
    n = not_(c)
    if n.uid < c.uid and n.op != "not":
        return mk("ite", n, b, a)
    return mk("ite", c, a, b)


def same_direction(diff, d, c):
    if diff.op == "num":
        return False
    s, pos = _scale(diff)
    sd, posd = _scale(d)
    if s is sd and pos == posd:
        return True
    # integer comparisons were shifted by one:  x < y  <=> x - y + 1 <= 0
    if c.op == "le0" and is_int(diff):
        p = _integral(diff)
        if p is not None:
            q = dict(p)
            q[()] = q.get((), Fraction(0)) + 1
            if _unpoly(q) is d:
                return True
            if _unpoly(p) is d:
                return True
    return False


def assume(t, c, val, depth=0):
    """replace occurrences of condition c in ite conditions of t"""
    if t.op in ("num", "const", "var", "lv", "bv"):
        return t
    if not has_op(t, ("ite",)) and t is not c:
        if not is_bool(t):
            return t
    m = {}
    if val:
        for x in conjuncts(c):
            m[x] = TRUE
            n = not_(x)
            m[n] = FALSE
    else:
        m[c] = FALSE
        m[not_(c)] = TRUE
        if c.op == "or":
            for x in c.args[0]:
                m[x] = FALSE
                m[not_(x)] = TRUE
    return replace(t, m)


def min_(xs):
    return _minmax("min", xs)


def max_(xs):
    return _minmax("max", xs)


def _minmax(op, xs):
    out = []
    for x in xs:
        for y in (x.args[0] if x.op == op else (x,)):
            if y not in out:
                out.append(y)
    if len(out) > 1:
        # an infinite bound
        inf = mk("ext", "numpy.inf")
        inf = neg(inf) if op == "max" else inf
        out = [x for x in out if x is not inf]
    if op in ("max", "min") and len(out) == 2:
        for x, y in (out, out[::-1]):
            # the first and the largest of the others
            if y.op == op + "of" and x.op == "item" and x.args[1] is ZERO and y.args[0].op == "gen" and y.args[0].args[2] is TRUE and y.args[0].args[3].op == "item":
                g = y.args[0]
                l = fresh_lv()
                _, e = open_gen(g, l)
                if e.op == "item" and e.args[0] is x.args[0] and e.args[1] is add(l, ONE) and add(g.args[1], ONE) is length(x.args[0]):
                    return extreme(op + "of", x.args[0])
    nums = [x for x in out if x.op == "num"]
    out = [x for x in out if x.op != "num"]
    if nums:
        v = (min if op == "min" else max)(n.args[0] for n in nums)
        out.append(const(v))
    if 2 <= len(out) <= 4:
        drop = set()
        for x in out:
            for y in out:
                if x is not y and x not in drop and y not in drop:
                    sg = sign(sub(x, y)) if not is_seq(x) and not is_seq(y) else None
                    if sg in (">", ">="):
                        drop.add(x if op == "min" else y)
        out = [x for x in out if x not in drop]
    if len(out) == 1:
        return out[0]
    # max(0, len) -> len
    if op == "max" and ZERO in out:
        rest = [x for x in out if x is not ZERO]
        if any(x.op == "len" for x in rest):
            out = rest
    if len(out) == 1:
        return out[0]
    return mk(op, tuple(sorted(out)))


# ---------------------------------------------------------------- sequences
def seq(xs):
    return mk("seq", *xs)


def lift(f, a, b):
    """elementwise arithmetic on arrays"""
    A = a.args[0] if a.op == "arr" else None
    B = b.args[0] if b.op == "arr" else None
    up = lambda v: mk("arr", v) if v.op in ("gen", "seq", "concat") else v
    down = lambda v: v.args[0] if v.op == "arr" else v
    if B is None and is_scalar(b) and A.op == "gen" and (A.args[2] is not TRUE or A.args[3].op == "flat"):
        return mk("arr", map_stream(A, lambda v: down(f(up(v), b))))
    if A is None and is_scalar(a) and B.op == "gen" and (B.args[2] is not TRUE or B.args[3].op == "flat"):
        return mk("arr", map_stream(B, lambda v: down(f(a, up(v)))))
    l = fresh_lv()
    sa = length(A) if A is not None else None
    sb = length(B) if B is not None else None
    size = sa if sa is not None else sb
    x = item(A, l) if A is not None else a
    y = item(B, l) if B is not None else (b if is_scalar(b) or A is None else item(b, l))
    if A is None:
        x = a if is_scalar(a) else item(a, l)
    return mk("arr", mk_gen(l, size, TRUE, down(f(up(x) if A is not None else x, up(y) if B is not None else y))))


def is_scalar(t):
    if is_numeric(t):
        return True
    if t.op in ("bv", "lv", "const", "len"):
        return True
    if t.op in ("maxof", "minof") and t.args[0].op == "gen":
        return is_scalar(t.args[0].args[3])
    if t.op == "var":
        return VAR_TYPES.get(t) in ("int", "float", "str", "bool") or len(t.args) > 1
    if t.op == "ext" and t.args[0] in ("numpy.nan", "numpy.inf"):
        return True
    if t.op == "call" and t.args[0] in ("int", "float", "round", "numpy.exp", "numpy.sqrt", "math.exp", "math.sqrt"):
        return True
    if t.op == "ite":
        return is_scalar(t.args[1]) and is_scalar(t.args[2])
    ty = typehook(t)
    if ty in ("int", "float"):
        return True
    return False


typehook = lambda t: None


def rep(x, n):
    k = numval(n)
    if k is not None and k.denominator == 1 and x.op == "seq" and len(x.args) * max(0, int(k)) <= 8:
        return seq(x.args * max(0, int(k)))
    if x.op == "seq" and len(x.args) == 1:
        l = fresh_lv()
        return mk_gen(l, n, TRUE, x.args[0])
    return mk("rep", x, n)


def concat(xs):
    out = []
    for x in xs:
        if x.op == "arr":
            x = x.args[0]
        if x.op == "concat":
            out.extend(x.args[0])
        elif x is EMPTY:
            continue
        else:
            out.append(x)
    # merge adjacent literal sequences
    m = []
    for x in out:
        if m and x.op == "seq" and m[-1].op == "seq":
            m[-1] = seq(m[-1].args + x.args)
        else:
            m.append(x)
    if not m:
        return EMPTY
    if len(m) == 1:
        return m[0]
    # x[:i] + [v] + x[i+1:]  ->  x with element i replaced
    if len(m) == 3 and m[1].op == "seq" and len(m[1].args) == 1:
        a, v, b = m[0], m[1].args[0], m[2]
        sa = a if a.op == "slice" else None
        if a.op == "slice" and b.op == "slice" and a.args[0] is b.args[0] and a.args[1] is ZERO and b.args[2] is NONE:
            if sub(b.args[1], a.args[2]) is ONE:
                return upd(a.args[0], a.args[2], v)
    return mk("concat", tuple(m))


def either(c, a, b):
    if a.op == b.op == "seq" and len(a.args) == len(b.args):
        return seq([either(c, x, y) for x, y in zip(a.args, b.args)])
    return ite(c, a, b)


def mk_gen(l, size, filt, elem):
    filt = truth(filt)
    if filt is FALSE or elem is None:
        return EMPTY
    if elem.op == "flat" and elem.args[0] is EMPTY:
        return EMPTY
    k = numval(size)
    if k is not None:
        if k <= 0:
            return EMPTY
        if k.denominator == 1 and k <= 4:
            parts = []
            for j in range(int(k)):
                f, e = replace(filt, {l: const(j)}), replace(elem, {l: const(j)})
                v = e.args[0] if e.op == "flat" else seq((e,))
                parts.append(ite(f, v, EMPTY) if f is not TRUE else v)
            return concat(parts)
    # ite(c, [x], []) elements
    if elem.op == "flat":
        x = elem.args[0]
        if x.op == "ite" and x.args[1] is EMPTY:
            return mk_gen(l, size, and_([filt, not_(x.args[0])]), mk("flat", x.args[2]))
        if x.op == "ite" and x.args[2] is EMPTY:
            return mk_gen(l, size, and_([filt, x.args[0]]), mk("flat", x.args[1]))
        if x.op == "ite" and all(y.op == "seq" and len(y.args) == 1 for y in x.args[1:]):
            x = seq((either(x.args[0], x.args[1].args[0], x.args[2].args[0]),))
        if x.op == "seq" and len(x.args) == 1:
            elem = x.args[0]
    if filt is TRUE and elem.op == "item" and elem.args[1] is l and not occurs(l, elem.args[0]):
        if size is length(elem.args[0]):
            return elem.args[0]
    if filt is TRUE and elem.op == "ite":
        # [v if j == i else x[j]] stays in this form (see upd)
        pass
    if filt is TRUE and elem.op == "sum" and elem.args[0].op == "gen":
        r = tail_counts(l, size, elem.args[0]) or exact_counts(l, size, elem.args[0])
        if r is not None:
            return r
    if filt is TRUE and elem.op in ("sum", "poly"):
        r = running_sums(l, size, elem)
        if r is not None:
            return r
    # integer filter that pins the index range: j + lo .. ignored
    # drop conjuncts implied by the iteration range: 0 <= j < size
    cs = []
    for c in conjuncts(filt):
        if c is le(ZERO, l) or c is lt(l, size):
            continue
        cs.append(c)
    filt = and_(cs)
    h = 1 + max(filt.bh, elem.bh)
    m = {l: mk("bv", h)}
    return mk("gen", h, size, replace(filt, m), replace(elem, m))


def running_sums(l, size, elem):
    """[sum of the elements from l on] or [... up to l] as suffix or prefix sums"""
    sums = [(m[0][0], c) for m, c in _poly(elem).items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sum" and m[0][0].args[0].op == "gen" and occurs(l, m[0][0].args[0].args[1])]
    if len(sums) != 1 or sums[0][1] != 1:
        return None
    g = sums[0][0].args[0]
    if g.args[2] is not TRUE or g.args[3].op == "flat":
        return None
    rest = sub(elem, sums[0][0])
    k, m = fresh_lv(), g.args[1]
    _, z = open_gen(g, k)
    at = [y for y in subterms(z) if y.op == "item" and not occurs(k, y.args[0]) and _poly(y.args[1]).get(((k, 1),)) == 1]
    if not at:
        return None
    start = sub(at[0].args[1], k)
    if occurs(k, start):
        return None
    i = fresh_lv()
    y = replace(z, {k: sub(i, start)})
    if occurs(l, y) or occurs(k, y) or not occurs(i, y):
        return None
    Y = lambda j: replace(y, {i: j})
    end = add(start, m)
    if not occurs(l, end) and occurs(l, start):
        # from start to the end
        if rest is Y(sub(start, ONE)):
            start, rest = sub(start, ONE), ZERO
        whole = mk_gen(i, end, TRUE, y)
        t0 = suffixsum(whole)
        if rest is not ZERO or occurs(l, whole):
            return None
        if sub(start, l) is ZERO and size is end:
            return t0
        if add(start, l) is sub(size, ONE) and size is end:
            return reversed_(t0)
        if sub(start, l) is ONE and size is end:
            return mk_gen(l, size, TRUE, sub(mk("item", t0, l), Y(l)))
        return None
    if start is ZERO and occurs(l, m):
        # from the first up to m
        if rest is Y(m):
            m, rest = add(m, ONE), ZERO
        whole = mk_gen(i, size, TRUE, y)
        if rest is not ZERO or occurs(l, whole):
            return None
        if sub(m, l) is ONE:
            return prefixsum(whole)
        if m is l:
            return mk_gen(l, size, TRUE, sub(mk("item", prefixsum(whole), l), Y(l)))
    return None


def exact_counts(l, size, g):
    """[how many of g are k, for k = 0..size-1], as a table filled member by member"""
    if occurs(l, g.args[1]) or g.args[3].op == "flat" or occurs(l, g.args[3]) or numval(g.args[3]) is None:
        return None
    j = fresh_lv()
    f, w = open_gen(g, j)
    cs = conjuncts(f)
    mine = [c for c in cs if occurs(l, c)]
    if len(mine) != 1 or mine[0].op != "eq0" or abs(_poly(mine[0].args[0]).get(((l, 1),), 0)) != 1:
        return None
    d = mine[0].args[0]
    x = sub(l, d) if _poly(d)[((l, 1),)] == 1 else add(l, d)
    if occurs(l, x) or not occurs(j, x):
        return None
    rest = [c for c in cs if c is not mine[0]] + [lt(x, size), le(ZERO, x)]
    zeros = mk_gen(fresh_lv(), size, TRUE, ZERO)
    return scatter(zeros, mk_gen(j, g.args[1], and_(rest), seq((x, w))))


def tail_counts(l, size, g):
    """[how many of g are >= k, for k = 0..size-1], as the suffix sums of the exact counts (every member is at least 0)"""
    if occurs(l, g.args[1]) or g.args[3].op == "flat" or occurs(l, g.args[3]) or numval(g.args[3]) is None:
        return None
    j = fresh_lv()
    f, w = open_gen(g, j)
    cs = conjuncts(f)
    mine = [c for c in cs if occurs(l, c)]
    if len(mine) != 1 or mine[0].op not in ("le0", "lt0"):
        return None
    r = sub(mine[0].args[0], l)
    if occurs(l, r) or not occurs(j, r):
        return None
    x = sub(ZERO, r)
    if mine[0].op == "lt0":
        x = sub(x, ONE)
    rest = [c for c in cs if c is not mine[0]]
    k = sub(min_([size, add(x, ONE)]), ONE)
    zeros = mk_gen(fresh_lv(), size, TRUE, ZERO)
    return suffixsum(scatter(zeros, mk_gen(j, g.args[1], and_(rest) if rest else TRUE, seq((k, w)))))


def free_lvs(x):
    out, seen, st = [], set(), [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op in ("lv", "bv"):
            out.append(y)
        st.extend(children(y))
    return out


def open_gen(g, l):
    h, size, filt, elem = g.args
    m = {mk("bv", h): l}
    return replace_bv(filt, h, l), replace_bv(elem, h, l)


def replace_bv(t, h, l):
    return replace(t, {mk("bv", h): l})


def mk_lam(n, lvs, body):
    h = 1 + body.bh
    m = {l: mk("lamv", h, i) for i, l in enumerate(lvs)}
    return mk("lam", h, n, replace(body, m))


def apply_lam(lam, args):
    h, n, body = lam.args
    return replace(body, {mk("lamv", h, i): a for i, a in enumerate(args)})


def length(x):
    op = x.op
    if op == "seq":
        return const(len(x.args))
    if op == "dict":
        return const(len(x.args[0]))
    if op == "dput" and entries(x) is not None:
        return length(entries(x))
    if op == "nscatter":
        return length(x.args[0])
    if op == "dput" and x.args[0] is EMPTYDICT:
        return length(set_(map_stream(x.args[1], lambda e: item(e, ZERO))))
    if strval(x) is not None:
        return const(len(strval(x)))
    if op == "gen":
        h, size, filt, elem = x.args
        if filt is TRUE and elem.op != "flat":
            return size
        l = fresh_lv()
        f, e = open_gen(x, l)
        return sum_(mk_gen(l, size, f, length(e.args[0]) if e.op == "flat" else ONE))
    if op in ("sorted", "deepcopy", "copy", "arr", "reversed", "suffixsum", "prefixsum"):
        return length(x.args[0])
    if op in ("keys", "values", "items"):
        return length(x.args[0])
    if op == "concat":
        r = ZERO
        for y in x.args[0]:
            r = add(r, length(y))
        return r
    if op == "slice":
        X, lo, hi = x.args
        L = length(X)
        if numval(lo) is not None and numval(lo) < 0:
            return mk("len", x)
        if hi is NONE:
            return sub(L, lo)
        n = numval(hi)
        if n is not None and n < 0:
            return sub(add(L, hi), lo)
        return sub(min_([L, hi]), lo)
    if op == "rep":
        return mul(length(x.args[0]), x.args[1])
    if op in ("scatter", "scatteror", "dfold") and x.args[0] is EMPTYDICT:
        return length(set_(map_stream(x.args[1], lambda e: item(e, ZERO))))
    if op == "scatter":
        if is_seq(x.args[0]) or x.args[0].op == "gen":
            return length(x.args[0])
    if op == "set":
        return mk("len", x)
    if op == "ite":
        return ite(x.args[0], length(x.args[1]), length(x.args[2]))
    if op == "rand" and x.args[0] == "multivariate_hypergeometric" and len(x.args[2]) == 2 and not x.args[3]:
        return length(x.args[2][0])
    if op == "rand" and x.args[0] == "permutation" and len(x.args[2]) == 1 and not x.args[3] and is_scalar(x.args[2][0]):
        return x.args[2][0]
    sh = shape_of(x)
    if sh:
        return sh[0]
    if op == "zip":
        r = None
        return minlen([length(y) for y in x.args[0]])
    return mk("len", x)


def shape_of(x):
    """dimensions of arrays made by library calls, where the call says them"""
    if x.op == "item":
        sh = shape_of(x.args[0])
        return sh[1:] if sh else None
    if x.op == "call" and x.args[0] == "pyDOE.lhs":
        kw = dict(x.args[2])
        n = x.args[1][0] if x.args[1] else kw.get("n")
        m = x.args[1][1] if len(x.args[1]) > 1 else kw.get("samples", n)
        if n is not None and m is not None:
            return (m, n)
    if x.op == "rand" and "size" in dict(x.args[3]):
        z = dict(x.args[3])["size"]
        return tuple(z.args) if z.op == "seq" else (z,) if is_scalar(z) else None
    return None


def mitem(x, parts):
    """x[rows, cols] of a matrix, as nested selections"""
    full = lambda q: q.op == "sl" and all(a is NONE for a in q.args)
    arrayish = lambda q: q.op in ("gen", "seq", "arr", "concat", "sorted", "reversed") or (q.op == "rand" and q.args[0] == "permutation")
    is_scalar = lambda q: globals()["is_scalar"](q) or q.op == "item" and q.args[0].op == "rand" and q.args[0].args[0] == "permutation"
    if len(parts) == 2 and x.op != "opaque":
        r, c = parts
        if full(r) and full(c):
            return x
        if full(c) and arrayish(r):
            l = fresh_lv()
            return mk("arr", mk_gen(l, length(r), TRUE, item(x, item(r, l))))
        if full(c) and r.op != "sl" and is_scalar(r):
            return item(x, r)
        if full(c) and r.op == "sl":
            return slice_(x, *r.args)
        if not full(c) and c.op == "sl" and r.op != "sl" and is_scalar(r):
            return slice_(item(x, r), *c.args)
        if r.op != "sl" and is_scalar(r) and arrayish(c):
            l = fresh_lv()
            return mk("arr", mk_gen(l, length(c), TRUE, item(item(x, r), item(c, l))))
        if c.op != "sl" and is_scalar(c) and arrayish(r):
            l = fresh_lv()
            return mk("arr", mk_gen(l, length(r), TRUE, item(item(x, item(r, l)), c)))
        if full(r) and (arrayish(c) or c.op == "sl" or is_scalar(c)):
            l = fresh_lv()
            row = item(x, l)
            if c.op == "sl":
                y = slice_(row, *c.args)
            elif arrayish(c):
                k = fresh_lv()
                y = mk_gen(k, length(c), TRUE, item(row, item(c, k)))
            else:
                y = item(row, c)
            return mk("arr", mk_gen(l, length(x), TRUE, y))
    return mk("mitem", x, tuple(parts))


def minlen(ls):
    out = []
    for l in ls:
        if l not in out:
            out.append(l)
    if len(out) == 1:
        return out[0]
    return min_(out)


def map_stream(s, f):
    if s.op == "seq":
        return seq([f(x) for x in s.args])
    if s.op == "concat":
        return concat([map_stream(x, f) for x in s.args[0]])
    if s.op == "gen":
        l = fresh_lv()
        fl, e = open_gen(s, l)
        if e.op == "flat":
            return mk_gen(l, s.args[1], fl, mk("flat", map_stream(e.args[0], f)))
        return mk_gen(l, s.args[1], fl, f(e))
    if s.op == "ite":
        return ite(s.args[0], map_stream(s.args[1], f), map_stream(s.args[2], f))
    l = fresh_lv()
    return mk_gen(l, length(s), TRUE, f(item(s, l)))


def is_seq_or_var(x):
    return x.op in ("var", "attr", "item") or is_seq(x)


def item(x, i):
    op = x.op
    if op == "item" and x.args[0].op == "sorted" and x.args[0].args[2] is FALSE and x.args[0].args[1].op == "lam":
        # the sort key of the first or last element of a sorted list is the least or greatest key
        srt = x.args[0]
        last = x.args[1] is const(-1) or x.args[1] is sub(length(srt), ONE)
        if (last or x.args[1] is ZERO) and not isinstance(x.args[1], str):
            v = fresh_lv()
            if apply_lam(srt.args[1], [v]) is mk("item", v, i) and is_seq_or_var(srt.args[0]):
                return extreme("maxof" if last else "minof", map_stream(srt.args[0], lambda e: item(e, i)))
    if op == "df" and strval(i) is not None:
        return item(x.args[0], i)
    if op == "arr":
        r = item(x.args[0], i)
        return mk("arr", r) if is_seq(r) else r
    if op == "deepcopy":
        return deepcopy(item(x.args[0], i))
    if op == "copy":
        return item(x.args[0], i)
    if op == "memodict" and x.args[1] is i:
        return x.args[2] if x.args[3] is TRUE else mk("firstval", i, x.args[2])
    n = numval(i)
    if op == "unzip" and n is not None and x.args[0].op == "gen" and x.args[0].args[3].op == "seq" and 0 <= n < len(x.args[0].args[3].args):
        return map_stream(x.args[0], lambda e: item(e, i))
    if op == "seq":
        if n is not None and n.denominator == 1:
            n = int(n)
            if -len(x.args) <= n < len(x.args):
                return x.args[n]
        elif len(x.args) == 1 and i.op in ("lv", "bv"):
            return x.args[0]
    if op == "dict" and is_const(i):
        for k, v in x.args[0]:
            if k is i:
                return v
    if op == "gen":
        h, size, filt, elem = x.args
        if filt is TRUE and elem.op != "flat":
            if n is not None and n < 0:
                i = add(size, i)
            return replace_bv(elem, h, i)
    if op == "ite":
        return ite(x.args[0], item(x.args[1], i), item(x.args[2], i))
    if op == "concat":
        if n is not None:
            if n >= 0:
                k = int(n)
                for part in x.args[0]:
                    L = numval(length(part))
                    if L is None:
                        break
                    if k < L:
                        return item(part, const(k))
                    k -= int(L)
                    continue
            else:
                k = int(n)
                for part in reversed(x.args[0]):
                    L = numval(length(part))
                    if L is None:
                        if part.op == "slice" and part.args[2] is NONE:
                            pass
                        break
                    if -k <= L:
                        return item(part, const(k))
                    k += int(L)
        elif is_int(i) or i.op in ("lv", "bv", "poly"):
            off = ZERO
            for part in x.args[0]:
                d, L = sub(i, off), length(part)
                if le(ZERO, d) is TRUE and lt(d, L) is TRUE:
                    return item(part, d)
                if le(L, d) is not TRUE:
                    break
                off = add(off, L)
    if op == "reversed":
        X = x.args[0]
        if n is not None:
            return item(X, const(-n - 1))
        return item(X, sub(sub(length(X), ONE), i))
    if op == "slice":
        X, lo, hi = x.args
        if n is not None and n < 0:
            if hi is NONE:
                return item(X, i)
        elif numval(lo) is None or numval(lo) >= 0:
            return item(X, add(lo, i))
        elif hi is NONE:
            return item(X, add(lo, i)) if n is not None else mk("item", x, i)
    if op == "items":
        k = item(keys_(x.args[0]), i)
        return seq((k, item(x.args[0], k)))
    if op == "values":
        return item(x.args[0], item(keys_(x.args[0]), i))
    if op == "zip":
        return seq([item(y, i) for y in x.args[0]])
    if op == "dput":
        r = dput_get(x, i)
        if r is not None:
            return r
    if op == "suffixsum":
        if n == 0:
            return sum_(x.args[0])
    # x[len(x)-1] -> x[-1]
    if n is None and not is_bool(i) and i.op == "poly":
        if sub(i, length(x)) is const(-1):
            return item(x, const(-1))
    # price of the last element of a log sorted by price = maximum price
    if x.op == "item" and x.args[0].op == "sorted" and x.args[1] in (ZERO, const(-1)):
        s = x.args[0]
        if s.args[1].op == "lam" and s.args[1].args[2] is mk("item", mk("lamv", s.args[1].args[0], 0), i) and s.args[2] in (TRUE, FALSE):
            last = (x.args[1] is const(-1)) == (s.args[2] is FALSE)
            l = fresh_lv()
            g = mk_gen(l, length(s.args[0]), TRUE, item(item(s.args[0], l), i))
            return extreme("maxof" if last else "minof", g)
    if x.op == "sorted" and s_key_identity(x) and n in (0, -1):
        return extreme("maxof" if (n == -1) == (x.args[2] is FALSE) else "minof", x.args[0])
    return mk("item", x, i)


def s_key_identity(s):
    return s.args[1] is NONE and s.args[2] in (TRUE, FALSE)


def entries(x):
    """stream of (key, value) pairs of a dict filled by a loop whose keys are distinct, or None"""
    if x.op == "dput" and x.args[0] is EMPTYDICT and x.args[1].op == "gen" and x.args[1].args[3].op == "flat" and x.args[1].args[3].args[0].op == "gen":
        # one entry per non-empty subset, keyed by the subset's bit mask
        l = fresh_lv()
        f, e = open_gen(x.args[1], l)
        if f is TRUE and e.op == "flat" and e.args[0].op == "gen" and e.args[0].args[2] is TRUE:
            l2 = fresh_lv()
            _, e2 = open_gen(e.args[0], l2)
            if e2.op == "seq" and len(e2.args) == 2 and subset_mask(e2.args[0], l, l2):
                return x.args[1]
        return None
    if x.op == "dput" and x.args[0] is EMPTYDICT and x.args[1].op == "gen" and x.args[1].args[3].op == "seq" and len(x.args[1].args[3].args) == 2:
        h = x.args[1].args[0]
        k = x.args[1].args[3].args[0]
        b = mk("bv", h)
        if k is b or k.op == "item" and k.args[1] is b and k.args[0].op in ("keys", "set") and not occurs(b, k.args[0]):
            return x.args[1]
        if k.op == "poly":
            p = _poly(k)
            if all(m == () or m == ((b, 1),) for m in p) and any(m for m in p):
                return x.args[1]
    return None


def subset_mask(k, r, j):
    """k = sum of 1 << i over the j-th combination of (r+const) of a list of distinct numbers"""
    if k.op != "sum" or k.args[0].op != "gen" or k.args[0].args[2] is not TRUE:
        return False
    l = fresh_lv()
    _, e = open_gen(k.args[0], l)
    if e.op != "pow" or numval(e.args[0]) != 2 or e.args[1].op != "item" or e.args[1].args[1] is not l:
        return False
    c = e.args[1].args[0]
    if c.op != "item" or c.args[1] is not j or c.args[0].op != "call" or c.args[0].args[0] != "itertools.combinations" or k.args[0].args[1] is not length(c):
        return False
    S, n = c.args[0].args[1][:2]
    if occurs(r, S) or numval(sub(n, r)) is None:
        return False
    return S.op == "gen" and S.args[3] is mk("bv", S.args[0])


def keys_(x):
    if x.op == "nscatter":
        return keys_(x.args[0])
    g = entries(x)
    return mk("keys", x) if g is None else map_stream(g, lambda e: item(e, ZERO))


def firsts(g, conds=()):
    """the values stored first under each key, for a stream of (key, value unless present)"""
    if g.op == "gen":
        l = fresh_lv()
        f, e = open_gen(g, l)
        if e.op == "flat":
            r = firsts(e.args[0])
            return None if r is None else mk_gen(l, g.args[1], f, mk("flat", r))
        if e.op == "seq" and len(e.args) == 2 and e.args[1].op == "oldor":
            k = mk_gen(l, g.args[1], f, e.args[0])
            return mk_gen(l, g.args[1], and_([f, not_(mk("in", e.args[0], mk("setpre", l, set_(k))))]), e.args[1].args[0])
        return None
    if g.op == "seq" and len(g.args) == 1 and g.args[0].op == "seq" and len(g.args[0].args) == 2 and g.args[0].args[1].op == "oldor":
        return seq((g.args[0].args[1].args[0],))
    return None


def values_(x):
    if x.op == "dfold" and x.args[0] is EMPTYDICT:
        r = firsts(x.args[1])
        if r is not None:
            return r
    if x.op == "nscatter":
        return map_stream(keys_(x), lambda k: item(x, k))
    g = entries(x)
    return mk("values", x) if g is None else map_stream(g, lambda e: item(e, ONE))


def items_(x):
    if x.op == "nscatter":
        return map_stream(keys_(x), lambda k: seq((k, item(x, k))))
    g = entries(x)
    return mk("items", x) if g is None else g


def get_(x, k, d):
    if x.op == "memodict" and x.args[1] is k:
        return ite(mk("in", k, x), item(x, k), d)
    return mk("get", x, k, d)


def dput_get(x, k):
    """lookup in a dict built by a comprehension keyed on distinct values"""
    base, g = x.args
    last = g if g.op == "seq" else g.args[0][-1] if g.op == "concat" else None
    if last is not None and last.op == "seq" and last.args and last.args[-1].op == "seq" and len(last.args[-1].args) == 2 and last.args[-1].args[0] is k:
        return last.args[-1].args[1]        # just stored
    if g.op == "gen" and g.args[2] is TRUE and g.args[3].op == "seq":
        h = g.args[0]
        key = g.args[3].args[0]
        b = mk("bv", h)
        if key is b:
            return replace_bv(g.args[3].args[1], h, k)
        if key.op == "item" and key.args[1] is b and k.op == "item" and k.args[0] is key.args[0]:
            return replace_bv(g.args[3].args[1], h, k.args[1])
    return None


def extreme(op, g):
    if g.op == "seq":
        return (min_ if op == "minof" else max_)(list(g.args)) if g.args else mk(op, g)
    if g.op in ("sorted", "reversed", "deepcopy", "arr", "set"):
        return extreme(op, g.args[0])
    if g.op == "gen":
        g = strip_perm(g)
    if g.op == "gen" and g.args[2] is TRUE and g.args[3].op in ("poly", "bv", "lv") and is_pos(g.args[1]):
        # evenly spaced values: the first or the last
        l = fresh_lv()
        _, e = open_gen(g, l)
        p = _poly(e)
        c = p.get(((l, 1),))
        if c is not None and sum(1 for m in p if any(occurs(l, a) for a, _ in m)) == 1:
            return replace(e, {l: ZERO if (c > 0) == (op == "minof") else sub(g.args[1], ONE)})
    if g.op == "gen" and g.args[1].op == "len" and g.args[1].args[0].op == "set":
        # the extreme over a set is the extreme over what it was made from
        st = g.args[1].args[0]
        l = fresh_lv()
        f, e = open_gen(g, l)
        m = {item(st, l): item(st.args[0], l)}
        f2, e2 = replace(f, m), replace(e, m)
        if not occurs(st, f2) and not occurs(st, e2):
            src = st.args[0]
            parts = src.args[0] if src.op == "concat" else (src,)
            out = []
            for p in parts:
                m2 = {item(src, l): item(p, l)}
                l2 = fresh_lv()
                f3, e3 = replace(replace(f, {item(st, l): item(p, l2)}), {}), replace(e, {item(st, l): item(p, l2)})
                if occurs(l, f3) or occurs(l, e3):
                    out = None
                    break
                out.append(mk_gen(l2, length(p), f3, e3))
            if out is not None:
                return extreme(op, concat(out))
    if g.op == "concat" and all(x.op == "seq" or True for x in g.args[0]):
        consts = [x for p in g.args[0] if p.op == "seq" for x in p.args]
        rest = [p for p in g.args[0] if p.op != "seq"]
        if consts and len(rest) == 1:
            return _minmax(op[:3], consts + [extreme(op, rest[0])])
    return mk(op, g)


def slice_(x, lo, hi, step=NONE):
    if step is not NONE and step is not ONE:
        if step is const(-1) and lo is NONE and hi is NONE:
            return reversed_(x)
        return mk("slice3", x, lo, hi, step)
    if lo is NONE:
        lo = ZERO
    if x.op == "deepcopy":
        return deepcopy(slice_(x.args[0], lo, hi))
    if lo is ZERO and hi is NONE:
        return x
    if x.op == "call" and law_points(x):
        d, g, ps = law_points(x)
        return mk("call", x.args[0], (slice_(g, lo, hi),) + tuple(ps), ())
    if x.op == "arr":
        return mk("arr", slice_(x.args[0], lo, hi))
    nlo, nhi = numval(lo), numval(hi)
    if x.op == "seq" and nlo is not None and (hi is NONE or nhi is not None):
        return seq(x.args[int(nlo):(None if hi is NONE else int(nhi))])
    if hi is ZERO and nlo == 0:
        return EMPTY
    if nlo is not None and nlo < 0 and hi is NONE and x.op != "ite":
        # the last k elements
        return slice_(x, max_([ZERO, add(length(x), lo)]), NONE)
    if x.op == "ite":
        return ite(x.args[0], slice_(x.args[1], lo, hi), slice_(x.args[2], lo, hi))
    if hi is not NONE and lo is ZERO:
        # x[:min(n, len(x))] == x[:n];  x[:len(x)] == x
        L = length(x)
        if hi is L:
            return x
        if hi.op == "min" and L in hi.args[0]:
            return slice_(x, lo, min_([y for y in hi.args[0] if y is not L]))
    if hi is not NONE and hi is length(x):
        return slice_(x, lo, NONE)
    if x.op == "slice" and x.args[2] is NONE and (nlo is None or nlo >= 0) and numval(x.args[1]) is not None and numval(x.args[1]) >= 0 \
            and (hi is NONE or nhi is None or nhi >= 0):
        return slice_(x.args[0], add(x.args[1], lo), NONE if hi is NONE else add(x.args[1], hi))
    if x.op == "gen" and x.args[2] is TRUE and x.args[3].op != "flat":
        if hi is NONE and (nlo is None or nlo > 0):
            l = fresh_lv()
            return mk_gen(l, sub(x.args[1], lo), TRUE, item(x, add(l, lo)))
        if (nlo is None or nlo >= 0) and (nhi is None or nhi >= 0) and hi is not NONE:
            l = fresh_lv()
            return mk_gen(l, sub(min_([x.args[1], hi]), lo), TRUE, item(x, add(l, lo)))
        if nlo == 0 and nhi is not None and nhi < 0:
            l = fresh_lv()
            return mk_gen(l, add(x.args[1], hi), TRUE, item(x, l))
    return mk("slice", x, lo, hi)


def reversed_(x):
    if x.op == "reversed":
        return x.args[0]
    if x.op == "arr":
        return mk("arr", reversed_(x.args[0]))
    if x.op == "seq":
        return seq(tuple(reversed(x.args)))
    if x.op == "prefixsum" and x.args[0].op == "reversed":
        return mk("suffixsum", x.args[0].args[0])
    if x.op == "gen" and x.args[2] is TRUE and x.args[3].op != "flat":
        l = fresh_lv()
        return mk_gen(l, x.args[1], TRUE, item(x, sub(sub(x.args[1], ONE), l)))
    if x.op == "deepcopy":
        return deepcopy(reversed_(x.args[0]))
    if x.op == "suffixsum":
        return mk("prefixsum", reversed_(x.args[0]))
    return mk("reversed", x)


def prefixsum(x):
    if x.op == "arr":
        return mk("arr", prefixsum(x.args[0]))
    return mk("prefixsum", x)


def suffixsum(x):
    if x.op == "arr":
        return mk("arr", suffixsum(x.args[0]))
    return mk("suffixsum", x)


def bitor(a, b):
    """a | b on whole numbers, as a + b - (a & b)"""
    if numval(a) is not None and numval(b) is not None and numval(a).denominator == 1 and numval(b).denominator == 1:
        return const(int(numval(a)) | int(numval(b)))
    if a is ZERO or b is ZERO:
        return b if a is ZERO else a
    if is_bool(a) and is_bool(b):
        return or_([a, b])
    if is_bool(a) or is_bool(b) or a is b:
        return a if a is b else mk("bitor", *sorted((a, b)))
    return sub(add(a, b), mk("bitand", *sorted((a, b))))


def unbitor(v, old):
    """v = old | b  ->  b"""
    for x in subterms(v):
        if x.op == "bitand" and old in x.args:
            b = x.args[1] if x.args[0] is old else x.args[0]
            if not occurs(old, b) and bitor(old, b) is v:
                return b
    return None


def upd(x, i, v):
    """sequence/dict with one element replaced"""
    if x.op == "deepcopy":
        x = x.args[0]
    if x.op == "arr":
        return mk("arr", upd(x.args[0], i, v))
    n = numval(i)
    if x.op == "seq" and n is not None and -len(x.args) <= n < len(x.args):
        l = list(x.args)
        l[int(n)] = v
        return seq(l)
    if x.op == "gen" and x.args[2] is TRUE and x.args[3].op != "flat" or x.op in ("var", "attr", "item", "sorted"):
        if n is not None and n < 0:
            i = add(length(x), i)
        l = fresh_lv()
        return mk_gen(l, length(x), TRUE, ite(eq(l, i), v, item(x, l)))
    return mk("upd", x, i, v)


KEEP_COPIES = [False]


def copy_(x):
    if not KEEP_COPIES[0] or x.op in ("seq", "gen", "concat", "deepcopy", "copy"):
        return x
    return mk("copy", x)


def deepcopy(x):
    if not KEEP_COPIES[0]:
        return x
    if x.op in ("num", "const", "poly", "deepcopy", "len", "sum", "strcat", "bv", "lv", "fmt") or is_bool(x):
        return x
    if x.op == "seq":
        return seq([deepcopy(a) for a in x.args])
    return mk("deepcopy", x)


def strip_copies(t):
    """value normal form: copies denote the same value"""
    return rewrite(t, lambda x: x.args[0] if x.op in ("deepcopy", "copy", "arr") else None)


def sorted_(x, key=NONE, rev=FALSE):
    if x.op in ("deepcopy", "reversed", "arr"):
        if key is NONE:
            return sorted_(x.args[0], key, rev)
        if x.op == "deepcopy":
            return deepcopy(sorted_(x.args[0], key, rev))
    if x.op == "seq" and len(x.args) <= 1:
        return x
    if x.op == "sorted" and x.args[1] is key and x.args[2] is rev:
        return x
    if key is NONE and x.op == "sorted":
        return sorted_(x.args[0], key, rev)
    if key is NONE and rev is FALSE and x.op == "gen" and x.args[2] is TRUE and x.args[3] is mk("bv", x.args[0]):
        return x                          # range(n)
    if key is not NONE and key.op == "lam" and key.args[1] == 1 and key.args[2] is mk("lamv", key.args[0], 0):
        key = NONE
    if key is NONE and x.op == "keys":
        x = x.args[0] if False else x
    return mk("sorted", x, key, rev)


def strip_perm(g):
    """canonicalise a gen whose consumer does not care about order"""
    if g.op != "gen":
        if g.op in ("sorted", "reversed"):
            return strip_perm(g.args[0])
        if g.op in ("deepcopy", "arr"):
            return strip_perm(g.args[0])
        return g
    for _ in range(4):
        h, size, filt, elem = g.args
        b = mk("bv", h)
        ps = set()
        bad = False
        # all occurrences of b must be inside item(P(X), b)
        for part in (filt, elem):
            ok = _bound_only_in(part, b, ps)
            if not ok:
                bad = True
        if not bad and len(ps) >= 1 and all(p.op in ("sorted", "reversed") for p in ps) and len(ps) == 1:
            p = ps.pop()
            l = fresh_lv()
            m = {mk("item", p, b): item(p.args[0], l)}
            g2 = mk_gen(l, size, replace(filt, m), replace(elem, m))
            if g2.op != "gen":
                return strip_perm(g2)
            if g2 is g:
                break
            g = g2
            continue
        # reversed index
        r = sub(sub(size, ONE), b)
        l = fresh_lv()
        f2, e2 = replace(filt, {r: l}), replace(elem, {r: l})
        if r.op == "poly" and (f2 is not filt or e2 is not elem) and not occurs(b, f2) and not occurs(b, e2):
            g2 = mk_gen(l, size, f2, e2)
            if g2.op != "gen":
                return strip_perm(g2)
            g = g2
            continue
        break
    return g


def _bound_only_in(t, b, ps):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x is b:
            return False
        if x.uid in seen or x.uid < b.uid:
            continue
        seen.add(x.uid)
        if x.op == "item" and x.args[1] is b:
            X = x.args[0]
            if not occurs(b, X):
                ps.add(X)
                continue
        stack.extend(children(x))
    return True


def law_points(x):
    """(distribution, grid, parameters) of a mass function evaluated on a grid"""
    if x.op != "call" or not x.args[0].startswith("scipy.stats.") or not x.args[0].endswith(".pmf") or x.args[2] or not x.args[1]:
        return None
    g = x.args[1][0]
    if g.op == "arr":
        g = g.args[0]
    if g.op == "gen" and g.args[2] is TRUE and all(not is_seq(p) and p.op != "arr" for p in x.args[1][1:]):
        return x.args[0][:-4], g, x.args[1][1:]
    return None


def sum_(x):
    if x.op == "call" and law_points(x):
        d, g, ps = law_points(x)
        if d.rsplit(".", 1)[-1] in ("poisson", "nbinom", "binom"):
            l = fresh_lv()
            if open_gen(g, l)[1] is l:
                # mass at 0..n-1
                return sub(ONE, mk("call", d + ".sf", (sub(g.args[1], ONE),) + tuple(ps), ()))
    if x.op in ("arr", "deepcopy", "sorted", "reversed"):
        return sum_(x.args[0])
    if x.op == "seq":
        r = ZERO
        for y in x.args:
            r = add(r, y)
        return r
    if x.op == "concat":
        r = ZERO
        for y in x.args[0]:
            r = add(r, sum_(y))
        return r
    if x.op == "ite":
        return ite(x.args[0], sum_(x.args[1]), sum_(x.args[2]))
    if x.op == "values" and x.args[0].op == "scatter" and x.args[0].args[0] is EMPTYDICT:
        return sum_(map_stream(x.args[0].args[1], lambda e: item(e, ONE)))
    if x.op == "scatter" and is_seq(x.args[0]):
        return add(sum_(x.args[0]), sum_(map_stream(x.args[1], lambda e: item(e, ONE))))
    if x.op == "gen":
        h, size, filt, elem = x.args
        l = fresh_lv()
        filt, elem = open_gen(x, l)
        if elem.op == "flat":
            elem = sum_(elem.args[0])
        if filt is TRUE and occurs(l, elem):
            # counted from the other end
            down = [_poly(y.args[1]).get(((l, 1),)) for y in subterms(elem) if y.op == "item" and occurs(l, y.args[1]) and not occurs(l, y.args[0])]
            if down and all(c == -1 for c in down):
                elem = replace(elem, {l: sub(sub(size, ONE), l)})
        # sum of the values of a counter
        if elem.op == "item" and elem.args[0].op == "scatter" and elem.args[0].args[0] is EMPTYDICT and filt is TRUE \
                and elem.args[1] is mk("item", mk("keys", elem.args[0]), l) and size is length(elem.args[0]):
            return sum_(map_stream(elem.args[0].args[1], lambda e: item(e, ONE)))
        if is_bool(elem):
            filt, elem = and_([filt, elem]), ONE
        if elem.op == "ite" and elem.args[2] is ZERO:
            filt, elem = and_([filt, elem.args[0]]), elem.args[1]
        elif elem.op == "ite" and elem.args[1] is ZERO:
            filt, elem = and_([filt, not_(elem.args[0])]), elem.args[2]
        res = ZERO
        for m, c in _poly(elem).items():
            indep, dep = {}, {}
            for a, e in m:
                (dep if occurs(l, a) else indep)[a] = e
            ind = _unpoly({tuple(sorted(indep.items(), key=lambda z: z[0].uid)): c})
            if not dep:
                if filt is TRUE:
                    s = size
                else:
                    g = mk_gen(l, size, filt, ONE)
                    s = mk("sum", strip_perm(g)) if g.op == "gen" else (length(g))
            else:
                dp = _unpoly({tuple(sorted(dep.items(), key=lambda z: z[0].uid)): Fraction(1)})
                g = mk_gen(l, size, filt, dp)
                if g.op == "gen":
                    g = strip_perm(g)
                if g.op in ("seq", "concat"):
                    s = sum_(g)
                else:
                    s = mk("sum", g)
            res = add(res, mul(ind, s))
        return res
    return mk("sum", x)


def set_(x):
    if x.op in ("arr", "deepcopy", "sorted", "reversed", "set", "shuffled"):
        return set_(x.args[0]) if x.op != "set" else x
    if x.op == "rand" and x.args[0].rsplit(".", 1)[-1] == "permutation" and len(x.args[2]) == 1 and not x.args[3]:
        return set_(x.args[2][0]) if is_seq(x.args[2][0]) or x.args[2][0].op == "shuffled" else mk("set", x)
    if x.op == "keys" and x.args[0].op in ("scatter", "dput") and x.args[0].args[0] is EMPTYDICT and x.args[0].args[1].op == "gen":
        return set_(map_stream(x.args[0].args[1], lambda e: item(e, ZERO)))
    if x.op in ("scatter",) and x.args[0] is EMPTYDICT:
        return set_(mk("keys", x))
    if x.op == "seq":
        xs = []
        for y in x.args:
            if y not in xs:
                xs.append(y)
        return mk("set", seq(tuple(sorted(xs))))
    if x.op == "gen":
        return mk("set", norm_set_stream(x))
    if x.op == "concat":
        return mk("set", mk("concat", tuple(sorted(strip_perm(p) for p in x.args[0]))))
    return mk("set", x)


def norm_set_stream(g):
    if g.op != "gen":
        return g
    l = fresh_lv()
    f, e = open_gen(g, l)
    if e.op == "flat":
        inner = e.args[0]
        while inner.op == "set" or inner.op == "keys" and inner.args[0].op in ("scatter", "dput") and inner.args[0].args[0] is EMPTYDICT and inner.args[0].args[1].op == "gen":
            inner = inner.args[0] if inner.op == "set" else map_stream(inner.args[0].args[1], lambda y: item(y, ZERO))
        if inner.op == "gen" and inner.args[2] is TRUE and inner.args[3].op != "flat":
            k = fresh_lv()
            ie = open_gen(inner, k)[1]
            if k not in subterms(ie):
                g = mk_gen(l, g.args[1], and_([f, lt(ZERO, inner.args[1])]), ie)      # copies of one element
                return strip_perm(g) if g.op == "gen" else g
        e = mk("flat", norm_set_stream(inner) if inner.op == "gen" else strip_perm(inner))
    g = mk_gen(l, g.args[1], f, e)
    return strip_perm(g) if g.op == "gen" else g


def scatter(base, g):
    """base with base[k] += v for every pair (k, v) of the stream g"""
    if g is EMPTY:
        return base
    g = norm_pairs(g)
    if base.op == "gen" and base.args[3] is ZERO and base.args[2] is TRUE and g.op == "gen":
        # one more in the first S_j entries, for every j
        l = fresh_lv()
        f, e = open_gen(g, l)
        if e.op == "flat" and e.args[0].op == "gen" and e.args[0].args[2] is TRUE:
            i = fresh_lv()
            _, kv = open_gen(e.args[0], i)
            if kv.op == "seq" and len(kv.args) == 2 and kv.args[0] is i and numval(kv.args[1]) is not None:
                return suffixsum(scatter(base, mk_gen(l, g.args[1], f, seq((sub(e.args[0].args[1], ONE), kv.args[1])))))
    if base.op == "scatter":
        return mk("scatter", base.args[0], concat([base.args[1], g]))
    return mk("scatter", base, g)


def norm_pairs(g):
    """flatten counters merged item by item; canonicalise order"""
    if g.op == "concat":
        return concat([norm_pairs(x) for x in g.args[0]])
    if g.op == "ite":
        return ite(g.args[0], norm_pairs(g.args[1]), norm_pairs(g.args[2]))
    if g.op != "gen":
        return g
    l = fresh_lv()
    f, e = open_gen(g, l)
    size = g.args[1]
    if e.op == "flat":
        inner = norm_pairs(e.args[0])
        r = mk_gen(l, size, f, mk("flat", inner))
        return strip_perm(r) if r.op == "gen" else r
    if e.op == "seq" and len(e.args) == 2 and f is TRUE:
        k, v = e.args
        if k.op == "item" and k.args[1] is l and k.args[0].op == "keys":
            D = k.args[0].args[0]
            if D.op == "scatter" and D.args[0] is EMPTYDICT and v is mk("item", D, k) and size is length(D):
                return norm_pairs(D.args[1])
    r = mk_gen(l, size, f, e)
    return strip_perm(r) if r.op == "gen" else r


def dmerge(a, b):
    """a updated with the mapping b"""
    if a is EMPTYDICT:
        return copy_(b)
    if b.op == "dict":
        for k, v in b.args[0]:
            a = dput(a, seq((seq((k, v)),)))
        return a
    return mk("dmerge", a, b)


def dput(base, g):
    """base with base[k] = v for every pair of the stream g"""
    if g is EMPTY:
        return base
    if g.op == "seq" and base.op == "dict":
        d = list(base.args[0])
        for p in g.args:
            k, v = p.args
            if not is_const(k):
                break
            for i, (kk, _) in enumerate(d):
                if kk is k:
                    d[i] = (k, v)
                    break
            else:
                d.append((k, v))
        else:
            return mk("dict", tuple(d))
    if base.op == "dput":
        return mk("dput", base.args[0], concat([base.args[1], g]))
    return mk("dput", base, g)


# ---------------------------------------------------------------- strings
def strcat(parts):
    out = []
    for p in parts:
        if p.op == "strcat":
            out.extend(p.args[0])
        elif strval(p) == "":
            continue
        elif p.op == "fmt" and p.args[1] == "" and is_str(p.args[0]):
            q = p.args[0]
            out.extend(q.args[0] if q.op == "strcat" else (q,))
        else:
            out.append(p)
    m = []
    for p in out:
        if m and strval(p) is not None and strval(m[-1]) is not None:
            m[-1] = const(strval(m[-1]) + strval(p))
        else:
            m.append(p)
    if not m:
        return const("")
    if len(m) == 1 and is_str(m[0]):
        return m[0]
    return mk("strcat", tuple(m))


def fmt(x, spec=""):
    if spec == "":
        if is_str(x):
            return x
        if x.op == "num" and x.args[0].denominator == 1:
            return const(str(int(x.args[0])))
        if x.op == "ite":
            return ite(x.args[0], fmt(x.args[1]), fmt(x.args[2]))
    return mk("fmt", x, spec)


# ---------------------------------------------------------------- rewriting
def rebuild(op, args):
    if op in ("bitand", "bitor"):
        return mk(op, *sorted(args))
    f = _REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


_REBUILD = {}


def _reg(**kw):
    _REBUILD.update(kw)


def _rb_poly(items):
    d = ZERO
    for c, m in items:
        x = const(c)
        for a, e in m:
            if e < 0:
                for _ in range(-e):
                    x = div(x, a)
            else:
                for _ in range(e):
                    x = mul(x, a)
        d = add(d, x)
    return d


_reg(
    poly=_rb_poly,
    lt0=lambda d: lt(d, ZERO), le0=lambda d: le(d, ZERO), eq0=lambda d: eq(d, ZERO), eq=eq,
    isnone=isnone, truth=truth, **{"not": not_, "and": lambda xs: and_(list(xs)), "or": lambda xs: or_(list(xs))},
    ite=ite, min=lambda xs: min_(list(xs)), max=lambda xs: max_(list(xs)),
    maxof=lambda g: extreme("maxof", g), minof=lambda g: extreme("minof", g),
    len=length, item=item, slice=slice_, sum=sum_, set=set_, scatter=scatter, dput=dput,
    concat=lambda xs: concat(list(xs)), sorted=sorted_, reversed=reversed_, deepcopy=deepcopy, copy=copy_,
    prefixsum=prefixsum, suffixsum=suffixsum, upd=upd, rep=rep,
    strcat=lambda xs: strcat(list(xs)), fmt=fmt, pow=power, abs=absv,
    arr=lambda x: x if x.op == "arr" else mk("arr", x), get=get_,
)

attr_hook = [None]


def _rb_attr(base, name):
    if attr_hook[0]:
        r = attr_hook[0](base, name)
        if r is not None:
            return r
    return mk("attr", base, name)


_reg(attr=_rb_attr)


def _map_args(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map_args(x, f) for x in a)
    return a


def replace(t, m):
    """substitute terms; binders are re-canonicalised"""
    if not m:
        return t
    memo = {}
    keys = set(m)
    low = min(k.uid for k in keys)

    def go(x):
        if x.uid < low:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x in keys:
            r = m[x]
        elif x.op in ("num", "const", "var", "lv", "bv", "lamv", "ext", "fn", "clsref", "closure"):
            r = x
        elif x.op in ("gen", "lam") and not _touches(x, keys):
            r = x
        elif x.op == "gen":
            l = fresh_lv()
            h, size, filt, elem = x.args
            b = mk("bv", h)
            # bound variable of this binder shadows nothing in keys unless b is a key
            inner = {k: v for k, v in m.items() if k is not b}
            f2, e2 = replace(filt, {b: l}), replace(elem, {b: l})
            r = mk_gen(l, go(size), replace(f2, inner), replace(e2, inner))
        elif x.op == "lam":
            h, n, body = x.args
            ls = [fresh_lv() for _ in range(n)]
            b2 = replace(body, {mk("lamv", h, i): l for i, l in enumerate(ls)})
            r = mk_lam(n, ls, replace(b2, {k: v for k, v in m.items() if k.op != "lamv" or k.args[0] != h}))
        else:
            args = tuple(_map_args(a, go) for a in x.args)
            r = x if args == x.args else rebuild(x.op, args)
        memo[x] = r
        return r
    return go(t)


def _touches(t, keys):
    low = min(k.uid for k in keys)
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.uid < low or x.uid in seen:
            continue
        if x in keys:
            return True
        seen.add(x.uid)
        stack.extend(children(x))
    return False


def rewrite(t, f):
    """bottom-up: f(term) -> replacement or None"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "gen":
            l = fresh_lv()
            fl, e = open_gen(x, l)
            r = mk_gen(l, go(x.args[1]), go(fl), go(e))
        elif x.op == "lam":
            h, n, body = x.args
            ls = [fresh_lv() for _ in range(n)]
            b2 = replace(body, {mk("lamv", h, i): l for i, l in enumerate(ls)})
            r = mk_lam(n, ls, go(b2))
        elif children(x):
            args = tuple(_map_args(a, go) for a in x.args)
            r = x if args == x.args else rebuild(x.op, args)
        else:
            r = x
        y = f(r)
        if y is not None and y is not r:
            r = y
        memo[x] = r
        return r
    return go(t)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 14:
        return "..."
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == "num":
        v = a[0]
        return str(v.numerator) if v.denominator == 1 else str(float(v))
    if o == "const":
        return repr(a[1])
    if o == "var":
        return a[0]
    if o == "lv":
        return "i%d" % a[0]
    if o == "bv":
        return "j%d" % a[0]
    if o == "lamv":
        return "x%d_%d" % (a[0], a[1])
    if o == "attr":
        return s(a[0]) + "." + a[1]
    if o == "item":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "slice":
        return "%s[%s:%s]" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "poly":
        out = []
        for c, m in a[0]:
            ms = "*".join(s(x) + ("" if e == 1 else "^%d" % e) for x, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            else:
                out.append("%s*%s" % (c, ms))
        return "(" + " + ".join(out) + ")"
    if o == "lt0":
        return "(%s < 0)" % s(a[0])
    if o == "le0":
        return "(%s <= 0)" % s(a[0])
    if o == "eq0":
        return "(%s == 0)" % s(a[0])
    if o == "eq":
        return "(%s == %s)" % (s(a[0]), s(a[1]))
    if o == "gen":
        return "[%s%s for j%d < %s%s]" % ("*" if a[3].op == "flat" else "", s(a[3].args[0] if a[3].op == "flat" else a[3]), a[0], s(a[1]), "" if a[2] is TRUE else " if " + s(a[2]))
    if o == "seq":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join([s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]))
    if o == "mcall":
        return "%s.%s(%s)" % (s(a[0]), a[1], ", ".join([s(x) for x in a[2]] + ["%s=%s" % (k, s(v)) for k, v in a[3]]))
    if o == "new":
        return "%s(%s)" % (a[0].rsplit(".", 1)[-1], ", ".join("%s=%s" % (k, s(v)) for k, v in a[1]))
    if o == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if o == "strcat":
        return "f'" + "".join(strval(p) if strval(p) is not None else "{" + s(p) + "}" for p in a[0]) + "'"
    if o in ("ext", "fn", "clsref"):
        return str(a[0])
    if o == "opaque":
        return "?%s%d" % (a[1], a[0])
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


def reset_vars():
    """forget what is known about input variables (between laws)"""
    VAR_TYPES.clear()
    GIVEN.clear()
    for f in list(globals().values()):
        if hasattr(f, "cache_clear"):
            f.cache_clear()

"""Shared analysis of noised requests and strategies (C01, C02, C03)."""
import itertools
import re
from fractions import Fraction
from .. import law, terms as t, diff
from ..flow import Interp
from ..terms import mk, const, TRUE, FALSE, NONE

APPEND = "simulator.privacy_tracker.PrivacyTracker.append"
REQUESTS = ["simulator.halo_simulator.HaloSimulator.simulated_reach_by_spend",
            "simulator.halo_simulator.HaloSimulator.simulated_venn_diagram_reach_by_spend"]
NOISER = re.compile(r"(Noiser|Mechanism)$")
ESTIMATOR = re.compile(r"HistogramEstimator$")

# operations that reveal user-level data, and the ones that only give prices and volumes
REVEALING = re.compile(r"(user_counts|reach|sketch|^_data$|users|user_ids)")
PUBLIC = ("impressions_by_spend", "spend_by_impressions", "max_spend", "max_impressions", "publisher_count", "universe_size",
          "name", "campaign_spend", "publisher_name")
STOPS = ["data_generators.publisher_data.PublisherData.", "data_generators.data_set.DataSet.",
         "simulator.publisher.Publisher.liquid_legions_sketch", "simulator.publisher.Publisher.true_reach_by_spend"]


class Request:
    def __init__(self, prog, entry, extra_stop=()):
        sf = law.SpecFile(prog, "entry")
        self.func = sf.module.functions[entry]
        t.reset_vars()
        a = law.argvars(Interp(prog), self.func)
        self.args = a
        opts = {"stop": [APPEND] + list(extra_stop), "stop_prefix": STOPS}
        self.ip, self.result, self.facts = law.evaluate(prog, self.func, opts, a)
        self.effects = self.ip.effects
        self.visited = [q for q in self.ip.visited if not q.startswith("$spec")]
        self.known = set(x for f in self.facts for x in t.conjuncts(f))


def tail(name):
    return name.rsplit(".", 1)[-1]


def is_noiser(x):
    return isinstance(x, t.T) and x.op == "call" and (NOISER.search(tail(x.args[0])) is not None or ESTIMATOR.search(tail(x.args[0])) is not None)


def noiser_in(x):
    """the noise object an application goes to (looking through containers is left undecided)"""
    return x if is_noiser(x) else None


class Noise:
    """one noise object, the (epsilon, delta) pairs that calibrate it, and where it is applied"""
    def __init__(self, term, effect):
        self.term, self.made = term, effect
        self.uses = []
        self.pairs = None
        name, args, kw = term.args[0], term.args[1], dict(term.args[2])
        if ESTIMATOR.search(tail(name)):
            self.estimator = True
            re_, fe = kw.get("reach_epsilon"), kw.get("frequency_epsilon")
            rd, fd = kw.get("reach_delta"), kw.get("frequency_delta")
            if re_ is not None and fe is not None:
                self.pairs = [(re_, rd), (fe, fd)]
        else:
            self.estimator = False
            e = kw.get("epsilon", args[0] if args else None)
            if e is not None:
                self.pairs = [(e, kw.get("delta"))]


class Charge:
    def __init__(self, e):
        self.effect = e
        self.tracker = dict(e.kw).get("self", e.args[0] if e.args else None)
        ev = dict(e.kw).get("event", e.args[1] if len(e.args) > 1 else None)
        self.eps = self.delta = None
        self.buckets = None
        if ev is not None and ev.op == "new":
            d = dict(ev.args[1])
            b = d.get("budget")
            if b is not None and b.op == "new":
                self.eps, self.delta = dict(b.args[1]).get("epsilon"), dict(b.args[1]).get("delta")
            elif b is not None:
                self.eps, self.delta = t.mk("attr", b, "epsilon"), t.mk("attr", b, "delta")
            self.buckets = d.get("sampling_buckets")
        self.event = ev


def collect(rq):
    noises, charges = {}, []
    for e in rq.effects:
        if e.kind == "call" and e.value is not None and is_noiser(e.value) and e.base is None:
            noises.setdefault(e.value, Noise(e.value, e))
    unknown_uses = []
    for e in rq.effects:
        if e.kind == "call" and e.name == APPEND:
            charges.append(Charge(e))
        elif e.kind in ("unknown", "call") and e.base is not None:
            for n in set(t.subterms(e.base)):
                if n in noises:
                    if n is e.base:
                        if e.name in ("output_privacy_parameters",):
                            continue
                        noises[n].uses.append(e)
                    elif e.kind == "unknown":
                        unknown_uses.append(e)
    # a noise object handed to something else (map(noiser, xs), a partial, ...)
    for e in rq.effects:
        if e.kind in ("call", "unknown", "mutate"):
            for a in list(e.args) + [v for _, v in e.kw]:
                if a in noises and e.value is not noises[a].term and e.name != APPEND:
                    noises[a].uses.append(e)
    # applications hidden in values only
    for n in noises.values():
        if not n.uses:
            for x in t.subterms(rq.result):
                if x.op in ("callv", "mcall", "mapped") and x.args[0] is n.term:
                    n.uses.append(n.made)
                    break
    return noises, charges, unknown_uses


def bad(x):
    """value not fully known"""
    return x is None or t.has_op(x, ("opaque", "carry", "undef"))


def leaves(x, cap=64):
    """case split on the conditions occurring in x: list of (assumptions, value)"""
    out, work = [], [([], x)]
    while work:
        cs, v = work.pop()
        c = next((y.args[0] for y in t.subterms(v) if y.op == "ite"), None)
        if c is None or len(out) + len(work) > cap:
            out.append((cs, v))
            continue
        at = next(iter(t.conjuncts(c)))
        for val in (TRUE, FALSE):
            m = {at: val, t.not_(at): FALSE if val is TRUE else TRUE}
            if at.op == "truth" and at.args[0].op in ("var", "attr") and False:
                pass
            v2 = t.replace(v, m)
            if v2 is v:
                out.append((cs, v))
                break
            work.append((cs + [at if val is TRUE else t.not_(at)], v2))
    return out


def guards_without(common, e):
    return t.and_([c for c in t.conjuncts(e.guard) if c not in common])


def common_guard(effects, extra=()):
    sets = [set(t.conjuncts(e.guard)) for e in effects]
    c = set.intersection(*sets) if sets else set()
    return c | set(extra)


def count_of(loops):
    """number of iterations as a term (None when filtered)"""
    n = const(1)
    for l, size, filt in loops:
        if filt is not TRUE and filt is not None:
            return None
        n = t.mul(n, size)
    return n


def loops_key(e):
    return tuple((l, s) for l, s, f in e.loops)


# ---------------------------------------------------------------- taint (C03)
def leak(x, clean, seen=None, keys=False, path=()):
    """first sub-value of x that carries user-level data without passing a noise mechanism"""
    if seen is None:
        seen = set()
    if not isinstance(x, t.T):
        if isinstance(x, tuple):
            for y in x:
                r = leak(y, clean, seen, keys)
                if r is not None:
                    return r
        return None
    k = (x, keys)
    if k in seen:
        return None
    seen.add(k)
    if clean(x) or x.op == "opaque":
        return None
    if x.op == "rcall":
        n = tail(x.args[0])
        if n in PUBLIC or n in [tail(q) for q in REQUESTS]:
            return None
        if REVEALING.search(n):
            return x
    if x.op == "attr":
        if x.args[1] in ("_data", "max_reach", "_impressions", "_impression_log_data") and not keys:
            y = x.args[0]
            if y.op == "item" or "publisher" in str(x.args[1]):
                return x
        return leak(x.args[0], clean, seen, False)
    if x.op == "item" and x.args[0].op == "unzip" and t.numval(x.args[1]) is not None and x.args[0].args[0].op == "gen":
        # one column of zip(*pairs)
        g = x.args[0].args[0]
        col = g.args[3]
        k = int(t.numval(x.args[1]))
        sizes = [g.args[1], g.args[2]]
        while col.op == "flat" and col.args[0].op == "gen":
            sizes += [col.args[0].args[1], col.args[0].args[2]]
            col = col.args[0].args[3]
        if col.op == "seq" and k < len(col.args):
            for y in sizes + [col.args[k]]:
                r = leak(y, clean, seen)
                if r is not None:
                    return r
            return None
    if x.op == "item":
        # an element: the container only matters through what it holds
        return leak(x.args[0], clean, seen, False) or leak(x.args[1], clean, seen, False)
    if x.op == "keys":
        return key_leak(x.args[0], clean, seen)
    if x.op in ("len", "truth"):
        y = x.args[0]
        if y.op == "attr" and y.args[1] in ("_data", "_publishers"):
            return None
        return shape_leak(y, clean, seen)
    if x.op == "in":
        return leak(x.args[0], clean, seen, False) or key_leak(x.args[1], clean, seen) if len(x.args) > 1 and x.args[1].op in ("dput", "nscatter", "keys", "dict") else generic(x, clean, seen)
    return generic(x, clean, seen)


def shape_leak(y, clean, seen):
    """user data in the number of elements of y"""
    if y.op in ("dput", "nscatter", "scatter", "scatteror", "dict", "keys"):
        if y.op == "scatter" and t.is_seq(y.args[0]):
            return shape_leak(y.args[0], clean, seen)
        return key_leak(y.args[0] if y.op == "keys" else y, clean, seen)
    if y.op in ("values", "items", "arr", "sorted", "reversed", "copy", "deepcopy", "tuple", "suffixsum", "prefixsum"):
        return shape_leak(y.args[0], clean, seen)
    if y.op == "seq":
        return None
    if y.op == "gen" and y.args[3].op != "flat":
        return leak(y.args[1], clean, seen) or leak(y.args[2], clean, seen)
    if y.op == "gen" and y.args[3].op == "flat":
        return leak(y.args[1], clean, seen) or leak(y.args[2], clean, seen) or shape_leak(y.args[3].args[0], clean, seen)
    if y.op == "item" and y.args[0].op == "unzip":
        return shape_leak(y.args[0].args[0], clean, seen)
    if y.op == "rand" and y.args[0] == "multivariate_hypergeometric" and y.args[2]:
        return shape_leak(y.args[2][0], clean, seen)
    if y.op == "concat":
        for p in y.args[0] if isinstance(y.args[0], tuple) else y.args:
            r = shape_leak(p, clean, seen)
            if r is not None:
                return r
        return None
    return leak(y, clean, seen)


def generic(x, clean, seen):
    for y in x.args:
        r = leak(y, clean, seen)
        if r is not None:
            return r
    return None


def key_leak(d, clean, seen):
    """user data in the set of keys of a dictionary"""
    if d.op == "nscatter":
        return key_leak(d.args[0], clean, seen)
    if d.op in ("dput", "scatter", "scatteror"):
        r = key_leak(d.args[0], clean, seen)
        if r is not None:
            return r
        g = d.args[1]
        return gen_key_leak(g, clean, seen)
    if d.op == "dict":
        return leak(tuple(p[0] if isinstance(p, tuple) else p for p in d.args[0]) if isinstance(d.args[0], tuple) else d.args[0], clean, seen)
    return leak(d, clean, seen)


def gen_key_leak(g, clean, seen):
    if g.op == "seq":
        for p in g.args:
            r = leak(p.args[0] if p.op == "seq" and p.args else p, clean, seen)
            if r is not None:
                return r
        return None
    if g.op == "gen":
        h, size, filt, elem = g.args
        r = leak(size, clean, seen) or leak(filt, clean, seen)
        if r is not None:
            return r
        if elem.op == "flat":
            return gen_key_leak(elem.args[0], clean, seen)
        return leak(elem.args[0] if elem.op == "seq" and elem.args else elem, clean, seen)
    if g.op == "concat":
        for p in g.args[0] if isinstance(g.args[0], tuple) else g.args:
            r = gen_key_leak(p, clean, seen)
            if r is not None:
                return r
        return None
    return leak(g, clean, seen)


# ------------------------------------------------------- charges versus noise
def parameter_lists(noises):
    """est.output_privacy_parameters() -> its documented content"""
    m = {}
    for n in noises.values():
        if n.estimator and n.pairs:
            kw = dict(n.term.args[2])
            rows = []
            for (e, d), c in zip(n.pairs, ("reach_noiser_class", "frequency_noiser_class")):
                rows.append(t.seq([kw.get(c, NONE), e, d if d is not None else NONE]))
            m[mk("mcall", n.term, "output_privacy_parameters", (), ())] = t.seq(rows)
    return m


def expand(e, m):
    """an effect inside loops of known length -> one effect per iteration"""
    e = e.map(lambda x: t.replace(x, m)) if m else e
    work, out = [e], []
    while work:
        x = work.pop(0)
        hit = None
        for i, (l, size, filt) in enumerate(x.loops):
            k = t.numval(size)
            if k is not None and k.denominator == 1 and k <= 8:
                hit = (i, l, int(k))
                break
        if hit is None:
            out.append(x)
            continue
        i, l, k = hit
        for j in range(k):
            y = x.map(lambda z: t.replace(z, {l: const(j)}))
            f = y.loops[i][2]
            if f is FALSE or y.guard is FALSE:
                continue
            y.loops = tuple(y.loops[:i]) + tuple(y.loops[i + 1:])
            if f is not TRUE:
                y.guard = t.and_([y.guard, f])
            work.append(y)
    return out


def settled(e, facts):
    """guard of an effect given that the request completes (conditions under which it would have raised removed)"""
    drop = set(facts)
    for c, k in e.pc:
        if k == "noraise":
            drop.update(t.conjuncts(c))
            drop.add(c)
    cs = [c for c in t.conjuncts(e.guard) if c not in drop]
    return t.and_(cs)


def weight(e, guard, value=None):
    """ite(guard, number of executions, 0); None when it depends on the iteration"""
    n = count_of(e.loops)
    if n is None:
        return None
    for l, _, _ in e.loops:
        if t.occurs(l, guard) or (value is not None and t.occurs(l, value)):
            return None
    return t.ite(guard, n if value is None else t.mul(n, value), t.ZERO)


def under(x, guard):
    """value of x when guard holds"""
    m = {}
    for c in t.conjuncts(guard):
        m[c] = TRUE
        m[t.not_(c)] = FALSE
    return t.replace(x, m) if m else x

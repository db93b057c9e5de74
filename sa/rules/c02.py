"""C02: requests spend exactly their budget, strategies at most theirs."""
from . import privacy as P
from .. import terms as t
from ..terms import TRUE, FALSE, const


def run(ctx):
    ctx.rule("request", "the epsilons (deltas) of the noise applied by a request sum, as polynomials in the budget and the split, to the budget, on every path")
    ctx.rule("strategy", "the budgets of all requests issued by fit, counted with their loop sizes, sum to at most the fit's budget for every number of publishers")
    for entry in ("reach_request", "venn_request"):
        try:
            P.law.timed(120, lambda: request(ctx, entry))
        except P.law.Slow:
            ctx.skip("request", entry, "analysis budget exhausted")
    for entry in ("m3_fit", "m3_fit_truth", "single_fit"):
        try:
            P.law.timed(120, lambda: strategy(ctx, entry))
        except P.law.Slow:
            ctx.skip("strategy", entry, "analysis budget exhausted")


def request(ctx, entry):
    rq = P.Request(ctx.prog, entry)
    ctx.see(rq.visited)
    noises, charges, unknown = P.collect(rq)
    live = [n for n in noises.values() if n.uses]
    if not live or unknown:
        return ctx.skip("request", entry, "noise not resolved")
    lists = P.parameter_lists(noises)
    eps, delta = rq.args["eps"], rq.args["delta"]
    used = [u for n in live for u in n.uses]
    drop = P.common_guard(used, rq.known)
    te = t.ZERO
    for n in live:
        if n.pairs is None:
            return ctx.skip("request", entry, "epsilon not resolved")
        g = t.or_([t.and_([c for c in t.conjuncts(P.settled(u, rq.known)) if c not in drop and not any(t.occurs(l, c) for l, _, _ in u.loops)]) for u in n.uses])
        for e, _ in n.pairs:
            w = P.weight(n.made, g, e)
            if w is None:
                return ctx.skip("request", entry, "number of noise objects not resolved")
            te = t.add(te, w)
    judge(ctx, "request", entry + "/epsilon", te, eps, live[0].uses[0].where(), exact=True, split=rq.args.get("split"))
    # delta: from the noise parameters when they carry one, from the events otherwise
    td = t.ZERO
    if all(n.pairs and all(d is not None for _, d in n.pairs) for n in live):
        for n in live:
            for _, d in n.pairs:
                w = P.weight(n.made, TRUE, d)
                if w is None:
                    return ctx.skip("request", entry + "/delta", "not resolved")
                td = t.add(td, w)
        where = live[0].made.where()
    else:
        cs = [P.Charge(e) for c in charges for e in P.expand(c.effect, lists)]
        if not cs:
            return ctx.skip("request", entry + "/delta", "no events")
        cdrop = P.common_guard([c.effect for c in cs], rq.known) | drop
        for c in cs:
            if c.delta is None:
                return ctx.skip("request", entry + "/delta", "not resolved")
            g = t.and_([x for x in t.conjuncts(P.settled(c.effect, rq.known)) if x not in cdrop])
            w = P.weight(c.effect, g, c.delta)
            if w is None:
                return ctx.skip("request", entry + "/delta", "not resolved")
            td = t.add(td, w)
        where = cs[0].effect.where()
    judge(ctx, "request", entry + "/delta", td, delta, where, exact=True, split=rq.args.get("split"))


def judge(ctx, rule, name, total, budget, where, exact, items=(), split=None):
    d = t.sub(total, budget)
    unsure = None
    for cond, v in P.leaves(d):
        if P.law.contradiction(list(cond)):
            continue
        if v is t.ZERO:
            continue
        if v is t.neg(budget) and cond:
            continue            # a path on which nothing is released
        if P.bad(v):
            unsure = "total %s not resolved" % t.show(v)[:100]
            continue
        if exact and t.has_op(v, ("max", "min")):
            how = extremes(v, split)
            if how is not None:
                return ctx.fail(rule, name, where, "the parts sum to %s, the budget is %s" % (how, t.show(budget)))
        s = t.sign(cleared(v))
        if not exact and s in ("<", "<="):
            continue
        if exact and all(x.op == "var" for m in t._poly(cleared(v)) for x, _ in m) or (not exact and s == ">" and not items):
            return ctx.fail(rule, name, where, "the parts sum to %s, the budget is %s%s" % (t.show(t.add(v, budget))[:160], t.show(budget), (" when " + t.show(t.and_(list(cond)))[:160]) if cond else ""))
        if not exact:
            n = concrete(budget, items)
            if n is not None:
                return ctx.fail(rule, name, where, "the parts sum to %s, more than the budget %s, with %s publishers" % (t.show(t.add(v, budget))[:160], t.show(budget), n))
        unsure = "total %s" % t.show(t.add(v, budget))[:120]
    if unsure:
        ctx.skip(rule, name, unsure)
    else:
        ctx.ok(rule, name)


def extremes(v, split):
    """a nonzero value of v for a split strictly between 0 and 1, each max and min resolved to one operand"""
    def rec(v, lo, hi):
        m = next((x for x in t.subterms(v) if x.op in ("max", "min")), None)
        if m is None:
            if v is not t.ZERO and all(x.op == "var" for mono in t._poly(cleared(v)) for x, _ in mono):
                return "%s more, for a split between %s and %s" % (t.show(v)[:120], float(lo), float(hi))
            return None
        for k in m.args[0]:
            l, h = lo, hi
            for o in m.args[0]:
                if o is k:
                    continue
                d = t.sub(k, o) if m.op == "max" else t.sub(o, k)     # >= 0 where k is taken
                p = t._poly(d)
                if any(mono not in ((), ((split, 1),)) for mono in p):
                    break
                c0, c1 = p.get((), 0), p.get(((split, 1),), 0)
                if c1 > 0:
                    l = max(l, -c0 / c1)
                elif c1 < 0:
                    h = min(h, -c0 / c1)
                elif c0 < 0:
                    break
            else:
                if l < h:
                    r = rec(t.replace(v, {m: k}), l, h)
                    if r is not None:
                        return r
        return None
    from fractions import Fraction
    return rec(v, Fraction(0), Fraction(1)) if split is not None else None


def cleared(v):
    """multiply a sum of fractions by its (positive) denominators"""
    for _ in range(4):
        den = None
        for m in t._poly(v):
            for x, e in m:
                if e < 0 and (t.is_pos(x) or x.op in ("var",)):
                    den = (x, e)
                    break
            if den:
                break
        if den is None:
            return v
        x, e = den
        v = t.mul(v, t.power(x, const(-e)))
    return v


def concrete(budget, items):
    """a number of publishers for which the requests exceed the budget"""
    ls = {x for e, g, v in items for y in [g, v] + [s for _, s, _ in e.loops] for x in t.subterms(y) if x.op == "len"}
    ls = [x for x in ls if t.show(x).endswith("_publishers)")] or list(ls)
    if len(ls) != 1:
        return None
    for k in range(1, 12):
        tot = enumerate_total(items, budget, k, ls[0])
        if tot is not None and t.sign(t.sub(tot, budget)) == ">":
            return k
    return None


def strategy(ctx, entry):
    rq = P.Request(ctx.prog, entry, extra_stop=P.REQUESTS)
    ctx.see(rq.visited)
    reqs = [e for e in rq.effects if e.kind == "call" and e.name in P.REQUESTS]
    if not reqs:
        return ctx.skip("strategy", entry, "no request found")
    for what in ("epsilon", "delta"):
        total = t.ZERO
        budget = rq.args["eps" if what == "epsilon" else "delta"]
        ok = True
        items = []
        for e in reqs:
            b = dict(e.kw).get("budget")
            if b is None:
                ok = False
                break
            v = dict(b.args[1]).get(what) if b.op == "new" else t.mk("attr", b, what)
            if v is None or P.bad(v):
                ok = False
                break
            g = P.settled(e, rq.known)
            items.append((e, g, v))
            w = P.weight(e, g, v)
            if w is None:
                w = v
                gl = g
                for l, size, filt in reversed(e.loops):
                    dep = t.and_([c for c in t.conjuncts(gl) if t.occurs(l, c)] + [filt])
                    gl = t.and_([c for c in t.conjuncts(gl) if not t.occurs(l, c)])
                    w = t.sum_(t.mk_gen(l, size, dep, w))
                w = t.ite(gl, w, t.ZERO)
            total = t.add(total, w)
        if not ok:
            ctx.skip("strategy", entry + "/" + what, "budget of a request not resolved")
            continue
        # sums over unknown sizes that are not closed forms stay undecided in judge
        judge(ctx, "strategy", entry + "/" + what, total, budget, reqs[0].where(), exact=False, items=items)


def released(c):
    """c compares one released (noised) count with a constant"""
    c = c.args[0] if c.op == "not" else c
    if c.op not in ("eq0", "eq", "truth", "le0", "lt0"):
        return False
    calls = {x for x in t.subterms(c) if x.op == "rcall" and x.args[0] in P.REQUESTS}
    if not calls:
        return False
    rest = t.replace(c, {x: t.mk("var", "released") for x in calls})
    return not any(x.op in ("var", "lv") and x.args[0] != "released" or x.op in ("rcall", "mcall", "callv", "opaque", "call", "rand") for x in t.subterms(rest))


def enumerate_total(items, budget, k, L):
    """total for k publishers, each loop iteration taken separately (None when not resolved)"""
    m = {L: const(k), t.mk("truth", L.args[0]): TRUE}
    total = t.ZERO
    chosen = set()

    def rec(loops, g, v):
        nonlocal total
        if g is FALSE or total is None:
            return
        if not loops:
            for c in t.conjuncts(g):
                if c is TRUE:
                    continue
                # decided by numbers released earlier, which noise can make anything: take the dearer way,
                # the same way everywhere
                if not released(c) or t.not_(c) in chosen:
                    total = None
                    return
                chosen.add(c)
            total = t.add(total, v)
            return
        l, size, filt = loops[0]
        n = t.numval(size)
        if n is None or n > 40:
            total = None
            return
        for j in range(int(n)):
            mj = {l: const(j)}
            rec([(a, t.replace(b, mj), t.replace(c, mj)) for a, b, c in loops[1:]], t.replace(t.and_([g, filt]), mj), t.replace(v, mj))
    for e, g, v in items:
        rec([(l, t.replace(s, m), t.replace(f, m)) for l, s, f in e.loops], t.replace(g, m), t.replace(v, m))
        if total is None:
            return None
    return total

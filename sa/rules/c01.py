"""C01: every applied noise mechanism is charged once, with its own epsilon and delta share."""
from . import privacy as P
from .. import terms as t
from ..terms import TRUE


def run(ctx):
    ctx.rule("charge", "for each noise object applied on a path of a request, the tracker given to the simulator receives exactly one NoisingEvent with that epsilon and the matching delta share on the same path")
    ctx.rule("ledger", "PrivacyTracker keeps every appended event (normal form of mechanisms after any sequence of appends)")
    for entry in ("reach_request", "venn_request"):
        try:
            check(ctx, entry)
        except P.law.Slow:
            ctx.skip("charge", entry, "analysis budget exhausted")
    ctx.laws("c25", only=["mechanisms", "two_events", "append_keeps", "bucket_epsilon", "bucket_delta"])


def check(ctx, entry):
    rq = P.law.timed(120, lambda: P.Request(ctx.prog, entry))
    ctx.see(rq.visited)
    noises, charges, unknown = P.collect(rq)
    if not [n for n in noises.values() if n.uses]:
        return ctx.skip("charge", entry, "no noise object recognised")
    lists = P.parameter_lists(noises)
    eps, delta = rq.args["eps"], rq.args["delta"]
    # expanded charges
    cs = []
    for c in charges:
        for e in P.expand(c.effect, lists):
            cs.append(P.Charge(e))
    for c in cs:
        if P.bad(c.eps) or P.bad(c.delta) or c.effect.tries:
            return ctx.skip("charge", entry, "charge not resolved at %s" % c.effect.where())
        if c.tracker is not rq.args["tr"]:
            if c.tracker is None or P.bad(c.tracker):
                return ctx.skip("charge", entry, "receiver of the charge not resolved")
            return ctx.fail("charge", entry + "/tracker", c.effect.where(), "noising event goes to %s, not to the tracker of the simulator" % t.show(c.tracker)[:120])
    live = [n for n in noises.values() if n.uses]
    for n in live:
        if n.pairs is None or any(P.bad(e) for e, _ in n.pairs):
            return ctx.skip("charge", entry, "epsilon of %s not resolved" % P.tail(n.term.args[0]))
    if unknown:
        return ctx.skip("charge", entry, "noise applied through an unresolved value at %s" % unknown[0].where())
    # expected and actual numbers of events per epsilon
    classes = []
    for n in live:
        # uses inside a loop over disjoint parts of the data: the mechanism is charged once per
        # noise object; separate applications each count
        sites = []
        for u in n.uses:
            site = [drop_loops(P.settled(u, rq.known), n), u]
            if inner_loops(u, n):
                key = ("loop", inner_loops(u, n))
            else:
                key = ("call", u.seq)
            sites.append((key, site[0]))
        gs = []
        for k in dict.fromkeys(k for k, _ in sites):
            gs.append(t.or_([g for k2, g in sites if k2 == k]))
        for e, d in n.pairs:
            for g in gs:
                classes.append((e, d, n, g))
    todo = []
    for e, d, n, g in classes:
        if e not in todo:
            todo.append(e)
    problems = False
    for e in todo:
        mine = [(d, n, g) for e2, d, n, g in classes if e2 is e]
        got = [c for c in cs if c.eps is e]
        where = mine[0][1].uses[0].where()
        name = "%s/%s(epsilon=%s)" % (entry, P.tail(mine[0][1].term.args[0]), t.show(e)[:80])
        want_w, have_w = t.ZERO, t.ZERO
        ok = True
        for d, n, g in mine:
            w = P.weight(n.made, g)
            if w is None:
                ok = False
                break
            want_w = t.add(want_w, w)
        for c in got:
            w = P.weight(c.effect, P.settled(c.effect, rq.known))
            if w is None:
                ok = False
                break
            have_w = t.add(have_w, w)
        if not ok:
            ctx.skip("charge", name, "number of executions not resolved")
            continue
        bad = None
        for cond, v in P.leaves(t.sub(have_w, want_w)):
            if t.numval(v) == 0:
                continue
            if P.law.contradiction(list(cond)):
                continue
            if t.numval(v) is None and (P.bad(v) or t.sign(v) not in ("<", ">")):
                sg = None
                p = t._poly(v)
                if not p:
                    continue
                if not any(t.occurs(lv, v) for lv, _, _ in []):
                    # a symbolic, not identically zero count: different for some size
                    if all(x.op in ("len", "var") for m in p for x, _ in m):
                        sg = "?"
                if sg is None:
                    bad = "unsure"
                    continue
            bad = (cond, v)
            break
        if bad == "unsure":
            ctx.skip("charge", name, "number of events not resolved")
        elif bad:
            problems = True
            few = t.numval(bad[1]) is not None and t.numval(bad[1]) < 0
            ctx.fail("charge", name, where, "noise with epsilon=%s is applied but the number of events charged with that epsilon is off by %s%s (%s); charged: %s" % (
                t.show(e)[:100], t.show(bad[1])[:80], (" when " + t.show(t.and_(list(bad[0])))[:160]) if bad[0] else "",
                "not charged" if few else "charged too often", "; ".join("epsilon=%s at %s" % (t.show(c.eps)[:80], c.effect.where()) for c in cs) or "nothing"))
        else:
            ctx.ok("charge", name)
        for c in got:
            ds = [d for d, n, g in mine]
            dn = "%s/delta(epsilon=%s)" % (entry, t.show(e)[:80])
            if any(d is not None and c.delta is d for d in ds) or t.sub(t.mul(c.delta, eps), t.mul(c.eps, delta)) is t.ZERO:
                ctx.ok("charge", dn)
            elif not P.bad(t.sub(t.mul(c.delta, eps), t.mul(c.eps, delta))) and not t.has_op(c.delta, ("ite",)):
                ctx.fail("charge", dn, c.effect.where(), "event with epsilon=%s carries delta=%s, not the delta share of that noise" % (t.show(c.eps)[:100], t.show(c.delta)[:100]))
            else:
                ctx.skip("charge", dn, "delta not resolved")
    for c in cs:
        if not any(c.eps is e for e in todo):
            g = P.settled(c.effect, rq.known)
            if t.numval(c.eps) == 0:
                continue
            if any(t.has_op(x, ("ite",)) for x in todo + [c.eps]):
                ctx.skip("charge", "%s/extra" % entry, "conditional epsilon")
                continue
            if not problems:
                ctx.fail("charge", "%s/extra" % entry, c.effect.where(), "event with epsilon=%s matches no noise that was applied (applied: %s)" % (t.show(c.eps)[:120], ", ".join(t.show(x)[:80] for x in todo)))


def inner_loops(u, n):
    made = {l for l, _, _ in n.made.loops}
    return tuple(l for l, _, _ in u.loops if l not in made)


def drop_loops(g, n):
    """guard of a use without the conditions of the loop it is applied in"""
    lvs = {l for u in n.uses for l, _, _ in u.loops} - {l for l, _, _ in n.made.loops}
    return t.and_([c for c in t.conjuncts(g) if not any(t.occurs(l, c) for l in lvs)])

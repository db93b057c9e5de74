"""C03: user-level data reaches planners only through the noise mechanisms."""
from . import privacy as P
from .. import terms as t


def run(ctx):
    ctx.rule("release", "no value in the k+ reaches of the returned points depends on user-level data except through a noise object")
    ctx.rule("training", "the points a strategy trains on depend on user-level data only through simulated requests, and fit calls no true-reach operation unless ground-truth curves are requested")
    for entry in ("reach_request", "venn_request"):
        try:
            P.law.timed(120, lambda: release(ctx, entry))
        except P.law.Slow:
            ctx.skip("release", entry, "analysis budget exhausted")
    for entry in ("m3_fit", "m3_fit_default", "single_fit"):
        try:
            P.law.timed(120, lambda: strategy(ctx, entry))
        except P.law.Slow:
            ctx.skip("training", entry, "analysis budget exhausted")


def points(x, out):
    """the points contained in a result"""
    if x.op == "new" and x.args[0].endswith("ReachPoint"):
        out.append(x)
        return
    for y in t.children(x):
        points(y, out)


def release(ctx, entry):
    rq = P.Request(ctx.prog, entry)
    ctx.see(rq.visited)
    noises, _, _ = P.collect(rq)

    def clean(x):
        return x.op in ("callv", "mcall") and P.is_noiser(x.args[0])
    pts = []
    points(rq.result, pts)
    if not pts:
        return ctx.skip("release", entry, "returned points not resolved")
    if not noises:
        pass
    for i, p in enumerate(dict.fromkeys(pts)):
        k = dict(p.args[1]).get("kplus_reaches")
        if k is None:
            ctx.skip("release", entry, "kplus_reaches not resolved")
            continue
        hit = P.leak(k, clean)
        if hit is not None:
            ctx.fail("release", entry, where(rq, hit), "the returned k+ reaches depend on %s without noise" % t.show(hit)[:200])
        elif t.has_op(k, ("opaque", "carry")):
            ctx.skip("release", entry, "part of the value is not resolved")
        else:
            ctx.ok("release", "%s/point%d" % (entry, i))


def where(rq, hit):
    for e in rq.effects:
        if e.kind == "call" and hit.op == "rcall" and e.name == hit.args[0]:
            return e.where()
    return rq.visited[0] if rq.visited else "?"


TRUE_REACH = ("true_reach_by_spend", "reach_by_spend", "reach_by_impressions", "user_counts_by_spend", "user_counts_by_impressions", "liquid_legions_sketch", "max_reach")


def strategy(ctx, entry):
    rq = P.Request(ctx.prog, entry, extra_stop=P.REQUESTS)
    ctx.see(rq.visited)
    bad = False
    for e in rq.effects:
        n = P.tail(e.name)
        if e.kind == "call" and n in TRUE_REACH and (e.base is None or not e.base.op == "callv"):
            bad = True
            ctx.fail("training", entry, e.where(), "fit reads %s, which is not noised" % n)
        if e.kind == "new" and n == "GroundTruthReachCurveModel":
            bad = True
            ctx.fail("training", entry, e.where(), "fit uses ground-truth curves although they were not requested")
    if bad:
        return
    reqs = [e for e in rq.effects if e.kind == "call" and e.name in P.REQUESTS]
    if not reqs:
        return ctx.skip("training", entry, "no request found")
    built = 0
    for e in rq.effects:
        if e.kind == "unknown" and e.base is not None and e.base.op == "var":
            built += 1
            for a in list(e.args) + [v for _, v in e.kw]:
                hit = P.leak(a, lambda x: x.op == "rcall" and x.args[0] in P.REQUESTS)
                if hit is not None:
                    ctx.fail("training", entry, e.where(), "the model is trained on %s, which is not noised" % t.show(hit)[:200])
                    bad = True
    if not built:
        return ctx.skip("training", entry, "model construction not resolved")
    if not bad:
        ctx.ok("training", entry)

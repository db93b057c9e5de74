"""C18: a coordinate of a test point is scaled by the maximum spend of its own publisher, never of one chosen at random."""
from .. import law, terms as t
from ..program import AnalysisBroken


def run(ctx):
    ctx.rule("own-maximum", "no maximum spend used in a test point belongs to a publisher picked by a random draw")
    ctx.rule("in-range", "no coordinate is scaled by a draw from a distribution that is not confined to [0, 1]")
    sf = law.SpecFile(ctx.prog, "c18")
    for name in ("grid", "uniform", "lhs"):
        f = sf.module.functions[name + "__code"]
        try:
            ip = law.Interp(ctx.prog)
            ip, r, _ = law.evaluate(ctx.prog, f, {}, law.argvars(ip, f))
        except (AnalysisBroken, RecursionError) as e:
            ctx.skip("own-maximum", name, str(e)[:120])
            continue
        ctx.see(ip.visited)
        wild = unconfined(r)
        if wild is not None:
            ctx.fail("in-range", name, points(ctx, ip), "a coordinate is scaled by a draw that is not confined to [0, 1]: " + t.show(wild)[:160])
        else:
            ctx.ok("in-range", name)
        bad = [x for x in t.subterms(r) if x.op == "attr" and x.args[1] == "_max_spend" and x.args[0].op == "item" and t.has_op(x.args[0].args[1], ("rand",))]
        if bad:
            ctx.fail("own-maximum", name, points(ctx, ip),
                     "a coordinate is scaled by the maximum spend of a randomly chosen publisher: " + t.show(bad[0])[:200])
        else:
            ctx.ok("own-maximum", name)


def points(ctx, ip):
    fn = [q for q in sorted(ip.visited) if q.endswith(".test_points")]
    g = ctx.prog.lookup_repo(fn[0]) if fn else None
    return ctx.where(g) if g is not None else "?"


BEYOND = {"normal", "standard_normal", "lognormal", "exponential", "standard_exponential", "gamma", "standard_gamma", "laplace", "logistic", "gumbel",
          "standard_cauchy", "standard_t", "chisquare", "pareto", "weibull", "rayleigh", "wald", "multivariate_normal"}


def unbounded(x):
    if x.args[0] in BEYOND:
        return True
    if x.args[0] == "uniform":
        kw = dict(x.args[3])
        pos = list(x.args[2])
        lo, hi = kw.get("low", pos[0] if pos else t.ZERO), kw.get("high", pos[1] if len(pos) > 1 else t.ONE)
        nlo, nhi = t.numval(lo), t.numval(hi)
        return nlo is not None and nlo < 0 or nhi is not None and nhi > 1
    return False


def unconfined(r):
    """a draw from an unbounded distribution that nothing clips or transforms"""
    st, seen = [r], set()
    while st:
        x = st.pop()
        if not isinstance(x, t.T) or x in seen:
            continue
        seen.add(x)
        if x.op == "rand":
            if unbounded(x):
                return x
            continue
        if x.op in ("min", "max", "call", "mcall", "rcall", "abs", "mod", "floordiv", "ite"):
            continue
        if x.op == "gen":
            st.append(x.args[3])
        else:
            st.extend(t.children(x))
    return None

"""C23 (trial part): true and fitted reach are taken at the same points, spends and frequency, and handed over in that order."""
import ast
from .. import diff, terms as t
from ..terms import TRUE, mk
from .trial import Trial, kwarg
from .c13 import cell_of, columns, conditions, frames


def run(ctx):
    ctx.rule("same points", "the two lists given to the aggregation are true_reach_by_spend(p, F) and fitted by_spend(p, F) for each p of one list of test points, F the experiment's maximum frequency, truth first")
    ctx.rule("fractions", "single-publisher relative errors compare both at the same spend and frequency, divided by the truth")
    tr = Trial(ctx.prog)
    ctx.see(tr.visited())
    ags = [e for e in tr.calls("aggregate") if e.kind == "call"]
    fits = tr.calls("fit")
    pts = tr.calls("generate_test_points")
    if len(ags) != 1 or len(fits) != 1 or len(pts) != 1:
        ctx.skip("same points", "aggregate", "not one fit, one generation of test points and one aggregation")
        return
    a = ags[0]
    x, y = kwarg(a, "true_reach", 0), kwarg(a, "simulated_reach", 1)
    P = pts[0].value
    halo = fits[0].args[0] if fits[0].args else dict(fits[0].kw).get("halo")
    F = mk("attr", mk("attr", tr.td, "experiment_params"), "max_frequency")
    l = t.fresh_lv()
    p = t.item(P, l)
    tq = "simulator.halo_simulator.HaloSimulator.true_reach_by_spend"
    ex = t.mk_gen(l, t.length(P), TRUE, mk("rcall", tq, (("self", halo), ("spends", p), ("max_frequency", F))))
    one = [e for e in tr.calls("true_reach_by_spend")]
    if one and one[0].value is not None and one[0].value.op == "rcall":
        names = [k for k, _ in one[0].value.args[1]]
        if len(names) == 3:
            ex = t.mk_gen(l, t.length(P), TRUE, mk("rcall", tq, tuple(zip(names, (halo, p, F)))))
    fy = t.mk_gen(l, t.length(P), TRUE, mk("mcall", fits[0].value, "by_spend", (p, F), ()))
    for lab, got, want in (("true", x, ex), ("fitted", y, fy)):
        got = fill(got, F)
        st, ms = diff.verdict(got, want)
        if st == "equal":
            ctx.ok("same points", lab)
        elif st == "differs":
            ctx.fail("same points", lab, a.where(), "%s reach given to the metrics: %s" % (lab, " | ".join("%s instead of %s" % (t.show(m.a)[:200], t.show(m.b)[:200]) for m in ms[:2])))
        else:
            ctx.skip("same points", lab, "; ".join(repr(m)[:200] for m in ms[:2]))
    twice(ctx)
    single(ctx, tr, halo, fits[0])


def fill(x, F):
    """by_spend(p) / by_spend(spends=p, max_frequency=F) written positionally"""
    def f(y):
        if y.op == "mcall" and y.args[1] == "by_spend":
            pos, kw = list(y.args[2]), dict(y.args[3])
            if not pos and "spends" in kw:
                pos.append(kw.pop("spends"))
            if len(pos) == 1 and "max_frequency" in kw:
                pos.append(kw.pop("max_frequency"))
            elif len(pos) == 1 and not kw:
                pos.append(t.ONE)
            if (tuple(pos), tuple(sorted(kw.items()))) != (y.args[2], y.args[3]):
                return mk("mcall", y.args[0], "by_spend", tuple(pos), tuple(sorted(kw.items())))
        return None
    return t.rewrite(x, f)


def twice(ctx):
    f = ctx.prog.lookup_repo("driver.experimental_trial.ExperimentalTrial.evaluate")
    if f is None:
        return
    for st in ast.walk(f.node):
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == "generate_test_points" and isinstance(st.targets[0], ast.Name):
            nm = st.targets[0].id
            uses = [n for n in ast.walk(f.node) if isinstance(n, ast.comprehension) and isinstance(n.iter, ast.Name) and n.iter.id == nm]
            uses += [n for n in ast.walk(f.node) if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id == nm]
            if len(uses) > 1:
                ctx.fail("same points", "consumed twice", ctx.where(f, st), "the test points are a one-shot generator that is iterated %d times: the second list is empty" % len(uses))


def single(ctx, tr, halo, fit):
    """columns of the single-publisher analysis, taken from the frames of a successful row"""
    v = tr.value
    look = [e for n, e in tr.fs_calls() if n in ("is_file", "exists")]
    if look:
        v = t.assume(v, t.truth(look[0].value), False)
    eids = [eid for eid, w, _ in fit.tries if w == "body"]
    if eids:
        v = t.assume(v, mk("exc", eids[-1]), False)
    an = tr.args["analysis"]
    for c in conditions(v):
        if t.occurs(an, c):
            v = t.assume(v, c, not (c.op == "not"))
            break
    fr = frames(v)
    cells = []
    for q in (fr[1] if fr else []):
        cells += columns(q) or []
    tq = "simulator.halo_simulator.HaloSimulator.true_reach_by_spend"
    rq = "models.reach_point.ReachPoint.reach"
    done = 0
    for k, c in cells:
        if "relative_error" not in t.show(k):
            continue
        names = t.show(k)[:60]
        cell = cell_of(c)
        if cell is None:
            ctx.skip("fractions", names, "cell not resolved: " + t.show(c)[:160])
            continue
        tr_calls = find(cell, lambda y: y.op == "rcall" and y.args[0] == tq)
        fi_calls = find(cell, lambda y: y.op == "mcall" and y.args[1] == "by_spend" and y.args[0] is fit.value)
        rt = find(cell, lambda y: y.op == "rcall" and y.args[0] == rq)
        rf = find(cell, lambda y: y.op == "mcall" and y.args[1] == "reach")
        if len(tr_calls) != 1 or len(fi_calls) != 1 or len(rt) != 1 or len(rf) != 1:
            ctx.skip("fractions", names, "cell not resolved: " + t.show(cell)[:160])
            continue
        a, b = tr_calls[0], fi_calls[0]
        sp = dict(a.args[1]).get("spends")
        bs = (list(fill(b, None).args[2]) + [None, None])[0]
        kt = dict(rt[0].args[1]).get("k", t.ONE)
        kf = rf[0].args[2][0] if rf[0].args[2] else dict(rf[0].args[3]).get("k", t.ONE)
        A, B = rt[0], rf[0]
        where = fit.where()
        bad = None
        if sp is not bs:
            bad = "true reach is taken at %s, fitted reach at %s" % (t.show(sp)[:120], t.show(bs)[:120])
        elif kt is not kf:
            bad = "true %s+ reach is compared with fitted %s+ reach" % (t.show(kt), t.show(kf))
        else:
            nm = k
            while nm.op in ("gen", "flat"):
                nm = nm.args[3] if nm.op == "gen" else nm.args[0]
            parts = [x for x in t.children(nm)] if nm.op == "strcat" else []
            parts = [x.args[0] for x in parts if x.op == "fmt"]
            if len(parts) == 2 and kt is not parts[0] and kt.op in ("num", "poly", "lv", "bv"):
                bad = "the column for frequency %s compares %s+ reaches" % (t.show(parts[0]), t.show(kt))
            elif len(parts) == 1 and kt is not t.ONE and kt.op in ("num", "poly", "lv", "bv"):
                bad = "the reach column compares %s+ reaches" % t.show(kt)
            elif parts and sp.op == "seq" and len(sp.args) == 1:
                cs = [x for x in find(sp, lambda y: y.op in ("item",)) if "campaign_spends" in t.show(x)]
                if len(cs) == 1:
                    wants = t.mul(cs[0], t.div(parts[-1], t.const(100)))
                    if sp.args[0] is wants:
                        ctx.ok("fractions", "spend of " + names)
                    elif diff.verdict(sp.args[0], wants)[0] == "undecided":
                        ctx.skip("fractions", "spend of " + names, t.show(sp)[:120])
                    else:
                        bad = "the column for %s%% of the campaign spend queries %s" % (t.show(parts[-1]), t.show(sp.args[0])[:120])
        if bad:
            ctx.fail("fractions", names, where, bad)
            continue
        rel = t.absv(t.div(t.sub(A, B), A))
        core = t.assume(cell, t.truth(A), True)
        alt = t.div(t.absv(t.sub(A, B)), A)     # the same for a reach, which is never negative
        st, ms = ("equal", []) if core is alt else diff.verdict(core, rel)
        if st == "equal":
            ctx.ok("fractions", names)
            done += 1
        elif st == "differs":
            ctx.fail("fractions", names, where, "relative error is " + " | ".join("%s instead of %s" % (t.show(m.a)[:150], t.show(m.b)[:150]) for m in ms[:2]))
        else:
            ctx.skip("fractions", names, "; ".join(repr(m)[:200] for m in ms[:2]))
    if not done and not ctx.violations:
        ctx.skip("fractions", "columns", "no relative error column resolved")


def find(x, pred):
    out, seen, st = [], set(), [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if pred(y):
            out.append(y)
        st.extend(t.children(y))
    return out

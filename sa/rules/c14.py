"""C14: a modelling failure is contained in its own trial and reported there."""
import ast
from .. import terms as t
from ..terms import TRUE, FALSE, mk
from .trial import Trial, region, in_handler
from .c13 import frames, conditions, columns

MODELLING = ("fit", "generate_test_points", "true_reach_by_spend", "by_spend", "aggregate", "reach")
OUTSIDE = ("by_name",)


def run(ctx):
    ctx.rule("contained", "every modelling step of a trial runs in the body of a try statement that catches every Exception and whose handler does not raise")
    ctx.rule("not disguised", "loading the data set and storing the result run outside that try statement")
    ctx.rule("reported", "on the failing path the trial still returns (and stores) the identity, privacy and failure frames, the privacy being read after the fit from the tracker the simulator charges")
    tr = Trial(ctx.prog)
    ctx.see(tr.visited())
    steps = [(n, e) for n in MODELLING for e in tr.calls(n) if e.kind != "inline" and not in_handler(e)]
    if not any(n == "fit" for n, e in steps):
        ctx.skip("contained", "fit", "no recognisable fit")
        return
    ids = set()
    for n, e in steps:
        r = region(e)
        if r:
            ids.update(r)
            ctx.ok("contained", "%s %s" % (n, e.where()))
        else:
            narrow = [ts for _, w, types in e.tries if w == "body" for ts in types]
            ctx.fail("contained", n, e.where(), "%s runs %s" % (n, "where only %s is caught" % ", ".join(sorted({x for y in narrow for x in y})) if narrow else "outside any try statement: its failure is not contained in the trial"))
    for e in tr.effects:
        if e.kind == "raise" and any(i in ids and w in ("handler", "finally") for i, w, _ in e.tries):
            ctx.fail("contained", "handler", e.where(), "the handler raises %s: the failure leaves the trial" % e.name)
            break
    else:
        ctx.ok("contained", "handler")
    # a failure caught on the way, inside the try statement that reports it
    for n, e in steps:
        bodies = [(i, types) for i, w, types in e.tries if w == "body" and types]
        if n == "reach" or len(bodies) < 2 or not region(e):
            continue
        i = bodies[-1][0]
        inside = [x for x in tr.effects if any(j == i and w == "handler" for j, w, _ in x.tries)]
        if not any(x.kind == "raise" for x in inside) and not any(str(x.name).split(".")[-1] == "aggregate_on_exception" for x in inside):
            ctx.fail("reported", n + " swallowed", e.where(), "a failure of %s is caught (%s) before it reaches the handler that reports it" % (n, ", ".join(sorted({x for y in bodies[-1][1] for x in y}))))
    # steps that can fail inside the handler itself
    for n, e in [(n, e) for n in MODELLING for e in tr.calls(n) if in_handler(e) and not region(e)]:
        ctx.fail("contained", n + " in handler", e.where(), "%s runs in the handler of the failure" % n)
    for e in tr.effects:
        if any(i in ids and w == "handler" for i, w, _ in e.tries) and e.kind in ("call", "unknown", "mutate", "new"):
            mb = [y for x in list(e.args) + [z for _, z in e.kw] for y in find(x, "maybe") if y.args[0] in ids]
            if mb:
                ctx.fail("contained", "handler uses " + str(mb[0].args[1]), e.where(), "the handler uses %s, which is unbound when the failure comes before its assignment" % mb[0].args[1])
                break
    lazy(ctx)
    for n in OUTSIDE:
        for e in tr.calls(n):
            if any(i in ids for i in region(e)):
                ctx.fail("not disguised", n, e.where(), "a failure to load the data set is reported as a modelling failure")
            else:
                ctx.ok("not disguised", n)
    for n, e in tr.fs_calls():
        if n in ("write_text", "mkdir"):
            if any(i in ids for i in region(e)):
                ctx.fail("not disguised", n, e.where(), "a failure to store is reported as a modelling failure")
            elif [1 for i in region(e)]:
                ctx.fail("not disguised", n, e.where(), "a failure to store is swallowed")
            else:
                ctx.ok("not disguised", n)
    # ---- the failing path still reports
    look = [e for n, e in tr.fs_calls() if n in ("is_file", "exists")]
    v = tr.value
    if look:
        v = t.assume(v, t.truth(look[0].value), False)
    fit = [e for n, e in steps if n == "fit"][0]
    r = region(fit)
    if not r:
        return
    v = t.assume(v, mk("exc", r[-1]), True)
    mb = [y for y in find(v, "maybe") if y.args[0] in ids]
    if mb:
        ctx.fail("reported", "row", fit.where(), "the row of a failed trial uses %s, which is unbound when the failure comes before its assignment" % mb[0].args[1])
        return
    if t.has_op(v, ("opaque", "undef")) or frames(strip(v)) is None:
        ctx.skip("reported", "row", "row of a failed trial not resolved: " + t.show(v)[:160])
        return
    td, name = tr.args["td"], tr.args["name"]
    need = {"trial name": t.fmt(td) if hasattr(t, "fmt") else mk("fmt", td, ""), "data set": name}
    cells = {}
    for f in frames(strip(v))[1]:
        for k, c in columns(f) or []:
            cells[k] = c
    for lab, x in need.items():
        if any(t.occurs(x, c) for c in cells.values()):
            ctx.ok("reported", lab)
        else:
            ctx.fail("reported", lab, fit.where(), "the row of a failed trial does not identify the %s" % lab)
    trackers = [e.value for e in tr.effects if e.kind == "new" and str(e.name).endswith(".PrivacyTracker")]
    props = [e for e in tr.effects if e.kind == "prop" and e.name.endswith(".privacy_consumption")]
    if not props:
        ctx.skip("reported", "privacy", "privacy consumption is not read through the tracker")
    else:
        early = [e for e in props if e.seq < fit.seq]
        late = [e for e in props if e.seq > fit.seq and not region(e)]
        if late:
            ctx.ok("reported", "privacy")
        elif early:
            ctx.fail("reported", "privacy", fit.where(), "the privacy consumption is read before the model is fitted")
        else:
            ctx.fail("reported", "privacy", fit.where(), "the privacy consumption is read only when modelling succeeds")
        halo = fit.args[0] if fit.args else dict(fit.kw).get("halo")
        for e in late[:1]:
            if halo is not None and halo.op == "new":
                if e.base in [x for _, x in halo.args[1]]:
                    ctx.ok("reported", "tracker")
                else:
                    ctx.fail("reported", "tracker", fit.where(), "the tracker reported is not the one the simulator charges")


def find(x, op):
    out, seen, st = [], set(), [x]
    while st:
        y = st.pop()
        if y in seen or not isinstance(y, t.T):
            continue
        seen.add(y)
        if y.op == op:
            out.append(y)
        st.extend(t.children(y))
    return out


def strip(v):
    n = 0
    while v.op == "ite" and n < 6:
        v = v.args[1]
        n += 1
    return v


def lazy(ctx):
    """a lazily generated point list must be consumed inside the try statement"""
    f = ctx.prog.lookup_repo("driver.experimental_trial.ExperimentalTrial.evaluate")
    if f is None:
        return
    tries = [n for n in ast.walk(f.node) if isinstance(n, ast.Try)]
    for st in ast.walk(f.node):
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == "generate_test_points" and isinstance(st.targets[0], ast.Name):
            nm = st.targets[0].id
            uses = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load)]
            own = [x for x in tries if any(y is st for b in x.body for y in ast.walk(b))]
            for u in uses:
                if own and not any(y is u for b in own[-1].body for y in ast.walk(b)):
                    ctx.fail("contained", "lazy test points", ctx.where(f, u), "test points are generated lazily and consumed outside the try statement")
                    return

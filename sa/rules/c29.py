"""C29: the distribution a model shows is the one whose parameters its fit optimised (same parameters in the same roles)."""
import ast

from .. import law, terms as t
from ..flow import Interp
from ..program import AnalysisBroken

DIST = ("pmf", "logpmf", "cdf", "logcdf", "sf", "logsf", "mean")


def parameters(x):
    """parameters of every distribution evaluated in x, by function (the points of evaluation left out)"""
    out = {}
    for y in t.subterms(x):
        if y.op == "call":
            name, args, kw = y.args[0], y.args[1], y.args[2]
            first = 1
        elif y.op == "mcall":
            name, args, kw = "." + y.args[1], y.args[2], y.args[3]
            first = 1
        else:
            continue
        m = name.rsplit(".", 1)[-1]
        if m not in DIST:
            continue
        ps = list(args[0 if m == "mean" else first:]) + [v for _, v in kw]
        out.setdefault(name, set()).add(tuple(p for p in ps if not points(p)))
    return out


def points(p):
    """a grid of points of evaluation rather than a parameter"""
    while p.op in ("mcall", "arr", "deepcopy", "copy"):
        p = p.args[0]
    return p.op in ("gen", "seq", "concat", "slice")


def optimum(ip):
    """(objective, its result) of every numerical minimisation"""
    out = []
    for e in ip.effects:
        if e.kind == "call" and e.name.rsplit(".", 1)[-1] in ("minimize", "basinhopping", "differential_evolution") and e.args and e.args[0].op == "lam" and e.args[0].args[1] == 1:
            out.append((e.args[0], t.mk("attr", e.value, "x")))
    return out


def kept(y, x):
    """the result of the one optimisation tried, where it succeeded"""
    if y.op == "last" and y.args[0].op == "gen":
        return y.args[0].args[3]
    if y.op == "ite":
        a, b = (x in t.subterms(z) for z in y.args[1:])
        if a != b:
            return y.args[1] if a else y.args[2]
    return None


def keep_best(ctx):
    """a running best, started from a sentinel, takes the value of the candidate that beat it"""
    for q, f in sorted(((g.qual, g) for g in ctx.prog.all_functions), key=lambda z: z[0]):
        if not q.startswith("models."):
            continue
        body = f.node
        for loop in ast.walk(body):
            if not isinstance(loop, (ast.For, ast.While)):
                continue
            inner = {id(x) for l in ast.walk(loop) if l is not loop and isinstance(l, (ast.For, ast.While)) for x in ast.walk(l)}
            once = {}
            for x in ast.walk(loop):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    once.setdefault(x.targets[0].id, []).append(x.value)
            for g in ast.walk(loop):
                if not isinstance(g, ast.If) or id(g) in inner:
                    continue
                for c in ast.walk(g.test):
                    if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE))):
                        continue
                    a, b = (c.left, c.comparators[0]) if isinstance(c.ops[0], (ast.Lt, ast.LtE)) else (c.comparators[0], c.left)
                    if not isinstance(b, ast.Name) or not sentinel(body, loop, b.id):
                        continue
                    took = {n.id for x in g.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                    later = any(isinstance(n, ast.Name) and n.id in took and isinstance(n.ctx, ast.Load) and n.lineno > loop.end_lineno for n in ast.walk(body))
                    if not later:
                        continue
                    where = "%s:%s" % (q, b.id)
                    ups = once.get(b.id, [])
                    if any(isinstance(n, ast.Name) and n.id == b.id and isinstance(n.ctx, ast.Store) for n in ast.walk(loop)) and not ups:
                        ctx.skip("keep-best", where, "updated other than by assignment")
                    elif not ups:
                        ctx.fail("keep-best", where, ctx.where(f, g), "candidates are compared with %s, which keeps its initial value: the last candidate is kept, not the best" % b.id)
                    elif all(same(u, a, once) for u in ups):
                        ctx.ok("keep-best", where)
                    else:
                        ctx.skip("keep-best", where, "updated with another expression")


def sentinel(body, loop, name):
    """name starts from a constant no candidate reaches"""
    defs = [x for x in ast.walk(body) if isinstance(x, ast.Assign) and any(isinstance(n, ast.Name) and n.id == name for y in x.targets for n in ast.walk(y)) and x.lineno < loop.lineno]
    if len(defs) != 1:
        return False
    v = ast.unparse(defs[0].value)
    try:
        return float(ast.literal_eval(v)) >= 1e9
    except Exception:
        return v in ("np.inf", "math.inf", "float('inf')", "sys.maxsize", "numpy.inf")


def same(u, a, once):
    def res(x):
        while isinstance(x, ast.Name) and len(once.get(x.id, [])) == 1:
            x = once[x.id][0]
        return ast.unparse(x)
    return res(u) == res(a)


def run(ctx):
    ctx.rule("keep-best", "the best of several optimisations is the one whose score beat the earlier ones")
    keep_best(ctx)
    ctx.rule("roles", "the distribution parameters used to answer a query are the optimised quantities in the positions they have in the objective")
    sf = law.SpecFile(ctx.prog, "c29")
    for name in ("gamma_fixed", "gamma_free", "kinflated_fixed"):
        f = sf.module.functions[name]
        try:
            ip = Interp(ctx.prog)
            opts = {"stop": ["models.gamma_poisson_model.GammaPoissonModel._fit_histogram_fixed_N"]} if name == "gamma_free" else {}
            ip, r, _ = law.timed(90, lambda: law.evaluate(ctx.prog, f, opts, law.argvars(ip, f)))
        except Exception as e:
            ctx.skip("roles", name, "%s: %s" % (type(e).__name__, str(e)[:120]))
            continue
        ctx.see(ip.visited)
        opts = optimum(ip)
        if len(opts) != 1:
            ctx.skip("roles", name, "%d minimisations" % len(opts))
            continue
        obj, X = opts[0]
        x = t.mk("var", "$x")
        at = t.apply_lam(obj, [x])
        # (a copy of the call under a binder has its bound variables renamed, hence the match by function)
        r = t.rewrite(r, lambda y: x if y.op == "attr" and y.args[1] == "x" and y.args[0].op == "call" and y.args[0].args[0] == X.args[0].args[0] else None)
        if name == "gamma_fixed":
            # a query at the training impressions, which lie within the fitted maximum
            i = next((y for y in t.subterms(r) if y.op == "var" and y.args[0] == "i"), None)
            tr = next((y for y in t.subterms(at) if y.op == "item" and y.args[0].op == "attr" and y.args[0].args[1] == "_impressions"), None)
            if i is not None and tr is not None:
                r = t.replace(r, {i: tr})
                r = t.replace(r, {y: tr for y in t.subterms(r) if y.op == "min" and tr in y.args[0]})
        if name == "gamma_free":
            r = t.rewrite(r, lambda y: kept(y, x))
        q, o = parameters(r), parameters(at)
        if not q or not o:
            ctx.skip("roles", name, "no distribution found")
            continue
        bad = []
        for fn in sorted(set(q) & set(o)):
            for p in q[fn] - o[fn]:
                bad.append((fn, p))
        if not bad:
            for fn in sorted(set(q) & set(o)):
                ctx.ok("roles", "%s/%s" % (name, fn))
            continue
        fn, p = bad[0]
        if any(t.has_op(z, ("opaque", "whilev", "fold", "carry", "unknown")) for z in p if isinstance(z, t.T)):
            ctx.skip("roles", name, "not modelled")
            continue
        g = [v for v in sorted(ip.visited) if v.endswith("._fit") or "fit" in v.rsplit(".", 1)[-1]]
        g = ctx.prog.lookup_repo(g[0]) if g else None
        ctx.fail("roles", name, ctx.where(g) if g is not None else "?", "%s is evaluated with (%s), the objective with %s" % (
            fn, ", ".join(t.show(z)[:80] for z in p if isinstance(z, t.T)),
            " / ".join("(" + ", ".join(t.show(z)[:80] for z in y if isinstance(z, t.T)) + ")" for y in list(o[fn])[:2])))

"""C24: the shipped designs only use what the framework accepts.

The configuration generators of the design modules are evaluated to terms; every choice among literal alternatives is
enumerated, giving the finite set of descriptors a design can produce.  Each is then handed to the framework code that
consumes it (strategy instantiation and fit, test point generation, data set generation), evaluated abstractly: a name that
is not registered or a call that does not bind is a violation."""
from .. import law, terms as t
from ..flow import Interp
from ..terms import TRUE, mk

CAP = 300


def records(ctx, prog, f):
    """the records a configuration generator produces"""
    t.reset_vars()
    a = law.argvars(Interp(prog), f)
    ip, v, _ = law.evaluate(prog, f, {"stop": []}, a)
    for e in ip.effects:
        if e.kind == "badcall":
            ctx.fail("accepted", "%s %s" % (f.qual, e.name), e.where(), e.name)
    out, st = [], [v]
    while st:
        x = st.pop()
        if x.op == "gen":
            l = t.fresh_lv()
            _, e = t.open_gen(x, l)
            st.append(e)
        elif x.op == "flat":
            st.append(x.args[0])
        elif x.op == "seq":
            st.extend(x.args)
        elif x.op == "concat":
            st.extend(x.args[0])
        elif x.op == "ite":
            st.extend(x.args[1:])
        elif x.op in ("copy", "deepcopy", "arr"):
            st.append(x.args[0])
        elif x not in out:
            out.append(x)
    return out


def field(r, k):
    if r.op == "new":
        return dict(r.args[1]).get(k)
    return None


PICKS = {}
ABSENT = []
MISSING = object()


def simplify(x):
    def f(y):
        if y.op == "item" and y.args[0].op == "dput" and y.args[1].op in ("const", "num"):
            z = lookup(y.args[0], y.args[1])
            if z is MISSING:
                ABSENT.append(t.show(y.args[1]))
                return y
            return simplify(z) if z is not None else y
        if y.op == "attr" and y.args[0].op == "new" and y.args[1] in dict(y.args[0].args[1]):
            return dict(y.args[0].args[1])[y.args[1]]
        if y.op == "mcall" and y.args[1] == "_replace" and y.args[0].op == "new" and not y.args[2] and all(k in dict(y.args[0].args[1]) for k, _ in y.args[3]):
            u = dict(y.args[3])
            return mk("new", y.args[0].args[0], tuple((k, u.get(k, v)) for k, v in y.args[0].args[1]))
        if y.op == "item" and t.numval(y.args[1]) is not None and y.args[0].op == "item" and y.args[0].args[0].op == "call" and y.args[0].args[0].args[0] == "itertools.product":
            args = y.args[0].args[0].args[1]
            k = int(t.numval(y.args[1]))
            if k < len(args):
                p = PICKS.setdefault((y.args[0], k), t.var("pick%d" % len(PICKS)))
                return t.item(args[k], p)
        return y
    return t.rewrite(x, f)


def lookup(d, key):
    """d[key] for a dict built from literal keys"""
    base, g = d.args
    parts = list(g.args[0]) if g.op == "concat" else [g]
    for p in reversed(parts):
        if p.op == "seq":
            for e in reversed(p.args):
                if e.op == "seq" and e.args[0] is key:
                    return e.args[1]
                if e.op != "seq" or e.args[0].op not in ("const", "num"):
                    return None
        elif p.op == "gen" and p.args[2] is TRUE:
            l = t.fresh_lv()
            _, e = t.open_gen(p, l)
            if e.op != "seq" or len(e.args) != 2 or e.args[0].op != "item" or e.args[0].args[0].op != "seq" or e.args[0].args[1] is not l:
                return None
            ks = e.args[0].args[0].args
            if any(k.op not in ("const", "num") for k in ks):
                return None
            if key in ks:
                return t.replace(e.args[1], {l: t.const(ks.index(key))})
        else:
            return None
    if base.op == "dict":
        if all(k.op in ("const", "num") for k, _ in base.args[0]):
            return dict(base.args[0]).get(key, MISSING)
        return t.item(base, key)
    return lookup(base, key) if base.op == "dput" else None


def choice(x):
    """an innermost choice among literal alternatives"""
    best = None
    for y in t.subterms(x):
        if y.op == "item" and y.args[0].op == "seq" and y.args[0].args and t.numval(y.args[1]) is None:
            if best is None or t.occurs(y, best):
                best = y
    return best


def concrete(x):
    """the finite set of values of x, or None"""
    out, st = [], [simplify(x)]
    n = 0
    while st:
        y = st.pop()
        n += 1
        if n > 40 * CAP or len(out) > CAP:
            return None
        c = choice(y)
        if c is None:
            if y not in out:
                out.append(y)
            continue
        for e in c.args[0].args:
            st.append(simplify(t.replace(y, {c: e})))
    return out


HEAVY = ("simulated_reach_by_spend", "simulated_reach_curve", "true_reach_by_spend", "simulated_venn_diagram_reach_by_spend")


def run(ctx):
    prog = ctx.prog
    ctx.rule("registered", "every strategy, model and test point name a shipped design can produce is a key of the registry it is looked up in")
    ctx.rule("accepted", "with every descriptor a shipped design can produce, each call the framework makes with its options binds to the signature of the implementation")
    ctx.rule("complete", "every registered implementation can be constructed with the positional arguments the framework gives it and offers the operations the framework calls on it")
    sf = law.SpecFile(prog, "c24")
    regs = registries(prog, sf)
    for m in prog.repo_modules():
        f = m.functions.get("generate_experimental_design_config")
        if f is not None:
            ctx.see([f.qual])
            experimental(ctx, prog, sf, m, f, regs)
            absent(ctx, m, f)
        f = m.functions.get("generate_data_design_config")
        if f is not None:
            ctx.see([f.qual])
            data(ctx, prog, sf, m, f)
            absent(ctx, m, f)
    complete(ctx, prog, sf, regs)


def absent(ctx, m, f):
    for k in sorted(set(ABSENT)):
        ctx.fail("registered", "%s level %s" % (m.name, k), line(m, f), "the design looks up %s among its levels, which have no such key" % k)
    ABSENT.clear()


def registries(prog, sf):
    t.reset_vars()
    _, v, _ = law.evaluate(prog, sf.module.functions["registries"], {"stop": []}, {})
    out = []
    for d in v.args:
        out.append({t.strval(k): x for k, x in d.args[0]} if d.op == "dict" else None)
    return dict(zip(("strategy", "single_pub_model", "multi_pub_model", "test_point_strategy"), out))


def consume(ctx, prog, sf, name, given, where, subject, stop):
    """evaluate the consumer with a concrete descriptor; calls that do not bind are violations"""
    f = sf.module.functions[name]
    t.reset_vars()
    a = law.argvars(Interp(prog), f)
    a[list(a)[0]] = given
    try:
        ip, v, _ = law.evaluate(prog, f, {"stop": [], "stop_pred": stop}, a)
    except law.Slow:
        ctx.skip("accepted", subject, "evaluation too long")
        return None
    ctx.see(e.name for e in ip.effects if e.kind == "inline")
    bad = [e for e in ip.effects if e.kind == "badcall"]
    for e in bad:
        ctx.fail("accepted", subject, where, "%s (%s)" % (e.name, e.where()))
    if not bad:
        ctx.ok("accepted", subject)
    return ip


def line(m, f):
    return "%s:%d %s" % (m.relpath, f.node.lineno, f.qual)


def closed(x):
    return x is not None and not t.has_op(x, ("var", "lv", "opaque", "unknown"))


def experimental(ctx, prog, sf, m, f, regs):
    rs = records(ctx, prog, f)
    w = line(m, f)
    for r in rs:
        if r.op != "new" or not r.args[0].endswith("TrialDescriptor"):
            ctx.skip("registered", m.name, "not recognised as a trial descriptor: %s" % t.show(r)[:120])
            continue
        ms = concrete(field(r, "modeling_strategy"))
        ep = field(r, "experiment_params")
        ps = None
        if ep is not None:
            ep = simplify(ep)
            if ep.op == "new":
                ps = concrete(t.seq([dict(ep.args[1])["test_point_strategy"], dict(ep.args[1])["test_point_strategy_kwargs"]]))
        for x in ms or ():
            if x.op != "new" or not closed(x):
                ctx.skip("registered", m.name + " strategy", "not a literal: %s" % t.show(x)[:120])
                continue
            d = dict(x.args[1])
            ok = True
            for k in ("strategy", "single_pub_model", "multi_pub_model"):
                ok &= known(ctx, m, w, k, d.get(k), regs)
            if ok:
                consume(ctx, prog, sf, "strategy", x, w, "%s %s" % (m.name, label(d)), stop_models)
        if ms is None:
            ctx.skip("registered", m.name + " strategies", "too many")
        for x in ps or ():
            n, kw = x.args
            if known(ctx, m, w, "test_point_strategy", n, regs) and closed(kw):
                e = mk("new", ep.args[0], tuple((k, {"test_point_strategy": n, "test_point_strategy_kwargs": kw}.get(k, v)) for k, v in ep.args[1]))
                consume(ctx, prog, sf, "points", e, w, "%s %s%s" % (m.name, t.strval(n), t.show(kw)[:60]), stop_points)
        if ps is None:
            ctx.skip("registered", m.name + " points", "too many or not literal")


def label(d):
    return ",".join(t.strval(d[k]) + (t.show(d[k + "_kwargs"])[4:60] if d.get(k + "_kwargs") is not None and t.show(d[k + "_kwargs"]) != "dict(())" else "") for k in ("strategy", "single_pub_model", "multi_pub_model"))


def known(ctx, m, w, k, x, regs):
    s = t.strval(x) if x is not None else None
    if s is None or regs.get(k) is None:
        ctx.skip("registered", "%s %s" % (m.name, k), "not a literal")
        return False
    if s not in regs[k]:
        ctx.fail("registered", "%s %s %s" % (m.name, k, s), w, "%r is not a registered %s (%s)" % (s, k, ", ".join(sorted(regs[k]))))
        return False
    ctx.ok("registered", "%s %s %s" % (m.name, k, s))
    return True


def stop_models(q):
    return q.split(".")[-1] in HEAVY or q.startswith("models.")


def stop_points(q):
    return not q.startswith("driver.experiment_parameters.")


def stop_data(q):
    return q.startswith("data_generators.") and not q.startswith("data_generators.synthetic_data_design_generator.")


def data(ctx, prog, sf, m, f):
    rs = records(ctx, prog, f)
    w = line(m, f)
    G = ("pricing_generator_params", "impression_generator_params", "overlap_generator_params")
    for r in rs:
        if r.op != "new" or not r.args[0].endswith("DataSetParameters"):
            ctx.skip("accepted", m.name, "not recognised as data set parameters: %s" % t.show(r)[:120])
            continue
        vals = {k: concrete(field(r, k)) for k in G}
        if any(v is None or any(x.op != "new" for x in v) for v in vals.values()):
            ctx.skip("accepted", m.name, "generators are not literal")
            continue
        n = max(len(v) for v in vals.values())
        seen = set()
        for i in range(n):
            pick = {k: vals[k][i % len(vals[k])] for k in G}
            key = tuple(shape(pick[k]) for k in G)
            if key in seen:
                continue
            seen.add(key)
            d = {"num_publishers": t.const(2), "largest_publisher_size": t.const(100), "largest_to_smallest_publisher_ratio": t.const(0.5), "name": t.const("x"), "id": t.const("")}
            e = mk("new", r.args[0], tuple((k, pick.get(k, d.get(k, v))) for k, v in r.args[1]))
            consume(ctx, prog, sf, "data_set", e, w, "%s %s" % (m.name, " / ".join(key)), stop_data)


def shape(g):
    """generator and option names: what decides whether the call binds"""
    d = dict(g.args[1])
    p = d.get("params")
    return "%s(%s)" % (t.show(d.get("generator")).split(".")[-1], ",".join(t.strval(k) or "?" for k, _ in p.args[0]) if p is not None and p.op == "dict" else "?")


def complete(ctx, prog, sf, regs):
    """each registered implementation, with no options"""
    W = "src/driver/modeling_strategy_descriptor.py"
    for s, single, multi in cover(regs):
        x = mk("new", "driver.modeling_strategy_descriptor.ModelingStrategyDescriptor", (("strategy", t.const(s)), ("strategy_kwargs", mk("dict", ())), ("single_pub_model", t.const(single)), ("single_pub_model_kwargs", mk("dict", ())),
               ("multi_pub_model", t.const(multi)), ("multi_pub_model_kwargs", mk("dict", ()))))
        consume(ctx, prog, sf, "strategy", x, W, "registered %s,%s,%s" % (s, single, multi), stop_models)
    for k, ops in (("single_pub_model", (("by_impressions", 2), ("by_spend", 2))), ("multi_pub_model", (("by_impressions", 2), ("by_spend", 2))), ("strategy", (("fit", 3),)), ("test_point_strategy", (("test_points", 0),))):
        for n, x in sorted((regs.get(k) or {}).items()):
            c = prog.cls(x.args[0]) if x.op == "clsref" else None
            if c is None:
                continue
            for op, na in ops:
                g = c.find(op)
                if g is None or abstract(g):
                    ctx.fail("complete", "%s.%s" % (n, op), "%s:%d %s" % (c.module.relpath, c.node.lineno, c.qual), "%s, registered as %s, does not provide %s" % (c.name, n, op))
                else:
                    ctx.ok("complete", "%s.%s" % (n, op))


def abstract(f):
    b = [s for s in f.node.body if not (hasattr(s, "value") and type(s.value).__name__ == "Constant")]
    return len(b) == 1 and type(b[0]).__name__ == "Raise" and "NotImplemented" in __import__("ast").unparse(b[0])


def cover(regs):
    ss, sp, mp = [sorted(regs.get(k) or ()) for k in ("strategy", "single_pub_model", "multi_pub_model")]
    if not (ss and sp and mp):
        return
    full = [m for m in mp if m != "none"] or mp
    for s in ss:
        for i in range(max(len(sp), len(full))):
            yield s, sp[i % len(sp)], full[i % len(full)]

"""C13: successful and failed trials produce rows with the same columns."""
from .. import law, terms as t
from ..terms import TRUE, FALSE, mk
from ..flow import Interp
from .trial import Trial

NAN = ("numpy.nan", "numpy.NaN", "numpy.NAN", "math.nan")


def columns(x):
    """[(column name term, cell list term)] of a frame, None when not visible"""
    if x.op in ("copy", "deepcopy"):
        return columns(x.args[0])
    if x.op == "call" and x.args[0] == "pandas.DataFrame" and not x.args[1] and not x.args[2]:
        return []
    if x.op == "df":
        return columns(x.args[0])
    if x.op == "dict":
        return list(x.args[0])
    if x.op == "dput":
        b = columns(x.args[0])
        s = stream(x.args[1])
        return None if b is None or s is None else b + s
    return None


def stream(g):
    if g.op == "concat":
        out = []
        for y in g.args[0]:
            s = stream(y)
            if s is None:
                return None
            out += s
        return out
    if g.op == "seq":
        return [tuple(p.args) for p in g.args if p.op == "seq" and len(p.args) == 2]
    if g.op == "gen":
        try:
            return [(t.map_stream(g, lambda e: t.item(e, t.ZERO)), t.map_stream(g, lambda e: t.item(e, t.ONE)))]
        except Exception:
            return None
    return None


def nan(v):
    return v.op == "ext" and v.args[0] in NAN or v.op == "call" and v.args[0] == "float" and v.args[1] and t.strval(v.args[1][0]) == "nan"


def evaluate(ctx, name, stop=()):
    sf = law.SpecFile(ctx.prog, "entry")
    f = sf.module.functions[name]
    t.reset_vars()
    a = law.argvars(Interp(ctx.prog), f)
    ip, v, facts = law.evaluate(ctx.prog, f, {"stop": list(stop)}, a)
    ctx.see(q for q in ip.visited)
    return ip, v, a


def run(ctx):
    ctx.rule("columns", "the set of column names (as symbolic name streams) of the failure row equals that of the success row")
    ctx.rule("failure", "on failure model_succeeded is 0, every metric cell is NaN and model_exception is the message; on success model_succeeded is 1")
    ctx.rule("row", "every frame of the row holds single-element columns and the frames are joined side by side")
    _, s, _ = evaluate(ctx, "row_success", ["models.reach_point.ReachPoint.reach", "models.reach_point.ReachPoint.frequency"])
    ip, f, a = evaluate(ctx, "row_failure")
    wh = ctx.where(ctx.prog.lookup_repo("driver.test_point_aggregator.aggregate_on_exception"))
    cs, cf = columns(s), columns(f)
    rows = None
    if cs is None or cf is None:
        ctx.skip("columns", "metrics", "columns not visible: %s / %s" % (t.show(s)[:150], t.show(f)[:150]))
    else:
        compare(ctx, "metrics", [k for k, _ in cs], [k for k, _ in cf], wh)
        d, e = dict(cs), dict(cf)
        M, X = t.const("model_succeeded"), t.const("model_exception")
        cell = lambda c: c.args[0] if c is not None and c.op == "seq" and len(c.args) == 1 else None
        for which, m, want in (("success", d, t.ONE), ("failure", e, t.ZERO)):
            v = cell(m.get(M)) if M in m else None
            if v is None:
                ctx.skip("failure", which + " flag", "no such cell")
            elif v is want or v is (t.TRUE if want is t.ONE else t.FALSE):
                ctx.ok("failure", which + " flag")
            else:
                ctx.fail("failure", which + " flag", wh, "model_succeeded is %s on %s" % (t.show(v)[:80], which))
        for k, c in cf:
            v = cell(c)
            if v is None or k in (M, X):
                continue
            if nan(v):
                ctx.ok("failure", "NaN " + t.show(k))
            elif t.is_const(v):
                ctx.fail("failure", "NaN " + t.show(k), wh, "metric %s is %s on failure" % (t.show(k), t.show(v)[:80]))
            else:
                ctx.skip("failure", "NaN " + t.show(k), t.show(v)[:100])
        v = cell(e.get(X)) if X in e else None
        if v is not None:
            if t.occurs(a["msg"], v):
                ctx.ok("failure", "message")
            else:
                ctx.fail("failure", "message", wh, "the row does not carry the error text: " + t.show(v)[:80])
        one_row(ctx, "metrics", cs + cf, wh)
    # ---- whole row of a trial
    tr = Trial(ctx.prog)
    ctx.see(tr.visited())
    v = tr.value
    look = [e for n, e in tr.fs_calls() if n in ("is_file", "exists")]
    if look:
        v = t.assume(v, t.truth(look[0].value), False)
    fits = [e for e in tr.calls("fit") if e.tries]
    if not fits:
        ctx.skip("columns", "trial", "fit is not inside a try statement")
        return
    exc = mk("exc", [eid for eid, w, _ in fits[0].tries if w == "body"][-1])
    an = tr.args["analysis"]
    wh = fits[0].where()
    conds = []
    for c in conditions(v):
        if t.occurs(an, c) and c not in conds and t.not_(c) not in conds:
            conds.append(c)
    conds = conds[:2]
    cases = [("", [])]
    for c in conds:
        cases = [(n + " " + t.show(c if b else t.not_(c))[:60], cc + [(c, b)]) for n, cc in cases for b in (True, False)]
    for n, cc in cases:
        x = v
        for c, b in cc:
            x = t.assume(x, c, b)
        res = []
        for fails in (False, True):
            y = t.assume(x, exc, fails)
            res.append(frames(y))
        label = "trial" + n
        if res[0] is None or res[1] is None:
            ctx.skip("columns", label, "returned row is not a visible join of frames")
            continue
        keys = []
        bad = False
        for i, (axis, fr) in enumerate(res):
            if axis is not True:
                if axis is False:
                    ctx.fail("row", label, wh, "the frames of the row are not joined side by side (axis=1)")
                bad = True
                break
            ks = []
            for q in fr:
                if q.op == "rcall" and q.args[0].endswith(".aggregate"):
                    ks.append(("metrics", None))
                    continue
                if q.op == "rcall" and q.args[0].endswith(".aggregate_on_exception"):
                    ks.append(("metrics", None))
                    continue
                c = columns(q)
                if c is None:
                    ctx.skip("columns", label, "frame not visible: " + t.show(q)[:160])
                    bad = True
                    break
                ks += c
            if bad:
                break
            keys.append([k for k, _ in ks])
            one_row(ctx, label, [(k, c) for k, c in ks if c is not None], wh)
            who = [q.args[0].rsplit(".", 1)[-1] for q in fr if q.op == "rcall" and q.args[0].startswith("driver.test_point_aggregator.")]
            want = "aggregate_on_exception" if i else "aggregate"
            if who == [want]:
                ctx.ok("failure", label + " metrics of " + ("failure" if i else "success"))
            elif who:
                ctx.fail("failure", label + " metrics", wh, "a trial that %s reports %s" % ("fails" if i else "succeeds", who))
            if i:
                for q in fr:
                    if q.op == "rcall" and q.args[0].endswith("aggregate_on_exception"):
                        m = dict(q.args[1]).get("debug_msg") or (q.args[1][0][1] if q.args[1] else None)
                        if m is not None and t.is_const(m):
                            ctx.fail("failure", "error text", wh, "the failure row carries %s instead of the error" % t.show(m))
                        elif m is not None:
                            ctx.ok("failure", "error text")
                for q in fr:
                    if q in res[0][1]:
                        continue
                    for k, c in (columns(q) or []):
                        v1 = cell_of(c)
                        if v1 is None:
                            continue
                        if nan(v1):
                            ctx.ok("failure", "NaN " + t.show(k)[:60])
                        elif t.is_const(v1):
                            ctx.fail("failure", "NaN " + t.show(k)[:60], wh, "column %s is %s on failure" % (t.show(k)[:80], t.show(v1)[:60]))
        if not bad:
            compare(ctx, label, keys[0], keys[1], wh)


def compare(ctx, label, a, b, wh):
    sa, sb = norm(a), norm(b)
    if sa == sb:
        ctx.ok("columns", label)
        return
    miss = [k for k in sa if k not in sb]
    extra = [k for k in sb if k not in sa]
    txt = lambda ks: ", ".join(t.show(k)[:110] if not isinstance(k, str) else k for k in ks[:4])
    if any(not isinstance(k, str) and t.has_op(k, ("opaque", "unknown", "fold", "whilev", "maybe")) for k in miss + extra):
        ctx.skip("columns", label, "names not resolved: %s / %s" % (txt(miss), txt(extra)))
    else:
        ctx.fail("columns", label, wh, "columns only on success: {%s}; only on failure: {%s}" % (txt(miss), txt(extra)))


def norm(ks):
    out = []
    for k in ks:
        if not isinstance(k, str) and k.op == "concat":
            out += list(k.args[0])
        else:
            out.append(k)
    return set(out)


def one_row(ctx, label, cols, wh):
    for k, c in cols:
        if c.op == "seq" and len(c.args) != 1:
            ctx.fail("row", label, wh, "column %s holds %d values" % (t.show(k)[:80], len(c.args)))
            return
    ctx.ok("row", label)


def cell_of(c):
    if c.op == "gen":
        c = c.args[3]
        while c.op == "flat":
            c = c.args[0]
            if c.op == "gen":
                c = c.args[3]
    return c.args[0] if c.op == "seq" and len(c.args) == 1 else None


def conditions(v):
    out, seen, st = [], set(), [v]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "ite":
            out.append(y.args[0])
        st.extend(t.children(y))
    return out


def frames(v):
    """(side by side?, [frame]) of pandas.concat([...], axis=1)"""
    while v.op in ("copy", "deepcopy"):
        v = v.args[0]
    if v.op == "mcall" and v.args[1] in ("reset_index",):
        v = v.args[0]
    if v.op == "call" and v.args[0] == "pandas.concat":
        kw = dict(v.args[2])
        fr = v.args[1][0] if v.args[1] else kw.get("objs")
        ax = v.args[1][1] if len(v.args[1]) > 1 else kw.get("axis", t.ZERO)
        if fr is not None and fr.op == "seq":
            return (ax is t.ONE or t.strval(ax) == "columns"), list(fr.args)
    return None

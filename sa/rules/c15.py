"""C15: a stored trial result is reused, complete, and never lost or half-reported."""
from .. import terms as t
from ..terms import TRUE
from .trial import Trial, path_of, kwarg, in_handler


def run(ctx):
    ctx.rule("reuse", "when the lookup says a result is stored, the trial opens that very path, returns what it reads from it, and does none of the evaluation on that path")
    ctx.rule("store", "on the computing path the result is written once, under the location that is looked up, and holds the returned table in full")
    ctx.rule("order", "pending marker written -> data set loaded and evaluation -> result written -> marker removed -> return, on every path")
    tr = Trial(ctx.prog)
    ctx.see(tr.visited())
    fsc = tr.fs_calls()
    lookups = [e for n, e in fsc if n in ("is_file", "exists")]
    work = [e for n in ("by_name", "fit", "generate_test_points", "instantiate_strategy") for e in tr.calls(n)]
    if not lookups or not work:
        ctx.skip("reuse", "lookup", "no recognisable lookup of a stored result")
        return
    P = path_of(lookups[0])
    where = lookups[0].where()
    # --- reuse
    reads = [e for n, e in fsc if n in ("open", "read_text") and path_of(e) is P]
    others = [e for n, e in fsc if n in ("open", "read_text") and path_of(e) is not P and t.and_([e.guard, lookups[0].value]) is not t.FALSE and kwarg(e, "mode") is t.const("r")]
    found = t.truth(lookups[0].value)
    if not reads:
        if others:
            ctx.fail("reuse", "path", others[0].where(), "the result is looked up at %s but read from %s" % (show(P), show(path_of(others[0]))))
        else:
            ctx.skip("reuse", "path", "no recognisable read of the stored result")
    else:
        ctx.ok("reuse", "path")
        rd = reads[0]
        v = t.assume(tr.value, found, True)
        if rd.value is not None and t.occurs(rd.value, v):
            ctx.ok("reuse", "value")
        elif not t.has_op(v, ("opaque", "unknown")) and t.has_op(v, ("call",)):
            ctx.fail("reuse", "value", rd.where(), "a stored result is found but the value returned does not come from it: " + show(v))
        else:
            ctx.skip("reuse", "value", "returned value not resolved")
        # a failed read discards and recomputes
        eids = [eid for eid, w, ts in rd.tries if w == "body"]
        if not eids:
            ctx.fail("reuse", "unreadable", rd.where(), "an unreadable stored result is not caught, so it is not recomputed")
        else:
            h = [e for n, e in fsc if n in ("unlink",) and path_of(e) is P and in_handler(e)]
            ctx.ok("reuse", "unreadable")
            rer = [e for e in tr.effects if e.kind == "raise" and any(i == eids[-1] and w == "handler" for i, w, _ in e.tries)]
            if rer:
                ctx.fail("reuse", "recompute", rer[0].where(), "the handler of an unreadable result raises instead of recomputing")
            else:
                ctx.ok("reuse", "recompute")
        bad = [e for e in work if e.guard is TRUE or e.seq < rd.seq]
        if bad:
            ctx.fail("reuse", "no re-evaluation", bad[0].where(), "%s runs although a stored result may be there" % bad[0].name)
        else:
            ctx.ok("reuse", "no re-evaluation")
    # --- store
    writes = [e for n, e in fsc if n in ("write_text", "write_bytes")]
    opens = [e for n, e in fsc if n == "open" and kwarg(e, "mode") not in (None, t.const("r"), t.const("rb"))]
    res = [e for e in writes if path_of(e) is P]
    pend = [e for e in writes if path_of(e) is not P and e.seq < min(w.seq for w in work)]
    late = [e for e in writes if path_of(e) is not P and e.seq > max(w.seq for w in work)]
    if not res:
        cand = [e for e in late if kwarg(e, "data", 2) is not None and to_csv(kwarg(e, "data", 2)) is not None]
        if cand and not opens:
            ctx.fail("store", "location", cand[0].where(), "the result is stored at %s but looked up at %s" % (show(path_of(cand[0])), show(P)))
        elif not opens and not [e for n, e in fsc if n not in KNOWN]:
            ctx.fail("store", "stored", work[0].where(), "a computed result is never stored under %s" % show(P))
        else:
            ctx.skip("store", "location", "no recognisable write of the result")
        return
    ctx.ok("store", "location")
    if len(res) > 1:
        ctx.skip("store", "once", "several writes of the result")
    w = res[-1]
    data = kwarg(w, "data", 2)
    frame = to_csv(data)
    comp = t.assume(tr.value, found, False)
    if frame is None:
        ctx.skip("store", "content", "stored text is not a table rendered by to_csv: " + show(data))
    else:
        base, kw = frame
        if base is comp or base is clean(comp):
            ctx.ok("store", "content")
        elif t.has_op(comp, ("opaque", "unknown")):
            ctx.skip("store", "content", "returned value not resolved")
        else:
            ctx.fail("store", "content", w.where(), "the stored table is not the table returned: stored %s, returned %s" % (show(base), show(comp)))
        for k, v in kw.items():
            if k == "index" and v is not t.FALSE:
                ctx.fail("store", "index", w.where(), "stored with its index, so it is read back with an extra column")
            elif k in ("float_format", "columns", "header", "decimal", "date_format"):
                ctx.fail("store", "format", w.where(), "to_csv(%s=%s) does not store the row as returned" % (k, show(v)))
        if "index" not in kw:
            ctx.fail("store", "index", w.where(), "stored with its index, so it is read back with an extra column")
        else:
            ctx.ok("store", "index")
    # --- order
    if not pend:
        anyp = [e for e in writes if path_of(e) is not P]
        if anyp:
            ctx.fail("order", "marker first", anyp[0].where(), "the pending marker is written after the evaluation has started")
        else:
            ctx.fail("order", "marker first", work[0].where(), "the evaluation starts without a pending marker")
        return
    M = path_of(pend[0])
    ctx.ok("order", "marker first")
    if M is P:
        ctx.fail("order", "marker path", pend[0].where(), "the marker is written over the result")
    rm = [e for n, e in fsc if n == "unlink" and path_of(e) is M]
    other = [e for n, e in fsc if n == "unlink" and path_of(e) is not M and e.seq > w.seq]
    if not rm:
        if other:
            ctx.fail("order", "marker removed", other[0].where(), "removes %s, not the marker %s" % (show(path_of(other[0])), show(M)))
        else:
            ctx.fail("order", "marker removed", pend[0].where(), "the pending marker is never removed")
    else:
        early = [e for e in rm if e.seq < w.seq]
        if early:
            ctx.fail("order", "marker removed last", early[0].where(), "the pending marker is removed before the result is stored (%s)" % w.where())
        else:
            ctx.ok("order", "marker removed last")
        tried = {i for x in [w] + work for i, k, _ in x.tries if k in ("body", "else")}
        anyway = [e for e in rm if any(i in tried and k in ("finally", "handler") for i, k, _ in e.tries)]
        for e in anyway[:1]:
            ctx.fail("order", "marker removed after storing", e.where(), "the pending marker is removed although the evaluation or the storing (%s) may have failed" % w.where())
        und = [e for e in rm if e.guard is not w.guard]
        if len(und) == len(rm) and not early:
            ctx.skip("order", "marker removed always", "guards differ")
    gone = [e for n, e in fsc if n == "unlink" and path_of(e) is P and e.seq > w.seq]
    if gone:
        ctx.fail("order", "result kept", gone[0].where(), "the stored result is removed again")
    else:
        ctx.ok("order", "result kept")
    # the write happens on every computing path
    g = [c for c in t.conjuncts(w.guard)]
    gw = set(t.conjuncts(max(work, key=lambda e: e.seq if e.name and str(e.name).endswith("by_name") else -1).guard))
    extra = [c for c in g if c not in gw and t.not_(c) not in gw]
    if extra:
        ctx.fail("store", "always", w.where(), "the result is stored only if " + "; ".join(show(c) for c in extra))
    elif in_handler(w):
        ctx.fail("store", "always", w.where(), "the result is stored only when an exception occurred")
    else:
        ctx.ok("store", "always")


KNOWN = {"is_file", "exists", "open", "unlink", "parent", "mkdir", "write_text", "set_default_client_to_gs_client", "name", "glob", "joinpath", "read_text", "write_bytes", "is_dir"}


def clean(x):
    while x.op in ("deepcopy", "copy"):
        x = x.args[0]
    return x


def to_csv(x):
    if x is not None and x.op == "mcall" and x.args[1] == "to_csv":
        return clean(x.args[0]), dict(x.args[3])
    if x is not None and x.op == "ite":
        a, b = to_csv(x.args[1]), to_csv(x.args[2])
        if a and b:
            return t.ite(x.args[0], a[0], b[0]), {**a[1], **b[1]}
    return None


def show(x):
    return t.show(x)[:200] if x is not None else "?"

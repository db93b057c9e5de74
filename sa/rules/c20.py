"""C20: the order of check, write and listing when a data set is added."""
from .. import law, terms as t
from ..flow import Interp
from ..terms import NONE

W = "data_generators.data_set.DataSet.write_data_set"
FS = "filesystem_wrappers.filesystem_wrapper_base.FilesystemWrapperBase."
CHANGES = tuple(FS + k for k in ("open", "write_text", "unlink", "mkdir"))


def run(ctx):
    ctx.rule("add", "DataDesign.add writes the data set exactly once, under its own name in the design's directory and filesystem, only on paths where the existence test of that very location was negative; on the other paths it raises ValueError and changes nothing; the name is listed only after the write")
    try:
        law.timed(60, lambda: add(ctx))
    except law.Slow:
        ctx.skip("add", "DataDesign.add", "analysis budget exhausted")


def location(x, d, name):
    """x is the path of `name` inside `d`"""
    if x.op == "rcall" and x.args[0] == FS + "joinpath":
        k = dict(x.args[1]).get("args")
        return k is not None and k.op == "seq" and tuple(k.args) == (d, name)
    if x.op == "call" and x.args[0] in ("os.path.join", "posixpath.join"):
        return tuple(x.args[1]) == (d, name)
    return False


def add(ctx):
    sf = law.SpecFile(ctx.prog, "c20")
    f = sf.module.functions["entry_add"]
    t.reset_vars()
    a = law.argvars(Interp(ctx.prog), f)
    ip, _, _ = law.evaluate(ctx.prog, f, {"stop": [W]}, a)
    ctx.see(ip.visited)
    d, fs, ds = a["d"], a["fs"], a["ds"]
    me = ctx.prog.lookup_repo("data_generators.data_design.DataDesign.add")
    here = ctx.where(me)
    start = [e.seq for e in ip.effects if e.kind == "inline" and e.name.endswith("DataDesign.add")]
    if not start:
        return ctx.skip("add", "DataDesign.add", "not resolved")
    eff = [e for e in ip.effects if e.seq > start[0]]
    ws = [e for e in eff if e.kind == "call" and e.name == W]
    changes = [e for e in eff if e.kind == "call" and e.name in CHANGES]
    if not ws:
        if changes or any(e.kind == "unknown" for e in eff):
            return ctx.skip("add", "write", "the write is not done by write_data_set")
        return ctx.fail("add", "write", here, "add never writes the data set")
    name = t.mk("attr", ds, "_name")
    for w in ws:
        k = dict(w.kw)
        for key, want, what in (("self", ds, "data set"), ("parent_dir", d, "directory"), ("filesystem", fs, "filesystem")):
            got = k.get(key)
            if got is want:
                ctx.ok("add", "write/" + what)
            elif got is None or t.has_op(got, ("opaque", "unknown")):
                ctx.skip("add", "write/" + what, "not resolved")
            else:
                ctx.fail("add", "write/" + what, w.where(), "the %s written to is %s, not the design's" % (what, t.show(got)[:120]))
        sub = k.get("dataset_dir", NONE)
        if sub is NONE or sub is name:
            ctx.ok("add", "write/name")
        elif t.occurs(name, sub) or not t.has_op(sub, ("opaque", "unknown")):
            ctx.fail("add", "write/name", w.where(), "the data set is written under %s instead of its own name" % t.show(sub)[:120])
        else:
            ctx.skip("add", "write/name", t.show(sub)[:120])
        free = [c for c in t.conjuncts(w.guard) if c.op == "not" and any(x.op == "rcall" and x.args[0] in (FS + "exists", FS + "is_dir") for x in t.subterms(c))]
        hit = [x for c in free for x in t.subterms(c) if x.op == "rcall" and x.args[0] in (FS + "exists", FS + "is_dir") and location(dict(x.args[1]).get("path"), d, name) and dict(x.args[1]).get("self") is fs]
        if any(x.args[0] == FS + "exists" for x in hit):
            ctx.ok("add", "check before write")
        elif hit:
            ctx.fail("add", "check before write", w.where(), "the test before the write misses whatever exists at the location but is not a directory")
        elif any(x.op == "rcall" and x.args[0].startswith(FS) for x in t.subterms(w.guard)):
            got = [x for x in t.subterms(w.guard) if x.op == "rcall" and x.args[0] in (FS + "exists", FS + "is_dir")]
            if got and all(not t.has_op(x, ("opaque", "unknown")) for x in got):
                ctx.fail("add", "check before write", w.where(), "the write is not conditional on the absence of the location written to: %s" % t.show(w.guard)[:160])
            else:
                ctx.skip("add", "check before write", t.show(w.guard)[:200])
        else:
            ctx.fail("add", "check before write", w.where(), "the data set is written without testing whether its location exists")
        for e in w.tries:
            if e[1] == "handler":
                ctx.skip("add", "write", "write inside an exception handler")
    first = min(w.seq for w in ws)
    early = [e for e in changes if e.name != FS + "mkdir" and not any(e.guard is w.guard for w in ws)]
    if early:
        ctx.fail("add", "changes nothing", early[0].where(), "the stored data is changed by %s on a path where the data set may already exist" % early[0].name.rsplit(".", 1)[-1])
    else:
        ctx.ok("add", "changes nothing")
    rs = [e for e in eff if e.kind == "raise" and any(x.op == "rcall" and x.args[0] in (FS + "exists", FS + "is_dir") for x in t.subterms(e.guard))]
    if not rs:
        ctx.fail("add", "raises", here, "adding an existing data set raises no error")
    for e in rs:
        if e.name == "ValueError":
            ctx.ok("add", "raises")
        else:
            ctx.fail("add", "raises", e.where(), "adding an existing data set raises %s, not ValueError" % e.name)
    lists = [e for e in eff if e.kind in ("call", "mutate", "setattr") and e.name in ("add", "update", "append", "insert", "_data_set_names") and any(t.occurs(name, x) for x in e.args)]
    lists += [e for e in eff if e.kind in ("setattr", "mutate") and e not in lists and any(t.occurs(name, x) for x in list(e.args) + ([e.value] if e.value is not None else []))]
    if not lists:
        ctx.skip("add", "listed after write", "listing not resolved")
    for e in lists:
        if e.seq < first:
            ctx.fail("add", "listed after write", e.where(), "the name is listed before the data set is written, so that a failed write leaves it listed")
        elif any(h[1] in ("finally", "handler") for h in e.tries):
            ctx.fail("add", "listed after write", e.where(), "the name is listed even when the write failed")
        elif any(h[1] == "body" and (h[0], "body") not in [x[:2] for x in e.tries] and (h[0], "else") not in [x[:2] for x in e.tries]
                 and not any(r.kind == "raise" and (h[0], "handler") in [x[:2] for x in r.tries] for r in eff) for w in ws for h in w.tries):
            ctx.fail("add", "listed after write", e.where(), "the name is listed although the write may have failed (its error is caught)")
        elif any(t.has_op(c, ("exc",)) for c in t.conjuncts(e.guard)) or e.guard is not ws[0].guard:
            if t.has_op(e.guard, ("exc",)) or e.guard is t.TRUE:
                ctx.fail("add", "listed after write", e.where(), "the name is listed on paths where the data set was not written: %s" % t.show(e.guard)[:120])
            else:
                ctx.skip("add", "listed after write", t.show(e.guard)[:200])
        else:
            ctx.ok("add", "listed after write")

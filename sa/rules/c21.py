"""C21: malformed input is reported, never skipped (the formats themselves are laws in specs/c21.py)."""
from .. import law, terms as t
from ..flow import Interp


def run(ctx):
    ctx.rule("malformed", "reading never completes after a failed parse: no result depends on a caught exception, every error raised while reading names the line (file) it is about, and a line is split into exactly two fields")
    sf = law.SpecFile(ctx.prog, "c21")
    for entry, what in (("entry_lines", "line"), ("entry_read", "file")):
        try:
            law.timed(60, lambda: reading(ctx, sf, entry, what))
        except law.Slow:
            ctx.skip("malformed", entry, "analysis budget exhausted")


def reading(ctx, sf, entry, what):
    f = sf.module.functions[entry]
    stop = ["data_generators.publisher_data.PublisherData.read_publisher_data"] if what == "file" else []
    t.reset_vars()
    it, v, _ = law.evaluate(ctx.prog, f, {"stop": stop}, law.argvars(Interp(ctx.prog), f))
    ctx.see(it.visited)
    swallowed = [x for x in t.subterms(v) if x.op == "exc"]
    if swallowed:
        hs = {h[0]: e for e in it.effects for h in e.tries}
        e = hs.get(swallowed[0].args[0])
        ctx.fail("malformed", what + "/skipped", e.where() if e else f.qual, "a malformed %s is dropped instead of being reported: the result depends on a caught exception" % what)
    else:
        ctx.ok("malformed", what + "/skipped")
    raises = [e for e in it.effects if e.kind == "raise" and e.loops]
    if not raises:
        ctx.skip("malformed", what + "/named", "no error raised while reading")
    for e in raises:
        if any(t.occurs(l, a) for a in list(e.args) + [e.value] if a is not None for l, _, _ in e.loops):
            ctx.ok("malformed", what + "/named")
        elif any(h[1] == "handler" for h in e.tries) and not e.args and e.value is None:
            ctx.skip("malformed", what + "/named", "bare re-raise")
        else:
            ctx.fail("malformed", what + "/named", e.where(), "the error about a malformed %s does not name it" % what)
    if what == "line":
        parts = {x for x in t.subterms(v) if x.op == "mcall" and x.args[1] in ("split", "rsplit")}
        strict = [e for e in it.effects if e.kind == "unpack" and e.base.args[1] in ("split", "rsplit")]
        strict += [e for e in raises if any(y.op == "len" for y in t.subterms(e.guard))]
        if not parts:
            ctx.skip("malformed", "fields", "lines are not split")
        elif strict:
            p = sorted(parts)[0]
            if len(p.args[2]) > 1 or p.args[3]:
                ctx.fail("malformed", "fields", strict[0].where(), "the split is limited to so many fields, so that extra fields go unnoticed")
            else:
                ctx.ok("malformed", "fields")
        else:
            ctx.fail("malformed", "fields", ctx.where(ctx.prog.lookup_repo("data_generators.publisher_data.PublisherData.read_publisher_data")), "a line with more than two fields is accepted and its extra fields are ignored")

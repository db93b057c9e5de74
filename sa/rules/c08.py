"""C08: inputs are never modified and constructor arguments are snapshots (alias and write-effect analysis, sa/alias.py)."""
from ..alias import Alias, Obj, Val, IMM

COLLABORATORS = ("simulator.privacy_tracker.PrivacyTracker", "filesystem_wrappers.filesystem_wrapper_base.FilesystemWrapperBase", "data_generators.data_design.DataDesign")
SNAPSHOT = ("data_generators.publisher_data.PublisherData", "data_generators.data_set.DataSet", "models.reach_point.ReachPoint", "models.reach_surface.ReachSurface")


def public(c):
    seen = {}
    for k in c.mro():
        for n, f in k.methods.items():
            seen.setdefault(n, f)
    return [f for n, f in sorted(seen.items()) if n != "__init__" and (not n.startswith("_") or n.startswith("__")) and not f.abstract]


def run(ctx):
    prog = ctx.prog
    ctx.rule("inputs", "no object reachable from an argument of a public operation (or from an earlier constructor argument, or a default value) is written, collaborators apart")
    ctx.rule("snapshot", "no mutable object reachable from a log, publisher list, training point list, reach point component or reach curve list given to a constructor is reachable from the constructed object")
    ctx.rule("descriptors", "operations of the immutable descriptors write nothing reachable from the descriptor")
    ex = [prog.cls(q) for q in COLLABORATORS]
    model = prog.cls("models.reach_surface.ReachSurface")
    snap = [prog.cls(q) for q in SNAPSHOT]
    for m in prog.repo_modules():
        for c in m.classes.values():
            if any(str(b).startswith("apache_beam") for b in c.external_bases()):
                continue
            klass(ctx, prog, c, ex, model, snap)
        for f in m.functions.values():
            if f.name.startswith("_"):
                continue
            al = Alias(prog, ex)
            al.run(lambda: al.invoke(f, None, al.symbolic(f, 0)))
            ctx.see(al.visited)
            report(ctx, al, f.qual, "%s:%d %s" % (m.relpath, f.node.lineno, f.qual), model)


def report(ctx, al, subject, where, model, names=None):
    bad = False
    for w in sorted(al.writes.values(), key=lambda w: (w.where(), w.obj.path)):
        o = w.obj
        if o.root is None or o.exempt or o.root.startswith("global ") or o.root == "self":
            continue
        if w.own is not None and w.own.is_sub(model):
            continue          # a model being fitted
        bad = True
        ctx.fail("inputs", "%s %s%s" % (subject, o.root, o.path), w.where(), "%s modifies (%s) the caller's %s%s" % (subject, w.op, o.root, o.path) + ("" if w.field == "*" else "." + w.field))
    if not bad:
        ctx.ok("inputs", subject)


def klass(ctx, prog, c, ex, model, snap):
    where = "%s:%d %s" % (c.module.relpath, c.node.lineno, c.qual)
    al = Alias(prog, ex)
    init = c.find("__init__")
    ops = public(c)
    if init is not None:
        me = Obj(None, "", ("inst", c))

        def ctor():
            return al.invoke(init, Val({me}), al.symbolic(init, 1), c)
        al.run(ctor)
        if any(c.is_sub(s) for s in snap):
            snapshot(ctx, al, me, c, init, where)
        this = Val({me})
    elif c.is_namedtuple or c.is_dataclass:
        this = al.param("self", ("inst", c))
    else:
        this = Val({Obj(None, "", ("inst", c))})
    for f in ops:
        def op():
            if f.kind == "staticmethod":
                return al.invoke(f, None, al.symbolic(f, 0, f.name + "."), c)
            if f.kind == "classmethod":
                return al.invoke(f, Val({al.fnobj(("class", c, False))}), al.symbolic(f, 1, f.name + "."), c)
            return al.invoke(f, this, al.symbolic(f, 1, f.name + "."), c)
        al.run(op)
    ctx.see(al.visited)
    if c.is_namedtuple:
        ws = [w for w in al.writes.values() if w.obj.root == "self" and not w.obj.exempt and not (w.own is not None and w.own.is_sub(model))]
        for w in ws:
            ctx.fail("descriptors", "%s%s" % (c.qual, w.obj.path), w.where(), "%s modifies (%s) the descriptor's %s" % (w.func.qual, w.op, w.obj.path.lstrip(".") or w.field))
        if not ws:
            ctx.ok("descriptors", c.qual)
    report(ctx, al, c.qual, where, model)


def mutable(o):
    return not (o.kind == IMM or o.exempt)


def deep(path):
    """inside a component of the argument: of unknown type there, it is as likely a number"""
    return path.count(".") + path.count("[]") > 1


def snapshot(ctx, al, me, c, init, where):
    kinds = {}
    for p in init.node.args.args[1:] + init.node.args.kwonlyargs:
        kinds[p.arg] = al.kinds.ann(init.module, p.annotation)
    wanted = {n for n, k in kinds.items() if k is not None and (k[0] in ("list", "iter", "dict", "set", "nd", "tuple") or k[0] == "inst" and k[1].name in ("ReachPoint", "PublisherData"))}
    hit = {}
    seen, st = set(), [(me, "")]
    while st:
        x, p = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.root is not None:
            if x.root in wanted and mutable(x) and not (x.kind is None and deep(x.path)):
                hit.setdefault(x.root, []).append((p, x))
            continue
        for f in al.fields.get(x, ()):
            st.extend((y, p + ("[]" if f == "*" else "." + f)) for y in al.heap[(x, f)])
        st.extend((y, p) for y in x.src)
    for n in sorted(wanted):
        if n in hit:
            for p, x in hit[n]:
                ctx.fail("snapshot", "%s(%s)" % (c.qual, n), where, "%s keeps the caller's %s%s in self%s" % (c.name, x.root, x.path, p))
        else:
            ctx.ok("snapshot", "%s(%s)" % (c.qual, n))

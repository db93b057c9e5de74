"""C09: queries are pure (write effects of query methods on the receiver, transitively; sa/alias.py)."""
import ast
from ..alias import Alias
from .c08 import public

CLASSES = ("data_generators.data_set.DataSet", "data_generators.publisher_data.PublisherData", "models.reach_point.ReachPoint", "simulator.privacy_tracker.PrivacyTracker", "models.reach_surface.ReachSurface")
UPDATES = {("PrivacyTracker", "append")}


def arg(ts):
    return {t for t in ts if t.startswith("arg:")}


def run(ctx):
    prog = ctx.prog
    ctx.rule("pure", "a query writes nothing reachable from its receiver or from shared module state, except a one-time initialisation guarded by the receiver's own state whose values do not depend on the query, or a memo keyed by the query")
    ctx.rule("no-draw", "a query consumes no random numbers")
    ctx.rule("result", "a collection computed by a query is not part of the receiver")
    reads = loads(prog)
    bases = [prog.cls(q) for q in CLASSES]
    for q in CLASSES:
        base = prog.cls(q)
        for c in [base] + prog.subclasses(base):
            for f in public(c):
                if f.kind in ("staticmethod", "classmethod") or (c.name, f.name) in UPDATES or f.kind == "setter":
                    continue
                if f.name in internal(c, base):
                    continue
                query(ctx, prog, c, f, reads, bases)


def internal(c, base):
    """methods that are steps of the fit: called from _fit, and not part of the query interface of the base classes"""
    calls = {}

    def used(f, me, depth=0):
        out = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me}
        for x in ast.walk(f.node):
            # the receiver handed to a function of the module
            if depth < 4 and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in f.module.functions:
                g = f.module.functions[x.func.id]
                for p, a in list(zip(g.params(), x.args)) + [(q.arg, q.value) for q in x.keywords]:
                    if isinstance(a, ast.Name) and a.id == me and p:
                        out |= used(g, p, depth + 1)
        return out
    for k in c.mro():
        for n, f in k.methods.items():
            if n not in calls:
                calls[n] = used(f, f.params()[0]) if f.params() else set()
    seen, st = set(), [n for n in calls if n.startswith("_fit")]
    while st:
        n = st.pop()
        if n in seen or n not in calls:
            continue
        seen.add(n)
        st.extend(calls[n])
    iface = {n for k in c.mro() if k is not c or k is base for n in k.methods}
    return {n for n in seen if n not in iface}


def loads(prog):
    out = {}
    for m in prog.repo_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out.setdefault(n.attr, []).append(n)
    return out


def query(ctx, prog, c, f, reads, bases):
    al = Alias(prog)
    me = al.param("self", ("inst", c))
    v = al.run(lambda: al.invoke(f, me, al.symbolic(f, 1), c))
    ctx.see(al.visited)
    subject = "%s.%s" % (c.qual, f.name)
    ws = [w for w in al.writes.values() if w.obj.root is not None and (w.obj.root == "self" or w.obj.root.startswith(("global ", "default ")))]
    bad = und = False
    own = {}
    for w in ws:
        if w.obj.root == "self" and w.field != "*":
            own.setdefault((w.obj.path + "." + w.field).lstrip("."), []).append(w)
    onetime = {g for g, xs in own.items() if any(any("self:" + g in e for e in pc) for w in xs for pc in w.pcs)}
    for w in sorted(ws, key=lambda w: w.where()):
        if w.obj.root != "self":
            bad = True
            ctx.fail("pure", subject, w.where(), "%s modifies shared state %s%s" % (subject, w.obj.root, w.obj.path))
            continue
        fld = w.obj.path.lstrip(".").split(".")[0].split("[")[0] or w.field
        if w.obj.kind is not None and w.obj.kind[0] == "rng":
            bad = True
            ctx.fail("no-draw", subject, w.where(), "%s draws from the receiver's random generator %s" % (subject, fld))
            continue
        if all(o is not None and o.path and any(o.kind[1].is_sub(b) for b in bases) and not (g.name.startswith("_") and not g.name.startswith("__")) for o, g in w.via):
            continue          # a query of a part: judged with the part as receiver
        if not read(reads, fld, w):
            continue
        if memo(w):
            continue
        st = state(w, fld, onetime)
        if st is None:
            continue
        if st == "?":
            und = True
            ctx.skip("pure", "%s.%s" % (subject, fld), "unguarded write of a value that does not depend on the query (%s)" % w.where())
            continue
        bad = True
        ctx.fail("pure", "%s %s" % (subject, fld), w.where(), "%s writes self.%s (%s): %s" % (subject, fld, w.op, st))
    for name, node, g in al.draws.values():
        bad = True
        ctx.fail("no-draw", subject, "%s:%d %s" % (g.module.relpath, node.lineno, g.qual), "%s draws from %s" % (subject, name))
    if not bad and not und:
        ctx.ok("pure", subject)
    rs = [o for o in v.objs if o.root == "self" and o.path and o.kind is not None and o.kind[0] in ("list", "dict", "set", "nd")]
    if rs and not accessor(f):
        ctx.fail("result", subject, "%s:%d %s" % (f.module.relpath, f.node.lineno, f.qual), "%s returns the receiver's own self%s" % (subject, rs[0].path))
    elif v.objs:
        ctx.ok("result", subject)


def accessor(f):
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return f.kind == "property" or len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute)


def read(reads, fld, w):
    """is the field read other than as the base of the write itself"""
    sub = {id(x) for x in ast.walk(w.node)}
    return any(id(n) not in sub for n in reads.get(fld, ()))


def memo(w):
    """self.cache[key] = value with a key that determines every query argument the value depends on"""
    if w.op != "[]=" or w.key is None:
        return False
    e, _ = w.key
    names = set()
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, ast.Tuple):
            st.extend(x.elts)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "tuple" and len(x.args) == 1:
            st.append(x.args[0])
        elif isinstance(x, ast.Name):
            names.add(x.id)
    local = {}
    for n in ast.walk(w.func.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            local.setdefault(n.targets[0].id, []).append(n.value)
    todo = list(names)
    while todo:
        n = todo.pop()
        vs = local.get(n, ())
        if len(vs) == 1:
            st = [vs[0]]
            while st:
                x = st.pop()
                if isinstance(x, ast.Tuple):
                    st.extend(x.elts)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "tuple" and len(x.args) == 1:
                    st.append(x.args[0])
                elif isinstance(x, ast.Name) and x.id not in names:
                    names.add(x.id)
                    todo.append(x.id)
    return {t[4:] for t in arg(w.taint)} <= names


def state(w, fld, onetime):
    """None when harmless, '?' when not decided, else why not"""
    guarded = True
    for pc in w.pcs:
        i = next((k for k, e in enumerate(pc) if any("self:" + g in e for g in onetime)), None)
        if i is None:
            guarded = False
            continue
        late = {t for e in pc[i + 1:] for t in arg(e)}
        if late:
            return "the one-time initialisation depends on the query's %s" % names(late)
    if arg(w.taint):
        return "the value depends on the query's %s" % names(arg(w.taint))
    if guarded:
        return None
    late = {t for pc in w.pcs for e in pc for t in arg(e)}
    if late:
        return "whether it is written depends on the query's %s" % names(late)
    if "self:" + (w.obj.path + "." + w.field).lstrip(".") in w.taint or "self:" + fld in w.taint or w.op not in ("=", "[]=", "setattr"):
        return "each query changes it again"
    return "?"


def names(ts):
    return ", ".join(sorted(t[4:] for t in ts))

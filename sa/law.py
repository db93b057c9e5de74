"""Laws: pairs of functions evaluated abstractly by the same engine.

`name__code(...)` uses the repository's public classes, `name__spec(...)` is the
reference definition written from the property.  Both are interpreted over terms
(nothing is executed) and must have the same normal form.  `name__raises(...)`
gives the condition under which `name__code` must raise; `name__trace(...)` the
reference sequence of the external operations listed in TRACE[name].
"""
import ast
import os
import signal
import time
from . import terms as t
from . import diff
from .flow import Interp, Budget, MAXDEPTH
from .program import Module, AnalysisBroken
from .terms import mk, const, TRUE, FALSE, NONE

HERE = os.path.dirname(os.path.abspath(__file__))


class Slow(Exception):
    pass


def _alarm(*a):
    raise Slow()


def timed(seconds, f):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class SpecFile:
    def __init__(self, prog, name):
        p = os.path.join(HERE, "specs", name + ".py")
        src = open(p, encoding="utf-8").read()
        self.module = Module("$spec." + name, p, "sa/specs/%s.py" % name, src)
        self.module.prog = prog
        prog.modules[self.module.name] = self.module
        for c in self.module.classes.values():
            if c not in prog.all_classes:
                pass
        self.opts, self.trace, self.exc = {}, {}, {}
        for st in self.module.tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id in ("OPTS", "TRACE", "EXC"):
                setattr(self, st.targets[0].id.lower(), ast.literal_eval(st.value))

    def laws(self):
        names = []
        for f in self.module.functions:
            if f.endswith("__code"):
                names.append(f[:-6])
        return names


def argvars(ip, func):
    out = {}
    for p in func.node.args.args:
        an = p.annotation
        s = an.value if isinstance(an, ast.Constant) and isinstance(an.value, str) else None
        if s == "nat":
            v = mk("var", p.arg, "nat")
        elif s == "pos":
            v = t.add(mk("var", p.arg, "nat"), const(1))
        elif s == "posf":
            v = mk("var", p.arg, "posf")
        elif s == "zero":
            v = const(0)
        elif s == "none":
            v = NONE
        elif s in ("int", "float", "str", "bool"):
            v = t.var(p.arg, s)
        elif s == "list":
            v = t.var(p.arg, ("list", None))
        elif s == "dict":
            v = t.var(p.arg, ("dict", None, None))
        else:
            ty = ip.ann_type(func.module, an)
            v = t.var(p.arg, ty)
        if v.op == "var" and an is not None:
            t.GIVEN.add(v)
        out[p.arg] = v
    return out


class Outcome:
    def __init__(self, status, name, kind, ms=(), why="", visited=(), code=None, spec=None):
        self.status, self.name, self.kind, self.ms, self.why, self.visited = status, name, kind, list(ms), why, list(visited)
        self.code, self.spec = code, spec


def evaluate(prog, func, opts, args):
    opts = dict(opts)
    for k in ("stop", "unfold", "stop_prefix"):
        if opts.get(k):
            opts[k] = [q.replace("wfa_planning_evaluation_framework.", "", 1) for q in opts[k]]
    ip = Interp(prog, stop=opts.get("stop", ()), unfold=opts.get("unfold", ()), inline_depth=opts.get("depth", MAXDEPTH),
                stop_pred=(lambda q: any(q.startswith(p) for p in opts["stop_prefix"])) if opts.get("stop_prefix") else opts.get("stop_pred"))
    r = ip.invoke(func, dict(args))
    r = ip.val(r)
    facts = [c for c, k in ip.st.pc if k == "noraise"]
    if ip.st.dead:
        facts, r = [FALSE], mk("ext", "$raises")
    return ip, r, facts


def len_equalities(facts):
    """len(A) == len(B) known from guards -> replacement B -> A"""
    m = {}
    for f in facts:
        for c in t.conjuncts(f):
            if c.op == "or":
                # not truth(X) or len(X) == len(Y): treat X as present
                xs = [y for y in c.args[0] if y.op == "eq0"]
                if len(xs) == 1 and all(y is xs[0] or (y.op == "not" and y.args[0].op == "truth") for y in c.args[0]):
                    c = xs[0]
            if c.op == "eq0":
                d = c.args[0]
                p = t._poly(d)
                if len(p) == 2 and all(len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op == "len" for mm in p) and sorted(p.values()) == [-1, 1]:
                    a, b = sorted(mm[0][0] for mm in p)
                    if b not in m:
                        m[b] = a
                        m[mk("truth", b.args[0])] = mk("truth", a.args[0])
    return m


def simp(c, known):
    """simplify a boolean term under literals known to hold (unit propagation)"""
    if c in known:
        return TRUE
    if t.not_(c) in known:
        return FALSE
    if c.op == "and":
        return t.and_([simp(x, known) for x in c.args[0]])
    if c.op == "or":
        return t.or_([simp(x, known) for x in c.args[0]])
    if c.op == "not":
        return t.not_(simp(c.args[0], known))
    if c.op == "ite":
        k = simp(c.args[0], known)
        if k is TRUE:
            return simp(c.args[1], known)
        if k is FALSE:
            return simp(c.args[2], known)
    return c


def contradiction(facts):
    """the conjunction of the facts is refuted by unit propagation"""
    known = set()
    work = [x for f in facts for x in t.conjuncts(f)]
    for _ in range(30):
        nxt, changed = [], False
        for c in work:
            if c in known:
                continue
            s = simp(c, known)
            if s is FALSE:
                return True
            if s is TRUE:
                changed = True
                continue
            for x in t.conjuncts(s):
                if x.op != "or":
                    if x not in known:
                        known.add(x)
                        changed = True
                else:
                    nxt.append(x)
                    changed = changed or x is not c
        work = nxt
        if not changed:
            return False
    return False


def by_cases(facts, unpacks, b, exact, st, ms):
    """decide which inputs are rejected by fixing the lengths and integers the condition is about"""
    subj = []
    for x in t.subterms(b):
        if x.op == "len" and x.args[0].op == "var":
            subj.append((x, range(0, 4)))
        elif x.op == "truth" and x.args[0].op == "var" and mk("len", x.args[0]) not in [s for s, _ in subj]:
            subj.append((mk("len", x.args[0]), range(0, 4)))
        elif x.op == "var" and t.VAR_TYPES.get(x) == "int":
            subj.append((x, range(-1, 5)))
    seen = []
    subj = [s for s in subj if not (s[0] in seen or seen.append(s[0]))]
    if not subj or len(subj) > 3:
        return st, ms
    import itertools
    unsure = False
    for vals in itertools.product(*[r for _, r in subj]):
        m = {}
        for (x, _), v in zip(subj, vals):
            m[x] = const(v)
            if x.op == "len":
                m[mk("truth", x.args[0])] = const(v > 0)
        want = t.replace(b, m)
        if want not in (TRUE, FALSE):
            return st, ms
        fs = [t.replace(f, m) for f in facts]
        us = [t.replace(f, m) for f in unpacks]
        if want is TRUE:
            if contradiction(fs + us):
                continue
            what = "accepted"
        else:
            if not exact or not contradiction(fs):
                continue
            what = "rejected"
        about = {y for x, _ in subj for y in t.subterms(x) if y.op == "var"}
        res = [f for f in fs if f not in (TRUE, FALSE)]
        if any(not diff.modelled(f) or about & set(t.subterms(f)) for f in res):
            unsure = True
            continue
        case = t.seq([t.eq(x, const(v)) if x.op != "var" else mk("eq", x, const(v)) for (x, _), v in zip(subj, vals)])
        return "differs", [diff.M("guard", mk("const", "str", what), mk("const", "str", "rejected" if want is TRUE else "accepted"), "when %s" % t.show(case))]
    return ("undecided", ms) if unsure else ("equal", [])


def trace_of(ip, names):
    """ordered observable operations as terms"""
    out = []
    for e in ip.effects:
        if e.kind not in ("call", "unknown", "new", "raise", "enter", "setattr", "mutate"):
            continue
        nm = e.name
        if nm not in names and not any(n.endswith("*") and nm.startswith(n[:-1]) for n in names):
            continue
        x = mk("eff", nm, e.base if e.base is not None else NONE, tuple(e.args) if e.kind != "new" else (), tuple(e.kw))
        g = e.guard
        for l, size, filt in reversed(e.loops):
            dep = [c for c in t.conjuncts(g) if t.occurs(l, c)]
            g = t.and_([c for c in t.conjuncts(g) if not t.occurs(l, c)])
            x = t.mk_gen(l, size, t.and_(dep), x if x.op not in ("gen", "seq", "concat", "ite") else mk("flat", x))
        if g is not TRUE:
            x = t.ite(g, x, mk("const", "str", "no effect"))
        out.append(x)
    return t.seq(out)


def flat_trace(ip, names):
    """what the operations were given, as one stream (a list argument contributes its elements)"""
    out = []
    for e in ip.effects:
        if e.kind not in ("call", "unknown") or e.name not in names or not (e.args or e.kw):
            continue
        x = e.args[0] if e.args else e.kw[0][1]
        if names[e.name] == "each":
            # (text put together from pieces and handed over at once is handed over piece by piece)
            x = x.args[1] if x.op == "join" and t.strval(x.args[0]) == "" and t.is_seq(x.args[1]) else t.seq([x])
        g = e.guard
        for l, size, filt in reversed(e.loops):
            dep = [c for c in t.conjuncts(g) if t.occurs(l, c)]
            g = t.and_([c for c in t.conjuncts(g) if not t.occurs(l, c)])
            x = t.mk_gen(l, size, t.and_(dep), mk("flat", x))
        if g is not TRUE:
            x = t.ite(g, x, t.EMPTY)
        out.append(x)
    return t.concat(out)


def check_law(prog, sf, name, budget=60):
    f = sf.module.functions[name + "__code"]
    opts = sf.opts.get(name, sf.opts.get("*", {}))
    outs = []

    def run():
        diff.COMPUTED.clear()
        diff.COMPUTED.update(prog.computed)
        ip0 = Interp(prog)
        t.reset_vars()
        args = argvars(ip0, f)
        ipc, code, facts = evaluate(prog, f, opts, args)
        eqs = len_equalities(facts)
        for c in facts:
            for x in t.conjuncts(c):
                if x not in (TRUE, FALSE) and x not in eqs:
                    eqs[x] = TRUE
        visited = [q for q in ipc.visited if not q.startswith("$spec")]
        for suffix in ("spec", "raises", "refuses", "trace", "given"):
            g = sf.module.functions.get("%s__%s" % (name, suffix))
            if g is None:
                continue
            alts = [g]
            i = 2
            while "%s__%s%d" % (name, suffix, i) in sf.module.functions:
                alts.append(sf.module.functions["%s__%s%d" % (name, suffix, i)])
                i += 1
            best = None
            for g in alts:
                ga = {p: args[p] if p in args else t.var(p) for p in [x.arg for x in g.node.args.args]}
                ips, spec, sfacts = evaluate(prog, g, opts, ga)
                if suffix == "spec":
                    a, b = code, spec
                elif suffix == "raises":
                    a = t.or_([t.not_(c) for c in facts]) if facts else FALSE
                    b = t.truth(spec)
                elif suffix == "refuses":
                    # at least the given inputs are rejected: that condition implies one of the raising conditions
                    b = t.truth(spec)
                    a = b
                    if not contradiction(list(facts) + ipc.unpacks + [b]):
                        a = t.or_([t.not_(c) for c in facts]) if facts else FALSE
                elif suffix == "given":
                    a, b = flat_trace(ipc, sf.trace[name]), flat_trace(ips, sf.trace[name])
                else:
                    names = set(sf.trace[name])
                    a, b = trace_of(ipc, names), trace_of(ips, names)
                if eqs and suffix not in ("raises", "refuses"):
                    a, b = t.replace(a, eqs), t.replace(b, eqs)
                st, ms = diff.verdict(a, b, closed=True, dep=not opts.get("nodep"))
                if suffix in ("raises", "refuses") and st != "equal":
                    st, ms = by_cases(facts, ipc.unpacks, b, suffix == "raises", st, ms)
                if suffix in ("raises", "refuses") and st == "equal":
                    allowed = set(sf.exc.get(name, sf.exc.get("*", ["ValueError"])))
                    wrong = [e for e in ipc.effects if e.kind == "raise" and e.name.rsplit(".", 1)[-1] not in allowed and not e.tries]
                    if wrong:
                        st, ms = "differs", [diff.M("exception", mk("ext", wrong[0].name), mk("ext", "|".join(sorted(allowed))), "raised at %s" % wrong[0].where())]
                o = Outcome(st, name, suffix, ms, "", visited, a, b)
                if best is None or {"equal": 0, "undecided": 1, "differs": 2}[st] < {"equal": 0, "undecided": 1, "differs": 2}[best.status]:
                    best = o
                if st == "equal":
                    break
            outs.append(best)
    try:
        timed(budget, run)
    except Slow:
        outs.append(Outcome("undecided", name, "value", why="analysis budget exhausted"))
    except (Budget, RecursionError, AnalysisBroken) as e:
        outs.append(Outcome("undecided", name, "value", why="%s %s" % (type(e).__name__, e)))
    except Exception as e:      # an unmodelled construct must not become an alarm
        import traceback
        outs.append(Outcome("undecided", name, "value", why="engine: %s %s" % (type(e).__name__, traceback.format_exc().splitlines()[-3:])))
    return outs

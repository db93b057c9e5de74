"""C12: names carry every setting; trials are merged only on data set + complete name.

The three string producing operations are evaluated to string terms.  A setting is *carried* when it appears in the string
undiminished: formatted whole, or as all the entries of a list or dict.  A setting that appears only rounded, truncated,
or not at all is a violation; a setting that goes through an operation the rule does not know is left undecided."""
import ast
import re
from .. import law, terms as t
from ..flow import Interp
from ..terms import TRUE, mk

FULL = re.compile(r"^(!r|!s|(.?[<>=^])?[ +-]?#?0?\d*[,_]?[sdn]?)$")
# operations after which two different values may read the same
LOSSY = {"round", "int", "len", "truth", "slice", "isnone", "floordiv", "mod", "abs", "lt0", "le0", "sum", "set", "floor", "min", "max"}
LOSSY_CALLS = {"lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "casefold", "swapcase", "replace", "split", "partition", "rsplit", "zfill"}
TD_SKIP = {"generator", "campaign_spend_fractions_generator"}
DICTS = set()
DSP_SKIP = {"generator"}


class Carry:
    def __init__(self, dicts=()):
        self.dicts = dicts      # paths known to hold a dict
        self.unknown = set()
        self.blurred = []

    def of(self, x):
        """the terms carried undiminished by the string (or printable value) x"""
        if x.op in ("num", "const"):
            return set()
        if x.op == "strcat":
            return set().union(*[self.of(p) for p in x.args[0]])
        if x.op == "fmt":
            if isinstance(x.args[1], str) and FULL.match(x.args[1]):
                return self.of(x.args[0])
            if isinstance(x.args[1], str):
                self.blurred.append((x.args[0], "format %r" % x.args[1]))
                return set()
            self.lost(x)
            return set()
        if x.op == "ite":
            c, a, b = x.args
            return (self.of(a) | fixed(c, True)) & (self.of(b) | fixed(c, False))
        if x.op in ("attr", "var", "lv", "bv") or x.op == "item":
            return {x}
        if x.op == "seq" or x.op == "tuple":
            return set().union(*[self.of(p) for p in x.args])
        if x.op == "join":
            if x.args[1] in self.dicts:
                self.blurred.append((x, "only its keys are written"))
                return set()
            return self.of(x.args[1])
        if x.op == "sorted":
            return set()
        if x.op == "gen":
            l = t.fresh_lv()
            n = x.args[1]
            f, e = t.open_gen(x, l)
            if f is not TRUE:
                self.blurred.append((x, "entries are filtered"))
                return set()
            out = set()
            for y in self.of(e):
                for c in coll(y, l):
                    if t.length(c) is n or t.eq(t.length(c), n) is TRUE:
                        out.add((c, y))
            got = {y for _, y in out}
            res = set()
            for c, y in out:
                if is_keys(c) or c in DICTS:
                    d = c if c in DICTS else c.args[0] if c.op == "keys" else c.args[0].args[0]
                    if t.item(d, y) in self.of(e):
                        res.add(d)
                elif c.op == "items" or (c.op == "sorted" and c.args[0].op == "items"):
                    res.add(c.args[0] if c.op == "items" else c.args[0].args[0])
                else:
                    res.add(c)
            return res
        if x.op == "concat":
            return set().union(*[self.of(p) for p in x.args[0]])
        if x.op in LOSSY or (x.op == "mcall" and x.args[1] in LOSSY_CALLS):
            self.blurred.append((x, x.op if x.op != "mcall" else x.args[1]))
            return set()
        if x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] in ("round", "around", "floor", "ceil", "trunc"):
            self.blurred.append((x, str(x.args[0])))
            return set()
        if x.op in ("copy", "deepcopy"):
            return self.of(x.args[0])
        if x.op == "mcall" and x.args[1] in ("__str__", "__repr__", "_asdict"):
            return self.of(x.args[0])
        if x.op in ("keys", "values", "items", "dict"):
            return {x.args[0]} if x.op == "items" else set()
        self.lost(x)
        return set()

    def lost(self, x):
        for y in t.subterms(x):
            if y.op in ("attr", "var"):
                self.unknown.add(y)


def coll(y, l):
    if y.op == "item" and y.args[1] is l:
        return [y.args[0]]
    return []


def is_keys(c):
    return c.op == "keys" or (c.op == "sorted" and c.args[0].op == "keys")


def fixed(c, val):
    """terms whose value is determined when c has this truth value"""
    if c.op == "not":
        return fixed(c.args[0], not val)
    if c.op == "and" and val or c.op == "or" and not val:
        return set().union(*[fixed(x, val) for x in c.args[0]])
    if c.op == "truth" and not val:
        return {c.args[0]} | ({c.args[0].args[0]} if c.args[0].op == "len" else set())
    if c.op == "isnone" and val:
        return {c.args[0]}
    if c.op == "eq" and val:
        a, b = c.args
        return {x for x, y in ((a, b), (b, a)) if y.op in ("num", "const", "seq", "dict")}
    if c.op == "eq0" and val:
        return {y for y in t.subterms(c.args[0]) if y.op == "len" for y in (y.args[0],)}
    if c.op == "lt0" and not val:
        return set()
    return set()


def record_fields(cls):
    for s in cls.node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            yield s.target.id, s.annotation


def paths(prog, types, cls, base, skip):
    out = []
    for name, ann in record_fields(cls):
        if name in skip:
            continue
        b = mk("attr", base, name)
        k = types.ann(cls.module, ann)
        sub = k[1] if k and k[0] == "inst" and list(record_fields(k[1])) else None
        if sub is not None:
            out.extend(paths(prog, types, sub, b, skip))
        else:
            out.append(b)
            if "Dict" in ast.unparse(ann) or "dict" in ast.unparse(ann):
                DICTS.add(b)
    return out


def dotted(p):
    s = []
    while p.op == "attr":
        s.append(p.args[1])
        p = p.args[0]
    return ".".join(reversed(s)) or t.show(p)


def covered(p, kept):
    while True:
        if p in kept:
            return True
        if p.op != "attr":
            return False
        p = p.args[0]


def judge(ctx, rule, subject, where, x, req, what):
    cy = Carry(DICTS)
    kept = cy.of(x)
    for p in req:
        s = "%s:%s" % (subject, dotted(p))
        if covered(p, kept):
            ctx.ok(rule, s)
        elif covered(p, cy.unknown) or any(y in cy.unknown for y in [q for q in cy.unknown if t.occurs(p, q)]):
            ctx.skip(rule, s, "the setting goes through an operation this rule does not know")
        else:
            why = [w for y, w in cy.blurred if t.occurs(p, y)]
            ctx.fail(rule, s, where, "%s: %s %s" % (what, dotted(p), "appears only after %s" % why[0] if why else "does not appear"))
    return cy


def ends(x, first):
    """'var', 'const' or 'any' for the text at one end of x; '' when it can be empty"""
    if x.op == "strcat":
        ps = x.args[0] if first else x.args[0][::-1]
        return ends(ps[0], first)
    if x.op == "ite":
        a, b = ends(x.args[1], first), ends(x.args[2], first)
        return a if a == b else ("var" if "var" in (a, b) and not {a, b} & {"any"} else "any")
    if t.strval(x) is not None:
        return "const" if t.strval(x) else ""
    if x.op == "fmt" or x.op == "attr":
        return "var"
    if x.op == "join":
        return "var"
    return "any"


def touching(x):
    """pairs of settings written next to each other with nothing between them"""
    for y in t.subterms(x):
        if y.op == "strcat":
            for a, b in zip(y.args[0], y.args[0][1:]):
                if ends(a, False) == "var" and ends(b, True) == "var":
                    yield a, b
        if y.op == "join" and t.strval(y.args[0]) == "":
            yield y.args[1], y.args[1]


def run(ctx):
    prog = ctx.prog
    from ..types import Types
    types = Types(prog)
    ctx.rule("trial name", "str(TrialDescriptor) carries every setting of the descriptor undiminished, with something between any two")
    ctx.rule("data set name", "str(DataSetParameters) carries every generation parameter when no name is given, and the name otherwise")
    ctx.rule("result path", "the path of a stored result carries the experiment directory, the data set name and every setting of the trial")
    ctx.rule("merged", "the trials of a design are those of its experiments, one being dropped only if an earlier one has the same data set name and the same complete trial name")
    sf = law.SpecFile(prog, "c12")

    def ev(name, stop=()):
        f = sf.module.functions[name]
        t.reset_vars()
        a = law.argvars(Interp(prog), f)
        ip, v, _ = law.evaluate(prog, f, {"stop": list(stop)}, a)
        ctx.see(e.name for e in ip.effects if e.kind == "inline")
        return ip, v, list(a.values())[0] if len(a) == 1 else a

    td = prog.cls("driver.trial_descriptor.TrialDescriptor")
    dsp = prog.cls("data_generators.data_set_parameters.DataSetParameters")
    et = prog.cls("driver.experimental_trial.ExperimentalTrial")

    def w(c, m):
        f = c.find(m) if c is not None else None
        return ctx.where(f) if f is not None else "src"

    _, v, x = ev("trial_name")
    req = paths(prog, types, td, x, TD_SKIP)
    judge(ctx, "trial name", "trial", w(td, "__str__"), v, req, "two trials differing only in this setting share a name")
    for a, b in touching(v):
        ctx.fail("trial name", "trial:adjacent", w(td, "__str__"), "%s and %s are written with nothing between them" % (t.show(a)[:120], t.show(b)[:120]))

    _, v, x = ev("data_set_name")
    nm = mk("attr", x, "name")
    a = t.assume(v, mk("truth", nm), False)
    req = [p for p in paths(prog, types, dsp, x, DSP_SKIP) if p is not nm]
    judge(ctx, "data set name", "unnamed", w(dsp, "__str__"), a, req, "two data sets differing only in this parameter share a name")
    for p, q in touching(a):
        ctx.fail("data set name", "data set:adjacent", w(dsp, "__str__"), "%s and %s are written with nothing between them" % (t.show(p)[:120], t.show(q)[:120]))
    judge(ctx, "data set name", "named", w(dsp, "__str__"), t.assume(v, mk("truth", nm), True), [nm], "the explicit name is not used")

    _, v, x = ev("result_path")
    req = [x["experiment_dir"], x["data_set_name"]] + paths(prog, types, td, x["td"], TD_SKIP)
    judge(ctx, "result path", "path", w(et, "_compute_trial_results_path"), v, req, "two trials differing only in this share a stored result")
    for p, q in touching(v):
        ctx.fail("result path", "path:adjacent", w(et, "_compute_trial_results_path"), "%s and %s are written with nothing between them" % (t.show(p)[:120], t.show(q)[:120]))

    ip, v, x = ev("design_trials", ["driver.experiment.Experiment.generate_trials"])
    merged(ctx, prog, types, td, v, w(prog.cls("driver.experimental_design.ExperimentalDesign"), "generate_trials"))


def kept_params(cls):
    """constructor parameter -> attribute it is stored in"""
    f = cls.find("__init__") if cls is not None else None
    out = {}
    for n in ast.walk(f.node) if f is not None else ():
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Name):
            for tg in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == "self":
                    out.setdefault(n.value.id, tg.attr)
    return out


def leaves(v, conds=()):
    """(element, [conditions under which it is kept]) of a list of trials"""
    if v.op == "gen":
        l = t.fresh_lv()
        f, e = t.open_gen(v, l)
        cs = conds + (tuple(t.conjuncts(f)) if f is not TRUE else ())
        if e.op == "flat":
            yield from leaves(e.args[0], cs)
        else:
            yield e, cs
    elif v.op == "concat":
        for p in v.args[0]:
            yield from leaves(p, conds)
    elif v.op in ("copy", "deepcopy", "sorted"):
        yield from leaves(v.args[0], conds)
    else:
        yield None, conds


def merged(ctx, prog, types, td, v, where):
    pairs = []
    for y in t.subterms(v):
        if y.op == "dput" and y.args[1].op in ("gen", "flat"):
            for e, cs in leaves(y.args[1]):
                if e is not None and e.op == "seq" and len(e.args) == 2:
                    pairs.append((e.args[0], e.args[1]))
    got = list(leaves(v))
    for e, cs in got:
        if e is None:
            continue
        for c in cs:
            if c.op == "not" and c.args[0].op == "in":
                pairs.append((c.args[0].args[0], e))
            elif t.occurs(e, c):
                ctx.fail("merged", "dropped", where, "a trial is left out when not %s" % t.show(c)[:200])
    if not pairs:
        if all(e is not None and not cs for e, cs in got):
            ctx.ok("merged", "no trial is ever merged")
        else:
            ctx.skip("merged", "key", "no recognisable comparison of trials: %s" % t.show(v)[:200])
        return
    held = kept_params(prog.cls("driver.experimental_trial.ExperimentalTrial"))
    for k, e in pairs:
        tdx = mk("attr", e, held.get("trial_descriptor", "_trial_descriptor"))
        req = [mk("attr", e, held.get("data_set_name", "_data_set_name"))] + paths(prog, types, td, tdx, TD_SKIP)
        cy = Carry(DICTS)
        kept = cy.of(k)
        for p in req:
            s = "key:%s" % dotted(p).split("trial_descriptor.")[-1]
            if covered(p, kept):
                ctx.ok("merged", s)
            elif covered(p, cy.unknown) or any(t.occurs(p, q) for q in cy.unknown):
                ctx.skip("merged", s, "goes through an operation this rule does not know")
            else:
                ctx.fail("merged", s, where, "trials differing only in %s are taken for duplicates" % dotted(p).split("trial_descriptor.")[-1])

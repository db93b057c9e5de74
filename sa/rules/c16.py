"""C16: the seed determines every random choice."""
import ast
from .. import terms as t
from ..astutil import Scoped, is_param, parents, param_default
from ..terms import mk
from .trial import Trial, kwarg

MAKERS = {"numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.PCG64", "numpy.random.MT19937", "numpy.random.SeedSequence",
          "numpy.random.Philox", "numpy.random.SFC64", "random.Random", "numpy.random.seed", "random.seed"}
ENTROPY = ("os.urandom", "os.getrandom", "secrets.", "uuid.uuid1", "uuid.uuid4", "random.SystemRandom", "time.time", "time.time_ns", "time.monotonic", "time.perf_counter",
           "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.now", "os.getpid", "threading.get_ident")
BUILTIN_ENTROPY = ("id", "hash")
STDLIB_DRAWS = {"random", "randint", "uniform", "choice", "choices", "sample", "shuffle", "gauss", "normalvariate", "randrange", "betavariate", "expovariate", "gammavariate", "lognormvariate", "getrandbits", "triangular", "vonmisesvariate", "paretovariate", "weibullvariate"}
NOISERS = ("GeometricEstimateNoiser", "GaussianEstimateNoiser", "LaplaceEstimateNoiser", "BlipNoiser", "SurrealDenoiser")


def run(ctx):
    ctx.rule("seeded", "every random generator is created with a seed that is not None and is not derived from time, process or operating-system entropy")
    ctx.rule("no entropy", "no draw from the unseeded standard library generator, os.urandom, uuid4, secrets or hash randomisation")
    ctx.rule("trial", "a trial seeds the global generator and creates its own generators from the experiment's seed; noise comes from a generator of its own; the test points are drawn right after seeding, before the model is fitted")
    ctx.rule("generation", "the data design generator seeds its generator and the global one from its seed and hands that generator to every impression and overlap generator")
    sites = 0
    for m in ctx.prog.repo_modules():
        v = Sites(ctx, m)
        v.visit(m.tree)
        sites += v.n
    if sites == 0:
        ctx.skip("seeded", "sites", "no generator creation found")
    trial(ctx)
    generation(ctx)


class Sites(Scoped):
    def __init__(self, ctx, m):
        super().__init__(ctx.prog, m)
        self.ctx = ctx
        self.n = 0

    def enter(self, n):
        self.ctx.see([self.qual()])

    def visit_Call(self, n):
        self.generic_visit(n)
        r = self.resolve(n.func)
        name = r if isinstance(r, str) else None
        here = "%s:%s" % (self.qual(), ast.unparse(n)[:50])
        if name is None:
            return
        if name in MAKERS:
            self.n += 1
            self.maker(n, name, here)
        elif name == "random.SystemRandom" or name.startswith(("os.urandom", "os.getrandom", "secrets.", "uuid.uuid4", "uuid.uuid1")):
            self.ctx.fail("no entropy", here, self.where(n), "draws from operating-system entropy: " + ast.unparse(n)[:80])
        elif name.startswith("random.") and name[7:] in STDLIB_DRAWS:
            self.ctx.fail("no entropy", here, self.where(n), "draws from the standard library generator, which the experiment's seed does not reach: " + ast.unparse(n)[:80])
        elif name.rsplit(".", 1)[-1] in NOISERS and not name.startswith("@repo"):
            if not any(k.arg == "random_state" or k.arg is None for k in n.keywords) and len(n.args) < 2:
                self.ctx.fail("seeded", here, self.where(n), "%s without random_state draws from an unseeded generator" % name.rsplit(".", 1)[-1])
            else:
                self.ctx.ok("seeded", here)

    def maker(self, n, name, here):
        seed = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg in ("seed", "a", "entropy", "x")), None)
        if seed is None:
            if any(k.arg is None for k in n.keywords):
                self.ctx.skip("seeded", here, "keyword arguments not resolved")
                return
            self.ctx.fail("seeded", here, self.where(n), "%s() without a seed draws from operating-system entropy" % name)
            return
        why = self.bad(seed)
        if why:
            self.ctx.fail("seeded", here, self.where(n), "seed %s" % why)
        else:
            self.ctx.ok("seeded", here)
        # generators made when the module is loaded are shared by everything that follows
        if not self.stack and name != "numpy.random.seed":
            tgt = self.shared_name(n)
            if tgt and tgt != "generator" and self.used(tgt):
                self.ctx.fail("trial", here, self.where(n), "generator %s is created once per process and shared by all trials, so a trial's draws depend on what ran before" % tgt)

    def shared_name(self, n):
        for st in ast.walk(self.m.tree):
            if isinstance(st, ast.Assign) and n in ast.walk(st.value) and isinstance(st.targets[0], ast.Name):
                return st.targets[0].id
            if isinstance(st, ast.AnnAssign) and st.value is not None and n in ast.walk(st.value) and isinstance(st.target, ast.Name):
                return st.target.id
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                a = st.args
                pos = a.posonlyargs + a.args
                for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                    if d is not None and n in ast.walk(d):
                        return x.arg
        return None

    def used(self, name):
        for m in self.prog.repo_modules():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and (m is self.m or name in m.imports):
                    return True
                if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Load):
                    return True
        return False

    def bad(self, e):
        if isinstance(e, ast.Constant) and e.value is None:
            return "is None: operating-system entropy"
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                r = self.resolve(x.func)
                if isinstance(r, str) and (r.startswith(ENTROPY) or r in BUILTIN_ENTROPY):
                    return "is derived from " + r
                if isinstance(x.func, ast.Name) and x.func.id in BUILTIN_ENTROPY and not self.is_local(x.func.id):
                    return "is derived from " + x.func.id + "()"
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and self.stack:
                for f in reversed(self.stack):
                    if is_param(f, x.id):
                        d = param_default(f, x.id)
                        if isinstance(d, ast.Constant) and d.value is None and x is e and not self.guarded(f, x.id):
                            return "is the parameter %s, which defaults to None: operating-system entropy" % x.id
                        break
                    asg = [s.value for s in ast.walk(f) if isinstance(s, ast.Assign) and any(isinstance(q, ast.Name) and q.id == x.id for q in s.targets)]
                    if asg:
                        for a in asg:
                            if not any(isinstance(q, ast.Name) and q.id == x.id for q in ast.walk(a)):
                                w = self.bad(a)
                                if w:
                                    return w
                        break
        return None

    def guarded(self, f, name):
        """the parameter is tested or replaced before use"""
        for s in ast.walk(f):
            if isinstance(s, (ast.If, ast.IfExp)) and any(isinstance(q, ast.Name) and q.id == name for q in ast.walk(s.test)):
                return True
            if isinstance(s, ast.Assign) and any(isinstance(q, ast.Name) and q.id == name for q in s.targets):
                return True
        return False


RNG = ("numpy.random.default_rng", "numpy.random.RandomState")


def seed_of(x):
    """seed term of a freshly created generator"""
    if x is not None and x.op == "call" and x.args[0] in RNG:
        kw = dict(x.args[2])
        return x.args[1][0] if x.args[1] else kw.get("seed")
    if x is not None and x.op == "call" and x.args[0] == "numpy.random.Generator" and x.args[1]:
        y = x.args[1][0]
        if y.op == "call" and y.args[1]:
            return y.args[1][0]
    return None


def trial(ctx):
    tr = Trial(ctx.prog)
    ctx.see(tr.visited())
    seed = tr.args["seed"]
    pts = tr.calls("generate_test_points")
    fits = [e for e in tr.calls("fit")]
    halos = [e for e in tr.effects if e.kind == "new" and str(e.name).endswith(".HaloSimulator")]
    seeds = [e for e in tr.effects if e.kind == "call" and str(e.name) == "numpy.random.seed"]
    if len(pts) != 1 or len(fits) != 1 or len(halos) != 1:
        ctx.skip("trial", "shape", "not one simulator, one fit and one generation of test points")
        return
    pts, fit, halo = pts[0], fits[0], halos[0]
    # own noise generator
    for lab, p in (("noise", kwarg(halo, "params", 1)), ("fit parameters", kwarg(fit, "system_params", 1))):
        g = t.getfield(p, "generator") if p is not None and hasattr(t, "getfield") else field(p, "generator")
        s = seed_of(g)
        if s is None:
            root = g
            if root is not None and simple(root):
                ctx.fail("trial", lab, halo.where(), "the noise of a trial is drawn from %s, which other trials have drawn from, not from a generator of its own seeded with the experiment's seed" % t.show(g)[:120])
            else:
                ctx.skip("trial", lab, "generator not resolved: " + (t.show(g)[:120] if g is not None else "?"))
        elif s is seed or depends(s, seed):
            ctx.ok("trial", lab)
        else:
            ctx.fail("trial", lab, halo.where(), "the noise generator is seeded with %s, not with the experiment's seed" % t.show(s)[:80])
    # test points' generator
    g = kwarg(pts, "rng", 2)
    s = seed_of(g)
    if s is not None and depends(s, seed):
        ctx.ok("trial", "test point generator")
    elif s is not None:
        ctx.fail("trial", "test point generator", pts.where(), "test points are drawn with seed %s, not the experiment's seed" % t.show(s)[:80])
    elif g is not None and simple(g):
        ctx.fail("trial", "test point generator", pts.where(), "test points are drawn from %s, which is shared with other draws" % t.show(g)[:120])
    else:
        ctx.skip("trial", "test point generator", "not resolved")
    # the global generator
    good = [e for e in seeds if e.seq < pts.seq and e.args and depends(e.args[0], seed)]
    if not seeds:
        if not [e for e in tr.effects if str(e.name).startswith("numpy.random.") and str(e.name) not in RNG]:
            ctx.fail("trial", "global seed", pts.where(), "the global generator, which test points and models draw from, is never seeded in the trial")
        else:
            ctx.skip("trial", "global seed", "no recognisable seeding")
    elif not [e for e in seeds if e.args and depends(e.args[0], seed)]:
        ctx.fail("trial", "global seed", seeds[0].where(), "the global generator is seeded with %s, not the experiment's seed" % t.show(seeds[0].args[0])[:80])
    elif not good:
        ctx.fail("trial", "global seed", seeds[0].where(), "the test points are generated before the global generator is seeded")
    else:
        gs = good[-1]
        extra = [c for c in t.conjuncts(gs.guard) if c not in t.conjuncts(pts.guard)]
        if extra:
            ctx.fail("trial", "global seed", gs.where(), "the global generator is seeded only if " + t.show(extra[0])[:100])
        else:
            ctx.ok("trial", "global seed")
        # nothing that depends on history or on the strategy draws between seeding and the test points
        loads = [e for e in tr.calls("by_name") if e.kind == "call"]
        late = [e for e in loads if e.seq > gs.seq and not any(f.seq < gs.seq for f in loads) and e.seq < pts.seq]
        if late and drawing_load(ctx):
            ctx.fail("trial", "loading", late[0].where(), "the data set is loaded (cached, and drawing random numbers) between seeding and the test points")
        else:
            ctx.ok("trial", "loading")
    if fit.seq < pts.seq:
        if [e for e in seeds if fit.seq < e.seq < pts.seq and e.args and depends(e.args[0], seed)]:
            ctx.ok("trial", "points before fit")
        else:
            ctx.fail("trial", "points before fit", pts.where(), "test points are drawn after fitting, so they depend on what the modelling strategy drew")
    else:
        materialised(ctx, pts, fit)


def drawing_load(ctx):
    """loading a data set is cached per process and draws from the global generator"""
    from ..flow import Interp
    from .. import law
    f = law.SpecFile(ctx.prog, "entry").module.functions["load"]
    a = law.argvars(Interp(ctx.prog), f)
    ip, v, _ = law.evaluate(ctx.prog, f, {}, a)
    cached = False
    for q in ip.visited:
        g = ctx.prog.lookup_repo(q)
        if g is not None and any("cache" in d for d in getattr(g, "decorators", [])):
            cached = True
    return cached and any(e.kind == "call" and str(e.name).startswith("numpy.random.") for e in ip.effects)


def materialised(ctx, pts, fit):
    """the lazily drawn test points are taken before the fit"""
    fn = pts.func.node if hasattr(pts.func, "node") else None
    if fn is None:
        ctx.skip("trial", "points before fit", "call site not visible")
        return
    par = parents(fn)
    up = par.get(pts.node)
    if isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id in ("list", "tuple", "sorted") or isinstance(up, ast.Starred) or isinstance(up, ast.comprehension) and not isinstance(par.get(up), ast.GeneratorExp) or isinstance(up, ast.For):
        ctx.ok("trial", "points before fit")
        return
    lazy = any(f.is_generator for c in ctx.prog.all_classes for k, f in c.methods.items() if k == "test_points")
    if not lazy:
        ctx.ok("trial", "points before fit")
        return
    if isinstance(up, ast.Assign) and isinstance(up.targets[0], ast.Name) and fit.func is pts.func:
        nm = up.targets[0].id
        uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load)]
        first = min((n.lineno for n in uses), default=None)
        if first is not None and first > fit.node.lineno and not any(x.lineno <= fit.node.lineno for x in uses):
            ctx.fail("trial", "points before fit", pts.where(), "the test points are drawn lazily, after the model is fitted, so they depend on what the modelling strategy drew")
            return
        ctx.ok("trial", "points before fit")
        return
    ctx.skip("trial", "points before fit", "where the points are drawn is not resolved")


def simple(x):
    while x.op in ("attr", "item"):
        x = x.args[0]
    return x.op in ("var", "global", "ext") or x.op == "call" and x.args[0] in RNG


def depends(x, seed):
    return t.occurs(seed, x)


def field(x, name):
    if x is None:
        return None
    if x.op == "new":
        return dict(x.args[1]).get(name)
    if x.op == "with":
        for k, v in (x.args[1] if isinstance(x.args[1], tuple) else ()):
            if k == name:
                return v
        return field(x.args[0], name)
    return mk("attr", x, name)


def generation(ctx):
    q = "data_generators.synthetic_data_design_generator.SyntheticDataDesignGenerator"
    cls = ctx.prog.cls(q)
    init = cls.find("__init__")
    from ..flow import Interp
    from .. import law
    sf = law.SpecFile(ctx.prog, "entry")
    f = sf.module.functions["synth"]
    t.reset_vars()
    a = law.argvars(Interp(ctx.prog), f)
    ip, v, facts = law.evaluate(ctx.prog, f, {"stop": ["data_generators.data_design.DataDesign.__init__", "data_generators.data_design.DataDesign.add", "data_generators.publisher_data.PublisherData.generate_publisher_data"]}, a)
    ctx.see(ip.visited)
    seed = a["seed"]
    gs = [e for e in ip.effects if e.kind == "call" and str(e.name) == "numpy.random.seed"]
    if gs and not depends(gs[0].args[0] if gs[0].args else dict(gs[0].kw).get("seed"), seed):
        ctx.fail("generation", "global seed", gs[0].where(), "seeds the global generator with %s" % t.show(gs[0].args[0])[:80])
    elif gs:
        ctx.ok("generation", "global seed")
    else:
        ctx.fail("generation", "global seed", ctx.where(init), "the global generator is not seeded when a data design is generated")
    # generators handed over
    n = 0
    for e in ip.effects:
        if e.kind not in ("call", "unknown", "mutate"):
            continue
        given = []
        kw = dict(e.kw)
        if "random_generator" in kw:
            given.append(kw["random_generator"])
        if "**" in kw:
            given += pairs(kw["**"], t.const("random_generator"))
        for g in given:
            n += 1
            s = seed_of(g)
            if s is not None and depends(s, seed):
                ctx.ok("generation", "%s %s" % (str(e.name)[-40:], e.node.lineno))
            elif s is not None:
                ctx.fail("generation", "handed generator", e.where(), "hands over a generator seeded with %s" % t.show(s)[:80])
            elif simple(g):
                ctx.fail("generation", "handed generator", e.where(), "hands over %s instead of the generator made from the seed" % t.show(g)[:100])
            else:
                ctx.skip("generation", "handed generator", t.show(g)[:150])
    des = [e for e in ip.effects if str(e.name) == "generate_data_design_config"]
    for e in des:
        g = e.args[0] if e.args else dict(e.kw).get("random_generator")
        s = seed_of(g)
        if s is not None and depends(s, seed):
            ctx.ok("generation", "design config")
        elif g is not None and (s is not None or simple(g)):
            ctx.fail("generation", "design config", e.where(), "the design is generated with %s" % t.show(g)[:100])
    if n == 0:
        ctx.skip("generation", "handed generator", "no resolved hand-over")


def pairs(x, key):
    """values stored under a constant key anywhere in a dictionary term"""
    out, seen, st = [], set(), [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "dict":
            out += [v for k, v in y.args[0] if k is key]
        if y.op == "seq" and len(y.args) == 2 and y.args[0] is key:
            out.append(y.args[1])
        if y.op in ("dict", "dmerge", "dput", "ite", "seq", "concat", "copy", "deepcopy", "upd"):
            st.extend(t.children(y))
    return out

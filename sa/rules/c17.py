"""C17: every execution mode evaluates the same trials the same way, and the driver passes everything through."""
from .. import diff, law, terms as t
from ..flow import Interp
from ..terms import TRUE, mk
from .trial import kwarg

EVAL = "driver.experimental_trial.ExperimentalTrial.evaluate"
GEN = "driver.experiment.Experiment.generate_trials"
DES = "driver.experimental_design.ExperimentalDesign"
DRV = "driver.experiment_driver.ExperimentDriver"
DD = "data_generators.data_design.DataDesign"
# DataFrame methods that change which rows there are, and ones that do not
DROPS = {"drop_duplicates", "dropna", "head", "tail", "sample", "query", "drop", "filter", "nlargest", "nsmallest", "truncate", "groupby", "explode"}
KEEPS = {"reset_index", "copy", "sort_values", "sort_index", "reindex", "infer_objects", "convert_dtypes"}
OPTIONS = {"data_design_dir": "--data_design_dir", "experimental_design": "--experimental_design", "output_file": "--output_file",
           "intermediate_dir": "--intermediates_dir", "random_seed": "--seed", "cores": "--cores", "analysis_type": "--analysis_type"}


def undup(x):
    """without the condition that drops a trial whose name was seen already (that condition is C12's subject)"""
    def f(y):
        if y.op == "gen" and y.args[2] is not TRUE:
            cs = [c for c in t.conjuncts(y.args[2]) if not (c.op == "not" and c.args[0].op == "in")]
            if len(cs) != len(t.conjuncts(y.args[2])):
                l = t.fresh_lv()
                fl, e = t.open_gen(y, l)
                keep = [c for c in t.conjuncts(fl) if not (c.op == "not" and c.args[0].op == "in")]
                return t.mk_gen(l, y.args[1], t.and_(keep) if keep else TRUE, e)
        return y
    return t.rewrite(x, f)


def compare(ctx, rule, subject, where, got, want, what):
    if got is None:
        ctx.skip(rule, subject, "not found")
        return
    st, ms = diff.verdict(got, want)
    if st == "equal":
        ctx.ok(rule, subject)
    elif st == "differs":
        ctx.fail(rule, subject, where, "%s: %s" % (what, " | ".join("%s instead of %s" % (t.show(m.a)[:160], t.show(m.b)[:160]) for m in ms[:2])))
    else:
        ctx.skip(rule, subject, "; ".join(repr(m)[:200] for m in ms[:2]))


def run(ctx):
    prog = ctx.prog
    sf = law.SpecFile(prog, "c17")
    ctx.rule("modes", "for every number of workers load() returns the concatenation of evaluate(seed, filesystem) over every trial of every experiment of every data set; every evaluation in a worker pool gets the same seed and filesystem")
    ctx.rule("distributed", "the pipeline is created from all trials, evaluates each with the seed and filesystem, combines globally and writes to the file that is read back")
    ctx.rule("driver", "the driver hands its directories, seed, cores, analysis type and filesystem to the design, the design file's generator gets the seed, and the table returned by load() is the one written and returned")
    ctx.rule("command line", "each constructor argument of the driver is the option of that name")

    def ev(name, stop, a=None):
        f = sf.module.functions[name]
        if a is None:
            t.reset_vars()
            a = law.argvars(Interp(prog), f)
        ip, v, _ = law.evaluate(prog, f, {"stop": list(stop)}, dict(a))
        ctx.see(e.name for e in ip.effects if e.kind == "inline")
        return ip, v, a

    stop = [EVAL, GEN]
    ip, v, a = ev("load", stop)
    _, want, _ = ev("frames", stop, a)
    _, trials, _ = ev("trials", stop, a)
    modes(ctx, ip, v, a, want)
    beam(ctx, ip, v, a, trials)
    driver(ctx, ev)
    command(ctx, ev)
    _, v, _ = ev("combined__code", [])
    s, done = rows(v)
    if [d for d in done if d in DROPS]:
        ctx.fail("distributed", "combine", "src/driver/experimental_design.py", "rows are removed by %s when the frames are combined" % done[0])
    elif s is not None:
        ctx.ok("distributed", "combine")


def rows(v):
    """the stream of frames a table is made of, and what is done to it"""
    done = []
    while v.op == "mcall":
        done.append(v.args[1])
        v = v.args[0]
    if v.op == "ext" and v.args[0] == "pandas.concat" and v.args[1]:
        return v.args[1][0], done
    if v.op in ("call", "ecall") and v.args[0] == "pandas.concat":
        return v.args[1][0], done
    return None, done


def modes(ctx, ip, v, a, want):
    beamc = t.truth(a["use_beam"])
    serial = t.assume(v, beamc, False)
    wh = next((e.where() for e in ip.effects if e.kind == "call" and e.name == "pandas.concat"), "src/driver/experimental_design.py")
    parts = cases(serial)
    for i, (cond, p) in enumerate(parts):
        s, done = rows(p)
        bad = [d for d in done if d in DROPS]
        if bad:
            ctx.fail("modes", "rows", wh, "rows are removed by %s" % bad[0])
            continue
        if s is None or [d for d in done if d not in KEEPS]:
            ctx.skip("modes", "table %d" % i, "not recognised as a concatenation of frames: %s" % t.show(p)[:160])
            continue
        compare(ctx, "modes", "table" if len(parts) == 1 else "table when %s" % t.show(cond)[:60], wh, undup(s), undup(want), "the frames combined are not those of every trial")
    evs = [e for e in ip.effects if e.kind == "call" and (e.name == EVAL or e.name == "evaluate")]
    for i, e in enumerate(evs):
        for k, j, w in (("seed", 0, a["seed"]), ("filesystem", 1, a["fs"])):
            got = kwarg(e, k, j if e.name == "evaluate" else None)
            if got is None and e.name == "evaluate" and k == "filesystem":
                ctx.fail("modes", "filesystem of evaluation %d" % i, e.where(), "a trial is evaluated without the experiment's filesystem")
                continue
            compare(ctx, "modes", "%s of evaluation %d" % (k, i), e.where(), got, w, "the %s a trial is evaluated with" % k)
    if not evs:
        ctx.skip("modes", "evaluate", "no evaluation found")


def cases(x, cond=TRUE):
    if x.op == "ite":
        return cases(x.args[1], t.and_([cond, x.args[0]])) + cases(x.args[2], t.and_([cond, t.not_(x.args[0])]))
    return [(cond, x)]


def beam(ctx, ip, v, a, trials):
    R = "distributed"
    es = {}
    for e in ip.effects:
        if e.kind == "call" and str(e.name).startswith("apache_beam."):
            es.setdefault(e.name.split(".")[-1], []).append(e)
    cr, pd_, cg = es.get("Create", []), es.get("ParDo", []), es.get("CombineGlobally", [])
    if len(cr) != 1 or len(pd_) != 1 or len(cg) != 1:
        ctx.skip(R, "pipeline", "not one Create, one ParDo and one CombineGlobally")
        return
    compare(ctx, R, "trials", cr[0].where(), undup(cr[0].args[0]) if cr[0].args else None, undup(trials), "the pipeline is not created from every trial")
    p = pd_[0]
    for k, i, w in (("seed", 1, a["seed"]), ("filesystem", 2, a["fs"])):
        got = p.args[i] if len(p.args) > i else dict(p.kw).get(k)
        compare(ctx, R, k, p.where(), got, w, "the %s trials are evaluated with" % k)
    # result file: what is written is what is read
    wr = [(y, e) for e in es.get("Map", []) for x in e.args for y in t.subterms(x) if y.op == "rcall" and y.args[0].endswith(".write_text")]
    val = t.assume(v, t.truth(a["use_beam"]), True)
    rd = [y for y in t.subterms(val) if y.op == "rcall" and (y.args[0].endswith(".open") or y.args[0].endswith(".read_text"))]
    if len(wr) != 1 or len(rd) != 1:
        ctx.skip(R, "result file", "not one file written and read")
        return
    w, r = dict(wr[0][0].args[1]), dict(rd[0].args[1])
    for k in ("self", "path"):
        if k in w and k in r:
            compare(ctx, R, "result file: %s" % k, wr[0][1].where(), w[k], r[k], "the combined table is written elsewhere than it is read")
    data = w.get("data")
    if data is not None:
        ms = [y for y in t.subterms(data) if y.op == "mcall"]
        bad = [y.args[1] for y in ms if y.args[1] in DROPS]
        if bad:
            ctx.fail(R, "result file: rows", wr[0][1].where(), "rows are removed by %s before the table is written" % bad[0])
        elif data.op == "mcall" and data.args[1] == "to_csv":
            ctx.ok(R, "result file: rows")
    s, done = [], []
    x = val
    while x.op == "mcall":
        done.append(x.args[1])
        x = x.args[0]
    if [d for d in done if d in DROPS]:
        ctx.fail(R, "rows", wr[0][1].where(), "rows are removed by %s" % [d for d in done if d in DROPS][0])
    elif x.op in ("call", "ecall", "ext") and x.args[0] == "pandas.read_csv" and not done:
        ctx.ok(R, "rows")


def news(ip, qual):
    return [e for e in ip.effects if e.kind == "new" and e.name == qual]


def table(ctx, rule, subject, where, got, want, what):
    """the table got is the table want, up to the order of its rows"""
    x, done = got, []
    while x is not None and x.op == "mcall" and x is not want:
        done.append(x.args[1])
        x = x.args[0]
    bad = [d for d in done if d in DROPS]
    if x is want and bad:
        ctx.fail(rule, subject, where, "%s: rows are removed by %s" % (what, bad[0]))
    elif x is want and all(d in KEEPS for d in done):
        ctx.ok(rule, subject)
    else:
        compare(ctx, rule, subject, where, got, want, what)


def driver(ctx, ev):
    R = "driver"
    ip, v, a = ev("drive", [DES + ".load", DES + ".generate_trials"])
    ds = news(ip, DES)
    if len(ds) != 1:
        ctx.skip(R, "design", "not one experimental design")
        return
    d, kw = ds[0], dict(ds[0].kw)
    for k, w in (("experiment_dir", a["inter"]), ("seed", a["seed"]), ("cores", a["cores"]), ("analysis_type", a["kind"]), ("filesystem", a["fs"])):
        compare(ctx, R, k, d.where(), kw.get(k), w, "the %s of the design" % k)
    dd = news(ip, DD)
    if len(dd) == 1:
        k2 = dict(dd[0].kw)
        compare(ctx, R, "data directory", dd[0].where(), k2.get("dirpath"), a["data_dir"], "the directory of the data design")
        compare(ctx, R, "data filesystem", dd[0].where(), k2.get("filesystem"), a["fs"], "the filesystem of the data design")
    else:
        ctx.skip(R, "data design", "not one data design")
    g = [e for e in ip.effects if e.kind == "call" and e.name == "generate_experimental_design_config"]
    sp = [e for e in ip.effects if e.kind == "call" and e.name == "importlib.util.spec_from_file_location"]
    if len(g) == 1:
        if not g[0].args and not g[0].kw:
            ctx.fail(R, "design seed", g[0].where(), "the design file's generator is not given the seed")
        compare(ctx, R, "design seed", g[0].where(), kwarg(g[0], "seed", 0), a["seed"], "the seed given to the design file")
        compare(ctx, R, "descriptors", d.where(), kw.get("trial_descriptors"), g[0].value, "the trial descriptors of the design")
    else:
        ctx.skip(R, "descriptors", "not one call of the design file's generator")
    if len(sp) == 1:
        compare(ctx, R, "design file", sp[0].where(), kwarg(sp[0], "location", 1), a["design"], "the design file")
    ld = [e for e in ip.effects if e.kind == "call" and e.name == DES + ".load"]
    if len(ld) != 1:
        ctx.skip(R, "load", "not one load")
        return
    compare(ctx, R, "mode", ld[0].where(), kwarg(ld[0], "use_apache_beam", None), a["use_beam"], "the execution mode")
    compare(ctx, R, "pipeline options", ld[0].where(), kwarg(ld[0], "pipeline_options", None), a["options"], "the pipeline options")
    table(ctx, R, "returned", ld[0].where(), v, ld[0].value, "the table returned")
    wr = [e for e in ip.effects if e.kind == "call" and str(e.name).endswith(".write_text")]
    if len(wr) != 1:
        ctx.fail(R, "written", ld[0].where(), "the table is never written") if not wr else ctx.skip(R, "written", "several files are written")
        return
    w = wr[0]
    compare(ctx, R, "output file", w.where(), kwarg(w, "path", None), a["out"], "the file written")
    compare(ctx, R, "output filesystem", w.where(), kwarg(w, "self", None), a["fs"], "the filesystem written to")
    data = kwarg(w, "data", None)
    if data is not None and data.op == "mcall" and data.args[1] == "to_csv":
        table(ctx, R, "written", w.where(), data.args[0], ld[0].value, "the table written")
        o = dict(data.args[3])
        c = [k for k in ("columns", "header") if k in o]
        if c:
            ctx.fail(R, "written", w.where(), "the file written omits part of the table (%s)" % c[0])
    else:
        ctx.skip(R, "written", "not recognised as the text of the table")
    if w.guard is not TRUE:
        ctx.fail(R, "always written", w.where(), "the table is written only when %s" % t.show(w.guard)[:160])
    else:
        ctx.ok(R, "always written")


def command(ctx, ev):
    R = "command line"
    ip, v, a = ev("command", [DRV + ".execute"])
    dest = {}
    for e in ip.effects:
        if e.kind == "call" and e.name == "add_argument" and e.args:
            o = t.strval(e.args[0])
            d = t.strval(dict(e.kw).get("dest", t.NONE)) or (o or "").lstrip("-").replace("-", "_")
            dest[d] = (o, e)
    dr = news(ip, DRV)
    ex = [e for e in ip.effects if e.kind == "call" and e.name == DRV + ".execute"]
    if len(dr) != 1 or len(ex) != 1:
        ctx.skip(R, "driver", "not one driver executed once")
        return
    todo = [(k, dict(dr[0].kw).get(k), o, dr[0]) for k, o in OPTIONS.items()] + [("use_apache_beam", kwarg(ex[0], "use_apache_beam", None), "--use_apache_beam", ex[0])]
    for k, x, o, e in todo:
        if x is None or x.op != "attr" or x.args[1] not in dest:
            st = "constant" if x is not None and x.op in ("num", "const") else None
            if st:
                ctx.fail(R, k, e.where(), "%s is %s whatever the command line says" % (k, t.show(x)))
            else:
                ctx.skip(R, k, "not read from the parsed options")
        elif dest[x.args[1]][0] != o:
            ctx.fail(R, k, e.where(), "%s is taken from %s instead of %s" % (k, dest[x.args[1]][0], o))
        else:
            ctx.ok(R, k)
    for k in ("--seed", "--cores"):
        for d, (o, e) in dest.items():
            if o == k:
                ty = dict(e.kw).get("type")
                if ty is None:
                    ctx.fail(R, "type of " + k, e.where(), "%s is read as text" % k)
                else:
                    ctx.ok(R, "type of " + k)

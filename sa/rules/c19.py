"""C19: all experiment input and output goes through the chosen filesystem."""
import ast
from .. import law, terms as t
from ..astutil import Scoped, is_param
from ..flow import Interp
from ..program import Class, Func
from ..terms import TRUE, FALSE, NONE, mk
from ..types import Types

BASE = "filesystem_wrappers.filesystem_wrapper_base.FilesystemWrapperBase"
WRAP = {"filesystem_wrappers.filesystem_pathlib_wrapper.FilesystemPathlibWrapper": ("pathlib.Path",),
        "filesystem_wrappers.filesystem_cloudpath_wrapper.FilesystemCloudpathWrapper": ("cloudpathlib.CloudPath", "cloudpathlib.GSPath", "cloudpathlib.AnyPath")}
DIRECT = ("open", "io.open", "codecs.open", "os.listdir", "os.scandir", "os.walk", "os.mkdir", "os.makedirs", "os.remove", "os.unlink", "os.rename", "os.replace", "os.rmdir", "os.removedirs", "os.open",
          "os.stat", "os.truncate", "os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.getsize", "os.path.getmtime", "os.access", "os.link", "os.symlink",
          "numpy.save", "numpy.savez", "numpy.savetxt", "numpy.load", "numpy.loadtxt", "numpy.genfromtxt", "numpy.fromfile", "pandas.read_pickle", "pandas.read_parquet", "pandas.read_json", "pandas.read_excel", "pandas.read_hdf")
DIRECT_PREFIX = ("shutil.", "tempfile.", "glob.", "pathlib.", "cloudpathlib.", "google.cloud.storage", "fileinput.")
WRITERS = ("to_csv", "to_pickle", "to_json", "to_parquet", "to_excel", "to_hdf", "tofile", "to_feather")
PATHMETHODS = ("write_text", "write_bytes", "read_text", "read_bytes", "unlink", "mkdir", "rmdir", "touch", "iterdir", "rglob")


def run(ctx):
    ctx.rule("only wrappers", "outside filesystem_wrappers no call of open, os, os.path queries, shutil, glob, pathlib, cloudpathlib, numpy/pandas file functions, and no to_csv/read_csv on a path")
    ctx.rule("handed down", "wherever a function that has a filesystem calls a framework function that takes one, it passes its own filesystem; a class that is given a filesystem keeps that one")
    ctx.rule("parity", "both filesystem classes define every operation of the interface with its parameters and defaults")
    ctx.rule("operation", "open, write_text, mkdir and unlink act on exactly the path given, with the data and options given")
    for m in ctx.prog.repo_modules():
        if m.name.startswith("filesystem_wrappers"):
            continue
        Direct(ctx, m).visit(m.tree)
    ty = Types(ctx.prog)
    n = 0
    for m in ctx.prog.repo_modules():
        if m.name.startswith("filesystem_wrappers"):
            continue
        v = Handed(ctx, m, ty)
        v.visit(m.tree)
        n += v.n
    if n == 0:
        ctx.skip("handed down", "sites", "no call site with a filesystem parameter found")
    parity(ctx)
    operations(ctx)


class Direct(Scoped):
    def __init__(self, ctx, m):
        super().__init__(ctx.prog, m)
        self.ctx = ctx

    def enter(self, n):
        self.ctx.see([self.qual()])
        self.ctx.ok("only wrappers", self.qual())

    def visit_Call(self, n):
        self.generic_visit(n)
        r = self.resolve(n.func)
        src = ast.unparse(n)[:70]
        sub = "%s:%s" % (self.qual(), ast.unparse(n.func)[:40])
        if isinstance(r, str):
            if r in DIRECT or r.startswith(DIRECT_PREFIX):
                self.ctx.fail("only wrappers", sub, self.where(n), "direct file access, bypassing the filesystem: " + src)
                return
            if r == "pandas.read_csv" and n.args:
                a = n.args[0]
                if self.pathlike(a):
                    self.ctx.fail("only wrappers", sub, self.where(n), "reads a path directly, bypassing the filesystem: " + src)
                    return
        if isinstance(n.func, ast.Attribute) and n.func.attr in WRITERS:
            a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg in ("path_or_buf", "path", "fname")), None)
            if a is not None and not (isinstance(a, ast.Constant) and a.value is None) and not self.handle(a):
                self.ctx.fail("only wrappers", sub, self.where(n), "writes a path directly, bypassing the filesystem: " + src)

    def handle(self, a):
        """the argument is an opened file or an in-memory buffer"""
        if isinstance(a, ast.Name):
            for f in self.stack:
                for x in ast.walk(f):
                    if isinstance(x, ast.withitem) and isinstance(x.optional_vars, ast.Name) and x.optional_vars.id == a.id:
                        return True
                    if isinstance(x, ast.Assign) and any(isinstance(q, ast.Name) and q.id == a.id for q in x.targets) and isinstance(x.value, ast.Call) and ("open" in ast.unparse(x.value.func) or "StringIO" in ast.unparse(x.value.func)):
                        return True
                if is_param(f, a.id):
                    an = [p.annotation for p in f.args.args + f.args.kwonlyargs if p.arg == a.id][0]
                    return not (an is not None and "str" in ast.unparse(an)) and "path" not in a.id and "name" not in a.id and "dir" not in a.id
        return isinstance(a, ast.Call) and ("open" in ast.unparse(a.func) or "StringIO" in ast.unparse(a.func) or "BytesIO" in ast.unparse(a.func))

    def pathlike(self, a):
        if isinstance(a, (ast.JoinedStr, ast.BinOp)) or isinstance(a, ast.Constant) and isinstance(a.value, str):
            return True
        if self.handle(a):
            return False
        return isinstance(a, ast.Name) and any(w in a.id.lower() for w in ("path", "dir", "filename", "name")) or isinstance(a, ast.Attribute) and any(w in a.attr.lower() for w in ("path", "dir", "output_file", "filename"))


class Handed(Scoped):
    def __init__(self, ctx, m, ty):
        super().__init__(ctx.prog, m)
        self.ctx, self.ty = ctx, ty
        self.base = ctx.prog.cls(BASE)
        self.n = 0
        self.by_method = {}
        for c in ctx.prog.all_classes:
            if c.is_sub(self.base):
                continue
            for k, f in c.methods.items():
                if self.fs_param(f):
                    self.by_method.setdefault(k, []).append(f)

    def is_fs(self, m, ann):
        if ann is None:
            return False
        t_ = self.ty.ann(m, ann)
        return bool(t_ and t_[0] == "inst" and t_[1].is_sub(self.base))

    def fs_param(self, f):
        """(name, position without self) of the filesystem parameter"""
        a = f.node.args
        pos = a.posonlyargs + a.args
        for i, p in enumerate(pos + a.kwonlyargs):
            if self.is_fs(f.module, p.annotation) or p.arg in ("filesystem", "fs") and p.annotation is None:
                k = i - (1 if f.cls is not None and f.kind != "staticmethod" else 0)
                return p.arg, (k if i < len(pos) else None)
        return None

    def curcls(self):
        return self.m.classes.get(self.cls[-1].name) if len(self.cls) == 1 else None

    def available(self):
        """expressions naming the filesystem of the enclosing function"""
        out = []
        for f in self.stack:
            if not hasattr(f, "args"):
                continue
            for p in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
                if self.is_fs(self.m, p.annotation) or p.arg in ("filesystem",) and p.annotation is None:
                    out.append(p.arg)
        c = self.curcls()
        if c is not None and self.stack:
            me = self.stack[0].args.args[0].arg if getattr(self.stack[0], "args", None) and self.stack[0].args.args else None
            init = c.find("__init__")
            if init is not None and self.fs_param(init) and me:
                pn = self.fs_param(init)[0]
                for x in ast.walk(init.node):
                    if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == pn and isinstance(x.targets[0], ast.Attribute):
                        out.append("%s.%s" % (me, x.targets[0].attr))
        for f in self.stack:
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and ast.unparse(x.value) in out:
                    out.append(x.targets[0].id)
        return out

    def visit_FunctionDef(self, n):
        super().visit_FunctionDef(n)
        # a class given a filesystem keeps that one
        c = self.curcls()
        if c is not None and n.name == "__init__":
            f = c.methods.get("__init__")
            fp = self.fs_param(f) if f is not None and f.node is n else None
            if fp:
                keep = [x for x in ast.walk(n) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and any(isinstance(q, ast.Name) and q.id == fp[0] for q in ast.walk(x.value))]
                fresh = [x for x in ast.walk(n) if isinstance(x, (ast.Assign,)) and self.makes(x.value) and not any(isinstance(q, ast.Name) and q.id == fp[0] for q in ast.walk(x.value))]
                self.n += 1
                if fresh:
                    self.ctx.fail("handed down", c.qual, self.where(fresh[0]), "%s is given a filesystem but uses %s" % (c.qual, ast.unparse(fresh[0].value)[:60]))
                elif keep:
                    self.ctx.ok("handed down", c.qual)

    def makes(self, e):
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                r = self.resolve(x.func)
                if isinstance(r, Class) and r.is_sub(self.base):
                    return True
        return False

    def visit_Call(self, n):
        self.generic_visit(n)
        self.beam(n)
        f = None
        r = self.resolve(n.func)
        if isinstance(r, Class):
            f = r.find("__init__")
        elif isinstance(r, Func):
            f = r
        elif isinstance(n.func, ast.Attribute):
            c = self.by_method.get(n.func.attr, [])
            if c and all(self.fs_param(x) == self.fs_param(c[0]) for x in c):
                f = c[0]
            base = ast.unparse(n.func.value)
            if base in self.available() or base == "super()":
                return
        if f is None:
            return
        fp = self.fs_param(f)
        if not fp:
            return
        name, k = fp
        av = self.available()
        if not av:
            return
        self.n += 1
        sub = "%s:%s" % (self.qual(), ast.unparse(n.func)[:50])
        arg = next((w.value for w in n.keywords if w.arg == name), None)
        if arg is None and k is not None and k < len(n.args) and not any(isinstance(x, ast.Starred) for x in n.args):
            arg = n.args[k]
        if arg is None:
            if any(w.arg is None for w in n.keywords) or any(isinstance(x, ast.Starred) for x in n.args):
                self.ctx.skip("handed down", sub, "arguments not visible")
            else:
                self.ctx.fail("handed down", sub, self.where(n), "%s is called without the filesystem (%s), so it falls back to the local one" % (f.qual, " or ".join(av)))
            return
        txt = ast.unparse(arg)
        if txt in av:
            self.ctx.ok("handed down", sub)
        elif self.makes(arg):
            self.ctx.fail("handed down", sub, self.where(n), "%s is given %s instead of the chosen filesystem" % (f.qual, txt))
        elif isinstance(arg, ast.Constant):
            self.ctx.fail("handed down", sub, self.where(n), "%s is given %s instead of the chosen filesystem" % (f.qual, txt))
        else:
            self.ctx.skip("handed down", sub, "argument %s not resolved" % txt[:60])

    def beam(self, n):
        """beam.ParDo(DoFn(), extra...) passes the extras to process"""
        if ast.unparse(n.func).endswith("ParDo") and n.args and isinstance(n.args[0], ast.Call):
            r = self.resolve(n.args[0].func)
            if isinstance(r, Class) and r.find("process") is not None:
                f = r.find("process")
                fp = self.fs_param(f)
                if fp and fp[1] is not None:
                    k = fp[1]          # element is the first argument of process
                    self.n += 1
                    av = self.available()
                    sub = self.qual() + ":ParDo"
                    if k < len(n.args):
                        txt = ast.unparse(n.args[k])
                        if txt in av:
                            self.ctx.ok("handed down", sub)
                        else:
                            self.ctx.fail("handed down", sub, self.where(n), "the distributed trials are given %s as their filesystem" % txt)


def parity(ctx):
    base = ctx.prog.cls(BASE)
    ops = {k: f for k, f in base.methods.items() if not k.startswith("_")}
    for q in WRAP:
        try:
            c = ctx.prog.cls(q)
        except Exception:
            ctx.fail("parity", q, q, "filesystem class is missing")
            continue
        for k, f in ops.items():
            g = c.methods.get(k) or c.find(k)
            sub = "%s.%s" % (c.name, k)
            where = ctx.where(g) if g is not None else ctx.where(f)
            if g is None or g is f and f.abstract:
                ctx.fail("parity", sub, where, "%s does not provide %s" % (c.name, k))
                continue
            a, b = sig(f), sig(g)
            if a[: len(b)] == b[: len(a)] and len(b) >= len(a) and all(x[1] is not None or x[0].startswith("*") for x in b[len(a):]):
                ctx.ok("parity", sub)
            else:
                ctx.fail("parity", sub, where, "parameters %s, the interface has %s" % (text(b), text(a)))
    names = [set(k for k in ctx.prog.cls(q).methods if not k.startswith("_")) for q in WRAP]
    ctx.see([q for q in WRAP])


def sig(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = [None] * (len(pos) - len(a.defaults)) + [ast.unparse(x) for x in a.defaults]
    out = [(p.arg, x) for p, x in zip(pos, d)]
    if a.vararg:
        out.append(("*" + a.vararg.arg, None))
    out += [(p.arg, ast.unparse(x) if x is not None else None) for p, x in zip(a.kwonlyargs, a.kw_defaults)]
    if a.kwarg:
        out.append(("**" + a.kwarg.arg, None))
    return [(n if not n.startswith("*") else "*", v) for n, v in out[1:]]


def text(s):
    return "(" + ", ".join(n if v is None else "%s=%s" % (n, v) for n, v in s) + ")"


# name of the pathlib operation -> order of its parameters and defaults
PATHLIB = {"open": (("mode", "buffering", "encoding", "errors", "newline"), {"mode": t.const("r"), "buffering": t.const(-1), "encoding": NONE, "errors": NONE, "newline": NONE}),
           "write_text": (("data", "encoding", "errors", "newline"), {"encoding": NONE, "errors": NONE, "newline": NONE}),
           "mkdir": (("mode", "parents", "exist_ok"), {"mode": t.const(0o777), "parents": FALSE, "exist_ok": FALSE}),
           "unlink": (("missing_ok",), {"missing_ok": FALSE})}


def operations(ctx):
    sf = law.SpecFile(ctx.prog, "fsops")
    for short, q in (("local", list(WRAP)[0]), ("cloud", list(WRAP)[1])):
        for op in ("open", "write_text", "mkdir", "unlink"):
            f = sf.module.functions["%s_%s" % (short, op)]
            t.reset_vars()
            a = law.argvars(Interp(ctx.prog), f)
            ip, v, facts = law.evaluate(ctx.prog, f, {}, a)
            ctx.see(ip.visited)
            sub = "%s.%s" % (short, op)
            if short == "cloud" and op == "mkdir":
                continue
            makes = WRAP[q]
            acts = [e for e in ip.effects if e.kind in ("call", "unknown") and e.base is not None and e.name in PATHLIB]
            other = [e for e in ip.effects if e.kind in ("call", "unknown") and e.base is not None and e.name not in PATHLIB and e.name not in ("exists", "is_file")]
            fn = ctx.prog.cls(q).find(op)
            where = ctx.where(fn)
            want = {"open": "open", "write_text": "write_text", "mkdir": "mkdir", "unlink": "unlink"}[op]
            if other or not acts:
                if op == "write_text" and acts and acts[0].name == "open":
                    ctx.skip("operation", sub, "written through an opened file")
                elif not acts and not other:
                    ctx.fail("operation", sub, where, "%s does nothing" % op)
                else:
                    ctx.skip("operation", sub, "operation not resolved")
                continue
            bad = None
            for e in acts:
                if e.base.op != "call" or e.base.args[0] not in makes or len(e.base.args[1]) != 1:
                    bad = ("?", "acts on %s" % t.show(e.base)[:100]) if e.base.op != "call" or e.base.args[0] not in sum(WRAP.values(), ()) else ("!", "acts on %s" % t.show(e.base)[:100])
                elif e.base.args[1][0] is not a["p"]:
                    bad = ("!", "acts on %s, not on the path given" % t.show(e.base.args[1][0])[:100])
                elif e.name != want:
                    bad = ("?", "uses %s" % e.name)
                else:
                    order, dflt = PATHLIB[e.name]
                    got = dict(dflt)
                    got.update(zip(order, e.args))
                    got.update({k: x for k, x in e.kw})
                    exp = dict(dflt)
                    exp.update({k: a[k] for k in order if k in a})
                    if short == "cloud" and op == "unlink":
                        got = exp = {}
                    for k in exp:
                        if k == "newline" and op == "write_text":
                            continue
                        if got.get(k) is not exp[k]:
                            x = got.get(k)
                            if x is not None and (t.is_const(x) or x.op == "var"):
                                bad = ("!", "%s is %s instead of what the caller gave" % (k, t.show(x)[:60]))
                            elif x is None:
                                bad = ("!", "%s is not passed on" % k)
                            else:
                                bad = ("?", "%s is %s" % (k, t.show(x)[:60]))
                if bad:
                    break
            if bad is None and op != "unlink" and any(e.guard is not TRUE for e in acts) and len(acts) == 1:
                bad = ("!", "only if " + t.show(acts[0].guard)[:80])
            if bad is None and op == "open" and v is not acts[0].value:
                bad = ("?", "returned value not the opened file")
            if bad is None:
                ctx.ok("operation", sub)
            elif bad[0] == "!":
                ctx.fail("operation", sub, where, "%s %s" % (op, bad[1]))
            else:
                ctx.skip("operation", sub, bad[1])

"""Entry point:  python3 -m sa.check C05   (see DESIGN.md)."""
import importlib
import json
import os
import sys
import time

sys.setrecursionlimit(30000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

from .program import Program, AnalysisBroken
from . import law, terms as t


class Ctx:
    def __init__(self, prop, prog):
        self.prop, self.prog = prop, prog
        self.checked = []           # (rule, subject)
        self.undecided = []
        self.violations = []
        self.functions = set()
        self.rules = {}
        self.notes = []
        self.t0 = time.time()

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, subject):
        self.checked.append((rule, subject))

    def skip(self, rule, subject, why):
        self.undecided.append((rule, subject, why))

    def fail(self, rule, subject, where, msg):
        self.violations.append({"rule": rule, "subject": subject, "where": where, "message": msg})

    def see(self, quals):
        self.functions.update(q for q in quals if not q.startswith("$spec"))

    def where(self, func, node=None):
        return "%s:%s %s" % (func.module.relpath, getattr(node if node is not None else func.node, "lineno", "?"), func.qual)

    # ------------------------------------------------------------------ laws
    def laws(self, specname, only=None):
        sf = law.SpecFile(self.prog, specname)
        self.rule("law", "abstract value of the code equals the reference definition in sa/specs/%s.py (normal forms coincide)" % specname)
        for n in sf.laws():
            if only and n not in only:
                continue
            if time.time() - self.t0 > 600:
                self.skip("law", n, "time budget of the check used up")
                continue
            for o in law.check_law(self.prog, sf, n):
                self.see(o.visited)
                subj = "%s/%s" % (n, o.kind)
                if o.status == "equal":
                    self.ok("law", subj)
                elif o.status == "undecided":
                    self.skip("law", subj, o.why or "; ".join(repr(m)[:160] for m in o.ms[:3]))
                else:
                    f = sf.module.functions[n + "__code"]
                    wh = self.pick(o)
                    self.fail("law", subj, wh, "code differs from the reference definition: " + " | ".join(describe(m) for m in o.ms[:4]))

    def pick(self, o):
        """function of the repository that the law is about"""
        fs = []
        for q in o.visited:
            f = self.prog.lookup_repo(q)
            if f is not None and hasattr(f, "node"):
                fs.append("%s:%d %s" % (f.module.relpath, f.node.lineno, q))
        return "; ".join(sorted(fs)[:8]) or "?"


def describe(m):
    return "[%s] code: %s  expected: %s%s" % (m.kind, t.show(m.a)[:300], t.show(m.b)[:300], (" (" + m.note.strip() + ")") if m.note else "")


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                key, _, what = line[len("known: property=%s " % prop):].partition(" :: ")
                out.append((key.strip(), what.strip()))
    return out


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        prog = Program(REPO)
    except AnalysisBroken as e:
        print("ERROR: %s" % e)
        return 2
    ctx = Ctx(prop, prog)
    name = prop.lower()
    ran = False
    if os.path.exists(os.path.join(ROOT, "sa", "specs", name + ".py")):
        ctx.laws(name)
        ran = True
    if os.path.exists(os.path.join(ROOT, "sa", "rules", name + ".py")):
        mod = importlib.import_module("sa.rules." + name)
        try:
            mod.run(ctx)
        except Exception as e:      # an engine limit is an undecided obligation, never a verdict
            import traceback
            ctx.skip("engine", name, "%s: %s" % (type(e).__name__, traceback.format_exc()[-600:]))
        ran = True
    if not ran:
        print("ERROR: no rules for %s" % prop)
        return 2
    known = known_findings(prop)
    fresh, found = [], []
    for v in ctx.violations:
        k = [x for x in known if x[0] == "%s/%s" % (v["rule"], v["subject"])]
        (found if k else fresh).append((v, k))
    for v, k in found:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[0][1]))
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, prop + ".violation.txt")
    if os.path.exists(replay):
        os.remove(replay)
    perrule = {}
    for r, s in ctx.checked:
        perrule[r] = perrule.get(r, 0) + 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the source under %s/src: %s. Obligations are decided on abstract values/effects of the named functions for all inputs; undecided ones are listed, not counted as held." % (
                REPO, "; ".join("%s = %s" % kv for kv in sorted(ctx.rules.items()))),
            "modules_parsed": len([m for m in prog.modules if not m.startswith("$spec")]),
            "functions_analysed": sorted(ctx.functions),
            "functions_analysed_count": len(ctx.functions),
            "obligations_held": len(ctx.checked),
            "obligations_by_rule": perrule,
            "obligations_undecided": len(ctx.undecided),
            "undecided": [{"rule": r, "subject": s, "why": w[:400]} for r, s, w in ctx.undecided],
            "obligations": ["%s: %s" % x for x in ctx.checked][:400],
            "known_findings": [v["subject"] for v, _ in found],
            "source_digest": prog.digest.hexdigest(),
        },
        "violations": [v for v, _ in fresh],
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(evdir, prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if fresh:
        with open(replay, "w", encoding="utf-8") as f:
            for v, _ in fresh:
                f.write("rule: %(rule)s\nsubject: %(subject)s\nwhere: %(where)s\n%(message)s\n\n" % v)
            f.write("reproduce: cd %s && python3 -m sa.check %s\n" % (ROOT, prop))
        for v, _ in fresh:
            print("%s [%s] %s: %s" % (v["where"], v["rule"], v["subject"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    print("OK property=%s obligations=%d undecided=%d functions=%d" % (prop, len(ctx.checked), len(ctx.undecided), len(ctx.functions)))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))

"""Self-test of the checks on edited copies of the source (outside /repo and /verif).

python3 tools/variants.py [C15 ...]   V entries: (name, "C15 C14", "bug"|"same", [(file, old, new), ...])
A "bug" edit breaks the property and must be reported; a "same" edit keeps the behaviour and must not be.
A "miss" breaks it and is known to go unreported (a limit of the rules; recorded, not counted).
"""
import glob, os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def one(v):
    name, props, kind, edits = v
    d = tempfile.mkdtemp(prefix="var-")
    try:
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"), ignore=shutil.ignore_patterns("tests", "__pycache__"))
        for f, old, new in edits:
            p = os.path.join(d, "src", f)
            s = open(p).read()
            if s.count(old) < 1:
                return [(name, "?", "EDIT DOES NOT APPLY: " + old[:60])]
            s = s.replace(old, new)
            open(p, "w").write(s)
            try:
                compile(s, p, "exec")
            except SyntaxError as e:
                return [(name, "?", "SYNTAX %s" % e)]
        out = []
        if props == "*":
            import json
            props = " ".join(x["property"] for x in json.load(open(os.path.join(R, "MANIFEST.json")))["checks"])
        for c in props.split():
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d)
            r = subprocess.run([sys.executable, "-m", "sa.check", c], cwd=R, env=env, capture_output=True, text=True)
            last = (r.stdout.strip().splitlines() or [r.stderr[-200:]])
            good = (r.returncode == 1 and last[-1].startswith("VIOLATION")) if kind == "bug" else r.returncode == 0
            und = "" if "undecided=0" in last[-1] or kind == "bug" else " " + last[-1].split("obl")[-1]
            if not good or und or os.environ.get("VERBOSE"):
                out.append((name, c, ("" if good else ("MISSED " if kind == "bug" else "FALSE ALARM ")) + und + " | " + (last[-1] if good or kind == "bug" else last[0])[:int(os.environ.get("W", "300"))]))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    want = set(sys.argv[1:])
    V = []
    files = {a for a in want if a.endswith(".py")}
    want -= files
    for f in sorted(glob.glob(os.path.join(R, "tools", "variants", "*.py"))):
        if files and os.path.basename(f) not in files:
            continue
        V += runpy.run_path(f)["V"]
    if want:
        V2 = []
        for v in V:
            ps = [p for p in v[1].split() if p in want]
            if ps or v[0] in want:
                V2.append((v[0], " ".join(ps) or v[1], v[2], v[3]))
        V = V2
    if os.environ.get("ALLSAME"):
        V = [(n, "*" if k == "same" else p, k, e) for n, p, k, e in V]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for v, res in zip(V, ex.map(one, V)):
            for name, c, msg in res:
                bad += msg.startswith(("MISSED", "FALSE", "EDIT", "SYNTAX"))
                print("%s [%s] %s: %s" % (v[2], c, name, msg))
    print("%d variants, %d wrong" % (len(V), bad))


main()

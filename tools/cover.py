"""which lines of viscid no quick check reaches: cover.py [PID...]  (prints functions with unreached lines)"""
import ast, glob, json, os, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
pids = sys.argv[1:] or [c["property"] if "property" in c else c["id"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
d = tempfile.mkdtemp()
for p in pids:
    env = dict(os.environ, VMON_COV=d, VMON_EVID=os.path.join(d, "ev"))
    subprocess.run(["bash", ROOT + "/run.sh", p, "quick"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
seen = {}
for f in glob.glob(d + "/*.txt"):
    for l in open(f):
        a, b = l.rsplit(":", 1)
        seen.setdefault(a, set()).add(int(b))
tot = hit = 0
for base, _, files in sorted(os.walk(REPO + "/viscid")):
    for fn in sorted(files):
        if not fn.endswith(".py"):
            continue
        p = os.path.join(base, fn)
        rel = os.path.relpath(p, REPO + "/viscid")
        tree = ast.parse(open(p).read())
        got = seen.get(rel, set())
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef,)):
                st = set()
                inner = [n for n in ast.walk(node) if isinstance(n, ast.FunctionDef) and n is not node]
                skip = set(l for n in inner for l in range(n.lineno, n.end_lineno + 1))
                for n in ast.walk(node):
                    if isinstance(n, ast.stmt) and n is not node and n.lineno not in skip and not isinstance(n, (ast.FunctionDef, ast.Global)) \
                            and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                        st.add(n.lineno)
                miss = sorted(st - got)
                tot += len(st)
                hit += len(st) - len(miss)
                if miss:
                    print("%s %s %d/%d: %s" % (rel, node.name, len(miss), len(st), " ".join(map(str, miss[:25]))))
print("reached %d of %d statements" % (hit, tot))
for f in glob.glob(d + "/*.txt"):
    os.unlink(f)

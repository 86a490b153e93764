"""mutate.py FILE PID[,PID...] [--n N] [--seed S] [--lanes L] [--lines A-B] [--out OUT]

Makes small random changes to one python file in scratch copies of /repo and
runs the checks on each; prints the changes that no check noticed.  Nothing in
/repo or /verif is changed.
"""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile, threading, queue, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE = os.environ.get("MUT_BASE", "/repo")
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["*"], ast.Pow: ["*"],
       ast.BitAnd: ["|"], ast.BitOr: ["&"]}


def offsets(src):
    o = [0]
    for l in src.splitlines(True):
        o.append(o[-1] + len(l))
    return o


def mutants(src):
    tree = ast.parse(src)
    raw = src.encode()
    lines = raw.split(b"\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)

    def pos(n):
        return off[n.lineno - 1] + n.col_offset

    def end(n):
        return off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        return raw[pos(n):end(n)].decode()
    out = []

    def add(n, a, b, new, kind):
        out.append((n.lineno, a, b, new, kind))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                and n.func.value.id in ("logger", "warnings") or isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__main__" in ast.dump(n.test):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.FunctionDef) and (n.name in ("__repr__", "__str__", "_main", "main") or n.name.startswith("print")):
            for m in ast.walk(n):
                skip.add(m)
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            for m in ast.walk(f):
                infunc.add(m)
    for n in ast.walk(tree):
        if n in skip or n not in infunc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for r in CMP.get(type(n.ops[0]), []):
                add(n, pos(n), end(n), "(%s %s %s)" % (seg(n.left), r, seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                continue
            for r in BIN[type(n.op)]:
                add(n, pos(n), end(n), "(%s %s %s)" % (seg(n.left), r, seg(n.right)), "bin")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, pos(n), end(n), "(" + op.join("(%s)" % seg(v) for v in n.values) + ")", "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, pos(n), end(n), "bool(%s)" % seg(n.operand), "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            add(n, pos(n), end(n), "(%s)" % seg(n.operand), "neg")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            add(n, pos(n), end(n), "(%r)" % (n.value + 1), "const")
            if n.value == 1:
                add(n, pos(n), end(n), "0", "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, pos(n), end(n), str(not n.value), "flip")
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n, pos(n.test), end(n.test), "(True or %s)" % seg(n.test).replace("\n", " "), "iftrue")
            add(n, pos(n.test), end(n.test), "(False and %s)" % seg(n.test).replace("\n", " "), "iffalse")
        elif isinstance(n, ast.Expr) and n not in docs and isinstance(n.value, ast.Call):
            add(n, pos(n), end(n), "pass", "del")
        elif isinstance(n, ast.AugAssign):
            add(n, pos(n), end(n), "pass", "del")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, pos(n), end(n), "pass", "del")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and \
                any(isinstance(m, ast.Name) and m.id == n.targets[0].id for m in ast.walk(n.value)):
            add(n, pos(n), end(n), "pass", "del")
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, pos(n), end(n), "pass", "del")
    res = []
    seen = set()
    for ln, a, b, new, kind in out:
        t = raw[:a].decode() + new + raw[b:].decode()
        if t in seen or t == src:
            continue
        seen.add(t)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        old = raw[a:b].decode()
        res.append((ln, kind, old, new, t))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("pids")
    ap.add_argument("--n", type=int, default=60); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--lanes", type=int, default=4); ap.add_argument("--lines", default=None)
    ap.add_argument("--out", default=None); ap.add_argument("--exclude", default="")
    a = ap.parse_args()
    src = open(BASE + "/" + a.file).read()
    ms = mutants(src)
    if a.lines:
        rr = [tuple(map(int, r.split("-"))) for r in a.lines.split(",")]
        ms = [m for m in ms if any(x <= m[0] <= y for x, y in rr)]
    if a.exclude:
        rr = [tuple(map(int, r.split("-"))) for r in a.exclude.split(",")]
        ms = [m for m in ms if not any(x <= m[0] <= y for x, y in rr)]
    rnd = random.Random(a.seed)
    rnd.shuffle(ms)
    tot = len(ms)
    ms = ms[:a.n]
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    stat = {}
    out = open(a.out, "a") if a.out else sys.stdout

    def lane():
        d = tempfile.mkdtemp(prefix="mutl.", dir="/tmp")
        try:
            subprocess.check_call(["rsync", "-a", "--exclude=.git", BASE + "/", d + "/repo/"])
            while True:
                try:
                    ln, kind, old, new, text = q.get_nowait()
                except queue.Empty:
                    return
                with open(d + "/repo/" + a.file, "w") as f:
                    f.write(text)
                got = "SURVIVED"
                for pid in a.pids.split(","):
                    env = dict(os.environ, VERIF_REPO=d + "/repo", VMON_EVID=d + "/evid", VMON_FIRST="1",
                               VMON_WORKERS=str(max(2, 10 // a.lanes)))
                    try:
                        r = subprocess.run(["bash", ROOT + "/run.sh", pid, "quick"], env=env, stdout=subprocess.PIPE,
                                           stderr=subprocess.STDOUT, timeout=400)
                        if r.returncode != 0:
                            got = "%s rc%d" % (pid, r.returncode)
                            break
                    except subprocess.TimeoutExpired:
                        got = pid + " timeout"
                        break
                with lock:
                    k = got.split()[0]
                    stat[k] = stat.get(k, 0) + 1
                    if got == "SURVIVED":
                        out.write("%s:%d %s\n   - %s\n   + %s\n" % (a.file, ln, kind, old.replace("\n", " ")[:200], new.replace("\n", " ")[:200]))
                        out.flush()
        finally:
            shutil.rmtree(d)
    ts = [threading.Thread(target=lane) for _ in range(a.lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    out.write("# %s: %d of %d changes tried: %s\n" % (a.file, len(ms), tot, json.dumps(stat)))
    out.flush()


main()

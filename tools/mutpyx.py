"""mutpyx.py FILE PID[,PID...] [--n N] [--seed S] [--lanes L] [--out OUT]

As mutate.py, for a Cython source: changes single operators, constants and
statements found by their text.
"""
import argparse, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_BASE", "/repo")
OPS = [(r"<=", ["<", ">"]), (r">=", [">", "<"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"(?<![<=>!])<(?![<=>])", ["<=", ">"]), (r"(?<![<=>!\-])>(?![<=>])", [">=", "<"]),
       (r"(?<=[\w\])]) \+ (?=[\w(])", [" - "]), (r"(?<=[\w\])]) - (?=[\w(])", [" + "]),
       (r"(?<=[\w\])]) ?\* ?(?=[\w(])", [" / "]), (r"(?<=[\w\])]) / (?=[\w(])", [" * "]),
       (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["/="]),
       (r"\band\b", ["or"]), (r"\bor\b", ["and"]), (r"\bnot ", [""]),
       (r"\bTrue\b", ["False"]), (r"\bFalse\b", ["True"]),
       (r"(?<![\w.\]])\d+\.\d*(?![\w.])", None), (r"(?<![\w.\]])\d+(?![\w.])", None)]


def mutants(src):
    out = []
    lines = src.split("\n")
    doc = False
    depth = 0
    for i, l in enumerate(lines):
        s = l.strip()
        q = s.count('"""') + s.count("'''")
        if doc or q:
            if q % 2:
                doc = not doc
            continue
        code = l.split("#")[0].rstrip()
        cont = depth > 0
        depth += sum(code.count(c) for c in "([{") - sum(code.count(c) for c in ")]}")
        if not code.strip() or not l.startswith(" "):
            continue
        t = code.strip()
        if re.match(r"(cdef|cpdef|def|class|import|from|raise|print|assert|ctypedef|np\.|@)", t) and "=" not in t:
            continue
        if re.match(r"(cdef class|def |cpdef |raise|assert|import|from|logger)", t) or "logger" in t or "print" in t or "Error" in t:
            continue
        for rx, subs in OPS:
            for m in re.finditer(rx, code):
                ss = subs
                if ss is None:
                    if re.match(r"cdef .*\[", t) and "=" not in code[:m.start()]:
                        continue
                    v = m.group()
                    ss = [repr(float(v) * 1.5 + 0.5)] if "." in v else [str(int(v) + 1)] + (["0"] if int(v) == 1 else [])
                for r in ss:
                    out.append((i + 1, code.strip(), (code[:m.start()] + r + code[m.end():])))
        one = not cont and depth == 0 and not t.endswith(":")
        if one and not t.startswith(("cdef", "return", "with", "for", "if", "else", "pass", ")", "]")) and \
                (re.match(r"[\w.\[\], ]+ ?[-+*/]?= ", t) or re.match(r"[\w.]+\(.*\)$", t) or t in ("continue", "break")):
            out.append((i + 1, t, code[:len(code) - len(code.lstrip())] + "pass"))
    res = []
    for ln, old, new in out:
        ls = list(lines)
        ls[ln - 1] = new
        res.append((ln, old, new.strip(), "\n".join(ls)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("pids")
    ap.add_argument("--n", type=int, default=40); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--lanes", type=int, default=4); ap.add_argument("--out", default=None)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    ms = mutants(open(BASE + "/" + a.file).read())
    random.Random(a.seed).shuffle(ms)
    tot = len(ms)
    ms = ms[:a.n]
    if a.list:
        for m in ms:
            print(m[:3])
        return
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock, stat = threading.Lock(), {}
    out = open(a.out, "a") if a.out else sys.stdout

    def lane():
        d = tempfile.mkdtemp(prefix="mutl.", dir="/tmp")
        try:
            subprocess.check_call(["rsync", "-a", "--exclude=.git", BASE + "/", d + "/repo/"])
            while True:
                try:
                    ln, old, new, text = q.get_nowait()
                except queue.Empty:
                    return
                with open(d + "/repo/" + a.file, "w") as f:
                    f.write(text)
                got = "SURVIVED"
                for pid in a.pids.split(","):
                    env = dict(os.environ, VERIF_REPO=d + "/repo", VMON_EVID=d + "/evid", VMON_FIRST="1",
                               VMON_WORKERS=str(max(2, 10 // a.lanes)))
                    try:
                        r = subprocess.run(["bash", ROOT + "/run.sh", pid, "quick"], env=env, stdout=subprocess.PIPE,
                                           stderr=subprocess.STDOUT, timeout=500)
                        if r.returncode != 0:
                            got = "%s rc%d" % (pid, r.returncode)
                            if r.returncode != 1:
                                got = "nobuild" if b"uild" in r.stdout else "rc%d" % r.returncode
                            break
                    except subprocess.TimeoutExpired:
                        got = pid + " timeout"
                        break
                with lock:
                    k = got.split()[0]
                    stat[k] = stat.get(k, 0) + 1
                    if got == "SURVIVED" or got.startswith("rc"):
                        out.write("%s:%d %s\n   - %s\n   + %s\n" % (a.file, ln, got, old, new))
                        out.flush()
        finally:
            shutil.rmtree(d)
    ts = [threading.Thread(target=lane) for _ in range(a.lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    out.write("# %s: %d of %d changes tried: %s\n" % (a.file, len(ms), tot, json.dumps(stat)))
    out.flush()


main()

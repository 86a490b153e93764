"""make or validate planted bugs: seed.py make ID PROPERTY FILE OLD NEW NEEDS BREAKS < demo.py ; seed.py run ID..."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\n. /opt/vp/env.sh\nexec timeout 250 python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def make(sid, prop, parts, needs, breaks, demo):
    d = os.path.join(ROOT, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --short").stdout.strip()
    try:
        for fn, old, new in parts:
            p = "/repo/" + fn
            s = open(p).read()
            assert s.count(old) == 1, (fn, s.count(old), old)
            # only original lines may be changed
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.py", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    # lines removed must come from the base commit
    for fn, old, new in parts:
        bl = subprocess.run("git -C /repo blame -s " + fn, shell=True, stdout=subprocess.PIPE, text=True).stdout.splitlines()
        for hunk in [h for h in diff.split("\n@@")[1:]]:
            pass
    cur = None
    ln = 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
            bl = subprocess.run("git -C /repo blame -s " + cur, shell=True, stdout=subprocess.PIPE, text=True).stdout.splitlines()
        elif line.startswith("@@"):
            ln = int(line.split()[1][1:].split(",")[0])
        elif line.startswith("-"):
            if not bl[ln - 1].startswith("^"):
                print("NOT ORIGINAL:", bl[ln - 1])
            ln += 1
        elif line.startswith(" "):
            ln += 1


def run(sid, tests=True, checks=True):
    d = os.path.join(ROOT, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --short").stdout.strip()
    res = []
    res.append("clean demo %d" % sh("bash %s/demo.sh" % d, cwd="/repo").returncode)
    out = ""
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        assert r.returncode == 0, r.stdout
        b = sh("bash /opt/vp/build.sh")
        res.append("build %d" % b.returncode)
        if tests:
            t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            got = set(json.load(open("/tmp/seedtest.json"))["passed"]) if os.path.exists("/tmp/seedtest.json") else set()
            res.append("tests missing %s" % sorted(want - got))
        dm = sh("bash %s/demo.sh" % d, cwd="/repo")
        res.append("bug demo %d" % dm.returncode)
        if checks:
            c = sh("bash %s/run.sh %s quick" % (ROOT, prop))
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("check %d %s" % (c.returncode, v[:1]))
            out = [l for l in c.stdout.splitlines() if l.strip().startswith("[") or "seed=" in l][:3]
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    print(sid, prop, "|", "; ".join(res), flush=True)
    print("    demo:", dm.stdout.strip()[-200:].replace("\n", " / "))
    for l in out:
        print("   ", l[:200], flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "run":
        for s in sys.argv[2:]:
            if s.startswith("-"):
                continue
            run(s, tests="-notest" not in sys.argv)
    else:
        spec = {}
        exec(open(sys.argv[2]).read(), spec)
        for k in spec["BUGS"]:
            make(*k)
            print("made", k[0])

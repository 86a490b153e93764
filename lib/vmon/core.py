"""Scenario runner: seeds, worker processes, verdicts, evidence, replays

A check module (checks/<name>.py) defines

    PID     property id
    RULE    text for the evidence's coverage.rule
    SCENARIOS = [Scenario(name, func, quick=N, thorough=M, ...)]

``func(ctx, rng)`` drives the real code once and reports what its monitors
saw through ``ctx``.  Everything random comes from ``rng``, which is derived
from (VERIF_SEED, property, scenario, case index) so that a case is replayed
from those four values alone.
"""
from __future__ import print_function
import hashlib
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

import numpy as np

from . import gen

ROOT = os.environ.get("VERIF_ROOT", "/verif")
EVID = os.environ.get("VMON_EVID") or os.path.join(ROOT, "evidence")
CASE_HANG_S = 240.0


class Scenario(object):
    def __init__(self, name, func, quick=20, thorough=None, need=1, serial=False,
                 weight=1.0, hang=CASE_HANG_S):
        self.name = name
        self.func = func
        self.counts = dict(quick=quick,
                           thorough=thorough if thorough else quick * 12)
        self.need = need        # least number of monitor evaluations expected
        self.serial = serial
        self.weight = weight
        self.hang = hang


class Violation(Exception):
    def __init__(self, key, msg):
        self.key = key
        self.msg = msg
        super(Violation, self).__init__("%s: %s" % (key, msg))


class Skip(Exception):
    """the generated case is outside of the property's domain"""


def h(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]


class Ctx(object):
    """one per case"""
    def __init__(self, pid, scen, tier, seed, index):
        self.pid, self.scen, self.tier = pid, scen, tier
        self.seed, self.index = seed, index
        self.evals = 0
        self.sigs = set()
        self.counts = {}
        self.violations = []
        self.sample = None
        self.desc = []

    # -- monitors ---------------------------------------------------------
    def check(self, cond, key, msg=""):
        self.evals += 1
        if not cond:
            raise Violation(key, str(msg() if callable(msg) else msg))

    def soft(self, cond, key, msg=""):
        """like check, but goes on with the case"""
        self.evals += 1
        if not cond:
            self.violations.append((key, str(msg() if callable(msg) else msg)))
        return bool(cond)

    def close(self, got, want, key, rtol=1e-9, atol=0.0, msg=""):
        got, want = np.asarray(got), np.asarray(want)
        self.evals += 1
        if got.shape != want.shape:
            raise Violation(key, "shape %s != %s %s" % (got.shape, want.shape,
                                                        self._m(msg)))
        if got.size == 0:
            return
        with np.errstate(all='ignore'):
            ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[0]
            g = np.atleast_1d(got)[tuple(bad)]
            w = np.atleast_1d(want)[tuple(bad)]
            raise Violation(key, "at %s got %r want %r (%d of %d differ) %s" % (
                bad.tolist(), g, w, int(np.sum(~ok)), got.size, self._m(msg)))

    def same(self, got, want, key, msg=""):
        """exact equality of arrays (nan == nan)"""
        got, want = np.asarray(got), np.asarray(want)
        self.evals += 1
        if got.shape != want.shape:
            raise Violation(key, "shape %s != %s %s" % (got.shape, want.shape,
                                                        self._m(msg)))
        eq = got == want
        if got.dtype.kind in 'fc' and want.dtype.kind in 'fc':
            eq = eq | (np.isnan(got) & np.isnan(want))
        if not np.all(eq):
            bad = np.argwhere(~np.atleast_1d(eq))[0]
            raise Violation(key, "at %s got %r want %r (%d of %d differ) %s" % (
                bad.tolist(), np.atleast_1d(got)[tuple(bad)],
                np.atleast_1d(want)[tuple(bad)], int(np.sum(~eq)), got.size,
                self._m(msg)))

    def raises(self, exc, func, key, msg=""):
        self.evals += 1
        try:
            r = func()
        except exc:
            return
        raise Violation(key, "no %s raised, got %r %s" % (exc, type(r),
                                                          self._m(msg)))

    @staticmethod
    def _m(msg):
        return msg() if callable(msg) else msg

    def violate(self, key, msg=""):
        self.evals += 1
        raise Violation(key, msg)

    # -- coverage ---------------------------------------------------------
    def saw(self, *sig):
        """record the signature of a non-trivial case"""
        self.sigs.add(h((self.scen,) + sig))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, **kw):
        """describe the case (goes into samples and replays)"""
        self.desc.append(kw)


def make_rng(seed, pid, scen, index):
    s = hashlib.sha256(("%s/%s/%s/%s" % (seed, pid, scen, index)).encode())
    words = np.frombuffer(s.digest(), dtype=np.uint32)
    return np.random.RandomState(words)


def known_keys(pid):
    keys = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                d = dict(p.split("=", 1) for p in line.split()[1:3])
                if d.get("property") == pid:
                    keys[d["key"]] = line.split(None, 3)[3]
    return keys


def _jsonable(o):
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return o.tolist() if o.size <= 64 else "array%s" % (o.shape,)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:300]


def run_case(pid, scen, tier, seed, index):
    ctx = Ctx(pid, scen.name, tier, seed, index)
    rng = make_rng(seed, pid, scen.name, index)
    viol = []
    try:
        gen.TIMES.clear()
        scen.func(ctx, rng)
    except Violation as v:
        viol.append((v.key, v.msg))
    except Skip:
        ctx.count("skipped")
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # the code under test failed on a valid input
        tb = traceback.format_exc()
        where = [l.strip() for l in tb.splitlines() if l.strip().startswith("File")]
        viol.append(("exception/%s/%s" % (scen.name, type(e).__name__),
                     "%s: %s | %s" % (type(e).__name__, e, tb[-2500:])))
    viol = ctx.violations + viol
    return ctx, viol


def _result(ctx, viol):
    return dict(scen=ctx.scen, index=ctx.index, evals=ctx.evals,
                sigs=sorted(ctx.sigs), counts=ctx.counts, viol=viol,
                desc=_jsonable(ctx.desc) if (viol or ctx.index < 2) else None)


def _worker(fd, pid, tier, seed, jobs, deadline):
    out = os.fdopen(fd, "w", buffering=1)

    def emit(**kw):
        out.write(json.dumps(kw) + "\n")
        out.flush()
    for scen, i in jobs:
        if time.time() > deadline:
            emit(t="late", scen=scen.name, index=i)
            continue
        emit(t="start", scen=scen.name, index=i)
        ctx, viol = run_case(pid, scen, tier, seed, i)
        emit(t="done", **_result(ctx, viol))
    coverage_dump()
    emit(t="end")
    out.close()


STOP = []
COV = set()


def coverage_start():
    """lines of the code under test that the checks reach (tools/cover.py)"""
    import sys as _s
    top = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "viscid") + os.sep
    mon = _s.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "vmon")

    def line(code, ln):
        if code.co_filename.startswith(top):
            COV.add((code.co_filename[len(top):], ln))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def coverage_dump():
    if os.environ.get("VMON_COV"):
        with open(os.path.join(os.environ["VMON_COV"], "%d.txt" % os.getpid()), "w") as f:
            f.write("".join("%s:%d\n" % c for c in sorted(COV)))


def run_parallel(pid, tier, seed, scens, nworkers, deadline):
    """yield result dicts of all the cases; survives dying workers"""
    jobs = []
    for s in scens:
        for i in range(s.counts[tier]):
            jobs.append((s, i))
    # interleave scenarios so that the deadline hits all of them evenly
    jobs.sort(key=lambda j: (j[1] / float(j[0].counts[tier]), j[0].name))
    queues = [jobs[w::nworkers] for w in range(nworkers)]
    byname = {s.name: s for s in scens}
    workers = {}
    retries = {}

    def spawn(q):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid_ = os.fork()
        if pid_ == 0:
            code = 1
            try:
                os.close(r)
                os.setpgid(0, 0)
                for rr in workers:
                    try:
                        os.close(rr)
                    except OSError:
                        pass
                _worker(w, pid, tier, seed, q, deadline)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        workers[r] = dict(pid=pid_, q=q, buf=b"", cur=None, t=time.time(),
                          pos=0, end=False)

    for q in queues:
        if q:
            spawn(q)
    while workers:
        if STOP:
            for w in workers.values():
                try:
                    os.killpg(w["pid"], 9)
                except OSError:
                    pass
            return
        rd, _, _ = select.select(list(workers), [], [], 1.0)
        now = time.time()
        for r in list(workers):
            w = workers[r]
            dead = False
            how = None
            if r in rd:
                data = os.read(r, 1 << 16)
                if not data:
                    dead = True
                w["buf"] += data
                while b"\n" in w["buf"]:
                    line, w["buf"] = w["buf"].split(b"\n", 1)
                    msg = json.loads(line.decode())
                    if msg["t"] == "start":
                        w["cur"] = (msg["scen"], msg["index"])
                        w["t"] = now
                    elif msg["t"] == "done":
                        w["cur"] = None
                        w["pos"] += 1
                        yield msg
                    elif msg["t"] == "late":
                        w["pos"] += 1
                        yield msg
                    elif msg["t"] == "end":
                        w["end"] = True
            if not dead and w["cur"] and \
                    now - w["t"] > byname[w["cur"][0]].hang:
                how = "hang"
                dead = True
            if dead:
                try:
                    os.killpg(w["pid"], signal.SIGKILL)
                except OSError:
                    pass
                _, status = os.waitpid(w["pid"], 0)
                os.close(r)
                del workers[r]
                if w["end"]:
                    continue
                cur = w["cur"]
                if cur is None:
                    yield dict(t="lost", status=status)
                    continue
                if how is None:
                    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
                    how = "signal-%s" % sig if sig else "exit-%s" % status
                yield dict(t="died", scen=cur[0], index=cur[1], how=how)
                rest = w["q"][w["pos"] + 1:]
                retries[r] = 1
                if rest and len(retries) < 24:
                    spawn(rest)


def report(pid, level, tier, seed, agg, wall, rule, assumptions, extra):
    os.makedirs(EVID, exist_ok=True)
    cov = dict(evaluations=agg["cases"], distinct_nontrivial=len(agg["sigs"]),
               rule=rule, samples=agg["samples"][:12],
               monitor_evaluations=agg["evals"],
               cases_per_scenario=agg["per"],
               observed=agg["counts"], cases_not_run_by_deadline=agg["late"])
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(wall, 2),
              violations=agg["nviol"])
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?",
                    default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scenario", action="append")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VMON_WORKERS", "8")))
    ap.add_argument("--wall", type=float)
    a = ap.parse_args(argv)
    t0 = time.time()
    tier, seed = a.tier, a.seed
    import glob
    mods = glob.glob(os.path.join(ROOT, "checks", a.pid.lower() + "_*.py"))
    if len(mods) != 1:
        print("no such check:", a.pid, mods)
        return 2
    from vmon import ext
    try:
        with open(mods[0]) as f:
            san = "\nSANITIZE = True" in f.read()
        if san and "VMON_SAN_LOG" not in os.environ:
            logdir = os.path.join(os.environ["VMON_SCRATCH"], "sanlog")
            os.makedirs(logdir)
            root = ext.build_sanitized(os.path.join(os.environ["VMON_SCRATCH"], "san"))
            env = ext.sanitized_env(root, logdir)
            env["VMON_SAN_LOG"] = logdir
            sys.stdout.flush()
            os.execve(sys.executable, [sys.executable, "-W", "ignore", "-m", "vmon"] + list(argv), env)
        how = ext.ensure()
    except Exception as e:  # cannot build: no answer
        print("ERROR: cannot build the extensions: %s" % e)
        return 2
    if os.environ.get("VMON_COV"):
        coverage_start()
    modname = os.path.basename(mods[0])[:-3]
    try:
        mod = importlib.import_module(modname)
    except Exception:
        tb = traceback.format_exc()
        if os.path.join(os.environ.get("VERIF_REPO", "/repo"), "viscid") in tb:
            print("ERROR: importing the code under test failed")
        print(tb)
        return 2
    scens = list(mod.SCENARIOS)
    if a.scenario:
        scens = [s for s in scens if s.name in a.scenario]
    if a.cases:
        for s in scens:
            s.counts[tier] = a.cases
    known = known_keys(a.pid)
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        sc = [s for s in mod.SCENARIOS if s.name == rp["scenario"]][0]
        ctx, viol = run_case(a.pid, sc, rp["tier"], rp["seed"], rp["index"])
        for k, m in viol:
            print("REPLAYED %s: %s" % (k, m))
        print("notes:", json.dumps(_jsonable(ctx.desc))[:4000])
        return 1 if viol else 0

    wall = a.wall or getattr(mod, "WALL", dict(quick=150, thorough=780))[tier]
    deadline = t0 + wall
    agg = dict(cases=0, evals=0, sigs=set(), counts={}, samples=[], per={},
               nviol=0, late=0)
    for old in glob.glob(os.path.join(EVID, "replay", a.pid + "-*.json")):
        os.unlink(old)
    hits = {}
    seen_known = {}
    lost = 0
    nw = getattr(mod, "WORKERS", a.workers)
    if hasattr(mod, "setup"):
        mod.setup()
    for r in run_parallel(a.pid, tier, seed, scens, nw, deadline):
        if r["t"] == "late":
            agg["late"] += 1
            continue
        if r["t"] == "lost":
            lost += 1
            continue
        if r["t"] == "died":
            r = dict(scen=r["scen"], index=r["index"], evals=1, sigs=[],
                     counts={}, desc=None,
                     viol=[("crash/%s/%s" % (r["scen"], r["how"]),
                            "the process running the case ended: %s" % r["how"])])
        agg["cases"] += 1
        agg["evals"] += r["evals"]
        agg["sigs"].update(r["sigs"])
        agg["per"][r["scen"]] = agg["per"].get(r["scen"], 0) + 1
        for k, v in r["counts"].items():
            kk = r["scen"] + "/" + k
            agg["counts"][kk] = agg["counts"].get(kk, 0) + v
        agg.setdefault("ev_per", {})
        agg["ev_per"][r["scen"]] = agg["ev_per"].get(r["scen"], 0) + r["evals"]
        if r["desc"] and not r["viol"] and len(agg["samples"]) < 40:
            agg["samples"].append(dict(scenario=r["scen"], index=r["index"],
                                       case=r["desc"]))
        for key, msg in r["viol"]:
            kk = [k for k in known if key == k or
                  (k.endswith("*") and key.startswith(k[:-1]))]
            if kk:
                seen_known[kk[0]] = seen_known.get(kk[0], 0) + 1
                continue
            agg["nviol"] += 1
            hits.setdefault(key, []).append(
                dict(scenario=r["scen"], index=r["index"], seed=seed, tier=tier,
                     property=a.pid, key=key, message=msg, notes=r["desc"]))
            if os.environ.get("VMON_FIRST"):
                STOP.append(1)      # tools/mutate.py only asks whether
    if hasattr(mod, "finish"):
        mod.finish(agg, hits)
    # one sample of each scenario first
    agg["samples"].sort(key=lambda s: s["index"])
    extra = dict(extensions=how)
    if seen_known:
        extra["known_findings_seen"] = seen_known
    if hasattr(mod, "EXTRA"):
        extra.update(mod.EXTRA())
    report(a.pid, getattr(mod, "LEVEL", "exploration"), tier, seed, agg,
           time.time() - t0, mod.RULE, getattr(mod, "ASSUMPTIONS", []), extra)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s [%s]" % (a.pid, known[k], k))
    for k in sorted(set(known) - set(seen_known)):
        print("note: listed finding %s was not seen on this run" % k)
    print("%s %s seed=%d: %d cases, %d monitor evaluations, %d distinct, "
          "%.1fs, extensions=%s%s" % (
              a.pid, tier, seed, agg["cases"], agg["evals"], len(agg["sigs"]),
              time.time() - t0, how,
              (", %d late" % agg["late"]) if agg["late"] else ""))
    if hits:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        nmax = int(os.environ.get("VMON_MAXREPORT", "10"))
        for n, key in enumerate(sorted(hits)[:nmax]):
            path = os.path.join(rdir, "%s-%d.json" % (a.pid, n))
            with open(path, "w") as f:
                json.dump(hits[key][0], f, indent=1)
            print("  [%s] x%d: %s" % (key, len(hits[key]),
                                      hits[key][0]["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (a.pid, path))
        return 1
    # three-valued: nothing observed is not "held"
    for s in scens:
        if agg.get("ev_per", {}).get(s.name, 0) < s.need:
            print("INCONCLUSIVE: scenario %s observed only %d monitor "
                  "evaluations" % (s.name, agg.get("ev_per", {}).get(s.name, 0)))
            return 2
    if lost:
        print("INCONCLUSIVE: %d worker(s) were lost between cases" % lost)
        return 2
    return 0

"""N05: compiled kernels stay inside the arrays they are given"""
import contextlib
import glob
import importlib
import os
import sys

import numpy as np

from vmon.core import Scenario, Skip, Violation, Ctx
from vmon import gen

PID = "N05"
SANITIZE = True
TECHNIQUE = "sanitizers: the extensions are rebuilt with Cython bounds checks, gfortran -fcheck=all, AddressSanitizer and UndefinedBehaviorSanitizer and driven by the workloads of the other checks; a second monitor poisons the memory around and behind the data and compares results"
RULE = ("every workload of N01 N03 N04 N06 N07 D04 G05 run on the instrumented build: an "
        "out-of-bounds index, sanitizer report, ignored exception or dead process is a "
        "violation; halo: data as a window of a larger array and fresh allocations, "
        "both filled with two different patterns, must give bit identical results")
ASSUMPTIONS = ["numpy, libgfortran and the interpreter themselves are not instrumented",
               "values returned are judged by the other checks, here only the accesses"]
WALL = dict(quick=220, thorough=780)
LOG = os.environ.get("VMON_SAN_LOG", "")

UNRAISED = []


def setup():
    sys.unraisablehook = lambda u: UNRAISED.append(
        "%s: %s" % (getattr(u.exc_type, "__name__", u.exc_type), u.exc_value))


class Inner(object):
    """the other check's monitors still run, their verdicts are not used"""
    def __init__(self, ctx):
        self._c = Ctx("N05", ctx.scen, ctx.tier, ctx.seed, ctx.index)

    def __getattr__(self, name):
        return getattr(self._c, name)


def watched(ctx, func, *args):
    del UNRAISED[:]
    out = None
    try:
        out = func(*args)
    except Violation:
        ctx.count("other monitors' findings")
    except Skip:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        txt = "%s: %s" % (type(e).__name__, e)
        ctx.check(not ("ut of bounds on buffer access" in txt or "bounds" in txt and
                       isinstance(e, IndexError) and "viscid/cython" in _tb(e)),
                  "bounds", lambda: txt + _tb(e)[-1500:])
        ctx.count("other failures")
    bad = [u for u in UNRAISED if "Generator" not in u]
    ctx.check(not bad, "ignored-exception", lambda: "; ".join(bad[:3]))
    return out


def _tb(e):
    import traceback
    return "".join(traceback.format_exception(type(e), e, e.__traceback__))


def wrap(func):
    def scen(ctx, rng):
        inner = Inner(ctx)
        ctx.desc = inner._c.desc
        watched(ctx, func, inner, rng)
        ctx.evals += 1
        ctx.count("monitored calls", inner._c.evals)
        for s in inner._c.sigs:
            ctx.saw(s)
    return scen


# -- halo ------------------------------------------------------------------
FILLS = {'f': [np.nan, 1e30, -1e30, 0.0], 'i': [2 ** 30, -2 ** 30, 0, -1]}


@contextlib.contextmanager
def poison(k):
    """fresh numpy memory holds pattern k"""
    empty, empty_like = np.empty, np.empty_like

    def fill(a):
        if a.dtype.kind in 'fi':
            with np.errstate(all='ignore'):
                a[...] = np.array(FILLS[a.dtype.kind][k]).astype(a.dtype)
        return a

    def e(*args, **kw):
        return fill(empty(*args, **kw))

    def el(*args, **kw):
        return fill(empty_like(*args, **kw))
    np.empty, np.empty_like = e, el
    try:
        yield
    finally:
        np.empty, np.empty_like = empty, empty_like


def window(arr, k, rng_pads):
    """arr as a window of a bigger array holding pattern k"""
    shape = [n + a + b for n, (a, b) in zip(arr.shape, rng_pads)]
    big = np.full(shape, FILLS[arr.dtype.kind][k]).astype(arr.dtype)
    sl = tuple(slice(a, a + n) for n, (a, b) in zip(arr.shape, rng_pads))
    big[sl] = arr
    return big[sl]


def scen_halo(ctx, rng):
    import viscid
    nc = [3, 3, 1][rng.randint(3)]
    n = [int(v) for v in rng.randint(2, 8, size=3)]
    center = ['node', 'cell'][rng.randint(2)]
    axes = [
        gen.Axis(nm, gen.rand_nc(rng, k + (center == 'cell'),
                                 ['uniform', 'stretched'][rng.randint(2)],
                                 scale=1.0, origin=-0.5 * k)) for nm, k in zip('xyz', n)]
    dt = ['f8', 'f4', 'i4', 'i8'][rng.randint(4)]
    shape = tuple(n) + ((3,) if nc == 3 else ())
    layout = 'interlaced' if nc == 3 and rng.randint(3) else ('flat' if nc == 3 else 'none')
    if layout == 'flat':
        shape = (3,) + tuple(n)
    vals = (rng.standard_normal(shape) * (100 if dt[0] == 'i' else 1)).astype(dt)
    pads = [(int(rng.randint(0, 3)), int(rng.randint(0, 3))) for _ in shape]
    if layout == 'interlaced' and rng.randint(2):
        pads[-1] = (0, 0)
    ns = int(rng.randint(1, 6))
    lo = np.array([a.nc[0] for a in axes])
    hi = np.array([a.nc[-1] for a in axes])
    pts = (lo + (hi - lo) * rng.uniform(-0.2, 1.2, size=(ns, 3))).T
    snap_i = [rng.randint(len(a.nc)) for a in axes]
    if rng.randint(2):
        pts[:, 0] = [a.nc[i] for a, i in zip(axes, snap_i)]
    if rng.randint(4) == 0:
        pts[:, 0] = hi
    what = ['trilin', 'nearest', 'lines', 'topology', 'nulls', 'ops'][rng.randint(6)]
    method = ['euler1', 'rk2', 'rk4', 'euler1a', 'rk12', 'rk45'][rng.randint(6)]
    ctx.note(what=what, n=n, dtype=dt, center=center, nc=nc, layout=layout,
             pads=pads, method=method, points=pts)
    if nc == 1 and what in ('lines', 'topology', 'nulls'):
        raise Skip()
    crds = gen.make_crds(axes, ['AUTO', 'nonuniform'][rng.randint(2)])

    def go(k):
        d = window(vals, k, pads)
        f = viscid.wrap_field(d, crds=crds, name='f', center=center,
                              fldtype='vector' if nc == 3 else 'scalar',
                              layout=layout if nc == 3 else 'flat')
        with poison(k):
            if what in ('trilin', 'nearest'):
                r = viscid.interp(f, viscid.Point(pts), kind=what, wrap=False)
                return [np.asarray(r)]
            if what == 'lines':
                l, t = viscid.calc_streamlines(f, viscid.Point(pts), method=method, maxit=200,
                                               obound_r=3 * float(np.max(np.abs([lo, hi]))),
                                               output=viscid.OUTPUT_BOTH, wrap=False)
                return [np.asarray(q) for q in l] + [np.asarray(t)]
            if what == 'topology':
                l, t = viscid.calc_streamlines(f, viscid.Point(pts), method=method, maxit=200,
                                               ibound=0.5, output=viscid.OUTPUT_TOPOLOGY, wrap=False)
                return [np.asarray(t)]
            if what == 'nulls':
                r = viscid.find_classified_nulls(f)
                return [np.asarray(q) for kk in 'ABO' for q in r[kk]]
            if nc == 3:
                return [np.asarray(viscid.div(f)), np.asarray(viscid.curl(f)),
                        np.asarray(viscid.magnitude(f))]
            return [np.asarray(viscid.grad(f)), np.asarray(viscid.interp(f, f, wrap=False))]
    base = watched(ctx, go, 3)
    if base is None:
        raise Skip()
    for k in (0, 1, 2):
        if dt[0] == 'i' and k == 0:
            continue
        r = watched(ctx, go, k)
        ctx.check(r is not None and len(r) == len(base), "halo/" + what, "other result")
        for a, b in zip(base, r):
            ctx.same(b, a, "halo/" + what, lambda: "with pattern %d around the data" % k)
    ctx.count("results compared", len(base) * 2)
    ctx.saw(what, dt, center, layout, method if what in ('lines', 'topology') else '',
            tuple(pads))


def _wrapped():
    out = [Scenario("halo", scen_halo, quick=500, thorough=15000, need=800, hang=120)]
    for name, quick, thorough in (("n01_interp", 0.08, 1.0), ("n03_stream", 0.2, 1.0),
                                  ("n04_split", 0.05, 0.5), ("n06_nulls", 0.15, 1.0),
                                  ("n07_amr", 0.1, 1.0), ("n08_lines", 0.05, 0.5),
                                  ("d04_jrrle", 0.3, 1.0)):
        try:
            mod = importlib.import_module(name)
        except ImportError:
            continue
        for s in mod.SCENARIOS:
            if name == "n04_split" and s.name == "history":
                continue
            if getattr(mod, "N05_ONLY", None) and s.name not in mod.N05_ONLY:
                continue
            out.append(Scenario(name[:3] + "." + s.name, wrap(s.func),
                                quick=max(4, int(s.counts["quick"] * quick)),
                                thorough=max(8, int(s.counts["thorough"] * thorough * 0.2)),
                                need=1, hang=150))
    return out


SCENARIOS = _wrapped()


def finish(agg, hits):
    """attach the sanitizers' own words to dead workers"""
    logs = []
    for p in sorted(glob.glob(os.path.join(LOG, "*"))):
        with open(p, errors="replace") as f:
            txt = f.read()
        keep = [l for l in txt.splitlines() if "ERROR" in l or "runtime error" in l
                or l.strip().startswith("#") and "viscid" in l]
        logs.append(" | ".join(keep[:8])[:800])
    agg["counts"]["sanitizer reports"] = len(logs)
    for key in hits:
        if key.startswith("crash/"):
            for h in hits[key]:
                h["message"] += " | sanitizer: " + " || ".join(logs[:4])
    if logs and not any(k.startswith("crash/") for k in hits):
        # a child process of a worker died of it
        hits.setdefault("sanitizer", []).append(dict(
            scenario="", index=0, seed=0, tier="", property=PID, key="sanitizer",
            message=" || ".join(logs[:4]), notes=None))
        agg["nviol"] += 1


def EXTRA():
    return dict(instrumentation="Cython boundscheck, ASan, UBSan, float-cast-overflow, gfortran -fcheck=all")

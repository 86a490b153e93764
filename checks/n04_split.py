"""N04: streamline results do not depend on chunks, processes, other seeds or history"""
import importlib
import sys
import threading
import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen, ext
n03 = importlib.import_module('n03_stream')

PID = "N04"
TECHNIQUE = "runtime monitoring: differential monitor of the same seeds under every way to split the work, alone, permuted, after failing calls and from concurrent threads"
RULE = ("random fields and options (as for N03), 1-40 seeds of every seed type, "
        "1-5 threads or processes, chunk factors 1-6, forced subprocesses, "
        "permuted and single seeds, call sequences with failing calls in between, "
        "concurrent callers with a tiny thread switch interval")
ASSUMPTIONS = ["a call made while another thread of this process is tracing may be "
               "refused with a RuntimeError"]


def setup():
    ext.ensure()


def rand_opts(rng, ext_):
    o = dict(method=sorted(n03.TAB)[rng.randint(6)], maxit=int([300, rng.randint(1, 30)][rng.randint(2)]),
             max_length=float(ext_ * 10 ** rng.uniform(-1, 0.5)))
    if rng.randint(3) == 0:
        o['ibound'] = float(rng.uniform(0, 0.2) * ext_)
    if rng.randint(3) == 0:
        o['obound_r'] = float(rng.uniform(0.2, 0.6) * ext_)
    if rng.randint(2):
        o['topo_style'] = ['generic', 'msphere'][rng.randint(2)]
    if rng.randint(2):
        o['output'] = int(rng.randint(1, 4))
    if rng.randint(2):
        o['stream_dir'] = int(rng.randint(1, 4))
    if rng.randint(3) == 0:
        o['ds0'] = float(ext_ * 10 ** rng.uniform(-2, -0.7))
    return o


def rand_seeds(rng, ref, nodes, dt):
    """seeds and their points in order"""
    import viscid
    lo = np.array([n[0] for n in nodes])
    hi = np.array([n[-1] for n in nodes])
    a, b = rng.uniform(lo, hi), rng.uniform(lo, hi)
    k = rng.randint(8)
    if k <= 2:
        pts = n03.seeds_for(rng, ref, nodes, int(rng.randint(1, 41)), dt)
        s = [pts, viscid.Point(pts), viscid.Point(pts, cache=True)][k]
    elif k == 3:
        s = viscid.Line(a, b, n=int(rng.randint(1, 20)))
    elif k == 4:
        s = viscid.Plane(a, [0, 0, 1], [1, 0, 0], 1.0, 1.0, nl=int(rng.randint(1, 6)), nm=int(rng.randint(1, 6)))
    elif k == 5:
        s = viscid.Volume(np.minimum(a, b), np.maximum(a, b), n=tuple(int(v) for v in rng.randint(1, 4, size=3)))
    elif k == 6:
        s = viscid.Sphere(a, r=float(np.min((hi - lo) + (hi == lo)) * 0.2), ntheta=int(rng.randint(2, 5)), nphi=int(rng.randint(2, 6)))
    else:
        s = viscid.Circle(p0=a, r=0.1, n=int(rng.randint(2, 12)))
    if k == 0:
        pts = s
    else:
        pts = np.array(list(s.iter_points(center='node' if not hasattr(s, 'center') else s.center))).T
    return s, pts, k


def flat(topo):
    if topo is None:
        return None
    return np.asarray(topo.data if hasattr(topo, 'crds') else topo).reshape(-1)


def same_answer(ctx, got, want, key, msg=""):
    gl, gt = got
    wl, wt = want
    ctx.check((gl is None) == (wl is None), key + "/lines", "only one has lines %s" % msg)
    if wl is not None:
        ctx.check(len(gl) == len(wl), key + "/count", lambda: "%d %d %s" % (len(gl), len(wl), msg))
        for i in range(len(wl)):
            ctx.same(gl[i], wl[i], key + "/line", lambda: "line %d %s" % (i, msg))
    ctx.check((gt is None) == (wt is None), key + "/topo", "only one has topology %s" % msg)
    if wt is not None:
        ctx.same(flat(gt), flat(wt), key + "/topology", msg)
        ctx.check(hasattr(gt, 'crds') == hasattr(wt, 'crds'), key + "/wrapped", msg)
        if hasattr(wt, 'crds'):
            ctx.check(gt.shape == wt.shape, key + "/topo-shape", msg)
            for c, d in zip(gt.get_crds(), wt.get_crds()):
                ctx.same(c, d, key + "/topo-crds", msg)


def scen_split(ctx, rng):
    import viscid
    f, m, ref, nodes, kind, smooth, ext_, dt = n03.make(rng)
    o = rand_opts(rng, ext_)
    s, pts, k = rand_seeds(rng, ref, nodes, dt)
    n = pts.shape[1]
    ctx.note(options=o, seeds=k, n=n, kind=kind, dtype=dt)
    base = viscid.calc_streamlines(f, s, **o)
    if base[0] is not None:
        ctx.check(len(base[0]) == n, "count", lambda: "%d lines, %d seeds" % (len(base[0]), n))
    if base[1] is not None:
        ctx.check(len(flat(base[1])) == n, "count", "topology")
    for _ in range(3):
        kw = dict(nr_procs=int(rng.randint(1, 6)), chunk_factor=int([1, 1, 2, 6][rng.randint(4)]))
        same_answer(ctx, viscid.calc_streamlines(f, s, **dict(o, **kw)), base, "threads", kw)
        ctx.saw('threads', k, kw['nr_procs'], kw['chunk_factor'], n, kind)
    if rng.randint(3) == 0:
        kw = dict(nr_procs=int(rng.randint(1, 4)), chunk_factor=int(rng.randint(1, 4)), threads=False)
        kw['force_subprocess'] = bool(kw['nr_procs'] == 1 or rng.randint(2))
        same_answer(ctx, viscid.calc_streamlines(f, s, **dict(o, **kw)), base, "processes", kw)
        ctx.saw('processes', k, kw['nr_procs'], kw['chunk_factor'], n)
        ctx.count("process runs")
    # one at a time, and in another order
    w = dict(o, wrap=False)
    order = rng.permutation(n)
    perm = viscid.calc_streamlines(f, np.ascontiguousarray(pts[:, order]), nr_procs=int(rng.randint(1, 4)), **w)
    want = (None if base[0] is None else [base[0][i] for i in order],
            None if base[1] is None else flat(base[1])[order])
    same_answer(ctx, perm, want, "order")
    for i in rng.permutation(n)[:4]:
        one = viscid.calc_streamlines(f, np.ascontiguousarray(pts[:, i:i + 1]), nr_procs=int(rng.randint(1, 4)), **w)
        want = (None if base[0] is None else [base[0][i]],
                None if base[1] is None else flat(base[1])[i:i + 1])
        same_answer(ctx, one, want, "alone")
        ctx.saw('alone', kind, o['method'])
    sub = np.sort(rng.permutation(n)[:int(rng.randint(0, n + 1))])
    some = viscid.calc_streamlines(f, np.ascontiguousarray(pts[:, sub]), nr_procs=int(rng.randint(1, 4)), **w) if len(sub) else None
    if some is not None:
        same_answer(ctx, some, (None if base[0] is None else [base[0][i] for i in sub],
                                None if base[1] is None else flat(base[1])[sub]), "subset")
    ctx.count("lines compared", n * 5)


def failing(rng, f, pts):
    """calls that are refused"""
    import viscid
    k = rng.randint(7)
    kw = dict(nr_procs=int(rng.randint(1, 4)), threads=bool(rng.randint(4)))
    if k == 0:
        return 'two coordinates', lambda: viscid.calc_streamlines(f, np.zeros((2, 4)), **kw)
    if k == 1:
        return 'unknown method', lambda: viscid.calc_streamlines(f, pts, method=77, **kw)
    if k == 2:
        return 'unknown option', lambda: viscid.calc_streamlines(f, pts, no_such_option=1, **kw)
    if k == 3:
        return 'scalar field', lambda: viscid.calc_streamlines(f['x'], pts, **kw)
    if k == 4:
        return 'method name', lambda: viscid.calc_streamlines(f, pts, method='leapfrog', **kw)
    if k == 5:
        return 'bad box', lambda: viscid.calc_streamlines(f, pts, obound0=['a', 'b', 'c'], **kw)

    class Bad(viscid.Point):
        def iter_points(self, **kwargs):
            for i, p in enumerate(super(Bad, self).iter_points(**kwargs)):
                if i == 2:
                    raise ValueError("no more seeds")
                yield p
    return 'failing seeds', lambda: viscid.calc_streamlines(f, Bad(np.repeat(pts[:, :1], 4, axis=1)), **kw)


def scen_history(ctx, rng):
    import viscid
    flds = []
    for _ in range(2):
        f, m, ref, nodes, kind, smooth, ext_, dt = n03.make(rng)
        o = rand_opts(rng, ext_)
        s, pts, k = rand_seeds(rng, ref, nodes, dt)
        flds.append((f, o, s, pts, viscid.calc_streamlines(f, s, **o)))
    for step in range(6):
        f, o, s, pts, base = flds[rng.randint(2)]
        if rng.randint(2):
            name, call = failing(rng, f, pts)
            try:
                call()
                ctx.violate("history/accepted", name)
            except Exception as e:
                if type(e).__name__ == 'Violation':
                    raise
                ctx.count("failed: " + name)
                ctx.check("in this" not in str(e) and "Another process" not in str(e),
                          "history/locked", lambda: "%s: %s" % (name, e))
                ctx.saw(name, type(e).__name__)
        else:
            kw = dict(nr_procs=int(rng.randint(1, 4)))
            try:
                got = viscid.calc_streamlines(f, s, **dict(o, **kw))
            except RuntimeError as e:
                ctx.violate("history/locked", str(e))
            same_answer(ctx, got, base, "history")
            ctx.count("repeated calls")


def scen_callers(ctx, rng):
    """several threads trace at once: an answer is right or the call is refused"""
    import viscid
    jobs = []
    for _ in range(3):
        f, m, ref, nodes, kind, smooth, ext_, dt = n03.make(rng)
        o = rand_opts(rng, ext_)
        s, pts, k = rand_seeds(rng, ref, nodes, dt)
        jobs.append((f, o, pts, viscid.calc_streamlines(f, pts, **dict(o, wrap=False))))
    res = []
    gate = threading.Barrier(3)

    def work(i):
        f, o, pts, base = jobs[i]
        gate.wait()
        for _ in range(4):
            try:
                got = viscid.calc_streamlines(f, pts, nr_procs=1 + i, **dict(o, wrap=False))
                res.append((i, got, None))
            except Exception as e:
                res.append((i, None, e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(3)]
        [t.start() for t in ts]
        [t.join(50) for t in ts]
    finally:
        sys.setswitchinterval(old)
    ctx.check(len(res) == 12, "callers/hang", lambda: "%d of 12 calls returned" % len(res))
    for i, got, e in res:
        if e is not None:
            ctx.check(isinstance(e, RuntimeError), "callers/error", lambda: "%r" % e)
            ctx.count("refused")
        else:
            same_answer(ctx, got, jobs[i][3], "callers")
            ctx.count("answered")
    pattern = "".join("%d%s" % (i, "r" if e else "a") for i, g, e in res)
    ctx.saw(pattern)
    f, o, pts, base = jobs[0]
    same_answer(ctx, viscid.calc_streamlines(f, pts, **dict(o, wrap=False)), base, "after")


SCENARIOS = [
    Scenario("split", scen_split, quick=800, thorough=15000, need=200, hang=60),
    Scenario("history", scen_history, quick=300, thorough=5000, need=8, hang=60),
    Scenario("callers", scen_callers, quick=120, thorough=2000, need=10, hang=90),
]

"""N11: following fluid elements in time"""
import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen, ext

PID = "N11"
TECHNIQUE = "runtime monitoring: every callback of a run is recorded, and the log is checked step by step against the velocity interpolated in time, the exact motion of the elements and a model of the seed curators"
RULE = ("velocity fields of 1-6 steps (even and uneven spacing) that are uniform, rotating "
        "or saddle like in space and change from step to step, 1-9 elements, forward and "
        "backward, every combination of tstart, tstop, duration, dt, dt_interp and time "
        "slices, speed scales, extra fields and spatial selections; the three curators "
        "with boxes, spheres, extra and replacement seeds over random batches")
ASSUMPTIONS = ["times and steps are multiples of 1/16 (the loop adds up floating point steps)",
               "a step's velocity is the one at the time of the last interpolation",
               "before the first and after the last step times aren't followed"]


def setup():
    import viscid
    ext.ensure()
    viscid.logger.setLevel(50)


def dset(times, data, anc, box, layout, center, order):
    import viscid
    ds = viscid.dataset.DatasetTemporal(name="t")
    ax = [np.linspace(-b, b, 9 + 2 * i) for i, b in enumerate(box)]
    crds = viscid.arrays2crds(ax)
    for i in order:
        g = viscid.grid.Grid(name="g%d" % i, time=times[i])
        f = viscid.zeros(crds, nr_comps=3, layout=layout, name='v', center=center, time=times[i])
        X, Y, Z = f.get_crds('xyz', shaped=True)
        o = 0 * X + 0 * Y + 0 * Z
        U, A = data[i]
        for k, c in enumerate('xyz'):
            f[c] = U[k] + A[k, 0] * X + A[k, 1] * Y + A[k, 2] * Z + o
        g.add_field(f)
        s = viscid.zeros(crds, name='s', center=center, time=times[i])
        s.data[...] = anc[i]
        g.add_field(s)
        ds.add(g)
    return ds


def expm(M):
    """matrix exponential of a small matrix"""
    n = max(0, int(np.ceil(np.log2(max(np.abs(M).sum(), 1e-16)))) + 8)
    T = np.eye(len(M))
    S, term = np.eye(len(M)), np.eye(len(M))
    for k in range(1, 14):
        term = term.dot(M / 2.0**n) / k
        S = S + term
    for _ in range(n):
        S = S.dot(S)
    return S


def move(p, U, A, t):
    """exact motion for v = U + A x"""
    M = np.zeros((4, 4))
    M[:3, :3], M[:3, 3] = A, U
    q = expm(M * t).dot(np.vstack([p, np.ones(p.shape[1])]))
    return q[:3]


def rand_flow(rng, kind, vmax):
    U, A = np.zeros(3), np.zeros((3, 3))
    if kind == 0:
        U = rng.uniform(-vmax, vmax, 3)
    elif kind == 1:         # rotation
        w = rng.uniform(0.2, 1.0) * rng.choice([-1, 1])
        i, j = [(0, 1), (1, 2), (0, 2)][rng.randint(3)]
        A[i, j], A[j, i] = -w, w
    else:
        A = rng.uniform(-0.4, 0.4, size=(3, 3))
        U = rng.uniform(-.3, .3, 3) * vmax
    return U, A


def scen_follow(ctx, rng):
    """the log of a run"""
    import viscid
    nt = int(rng.choice([1, 2, 2, 3, 3, 4, 6]))
    q = 1.0 / 16
    times = np.cumsum(rng.choice([4, 8, 8, 16, 20], size=nt)) * q + q * rng.randint(-40, 40)
    times = [float(t) for t in times]
    kind = int(rng.randint(3))
    layout = ['flat', 'interlaced'][rng.randint(2)]
    center = ['node', 'cell'][rng.randint(2)]
    box = rng.uniform(9, 12, size=3)
    data = [rand_flow(rng, kind, 1.0) for _ in range(nt)]
    if rng.rand() < 0.2:
        data = [data[0]] * nt
    anc = rng.uniform(-5, 5, size=nt)
    order = rng.permutation(nt)
    ds = dset(times, data, anc, box, layout, center, order)
    npts = int(rng.randint(1, 10))
    pts = rng.uniform(-1.5, 1.5, size=(3, npts))
    if rng.rand() < 0.3:
        pts = np.round(pts).astype(int)
    seeds = viscid.Point(pts)
    keep = np.array(seeds.get_points())

    # what to ask for
    kw, tsl = {}, slice(None)
    lo, hi, sel = 0, nt - 1, None
    if nt > 1 and rng.rand() < 0.4:
        lo = int(rng.randint(0, nt))
        hi = int(rng.randint(lo, nt))
        sel = rng.randint(4)
        if sel == 0:
            tsl = slice(lo, hi + 1)
        elif sel == 1:
            tsl = "%rf:%rf" % (times[lo], times[hi])
        elif sel == 2:
            tsl = slice(times[lo] * 1j, times[hi] * 1j)
        elif hi == lo:
            tsl = slice(lo, lo + 1)
        else:
            tsl = ["%d:" % lo, slice(lo, None)][rng.randint(2)]
            hi = nt - 1
        if sel == 0 or hi == nt - 1 and sel == 3 or True:
            kw['time_slice'] = tsl
    T = times[lo:hi + 1]
    d0 = min(np.diff(T)) if len(T) > 1 else 1.0
    tdir = 1.0
    mode = rng.randint(4)
    dt = [None, d0, d0 / 2, d0 / 4, 0.25][rng.randint(5)]
    if dt is not None:
        dt = max(round(dt / q), 1) * q
    back = rng.rand() < 0.4
    # always say where to start and stop: a slice's limits depend on its kind
    a, b = T[0], T[-1]
    if mode == 0 and len(T) > 1:
        a = T[0] + q * rng.randint(0, int((T[-1] - T[0]) / q) + 1)
        b = a + q * rng.randint(0, int(round((T[-1] - a) / q)) + 1)
    if back:
        a, b = b, a
    if mode in (0, 1):
        if a == b:
            back = False
            kw.update(tstart=a, duration=0.0)
            a = b = kw['tstart']
        else:
            kw.update(tstart=a, tstop=b)
    elif mode == 2:
        kw.update(tstart=a, duration=(b - a) if rng.rand() < .5 or back else abs(b - a))
    else:
        if back and dt is not None:
            if 'time_slice' in kw:
                kw.pop('time_slice')
                T, lo, hi = times, 0, nt - 1
                a, b = T[-1], T[0]
            dt = -dt
        elif 'time_slice' in kw:
            kw.update(tstart=a, tstop=b)
            if a == b:
                kw.pop('tstop')
                kw['duration'] = 0.0
                back = False
        else:
            back = False
            a, b = T[0], T[-1]
    tdir = -1.0 if back else 1.0
    if back and a == b and not (dt is not None and dt < 0):
        tdir = 1.0
    if dt is not None:
        kw['dt'] = dt
    step = abs(dt) if dt is not None else d0
    if (T[-1] - T[0]) / step > 60 or nt == 1 and mode == 3 and back:
        raise Skip()
    dti = [None, None, step, 2 * step, 3 * step, step / 2][rng.randint(6)]
    if dti is not None:
        kw['dt_interp'] = dti
    di = dti if dti is not None else step
    scale = 1.0
    if rng.rand() < 0.4:
        scale = float(rng.choice([0.5, 2.0, 0.125]))
        kw['speed_scale'] = scale
    opts = dict(max_length=1e3)
    if kind:
        opts.update(ds0=0.02, largest_ds=0.03)
    opts_keep = dict(opts)
    kw['stream_opts'] = opts
    if rng.rand() < 0.5:
        kw['anc_keys'] = ['s']
    cbk = dict(tag=5)
    kw['callback_kwargs'] = cbk
    log = []

    def cb(i, t, seeds=None, v_field=None, anc_fields=None, grid0=None, grid1=None, streamlines=None, tag=None):
        log.append((i, t, np.array(seeds), v_field, anc_fields, grid0, grid1, [np.array(l) for l in streamlines], tag))

    ctx.note(times=times, kind=kind, kw={k: str(v) for k, v in kw.items()}, a=a, b=b, tdir=tdir, pts=pts.tolist(),
             U=[d[0].tolist() for d in data], A=[d[1].tolist() for d in data])
    snaps = [gen.snapshot(g['v']) for g in ds.iter_times()]
    ret = viscid.follow_fluid(ds, seeds, callback=cb, **kw)
    # ---- nothing given was changed
    ctx.same(np.array(seeds.get_points()), keep, "seeds-unchanged")
    ctx.check(opts == opts_keep, "options-unchanged", opts)
    ctx.check(cbk == dict(tag=5), "callback-options-unchanged", cbk)
    for g, sn in zip(ds.iter_times(), snaps):
        gen.check_unchanged(ctx, g['v'], sn, "fields-unchanged")
    # ---- the steps
    want_t = []
    t = a
    while tdir * (t - b) <= 0:
        want_t.append(t)
        t += tdir * step
    ctx.check([l[1] for l in log] == want_t, "steps-times", lambda: "%s want %s" % ([l[1] for l in log], want_t))
    ctx.check([l[0] for l in log] == list(range(len(log))), "steps-count", [l[0] for l in log])
    sel_data = data[lo:hi + 1]
    Ta = np.array(T)

    def at(t):
        U = np.array([[np.interp(t, Ta, [d[0][k] for d in sel_data]) for k in range(3)]])[0]
        A = np.array([[np.interp(t, Ta, [d[1][k, m] for d in sel_data]) for m in range(3)] for k in range(3)])
        return U, A, np.interp(t, Ta, anc[lo:hi + 1])
    p = np.asarray(pts, 'f8')
    tin, nin = None, None
    edge = np.min(box) - 2.0
    for i, (l, t) in enumerate(zip(log, want_t)):
        if tin is None or tdir * (t - nin) >= 0:
            tin, nin = t, t + tdir * di
        U, A, s = at(tin)
        f = l[3]
        X, Y, Z = f.get_crds('xyz', shaped=True)
        for k, c in enumerate('xyz'):
            w = U[k] + A[k, 0] * X + A[k, 1] * Y + A[k, 2] * Z + 0 * (X + Y + Z)
            ctx.close(np.asarray(f[c].data), w, "velocity-at-time", rtol=1e-9, atol=1e-9)
        if 'anc_keys' in kw:
            ctx.check(list(l[4]) == ['s'], "extra-fields", list(l[4]))
            ctx.close(np.asarray(l[4]['s'].data), s + np.zeros(l[4]['s'].shape), "extra-at-time", rtol=1e-9, atol=1e-9)
        else:
            ctx.check(len(l[4]) == 0, "extra-fields", list(l[4]))
        ctx.check(l[8] == 5, "callback-options", l[8])
        ctx.check(min(l[5].time, l[6].time) <= tin <= max(l[5].time, l[6].time) or l[5] is l[6], "grids-around-time",
                  (l[5].time, l[6].time, tin))
        ctx.close(l[2], p, "places", rtol=1e-9, atol=1e-9)
        p2 = move(p, U * scale * tdir, A * scale * tdir, step)
        ctx.check(len(l[7]) == p.shape[1], "paths-count", len(l[7]))
        if np.any(np.abs(p2) > edge):
            ctx.count('left-box')
            return
        for k, path in enumerate(l[7]):
            ctx.close(path[:, 0], p[:, k], "path-start", rtol=1e-9, atol=1e-9)
            length = np.linalg.norm(p2[:, k] - p[:, k])
            ctx.close(path[:, -1], p2[:, k], "path-end", rtol=0, atol=1e-6 if kind == 0 else 2e-3 + 1e-3 * length)
        p = np.array([path[:, -1] for path in l[7]]).T
    if ret is not None:
        ctx.close(np.asarray(ret), p, "result", rtol=1e-9, atol=1e-9)
    else:
        ctx.violate("result", "nothing returned")
    ctx.saw(nt, kind, int(mode), str(sel), back, str(dti is None), len(log) > 3)


def scen_select(ctx, rng):
    """a part of space, also at times that need no interpolation"""
    import viscid
    nt = int(rng.randint(1, 4))
    times = [float(i) for i in range(nt)]
    data = [rand_flow(rng, 0, 0.3) for _ in range(nt)]
    ds = dset(times, data, np.zeros(nt), np.array([4.0, 4.0, 4.0]), 'interlaced', 'node', range(nt))
    sl = ["x=-2j:2j", "x=::2", "y=-3j:3j,z=::2"][rng.randint(3)]
    want = ds.get_grid(time=0)['v'][sl]
    shapes = []

    def cb(i, t, v_field=None, anc_fields=None, **kw):
        shapes.append((v_field.sshape, anc_fields['s'].sshape, [v_field.get_crd(a) for a in 'xyz']))
    ctx.note(sl=sl, nt=nt)
    viscid.follow_fluid(ds, viscid.Point(np.zeros((3, 2))), callback=cb, dt=0.5, fld_slc=sl, anc_keys=('s',))
    ctx.check(len(shapes) == 2 * nt - 1, "select-steps", len(shapes))
    for s in shapes:
        ctx.check(tuple(s[0]) == tuple(want.sshape) and tuple(s[1]) == tuple(want.sshape), "select-shape", s[:2])
        for a, b in zip(s[2], 'xyz'):
            ctx.same(a, want.get_crd(b), "select-crds")
    ctx.saw(sl, nt)


def outside(p, lo, hi, ib, orr):
    bad = np.any((p.T < lo) | (p.T > hi), axis=1)
    r2 = np.sum(np.asarray(p, 'f8')**2, axis=0)
    if ib:
        bad |= r2 < ib**2
    if orr:
        bad |= r2 > orr**2
    return bad


def scen_curators(ctx, rng):
    """batches of seeds in and out of bounds"""
    import viscid
    center = ['node', 'cell'][rng.randint(2)]
    ax = [np.sort(rng.uniform(-3, 3, size=rng.randint(4, 8))) for _ in range(3)]
    one = rng.randint(4)        # an axis with a single point is invariant
    v = viscid.zeros(ax, nr_comps=3, layout=['flat', 'interlaced'][rng.randint(2)], center=center, name='v')
    lo, hi = np.array([a[0] for a in ax]), np.array([a[-1] for a in ax])
    if one < 3:
        v = v["%s=1:2" % "xyz"[one]]
        lo[one], hi[one] = -np.inf, np.inf
    kw = {}
    if rng.rand() < 0.5:
        o0, o1 = rng.uniform(-3, 0, 3), rng.uniform(0, 3, 3)
        if rng.rand() < .4:
            o0, o1 = np.round(o0).astype(int) - 1, np.round(o1).astype(int) + 1
        lo, hi = o0.astype('f8'), o1.astype('f8')
        if one < 3:
            lo[one], hi[one] = -np.inf, np.inf
        k = rng.randint(3)
        kw.update(obound0=[np.array, list, tuple][k](o0), obound1=[np.array, list, tuple][k](o1))
    ib = orr = None
    if rng.rand() < 0.4:
        ib = kw['ibound'] = float(rng.uniform(0.3, 1))
    if rng.rand() < 0.4:
        orr = kw['obound_r'] = float(rng.uniform(1.2, 3))
    keep = {k: np.array(x) for k, x in kw.items()}
    kind = rng.randint(3)
    n = int(rng.randint(1, 12))
    orig = rng.uniform(-.5, .5, size=(3, n))
    new = rng.uniform(-1, 1, size=(3, int(rng.randint(1, 5))))
    cad = q = None
    if kind == 0:
        c = viscid.SeedCurator(**kw)
    elif kind == 1:
        q = rng.choice([-1.0, 1.0])
        cad = float(rng.choice([0.1, 0.5, 1.0]))
        c = viscid.ContinuousCurator(new.tolist() if rng.rand() < .3 else new, cadence=cad, **kw)
    else:
        given = rng.rand() < .6
        c = viscid.ReplacementCurator(orig if given else None, **kw)
    ctx.note(kind=int(kind), kw={k: str(x) for k, x in kw.items()}, one=int(one), cad=cad, center=center)
    snap = gen.snapshot(v)
    last, t = None, 0.0
    repl = orig.copy()
    for i in range(rng.randint(1, 6)):
        p = rng.uniform(-4, 4, size=(3, n))
        if rng.rand() < .3:
            p[:, 0] = [min(max(a, -9), 9) for a in lo]      # on the boundary
        dm = None
        mk = {}
        bad = outside(p, lo, hi, ib, orr)
        if rng.rand() < .3:
            dm = rng.rand(n) < .3
            mk['delmask'] = dm.copy()
            bad = bad | dm
        arg = p.copy()
        if kind == 2 and i == 0 and not given:
            repl = p.copy()
        got = np.asarray(c.update(v, arg, time=t, **mk))
        if kind == 0:
            ctx.same(got, p[:, ~bad], "removed")
        elif kind == 1:
            if last is None:
                last = t
            if abs(t - last) > cad:
                last = t
                ctx.same(got, np.concatenate([p[:, ~bad], new], axis=1), "continuous")
                ctx.count('added')
            else:
                # seeds may wait for their removal until the next time
                ctx.check(got.shape[0] == 3 and set(map(tuple, p[:, ~bad].T)) <= set(map(tuple, got.T)) <= set(map(tuple, p.T)),
                          "continuous-between", got)
            t += q * cad * rng.choice([0.3, 0.7, 1.5])
        else:
            w = p.copy()
            w[:, bad] = repl[:, bad]
            ctx.same(got, w, "replaced")
        ctx.saw(int(kind), int(one), bool(bad.any()), bool(bad.all()), dm is None, tuple(sorted(kw)))
    gen.check_unchanged(ctx, v, snap, "curator-field")
    for k in kw:
        ctx.same(np.array(kw[k]), keep[k], "curator-arguments")


SCENARIOS = [
    Scenario("follow", scen_follow, quick=800, thorough=1500, need=400),
    Scenario("select", scen_select, quick=80, thorough=60, need=20),
    Scenario("curators", scen_curators, quick=800, thorough=1500, need=200),
]

"""N08: line integrals, resampling, flux functions and point derivatives"""
import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen, ext
from n01_interp import ref_linear, three, rand_points, tols

PID = "N08"
TECHNIQUE = "runtime monitoring: every line integral, resampled line, flux function and point derivative compared with its definition evaluated in plain numpy on the model of the field"
RULE = ("random fields (1-3 axes, node/cell, scalar or vector in either layout, f4 f8 "
        "and integers, uniform and stretched) integrated along 1-7 lines of 1-9 "
        "vertices at once and one by one, lines of any number type with repeated "
        "vertices; resampling by factors 0.1-6; planar fields of a quadratic flux "
        "function on 2-d and thin 3-d grids; derivatives of noise and linear fields "
        "at points inside, on the boundary and outside")
ASSUMPTIONS = ["coordinates ascend", "vectors that are projected on a line have 3 components",
               "a line that is projected or integrated with direction has no two vertices so close that their distance underflows"]
LAY = ['flat', 'interlaced']


def setup():
    ext.ensure()


def refs(q, crds, vals):
    return np.array([np.asarray(ref_linear(p, crds, vals)[0]).reshape(-1) for p in np.asarray(q, 'f8').T])


def rand_src(rng, ncomp, dts=('f8', 'f8', 'f4', 'i4', 'i8'), lo=1, ndim=None):
    dt = dts[rng.randint(len(dts))]
    ndim = ndim or [3, 3, 3, 2, 1][rng.randint(5)]
    names = [['x', 'y', 'z']] if ndim == 3 else (
        [['x', 'y'], ['y', 'z'], ['x', 'z']] if ndim == 2 else [['x'], ['y'], ['z']])
    f, m, d = gen.rand_field(rng, ndim=ndim, dtype=dt, lo=lo, hi=7, ncomp=ncomp,
                             names=names[rng.randint(len(names))])
    if f.size <= 1:
        raise Skip()
    return f, m, d


def rand_lines(rng, crds, nmin=1):
    w = [max(c[-1] - c[0], 1.0) for c in crds]
    lines, kinds = [], set()
    for _ in range(rng.randint(1, 8)):
        n = int(rng.randint(nmin, 10))
        k = rng.randint(5)
        lo = np.array([c[0] - 0.2 * ww for c, ww in zip(crds, w)])
        hi = np.array([c[-1] + 0.2 * ww for c, ww in zip(crds, w)])
        if k == 0:      # straight, even
            a, b = rng.uniform(lo, hi), rng.uniform(lo, hi)
            l = a[:, None] + (b - a)[:, None] * np.linspace(0, 1, n)[None]
        elif k == 1:    # along one axis
            l = np.repeat(rng.uniform(lo, hi)[:, None], n, axis=1)
            d = rng.randint(3)
            l[d] = rng.uniform(lo[d], hi[d], size=n)
        elif k == 2 and n > 2:    # a vertex twice
            l = rng.uniform(lo[:, None], hi[:, None], size=(3, n))
            i = rng.randint(n - 1)
            l[:, i + 1] = l[:, i]
        elif k == 3:    # grid points
            l = np.array([c[rng.randint(len(c), size=n)] for c in crds])
        else:
            l = rng.uniform(lo[:, None], hi[:, None], size=(3, n))
        o = rng.randint(4)
        if o == 0:
            l = np.asfortranarray(l)
        elif o == 1:
            big = np.zeros((3, 2 * n))
            big[:, ::2] = l
            l = big[:, ::2]
        lines.append(l)
        kinds.add((k, min(n, 3)))
    return lines, kinds


def scen_integral(ctx, rng):
    """trapezoid sums along lines"""
    import viscid
    ncomp = [0, 3, 3][rng.randint(3)]
    f, m, d = rand_src(rng, ncomp)
    names, crds, vals = three(m)
    lines, kinds = rand_lines(rng, crds)
    red = ['dot', 'mag', ' Norm ', 'MAGNITUDE', 'Dot'][rng.randint(5)]
    f4 = m.vals.dtype == np.float32
    ctx.note(lines=[l.tolist() for l in lines[:3]], red=red, **d)
    want = []
    for l in lines:
        v = refs(l, crds, vals)
        v = np.asarray(v).reshape(l.shape[1], -1)
        seg = np.diff(l, axis=1).T
        mid = 0.5 * (v[1:] + v[:-1])
        if not ncomp:
            w = np.sum(mid[:, 0] * np.sqrt(np.sum(seg ** 2, axis=1)))
        elif red.strip().lower() == 'dot':
            w = np.sum(mid * seg)
        else:
            mag = np.sqrt(np.sum(v ** 2, axis=1))
            w = np.sum(0.5 * (mag[1:] + mag[:-1]) * np.sqrt(np.sum(seg ** 2, axis=1)))
        want.append(w)
    want = np.array(want)
    spread = np.max(np.abs(vals)) * max(np.sum(np.sqrt(np.sum(np.diff(l, axis=1) ** 2, axis=0))) for l in lines)
    atol = spread * tols(m, crds, f4) * 4 + 1e-300
    keep = [np.array(l) for l in lines]
    snap = gen.snapshot(f)
    kw = dict(reduction=red)
    if rng.randint(3) == 0:
        kw['interp_kind'] = ['trilin', 'linear'][rng.randint(2)]
    if rng.randint(4) == 0:
        kw['mask_func'] = lambda v: np.abs(v) > 1e30     # masks nothing
    arg = lines if rng.randint(2) else tuple(lines)
    got = viscid.integrate_along_lines(arg, f, **kw)
    ctx.close(got, want, "integral/values", rtol=1e-4 if f4 else 1e-9, atol=atol)
    ctx.count("lines integrated", len(lines))
    for a, b in zip(lines, keep):
        ctx.same(a, b, "integral/argument")
    gen.check_unchanged(ctx, f, snap, "integral/source")
    i = rng.randint(len(lines))
    one = viscid.integrate_along_line(lines[i], f, **kw)
    ctx.close(np.asarray(one), want[i], "integral/one", rtol=1e-4 if f4 else 1e-9, atol=atol)
    # reversed lines: the projection changes sign, the others don't
    rev = viscid.integrate_along_lines([l[:, ::-1] for l in lines[::-1]], f, **kw)[::-1]
    sg = -1 if ncomp and red.strip().lower() == 'dot' else 1
    ctx.close(rev, sg * want, "integral/reversed", rtol=1e-4 if f4 else 1e-9, atol=atol)
    if rng.randint(5) == 0:
        ctx.check(len(viscid.integrate_along_lines([], f, **kw)) == 0, "integral/none")
    if ncomp:
        ctx.raises(ValueError, lambda: viscid.integrate_along_lines(lines, f, reduction='sum'), "integral/unknown")
    ctx.saw(d['ncomp'], d['layout'], d['dtype'], d['center'], red.strip().lower(), tuple(sorted(kinds)), 'mask_func' in kw)


def scen_project(ctx, rng):
    """vectors projected on the direction of a line"""
    import viscid
    f, m, d = rand_src(rng, 3)
    names, crds, vals = three(m)
    lines, kinds = rand_lines(rng, crds, nmin=2)
    l = lines[0]
    seg = np.diff(l, axis=1)
    cen = l[:, 2:] - l[:, :-2]
    if np.any(np.sum(seg ** 2, axis=0) == 0) or np.any(np.sum(cen ** 2, axis=0) == 0):
        raise Skip()
    f4 = m.vals.dtype == np.float32
    ctx.note(line=l.tolist(), **d)
    t = np.concatenate([seg[:, :1], cen, seg[:, -1:]], axis=1)
    t = t / np.sqrt(np.sum(t ** 2, axis=0))
    v = np.asarray(refs(l, crds, vals)).reshape(-1, 3)
    want = np.sum(v * t.T, axis=1)
    keep = np.array(l)
    got = np.asarray(viscid.project_along_line(l, f))
    atol = np.max(np.abs(vals)) * tols(m, crds, f4) * 4
    ctx.close(got[1:-1], want[1:-1], "project/inner", rtol=1e-4 if f4 else 1e-9, atol=atol)
    # at the ends, the direction of the line is anything between the first
    # segment and the tangent at the next vertex
    for i, j in ((0, 1), (-1, -2)):
        alt = np.sum(v[i] * t[:, j])
        lo, hi = min(want[i], alt), max(want[i], alt)
        q = np.dot(t[:, i], t[:, j])
        if q > 0.999999999:
            ctx.check(lo - atol - 1e-4 * np.max(np.abs(vals)) <= got[i] <= hi + atol + 1e-4 * np.max(np.abs(vals)),
                      "project/end", lambda: "%r not in %r" % (got[i], (lo, hi)))
        ctx.check(np.isfinite(got[i]), "project/end finite")
    ctx.same(l, keep, "project/argument")
    ctx.saw(d['layout'], d['dtype'], d['center'], min(l.shape[1], 4))


def scen_resample(ctx, rng):
    """resampling keeps end points and the curve"""
    import viscid
    lines, kinds = rand_lines(rng, [np.array([-5.0, 5.0])] * 3, nmin=1)
    nd = [3, 3, 2][rng.randint(3)]
    lines = [l[:nd] for l in lines]
    dt = ['f8', 'f8', 'f4', 'i4'][rng.randint(4)]
    lines = [l.astype(dt) for l in lines]
    factor = [2, 3, 1, 0.5, 6, float(rng.uniform(0.1, 5)), 1.0 / 3][rng.randint(7)]
    kind = ['linear', 'linear', 'quadratic', 'cubic'][rng.randint(4)]
    if kind != 'linear':
        lines = [l for l in lines if l.shape[1] >= 5 and not np.any(np.all(np.diff(l, axis=1) == 0, axis=0))]
        if not lines:
            raise Skip()
    ctx.note(lines=[l.tolist() for l in lines[:3]], factor=factor, kind=kind, dtype=dt)
    keep = [np.array(l) for l in lines]
    arg = list(lines)
    got = viscid.resample_lines(arg, factor=factor, kind=kind)
    ctx.check(len(got) == len(keep), "resample/count")
    ctx.check(len(arg) == len(lines) and all(a is b for a, b in zip(arg, lines)), "resample/argument list")
    tol = 1e-5 if dt == 'f4' else 1e-9
    for new, old, orig in zip(got, keep, lines):
        ctx.same(orig, old, "resample/argument")
        n = old.shape[1]
        if factor == 1 or n == 1:
            ctx.close(np.asarray(new, 'f8')[:, [0, -1]], old[:, [0, -1]].astype('f8'), "resample/ends", rtol=0, atol=tol * 10)
            continue
        k = new.shape[1]
        ctx.check(k == int(np.ceil(factor * (n - 1))) + 1, "resample/number", lambda: "%d of %d x %r" % (k, n, factor))
        if k < 2:
            continue
        ctx.close(new[:, [0, -1]], old[:, [0, -1]].astype('f8'), "resample/ends", rtol=0, atol=tol * 10)
        t = np.linspace(0, 1, k) * (n - 1)
        if kind == 'linear':
            want = np.array([np.interp(t, np.arange(n), r) for r in old.astype('f8')])
            ctx.close(new, want, "resample/curve", rtol=0, atol=tol * 10)
        else:
            at = np.argwhere(np.abs(t - np.round(t)) < 1e-9).reshape(-1)
            ctx.close(new[:, at], old.astype('f8')[:, np.round(t[at]).astype(int)], "resample/vertices",
                      rtol=0, atol=1e3 * tol)
        ctx.count("lines resampled")
    ctx.raises(ValueError, lambda: viscid.resample_lines(list(lines), factor=-factor), "resample/negative")
    ctx.saw(round(factor, 1), kind, dt, nd, tuple(sorted(kinds)))


def scen_psi(ctx, rng):
    """flux functions of planar fields"""
    import viscid
    comps = ['xy', 'yz', 'xz'][rng.randint(3)]
    center = ['node', 'cell'][rng.randint(2)]
    thin = [0, 0, 1, 2][rng.randint(4)]      # points along the third axis, 0: a 2-d field
    n = rng.randint(3, 9, size=2)
    if rng.randint(4) == 0:
        n[1] = n[0]
    dt = ['f8', 'f8', 'f4', 'i4'][rng.randint(4)]
    axes = gen.rand_axes(rng, n, center, names=comps, kind='int' if dt == 'i4' else None)
    if dt == 'i4':
        center = 'node'
        axes = gen.rand_axes(rng, n, 'node', names=comps, kind='int')
    c = [a.nc if center == 'node' else a.cc for a in axes]
    # psi = a y^2 + b y z + e z^2 + g y + h z ;  hz = dpsi/dy, hy = -dpsi/dz
    co = rng.randint(-4, 5, size=5).astype('f8') if dt == 'i4' else rng.standard_normal(5)
    if dt == 'i4':
        co[[0, 2]] *= 0.5       # whole components, but psi has halves
    Y, Z = np.meshgrid(*c, indexing='ij')
    psi0 = co[0] * Y ** 2 + co[1] * Y * Z + co[2] * Z ** 2 + co[3] * Y + co[4] * Z
    hz = 2 * co[0] * Y + co[1] * Z + co[3]
    hy = -(co[1] * Y + 2 * co[2] * Z + co[4])
    vals = np.zeros(list(n) + [3])
    ix = ['xyz'.index(ch) for ch in comps]
    vals[..., ix[0]], vals[..., ix[1]] = hy, hz
    oth = ({0, 1, 2} - set(ix)).pop()
    vals[..., oth] = rng.randint(-9, 9, size=n)
    axs = list(axes)
    if thin:
        vals = np.repeat(np.expand_dims(vals, oth), thin, axis=oth)
        axs.insert(oth, gen.rand_axes(rng, [thin], center, names=['xyz'[oth]])[0])
    m = gen.Model(vals.astype(dt), axs, center, 3)
    lay = LAY[rng.randint(2)]
    f = gen.make_field(rng, m, layout=lay, crd_type=['AUTO', 'nonuniform'][rng.randint(2)],
                       order=['C', 'F', 'strided'][rng.randint(3)], name='b')
    tr = rng.randint(4) == 0
    if tr:
        f = f.transpose()
    rev = bool(rng.randint(2))
    ctx.note(comps=comps, center=center, thin=thin, n=n, dtype=dt, layout=lay, transposed=tr, rev=rev, co=co)
    snap = gen.snapshot(f)
    psi = viscid.calc_psi(f, rev=rev) if rng.randint(2) or rev else viscid.calc_psi(f)
    gen.check_unchanged(ctx, f, snap, "psi/source")
    ctx.check(not psi.nr_comps and psi.iscentered(center), "psi/kind")
    ctx.check(set(comps) <= set(psi.crds.axes), "psi/axes", lambda: repr(psi.crds.axes))
    got = np.asarray(gen.canon(psi), 'f8')
    ax = list(psi.crds.axes)
    for a, cc in zip(axes, c):
        ctx.close(psi.get_crd(a.name), cc, "psi/coordinates", rtol=1e-6, atol=1e-12)
    extra = [i for i, a in enumerate(ax) if a not in comps]
    got = np.squeeze(got, axis=tuple(extra))
    if [a for a in ax if a in comps] != list(comps):
        got = got.T
    tol = (3e-5 if dt == 'f4' else 1e-10) * (np.max(np.abs(psi0)) + np.max(np.abs(hy)) * np.ptp(c[1]) +
                                            np.max(np.abs(hz)) * np.ptp(c[0]) + 1e-30)
    ref = psi0 - (psi0[-1, -1] if rev else psi0[0, 0])
    d = got - ref
    ctx.close(d - d[0, 0], np.zeros_like(d), "psi/values", rtol=0, atol=tol)
    ctx.count("flux functions")
    ctx.saw(comps, center, thin, dt, lay, tr, rev)


def scen_point(ctx, rng):
    """derivatives at a point"""
    import viscid
    from viscid.calculator import calc
    linear = bool(rng.randint(2))
    f, m, d = rand_src(rng, 3, dts=['f8', 'f8', 'f4', 'i4'] if not linear else ['f8', 'f4'], lo=3, ndim=3)
    names, crds, vals = three(m)
    M = None
    if linear:
        M = rng.standard_normal((3, 3))
        X = np.stack(np.meshgrid(*crds, indexing='ij'), axis=-1)
        off = np.array([0.5 * (c[0] + c[-1]) for c in crds])
        m.vals[...] = ((X - off) @ M.T).astype(m.vals.dtype)
        vals = m.vals.astype('f8')
        f = gen.make_field(rng, m, layout=LAY[rng.randint(2)], crd_type=['AUTO', 'nonuniform'][rng.randint(2)])
    f4 = m.vals.dtype == np.float32
    dx = np.array([np.min(np.diff(c)) * rng.uniform(0.05, 0.95) for c in crds])
    none = bool(rng.randint(2))
    p, near = [], []
    for i, c in enumerate(crds):
        k = rng.randint(len(c))
        near.append(k)
        r = rng.randint(4)
        if none and r < 3 and len(c) > 2:
            k = rng.randint(1, len(c) - 1)
            near[-1] = k
            # nearest grid point is k, clearly
            p.append(c[k] + rng.uniform(-0.4, 0.4) * (min(c[k] - c[k - 1], c[k + 1] - c[k])))
        elif linear:
            p.append(rng.uniform(c[0] + dx[i], c[-1] - dx[i]))
        else:
            p.append(rng.uniform(c[0] - dx[i], c[-1] + dx[i]))
    p = np.array(p)
    ctx.note(point=p, dx=None if none else dx, linear=linear, M=M, **d)
    kw = {} if none else dict(dx=dx[0], dy=dx[1], dz=dx[2])
    if not none and rng.randint(2):
        kw = dict(zip(('dx', 'dy', 'dz'), [float(q) for q in dx]))
    snap = gen.snapshot(f)
    J = calc.jacobian_at_point(f, *p, **kw)
    gen.check_unchanged(ctx, f, snap, "point/source")
    bs, pts, dc = calc.local_vector_points(f, *p, **kw)
    dc = [float(np.asarray(q).reshape(-1)[0]) for q in dc]
    if none:
        for i, c in enumerate(crds):
            ok = [b - a for a, b in zip(c[:-1], c[1:])]
            ctx.check(min(abs(dc[i] - q) for q in ok) <= 1e-9 * max(ok), "point/spacing")
    else:
        ctx.close(dc, dx, "point/given spacing", rtol=1e-12)
    want = np.zeros((3, 3))
    stencil = []
    inside = True
    for i in range(3):
        e = np.zeros(3)
        e[i] = dc[i]
        q = np.stack([p - e, p + e], axis=1)
        inside &= bool(q[i, 0] >= crds[i][0] and q[i, 1] <= crds[i][-1])
        v = np.asarray(refs(q, crds, vals)).reshape(2, 3)
        want[:, i] = (v[1] - v[0]) / (2 * dc[i])
        stencil += [q[:, 0], q[:, 1]]
    ctx.close(pts, np.array(stencil), "point/stencil", rtol=1e-9, atol=1e-12 * np.max(np.abs(stencil)))
    scale = np.max(np.abs(vals))
    mx = [max(abs(c[0]), abs(c[-1])) for c in crds]
    amp = np.array([scale * (tols(m, crds, f4) * 8 + (1e-6 * mm / np.min(np.diff(c)) if f4 else 1e-13 * mm / np.min(np.diff(c)))) / s
                    for s, mm, c in zip(dc, mx, crds)])
    for i in range(3):
        ctx.close(J[:, i], want[:, i], "point/jacobian", rtol=1e-3 if f4 else 1e-8, atol=amp[i])
        if linear and inside:
            ctx.close(J[:, i], M[:, i], "point/linear", rtol=1e-3 if f4 else 1e-7, atol=4 * amp[i])
    ctx.close(np.asarray(calc.div_at_point(f, *p, **kw)).reshape(()), np.trace(want), "point/div", rtol=1e-3 if f4 else 1e-8, atol=3 * np.sum(amp))
    cu = calc.curl_at_point(f, *p, **kw)
    ctx.close(np.asarray(cu).reshape(3), [want[2, 1] - want[1, 2], want[0, 2] - want[2, 0], want[1, 0] - want[0, 1]],
              "point/curl", rtol=1e-3 if f4 else 1e-8, atol=3 * np.sum(amp))
    if not f4:
        ev, evec = calc.jacobian_eig_at_point(f, *p, **kw)
        ctx.close(want @ evec, evec * ev[None], "point/eig", rtol=1e-6, atol=1e-6 * np.max(np.abs(want)) + 30 * np.sum(amp))
        ind = [int(rng.randint(len(c))) for c in crds]
        ev, evec = calc.jacobian_eig_at_ind(f, *ind)
        JJ = calc.jacobian_at_ind(f, *ind)
        ctx.close(JJ @ evec, evec * ev[None], "point/eig at index", rtol=1e-6, atol=1e-6 * np.max(np.abs(JJ)))
    ctx.count("point derivatives")
    ctx.saw(linear, none, d['dtype'], d['center'], d['layout'], inside)


SCENARIOS = [
    Scenario("integral", scen_integral, quick=3000, thorough=30000, need=3000),
    Scenario("project", scen_project, quick=1000, thorough=8000, need=400),
    Scenario("resample", scen_resample, quick=1600, thorough=15000, need=1000),
    Scenario("psi", scen_psi, quick=2000, thorough=15000, need=2000),
    Scenario("point", scen_point, quick=2400, thorough=20000, need=4000),
]

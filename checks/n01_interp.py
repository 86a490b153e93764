"""N01: interpolation matches the trilinear and nearest definitions"""
import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen, ext

PID = "N01"
TECHNIQUE = "runtime monitoring: every interpolated value compared with the definition evaluated in plain numpy, plus bounds, linearity and independence monitors"
RULE = ("random fields (1-3 axes, node/cell, scalar or 1-4 components, f4 f8 i4 "
        "i8, any layout and memory order, uniform and stretched) sampled at points "
        "inside, on grid points, on cell faces, just and very far outside, given as "
        "arrays, generators and fields, in any order and one at a time")
ASSUMPTIONS = ["coordinates ascend", "sample points are finite",
               "fields of more than 3 dimensions cannot be sampled"]


def setup():
    ext.ensure()


def ref_index(x, c):
    """clamped position: lower index, upper index, fraction"""
    if len(c) == 1 or x <= c[0]:
        return 0, 0, 0.0
    if x >= c[-1]:
        return len(c) - 1, len(c) - 1, 0.0
    i = int(np.searchsorted(c, x, side='right')) - 1
    i = min(max(i, 0), len(c) - 2)
    return i, i + 1, (x - c[i]) / (c[i + 1] - c[i])


def ref_linear(p, crds, vals):
    """blend of the surrounding values: value, low, high"""
    idx = [ref_index(x, c) for x, c in zip(p, crds)]
    out = 0.0
    sub = vals[np.ix_(*[[i, j] for i, j, _ in idx])]
    for a in (0, 1):
        for b in (0, 1):
            for c in (0, 1):
                w = 1.0
                for k, (_, _, f) in zip((a, b, c), idx):
                    w = w * (f if k else 1.0 - f)
                out = out + w * sub[a, b, c]
    # surrounding values, one cell wider where the point is on a cell face
    lo, hi = [], []
    for (i, j, f), c in zip(idx, crds):
        lo.append(max(i - (1 if f < 1e-5 else 0), 0))
        hi.append(min(j + (1 if f > 1 - 1e-5 else 0), len(c) - 1))
    box = vals[lo[0]:hi[0] + 1, lo[1]:hi[1] + 1, lo[2]:hi[2] + 1]
    return out, box.min(axis=(0, 1, 2)), box.max(axis=(0, 1, 2))


def three(m):
    """model extended to 3 axes the way a field is: names, crds, vals[x, y, z, c]"""
    vals = m.vals if m.ncomp else m.vals[..., None]
    names = [a.name for a in m.axes]
    crds = m.crds()
    full = list(names)
    if len(names) < 3:
        fill = [n for n in 'xyz' if n not in names][:3 - len(names)]
        full = sorted(names + fill)
    out, k = [], 0
    for i, n in enumerate(full):
        if n in names:
            out.append(np.asarray(crds[names.index(n)], 'f8'))
        else:
            out.append(np.array([0.0]))
            vals = np.expand_dims(vals, i)
    return full, out, vals.astype('f8')


def rand_points(rng, crds, n):
    pts = np.empty((3, n))
    kinds = []
    for k in range(n):
        q = []
        for d, c in enumerate(crds):
            w = (c[-1] - c[0]) or 1.0
            r = rng.randint(9)
            if r <= 3:
                v = rng.uniform(c[0], c[-1]) if len(c) > 1 else rng.uniform(-2, 2)
            elif r == 4:
                v = c[rng.randint(len(c))]
            elif r == 5 and len(c) > 1:
                i = rng.randint(len(c) - 1)
                v = c[i] + (c[i + 1] - c[i]) * [1e-9, 0.5, 1 - 1e-9][rng.randint(3)]
            elif r == 6:
                v = [c[0] - w * 10.0 ** rng.uniform(-8, 1), c[-1] + w * 10.0 ** rng.uniform(-8, 1)][rng.randint(2)]
            elif r == 7:
                v = [-1, 1][rng.randint(2)] * 10.0 ** rng.uniform(3, 30)
            else:
                v = [c[0], c[-1]][rng.randint(2)]
            q.append(r)
            pts[d, k] = v
        kinds.append(tuple(q))
    return pts, kinds


def rand_src(rng, **kw):
    dt = ['f8', 'f8', 'f4', 'i4', 'i8'][rng.randint(5)]
    ndim = kw.pop('ndim', None) or [3, 3, 3, 2, 1][rng.randint(5)]
    names = [['x', 'y', 'z']] if ndim == 3 else (
        [['x', 'y'], ['y', 'z'], ['x', 'z']] if ndim == 2 else [['x'], ['y'], ['z']])
    names = names[rng.randint(len(names))]
    f, m, d = gen.rand_field(rng, ndim=ndim, dtype=dt, lo=1, hi=7, names=names,
                             ncomp=[0, 0, 3, 2, 4][rng.randint(5)], **kw)
    return f, m, d


def tols(m, crds, f4):
    """per-point tolerance as a fraction of the values' spread"""
    if not f4:
        return 1e-9
    r = 1e-6
    for c in crds:
        if len(c) > 1:
            r = max(r, 4e-7 * np.max(np.abs(c)) / np.min(np.diff(c)))
    return 8 * r


def as_given(rng, pts):
    """the same points in the ways a caller may give them"""
    import viscid
    k = rng.randint(6)
    if k == 0:
        return pts, 'array'
    if k == 1:
        return viscid.Point(pts), 'Point'
    if k == 2:
        return pts.tolist(), 'lists'
    if k == 3:
        return viscid.Point(pts, cache=True), 'cached'
    if k == 4:
        return np.asfortranarray(pts), 'fortran'
    big = np.zeros((6, 2 * pts.shape[1]))
    big[::2, ::2] = pts
    return big[::2, ::2], 'strided'


def values_of(r, npts):
    d = gen.canon(r) if hasattr(r, 'crds') else np.asarray(r)
    return np.asarray(d).reshape(npts, -1)


def scen_linear(ctx, rng):
    import viscid
    f, m, d = rand_src(rng)
    if not hasattr(f, 'crds'):
        raise Skip()
    names, crds, vals = three(m)
    f4 = d['dtype'] == 'f4'
    n = int([1, 2, 3, 4, 5, 12, 30][rng.randint(7)])
    pts, kinds = rand_points(rng, crds, n)
    snap = gen.snapshot(f)
    spread = float(np.max(np.abs(vals))) + 1e-300
    fn = [viscid.interp_trilin, viscid.interp_linear,
          lambda *a, **k: viscid.interp(*a, kind='linear', **k),
          lambda *a, **k: viscid.interp(*a, kind=' TriLin', **k),
          lambda *a, **k: viscid.interp(*a, kind='nearest', method='trilinear', **k)][rng.randint(5)]
    given, how = as_given(rng, pts)
    wrap = bool(rng.randint(2))
    got = values_of(fn(f, given, wrap=wrap), n)
    use = pts.astype('f4').astype('f8') if f4 else pts
    cr = [c.astype('f4').astype('f8') for c in crds] if f4 else crds
    tol = tols(m, crds, f4) * spread
    ctx.check(got.shape == (n, vals.shape[-1]), "linear/shape", lambda: "%s %s" % (got.shape, d))
    for k in range(n):
        w, lo, hi = ref_linear(use[:, k], cr, vals)
        ctx.close(got[k], w, "linear/value", rtol=0, atol=tol,
                  msg=lambda: "%s at %s kinds %s how %s" % (d, pts[:, k], kinds[k], how))
        ctx.check(np.all(got[k] >= lo - tol * 1e-3 - 1e-12 * spread) and
                  np.all(got[k] <= hi + tol * 1e-3 + 1e-12 * spread) if not f4 else
                  np.all(got[k] >= lo - tol) and np.all(got[k] <= hi + tol),
                  "linear/bounds", lambda: "%s not in [%s, %s] at %s %s" % (got[k], lo, hi, pts[:, k], d))
    gen.check_unchanged(ctx, f, snap, "linear/source")
    ctx.saw(d['center'], d['ncomp'], d['layout'], d['dtype'], d['order'], d['crd_type'],
            tuple(d['sshape']), how, wrap, n)


def scen_gridpoints(ctx, rng):
    """grid values at grid points; linear functions everywhere inside"""
    import viscid
    f, m, d = rand_src(rng)
    if not hasattr(f, 'crds'):
        raise Skip()
    names, crds, vals = three(m)
    f4 = d['dtype'] == 'f4'
    mesh = np.array([g.ravel() for g in np.meshgrid(*crds, indexing='ij')])
    order = rng.permutation(mesh.shape[1])[:40]
    kind = ['linear', 'nearest'][rng.randint(2)]
    got = values_of(viscid.interp(f, mesh[:, order], kind=kind, wrap=bool(rng.randint(2))), len(order))
    want = vals.reshape(-1, vals.shape[-1])[order]
    sp = np.max(np.abs(vals)) + 1e-300
    ctx.close(got, want, "gridpoints/" + kind, rtol=0,
              atol=(tols(m, crds, f4) * sp if kind == 'linear' else 0.0), msg=lambda: str(d))
    # linear function
    lin = gen.Model(None, m.axes, m.center, m.ncomp)
    nd = len(m.axes)
    coef = rng.uniform(-2, 2, size=(nd + 1, max(m.ncomp, 1)))
    gr = np.meshgrid(*m.crds(), indexing='ij')
    v = coef[0] + sum(g[..., None] * coef[i + 1] for i, g in enumerate(gr))
    lin.vals = v if m.ncomp else v[..., 0]
    if lin.vals.size == 1:
        raise Skip()
    g = gen.make_field(rng, lin, layout=['flat', 'interlaced'][rng.randint(2)],
                       crd_type=['AUTO', 'nonuniform'][rng.randint(2)])
    n = 10
    pts = np.array([rng.uniform(c[0], c[-1], size=n) if len(c) > 1 else rng.uniform(-5, 5, size=n)
                    for c in crds])
    got = values_of(viscid.interp_trilin(g, pts), n)
    pos = [names.index(a.name) for a in m.axes]
    want = coef[0] + sum(np.where(len(m.crds()[i]) > 1, pts[pos[i]], m.crds()[i][0])[:, None] * coef[i + 1]
                         for i in range(nd))
    sp = np.max(np.abs(lin.vals)) + 1
    ctx.close(got, want, "linearfunction", rtol=0, atol=1e-9 * sp, msg=lambda: str(d))
    ctx.saw(d['center'], d['ncomp'], d['layout'], d['dtype'], tuple(d['sshape']), kind)


def scen_nearest(ctx, rng):
    import viscid
    f, m, d = rand_src(rng)
    if not hasattr(f, 'crds'):
        raise Skip()
    names, crds, vals = three(m)
    f4 = d['dtype'] == 'f4'
    n = int([1, 3, 4, 20][rng.randint(4)])
    pts, kinds = rand_points(rng, crds, n)
    fn = [viscid.interp_nearest, lambda *a, **k: viscid.interp(*a, kind='nearest', **k),
          lambda *a, **k: viscid.interp(*a, kind='linear', method='nearest', **k)][rng.randint(3)]
    given, how = as_given(rng, pts)
    got = values_of(fn(f, given, wrap=bool(rng.randint(2))), n)
    cands = 0
    for k in range(n):
        opts = []
        for d_, c in enumerate(crds):
            dist = np.abs(c - pts[d_, k])
            w = np.max(np.abs(c)) + abs(pts[d_, k] if abs(pts[d_, k]) < 1e6 else 0)
            eps = (3e-6 if f4 else 1e-12) * w
            far = min(max(pts[d_, k], c[0]), c[-1])
            dist = np.abs(c - far)
            opts.append(np.nonzero(dist <= dist.min() + 2 * eps)[0])
        sub = vals[np.ix_(*opts)].reshape(-1, vals.shape[-1])
        hit = np.any(np.all(sub.astype(d['dtype']).astype('f8') == got[k], axis=1))
        ctx.check(hit, "nearest/value", lambda: "%s not in %s at %s %s %s" % (
            got[k], sub[:3], pts[:, k], d, crds))
        cands += len(sub)
    ctx.saw(d['center'], d['ncomp'], d['layout'], d['dtype'], d['crd_type'], tuple(d['sshape']), how)


def scen_staggered(ctx, rng):
    """components that sit on faces or edges have coordinates of their own"""
    import viscid
    sh = [int(v) for v in rng.randint(2, 7, size=3)]
    axes = gen.rand_axes(rng, sh, 'cell', kind=[None, 'uniform', 'stretched'][rng.randint(3)])
    dt = ['f8', 'f8', 'f4'][rng.randint(3)]
    m = gen.Model(gen.rand_vals(rng, sh + [3], dt), axes, 'cell', 3)
    lay = ['flat', 'interlaced'][rng.randint(2)]
    f = gen.make_field(rng, m, layout=lay, name="s")
    where = ['face', 'edge'][rng.randint(2)]
    f.center = where
    vals = m.vals.astype('f8')
    f4 = dt == 'f4'
    spread = float(np.max(np.abs(vals))) + 1e-300
    kind = ['linear', 'nearest'][rng.randint(2)]
    own = []
    for i in range(3):
        own.append([np.asarray((a.nc[:-1] if (j == i) == (where == 'face') else a.cc), 'f8')
                    for j, a in enumerate(axes)])
    both = [np.unique(np.concatenate([a.nc, a.cc]).astype('f8')) for a in axes]
    n = int([1, 4, 20][rng.randint(3)])
    pts, kinds = rand_points(rng, both, n)
    wrap = bool(rng.randint(2))
    got = values_of(viscid.interp(f, pts, kind=kind, wrap=wrap), n)
    ctx.check(got.shape == (n, 3), "staggered/shape", lambda: repr(got.shape))
    use = pts.astype('f4').astype('f8') if f4 else pts
    for i in range(3):
        cr = [c.astype('f4').astype('f8') for c in own[i]] if f4 else own[i]
        tol = tols(m, cr, f4) * spread
        for k in range(n):
            msg = lambda: "%s comp %d at %s %s %s %s" % (where, i, pts[:, k], sh, lay, dt)  # noqa
            if kind == 'linear':
                w, _, _ = ref_linear(use[:, k], cr, vals[..., i:i + 1])
                ctx.close(got[k, i], w[0], "staggered/linear", rtol=0, atol=tol, msg=msg)
            else:
                opts = []
                for d_, c in enumerate(own[i]):
                    x = pts[d_, k]
                    far = min(max(x, c[0]), c[-1])
                    eps = (3e-6 if f4 else 1e-12) * (np.max(np.abs(c)) + (abs(x) if abs(x) < 1e6 else 0))
                    dist = np.abs(c - far)
                    opts.append(np.nonzero(dist <= dist.min() + 2 * eps)[0])
                sub = vals[..., i][np.ix_(*opts)].ravel()
                ctx.check(np.any(sub.astype(dt).astype('f8') == got[k, i]), "staggered/nearest", msg)
    ctx.saw(where, lay, dt, tuple(sh), kind, n)


def scen_independent(ctx, rng):
    """a point's result depends on nothing but the point"""
    import viscid
    f, m, d = rand_src(rng)
    if not hasattr(f, 'crds'):
        raise Skip()
    names, crds, vals = three(m)
    n = int(rng.randint(2, 25))
    pts, kinds = rand_points(rng, crds, n)
    kind = ['linear', 'nearest'][rng.randint(2)]
    whole = values_of(viscid.interp(f, pts, kind=kind, wrap=False), n)
    # a point on the face of two cells may be looked up in either of them,
    # and that is a matter of roundoff
    eps = np.finfo('f4' if d['dtype'] == 'f4' else 'f8').eps
    tol = 0.0 if kind == 'nearest' else 32 * eps * (np.max(np.abs(vals)) + 1e-300)

    def same(got, want, key, msg):
        if tol:
            ctx.close(got, want, key, rtol=0, atol=tol, msg=msg)
        else:
            ctx.same(got, want, key, msg)

    perm = rng.permutation(n)
    same(values_of(viscid.interp(f, pts[:, perm], kind=kind), n), whole[perm],
             "independent/order", lambda: "%s %s" % (kind, d))
    k = int(rng.randint(n))
    same(values_of(viscid.interp(f, pts[:, k:k + 1], kind=kind), 1), whole[k:k + 1],
             "independent/alone", lambda: "%s %s" % (kind, d))
    dup = rng.randint(0, n, size=2 * n)
    same(values_of(viscid.interp(f, pts[:, dup], kind=kind), 2 * n), whole[dup],
             "independent/repeated", lambda: "%s %s" % (kind, d))
    given, how = as_given(rng, pts)
    same(values_of(viscid.interp(f, given, kind=kind, wrap=bool(rng.randint(2))), n), whole,
             "independent/how", lambda: "%s %s %s" % (kind, how, d))
    # layout, order and dtype of the field
    lay = ['flat', 'interlaced'][rng.randint(2)]
    g = gen.make_field(rng, m, layout=lay, crd_type=d['crd_type'] if d['crd_type'] != 'uniform' else 'AUTO',
                       order=['C', 'F', 'strided'][rng.randint(3)])
    same(values_of(viscid.interp(g, pts, kind=kind), n), whole, "independent/layout",
             lambda: "%s %s %s" % (kind, lay, d))
    if d['dtype'] in ('i4', 'i8'):
        h = f.astype('f8')
        if hasattr(h, 'crds'):
            ctx.close(values_of(viscid.interp(h, pts, kind=kind), n), whole, "independent/dtype",
                      rtol=0, atol=1e-9 * 1000, msg=lambda: "%s %s" % (kind, d))
    # uniform and explicit coordinates
    if kind == 'linear':
        g2 = gen.make_field(rng, m, layout=lay, crd_type='nonuniform')
        sp = np.max(np.abs(vals)) + 1e-300
        ctx.close(values_of(viscid.interp(g2, pts), n), whole, "independent/crdtype", rtol=0,
                  atol=2 * tols(m, crds, d['dtype'] == 'f4') * sp, msg=lambda: str(d))
    ctx.saw(kind, n, how, lay, d['center'], d['ncomp'], d['dtype'], tuple(d['sshape']))


def scen_geometry(ctx, rng):
    """results keep the geometry of what they were sampled on"""
    import viscid
    f, m, d = rand_src(rng, ndim=3)
    if not hasattr(f, 'crds'):
        raise Skip()
    names, crds, vals = three(m)
    f4 = d['dtype'] == 'f4'
    kind = ['linear', 'nearest'][rng.randint(2)]
    xl = np.array([c[0] for c in crds]) - rng.uniform(0, 1)
    xh = np.array([c[-1] for c in crds]) + rng.uniform(0, 1)
    what = ['volume', 'plane', 'line', 'field', 'sphere', 'point'][rng.randint(6)]
    nn = [int(v) for v in rng.randint(1, 5, size=3)]
    if rng.randint(3) == 0:
        nn = [max(m.ncomp, 1)] * 3      # as many points as components
    if what == 'volume':
        s = viscid.Volume(xl=xl, xh=xh, n=nn)
        shape = nn
    elif what == 'plane':
        s = viscid.Plane(p0=0.5 * (xl + xh), pN=rng.standard_normal(3), pL=rng.standard_normal(3),
                         len_l=1.0, len_m=2.0, nl=nn[0], nm=nn[1])
    elif what == 'line':
        s = viscid.Line(p0=xl, p1=xh, n=nn[0])
    elif what == 'sphere':
        s = viscid.Sphere(p0=0.5 * (xl + xh), r=1.0, ntheta=nn[0] + 1, nphi=nn[1] + 1)
    elif what == 'point':
        s = viscid.Point(rng.uniform(-1, 1, size=(3, nn[0])))
    else:
        sc = ['node', 'cell'][rng.randint(2)]
        sm = gen.Model(rng.standard_normal(nn), gen.rand_axes(rng, nn, sc), sc, 0)
        s = gen.make_field(rng, sm, crd_type=['AUTO', 'nonuniform'][rng.randint(2)])
        if not hasattr(s, 'crds'):
            raise Skip()
    r = viscid.interp(f, s, kind=kind)
    raw = viscid.interp(f, s, kind=kind, wrap=False)
    p = np.asarray(s.get_points())
    n = p.shape[1]
    tol = tols(m, crds, f4) * (np.max(np.abs(vals)) + 1e-300)
    raw = np.asarray(raw).reshape(n, -1)
    if kind == 'linear':
        use = p.astype('f4').astype('f8') if f4 else p
        cr = [c.astype('f4').astype('f8') for c in crds] if f4 else crds
        for k in range(min(n, 30)):
            w, _, _ = ref_linear(use[:, k], cr, vals)
            ctx.close(raw[k], w, "geometry/raw", rtol=0, atol=tol, msg=lambda: "%s %s" % (what, d))
    else:
        ctx.same(values_of(viscid.interp(f, p, kind='nearest', wrap=False), n), raw, "geometry/raw",
                 lambda: "%s %s" % (what, d))
    ctx.check(hasattr(r, 'crds'), "geometry/type", lambda: "%r %s" % (type(r), what))
    ctx.check(int(r.nr_comps) == (m.ncomp if m.ncomp > 1 else 0) or m.ncomp == 1, "geometry/ncomps",
              lambda: "%s %s %s %s" % (r.nr_comps, what, nn, d))
    ctx.same(values_of(r, n), raw, "geometry/values",
             lambda: "%s %s %s %s" % (what, nn, r.layout, d))
    if what in ('volume', 'field'):
        ctx.check(list(r.crds.axes) == ['x', 'y', 'z'], "geometry/axes")
        want = s.get_crds() if what == 'field' else [np.linspace(a, b, k) for a, b, k in zip(xl, xh, nn)]
        for g, w in zip(r.get_crds(), want):
            ctx.close(g, w, "geometry/crds", rtol=1e-11, atol=1e-11 * np.max(np.abs(w)),
                      msg=lambda: "%s %s" % (what, d))
        if what == 'field':
            ctx.check(r.center == s.center, "geometry/center")
    ctx.saw(what, kind, tuple(nn), d['ncomp'], d['dtype'])


SCENARIOS = [
    Scenario("linear", scen_linear, quick=2500, thorough=60000, need=20000),
    Scenario("gridpoints", scen_gridpoints, quick=1200, thorough=30000, need=2000),
    Scenario("nearest", scen_nearest, quick=2000, thorough=50000, need=8000),
    Scenario("staggered", scen_staggered, quick=1200, thorough=30000, need=6000),
    Scenario("independent", scen_independent, quick=1200, thorough=30000, need=6000),
    Scenario("geometry", scen_geometry, quick=1500, thorough=40000, need=8000),
]

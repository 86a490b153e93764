"""G04 seed generators"""
from __future__ import print_function
import datetime as dtm

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext
from g02_rotation import rod
import viscid

PID = "G04"
TECHNIQUE = ("runtime monitoring: the points, iterators, meshes and wrapped "
             "fields that the real generators return are judged by the "
             "geometric formula of the shape, evaluated independently, and "
             "by each other")
RULE = ("an execution counts when all points of a generator were compared "
        "with the formula, and samples of a function at the points were "
        "wrapped and looked up at the grid coordinates; signatures are "
        "(generator, sizes, options)")
ASSUMPTIONS = [
    "a spline of up to 6 knots goes through its knots at the curve's ends; "
    "others are compared with the fit that scipy makes for the same options",
    "the azimuth of phi=0 for a pole along -z is not prescribed, as the "
    "minimal rotation is not unique",
]


def setup():
    ext.ensure()


def rvec(rng, lo=0.2, hi=5.0):
    v = rng.randn(3)
    k = rng.randint(6)
    if k == 0:
        v = np.eye(3)[rng.randint(3)] * [1, -1][rng.randint(2)]
    elif k == 1:
        v[rng.randint(3)] = 0
    n = np.linalg.norm(v)
    if n < 1e-3:
        return rvec(rng, lo, hi)
    return v / n * rng.uniform(lo, hi)


def rpoint(rng):
    k = rng.randint(5)
    if k == 0:
        return np.zeros(3)
    if k == 1:
        return np.array([float(rng.randint(-5, 6)) for _ in range(3)])
    if k == 2:
        return rng.uniform(-1, 1, 3) + 1e4 * rng.uniform(-1, 1, 3)
    return rng.uniform(-3, 3, 3)


def dress(p, rng):
    """the same point in different clothes"""
    if np.all(p == np.rint(p)) and rng.randint(2):
        p = p.astype(int)
    return [tuple(p.tolist()), p.tolist(), np.array(p)][rng.randint(3)]


def common(rng):
    kw = {}
    if rng.randint(2):
        kw['cache'] = bool(rng.randint(2))
    k = rng.randint(5)
    if k == 0:
        kw['dtype'] = 'f4'
    elif k == 1:
        kw['dtype'] = 'f8'
    return kw


def n_of(rng, lo=1):
    return int([lo, lo + 1, 3, 5, 7][rng.randint(5)] if rng.randint(2) else rng.randint(lo, 12))


def func(P):
    """something to sample that tells all points apart"""
    return 1.3 * P[0] - 0.7 * P[1] + 2.1 * P[2] + 0.05 * P[0] * P[1] - 0.03 * P[2] * P[2]


def tol(P, seeds):
    eps = 1e-12 if np.dtype(seeds.dtype or 'f8') == np.dtype('f8') else 2e-5
    return eps * (1.0 + np.max(np.abs(P)))


def judge(ctx, rng, seeds, want, local=None, uv=None, mesh=None):
    """all there is to know about a generator

    Args:
        want: the points, shape (3, *shape of the local grid)
        local: list of (name, axis) of the local grid
        uv: shape of the mesh
        mesh: expected vertices (3, nu, nv), default: the points
    """
    want = np.asarray(want, dtype='f8')
    flat = want.reshape(3, -1)
    n = flat.shape[1]
    at = tol(want, seeds)
    nm = type(seeds).__name__
    ctx.check(seeds.nr_points == n, nm + "/nr_points", lambda: "%r want %r" % (seeds.nr_points, n))
    ctx.check(seeds.get_nr_points() == n, nm + "/nr_points")
    how = rng.randint(3)
    if how == 0:
        P = seeds.get_points()
    elif how == 1:
        P = seeds.points()
    else:
        P = np.asarray(seeds)
    ctx.check(P.shape == (3, n), nm + "/shape", lambda: repr(P.shape))
    ctx.close(P, flat, nm + "/points", rtol=0, atol=at)
    keep = np.array(P)
    for _ in range(2):
        ctx.same(np.array(seeds.get_points()), keep, nm + "/again")
    it = np.array(list(seeds.iter_points()), dtype='f8').reshape(-1, 3).T
    ctx.close(it, flat, nm + "/iter", rtol=0, atol=at)
    ctx.check(seeds.get_points().shape == (3, n) and viscid.to_seeds(seeds) is seeds, nm + "/to_seeds")
    vals = func(P)
    if local is not None:
        shape = tuple(len(a) for _, a in local)
        crds = seeds.as_local_coordinates()
        ctx.check(list(crds.axes) == [a for a, _ in local], nm + "/local-axes", repr(crds.axes))
        ctx.check(tuple(crds.shape_nc) == shape, nm + "/local-shape", lambda: repr((crds.shape_nc, shape)))
        for ax, a in local:
            got = crds[ax]
            if np.asarray(a).dtype.kind in 'Mm':
                ctx.same(np.asarray(got), np.asarray(a), nm + "/local-crds")
            else:
                ctx.close(got, a, nm + "/local-crds", rtol=0,
                          atol=max(at, tol(np.asarray(a, dtype='f8'), seeds)), msg=ax)
        k = rng.randint(3)
        if k == 0:
            f = seeds.wrap_field(vals, name="v")
            comp = [(f, vals)]
        else:
            nc = [3, 3, 2][rng.randint(3)]
            vec = np.stack([func(P) * (i + 1) + i for i in range(nc)])
            lay = ['interlaced', 'flat'][rng.randint(2)]
            arr = vec.T if lay == 'interlaced' else vec
            f = seeds.wrap_field(np.ascontiguousarray(arr), name="v", fldtype='vector', layout=lay)
            comp = [(f[c], vec[i]) for i, c in enumerate('xyz'[:nc])]
        ctx.check(f.name == "v", nm + "/wrap-name")
        for g, v in comp:
            if n == 1:  # (a single value is not kept as a field)
                ctx.same(np.asarray(g).reshape(-1), v, nm + "/wrap-single")
                continue
            ctx.check(tuple(g.shape) == shape, nm + "/wrap-shape", lambda: repr((g.shape, shape)))
            ctx.same(np.asarray(g.data).reshape(-1), v, nm + "/wrap-order")
            # values sit at their coordinates
            for _ in range(3):
                i = [rng.randint(k) for k in shape]
                w = v.reshape(shape)[tuple(i)]
                got = g.data[tuple(i)]
                ctx.check(got == w, nm + "/wrap-value", lambda: repr((i, got, w)))
    if uv is not None:
        ctx.check(tuple(seeds.uv_shape) == tuple(uv), nm + "/uv_shape", repr(seeds.uv_shape))
    if mesh is not None:
        for fh in ([True, False, None] if mesh == 'sphere' else [None]):
            kw = {} if fh is None else {'fill_holes': fh}
            V = seeds.as_mesh(**kw)
            mesh_close(ctx, seeds, V, want, at, nm, kw, mesh, fh)
    return P


def mesh_close(ctx, seeds, V, want, at, nm, kw, mode, fh):
    if mode == 'plain':
        ctx.check(V.ndim == 3 and V.shape[0] == 3 and V.shape[1:] == tuple(seeds.uv_shape),
                  nm + "/mesh-shape", lambda: repr((V.shape, seeds.uv_shape)))
        ctx.close(V.reshape(3, -1), want.reshape(3, -1), nm + "/mesh", rtol=0, atol=at)
        if nm != 'Line' and nm != 'Spline':
            vals = func(seeds.get_points())
            res = seeds.wrap_mesh(vals, vals.astype('f4'))
            ctx.check(len(res) == 3, nm + "/wrap_mesh")
            ctx.close(res[0], V, nm + "/wrap_mesh-vertices", rtol=0, atol=0)
            ctx.same(res[1], vals.reshape(V.shape[1:]), nm + "/wrap_mesh-values")
            ctx.check(res[2].dtype == np.dtype('f4'), nm + "/wrap_mesh-dtype")


# ---- generators ------------------------------------------------------------
def points(ctx, rng):
    n = n_of(rng)
    flat = rng.uniform(-4, 4, (3, n))
    form = ['3xN', 'list', 'Nx3', 'Nx3-list', 'tuple', '3xAxB'][rng.randint(6)]
    if form.startswith('Nx3') and n == 3:
        raise Skip()
    shape = (n,)
    if form == '3xN':
        given = np.array(flat, order='CF'[rng.randint(2)])
    elif form == 'list':
        given = flat.tolist()
    elif form == 'tuple':
        given = tuple(flat)
    elif form == 'Nx3':
        given = np.array(flat.T)
    elif form == '3xAxB':
        m = n_of(rng)
        flat = rng.uniform(-4, 4, (3, n, m))
        given = flat.copy()
        n = n * m
    else:
        given = flat.T.tolist()
    flat = flat.reshape(3, -1)
    kw = common(rng)
    kw.pop('dtype', None)
    local = np.arange(n)
    k = rng.randint(4)
    if k == 0:
        kw['local_crds'] = local = np.sort(rng.uniform(0, 10, n))
    elif k == 1 and n > 1:
        kw['local_crds'] = local = np.datetime64('2010-01-01T00:00:00') + \
            np.arange(n) * np.timedelta64(int(rng.randint(1, 100)), 's')
    before = np.array(given) if form != 'tuple' else None
    direct = k > 1 and rng.randint(3) == 0
    seeds = viscid.to_seeds(given) if direct else viscid.Point(given, **kw)
    ctx.note(form=form, n=n, kw=repr(kw))
    P = judge(ctx, rng, seeds, flat, local=[('x', np.asarray(local))])
    if before is not None:
        ctx.same(np.array(given), before, "Point/argument")
    ctx.same(seeds.to_local(P), P, "Point/to_local")
    ctx.same(seeds.to_3d(P), P, "Point/to_3d")
    ctx.saw('Point', form, n, k, direct)


def lines(ctx, rng):
    p0, p1 = rpoint(rng), None
    p1 = p0 + rvec(rng)
    n = n_of(rng)
    kw = common(rng)
    if 'dtype' in kw and kw['dtype'] == 'f4':
        p0 = np.clip(p0, -10, 10)
        p1 = p0 + rvec(rng)
    seeds = viscid.Line(dress(p0, rng), dress(p1, rng), n=n, **kw)
    s = np.arange(n) / float(max(n - 1, 1))
    want = p0[:, None] * (1 - s) + p1[:, None] * s
    ctx.note(p0=p0, p1=p1, n=n, kw=kw)
    judge(ctx, rng, seeds, want, local=[('x', s * np.linalg.norm(p1 - p0))], uv=(n, 1), mesh='plain')
    ctx.check(tuple(seeds.local_shape) == (n,), "Line/local_shape")
    t = rng.uniform(-1, 2, 5)
    ctx.close(seeds.to_3d(t), p0[:, None] + (p1 - p0)[:, None] * t, "Line/to_3d", rtol=0,
              atol=10 * tol(want, seeds))
    ctx.close(seeds.uv_to_3d(np.array([t, 0 * t])), p0[:, None] + (p1 - p0)[:, None] * t, "Line/uv_to_3d", rtol=0,
              atol=10 * tol(want, seeds))
    ctx.saw('Line', n, tuple(sorted(kw.items())), tuple(np.sign(p1 - p0)))


def splines(ctx, rng):
    from scipy import interpolate
    m = [2, 3, 4, 5, 6, 7, 9, 14][rng.randint(8)]
    t = np.linspace(0, 1, m)
    knots = np.array([np.cos(3 * t + rng.rand()), np.sin(2 * t + rng.rand()), t * rng.uniform(1, 3)])
    knots += 0.05 * rng.randn(3, m) + rpoint(rng).clip(-10, 10)[:, None]
    n = int([-5, -1, -3, 2, 6, 11, 40][rng.randint(7)])
    npts = n if n > 0 else -n * m
    sk = None
    if m > 3 and rng.randint(2):
        sk = {'k': int(rng.randint(1, min(m - 1, 5) + 1))}
        if rng.randint(2):
            sk['s'] = 0.0
    kw = common(rng)
    kw.pop('dtype', None)
    given = knots.copy() if rng.randint(2) else knots.tolist()
    sk_given = dict(sk) if sk else None
    ctx.note(m=m, n=n, sk=sk, knots=knots)
    seeds = viscid.Spline(given, n=n, splprep_kw=sk_given, **kw)
    opts = dict(sk or {})
    k = opts.pop('k', min(m - 1, 5))
    tck, _ = interpolate.splprep(knots, k=k, **opts)
    u = np.arange(npts) / float(max(npts - 1, 1))
    want = np.array(interpolate.splev(u, tck))
    judge(ctx, rng, seeds, want, uv=(npts, 1), mesh='plain')
    if sk:
        ctx.check(sk_given == sk, "Spline/argument", repr(sk_given))
    # the shape: it starts and ends at the knots
    P = seeds.get_points()
    if (m <= 6 and not sk) or (sk and sk.get('s') == 0.0):
        for i in (0, -1) if npts > 1 else (0,):
            ctx.close(P[:, i], knots[:, i], "Spline/ends", rtol=1e-6, atol=1e-6)
        if npts > 1 and m > 1:
            # and passes through all of them
            fine = viscid.Spline(knots, n=2001, splprep_kw=dict(sk) if sk else None).get_points()
            step = np.max(np.linalg.norm(np.diff(fine, axis=1), axis=0))
            for i in range(m):
                d = np.min(np.linalg.norm(fine - knots[:, i:i + 1], axis=0))
                ctx.check(d <= step + 1e-9, "Spline/knots", lambda: repr((i, d, step)))
    t = rng.uniform(0, 1, 4)
    w = np.array(interpolate.splev(t, tck))
    ctx.close(seeds.to_3d(t), w, "Spline/to_3d", rtol=0, atol=tol(want, seeds))
    ctx.close(seeds.uv_to_3d(np.array([t, 0 * t])), w, "Spline/uv_to_3d", rtol=0, atol=tol(want, seeds))
    crds = seeds.as_local_coordinates()
    s = np.concatenate([[0], np.cumsum(np.linalg.norm(np.diff(want, axis=1), axis=0))])
    ctx.check(list(crds.axes) == ['s'], "Spline/local-axes")
    ctx.close(crds['s'], s, "Spline/local-crds", rtol=1e-9, atol=1e-9)
    f = seeds.wrap_field(func(P))
    ctx.same(np.asarray(f.data).reshape(-1), func(P), "Spline/wrap-order")
    ctx.saw('Spline', m, n, sk is None, k)


def planes(ctx, rng):
    p0 = rpoint(rng).clip(-3, 3)
    N, L = rvec(rng), rvec(rng)
    if np.linalg.norm(np.cross(N, L)) < 0.05 * np.linalg.norm(N) * np.linalg.norm(L):
        raise Skip()
    nl, nm = n_of(rng), n_of(rng)
    kw = common(rng)
    lens, want_lens = [], []
    for _ in range(2):
        if rng.randint(2):
            v = float(rng.uniform(0.1, 5))
            lens.append(v)
            want_lens.append((-0.5 * v, 0.5 * v))
        else:
            a = float(rng.uniform(-3, 3))
            b = a + float(rng.uniform(0.1, 3))
            lens.append([a, b] if rng.randint(2) else (a, b))
            want_lens.append((a, b))
    vecs = bool(rng.randint(2))
    gN, gL = (N, L) if vecs else (N + p0, L + p0)
    seeds = viscid.Plane(p0=dress(p0, rng), pN=dress(gN, rng), pL=dress(gL, rng), len_l=lens[0],
                         len_m=lens[1], nl=nl, nm=nm, NL_are_vectors=vecs, **kw)
    n_ = N / np.linalg.norm(N)
    l_ = L - L.dot(n_) * n_
    l_ /= np.linalg.norm(l_)
    m_ = np.cross(n_, l_)
    axl = np.linspace(want_lens[0][0], want_lens[0][1], nl)
    axm = np.linspace(want_lens[1][0], want_lens[1][1], nm)
    want = (p0[:, None, None] + l_[:, None, None] * axl[None, :, None] + m_[:, None, None] * axm[None, None, :])
    ctx.note(p0=p0, N=N, L=L, lens=lens, nl=nl, nm=nm, kw=kw)
    P = judge(ctx, rng, seeds, want, local=[('x', axl), ('y', axm), ('z', np.zeros(1))],
              uv=(nl, nm), mesh='plain')
    at = tol(want, seeds) * 4
    ctx.close(seeds.get_rotation(), np.array([l_, m_, n_]).T, "Plane/rotation", rtol=0,
              atol=2e-4 if kw.get('dtype') == 'f4' else 1e-9)
    loc = rng.uniform(-3, 3, (3, 6))
    xyz = p0[:, None] + np.array([l_, m_, n_]).T.dot(loc)
    ctx.close(seeds.to_3d(loc), xyz, "Plane/to_3d", rtol=0, atol=at + tol(xyz, seeds))
    ctx.close(seeds.to_local(xyz), loc, "Plane/to_local", rtol=0, atol=at + tol(xyz, seeds))
    uvp = rng.uniform(-2, 2, (2, 4))
    ctx.close(seeds.uv_to_3d(uvp), p0[:, None] + np.array([l_, m_]).T.dot(uvp), "Plane/uv_to_3d", rtol=0, atol=at)
    uvc = seeds.as_uv_coordinates()
    ctx.close(uvc['x'], axl, "Plane/uv-crds", rtol=0, atol=at)
    ctx.close(uvc['y'], axm, "Plane/uv-crds", rtol=0, atol=at)
    ctx.close(seeds.uv_extent, want_lens if nl > 1 and nm > 1 else
              [[axl[0], axl[-1]], [axm[0], axm[-1]]], "Plane/uv_extent", rtol=0, atol=at)
    ctx.close(P[:, 0], want[:, 0, 0], "Plane/corner", rtol=0, atol=at)
    ctx.saw('Plane', nl, nm, vecs, tuple(sorted(kw.items())), tuple(type(x).__name__ for x in lens))


def volumes(ctx, rng):
    xl = rpoint(rng).clip(-50, 50)
    xh = xl + rng.uniform(0.5, 4, 3)
    if rng.randint(3) == 0:
        xl, xh = np.floor(xl), np.ceil(xh)
    n = [n_of(rng) for _ in range(3)]
    if rng.randint(2):
        n[rng.randint(3)] = 1
    same = rng.randint(6) == 0
    if same:
        n = [n[0]] * 3
    kw = common(rng)
    seeds = viscid.Volume(xl=dress(xl, rng), xh=dress(xh, rng), n=n[0] if same else dress(np.array(n), rng), **kw)
    axs = [np.linspace(xl[i], xh[i], n[i]) for i in range(3)]
    want = np.array(np.meshgrid(*axs, indexing='ij'))
    ones = [i for i in range(3) if n[i] == 1]
    ctx.note(xl=xl, xh=xh, n=n, kw=kw)
    uv = None
    if ones:
        uv = [n[i] for i in range(3) if i != ones[0]]
    P = judge(ctx, rng, seeds, want, local=list(zip('xyz', axs)), uv=uv, mesh='plain' if uv else None)
    ctx.check(tuple(seeds.local_shape) == tuple(n), "Volume/local_shape")
    at = tol(want, seeds)
    if uv:
        uvc = seeds.as_uv_coordinates()
        rest = [axs[i] for i in range(3) if i != ones[0]]
        for ax, w in zip('xy', rest):
            ctx.close(uvc[ax], w, "Volume/uv-crds", rtol=0, atol=at)
        uvp = rng.uniform(-1, 1, (2, 5))
        w = np.insert(uvp, ones[0], xl[ones[0]], axis=0)
        ctx.close(seeds.uv_to_3d(uvp), w, "Volume/uv_to_3d", rtol=0, atol=at)
    else:
        ctx.raises(RuntimeError, lambda: seeds.uv_shape, "Volume/no-uv")
    ctx.same(seeds.to_local(P), P, "Volume/to_local")
    ctx.saw('Volume', tuple(n), tuple(sorted(kw.items())))


def azimuth_frame(pole, roll_deg):
    """rotation that takes z to pole (shortest way), after a roll"""
    z = np.array([0.0, 0, 1])
    p = pole / np.linalg.norm(pole)
    ax = np.cross(z, p)
    s, c = np.linalg.norm(ax), z.dot(p)
    if s < 1e-9:
        if c < 0:
            return None
        R = np.eye(3)
    else:
        R = rod(np.arctan2(s, c), ax / s)
    return R.dot(rod(np.deg2rad(roll_deg), z))


def spheres(ctx, rng):
    kind = ['Sphere', 'Sphere', 'Sphere', 'SphericalCap', 'Circle'][rng.randint(5)]
    p0 = rpoint(rng).clip(-50, 50)
    pole = rvec(rng)
    if rng.randint(3) == 0:
        pole = np.array([0.0, 0.0, float(rng.uniform(0.5, 2))])
    r = float(rng.uniform(0.2, 5)) if rng.randint(3) else 0.0
    roll = float(rng.uniform(-180, 180)) if rng.randint(3) == 0 else 0.0
    kw = common(rng)
    if kw.get('dtype') == 'f4':
        p0 = p0.clip(-5, 5)
    args = dict(p0=dress(p0, rng), **kw)
    vec = bool(rng.randint(2))
    default_pole = False
    if rng.randint(5) == 0:
        pole = np.array([0.0, 0, 1])
        default_pole = True
        vec = True
    else:
        args['pole'] = dress(pole if vec else pole + p0, rng)
        args['pole_is_vector'] = vec
        if not vec:
            args['p0'] = np.array(p0)
    if r:
        args['r'] = r
    R_ = r or np.linalg.norm(pole)
    if roll:
        args['roll'] = roll
    gse = rng.randint(6)
    if gse == 0:
        args['crd_system'] = 'gse'
        roll = roll - 180.0
    elif gse == 1:
        args['crd_system'] = ['mhd', 'none'][rng.randint(2)]
    elif gse == 2:
        f = viscid.zeros([np.arange(3.0)] * 3, center='node')
        cs = ['gse', 'mhd', None][rng.randint(3)]
        if cs:
            f.set_info('crd_system', cs)
        args['crd_system'] = f
        roll = roll - 180.0 if cs == 'gse' else roll
    tp = bool(rng.randint(2))
    if tp or rng.randint(2):
        args['theta_phi'] = tp
    nt, npi = n_of(rng), n_of(rng, 2)
    philim = (0.0, 360.0)
    if rng.randint(2):
        a = float(rng.uniform(-180, 90))
        b = a + [90.0, 120.0, 360.0, 359.0][rng.randint(4)]
        philim = (a, b)
        args['philim'] = philim if rng.randint(2) else list(philim)
    spans = abs(philim[1] - philim[0] - 360.0) < 1e-3
    pe = [None, True, False][rng.randint(3)]
    te = 'auto'
    if kind == 'Sphere':
        tl = (0.0, 180.0)
        k = rng.randint(5)
        if k == 1:
            tl = (0.0, float(rng.uniform(20, 170)))
        elif k == 2:
            tl = (float(rng.uniform(5, 150)), 180.0)
        elif k == 3:
            a = float(rng.uniform(5, 90))
            tl = (a, a + float(rng.uniform(5, 80)))
        if tl != (0.0, 180.0) or rng.randint(2):
            args['thetalim'] = tl if rng.randint(2) else list(tl)
        j = rng.randint(5)
        if j == 0:
            te = bool(rng.randint(2))
        elif j == 1:
            te = [bool(rng.randint(2)), bool(rng.randint(2))]
        if te != 'auto':
            args['theta_endpoint'] = te
            te = [te, te] if isinstance(te, bool) else te
        else:
            te = [not (abs(x) < 1e-9 or abs(x - 180) < 1e-9) for x in tl]
        args.update(ntheta=nt, nphi=npi)
    elif kind == 'SphericalCap':
        a0 = float(rng.uniform(0, 60)) if rng.randint(2) else 0.0
        a1 = [float(a0 + rng.uniform(5, 90)), 90.0, 180.0][rng.randint(3)]
        tl = (a0, a1)
        if a0 or rng.randint(2):
            args['angle0'] = a0
        if a1 != 90.0 or rng.randint(2):
            args['angle'] = a1
        te = [True, False]
        if rng.randint(3) == 0:
            te = [bool(rng.randint(2)), bool(rng.randint(2))]
            args['theta_endpoint'] = te if te[0] != te[1] else te[0]
        args.update(ntheta=nt, nphi=npi)
    else:
        tl, nt = (90.0, 90.0), 1
        te = [True, False]
        args['n'] = npi
    if pe is not None:
        if kind == 'Circle' and rng.randint(2):
            args['endpoint'] = pe
        else:
            args['phi_endpoint'] = pe
    else:
        pe = not spans
        # the default of a circle or sphere is to close only partial arcs
    ctx.note(kind=kind, args=repr(args))
    seeds = getattr(viscid, kind)(**args)

    t0, t1 = np.deg2rad(tl)
    i = np.arange(nt, dtype='f8')
    if te[0] and te[1]:
        th = t0 + (t1 - t0) * i / max(nt - 1, 1)
    elif te[0]:
        th = t0 + (t1 - t0) * i / nt
    elif te[1]:
        th = t1 - (t1 - t0) * (nt - 1 - i) / nt
    else:
        th = t0 + (t1 - t0) * (i + 0.5) / nt
    f0, f1 = np.deg2rad(philim)
    j = np.arange(npi, dtype='f8')
    ph = f0 + (f1 - f0) * j / ((npi - 1) if pe else npi)
    if tp:
        T, F = np.meshgrid(th, ph, indexing='ij')
    else:
        F, T = np.meshgrid(ph, th, indexing='ij')
    A = R_ * np.array([np.sin(T) * np.cos(F), np.sin(T) * np.sin(F), np.cos(T)])
    rot = azimuth_frame(pole, roll)
    if rot is None:
        rot = seeds.get_rotation()
        ctx.close(rot.dot(rot.T), np.eye(3), kind + "/rotation", rtol=0, atol=1e-9)
        ctx.close(rot[:, 2], pole / np.linalg.norm(pole), kind + "/rotation", rtol=0, atol=1e-6)
    want = np.einsum("ij,jkl->ikl", rot, A) + p0[:, None, None]
    loc = [('theta', th), ('phi', ph)] if tp else [('phi', ph), ('theta', th)]
    P = judge(ctx, rng, seeds, want, local=loc, uv=T.shape)
    at = tol(want, seeds) * 4
    # on the sphere, at the stated angle from the pole
    rad = P.astype('f8') - p0[:, None]
    ctx.close(np.linalg.norm(rad, axis=0), np.full(P.shape[1], R_), kind + "/radius", rtol=0, atol=at)
    ctx.close(rad.T.dot(pole / np.linalg.norm(pole)), (R_ * np.cos(T)).reshape(-1), kind + "/colatitude",
              rtol=0, atol=at)
    crds = seeds.as_uv_coordinates()
    ctx.check(crds.get_units(['theta'])[0] == 'rad' and crds.crdtype == 'nonuniform_spherical',
              kind + "/uv-kind", repr((crds.crdtype, crds.get_units(['theta']))))
    # any uv point lies on the sphere where the formula says
    tt, ff = rng.uniform(0, np.pi, 4), rng.uniform(-np.pi, np.pi, 4)
    w = rot.dot(R_ * np.array([np.sin(tt) * np.cos(ff), np.sin(tt) * np.sin(ff), np.cos(tt)])) + p0[:, None]
    ctx.close(seeds.uv_to_3d(np.array([tt, ff] if tp else [ff, tt])), w, kind + "/uv_to_3d", rtol=0, atol=at)

    # ---- meshes
    vals = func(P)
    for fh in (True, False, None):
        k2 = {} if fh is None else dict(fill_holes=fh)
        V = np.asarray(seeds.as_mesh(**k2), dtype='f8')
        res = seeds.wrap_mesh(vals, **k2)
        fill = fh is None or fh
        ctx.close(np.asarray(res[0], dtype='f8'), V, kind + "/wrap_mesh", rtol=0, atol=0)
        ctx.check(res[1].shape == V.shape[1:], kind + "/wrap_mesh-shape", lambda: repr((res[1].shape, V.shape)))
        if not fill:
            ctx.close(V, want, kind + "/mesh-plain", rtol=0, atol=at)
            ctx.same(res[1].reshape(-1), vals, kind + "/mesh-plain-values")
            continue
        # expected mesh: theta rows with skipped poles put back, phi closed
        M = want if tp else np.swapaxes(want, 1, 2)     # (3, theta, phi)
        S = vals.reshape(T.shape)
        S = S if tp else S.T
        pu = pole / np.linalg.norm(pole) * R_
        lims = [abs(x) < 1e-9 or abs(x - 180) < 1e-9 for x in tl]
        if lims[0] and not te[0]:
            q = (p0 + (pu if abs(tl[0]) < 1 else -pu))[:, None, None] * np.ones((1, 1, npi))
            M = np.concatenate([q, M], axis=1)
            S = np.concatenate([np.full((1, npi), np.mean(S[0])), S], axis=0)
        if lims[1] and not te[1]:
            q = (p0 + (pu if abs(tl[1]) < 1 else -pu))[:, None, None] * np.ones((1, 1, npi))
            M = np.concatenate([M, q], axis=1)
            S = np.concatenate([S, np.full((1, npi), np.mean(S[-1]))], axis=0)
        if spans and not pe:
            M = np.concatenate([M, M[:, :, :1]], axis=2)
            S = np.concatenate([S, S[:, :1]], axis=1)
        if not tp:
            M, S = np.swapaxes(M, 1, 2)[:, ::-1], S.T[::-1]
        ctx.close(V, M, kind + "/mesh", rtol=0, atol=at)
        ctx.close(np.asarray(res[1], dtype='f8'), S, kind + "/mesh-values", rtol=0,
                  atol=1e-9 * (1 + np.max(np.abs(S))) if 'dtype' not in kw else 1e-4 * (1 + np.max(np.abs(S))))
    ctx.saw(kind, nt, npi, tp, tuple(bool(x) for x in te), bool(pe), spans, gse, vec, kw.get('dtype'))


def patches(ctx, rng):
    p0 = rpoint(rng).clip(-50, 50)
    p1 = rvec(rng)
    ma = float(rng.uniform(3, 60))
    mb = float(rng.uniform(3, 60))
    na, nb = n_of(rng), n_of(rng)
    kw = common(rng)
    r = float(rng.uniform(0.3, 4)) if rng.randint(2) else 0.0
    roll = float(rng.uniform(-180, 180)) if rng.randint(2) else 0.0
    vec = bool(rng.randint(2))

    def make():
        return viscid.SphericalPatch(p0=dress(p0, rng), p1=dress(p1 if vec else p1 + p0, rng), max_alpha=ma,
                                     max_beta=mb, nalpha=na, nbeta=nb, roll=roll, r=r, p1_is_vector=vec, **kw)
    s2 = np.sin(np.deg2rad(ma)) ** 2 + np.sin(np.deg2rad(mb)) ** 2
    if abs(s2 - 1) < 1e-6:
        raise Skip()
    if s2 > 1:
        ctx.raises(ValueError, make, "SphericalPatch/range")
        ctx.saw('SphericalPatch', 'refused')
        return
    ctx.note(p0=p0, p1=p1, ma=ma, mb=mb, na=na, nb=nb, r=r, roll=roll, vec=vec, kw=kw)
    seeds = make()
    R_ = r or np.linalg.norm(p1)
    rot = azimuth_frame(p1, roll)
    if rot is None:
        rot = seeds.get_rotation()
    al = np.linspace(-np.deg2rad(ma), np.deg2rad(ma), na)
    be = np.linspace(-np.deg2rad(mb), np.deg2rad(mb), nb)
    A, B = np.meshgrid(al, be, indexing='ij')
    X = np.array([R_ * np.sin(A), R_ * np.sin(B), R_ * np.sqrt(1 - np.sin(A) ** 2 - np.sin(B) ** 2)])
    want = np.einsum("ij,jkl->ikl", rot, X) + p0[:, None, None]
    judge(ctx, rng, seeds, want, local=[('x', al), ('y', be)], uv=(na, nb), mesh='plain')
    ctx.saw('SphericalPatch', na, nb, vec, bool(r), bool(roll), kw.get('dtype'))


def meshes(ctx, rng):
    nu, nv = n_of(rng), n_of(rng)
    kw = common(rng)
    kw.pop('dtype', None)
    if rng.randint(2):
        pts = rng.uniform(-3, 3, (3, nu, nv))
        seeds = viscid.MeshPoints(pts.copy(), **kw)
        local = [('x', np.arange(nu)), ('y', np.arange(nv))]
        which = 'MeshPoints'
    else:
        axes = [('x', 'y'), 'xy', (0, 1)][rng.randint(3)]
        u = np.sort(rng.uniform(-3, 3, nu))
        v = np.sort(rng.uniform(-3, 3, nv))
        pts = np.array(np.meshgrid(u, v, indexing='ij') + [rng.uniform(-1, 1, (nu, nv))])
        seeds = viscid.RectilinearMeshPoints(pts.copy(), mesh_axes=axes, **kw)
        local = [('x', u), ('y', v)]
        which = 'RectilinearMeshPoints'
    ctx.note(nu=nu, nv=nv, which=which)
    judge(ctx, rng, seeds, pts, local=local, uv=(nu, nv), mesh='plain')
    ctx.check(tuple(seeds.local_shape) == (nu, nv), which + "/local_shape", repr(seeds.local_shape))
    ctx.raises(ValueError, lambda: viscid.MeshPoints(np.zeros((2, 3, 4))), "MeshPoints/raises")
    ctx.saw(which, nu, nv)


SCENARIOS = [
    Scenario('points', points, quick=600, thorough=5000),
    Scenario('lines', lines, quick=600, thorough=5000),
    Scenario('splines', splines, quick=450, thorough=3000),
    Scenario('planes', planes, quick=900, thorough=8000),
    Scenario('volumes', volumes, quick=900, thorough=8000),
    Scenario('spheres', spheres, quick=2100, thorough=20000),
    Scenario('patches', patches, quick=750, thorough=6000),
    Scenario('meshes', meshes, quick=450, thorough=4000),
]

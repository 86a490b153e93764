"""N09: minimum variance frames, paraboloids and magnetopause information"""
import os
import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen, ext, xfiles
from n01_interp import ref_linear, three

PID = "N09"
TECHNIQUE = "runtime monitoring: every minimum variance frame, paraboloid and magnetopause quantity compared with its definition evaluated column by column in plain numpy"
RULE = ("random series (3-200 samples, f4 f8 and integers, offsets up to 1e4 times the "
        "variance, samples that aren't finite) and random vector fields in either layout "
        "sampled between points; l directions in any relation to the normal, also along "
        "and against it; random paraboloids, fitted from scattered planes; random current "
        "sheets and noise on stretched boxes with columns without any boundary, in either "
        "layout, with and without E, cached and read back")
ASSUMPTIONS = ["a mean so large that the variance can't be resolved in double precision is left out",
               "fits start near the paraboloid"]
LAY = ['flat', 'interlaced']


def setup():
    import viscid
    ext.ensure()
    viscid.logger.setLevel(50)


def cov(a):
    a = np.asarray(a, 'f8')
    d = a - a.mean(axis=0)
    return d.T.dot(d) / len(a)


def check_mva(ctx, arr, got, key):
    """arr: what was sampled (finite rows)"""
    evals, evecs = [np.asarray(g) for g in got]
    ctx.check(evals.shape == (3,) and evecs.shape == (3, 3), key + "-shape")
    c = cov(arr)
    s = np.trace(c) + 1e-300
    mean = np.abs(np.mean(np.asarray(arr, 'f8'), axis=0)).max()
    tol = 1e-9 * s + 1e-13 * mean * np.sqrt(s)
    ctx.close(c.dot(evecs), evecs * evals, key + "-eigen", rtol=0, atol=tol)
    ctx.close(evecs.T.dot(evecs), np.eye(3), key + "-orthonormal", rtol=0, atol=1e-7)
    ctx.check(np.all(np.diff(np.abs(evals)) >= -tol), key + "-order", evals)
    ctx.close(np.sort(evals), np.linalg.eigvalsh(c), key + "-evals", rtol=0, atol=tol)


def scen_series(ctx, rng):
    """covariance, ordering, samples that aren't finite"""
    import viscid
    n = int(rng.choice([3, 4, 5, 10, 40, 200]))
    scale = 10.0**rng.uniform(-2, 2, size=3)
    off = rng.choice([0, 1, 100, 1e4]) * rng.normal(size=3) * scale.max()
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    arr = (rng.normal(size=(n, 3)) * scale).dot(q.T) + off
    dt = ['f8', 'f8', 'f4', 'i8'][rng.randint(4)]
    arr = arr.astype(dt)
    nbad = 0
    if dt[0] == 'f' and rng.rand() < 0.4:
        nbad = int(rng.randint(0, n + 1))
        bad = rng.permutation(n)[:nbad]
        arr[bad, rng.randint(3, size=nbad)] = rng.choice([np.nan, np.inf, -np.inf], size=nbad)
    if rng.rand() < 0.2:
        arr[:, rng.randint(3)] = 0
    keep = arr.copy()
    ctx.note(arr=arr.tolist()[:20], dt=dt)
    with np.errstate(all='ignore'):
        got = viscid.minvar_series(arr)
    ctx.same(arr, keep, "series-unchanged")
    fin = arr[np.all(np.isfinite(arr), axis=1)] if dt[0] == 'f' else arr
    if len(fin) < 3:
        ctx.check(np.all(np.isnan(got[0])) and np.all(np.isnan(got[1])), "series-short", got)
    else:
        check_mva(ctx, fin, got, "series")
        # a rotation of the samples rotates the frame
        if dt == 'f8':
            with np.errstate(all='ignore'):
                rot = viscid.minvar_series(fin.dot(q.T))
            ctx.close(np.abs(rot[0]), np.abs(got[0]), "series-rotation", rtol=1e-6,
                      atol=1e-9 * np.trace(cov(fin)) + 1e-12 * np.abs(off).max()**2)
        # the samples' order makes no difference, nor a shift
    ctx.saw(n, dt, min(nbad, 3), len(fin) < 3)


def rand_dir(rng):
    v = rng.normal(size=3)
    if rng.rand() < 0.4:
        v = np.zeros(3)
        v[rng.randint(3)] = rng.choice([-1.0, 1.0])
    return v


def check_lmn(ctx, lmn, n_want, l_basis, evec_max, key):
    lmn = np.asarray(lmn, 'f8')
    ctx.check(lmn.shape == (3, 3) and np.all(np.isfinite(lmn)), key + "-finite", lmn)
    ctx.close(lmn.T.dot(lmn), np.eye(3), key + "-orthonormal", rtol=0, atol=1e-8)
    ctx.close(np.linalg.det(lmn), 1.0, key + "-righthanded", rtol=1e-8)
    if n_want is not None:
        n_want = n_want / np.linalg.norm(n_want)
        ctx.close(abs(lmn[:, 2].dot(n_want)), 1.0, key + "-normal", rtol=1e-7)
    if l_basis is not None:
        lb = np.asarray(l_basis, 'f8') / np.linalg.norm(l_basis)
        if np.linalg.norm(np.cross(lb, lmn[:, 2])) < 1e-3:
            lb = evec_max       # documented fallback (near it either will do)
            if np.linalg.norm(np.cross(l_basis, lmn[:, 2])) / np.linalg.norm(l_basis) > 1e-9:
                return
    else:
        lb = evec_max
    lb = lb - lb.dot(lmn[:, 2]) * lmn[:, 2]
    lb = lb / np.linalg.norm(lb)
    d = lmn[:, 0].dot(lb)
    if l_basis is not None and lb is not evec_max:
        d = abs(d)
    ctx.close(abs(d), 1.0, key + "-l", rtol=1e-6)


def scen_lmn(ctx, rng):
    """frames from eigenvectors, l directions also along the normal"""
    from viscid.calculator import minvar_tools as mt
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if rng.rand() < 0.4:
        q = np.eye(3)[rng.permutation(3)] * rng.choice([-1.0, 1.0], size=3)
    emin, emax = q[:, 0] * 10**rng.uniform(-2, 2), q[:, 2]
    k = rng.randint(5)
    lb = [None, rand_dir(rng), q[:, 0] * 3.0, -q[:, 0] * 0.5, q[:, 1]][k]
    if lb is not None:
        lb = [list, tuple, np.array][rng.randint(3)](lb)
    ctx.note(emin=emin.tolist(), emax=emax.tolist(), lb=str(lb))
    with np.errstate(all='ignore'):
        lmn = mt._minvar_lmn_directions(emin, emax, l_basis=lb)
    check_lmn(ctx, lmn, emin, lb, emax, "lmn")
    if lb is not None and np.linalg.norm(np.cross(lb, emin)) > 1e-2 * np.linalg.norm(lb) * np.linalg.norm(emin):
        ctx.check(lmn[:, 0].dot(np.asarray(lb)) > 0, "lmn-l-sense", lmn)
    ctx.saw(k, rng.randint(8))


def scen_field(ctx, rng):
    """sampled between two points or around one"""
    import viscid
    f, m, d = gen.rand_field(rng, ndim=3, dtype=['f8', 'f4'][rng.randint(2)], lo=2, hi=8,
                             ncomp=3, names=['x', 'y', 'z'])
    names, crds, vals = three(m)
    lo, hi = np.array([c[0] for c in crds]), np.array([c[-1] for c in crds])
    snap = gen.snapshot(f)
    n = int(rng.choice([3, 5, 40, 64]))
    mode = rng.randint(2)
    if mode == 0:
        p1, p2 = rng.uniform(lo, hi), rng.uniform(lo, hi)
        args = (p1, p2)
        fn, lfn, kw = viscid.minvar, viscid.find_minvar_lmn, dict(n=n)
    else:
        p0, l, path = 0.5 * (lo + hi), rng.uniform(0.2, 1.2) * np.min(hi - lo), rand_dir(rng) * rng.uniform(0.1, 5)
        u = path / np.linalg.norm(path)
        p1, p2 = p0 - 0.5 * l * u, p0 + 0.5 * l * u
        args = (p0,)
        fn, lfn = viscid.minvar_around, viscid.find_minvar_lmn_around
        kw = dict(n=n, l=l, path_dir=u * rng.uniform(0.1, 5))
    ctx.note(p1=p1.tolist(), p2=p2.tolist(), n=n, mode=mode, **d)
    line = p1[:, None] + (p2 - p1)[:, None] * np.linspace(0, 1, n)[None]
    b = np.array([np.asarray(ref_linear(p, crds, vals)[0]).reshape(-1) for p in line.T])
    scale = np.abs(b).max()
    c = cov(b)
    ev, w = np.linalg.eigh(c)
    with np.errstate(all='ignore'):
        evals, evecs = fn(f, *[tuple(a) if rng.rand() < .5 else a for a in args], **kw)
    f4 = m.vals.dtype == np.float32
    tol = (1e-4 if f4 else 1e-7) * (scale**2 + 1e-300)
    ctx.close(np.abs(evals), np.abs(ev)[np.argsort(np.abs(ev))], "field-evals", rtol=0, atol=tol)
    ctx.close(c.dot(evecs), evecs * evals, "field-eigen", rtol=0, atol=tol)
    lb = [None, (0, 0, 1), tuple(rand_dir(rng))][rng.randint(3)]
    with np.errstate(all='ignore'):
        lmn = lfn(f, *args, l_basis=lb, **kw)
    sep = min(ev[1] - ev[0], ev[2] - ev[1])
    if sep > 100 * tol:
        check_lmn(ctx, lmn, np.asarray(evecs)[:, 0], lb, np.asarray(evecs)[:, 2], "field-lmn")
        ctx.close(abs(np.asarray(evecs)[:, 0].dot(w[:, 0])), 1.0, "field-normal", rtol=0,
                  atol=(2 * tol / sep) ** 1 + 1e-9)
    gen.check_unchanged(ctx, f, snap, "field-unchanged")
    ctx.saw(mode, n, d['layout'], lb is None, f4)


def scen_paraboloid(ctx, rng):
    """surface, normals, fit"""
    import viscid
    par = np.array([rng.uniform(7, 12), rng.uniform(-1, 1), rng.uniform(-1, 1),
                    -rng.uniform(0.3, 2), rng.uniform(3, 7) * rng.choice([-1, 1]),
                    rng.uniform(3, 7) * rng.choice([-1, 1])])
    y, z = np.meshgrid(np.sort(rng.uniform(-4, 4, rng.randint(3, 9))),
                       np.sort(rng.uniform(-4, 4, rng.randint(3, 9))), indexing='ij')
    ctx.note(par=par.tolist())
    x = viscid.paraboloid(y, z, *par)
    want = par[0] + par[3] * ((y - par[1])**2 / par[4]**2 + (z - par[2])**2 / par[5]**2)
    ctx.close(x, want, "surface", rtol=1e-12, atol=1e-12)
    nrm = viscid.paraboloid_normal(y, z, *par)
    ctx.check(nrm.shape == (3,) + y.shape, "normal-shape", nrm.shape)
    ctx.close(np.sum(nrm**2, axis=0), np.ones_like(y), "normal-length", rtol=1e-10)
    raw = viscid.paraboloid_normal(y, z, *par, normalize=False)
    ctx.close(raw / np.sqrt(np.sum(raw**2, axis=0)), nrm, "normal-raw", rtol=1e-10, atol=1e-12)
    # perpendicular to the surface: tangents by central differences (exact for a parabola)
    h = 1e-3
    for dy, dz in ((h, 0), (0, h), (h, -h)):
        t = np.array([viscid.paraboloid(y + dy, z + dz, *par) - viscid.paraboloid(y - dy, z - dz, *par),
                      2 * dy + 0 * y, 2 * dz + 0 * y])
        ctx.close(np.sum(t * nrm, axis=0), np.zeros_like(y), "normal-perpendicular", rtol=0, atol=1e-11)
    ctx.check(np.all(nrm[0] > 0), "normal-sunward", nrm[0].min())
    # fit
    ys, zs = np.linspace(-4, 4, rng.randint(6, 14)), np.linspace(-4, 4, rng.randint(6, 14))
    k = rng.randint(3)
    ys = np.sort(ys + 0.1 * rng.uniform(-1, 1, size=len(ys)))
    crds = (ys, zs) if k == 0 else ([np.array([0.0]), ys, zs] if k == 1 else [np.array([0.0, 1.0]), ys, zs])
    names = ['y', 'z'] if k == 0 else ['x', 'y', 'z']
    c = viscid.arrays2crds(crds, crd_names=names)
    fld = viscid.zeros(c, center='cell' if k == 2 else 'node', name='loc')
    yy, zz = fld.get_crd('y', shaped=True), fld.get_crd('z', shaped=True)
    fld.data[...] = viscid.paraboloid(yy, zz, *par)
    keep = fld.data.copy()
    p0 = par + 0.05 * rng.uniform(-1, 1, 6)
    with np.errstate(all='ignore'):
        try:
            fit = viscid.fit_paraboloid(fld, p0=p0)
        except RuntimeError as err:
            if 'Optimal parameters' not in str(err):
                raise
            ctx.count('no-fit')
            raise Skip()
    ctx.check(len(fit) == 2, "fit-length", len(fit))
    got = np.array([fit[0][nm] for nm in ('x0', 'y0', 'z0', 'ax', 'ay', 'az')])
    ctx.close(got[:3], par[:3], "fit-nose", rtol=1e-5, atol=1e-5)
    ctx.close([got[3] / got[4]**2, got[3] / got[5]**2], [par[3] / par[4]**2, par[3] / par[5]**2],
              "fit-curvature", rtol=1e-5)
    ctx.close(viscid.paraboloid(yy, zz, *fit[0]), keep, "fit-surface", rtol=1e-6, atol=1e-6)
    ctx.same(fld.data, keep, "fit-unchanged")
    ctx.saw(k, len(ys), len(zs))


def ref_edges(j, xcc, tsphere, tsheath, mv):
    """j: (nx, ncol)"""
    nx, nc = j.shape
    sph, she = np.full(nc, np.nan), np.full(nc, np.nan)
    isph, ishe = np.zeros(nc, int), np.full(nc, nx - 1)
    for i in range(nc):
        c = j[:, i]
        ok = np.ones(nx, bool) if mv is None else ~(c < mv)
        if not ok.any():
            continue
        mx = np.abs(c[ok]).max()
        k = np.flatnonzero(ok & (c > tsphere * mx))
        k2 = np.flatnonzero(ok & (c > tsheath * mx))
        if len(k):
            isph[i] = k[0]
        if len(k2):
            ishe[i] = k2[-1]
    sph = np.where(isph > 0, xcc[isph], np.nan)
    she = np.where(ishe < nx - 1, xcc[ishe], np.nan)
    return she, sph, ishe, isph


def box(rng, layout, name, nc, crds, gse=True):
    import viscid
    kw = dict(center='cell', name=name)
    if nc:
        kw.update(nr_comps=nc, layout=layout)
    f = viscid.zeros(crds, **kw)
    if gse:
        f.set_info('crd_system', 'gse')
    return f


def rand_axis(rng, lo, hi, n):
    if rng.rand() < 0.5:
        return np.linspace(lo, hi, n)
    a = np.cumsum(rng.uniform(0.5, 1.5, n))
    return lo + (hi - lo) * (a - a[0]) / (a[-1] - a[0])


def scen_edges(ctx, rng):
    """edges of the current sheet, per column"""
    import viscid
    lay = LAY[rng.randint(2)]
    x, y, z = rand_axis(rng, 5, 12, rng.randint(4, 40)), rand_axis(rng, -4, 4, rng.randint(3, 8)), rand_axis(rng, -4, 4, rng.randint(3, 8))
    j = box(rng, lay, 'j', 3, viscid.arrays2crds((x, y, z)))
    kind = rng.randint(3)
    sh = (len(x) - 1, len(y) - 1, len(z) - 1)
    xcc = 0.5 * (x[1:] + x[:-1])
    if kind == 0:
        jy = rng.normal(size=sh) * rng.choice([0, 1, .05], size=sh)
    else:
        x0 = rng.uniform(4.5, 12.5, size=sh[1:])
        w = rng.uniform(0.1, 2.0, size=sh[1:])
        jy = rng.choice([-1.0, 1, 1, 0, 1e-5], size=sh[1:]) / np.cosh((xcc[:, None, None] - x0) / w)**2
        if kind == 2:   # a bow shock with stronger current the other way
            jy = jy - 3.0 / np.cosh((xcc[:, None, None] - 11.5) / 0.2)**2
    for c, v in (('x', rng.normal(size=sh)), ('y', jy), ('z', rng.normal(size=sh))):
        j[c] = v
    mv = [1e-4, None, 0.3, 0.0][rng.randint(4)]
    t1, t2 = rng.choice([0.05, 0.1, 0.5, 0.9], size=2)
    sel = [None, 'y=1', 'y=1:2', 'y=0,z=1', 'z=-1'][rng.randint(5)]
    blk = j if sel is None else j[sel]
    jb = np.array(blk['y'].data)
    snap = gen.snapshot(blk)
    ctx.note(lay=lay, kind=kind, mv=mv, t=[t1, t2], sel=sel)
    with np.errstate(all='ignore'):
        kw = {}
        if mv != 1e-4 or rng.rand() < .5:
            kw['maskval'] = mv
        got = viscid.find_mp_edges(blk, t1, t2, **kw)
    want = ref_edges(jb.reshape(jb.shape[0], -1), xcc, t1, t2, mv)
    g = [np.asarray(getattr(a, 'data', a) if not isinstance(a, np.ndarray) else a).reshape(-1) for a in got]
    ctx.same(g[0].astype('f8'), want[0], "sheath-edge")
    ctx.same(g[1].astype('f8'), want[1], "sphere-edge")
    ctx.close(g[2].astype('f8'), want[0] - want[1], "width", rtol=1e-12)
    ctx.same(g[3].astype(int), want[2], "sheath-index")
    ctx.same(g[4].astype(int), want[3], "sphere-index")
    gen.check_unchanged(ctx, blk, snap, "edges-unchanged")
    ctx.saw(lay, kind, str(mv), str(sel), bool(np.isnan(want[0]).any()), bool(np.isnan(want[1]).any()))


def flds2d(f):
    return np.asarray(f.data, 'f8').reshape([n for n in f.sshape if n > 1] or [1])


def scen_info(ctx, rng):
    """everything about the boundary, per column of the box"""
    import viscid
    lay = LAY[rng.randint(2)]
    crds = (rand_axis(rng, 5, 12, rng.randint(24, 60)), rand_axis(rng, -4.5, 4.5, rng.randint(6, 11)),
            rand_axis(rng, -4.2, 4.2, rng.randint(6, 11)))
    c = viscid.arrays2crds(crds)
    pp, b, j, e = [box(rng, lay, n, k, c) for n, k in (('pp', 0), ('b', 3), ('j', 3), ('e', 3))]
    t = float(rng.randint(0, 10000))
    for f in (pp, b, j, e):
        f.time = t
    X, Y, Z = [a + np.zeros(pp.shape) for a in pp.get_crds('xyz', shaped=True)]
    par = (rng.uniform(8, 10), 0.1, -0.1, -0.5, 4.0, 5.0)
    w = rng.uniform(0.25, 0.8)
    s = (X - viscid.paraboloid(Y, Z, *par)) / w
    noise = rng.choice([0.0, 0.02])
    ang = rng.uniform(0, np.pi)
    kind = rng.randint(4)
    if kind == 0:   # no shear: fields are parallel
        b['x'], b['y'], b['z'] = 0.1 + 0 * s, 0.7 + 0 * s, 1.1 + 0 * s
        b.data[...] *= rng.uniform(0.5, 40)
    else:
        th = ang * 0.5 * np.tanh(s) + 0.3
        b['y'], b['z'] = 30 * np.sin(th), 30 * np.cos(th) * (0.5 + 0.5 * np.tanh(s)**2)
        b['x'] = 0.1 + noise * rng.normal(size=s.shape)
    j['y'] = rng.choice([1.0, 1e-2]) / np.cosh(s)**2 + noise * rng.normal(size=s.shape) * 0.1
    pp.data[...] = np.exp(-s**2) + noise * rng.normal(size=s.shape)
    e['x'], e['y'], e['z'] = rng.normal(size=s.shape), rng.normal(size=s.shape), 0.2 + 0 * s
    slc = ["x=5.5j:11.0j, y=-4.0j:4.0j, z=-3.6j:3.6j", "x=6j:11.5j", "y=-2.5j:2.5j"][rng.randint(3)]
    nofld = rng.rand() < 0.2
    fit = 'pp_max_xloc' if kind == 0 else ['mp_xloc', 'pp_max_xloc'][rng.randint(2)]
    ctx.note(lay=lay, kind=kind, slc=slc, w=w, nofld=nofld, n=[len(a) for a in crds])
    snaps = [gen.snapshot(f) for f in (pp, b, j, e)]
    cached = rng.rand() < 0.5
    with np.errstate(all='ignore'), xfiles.scratch() as td:
        kw = dict(slc=slc, fit=fit, fit_p0=(9.0, 0.0, 0.0, -0.6, 4.0, 5.0))
        if cached:
            for f in (pp, b, j, e):
                f.set_info('run', 'r%d' % rng.randint(10**9))
            pp.set_info('run', 'r%d' % rng.randint(10**9))
            kw.update(cache=True, cache_dir=td)
        else:
            kw.update(cache=False)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                mp = viscid.get_mp_info(pp, b, j, None if nofld else e, **kw)
            except RuntimeError as err:
                if 'Optimal parameters' not in str(err):
                    raise
                ctx.count('no-fit')     # the surface isn't a paraboloid
                raise Skip()
            again = viscid.get_mp_info(pp, b, j, None if nofld else e, **kw) if cached else None
        if cached:
            ctx.check([n for n in os.listdir(td) if n.endswith('.xdmf')], "info-cache-written")
            for k in mp:
                if k != 'paraboloid':
                    ctx.same(flds2d(again[k]), flds2d(mp[k]), "info-cache", k)
                    ctx.close(np.asarray(again[k].get_crd('y')), np.asarray(mp[k].get_crd('y')), "info-cache-crd", rtol=1e-12)
            ctx.close([again['paraboloid'][0][n] for n in ('x0', 'y0', 'z0')], [mp['paraboloid'][0][n] for n in ('x0', 'y0', 'z0')], "info-cache-fit", rtol=1e-6)
    for sn, f in zip(snaps, (pp, b, j, e)):
        gen.check_unchanged(ctx, f, sn, "info-unchanged")
    # model: columns of the box
    ppb, bb, jb, eb = pp[slc], b[slc], j[slc], e[slc]
    xcc = ppb.get_crd('x')
    comp = lambda f, k: np.array(f[k].data)
    jy = comp(jb, 'y')
    B = np.array([comp(bb, k) for k in 'xyz'])
    E = np.array([comp(eb, k) for k in 'xyz'])
    nx = len(xcc)
    she, sph, ishe, isph = ref_edges(jy.reshape(nx, -1), xcc, 0.1, 0.1, 1e-4)
    sh2 = jy.shape[1:]
    ctx.check(flds2d(mp['mp_width']).shape == sh2, "info-shape", (flds2d(mp['mp_width']).shape, sh2))
    ctx.same(flds2d(mp['mp_sheath_edge']), she.reshape(sh2), "info-sheath")
    ctx.same(flds2d(mp['mp_sphere_edge']), sph.reshape(sh2), "info-sphere")
    ctx.close(flds2d(mp['mp_width']), (she - sph).reshape(sh2), "info-width", rtol=1e-12)
    ctx.same(flds2d(mp['pp_max']), np.asarray(ppb.data).max(axis=0), "info-pp-max")
    ctx.same(flds2d(mp['pp_max_xloc']), xcc[np.asarray(ppb.data).argmax(axis=0)], "info-pp-xloc")
    bsq = np.sum(B**2, axis=0)
    bsq = np.where(jy < 1e-4, np.inf, bsq)
    some = ~np.all(jy < 1e-4, axis=0)
    kmin = bsq.argmin(axis=0)
    gl = flds2d(mp['mp_xloc'])
    gi = np.abs(xcc[:, None, None] - gl).argmin(axis=0)
    gv = np.take_along_axis(bsq, gi[None], 0)[0]
    wv = bsq.min(axis=0)
    ctx.check(np.all(np.isin(gl, xcc)), "info-xloc-on-grid")
    ctx.close(gv[some], wv[some], "info-xloc", rtol=1e-12)
    if nofld:
        ctx.check(np.all(np.isnan(flds2d(mp['epar_max']))), "info-epar-nan")
    else:
        ep = np.sum(E * B, axis=0) / np.sqrt(np.sum(B**2, axis=0))
        ctx.close(flds2d(mp['epar_max']), ep.max(axis=0), "info-epar", rtol=1e-9)
        ctx.same(flds2d(mp['epar_max_xloc']), xcc[ep.argmax(axis=0)], "info-epar-xloc")
    # shear: angle between B 6 points outside of either edge
    want = np.full(ishe.shape, np.nan)
    Bc = B.reshape(3, nx, -1)
    for i in range(len(want)):
        a, c2 = ishe[i] + 6, isph[i] - 6
        if a < nx and c2 >= 0:
            v1, v2 = Bc[:, a, i], Bc[:, c2, i]
            want[i] = np.degrees(np.arctan2(np.linalg.norm(np.cross(v1, v2)), v1.dot(v2)))
    ctx.close(flds2d(mp['mp_shear']), want.reshape(sh2), "info-shear", rtol=1e-6, atol=1e-5)
    for k in ('mp_width', 'mp_xloc', 'pp_max', 'mp_shear', 'epar_max'):
        for ax in 'yz':
            ctx.close(mp[k].get_crd(ax), ppb.get_crd(ax), "info-crds", rtol=1e-12)
    b2 = box(rng, lay, 'b', 3, c)
    b2.data[...] = b.data
    b2.set_info('crd_system', 'mhd')
    ctx.raises(RuntimeError, lambda: viscid.get_mp_info(pp, b2, j, e, cache=False), "info-mhd-refused")
    ctx.saw(lay, kind, slc, cached, nofld, bool(np.isnan(want).any()), bool(np.isnan(want).all()))


SCENARIOS = [
    Scenario("series", scen_series, quick=1800, thorough=3000, need=300),
    Scenario("lmn", scen_lmn, quick=1200, thorough=2000, need=300),
    Scenario("field", scen_field, quick=720, thorough=800, need=150),
    Scenario("paraboloid", scen_paraboloid, quick=480, thorough=600, need=300),
    Scenario("edges", scen_edges, quick=960, thorough=1500, need=300),
    Scenario("info", scen_info, quick=480, thorough=600, need=300),
]

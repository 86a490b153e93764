"""G05 dipole fields, spherical mapping"""
from __future__ import print_function

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext, gen
from g02_rotation import rod
import viscid
from viscid import dipole as vdip

PID = "G05"
TECHNIQUE = ("runtime monitoring: synthetic dipole fields, masks, mapped "
             "points and converted points and fields of the real code are "
             "judged point by point by the textbook formula, by invariants "
             "(L-shell, angle, radius) and by converting back")
RULE = ("an execution counts when every point of a result was compared with "
        "the formula or carried back to where it came from; signatures are "
        "(function, options, sizes)")
ASSUMPTIONS = [
    "longitudes count from midnight: latlon2cart puts lon=0 at -x",
    "points on the dipole equator map to the northern foot",
]


def setup():
    ext.ensure()
    viscid.logger.setLevel(50)


def ref_dipole(m, X):
    """X (3, ...) -> B (3, ...)"""
    m = np.asarray(m, dtype='f8')
    r2 = np.sum(X ** 2, axis=0)
    md = np.tensordot(m, X, axes=(0, 0))
    return (3.0 * X * md / r2 - m.reshape((3,) + (1,) * (X.ndim - 1))) / r2 ** 1.5


def rmoment(rng):
    k = rng.randint(4)
    v = rng.randn(3)
    if k == 0:
        v = np.array([0, 0, -1.0])
    elif k == 1:
        v = np.rint(v * 5)
        if not v.any():
            v = np.array([0, 1.0, 2.0])
    return v * (1.0 if k == 1 else 10 ** rng.uniform(-2, 5))


def both_paths(rng):
    """with or without numexpr"""
    class Ctx(object):
        def __enter__(self):
            self.had = vdip._HAS_NUMEXPR
            self.use = vdip._HAS_NUMEXPR and bool(rng.randint(2))
            vdip._HAS_NUMEXPR = self.use
            return self.use

        def __exit__(self, *a):
            vdip._HAS_NUMEXPR = self.had
    return Ctx()


# ---- dipoles ---------------------------------------------------------------
def comp_positions(f):
    """where each component of a vector field lives, from nodes only"""
    nodes = [np.asarray(c, dtype='f8') for c in f.crds.get_crds_nc()]
    mids = [0.5 * (c[1:] + c[:-1]) if len(c) > 1 else c for c in nodes]
    out = []
    for i in range(3):
        if f.center == 'node':
            ax = nodes
        elif f.center == 'cell':
            ax = mids
        elif f.center == 'face':
            ax = [nodes[j][:-1] if j == i else mids[j] for j in range(3)]
        else:
            ax = [mids[j] if j == i else nodes[j][:-1] for j in range(3)]
        out.append(np.array(np.meshgrid(*ax, indexing='ij')))
    return out


def good_box(rng, n):
    """limits with no point (nearly) on the origin"""
    l = rng.uniform(-6, -0.5, 3)
    h = rng.uniform(0.6, 6, 3)
    return l, h


def dipoles(ctx, rng):
    n = [int(rng.randint(2, 7)) for _ in range(3)]
    l, h = good_box(rng, n)
    m = rmoment(rng)
    center = ['cell', 'node', 'Cell'][rng.randint(3)]
    strength = None if rng.randint(2) else float(10 ** rng.uniform(-2, 5))
    twod = rng.randint(5) == 0
    nonun = rng.randint(4) == 0
    dt = ['f8', 'f4'][rng.randint(2)]
    kw = {}
    if rng.randint(2):
        kw['crd_system'] = ['gse', 'mhd'][rng.randint(2)]
    if rng.randint(3) == 0:
        kw['name'] = 'bdip'
    mgiven = [tuple(m.tolist()), m.tolist(), m.copy()][rng.randint(3)]
    ctx.note(n=n, l=l, h=h, m=m, center=center, strength=strength, twod=twod, nonun=nonun, dt=dt)
    with both_paths(rng) as ne:
        B = viscid.make_dipole(m=mgiven, strength=strength, l=list(l), h=list(h), n=list(n), center=center,
                               dtype=dt, twod=twod, nonuniform=nonun, **kw)
    ctx.check(B.nr_comps == 3 and B.name == kw.get('name', 'b'), "make_dipole/kind")
    ctx.check(B.dtype == np.dtype(dt), "make_dipole/dtype", str(B.dtype))
    want_n = list(n)
    if twod:
        want_n[1] = 1 if center.lower() == 'cell' else 2
    ctx.check(list(B.sshape) == want_n, "make_dipole/shape", lambda: repr((B.sshape, want_n)))
    ctx.check(B.center.lower() == center.lower(), "make_dipole/center")
    nodes = B.crds.get_crds_nc()
    ctx.check(viscid.as_crd_system(B) == kw.get('crd_system', 'gse'), "make_dipole/crd_system")
    for i in range(3):
        if i == 1 and twod:
            continue
        k = n[i] + (1 if center.lower() == 'cell' else 0)
        want = np.linspace(l[i], h[i], k)
        slop = 0.011 * (h[i] - l[i]) / k if nonun and i == 2 else 0.0
        ctx.close(nodes[i], want, "make_dipole/extent", rtol=0, atol=1e-6 * 10 + slop)
    X = comp_positions(B)
    m_ = np.asarray(m, dtype='f8')
    if strength is not None:
        m_ = m_ * strength / np.linalg.norm(m_)
    eps = 1e-9 if dt == 'f8' else 2e-5
    for i, c in enumerate('xyz'):
        w = ref_dipole(m_, X[i])[i]
        scale = np.linalg.norm(m_) / np.sum(X[i] ** 2, axis=0) ** 1.5
        got = np.asarray(B[c].data, dtype='f8')
        ok = np.abs(got - w) <= 4 * eps * scale
        ctx.check(bool(np.all(ok)), "make_dipole/value", lambda: "%s: %r want %r" % (
            c, got[~ok][:3], w[~ok][:3]))
    # calc_dip agrees
    npts = [1, 2, 3, 4, 7][rng.randint(5)]
    P = rng.uniform(-4, 4, (npts, 3)) + 0.3
    k = rng.randint(4)
    if k == 0:
        P = np.rint(P) + 0.0
        P[np.sum(P ** 2, axis=1) == 0] = 1
        P = P.astype(int)
    single = npts == 1 and rng.randint(2)
    g = P[0] if single else P
    g = g.tolist() if rng.randint(3) == 0 else g
    ckw = {}
    if rng.randint(3) == 0 and k != 0:
        ckw['dtype'] = dt
    with both_paths(rng) as ne2:
        v = viscid.calc_dip(g, m=mgiven, strength=strength, **ckw)
    w = ref_dipole(m_, np.asarray(P, dtype='f8').T).T
    scale = np.linalg.norm(m_) / np.sum(np.asarray(P, dtype='f8') ** 2, axis=1) ** 1.5
    ctx.check(v.shape == ((3,) if single else (npts, 3)), "calc_dip/shape", repr(v.shape))
    e2 = eps if ckw else 1e-9
    ok = np.abs(np.atleast_2d(v) - w) <= 4 * e2 * scale[:, None]
    ctx.check(bool(np.all(ok)), "calc_dip/value", lambda: "%r want %r" % (v, w))
    ctx.saw('dipole', tuple(want_n), center, strength is None, twod, nonun, dt, ne, npts, k, single)


def filled(ctx, rng):
    """fill_dipole and set_in_region in masks on all centerings"""
    n = [int(rng.randint(2, 6)) for _ in range(3)]
    if rng.randint(5) == 0:
        n = [n[0]] * 3
    l, h = good_box(rng, n)
    nodes = []
    for i in range(3):
        a = np.linspace(l[i], h[i], n[i] + 1)
        if rng.randint(2) and n[i] > 2:
            a[1:-1] += rng.uniform(-0.2, 0.2, n[i] - 1) * (h[i] - l[i]) / n[i]
        nodes.append(a)
    center = ['cell', 'node', 'face', 'edge'][rng.randint(4)]
    layout = ['interlaced', 'flat'][rng.randint(2)]
    base = 'node' if center == 'node' else 'cell'
    sshape = [len(a) - (0 if base == 'node' else 1) for a in nodes]
    B = viscid.empty(nodes, nr_comps=3, name='b', center=base, layout=layout)
    B.data[...] = rng.randn(*B.data.shape)
    if center in ('face', 'edge'):
        B.center = center
    before = np.array(B.data)
    X = comp_positions(B)
    m = rmoment(rng)
    strength = None if rng.randint(2) else 2.5
    m_ = np.asarray(m, dtype='f8')
    if strength:
        m_ = m_ * strength / np.linalg.norm(m_)
    dip = [ref_dipole(m_, X[i])[i] for i in range(3)]
    rmin = float(rng.uniform(0, 2))
    rmax = None if rng.randint(4) == 0 else float(rng.uniform(2, 6))
    kw = {} if rmax is None else dict(rmax=rmax)
    if rng.randint(3):
        kw['rmin'] = rmin
    else:
        rmin = 0.0
    mask = viscid.make_spherical_mask(B, **kw)
    vec_mask = center in ('face', 'edge')
    ctx.check(mask.center == B.center if vec_mask else True, "mask/center")
    want = []
    for i in range(3):
        Xi = X[i]
        r = np.sqrt(np.sum(Xi ** 2, axis=0))
        w = (r >= rmin) & (r < (np.inf if rmax is None else rmax))
        edge = np.abs(r - rmin) < 1e-9
        if rmax is not None:
            edge |= np.abs(r - rmax) < 1e-9
        want.append((w, edge))
    if vec_mask:
        for i, c in enumerate('xyz'):
            got = np.asarray(mask[c].data).astype(bool)
            ctx.check(bool(np.all((got == want[i][0]) | want[i][1])), "mask/value", c)
        mm = [np.asarray(mask[c].data).astype(bool) for c in 'xyz']
    else:
        ctx.check(not mask.nr_comps and list(mask.shape) == sshape, "mask/shape", repr(mask.shape))
        got = np.asarray(mask.data).astype(bool)
        ctx.check(bool(np.all((got == want[0][0]) | want[0][1])), "mask/value")
        mm = [got] * 3
    use = rng.randint(3)
    ctx.note(n=n, center=center, layout=layout, m=m, rmin=rmin, rmax=rmax, use=use)
    old = [np.take(before, i, axis=B.nr_comp) for i in range(3)]
    with both_paths(rng) as ne:
        if use == 0:
            ret = viscid.fill_dipole(B, m=m, strength=strength, mask=mask)
            new = dip
            ctx.check(ret is B, "fill_dipole/returns")
        elif use == 1:
            ret = viscid.fill_dipole(B, m=m, strength=strength)
            new, mm = dip, [np.ones_like(x) for x in mm]
        else:
            C = viscid.empty(nodes, nr_comps=3, name='c', center=base, layout=layout)
            C.data[...] = rng.randn(*C.data.shape)
            if vec_mask:
                C.center = center
            al, be = float(rng.randn()), float(rng.randn())
            cdat = np.array(C.data)
            nomask = rng.randint(3) == 0
            akw = dict(alpha=al, beta=be)
            if rng.randint(3) == 0:
                al = be = 1.0
                akw = {}
            new = [al * old[i] + be * np.take(cdat, i, axis=C.nr_comp) for i in range(3)]
            if nomask:
                own = rng.randint(2)
                ret = viscid.set_in_region(B, C, out=None if own else B, **akw)
                mm = [np.ones_like(x) for x in mm]
                if own:
                    ctx.same(np.array(B.data), before, "set_in_region/argument")
            else:
                ret = viscid.set_in_region(B, C, mask=mask, out=B, **akw)
                ctx.check(ret is B, "set_in_region/returns")
            ctx.same(np.array(C.data), cdat, "set_in_region/argument")
    for i, c in enumerate('xyz'):
        w = np.where(mm[i], new[i], old[i])
        got = np.asarray(ret[c].data, dtype='f8')
        sc = np.abs(w) + (np.linalg.norm(m_) / np.sum(X[i] ** 2, axis=0) ** 1.5 if use < 2 else 1)
        ok = np.abs(got - w) <= 1e-9 * sc
        ctx.check(bool(np.all(ok)), ["fill_dipole/masked", "fill_dipole/value", "set_in_region/value"][use],
                  lambda: "%s: %r want %r" % (c, got[~ok][:3], w[~ok][:3]))
    ctx.check(ret.center == center and ret.layout == layout, "mask/kept")
    ctx.saw('filled', tuple(sshape), center, layout, use, ne, strength is None, rmax is None)


# ---- footpoints ------------------------------------------------------------
def lshells(ctx, rng):
    n = int([1, 2, 3, 5][rng.randint(4)])
    cs = ['gse', 'gsm', 'sm', 'mhd'][rng.randint(4)]
    tilt, gsm = 0.0, 0.0
    cotr = None
    if rng.randint(2):
        tilt, gsm = float(rng.uniform(-40, 40)), float(rng.uniform(-60, 60))
        cotr = viscid.Cotr(dip_tilt=tilt, dip_gsm=gsm)
        if rng.randint(2):
            cotr = dict(dip_tilt=tilt, dip_gsm=gsm)
    C = viscid.as_cotr(cotr)
    # sm -> cs
    R = np.array([C.transform('sm', cs, e) for e in np.eye(3)]).T
    L = rng.uniform(1.5, 12, n)
    lam0 = np.arccos(np.sqrt(1.0 / L))
    lam = rng.uniform(-1, 1, n) * lam0
    if rng.randint(4) == 0:
        lam[rng.randint(n)] = 0.0
    phi = rng.uniform(-np.pi, np.pi, n)
    r = L * np.cos(lam) ** 2
    sm = np.array([r * np.cos(lam) * np.cos(phi), r * np.cos(lam) * np.sin(phi), r * np.sin(lam)])
    P = R.dot(sm)
    single = n == 1 and rng.randint(2)
    g = P[:, 0] if single else P
    g = g.tolist() if rng.randint(3) == 0 else g
    kw = dict(crd_system=cs, cotr=cotr)
    if cs == 'gse' and rng.randint(2):
        kw.pop('crd_system')
    if cotr is None and rng.randint(2):
        kw.pop('cotr')
    ctx.note(P=P, cs=cs, tilt=tilt, gsm=gsm)
    keep = np.array(P)
    out = viscid.xyz2lsrlp(g, **kw)
    ctx.same(P, keep, "xyz2lsrlp/argument")
    ctx.check(out.shape == (4, n), "xyz2lsrlp/shape", repr(out.shape))
    ctx.close(out[0], L, "xyz2lsrlp/lshell", rtol=1e-7, atol=0)
    ctx.close(out[1], r, "xyz2lsrlp/r", rtol=1e-9, atol=0)
    ctx.close(out[2], lam, "xyz2lsrlp/latitude", rtol=0, atol=1e-7)
    d = np.remainder(out[3] - phi + np.pi, 2 * np.pi) - np.pi
    ctx.close(d, np.zeros(n), "xyz2lsrlp/phi", rtol=0, atol=1e-8)
    # mapping keeps L, longitude and hemisphere
    rm = float([1.0, rng.uniform(0.3, 1.4)][rng.randint(2)])
    if rm != 1.0 or rng.randint(2):
        kw['r'] = rm
    lm = np.where(lam < -1e-9, -1, 1) * np.arccos(np.sqrt(rm / L))
    tiny = np.abs(lam) <= 1e-9
    want = R.dot(np.array([rm * np.cos(lm) * np.cos(phi), rm * np.cos(lm) * np.sin(phi), rm * np.sin(lm)]))
    south = R.dot(np.array([rm * np.cos(lm) * np.cos(phi), rm * np.cos(lm) * np.sin(phi), -rm * np.sin(lm)]))
    M = viscid.dipole_map(g, **kw)
    ctx.check(M.shape == (3, n), "dipole_map/shape", repr(M.shape))
    for i in range(n):
        ok = np.allclose(M[:, i], want[:, i], rtol=0, atol=1e-6 * rm)
        ok = ok or (tiny[i] and np.allclose(M[:, i], south[:, i], rtol=0, atol=1e-6 * rm))
        ctx.check(ok, "dipole_map/foot", lambda: "%r -> %r want %r" % (P[:, i], M[:, i], want[:, i]))
    S = viscid.dipole_map(g, as_spherical=True, **kw)
    ctx.close(S[0], np.full(n, rm), "dipole_map/spherical-r", rtol=1e-12, atol=0)
    th = np.rad2deg(0.5 * np.pi - lm)
    ok = np.abs(S[1] - th) < 1e-5
    ok |= tiny & (np.abs(S[1] - (180 - th)) < 1e-5)
    ctx.check(bool(np.all(ok)), "dipole_map/spherical-theta", lambda: repr((S[1], th)))
    d = np.remainder(S[2] - np.rad2deg(phi) + 180, 360) - 180
    ctx.close(d, np.zeros(n), "dipole_map/spherical-phi", rtol=0, atol=1e-5)
    ctx.check(bool(np.all((S[2] >= 0) & (S[2] <= 360))), "dipole_map/spherical-range")
    # mapping out again from the foot comes back to the point
    back = []
    for i in range(n):
        k2 = dict(kw)
        k2['r'] = r[i] * (1 - 1e-9)
        back.append(viscid.dipole_map(M[:, i], **k2)[:, 0])
    bad = [i for i in range(n) if not np.allclose(back[i], P[:, i], rtol=0, atol=2e-3 * r[i])]
    # the top of the line is steep in latitude, judge there by L and r
    for i in bad:
        o2 = viscid.xyz2lsrlp(back[i], **dict((k, v) for k, v in kw.items() if k != 'r'))
        ctx.check(abs(o2[1, 0] - r[i]) < 1e-6 * r[i] and abs(o2[0, 0] - L[i]) < 1e-5 * L[i],
                  "dipole_map/back", lambda: repr((back[i], P[:, i])))
    # values mapped along lines
    if rng.randint(2):
        a = [np.linspace(-1.6, 1.6, int(rng.randint(4, 7))) for _ in range(3)]
        co = rng.randn(4)
        X = np.meshgrid(*a, indexing='ij')
        f = viscid.wrap_field(co[0] * X[0] + co[1] * X[1] + co[2] * X[2] + co[3],
                              viscid.arrays2crds(a))
        kk = dict(kw, crd_system=cs)
        vals = viscid.dipole_map_value(f, g, **kk)
        w = co[:3].dot(M) + co[3]
    else:
        deg = bool(rng.randint(2))
        u = 1.0 if deg else np.pi / 180
        tt = np.linspace(0, 180, int(rng.randint(4, 12)))
        pp = np.linspace(0, 360, int(rng.randint(4, 12)))
        axes = [('theta', tt), ('phi', pp)]
        if rng.randint(2):
            axes = axes[::-1]
        G = dict(zip([x[0] for x in axes], np.meshgrid(*[x[1] for x in axes], indexing='ij')))
        co = rng.randn(3)
        dat = co[0] * G['theta'] / 100 + co[1] * G['phi'] / 100 + co[2]
        crds = viscid.wrap_crds('nonuniform_spherical', [(x, v * u) for x, v in axes],
                                units='deg' if deg else 'rad')
        f = viscid.wrap_field(dat, crds)
        vals = viscid.dipole_map_value(f, g, **dict(kw, crd_system=cs))
        w = co[0] * S[1] / 100 + co[1] * S[2] / 100 + co[2]
    ctx.check(vals.shape == (n,), "dipole_map_value/shape", repr(vals.shape))
    ctx.close(vals, w, "dipole_map_value/value", rtol=0, atol=1e-6 * (1 + np.max(np.abs(w))))
    ctx.saw('lshells', n, cs, bool(cotr), rm == 1.0, single)


# ---- points ----------------------------------------------------------------
def points(ctx, rng):
    n = int([1, 2, 3, 4][rng.randint(4)])
    P = rng.randn(3, n) * 10 ** rng.uniform(-2, 2)
    k = rng.randint(4)
    if k == 0:
        P = np.rint(P * 3)
        P[:, np.sum(P ** 2, axis=0) == 0] = 1.0
        P = P.astype([int, 'i4', 'f4'][rng.randint(3)])
    elif k == 1:
        P[rng.randint(3)] = 0.0
    single = n == 1 and rng.randint(2)
    g = P[:, 0] if single else P
    g = g.tolist() if rng.randint(3) == 0 else g
    Pf = P.astype('f8')
    r = np.sqrt(np.sum(Pf ** 2, axis=0))
    if np.any(r == 0):
        raise Skip()
    eps = 1e-9 if P.dtype != np.dtype('f4') else 1e-5
    th = np.arctan2(np.hypot(Pf[0], Pf[1]), Pf[2])
    ph = np.arctan2(Pf[1], Pf[0])
    deg = bool(rng.randint(2))
    u = 180 / np.pi if deg else 1.0
    ctx.note(P=repr(g), deg=deg)
    out = viscid.cart2sph(g, deg=deg) if deg or rng.randint(2) else viscid.cart2sph(g)
    ctx.check(out.shape == ((3,) if single else (3, n)), "cart2sph/shape", repr(out.shape))
    o = out.reshape(3, -1).astype('f8')
    ctx.close(o[0], r, "cart2sph/r", rtol=eps, atol=0)
    at = u * (2e-7 if eps < 1e-6 else 2e-3)
    ctx.close(o[1], th * u, "cart2sph/theta", rtol=0, atol=at)
    onaxis = np.hypot(Pf[0], Pf[1]) == 0
    dd = np.remainder(o[2] / u - ph + np.pi, 2 * np.pi) - np.pi
    dd[onaxis] = 0
    ctx.close(dd, np.zeros(n), "cart2sph/phi", rtol=0, atol=at / u)
    back = viscid.sph2cart(out.tolist() if rng.randint(3) == 0 else out, deg=deg)
    ctx.check(back.shape == out.shape, "sph2cart/shape")
    ctx.close(back.reshape(3, -1), Pf, "sph2cart/back", rtol=0, atol=(2e-7 if eps < 1e-6 else 4e-3) * np.max(r))
    # integer angles
    A = np.array([rng.randint(1, 5, n), rng.randint(0, 181, n), rng.randint(-180, 361, n)])
    c = viscid.sph2cart(A, deg=True)
    t_, p_ = np.deg2rad(A[1]), np.deg2rad(A[2])
    ctx.close(c, A[0] * np.array([np.sin(t_) * np.cos(p_), np.sin(t_) * np.sin(p_), np.cos(t_)]),
              "sph2cart/integers", rtol=0, atol=1e-9)
    # latitude and longitude
    ll = np.array([rng.uniform(-90, 90, n), rng.uniform(-180, 180, n)])
    if k == 0:
        ll = np.rint(ll).astype(int)
    rr = float(rng.uniform(0.5, 3))
    s2 = ll[:, 0] if single else ll
    src = s2 if deg else np.deg2rad(s2)
    c = viscid.latlon2cart(src, r=rr, deg=deg)
    la, lo = np.deg2rad(ll[0]), np.deg2rad(ll[1])
    w = rr * np.array([-np.cos(la) * np.cos(lo), -np.cos(la) * np.sin(lo), np.sin(la)])
    ctx.check(c.shape == ((3,) if single else (3, n)), "latlon2cart/shape")
    ctx.close(c.reshape(3, -1), w, "latlon2cart/value", rtol=0, atol=1e-9)
    b = viscid.cart2latlon(c, deg=deg)
    ctx.check(b.shape == ((2,) if single else (2, n)), "cart2latlon/shape", repr(b.shape))
    b = b.reshape(2, -1) if deg else np.rad2deg(b.reshape(2, -1))
    ctx.close(b[0], ll[0], "cart2latlon/lat", rtol=0, atol=1e-5)
    dd = np.remainder(b[1] - ll[1] + 180, 360) - 180
    dd[np.abs(ll[0]) >= 89.9999] = 0
    ctx.close(dd, np.zeros(n), "cart2latlon/lon", rtol=0, atol=1e-4)
    # crd axes
    th = rng.uniform(0, 180, n)
    th[0] = [0.0, 180.0, 90.0][rng.randint(3)]
    x = th if deg else np.deg2rad(th)
    unit = 'deg' if deg else 'rad'
    la = viscid.theta2lat(x, unit=unit)
    ctx.close(la, (90 - th) / (1 if deg else 180 / np.pi), "theta2lat", rtol=0, atol=1e-9)
    ctx.close(viscid.lat2theta(la, unit=unit), x, "lat2theta", rtol=0, atol=1e-9)
    ctx.raises(ValueError, lambda: viscid.theta2lat(np.array([181.0])), "theta2lat/raises")
    ctx.raises(ValueError, lambda: viscid.lat2theta(np.array([-91.0])), "lat2theta/raises")
    # points for polar plots
    hemi = ['north', 'south', 'N ', 's'][rng.randint(4)]
    axes = [('phi', 'theta'), ('theta', 'phi'), ('lon', 'lat'), ('lat', 'lon')][rng.randint(4)]
    lat = np.rint(rng.uniform(-90, 90, n)) if k == 0 else rng.uniform(-90, 90, n)
    lon = np.rint(rng.uniform(0, 360, n)) if k == 0 else rng.uniform(0, 360, n)
    src = dict(lat=lat, lon=lon, theta=90 - lat, phi=lon)
    pin = np.array([src[a] for a in axes])
    if not deg:
        pin = np.deg2rad(pin)
    elif k == 0:
        pin = pin.astype(int)
    keep = pin.copy()
    out = viscid.pts2polar_mapfield(pin, axes, pts_unit=unit, hemisphere=hemi)
    ctx.same(pin, keep, "pts2polar/argument")
    ctx.close(out[0], np.deg2rad(lon), "pts2polar/lon", rtol=0, atol=1e-9)
    sgn = -1 if hemi.strip().lower().startswith('n') else 1
    ctx.close(out[1], np.pi / 2 + sgn * np.deg2rad(lat), "pts2polar/colat", rtol=0, atol=1e-9)
    # great circles
    p1, p2 = Pf[:, 0].copy(), rng.randn(3) * rng.uniform(0.5, 3)
    org = np.zeros(3) if rng.randint(2) else rng.randn(3)
    kk = rng.randint(6)
    if kk == 0:
        p2 = p1 * 1.7
    elif kk == 1:
        p2 = -p1
    elif kk == 2:
        p1 = np.eye(3)[rng.randint(3)] * [1, -1][rng.randint(2)]
        p2 = np.eye(3)[rng.randint(3)] * 2.0
    m = int([2, 3, 17, 32][rng.randint(4)])
    g1 = p1.astype(int).tolist() if kk == 2 and not org.any() else p1 + org
    C = viscid.great_circle(g1, p2 + org, origin=org, n=m)
    ctx.check(C.shape == (3, m), "great_circle/shape", repr(C.shape))
    Q = C - org[:, None]
    r1, r2 = np.linalg.norm(p1), np.linalg.norm(p2)
    sc = max(r1, r2)
    ctx.close(Q[:, 0], p1, "great_circle/start", rtol=0, atol=1e-6 * sc)
    ctx.close(Q[:, -1], p2, "great_circle/end", rtol=0, atol=1e-6 * sc)
    s = np.linspace(0, 1, m)
    ctx.close(np.linalg.norm(Q, axis=0), r1 + (r2 - r1) * s, "great_circle/radius", rtol=1e-6, atol=0)
    full = np.arctan2(np.linalg.norm(np.cross(p1, p2)), p1.dot(p2))
    q = Q / np.linalg.norm(Q, axis=0)
    ang = np.arctan2(np.linalg.norm(np.cross(p1 / r1, q.T), axis=1), (p1 / r1).dot(q))
    ctx.close(ang, full * s, "great_circle/angle", rtol=0, atol=1e-6)
    if full < np.pi - 1e-3 and full > 1e-3:
        nrm = np.cross(p1, p2) / np.linalg.norm(np.cross(p1, p2))
        ctx.close(nrm.dot(q), np.zeros(m), "great_circle/plane", rtol=0, atol=1e-6)
    ctx.saw('points', n, k, single, deg, hemi, axes, kk, m)


# ---- fields ----------------------------------------------------------------
def fields(ctx, rng):
    """(theta, phi) <-> (lon, lat) in any order, units, centering, layout"""
    uniform = bool(rng.randint(2))
    deg = bool(rng.randint(2))
    u = 1.0 if deg else np.pi / 180
    nth, nph = int(rng.randint(3, 8)), int(rng.randint(3, 8))
    if rng.randint(4) == 0:
        nph = int(rng.randint(60, 400))
    if rng.randint(2):
        t0, t1 = 0.0, 180.0
    else:
        t0 = float(rng.uniform(0, 80))
        t1 = t0 + float(rng.uniform(20, 90))
    p0 = 0.0 if rng.randint(2) else float(rng.uniform(-180, 0))
    p1 = p0 + [360.0, 360.0 - 360.0 / nph, 120.0][rng.randint(3)]
    center = ['node', 'cell'][rng.randint(2)]
    extra = 1 if center == 'cell' else 0
    T = np.linspace(t0, t1, nth + extra)
    F = np.linspace(p0, p1, nph + extra)
    if not uniform:
        T[1:-1] += rng.uniform(-0.3, 0.3, len(T) - 2) * (T[1] - T[0])
        F[1:-1] += rng.uniform(-0.3, 0.3, len(F) - 2) * (F[1] - F[0])
    latkind = rng.randint(3) == 0
    axs = {'theta': T * u, 'phi': F * u}
    if latkind:
        axs = {'lat': (90 - T)[::-1] * u, 'lon': F * u}
    order = list(axs)
    if rng.randint(2):
        order = order[::-1]
    if uniform:
        clist = [(a, [axs[a][0], axs[a][-1], len(axs[a])]) for a in order]
    else:
        clist = [(a, axs[a]) for a in order]
    unit = 'deg' if deg else 'rad'
    crds = viscid.wrap_crds(('uniform' if uniform else 'nonuniform') + '_spherical', clist, units=unit)
    nc = [0, 0, 3, 2][rng.randint(4)]
    layout = ['interlaced', 'flat'][rng.randint(2)]
    sshape = [len(axs[a]) - extra for a in order]
    shape = sshape if not nc else (sshape + [nc] if layout == 'interlaced' else [nc] + sshape)
    dat = rng.randn(*shape)
    kw = dict(fldtype='vector', layout=layout) if nc else {}
    f = viscid.wrap_field(dat.copy(), crds, name='f', center=center, **kw)
    # a map from (theta, phi) degrees to values
    cc = {}
    for a in order:
        x = np.asarray(axs[a])
        cc[a] = 0.5 * (x[1:] + x[:-1]) if extra else x

    def table(fld):
        """sorted list of (theta deg, phi deg, *values) with the unit of fld"""
        uu = fld.crds.get_unit(fld.crds.axes[0])
        s = 180 / np.pi if uu == 'rad' else 1.0
        ax = list(fld.crds.axes)
        c = [np.asarray(x) * s for x in fld.get_crds()]
        c = [90 - x if a == 'lat' else x for a, x in zip(ax, c)]
        G = dict(zip([{'lat': 'theta', 'lon': 'phi'}.get(a, a) for a in ax], np.meshgrid(*c, indexing='ij')))
        vals = [fld.data] if not fld.nr_comps else [np.take(fld.data, i, axis=fld.nr_comp) for i in range(fld.nr_comps)]
        rows = np.array([G['theta'].ravel(), G['phi'].ravel()] + [np.asarray(v).ravel() for v in vals]).T
        return rows[np.lexsort((rows[:, 1].round(6), rows[:, 0].round(6)))]
    want = table(f)
    ctx.note(order=order, uniform=uniform, unit=unit, center=center, nc=nc, layout=layout, T=T, F=F)

    def judge(g, key, ords, ut, ax_asc=True):
        ctx.check(list(g.crds.axes) == list(ords), key + "/axes", repr(g.crds.axes))
        ctx.check([g.crds.get_unit(a) for a in ords] == [ut, ut], key + "/units",
                  repr([g.crds.get_unit(a) for a in ords]))
        got = table(g)
        ctx.check(got.shape == want.shape, key + "/shape", repr((got.shape, want.shape)))
        ctx.close(got[:, :2], want[:, :2], key + "/coordinates", rtol=0, atol=1e-6)
        ctx.same(got[:, 2:], want[:, 2:], key + "/values")
        ctx.check(g.center == center and (not nc or g.layout == layout), key + "/kind")
        for a in ords:
            ctx.check(bool(np.all(np.diff(g.get_crd(a)) > 0)), key + "/ascending", a)
    m_ord = [('lon', 'lat'), ('lat', 'lon')][rng.randint(2)]
    s_ord = [('phi', 'theta'), ('theta', 'phi')][rng.randint(2)]
    tu = ['', 'deg', 'rad'][rng.randint(3)]
    ru = tu or unit
    kw = dict(units=tu) if tu or rng.randint(2) else {}
    if tu and rng.randint(4) == 0:
        kw['units'] = [tu, tu]
    if m_ord != ('lon', 'lat') or rng.randint(2):
        kw['order'] = m_ord
    g = viscid.as_mapfield(f, **kw)
    judge(g, "as_mapfield", m_ord, ru)
    kw['order'] = s_ord
    h = viscid.as_spherefield(f, **kw)
    judge(h, "as_spherefield", s_ord, ru)
    back = viscid.as_spherefield(g, order=s_ord, units=unit)
    judge(back, "map->sphere", s_ord, unit)
    back = viscid.as_mapfield(h, order=m_ord, units=unit)
    judge(back, "sphere->map", m_ord, unit)
    ctx.same(np.asarray(f.data), dat, "as_mapfield/argument")
    # polar views
    lats = 90 - (0.5 * (T[1:] + T[:-1]) if extra else T)
    hemi = ['north', 'south', 'n', 's'][rng.randint(4)]
    north = hemi.startswith('n')
    b = float(rng.uniform(15, 90)) if rng.randint(4) else 90.0
    colat = 90 - lats if north else lats + 90
    if np.any(np.abs(colat - b) < 0.02 * (t1 - t0) / nth):
        raise Skip()
    inside = np.sort(colat[colat <= b])
    per = bool(rng.randint(2))
    if len(inside) < 2:
        if len(inside) == 0:
            ctx.raises(ValueError, lambda: viscid.as_polar_mapfield(f, bounding_lat=b, hemisphere=hemi), "polar/raises")
        ctx.saw('fields', 'outside', north)
        return
    if extra and uniform is False:
        pass
    P = viscid.as_polar_mapfield(f, bounding_lat=b, hemisphere=hemi, make_periodic=per)
    ctx.check(list(P.crds.axes) == ['lon', 'lat'], "polar/axes")
    ctx.close(np.sort(P.get_crd('lat')), np.deg2rad(inside), "polar/colatitudes", rtol=0, atol=1e-6)
    fc = 0.5 * (F[1:] + F[:-1]) if extra else F
    add = per and (F[-1] - F[0] < 360 - 1e-3)
    lon = list(fc)
    if add:
        if uniform:
            lon = lon + [lon[-1] + (lon[1] - lon[0])]
        elif not extra:
            lon = lon + [lon[0] + 360]
        else:
            raise Skip()
    ctx.close(P.get_crd('lon'), np.deg2rad(lon), "polar/longitudes", rtol=0, atol=1e-6)
    # values
    look = {}
    ax = [{'lat': 'theta', 'lon': 'phi'}.get(a, a) for a in order]
    for i, cl in enumerate(np.rad2deg(P.get_crd('lat'))):
        th = cl if north else 180 - cl
        src_t = 90 - lats
        it = int(np.argmin(np.abs(src_t - th)))
        if latkind:
            it = len(lats) - 1 - it
        for j in range(len(lon)):
            jj = j % len(fc)
            idx = [it if a == 'theta' else jj for a in ax]
            if nc:
                w = dat[tuple(idx)] if layout == 'interlaced' else dat[(slice(None),) + tuple(idx)]
                got = P.data[j, i] if layout == 'interlaced' else P.data[:, j, i]
            else:
                w, got = dat[tuple(idx)], P.data[j, i]
            ctx.check(bool(np.all(got == w)), "polar/values", lambda: repr((cl, lon[j], got, w)))
    ctx.saw('fields', uniform, unit, center, nc, layout, tuple(order), m_ord, s_ord, tu, north, per, b == 90.0)


SCENARIOS = [
    Scenario('dipoles', dipoles, quick=1200, thorough=8000),
    Scenario('filled', filled, quick=1200, thorough=8000),
    Scenario('lshells', lshells, quick=1200, thorough=8000),
    Scenario('points', points, quick=2000, thorough=15000),
    Scenario('fields', fields, quick=2000, thorough=15000),
]

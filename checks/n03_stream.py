"""N03: streamlines follow the field, contain their seed, stop where they should"""
import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen, ext

PID = "N03"
TECHNIQUE = "runtime monitoring: online checker of every traced line against the step relation of its method, the stop conditions and the documented topology function"
RULE = ("linear, dipole, noise, integer and partly vanishing fields on 3-d and 2-d "
        "grids (node/cell, f4 f8 i4, both layouts), seeds inside, on and outside "
        "the box, six integrators, all limits, boxes, radii, directions and outputs")
ASSUMPTIONS = ["coordinates ascend", "step formula is judged where the field is not "
               "close to zero relative to its own scale",
               "a seed that is outside itself makes one step"]

TAB = {   # stages and weights of the explicit methods
    'euler1': ([[]], [1.0]),
    'rk2': ([[], [0.5]], [0.0, 1.0]),
    'rk4': ([[], [0.5], [0, 0.5], [0, 0, 1.0]], [1 / 6., 1 / 3., 1 / 3., 1 / 6.]),
    'euler1a': ([[]], [1.0]),
    'rk12': ([[]], [1.0]),
    'rk45': ([[], [1 / 4.], [3 / 32., 9 / 32.],
              [1932 / 2197., -7200 / 2197., 7296 / 2197.],
              [439 / 216., -8., 3680 / 513., -845 / 4104.]],
             [25 / 216., 0, 1408 / 2565., 2197 / 4104., -1 / 5.]),
}
FIFTH = ([[], [1 / 4.], [3 / 32., 9 / 32.],
          [1932 / 2197., -7200 / 2197., 7296 / 2197.],
          [439 / 216., -8., 3680 / 513., -845 / 4104.],
          [-8 / 27., 2., -3544 / 2565., 1859 / 4104., -11 / 40.]],
         [16 / 135., 0, 6656 / 12825., 28561 / 56430., -9 / 50., 2 / 55.])
ADAPTIVE = ('euler1a', 'rk12', 'rk45')
FIXED = ('euler1', 'rk2', 'rk4')

END = dict(IBOUND_NORTH=3, IBOUND_SOUTH=5, XL=24, XH=40, YL=72, YH=136, ZL=264,
           ZH=520, R=1032, MAXIT=12288, MAX_LENGTH=20480, MAX_T=36864,
           ZERO_LENGTH=69632)
NAME = {v: k for k, v in END.items()}


def setup():
    ext.ensure()


class Ref(object):
    """the field by its definition: clamped trilinear interpolation"""
    def __init__(self, crds, vals):
        self.crds, self.vals = crds, vals.astype('f8')
        self.on = np.array([len(c) > 1 for c in crds], dtype='f8')

    def __call__(self, p):
        p = np.atleast_2d(p)
        out = 0.0
        I, J, F = [], [], []
        for d, c in enumerate(self.crds):
            x = p[:, d]
            if len(c) == 1:
                i = np.zeros(len(x), int)
                j, f = i, np.zeros(len(x))
            else:
                xx = np.clip(x, c[0], c[-1])
                i = np.clip(np.searchsorted(c, xx, side='right') - 1, 0, len(c) - 2)
                j, f = i + 1, (xx - c[i]) / (c[i + 1] - c[i])
            I.append(i)
            J.append(j)
            F.append(f)
        for a in range(8):
            ix, w = [], 1.0
            for d in range(3):
                b = (a >> d) & 1
                ix.append(J[d] if b else I[d])
                w = w * (F[d] if b else 1.0 - F[d])
            v = self.vals[ix[0], ix[1], ix[2]]
            out = out + np.where(w[:, None] == 0, 0.0, w[:, None] * v)
        return out * self.on

    def step(self, x, h, tab):
        """endpoints of one step and the smallest |v| it met"""
        C, W = tab
        x = np.atleast_2d(x)
        h = np.broadcast_to(np.asarray(h, 'f8'), (len(x),))
        ks, low = [], np.full(len(x), np.inf)
        with np.errstate(all='ignore'):
            for row in C:
                p = x.copy()
                for c, k in zip(row, ks):
                    p = p + c * k
                v = self(p)
                m = np.sqrt(np.sum(v * v, axis=1))
                low = np.fmin(low, np.where(np.isnan(m), 0, m))
                ks.append(v * (h / m)[:, None])
            out = x.copy()
            for w, k in zip(W, ks):
                out = out + w * k
        return out, low


def make(rng, kind=None):
    import viscid
    dims = [3, 3, 3, 3, 2][rng.randint(5)]
    names = 'xyz' if dims == 3 else ['xy', 'yz', 'xz'][rng.randint(3)]
    center = ['node', 'cell'][rng.randint(2)]
    kind = kind or ['linear', 'linear', 'dipole', 'noise', 'zeros', 'const', 'int'][rng.randint(7)]
    dt = 'i4' if kind == 'int' else ['f8', 'f8', 'f4'][rng.randint(3)]
    n = [int(rng.randint(2, 8)) for _ in range(dims)]
    scale = 10.0 ** rng.uniform(-1, 1.3)
    axes = []
    for k, nm in zip(n, names):
        nn = k + (1 if center == 'cell' else 0)
        if rng.randint(2):
            w = rng.uniform(0.4, 1.6, size=nn - 1)
        else:
            w = np.ones(nn - 1)
        c = np.concatenate([[0.0], np.cumsum(w)])
        c = (c - c[-1] * rng.uniform(0.2, 0.8)) * scale
        axes.append(gen.Axis(nm, c))
    crds = [a.nc if center == 'node' else a.cc for a in axes]
    G = np.meshgrid(*crds, indexing='ij')
    X = np.zeros(G[0].shape + (3,))
    for g, nm in zip(G, names):
        X[..., 'xyz'.index(nm)] = g
    ext_ = max(a.nc[-1] - a.nc[0] for a in axes)
    if kind == 'const':
        vals = np.zeros(X.shape) + rng.standard_normal(3)
    elif kind in ('linear', 'zeros'):
        M = rng.standard_normal((3, 3)) / ext_
        vals = X @ M.T + rng.standard_normal(3)
        if kind == 'zeros':
            i = tuple(slice(rng.randint(0, k), None) for k in n)
            vals[i] = [0.0, 0.0, np.nan][rng.randint(3)]
    elif kind == 'dipole':
        m = rng.standard_normal(3)
        r = np.sqrt(np.sum(X * X, axis=-1))[..., None] + 0.2 * ext_
        mr = np.sum(X * m, axis=-1)[..., None]
        vals = (3 * X * mr / r ** 5 - m / r ** 3) * ext_ ** 3
    elif kind == 'int':
        vals = rng.randint(-9, 10, size=X.shape).astype('f8')
    else:
        vals = rng.standard_normal(X.shape)
    vals = vals * (10.0 ** rng.uniform(-2, 2) if kind != 'int' else 1)
    m = gen.Model(vals.astype(dt), axes, center, 3)
    f = gen.make_field(rng, m, layout=['flat', 'interlaced'][rng.randint(2)],
                       crd_type=['AUTO', 'nonuniform'][rng.randint(2)],
                       order=['C', 'F'][rng.randint(2)])
    full, v = [], m.vals
    nodes = []
    for d, nm in enumerate('xyz'):
        if nm in names:
            full.append(np.asarray(crds[names.index(nm)], 'f8'))
            nodes.append(axes[names.index(nm)].nc)
        else:
            full.append(np.array([0.0]))
            nodes.append(np.array([-1.0, 1.0]) if center == 'cell' else np.array([0.0]))
            v = np.expand_dims(v, d)
    if kind == 'noise' or kind == 'int':
        smooth = False
    else:
        smooth = True
    return f, m, Ref(full, v), nodes, kind, smooth, ext_, dt


def seeds_for(rng, ref, nodes, n, dt):
    pts = np.empty((3, n))
    for k in range(n):
        how = rng.randint(10)
        for d in range(3):
            c, nn = ref.crds[d], nodes[d]
            w = (nn[-1] - nn[0]) or 1.0
            if how == 8 and len(c) > 1:
                pts[d, k] = c[rng.randint(len(c))]
            elif how == 9 and len(c) > 1:
                pts[d, k] = rng.uniform(nn[0] - 0.3 * w, nn[-1] + 0.3 * w)
            elif len(c) > 1:
                pts[d, k] = rng.uniform(nn[0], nn[-1])
            else:
                pts[d, k] = 0.0 if rng.randint(2) else rng.uniform(-1, 1)
    return pts.astype('f4').astype('f8') if dt == 'f4' else pts


def options(rng, ref, nodes, ext_, dt, method):
    import viscid
    o = dict(method=method)
    md = []
    for c, nn in zip(ref.crds, nodes):
        if len(nn) > 1:
            md.append(np.min(np.diff(nn)))
    mdx = min(md)
    r = rng.randint(4) if all(ref.on) else 3   # lone points have no size of their own
    if r == 0:
        ds0 = 0.5 * mdx
    elif r == 1:
        o['ds0_frac'] = float(rng.uniform(0.1, 1.5))
        ds0 = o['ds0_frac'] * mdx
    else:
        ds0 = o['ds0'] = float(ext_ * 10.0 ** rng.uniform(-2, -0.5))
    s, l = 1e-2 * ds0, 1e2 * ds0
    if rng.randint(2):
        if rng.randint(2):
            s = o['smallest_ds'] = float(ds0 * 10.0 ** rng.uniform(-3, 0))
        else:
            o['smallest_ds_frac'] = float(10.0 ** rng.uniform(-3, 0))
            s = o['smallest_ds_frac'] * ds0
    if rng.randint(2):
        if rng.randint(2):
            l = o['largest_ds'] = float(ds0 * 10.0 ** rng.uniform(0, 1.5))
        else:
            o['largest_ds_frac'] = float(10.0 ** rng.uniform(0, 1.5))
            l = o['largest_ds_frac'] * ds0
    err = {'euler1a': 4e-2, 'rk12': 1.5e-2, 'rk45': 1e-5}.get(method)
    if rng.randint(3) == 0:
        err = o['max_error'] = float(10.0 ** rng.uniform(-4, -1))
    o['maxit'] = int([400, 400, rng.randint(1, 40)][rng.randint(3)])
    o['max_length'] = float([1e30, ext_ * 10.0 ** rng.uniform(-1.5, 0.7), 0.0][rng.randint(3)])
    o['max_t'] = 0.0
    if rng.randint(3) == 0:
        vm = np.nanmax(np.abs(ref.vals)) or 1.0
        o['max_t'] = float(ext_ / vm * 10.0 ** rng.uniform(-1.5, 0.7))
    big = 3.4028234663852886e+38
    lo, hi = [], []
    for c, nn in zip(ref.crds, nodes):
        lo.append(-big if len(c) == 1 else nn[0])
        hi.append(big if len(c) == 1 else nn[-1])
    if rng.randint(3) == 0:
        o['obound0'] = [float(rng.uniform(-0.5, 0.1) * ext_) for _ in range(3)]
        lo = o['obound0']
    if rng.randint(3) == 0:
        o['obound1'] = tuple(float(rng.uniform(-0.1, 0.5) * ext_) for _ in range(3))
        hi = o['obound1']
    R = 0.0
    if rng.randint(3) == 0:
        R = o['obound_r'] = float(rng.uniform(0.1, 0.6) * ext_)
    ib = 0.0
    if rng.randint(3) == 0:
        ib = o['ibound'] = float(rng.uniform(0.02, 0.3) * ext_)
    if dt == 'f4':
        f32 = lambda v: [float(np.float32(x)) for x in v]
        lo, hi = f32(lo), f32(hi)
    return o, dict(ds0=ds0, s=s, l=l, err=err, lo=lo, hi=hi, R=R, ib=ib)


def where_is(p, lim, tol):
    """classification of a point, None where rounding decides"""
    r = np.sqrt(np.sum(p * p))
    def cmp(a, b):
        return None if abs(a - b) <= tol else a < b
    c = cmp(r, lim['ib']) if lim['ib'] else False
    if c is None:
        return None
    if c:
        return END['IBOUND_NORTH'] if p[2] >= 0 else END['IBOUND_SOUTH']
    if lim['R']:
        c = cmp(lim['R'], r)
        if c is None:
            return None
        if c:
            return END['R']
    for side, b, s in (('L', lim['lo'], 1), ('H', lim['hi'], -1)):
        for d in range(3):
            c = cmp(s * p[d], s * b[d])
            if c is None:
                return None
            if c:
                return END['XYZ'[d] + side]
    return 0


def msphere(fl):
    if fl & 4096:
        return fl
    if fl & 11 == 11:
        return 2
    if fl & 13 == 13:
        return 4
    if fl in (3, 5, 7):
        return 1
    return 8


def check_branch(ctx, ref, pts, status, o, lim, sgn, smooth, dt, method, kind):
    """pts [n, 3] from the seed outwards"""
    f4 = dt == 'f4'
    ext_ = max(abs(c).max() for c in ref.crds) + np.max(np.abs(pts[0])) + 1e-300
    eps = (4e-6 if f4 else 1e-12)
    tolx = eps * max(ext_, np.max(np.abs(pts)))
    n = len(pts) - 1
    ctx.check(status in NAME, "status/unknown", lambda: "%s" % status)
    name = NAME[status]
    ctx.count("end " + name)
    where = None
    # -- the line stops at the first point past a boundary
    for i in range(1, n):
        w = where_is(pts[i], lim, tolx)
        ctx.check(w in (0, None), "stop/missed",
                  lambda: "point %d %s is past %s but the line goes on (%s)" % (
                      i, pts[i], NAME.get(w), name))
    ctx.check(n <= o['maxit'], "stop/maxit", lambda: "%d > %d" % (n, o['maxit']))
    if n >= 1:
        where = where_is(pts[n], lim, tolx)
        if where is not None:
            if where:
                if name == 'ZERO_LENGTH':
                    ctx.check(False, "stop/missed", "went on beyond %s" % NAME[where])
                ctx.check(status == where, "status/boundary",
                          lambda: "last %s is past %s, reported %s" % (
                              pts[n], NAME[where], name))
            else:
                ctx.check(status & 4096, "status/boundary",
                          lambda: "last point %s is inside, reported %s" % (pts[n], name))
    seg = np.sqrt(np.sum(np.diff(pts, axis=0) ** 2, axis=1))
    L = np.sum(seg)
    Lnom = n * lim['ds0'] if method in FIXED else L
    ml, mt = o['max_length'], o['max_t']
    if f4:
        el = 1e-3 * max(L, lim['ds0']) + n * tolx * 4
    else:
        el = 1e-9 * max(L, lim['ds0']) + n * tolx
    if name == 'MAXIT':
        ctx.check(n == o['maxit'], "status/maxit", lambda: "%d of %d" % (n, o['maxit']))
    if ml > 0:
        ctx.check(L <= ml + el, "length/over", lambda: "%r > %r" % (L, ml))
        if name == 'MAX_LENGTH':
            if method in ADAPTIVE or method != 'rk4':
                ctx.check(L >= ml - el or mt > 0, "length/under",
                          lambda: "%r of %r in %d steps" % (L, ml, n))
            else:
                ctx.check(n * lim['ds0'] >= ml - el, "length/under",
                          lambda: "%r of %r" % (n * lim['ds0'], ml))
        elif name not in ('MAX_T',) and n >= 1 and not (
                where and where & 15) and not (where is None and not status & 4096):
            ctx.check(Lnom <= ml + el, "length/missed",
                      lambda: "%r nominal of %r, ended by %s" % (Lnom, ml, name))
    else:
        ctx.check(name != 'MAX_LENGTH', "status/length", "no limit was set")
    trimmed = name in ('MAX_LENGTH', 'MAX_T') or bool(
        n and ((ml > 0 and (Lnom > ml - el)) or mt > 0))
    if n == 0:
        if name == 'ZERO_LENGTH':
            v0 = ref(pts[0])[0]
            ctx.count("ended at the seed")
        else:
            ctx.check(False, "status/no-steps", "ended by %s without a step" % name)
    # -- every step leaves a point where the field has a direction
    full = n if not trimmed else n - 1
    V = ref(pts)
    mag = np.sqrt(np.sum(V * V, axis=1))
    vmax = np.nanmax(np.abs(ref.vals))
    for i in np.nonzero(np.isnan(mag[:n]) | (mag[:n] == 0.0))[0]:
        if f4:
            break
        # rounding may put the point on either side of the zeros' edge
        near = ref(pts[i] + 4 * tolx * np.array(
            [[a, b, c] for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)]))
        if np.all(np.isnan(near).any(axis=1)) or not np.any(near):
            ctx.check(False, "zero/stepped",
                      "step %d left a point with |v| = %r" % (i, mag[i]))
    if name == 'ZERO_LENGTH' and method in FIXED and not np.any(np.isnan(ref.vals)):
        x1, low = ref.step(pts[-1:], sgn * lim['ds0'], TAB[method])
        ctx.check(low[0] <= 1e-6 * vmax or not np.isfinite(low[0]), "status/zero",
                  lambda: "reported as zero, but |v| >= %r" % low[0])
    if not mt > 0:
        ctx.check(name != 'MAX_T', "status/time", "no limit was set")
    elif n:
        # never faster than the largest speed on the grid
        top = np.nanmax(np.sqrt(np.sum(ref.vals ** 2, axis=-1)))
        ctx.check(L <= mt * top * (1 + (1e-3 if f4 else 1e-9)) + el, "time/over",
                  lambda: "%r in %r at %r" % (L, mt, top))
    # -- a last step that was cut short still leads along the full one
    if name in ('MAX_LENGTH', 'MAX_T') and n and not (f4 and kind in ('noise', 'int')):
        a, b = pts[n - 1:n], pts[n]
        if method in FIXED:
            hs = np.array([lim['ds0']])
        elif method == 'euler1a':
            hs = np.array([lim['l']])
        else:
            hs = np.geomspace(max(min(seg[-1], lim['l']), lim['s'], 1e-9 * lim['l']),
                              1.001 * lim['l'], 400)
        ww, low = ref.step(np.repeat(a, len(hs), 0), sgn * hs, TAB[method])
        u = ww - a
        c = np.sqrt(np.sum(u * u, axis=1))
        if np.min(low) > (0.2 if f4 else 0.03) * vmax and np.min(c) > 0:
            u = u / c[:, None]
            par = u @ (b - a[0])
            perp = np.sqrt(np.sum((b - a[0] - par[:, None] * u) ** 2, axis=1))
            off = np.min(np.maximum(perp, np.maximum(-par, par - c)))
            tol = (2e-3 if f4 else 1e-6) * c[0] if len(hs) == 1 else 0.03 * seg[-1]
            ctx.count("cut steps judged")
            ctx.check(off <= tol + 4 * tolx, "cut/" + method,
                      lambda: "the last step, of %r, leads off by %r" % (seg[-1], off))
    # -- the step relation
    if full < 1:
        return
    x0, x1 = pts[:full], pts[1:full + 1]
    if kind in ('noise', 'int') and f4:
        return
    thr = 0.2 if f4 else 0.03
    if method in FIXED:
        want, low = ref.step(x0, sgn * lim['ds0'], TAB[method])
        ok = low > thr * vmax
        tol = lim['ds0'] * (2e-3 if f4 else 1e-6) + 4 * tolx
        d = np.abs(want - x1).max(axis=1)
        ctx.count("steps judged", int(ok.sum()))
        ctx.check(np.all(d[ok] <= tol), "step/" + method,
                  lambda: "%d of %d steps off by %r (ds0 %r)" % (
                      np.sum(d[ok] > tol), full, d[ok].max(), lim['ds0']))
        return
    chord = seg[:full]
    sl = lim['s'] * (1 - 1e-3 if f4 else 1 - 1e-9)
    ll = lim['l'] * (1 + 1e-3 if f4 else 1 + 1e-9)
    s_eff, l_eff = min(sl, lim['ds0'] * (1 - 1e-3)), max(ll, lim['ds0'] * (1 + 1e-3))
    if method == 'rk45':
        l_eff *= 1.41     # sum of |weights|
    ctx.check(np.all(chord <= l_eff + 2 * tolx), "limit/largest",
              lambda: "%r > %r" % (chord.max(), lim['l']))
    if method != 'rk45':
        ctx.check(np.all(chord >= s_eff - 2 * tolx), "limit/smallest",
                  lambda: "%r < %r" % (chord.min(), lim['s']))
    if method in ('euler1a', 'rk12'):
        want, low = ref.step(x0, sgn * chord, TAB[method])
        ok = low > thr * vmax
        d = np.abs(want - x1).max(axis=1)
        tol = chord * (2e-3 if f4 else 1e-6) + 4 * tolx
        ctx.count("steps judged", int(ok.sum()))
        ctx.check(np.all(d[ok] <= tol[ok]), "step/" + method,
                  lambda: "off by %r of %r" % (d[ok].max(), chord.max()))
        # embedded error
        if method == 'euler1a':
            back, low2 = ref.step(x1, -sgn * chord, TAB['euler1'])
            e = np.sqrt(np.sum((back - x0) ** 2, axis=1)) / chord
        else:
            two, low2 = ref.step(x0, sgn * chord, TAB['rk2'])
            e = np.sqrt(np.sum((two - x1) ** 2, axis=1)) / chord
        judge = ok & (low2 > thr * vmax) & (chord > lim['s'] * (1 + 1e-3))
        ctx.count("error judged", int(judge.sum()))
        ctx.check(np.all(e[judge] <= lim['err'] * 1.01 + (1e-3 if f4 else 1e-7) + 4 * tolx / chord[judge]),
                  "error/" + method, lambda: "error %r allowed %r" % (e[judge].max(), lim['err']))
        return
    # rk45: step size by fixed point, then by scan
    for i in range(min(full, 12)):
        a, b = x0[i:i + 1], x1[i:i + 1]
        h = chord[i]
        best = np.inf
        for _ in range(12):
            want, low = ref.step(a, sgn * h, TAB['rk45'])
            d = np.sqrt(np.sum((want - b) ** 2))
            if not np.isfinite(d):
                break
            best = min(best, d)
            c = np.sqrt(np.sum((want - a) ** 2))
            if d <= 1e-9 * chord[i] or not c > 0:
                break
            h = h * chord[i] / c
        w0, low = ref.step(a, sgn * chord[i], TAB['rk45'])
        if low[0] < thr * vmax:
            continue
        tol = chord[i] * (2e-3 if f4 else 1e-6) + 4 * tolx
        if best > tol:
            hs = np.unique(np.clip(chord[i] * np.concatenate(
                [np.linspace(0.7, 1.5, 1500), np.geomspace(1.5, 30, 1500)]), 0, lim['l'] * 1.001))
            def scan(hh):
                ww, lows = ref.step(np.repeat(a, len(hh), 0), sgn * hh, TAB['rk45'])
                return np.nan_to_num(np.sqrt(np.sum((ww - b) ** 2, axis=1)), nan=np.inf), lows
            d0, lows = scan(hs)
            m0 = np.r_[np.inf, d0, np.inf]
            minima = np.nonzero((m0[1:-1] <= m0[:-2]) & (m0[1:-1] <= m0[2:]))[0]
            minima = minima[np.argsort(d0[minima])][:8]
            shaky = np.any(lows[minima] < thr * vmax)
            for k0 in minima:
                hh, k = hs, int(k0)
                for _ in range(4):
                    hh = np.linspace(hh[max(k - 1, 0)], hh[min(k + 1, len(hh) - 1)], 200)
                    dd, _ = scan(hh)
                    k = int(np.argmin(dd))
                if dd[k] < best:
                    best, h = dd[k], hh[k]
            tol = max(tol, chord[i] * 1e-5)
            if best > tol and shaky:
                ctx.count("steps not judged (near a zero)")
                continue
        ctx.count("steps judged")
        if np.abs(h) > 3 * chord[i]:
            ctx.count("steps not judged (coiled)")
            continue
        ctx.check(best <= tol, "step/rk45", lambda: "step %d of %d off by %r (%r)" % (
            i, full, best, chord[i]))
        ctx.check(h >= s_eff * (1 - 1e-4) - 2 * tolx and h <= lim['l'] * (1 + 1e-3) + 2 * tolx, "limit/rk45",
                  lambda: "%r not in %r..%r" % (h, lim['s'], lim['l']))
        five, low5 = ref.step(a, sgn * h, FIFTH)
        four, _ = ref.step(a, sgn * h, TAB['rk45'])
        e = np.sqrt(np.sum((five - four) ** 2)) / h
        if low5[0] > thr * vmax and h > lim['s'] * (1 + 1e-3):
            ctx.count("error judged")
            ctx.check(e <= lim['err'] * 1.01 + (1e-3 if f4 else 1e-7) + 4 * tolx / h, "error/rk45",
                      lambda: "error %r allowed %r" % (e, lim['err']))


def scen_lines(ctx, rng):
    import viscid
    f, m, ref, nodes, kind, smooth, ext_, dt = make(rng)
    method = sorted(TAB)[rng.randint(6)]
    o, lim = options(rng, ref, nodes, ext_, dt, method)
    n = int(rng.randint(1, 7))
    pts = seeds_for(rng, ref, nodes, n, dt)
    ctx.note(kind=kind, dtype=dt, center=m.center, sdims=len(m.axes), options=o,
             seeds=pts[:, :2])
    snap = gen.snapshot(f)
    given = viscid.Point(pts)
    code = {'euler1': viscid.EULER1, 'rk2': viscid.RK2, 'rk4': viscid.RK4,
            'euler1a': viscid.EULER1A, 'rk12': viscid.RK12, 'rk45': viscid.RK45}
    if rng.randint(2):
        o = dict(o, method=code[method])
    run = lambda **kw: viscid.calc_streamlines(f, given, **dict(o, **kw))
    lf, tf = run(stream_dir=viscid.DIR_FORWARD, topo_style='generic', wrap=False)
    lb, tb = run(stream_dir=viscid.DIR_BACKWARD, topo_style='generic', wrap=False)
    lines, tg = run(topo_style='generic')
    gen.check_unchanged(ctx, f, snap, "source")
    ctx.check(len(lines) == len(lf) == len(lb) == n, "count", lambda: "%d lines" % len(lines))
    tgv = np.asarray(tg.data if hasattr(tg, 'crds') else tg).reshape(-1)
    for i in range(n):
        a, b, c = (np.asarray(q[i], 'f8') for q in (lf, lb, lines))
        ctx.check(a.ndim == 2 and a.shape[0] == 3 and a.shape[1] >= 1, "line/shape",
                  lambda: "%s" % (a.shape,))
        want = pts[:, i].astype('f4').astype('f8') if dt == 'f4' else pts[:, i]
        ctx.same(a[:, 0], want, "seed/forward")
        ctx.same(b[:, -1], want, "seed/backward")
        ctx.same(c, np.concatenate([b, a[:, 1:]], axis=1), "both/line")
        ctx.check(tgv[i] == (tf[i] | tb[i]), "both/status",
                  lambda: "%s | %s != %s" % (tf[i], tb[i], tgv[i]))
        check_branch(ctx, ref, a.T, int(tf[i]), o, lim, 1, smooth, dt, method, kind)
        check_branch(ctx, ref, b[:, ::-1].T, int(tb[i]), o, lim, -1, smooth, dt, method, kind)
        ctx.saw(method, kind, m.center, dt, int(tf[i]), int(tb[i]), min(a.shape[1], 5))
        ctx.count("points", c.shape[1])
    # parts of the answer
    l2, tm = run(wrap=False)
    for i in range(n):
        ctx.same(l2[i], lines[i], "msphere/lines")
        ctx.check(int(tm[i]) == msphere(int(tgv[i])), "msphere/topology",
                  lambda: "ends %d: got %d want %d" % (tgv[i], tm[i], msphere(int(tgv[i]))))
        ctx.saw('topo', int(tm[i]))
    l3, t3 = run(output=viscid.OUTPUT_STREAMLINES, wrap=False)
    ctx.check(t3 is None, "output/lines", "topology was returned")
    for i in range(n):
        ctx.same(l3[i], lines[i], "output/lines")
    l4, t4 = run(output=viscid.OUTPUT_TOPOLOGY, wrap=False, topo_style='generic')
    ctx.check(l4 is None, "output/topology", "lines were returned")
    ctx.same(np.asarray(t4), tgv, "output/topology")


def scen_time(ctx, rng):
    """gentle fields: the travel time is that of the traced curve"""
    import viscid
    n = int(rng.randint(3, 8))
    l = 10.0 ** rng.uniform(-1, 2)
    dt = ['f8', 'f8', 'f4'][rng.randint(3)]
    center = ['node', 'cell'][rng.randint(2)]
    nc = np.linspace(-l, l, n + (center == 'cell'))
    axes = [gen.Axis(a, nc) for a in 'xyz']
    c = axes[0].nc if center == 'node' else axes[0].cc
    X = np.stack(np.meshgrid(c, c, c, indexing='ij'), axis=-1)
    speed = 10.0 ** rng.uniform(-2, 2)
    u = rng.standard_normal(3)
    u *= speed / np.sqrt(np.sum(u ** 2))
    M = rng.standard_normal((3, 3)) * 0.1 * speed / l
    m = gen.Model((u + X @ M.T).astype(dt), axes, center, 3)
    f = gen.make_field(rng, m, layout=['flat', 'interlaced'][rng.randint(2)])
    method = sorted(TAB)[rng.randint(6)]
    pts = rng.uniform(-l, l, size=(3, int(rng.randint(1, 5))))
    mt = float(2 * l / speed * 10.0 ** rng.uniform(-1.3, 0.5))
    o = dict(method=method, ds0=float(l * 10.0 ** rng.uniform(-2.2, -1)), max_t=mt,
             maxit=int([2000, rng.randint(1, 60)][rng.randint(2)]),
             largest_ds_frac=3.0, stream_dir=[viscid.DIR_FORWARD, viscid.DIR_BACKWARD][rng.randint(2)])
    lines, ends = viscid.calc_streamlines(f, pts, topo_style='generic', wrap=False, **o)
    ref = Ref([c.astype('f8')] * 3, m.vals)
    for line, e in zip(lines, ends):
        p = np.asarray(line, 'f8').T
        d = np.diff(p, axis=0)
        seg = np.sqrt(np.sum(d ** 2, axis=1))
        t = 0.0
        for w in (0.1, 0.3, 0.5, 0.7, 0.9):
            t = t + 0.2 * seg / np.sqrt(np.sum(ref(p[:-1] + w * d) ** 2, axis=1))
        T = float(np.sum(t))
        ctx.check(T <= mt * 1.03, "time/late", lambda: "%s: %r of %r" % (method, T, mt))
        if int(e) == END['MAX_T']:
            ctx.check(T >= mt * 0.97, "time/early", lambda: "%s: %r of %r" % (method, T, mt))
            ctx.count("ended by time")
        elif int(e) in NAME and int(e) & 8:
            # the other end of the last step was past the box
            pass
        else:
            ctx.check(int(e) == END['MAXIT'] and len(seg) == o['maxit'] and
                      T <= mt * 1.03, "time/other", lambda: "%s" % e)
        ctx.saw(method, dt, center, int(e), len(seg))


def scen_topology(ctx, rng):
    """dipole with inner and outer boundary: codes and seeds on a grid"""
    import viscid
    n = int(rng.randint(9, 14))
    l = rng.uniform(5, 10)
    m = np.array([0, 0, -1.0]) if rng.randint(2) else rng.standard_normal(3)
    c = np.linspace(-l, l, n)
    f = viscid.make_dipole(m=m, l=(-l,) * 3, h=(l,) * 3, n=(n,) * 3)
    bz = rng.uniform(-1, 1)
    f.data[(Ellipsis, 2) if f.layout == 'interlaced' else 2] += bz * 1e-3 * np.nanmax(np.abs(f['z'].data))
    vals = gen.canon(f)
    ref = Ref([np.asarray(x) for x in f.get_crds()], vals)
    gc = [rng.uniform(-0.9 * l, 0.9 * l, size=k) for k in rng.randint(1, 5, size=2)]
    gc = [np.sort(g) for g in gc]
    zero = float(rng.uniform(-1, 1))
    pts = np.array([[x, zero, z] for x in gc[0] for z in gc[1]]).T
    ib = float(rng.uniform(0.15, 0.4) * l)
    kw = dict(ibound=ib, maxit=3000, method=['euler1', 'rk2', 'rk12', 'rk45'][rng.randint(4)])
    if rng.randint(2):
        kw['obound_r'] = float(rng.uniform(0.5, 0.95) * l)
    lines, topo = viscid.calc_streamlines(f, pts, topo_style='msphere', wrap=False, **kw)
    _, g = viscid.calc_streamlines(f, pts, topo_style='generic', wrap=False, **kw)
    for i in range(pts.shape[1]):
        ctx.check(int(topo[i]) == msphere(int(g[i])), "msphere/topology",
                  lambda: "%d %d" % (topo[i], g[i]))
        e = [lines[i][:, 0], lines[i][:, -1]]
        r = [np.sqrt(np.sum(q ** 2)) for q in e]
        if lines[i].shape[1] < 3 or abs(min(r) - ib) < 1e-9:
            continue
        if not int(g[i]) & 4096:
            inn = [q < ib for q in r]
            nh = [q[2] >= 0 for q in e]
            if all(inn):
                want = 1
            elif any(inn):
                want = 2 if nh[inn.index(True)] else 4
            else:
                want = 8
            ctx.check(int(topo[i]) == want, "msphere/ends", lambda: "%s ends at r=%s z=%s" % (
                topo[i], r, [q[2] for q in e]))
            ctx.count("topology %d" % want)
            ctx.saw(want, int(g[i]), kw['method'])


SCENARIOS = [
    Scenario("lines", scen_lines, quick=900, thorough=40000, need=400, hang=60),
    Scenario("time", scen_time, quick=200, thorough=8000, need=40, hang=60),
    Scenario("topology", scen_topology, quick=60, thorough=2000, need=20, hang=60),
]

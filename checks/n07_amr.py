"""N07: fields made of patches behave like the data of the patch holding the point"""
import operator

import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen, ext
from n03_stream import Ref, TAB, FIXED

PID = "N07"
TECHNIQUE = "runtime monitoring: samples, streamlines, slices and arithmetic of patch fields compared with a per-patch model and with the equivalent single field, over storage orders and visiting orders"
RULE = ("tilings by random splits and by quadtree/octree refinement (2-40 patches), f4 f8 "
        "and integers, node and cell centred, scalar and vector, uniform and stretched "
        "patches, coordinates from 1e-7 to 1e5 with offsets, patches stored in any "
        "order, points inside, on faces and outside, visited in any order")
ASSUMPTIONS = ["patches tile the domain without overlap and have three axes",
               "on shared faces the value of any touching patch is accepted"]


def setup():
    ext.ensure()


class Patch(object):
    pass


def layout(rng, nmax=40):
    """boxes [n, 2, 3] in units of the root box"""
    boxes = [(np.zeros(3), np.ones(3))]
    kind = ['split', 'tree', 'grid'][rng.randint(3)]
    if kind == 'grid':
        n = rng.randint(1, 4, size=3)
        boxes = []
        for i in np.ndindex(*n):
            boxes.append((np.array(i) / n, (np.array(i) + 1) / n))
        if len(boxes) == 1:
            kind = 'split'
    if kind == 'split':
        boxes = [(np.zeros(3), np.ones(3))]
        for _ in range(rng.randint(1, 12)):
            k = rng.randint(len(boxes))
            lo, hi = boxes.pop(k)
            d = rng.randint(3)
            m = lo[d] + (hi[d] - lo[d]) * [0.5, 0.25, 0.75][rng.randint(3)]
            h2, l2 = hi.copy(), lo.copy()
            h2[d] = l2[d] = m
            boxes += [(lo, h2), (l2, hi)]
    elif kind == 'tree':
        dims = [(0, 1, 2), (0, 1), (0, 2), (0,)][rng.randint(4)]
        for _ in range(rng.randint(1, 6)):
            if len(boxes) + 2 ** len(dims) > nmax:
                break
            lo, hi = boxes.pop(rng.randint(len(boxes)))
            mid = 0.5 * (lo + hi)
            for c in np.ndindex(*[2] * len(dims)):
                l2, h2 = lo.copy(), hi.copy()
                for d, s in zip(dims, c):
                    if s:
                        l2[d] = mid[d]
                    else:
                        h2[d] = mid[d]
                boxes.append((l2, h2))
    return kind, [boxes[i] for i in rng.permutation(len(boxes))]


def build(rng, func=None, center=None, ncomp=None, dt=None, same_n=None, stretch=None,
          nmax=40, nmin=1):
    from viscid.grid import Grid
    from viscid.amr_field import AMRField
    from viscid.amr_grid import AMRSkeleton
    kind, boxes = layout(rng, nmax)
    scale = 10.0 ** [0, 0, rng.uniform(-7, 5)][rng.randint(3)]
    off = [0.0, 0.0, rng.uniform(-1, 1, size=3), rng.uniform(-200, 200, size=3)][rng.randint(4)]
    size = rng.uniform(0.5, 3, size=3)
    dt = dt or ['f8', 'f8', 'f4', 'i4'][rng.randint(4)]
    center = center or ['node', 'cell'][rng.randint(2)]
    ncomp = [0, 3][rng.randint(2)] if ncomp is None else ncomp
    same_n = rng.randint(2) if same_n is None else same_n
    stretch = rng.randint(2) if stretch is None else stretch
    n0 = [int(v) for v in rng.randint(2, 6, size=3)]
    lay = ['flat', 'interlaced'][rng.randint(2)]
    P, flds, grids = [], [], []
    for lo, hi in boxes:
        n = n0 if same_n else [int(v) for v in rng.randint(nmin, 6, size=3)]
        axes = []
        for d in range(3):
            a, b = scale * (off + size * lo)[d], scale * (off + size * hi)[d]
            t = np.linspace(0, 1, n[d] + 1)
            if stretch and n[d] > 1:
                t[1:-1] += rng.uniform(-0.3, 0.3, size=n[d] - 1) / n[d]
            nc = a + (b - a) * t
            nc[-1] = b
            axes.append(gen.Axis('xyz'[d], nc))
        crds = [a.nc if center == 'node' else a.cc for a in axes]
        X = np.stack(np.meshgrid(*crds, indexing='ij'), axis=-1)
        if func is None:
            v = rng.standard_normal(X.shape[:3] + ((ncomp,) if ncomp else ())) * 10
            if dt[0] == 'i':
                v = v * 10
        else:
            v = func(X / scale - off)
        m = gen.Model(np.asarray(v).astype(dt), axes, center, ncomp)
        f = gen.make_field(rng, m, layout=lay, order=['C', 'F'][rng.randint(2)],
                           crd_type=['AUTO', 'nonuniform'][int(stretch)], name='f')
        g = Grid()
        g.crds = gen.make_crds(axes)
        p = Patch()
        p.m, p.f, p.g = m, f, g
        p.lo, p.hi = np.array([a.nc[0] for a in axes]), np.array([a.nc[-1] for a in axes])
        vals = m.vals if ncomp else m.vals[..., None]
        p.ref = Ref([np.asarray(c, 'f8') for c in crds], vals)
        p.ref.on[:] = 1.0
        p.crds = crds
        P.append(p)
        flds.append(f)
        grids.append(g)
    amr = AMRField(flds, AMRSkeleton(grids))
    info = dict(kind=kind, patches=len(P), dtype=dt, center=center, ncomp=ncomp,
                scale=scale, off=off, stretch=int(stretch), layout=lay)
    return amr, P, scale, info


def rand_pts(rng, P, n, outside=True):
    glo = np.min([p.lo for p in P], axis=0)
    ghi = np.max([p.hi for p in P], axis=0)
    pts = glo + (ghi - glo) * rng.uniform(0, 1, size=(n, 3))
    for k in range(n):
        r = rng.randint(8)
        p = P[rng.randint(len(P))]
        if r <= 1:
            pts[k] = p.lo + (p.hi - p.lo) * rng.uniform(0, 1, size=3)
        elif r == 2:
            d = rng.randint(3)
            pts[k, d] = [p.lo, p.hi][rng.randint(2)][d]
        elif r == 3:
            pts[k] = [c[rng.randint(len(c))] for c in p.crds]
        elif r == 4 and outside:
            d = rng.randint(3)
            pts[k, d] = [glo[d] - 0.3 * (ghi - glo)[d], ghi[d] + 0.3 * (ghi - glo)[d]][rng.randint(2)]
    return pts, glo, ghi


def candidates(P, x, tol=3e-5):
    """patches that hold x, and whether that is only by tolerance"""
    out, sure = [], 0
    for p in P:
        w = (p.hi - p.lo) * tol
        if np.all(x >= p.lo - w) and np.all(x <= p.hi + w):
            out.append(p)
            sure += bool(np.all(x >= p.lo + w) and np.all(x <= p.hi - w))
    return out, bool(sure and len(out) == 1)


def nearest_vals(p, x, slack):
    ix = []
    for d, c in enumerate(p.crds):
        c = np.asarray(c, 'f8')
        dd = np.abs(c - x[d])
        ix.append(np.nonzero(dd <= dd.min() + slack)[0])
    v = p.m.vals if p.m.ncomp else p.m.vals[..., None]
    return v[np.ix_(*ix)].reshape(-1, v.shape[-1])


def scen_points(ctx, rng):
    import viscid
    from viscid.amr_field import AMRField
    from viscid.amr_grid import AMRSkeleton
    amr, P, scale, info = build(rng)
    ctx.note(**info)
    pts, glo, ghi = rand_pts(rng, P, int(rng.randint(5, 40)))
    f4 = info['dtype'] == 'f4'
    if f4:
        pts = pts.astype('f4').astype('f8')
    kind = ['linear', 'nearest', 'trilinear'][rng.randint(3)]
    def samp(a, q):
        r = np.asarray(viscid.interp(a, viscid.Point(q.T), kind=kind, wrap=False), 'f8')
        return r.reshape(len(q), -1)
    got = samp(amr, pts)
    eps = 1e-7 if f4 else 2e-16
    mag = np.max(np.abs([glo, ghi]))
    amp = max(np.max(np.abs(p.m.vals.astype('f8'))) for p in P) + 1e-300
    sure = np.zeros(len(pts), bool)
    gtol = 3e-5 + 40 * eps * mag / np.min([p.hi - p.lo for p in P])
    for k, x in enumerate(pts):
        cand, sure[k] = candidates(P, x, gtol)
        if not cand:
            ok = False
            if kind == 'nearest':
                ok = any(np.any(np.all(nearest_vals(p, x, 1e-30) == got[k], axis=-1)) for p in P)
            else:
                ok = any(np.allclose(p.ref(x)[0], got[k], rtol=1e-4 if f4 else 1e-9,
                                     atol=amp * (1e-4 if f4 else 1e-9)) for p in P)
            ctx.check(ok or f4, "outside", lambda: "%s gave %s" % (x, got[k]))
            ctx.count("points outside")
            # whichever patch answers there, it's no matter of order
            d2 = np.sort([np.sum((0.5 * (p.lo + p.hi) - x) ** 2) for p in P])
            sure[k] = len(P) == 1 or d2[1] - d2[0] > 1e-4 * d2[1]
            continue
        ok, want = False, []
        for p in cand:
            dx = np.min([np.min(np.diff(c)) for c in p.crds if len(c) > 1] or [1e300])
            tol = amp * (40 * eps * mag / dx + (1e-5 if f4 else 1e-11))
            if kind == 'nearest':
                want.append(nearest_vals(p, x, 40 * eps * mag + 1e-5 * np.max(p.hi - p.lo) * (len(cand) > 1)))
                ok = ok or np.any(np.all(np.abs(want[-1] - got[k]) <= tol, axis=-1))
            else:
                want.append(p.ref(x)[0])
                slack = tol + (amp * 1e-4 * np.max(p.hi - p.lo) / dx if len(cand) > 1 else 0)
                ok = ok or np.all(np.abs(want[-1] - got[k]) <= slack)
        ctx.check(ok, "value/" + kind, lambda: "at %s (%d candidates) got %s want %s" % (
            x, len(cand), got[k], want))
        ctx.count("points on faces" if len(cand) > 1 else "points inside")
    # any order, any repetition, any patch storage
    if sure.any():
        sub = pts[sure]

        def same(got, want, key):
            # (in which of two cells a point on their face is looked up is
            # a matter of roundoff)
            if kind == 'nearest':
                ctx.same(got, want, key)
            else:
                ctx.close(got, want, key, rtol=0, atol=64 * eps * amp)

        perm = rng.permutation(len(sub))
        same(samp(amr, sub[perm]), got[sure][perm], "order/points")
        one = int(rng.randint(len(sub)))
        same(samp(amr, sub[one:one + 1]), got[sure][one:one + 1], "order/alone")
        pp = rng.permutation(len(P))
        other = AMRField([P[i].f for i in pp], AMRSkeleton([P[i].g for i in pp]))
        same(samp(other, sub), got[sure], "order/patches")
    ctx.saw(kind, info['kind'], len(P), info['dtype'], info['center'], info['ncomp'],
            int(np.log10(scale)))


def scen_lines(ctx, rng):
    """steps that start inside a patch use that patch"""
    import viscid
    A = rng.standard_normal((3, 3))
    b = rng.standard_normal(3) * 0.5
    lin = rng.randint(2)
    k = rng.uniform(1, 4, size=(3, 3))

    def func(X):
        if lin:
            return (X - 0.5) @ A.T + b
        return np.sin(X @ k) + b
    # speed must not vary by orders of magnitude between scales
    dt = ['f8', 'f8', 'f4'][rng.randint(3)]
    amr, P, scale, info = build(rng, func, ncomp=3, dt=dt, center='node' if lin else None,
                                 nmin=2)
    f4 = dt == 'f4'
    if f4 and np.max(np.abs([p.lo for p in P])) > 50 * scale:
        raise Skip()
    ext_ = np.max([p.hi for p in P]) - np.min([p.lo for p in P])
    mag = np.max(np.abs([[p.lo, p.hi] for p in P]))
    pts, glo, ghi = rand_pts(rng, P, int(rng.randint(1, 6)), outside=False)
    if f4:
        pts = pts.astype('f4').astype('f8')
    method = FIXED[rng.randint(len(FIXED))] if rng.randint(3) or not lin else \
        ['euler1a', 'rk12', 'rk45'][rng.randint(3)]
    ds0 = float(np.min(ghi - glo) * rng.uniform(0.01, 0.1))
    opt = dict(method=method, ds0=ds0, maxit=150, ibound=0.0, obound_r=1e3 * float(mag))
    ctx.note(method=method, linear=lin, ds0=ds0, **info)
    lines, topo = viscid.calc_streamlines(amr, viscid.Point(pts.T), wrap=False,
                                          output=viscid.OUTPUT_BOTH, **opt)
    ctx.check(len(lines) == len(pts), "lines/number", len(lines))
    vmax = max(np.max(np.abs(p.m.vals)) for p in P)
    tolx = mag * (4e-6 if f4 else 1e-12)
    crossed = 0
    for x0, l in zip(pts, lines):
        l = np.asarray(l, 'f8')
        i0 = int(np.argmin(np.sum((l.T - x0) ** 2, axis=1)))
        ctx.check(np.max(np.abs(l[:, i0] - x0)) <= tolx, "lines/seed", "%s" % x0)
        if method in FIXED:
            held = -1
            for i in range(l.shape[1] - 1):
                fwd = i >= i0
                a, b2 = (l[:, i], l[:, i + 1]) if fwd else (l[:, i + 1], l[:, i])
                cand, sure = candidates(P, a, 1e-4)
                if not sure:
                    continue
                j = P.index(cand[0])
                crossed += held >= 0 and j != held
                held = j
                w, low = cand[0].ref.step(a[None], (1 if fwd else -1) * ds0, TAB[method])
                if low[0] < 0.05 * vmax:
                    continue
                d = np.max(np.abs(w[0] - b2))
                ctx.count("steps judged")
                ctx.check(d <= ds0 * (2e-3 if f4 else 1e-6) + 4 * tolx * (1 + ds0 / np.min(cand[0].hi - cand[0].lo)),
                          "lines/step", lambda: "step %d of %d off by %r (ds0 %r)" % (i, l.shape[1], d, ds0))
    ctx.count("steps into another patch", crossed)
    if lin:
        # the same linear field on one grid
        axes = [gen.Axis('xyz'[d], np.linspace(glo[d], ghi[d], 4)) for d in range(3)]
        X = np.stack(np.meshgrid(*[a.nc for a in axes], indexing='ij'), axis=-1)
        m = gen.Model(func(X / scale - info['off']).astype(dt), axes, 'node', 3)
        one = gen.make_field(rng, m, layout='interlaced', name='f')
        lin2, topo2 = viscid.calc_streamlines(one, viscid.Point(pts.T), wrap=False,
                                              output=viscid.OUTPUT_BOTH, **opt)
        if not f4 and method in FIXED:
            for u, v, x0 in zip(lines, lin2, pts):
                if u.shape != v.shape:
                    n = min(u.shape[1], v.shape[1])
                    ctx.count("lines of another length")
                    continue
                sp = np.sqrt(np.sum(((v.T / scale - info['off'] - 0.5) @ A.T + b) ** 2, axis=1))
                if sp.min() < 0.1 * vmax:
                    continue
                # stages of a step over a face do not see the next patch, so
                # they agree up to the first step that ends near a face
                i0 = int(np.argmin(np.sum((u.T - x0) ** 2, axis=1)))
                for sg in (1, -1):
                    i = i0
                    while 0 <= i < u.shape[1]:
                        ctx.check(np.max(np.abs(u[:, i] - v[:, i])) <= 1e-6 * ext_, "single/lines",
                                  lambda: "off by %r of %r" % (np.max(np.abs(u[:, i] - v[:, i])), ext_))
                        ctx.count("points compared with one grid")
                        j = i + sg
                        if not 0 <= j < u.shape[1]:
                            break
                        st = 2.0 * np.sqrt(np.sum((u[:, j] - u[:, i]) ** 2))
                        if not any(np.all(u[:, i] > p.lo + st) and np.all(u[:, i] < p.hi - st) for p in P):
                            break
                        i = j
                ctx.count("lines compared with one grid")
            kk = [i for i in range(len(pts)) if lines[i].shape == lin2[i].shape and
                  np.max(np.abs(lines[i] - lin2[i])) < 1e-10 * ext_]
            ctx.same(np.asarray(topo)[kk], np.asarray(topo2)[kk], "single/topology")
        q, _, _ = rand_pts(rng, P, 20, outside=False)
        g1 = np.asarray(viscid.interp(amr, viscid.Point(q.T), wrap=False), 'f8')
        g2 = np.asarray(viscid.interp(one, viscid.Point(q.T), wrap=False), 'f8')
        ctx.close(g1, g2, "single/values", rtol=0, atol=vmax * ((2e-3 if f4 else 1e-9) + 1e-4 * 0 + 40 * (1e-7 if f4 else 2e-16) * mag / scale) + vmax * 1e-4)
    ctx.saw(method, lin, info['kind'], len(P), dt, info['center'], crossed > 0)


def cells(flds):
    """coordinates and values of patches as viscid shows them"""
    out = []
    for f in flds:
        crds = f.get_crds()
        X = np.stack(np.meshgrid(*crds, indexing='ij'), axis=-1).reshape(-1, len(crds))
        d = np.asarray(f.as_interlaced().data if f.nr_comps else f.data)
        out += [(tuple(x), tuple(v)) for x, v in zip(X, d.reshape(len(X), -1))]
    return out


def arrange(lst, L):
    X = np.array([k for k, _ in lst])
    V = np.array([v for _, v in lst], 'f8')
    Q = np.concatenate([np.round(X / (1e-9 * L)), V], axis=1)
    o = np.lexsort(Q.T[::-1])
    return X[o], V[o]


def scen_slice(ctx, rng):
    from viscid.amr_field import AMRField
    amr, P, scale, info = build(rng, center='cell' if rng.randint(4) else 'node')
    glo = np.min([p.lo for p in P], axis=0)
    ghi = np.max([p.hi for p in P], axis=0)
    sel, spec = [], {}
    for d in rng.permutation(3)[:rng.randint(1, 4)]:
        allc = np.unique(np.concatenate([p.crds[d] for p in P] + [[p.lo[d], p.hi[d]] for p in P]))
        dmin = np.min([np.min(np.diff(p.m.axes[d].nc)) for p in P])

        def clear(v):
            mids = np.concatenate([0.5 * (np.asarray(p.crds[d])[1:] + np.asarray(p.crds[d])[:-1])
                                   for p in P if len(p.crds[d]) > 1] + [allc])
            return np.min(np.abs(mids - v)) > 1e-3 * dmin
        for _ in range(50):
            a, b = np.sort(rng.uniform(glo[d], ghi[d], size=2))
            if clear(a) and clear(b):
                break
        else:
            raise Skip()
        r = rng.randint(5)
        nm = 'xyz'[d]
        if r == 0:
            sel.append("%s = %rj" % (nm, a))
            spec[d] = ('at', a)
        elif r == 1:
            sel.append("%s = %rj:" % (nm, a))
            spec[d] = ('range', a, np.inf)
        elif r == 2:
            sel.append("%s = :%rj" % (nm, b))
            spec[d] = ('range', -np.inf, b)
        else:
            sel.append("%s = %rj:%rj" % (nm, a, b))
            spec[d] = ('range', a, b)
    s = ", ".join(sel)
    how = ['slice', 'getitem', 'keep', 'reduce'][rng.randint(4)]
    if how == 'reduce' and min(len(c) for p in P for c in p.crds) == 1:
        how = 'slice'
    ctx.note(selection=s, how=how, **info)
    want = []
    nhit, few = 0, False
    for p in P:
        ix, keepd = [], []
        for d in range(3):
            c = np.asarray(p.crds[d])
            w = spec.get(d)
            if w is None:
                ix.append(np.arange(len(c)))
            elif w[0] == 'at':
                if not (p.lo[d] <= w[1] <= p.hi[d]):
                    ix.append(np.arange(0))
                else:
                    ix.append(np.array([np.argmin(np.abs(c - w[1]))]))
            else:
                ix.append(np.nonzero((c >= w[1]) & (c <= w[2]))[0])
        if min(len(i) for i in ix) == 0:
            continue
        nhit += 1
        few = few or np.prod([len(i) for i in ix]) == 1
        for t in np.ndindex(*[len(i) for i in ix]):
            j = tuple(ix[d][t[d]] for d in range(3))
            key = tuple(p.crds[d][j[d]] for d in range(3)
                        if how == 'keep' or spec.get(d, ('', ))[0] != 'at')
            v = np.atleast_1d(p.m.vals[j])
            want.append((key, tuple(v)))
    if not nhit or few:
        raise Skip()    # a patch cut down to one number
    r = {'getitem': amr.__getitem__, 'slice': amr.slice, 'keep': amr.slice_and_keep,
         'reduce': amr.slice_reduce}[how](s)
    if isinstance(r, AMRField):
        res = r.patches
    else:
        res = [r]
    L = np.max(np.abs([glo, ghi]))
    got = cells(res)
    ctx.check(len(got) == len(want), "slice/cells", lambda: "%d, expected %d" % (len(got), len(want)))
    wk, wv = arrange(want, L)
    gk, gv = arrange(got, L)
    ctx.close(gk, wk, "slice/where", rtol=0, atol=1e-12 * L)
    ctx.same(gv, wv, "slice/values")
    ctx.count("cells compared", len(wk))
    ctx.count("patches cut", nhit)
    # what was asked for, patches and extent
    ids = amr.patch_indices(s)
    ids = set(ids if isinstance(ids, list) else [ids])
    for k, p in enumerate(P):
        sure = off = True
        for d in range(3):
            w = spec.get(d, ('range', -np.inf, np.inf))
            a, b = (w[1], w[1]) if w[0] == 'at' else w[1:]
            sure = sure and p.lo[d] < b and a < p.hi[d]
            off = off and (p.lo[d] <= b and a <= p.hi[d])
        if sure:
            ctx.check(k in ids, "slice/patch_indices", lambda: "%d not in %s" % (k, ids))
        elif not off:
            ctx.check(k not in ids, "slice/patch_indices", lambda: "%d in %s" % (k, ids))
    ext = amr.get_slice_extent(s)
    wx = np.array([glo, ghi], dtype='f8')
    for d, w in spec.items():
        a, b = (w[1], w[1]) if w[0] == 'at' else w[1:]
        wx[:, d] = [a if np.isfinite(a) else glo[d], b if np.isfinite(b) else ghi[d]]
    ctx.close(np.clip(ext, glo, ghi), wx, "slice/extent", rtol=0, atol=1e-9 * L)
    ctx.saw(how, tuple(sorted((d, w[0]) for d, w in spec.items())), nhit, info['center'], info['ncomp'])


def scen_blend(ctx, rng):
    """interpolated_slice: each patch the plane passes through gives its blend"""
    from viscid.amr_field import AMRField
    amr, P, scale, info = build(rng, ncomp=0, nmin=2, dt=['f8', 'f4'][rng.randint(2)])
    d = int(rng.randint(3))
    glo = np.min([p.lo for p in P], axis=0)
    ghi = np.max([p.hi for p in P], axis=0)
    faces = np.concatenate([[p.lo[d], p.hi[d]] for p in P])
    for _ in range(30):
        v = rng.uniform(glo[d], ghi[d])
        if np.min(np.abs(faces - v)) > 1e-3 * (ghi[d] - glo[d]) / len(P):
            break
    else:
        raise Skip()
    s = "%s = %rj" % ('xyz'[d], v)
    ctx.note(selection=s, **info)
    want, big = [], 0.0
    for p in P:
        if not p.lo[d] <= v <= p.hi[d]:
            continue
        c = np.asarray(p.crds[d])
        if len(c) == 1:
            vals = np.take(p.m.vals, 0, axis=d).astype('f8')
        else:
            i = int(np.clip(np.searchsorted(c, v, side='right') - 1, 0, len(c) - 2))
            w = np.clip((v - c[i]) / (c[i + 1] - c[i]), 0.0, 1.0)
            vals = (1 - w) * np.take(p.m.vals, i, d).astype('f8') + w * np.take(p.m.vals, i + 1, d)
        oth = [p.crds[e] for e in range(3) if e != d]
        for j in np.ndindex(*vals.shape):
            want.append((tuple(o[t] for o, t in zip(oth, j)), (vals[j],)))
        big = max(big, np.max(np.abs(p.m.vals)))
    if any(p.m.vals.size == p.m.vals.shape[d] for p in P):
        raise Skip()
    r = amr.interpolated_slice(s)
    res = r.patches if isinstance(r, AMRField) else [r]
    got = cells(res)
    ctx.check(len(got) == len(want), "blend/cells", lambda: "%d, expected %d" % (len(got), len(want)))
    L = np.max(np.abs([glo, ghi]))
    wk, wv = arrange(want, L)
    gk, gv = arrange(got, L)
    # (values of type f4 are taken at places rounded to f4)
    dx = min(np.min(np.diff(p.m.axes[d].nc)) for p in P)
    tol = 1e-6 + 4e-7 * L / dx if info['dtype'] == 'f4' else 1e-7
    ctx.close(gk, wk, "blend/where", rtol=0, atol=1e-12 * L)
    ctx.close(gv, wv, "blend/values", rtol=tol, atol=tol * big)
    ctx.count("places checked", len(got))
    ctx.saw(info['kind'], len(P), len(res), d, info['center'], info['dtype'])


def scen_edge(ctx, rng):
    """a location on a face, at the ends of the domain included"""
    from viscid.amr_field import AMRField
    amr, P, scale, info = build(rng, center='cell', ncomp=0, nmin=2)
    d = int(rng.randint(3))
    faces = np.unique(np.concatenate([[p.lo[d], p.hi[d]] for p in P]))
    v = float(faces[[0, -1, rng.randint(len(faces))][rng.randint(3)]])
    s = "%s = %rj" % ('xyz'[d], v)
    ctx.note(selection=s, **info)
    r = amr[s]
    res = r.patches if isinstance(r, AMRField) else [r]
    # every spot of that plane shows a cell that touches it
    touch = {}
    tol = 1e-9 * np.max(np.abs([p.hi - p.lo for p in P]))
    for p in P:
        if p.lo[d] - tol <= v <= p.hi[d] + tol:
            c = np.asarray(p.crds[d])
            i = np.nonzero(np.abs(c - v) <= np.abs(c - v).min() * (1 + 1e-9))[0]
            for k in i:
                vals = np.take(p.m.vals, k, axis=d)
                for j in np.ndindex(*vals.shape):
                    oth = [p.crds[e] for e in range(3) if e != d]
                    touch.setdefault(tuple(o[t] for o, t in zip(oth, j)), []).append(vals[j])
    if any(not hasattr(q, 'get_crds') for q in res):
        raise Skip()
    got = cells(res)
    area = 0.0
    for q in res:
        a = 1.0
        for n in q.crds.axes:
            if n != 'xyz'[d]:
                nc = q.get_crds_nc([n])[0]
                a *= nc[-1] - nc[0]
        area += a
    full = np.prod(np.delete(np.max([p.hi for p in P], 0) - np.min([p.lo for p in P], 0), d))
    ctx.close(area, full, "edge/area", rtol=1e-6)
    for k, w in got:
        t = [x for kk, ww in touch.items() if np.allclose(kk, k, rtol=1e-12, atol=1e-12 * scale) for x in ww]
        ctx.check(any(np.all(w[0] == x) for x in t), "edge/value", lambda: "%s not of %s" % (w, t))
    ctx.count("places checked", len(got))
    ctx.saw(info['kind'], len(P), d, v == faces[0], v == faces[-1])


def scen_ops(ctx, rng):
    import viscid
    from viscid.amr_field import AMRField
    same = rng.randint(2)
    amr, P, scale, info = build(rng, same_n=same, dt=['f8', 'f4'][rng.randint(2)], nmin=2)
    ctx.note(**info)
    sk = amr.skeleton
    def vals(f):
        v = np.asarray(f.as_interlaced().data if f.nr_comps else f.data)
        return v

    def geom(r, msg):
        ctx.check(isinstance(r, AMRField) and r.nr_patches == len(P), msg + "/kind", "%r" % type(r))
        for q, p in zip(r.patches, P):
            for a, b in zip(q.get_crds_nc(), p.f.get_crds_nc()):
                ctx.same(a, b, msg + "/crds")
            ctx.check(q.center == p.f.center, msg + "/center", q.center)
        ctx.same(r.xl, amr.xl, msg + "/xl")
        ctx.same(r.xh, amr.xh, msg + "/xh")
    other = AMRField([p.f * 0.5 + 1.0 for p in P], sk)
    ov = [p.m.vals * 0.5 + 1.0 for p in P]
    tests = [("add", lambda: amr + other, lambda a, b: a + b), ("sub", lambda: amr - other, lambda a, b: a - b),
             ("mul", lambda: amr * other, lambda a, b: a * b), ("div", lambda: amr / other, lambda a, b: a / b),
             ("num", lambda: amr * 3.0, lambda a, b: a * 3.0), ("rnum", lambda: 2.0 - amr, lambda a, b: 2.0 - a),
             ("rdiv", lambda: 2.0 / amr, lambda a, b: 2.0 / a), ("pow", lambda: amr ** 2, lambda a, b: a ** 2),
             ("neg", lambda: -amr, lambda a, b: -a), ("abs", lambda: abs(amr), lambda a, b: abs(a)),
             ("lt", lambda: amr < other, lambda a, b: a < b), ("ge", lambda: amr >= 0.5, lambda a, b: a >= 0.5),
             ("le", lambda: amr <= other, lambda a, b: a <= b), ("gt", lambda: amr > 0.5, lambda a, b: a > 0.5),
             ("eq", lambda: amr == amr, lambda a, b: a == a), ("ne", lambda: other != amr, lambda a, b: b != a),
             ("radd", lambda: 2.0 + amr, lambda a, b: 2.0 + a), ("rmul", lambda: 2.0 * amr, lambda a, b: 2.0 * a),
             ("floordiv", lambda: amr // 0.7, lambda a, b: a // a.dtype.type(0.7)),
             ("mod", lambda: amr % 0.7, lambda a, b: a % a.dtype.type(0.7)),
             ("rpow", lambda: 2.0 ** amr, lambda a, b: a.dtype.type(2.0) ** a),
             ("rfloordiv", lambda: 2.0 // amr, lambda a, b: a.dtype.type(2.0) // a),
             ("rmod", lambda: 2.0 % amr, lambda a, b: a.dtype.type(2.0) % a),
             ("pos", lambda: +amr, lambda a, b: +a),
             ("iadd", lambda: operator.iadd(amr, other), lambda a, b: a + b),
             ("isub", lambda: operator.isub(amr, 0.25), lambda a, b: a - a.dtype.type(0.25)),
             ("imul", lambda: operator.imul(amr, other), lambda a, b: a * b),
             ("idiv", lambda: operator.itruediv(amr, 3.0), lambda a, b: a / a.dtype.type(3.0)),
             ("ifloordiv", lambda: operator.ifloordiv(amr, 0.7), lambda a, b: a // a.dtype.type(0.7)),
             ("imod", lambda: operator.imod(amr, 0.7), lambda a, b: a % a.dtype.type(0.7)),
             ("ipow", lambda: operator.ipow(amr, 2), lambda a, b: a ** 2),
             ("mixed", lambda: (amr > 0.0) & (other > 0.0), lambda a, b: (a > 0) & (b > 0)),
             ("either", lambda: (amr > 0.0) | (other > 0.7), lambda a, b: (a > 0) | (b > 0.7)),
             ("differ", lambda: (amr > 0.0) ^ (other > 0.7), lambda a, b: (a > 0) ^ (b > 0.7)),
             ("not", lambda: ~(amr > 0.0), lambda a, b: ~(a > 0)),
             ("clip", lambda: amr.clip(min=-0.5, max=0.5), lambda a, b: np.clip(a, -0.5, 0.5)),
             ("round", lambda: amr.round(decimals=1), lambda a, b: np.round(a, 1)),
             ("conj", lambda: [amr.conj, amr.conjugate][rng.randint(2)](), lambda a, b: a),
             ("cast", lambda: amr.astype('f8'), lambda a, b: a.astype('f8'))]
    tol = 1e-4 if info['dtype'] == 'f4' else 1e-9
    small = any(p.m.vals[..., 0].size == 1 if p.m.ncomp else p.m.vals.size == 1 for p in P)
    if small:
        raise Skip()
    for nm, go, ref in [tests[i] for i in rng.permutation(len(tests))[:12]]:
        with np.errstate(all='ignore'):
            r = go()
            geom(r, "ops/" + nm)
            for q, p, o in zip(r.patches, P, ov):
                w = ref(p.m.vals, o)
                if w.dtype.kind == 'b':
                    ctx.same(vals(q), w, "ops/" + nm)
                else:
                    ctx.close(vals(q), w, "ops/" + nm, rtol=tol, atol=tol)
    if not info['ncomp']:
        allv = np.concatenate([p.m.vals.ravel() for p in P]).astype('f8')
        for nm in ('min', 'max', 'sum', 'mean', 'std', 'ptp'):
            w = getattr(allv, nm)()
            ctx.close(float(getattr(amr, nm)()), w, "reduce/" + nm, rtol=tol, atol=tol * allv.size * 10)
        w = np.prod(1.0 + allv / 300)
        ctx.close(float((amr / 300.0 + 1.0).prod()), w, "reduce/prod", rtol=100 * tol, atol=1e-300)
        d = int(rng.randint(3))
        nm = ['sum', 'mean', 'min', 'max', 'std', 'prod'][rng.randint(6)]
        if min(p.m.vals.size // p.m.vals.shape[d] for p in P) > 1:
            r = getattr(amr, nm)(axis=d)
            for q, p in zip(r.patches, P):
                w = np.asarray(getattr(p.m.vals.astype('f8'), nm)(axis=d, keepdims=True))
                ctx.close(vals(q), w, "reduce/axis/" + nm, rtol=10 * tol,
                          atol=10 * tol * max(1.0, np.max(np.abs(p.m.vals))))
        m = amr > 0.0
        ctx.check(bool(m.any()) == bool((allv > 0).any()) and bool(m.all()) == bool((allv > 0).all()),
                  "reduce/bool", "any or all")
        if same:
            r = np.sqrt(abs(amr))
            geom(r, "ufunc")
            for q, p in zip(r.patches, P):
                ctx.close(vals(q), np.sqrt(np.abs(p.m.vals)), "ufunc", rtol=tol, atol=tol)
    # patches of another field that are one patch
    r = amr.as_flat()
    geom(r, "as_flat")
    ctx.check(amr.name == 'f' and amr.nr_sdims == 3 and amr.nr_comps == info['ncomp'], "attr", "name or sizes")
    ctx.saw(info['kind'], len(P), info['dtype'], info['center'], info['ncomp'], same)


def scen_skeleton(ctx, rng):
    """neighbors: exactly the patches that touch; reuse only for the same layout"""
    from viscid.amr_grid import AMRSkeleton, AMRGrid, dataset_to_amr_grid
    amr, P, scale, info = build(rng, ncomp=0, dt='f8')
    ctx.note(**info)
    sk = amr.skeleton
    W = np.min([p.hi - p.lo for p in P], axis=0) * 1e-3
    for i, p in enumerate(P):
        want = set()
        for j, q in enumerate(P):
            if i != j and np.all(p.lo <= q.hi + W) and np.all(q.lo <= p.hi + W):
                want.add(j)
        got = [int(v) for v in sk.neighbors[i][:sk.nr_neighbors[i]]]
        ctx.check(sorted(got) == sorted(want), "neighbors", lambda: "patch %d: %s, expected %s" % (i, got, want))
    ctx.same(sk.global_xl, np.min([p.lo for p in P], 0), "global/xl")
    ctx.same(sk.global_xh, np.max([p.hi for p in P], 0), "global/xh")
    for p in P:
        p.g.add_field(p.f)
    g1, is_amr = dataset_to_amr_grid([p.g for p in P])
    if len(P) == 1:
        ctx.check(not is_amr, "grid/single", "one grid is no patch hierarchy")
        return
    ctx.check(is_amr, "grid/kind", type(g1))
    a = g1['f']
    for q, p in zip(a.patches, P):
        ctx.same(q.data, p.f.data, "grid/field")
    # the same layout again, and another one
    g2, _ = dataset_to_amr_grid([p.g for p in P], g1.skeleton)
    ctx.check(g2.skeleton is g1.skeleton, "reuse/same", "was not used again")
    from viscid.grid import Grid
    import viscid
    grown = []
    d = int(rng.randint(3))
    ghi = np.max([p.hi for p in P], 0)
    for p in P:
        g = Grid()
        axes = []
        for k in range(3):
            nc = np.array(p.m.axes[k].nc)
            if k == d and nc[-1] == ghi[k]:
                nc = nc[0] + (nc - nc[0]) * 1.5
            axes.append(gen.Axis('xyz'[k], nc))
        g.crds = gen.make_crds(axes)
        grown.append((g, axes))
    g3, _ = dataset_to_amr_grid([g for g, _ in grown], g1.skeleton)
    ctx.close(g3.skeleton.global_xh, np.max([[a.nc[-1] for a in ax] for _, ax in grown], axis=0),
              "reuse/other", rtol=1e-12)
    # the same patches with more cells, some or all of them
    some = int(rng.randint(len(P) + 1))
    fine, ns = [], []
    for i, p in enumerate(P):
        g = Grid()
        axes = []
        for k in range(3):
            nc = np.array(p.m.axes[k].nc)
            if some in (i, len(P)):
                nc = np.sort(np.concatenate([nc, 0.5 * (nc[1:] + nc[:-1])]))
            axes.append(gen.Axis('xyz'[k], nc))
        g.crds = gen.make_crds(axes)
        fine.append(g)
        ns.append([len(a.nc) - 1 for a in axes])
    g4, _ = dataset_to_amr_grid(fine, g1.skeleton)
    ctx.same(np.asarray(g4.skeleton.n, 'i8'), np.array(ns, 'i8'), "reuse/cells")
    ctx.same(np.asarray(g1.skeleton.n, 'i8'), np.array([[len(a.nc) - 1 for a in p.m.axes] for p in P], 'i8'),
             "cells")
    ctx.saw(info['kind'], len(P), int(np.log10(scale)))


SCENARIOS = [
    Scenario("points", scen_points, quick=700, thorough=25000, need=4000, hang=60),
    Scenario("lines", scen_lines, quick=300, thorough=12000, need=2000, hang=60),
    Scenario("slice", scen_slice, quick=400, thorough=15000, need=500, hang=60),
    Scenario("blend", scen_blend, quick=300, thorough=10000, need=500, hang=60),
    Scenario("edge", scen_edge, quick=150, thorough=5000, need=500, hang=60),
    Scenario("ops", scen_ops, quick=200, thorough=6000, need=2000, hang=60),
    Scenario("skeleton", scen_skeleton, quick=200, thorough=6000, need=1000, hang=60),
]
N05_ONLY = ("points", "lines", "skeleton")

"""N10: clusters of neighbouring points and separator points"""
import io
import contextlib
from math import comb
import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen, ext

PID = "N10"
TECHNIQUE = "runtime monitoring: clusters compared with connected components found by flood fill, separator points judged against the topologies around them and the known junction of an analytic field"
RULE = ("random sets of grid points (blobs, lines, noise) on even and stretched axes of "
        "1-40 points, with and without diagonals, wrapping in either, both or no "
        "direction; random maps of four topologies that meet in a point, with "
        "periodic directions and pole boundaries; saddle fields whose four exits "
        "meet at a known point, seen from planes and spheres; dipoles in a tilted "
        "interplanetary field")
ASSUMPTIONS = ["clusters don't reach all the way around a periodic direction",
               "a bisection may find nothing where regions are thinner than the spacing of its samples"]


def setup():
    import viscid
    ext.ensure()
    viscid.logger.setLevel(50)


def components(pts, diag, shape, per):
    """connected sets of index pairs; returns lists of unwrapped indices"""
    pts = [tuple(p) for p in pts]
    left = dict.fromkeys(pts)
    out = []
    steps = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)
             if (a, b) != (0, 0) and (diag or a == 0 or b == 0)]
    while left:
        p = next(iter(left))
        del left[p]
        todo = [(p, (0, 0))]
        comp = {p: (0, 0)}
        ok = True
        while todo:
            (i, j), w = todo.pop()
            for a, b in steps:
                q, wq = [i + a, j + b], list(w)
                for k in range(2):
                    if per[k]:
                        wq[k] += q[k] // shape[k]
                        q[k] %= shape[k]
                q, wq = tuple(q), tuple(wq)
                if q in left:
                    del left[q]
                    comp[q] = wq
                    todo.append((q, wq))
                elif q in comp and comp[q] != wq:
                    ok = False      # all the way around
        out.append((comp, ok))
    return out


def match_points(ctx, got, want, period, tol, key):
    """same sets of points, modulo the period"""
    got, want = np.asarray(got, 'f8').reshape(2, -1).T, np.asarray(want, 'f8').reshape(-1, 2)
    ctx.check(len(got) == len(want), key + "-number", lambda: "got %s want %s" % (got.tolist(), want.tolist()))
    ctx.check(np.all(np.isfinite(got)), key + "-finite", got)
    left = list(range(len(got)))
    for w in want:
        best, bi = np.inf, None
        for i in left:
            d = got[i] - w
            for k in range(2):
                if period[k]:
                    d[k] -= period[k] * np.round(d[k] / period[k])
            e = np.max(np.abs(d) / tol)
            if e < best:
                best, bi = e, i
        ctx.check(best <= 1.0, key + "-place", lambda: "want %s got %s (period %s)" % (want.tolist(), got.tolist(), period))
        left.remove(bi)


def rand_axis(rng, n):
    lo = rng.uniform(-5, 5)
    if rng.rand() < 0.5:
        return lo + np.arange(n) * rng.uniform(0.1, 2)
    return lo + np.cumsum(rng.uniform(0.1, 2, n))


def scen_clusters(ctx, rng):
    """connected components and their averages"""
    import viscid
    nx, ny = int(rng.randint(1, 40)), int(rng.randint(1, 40))
    per = [False, False]
    if rng.rand() < 0.6:
        per = [bool(rng.randint(2)) and nx > 6, bool(rng.randint(2)) and ny > 6]
    m = np.zeros((nx, ny), bool)
    kind = rng.randint(4)
    for _ in range(rng.randint(0, 6)):
        i, j = rng.randint(-2, nx + 2), rng.randint(-2, ny + 2)
        if kind == 0:
            m[max(i, 0):max(i + rng.randint(1, 4), 0), max(j, 0):max(j + rng.randint(1, 4), 0)] = True
        elif kind == 1:
            for k in range(rng.randint(1, 5)):      # diagonal lines
                a, b = i + k, j + k * (1 if i % 2 else -1)
                if 0 <= a < nx and 0 <= b < ny:
                    m[a, b] = True
        elif kind == 2:     # noise
            m[rng.randint(nx), rng.randint(ny)] = True
        else:               # by the edges
            m[rng.choice([0, -1, min(1, nx - 1)]), rng.randint(ny)] = True
            m[rng.randint(nx), rng.choice([0, -1])] = True
            if rng.rand() < .5:
                m[0, -1] = m[-1, 0] = True
    ix, iy = np.where(m)
    if rng.rand() < 0.5:
        o = rng.permutation(len(ix))
        ix, iy = ix[o], iy[o]
    x, y = rand_axis(rng, nx), rand_axis(rng, ny)
    diag = bool(rng.randint(2))
    kw = {}
    if not diag or rng.rand() < .5:
        kw['diagonals'] = diag
    if any(per) or rng.rand() < .5:
        kw['periodic'] = [("+" if p else [False, "0"][rng.randint(2)]) for p in per]
    conv = [lambda a: a, lambda a: a.tolist()][rng.randint(2)]
    ctx.note(ix=ix.tolist(), iy=iy.tolist(), nx=nx, ny=ny, x=x.tolist(), y=y.tolist(), **kw)
    comps = components(list(zip(ix.tolist(), iy.tolist())), diag, (nx, ny), per)
    if not all(ok for _, ok in comps):
        raise Skip()
    with np.errstate(all='ignore'):
        got = viscid.find_clusters(conv(ix), conv(iy), conv(x) if rng.rand() < .3 else x, y, **kw)
    L = [a[-1] - a[0] + (a[-1] - a[-2] if len(a) > 1 else 0.0) for a in (x, y)]
    want = []
    for c, _ in comps:
        want.append([np.mean([x[p[0]] + w[0] * L[0] for p, w in c.items()]),
                     np.mean([y[p[1]] + w[1] * L[1] for p, w in c.items()])])
    ctx.check(np.asarray(got).shape == (2, len(want)), "clusters-shape", np.asarray(got).shape)
    tol = 1e-9 * (1 + np.array([abs(x).max() + L[0], abs(y).max() + L[1]]))
    match_points(ctx, got, want, [L[k] if per[k] else 0 for k in range(2)], tol, "clusters")
    for k in range(2):      # brought back into the domain, also where a cluster lies across the seam
        a, slack = [x, y][k], tol[k] + (L[k] - ([x, y][k][-1] - [x, y][k][0]) if per[k] else 0.0)
        ctx.check(np.all(np.asarray(got)[k] >= a[0] - slack) and np.all(np.asarray(got)[k] <= a[-1] + slack),
                  "clusters-domain", lambda: "%s is outside %s .. %s" % (np.asarray(got)[k], a[0], a[-1]))
    # a single cluster is the average of everything
    if not any(per):
        with np.errstate(all='ignore'):
            one = viscid.find_clusters(ix, iy, x, y, multiple=False)
        if len(ix):
            match_points(ctx, one, [[x[ix].mean(), y[iy].mean()]], (0, 0), tol, "single")
        else:
            ctx.check(np.asarray(one).shape == (2, 0), "single-empty", np.asarray(one).shape)
    ctx.saw(kind, diag, tuple(per), min(len(want), 4), nx == 1, ny == 1)


def scen_overlap(ctx, rng):
    """periodic with first and last point at the same place"""
    import viscid
    nx, ny = int(rng.randint(7, 30)), int(rng.randint(3, 20))
    x, y = np.linspace(0, 2 * np.pi, nx), rand_axis(rng, ny)
    flip = bool(rng.randint(2))
    want, ix, iy = [], [], []
    j = int(rng.randint(ny))
    k = rng.randint(3)
    w = int(rng.randint(1, 3))
    idx = list(range(w + 1)) + list(range(nx - 1 - w, nx))
    for i in idx:
        ix.append(i)
        iy.append(j)
    o = rng.permutation(len(ix))
    ix, iy = np.array(ix)[o], np.array(iy)[o]
    per = ["1", "0"] if k else [True, False]
    a = (ix, iy, x, y)
    if flip:
        a, per = (iy, ix, y, x), per[::-1]
    if k == 2:
        per = "".join(per)
    ctx.note(ix=ix.tolist(), iy=iy.tolist(), flip=flip, per=per)
    got = viscid.find_clusters(*a, periodic=per)
    p, tol = [2 * np.pi, 0], np.array([x[1] - x[0], 1e-9])
    want = [[0.0, y[j]]]
    if flip:
        p, tol, want = p[::-1], tol[::-1], [want[0][::-1]]
    match_points(ctx, got, want, p, tol, "overlap")
    ctx.check(np.all(np.abs(np.asarray(got)[int(flip)] - np.pi) <= np.pi + x[1]), "overlap-domain", np.asarray(got))
    ctx.saw(flip, k, w)


def scen_bitor(ctx, rng):
    """maps of four topologies that meet in a point"""
    import viscid
    nx, ny = int(rng.randint(5, 40)), int(rng.randint(5, 40))
    x, y = rand_axis(rng, nx), rand_axis(rng, ny)
    xc, yc = rng.uniform(x[1], x[-2]), rng.uniform(y[1], y[-2])
    vals = rng.permutation([1, 2, 4, 8])
    hi = int(rng.choice([0, 16, 256]))
    ang = rng.uniform(0, 2 * np.pi)
    X, Y = np.meshgrid(x, y, indexing='ij')
    k = rng.randint(3)
    if k == 0:
        q = (X > xc) * 2 + (Y > yc)
    elif k == 1:
        wx, wy = (x[-1] - x[0]) / nx, (y[-1] - y[0]) / ny
        q = np.floor((np.arctan2((Y - yc) / wy, (X - xc) / wx) - ang) / (np.pi / 2)).astype(int) % 4
    else:       # only three topologies: no separator
        q = (X > xc) * 1 + (Y > yc)
    topo = vals[q]
    nc = [['x', 'y'], ['y', 'z']][rng.randint(2)]
    f = viscid.zeros(viscid.arrays2crds((x, y), crd_names=nc), dtype=['i4', 'i8'][rng.randint(2)],
                     center='node', name='topo')
    f.data[...] = topo | hi
    fld = f
    if rng.rand() < 0.3:
        c3 = viscid.arrays2crds((x, [0.5], y))
        fld = viscid.zeros(c3, dtype='i4', center='node', name='topo')
        fld.data[...] = (topo | hi)[:, None]
    kw = {}
    if hi == 0 and rng.rand() < 0.5:
        kw['mask_limit'] = 0
    if k != 2 and rng.rand() < 0.3:
        kw['multiple'] = False
    md = int(rng.choice([1, 1, 2, 3]))
    if md > 1:
        kw['min_depth'] = md
    if rng.rand() < 0.3:
        kw['max_depth'] = max(md, 3)
    per = rng.rand() < 0.25
    if per:
        kw['periodic'] = ["0" if rng.randint(2) else "1", "1"][::[1, -1][rng.randint(2)]]
        if rng.rand() < 0.6:        # a junction on the seam
            q = np.roll(topo, [int(rng.randint(n)) if p == "1" else 0 for p, n in zip(kw['periodic'], (nx, ny))], axis=(0, 1))
            topo = q
            f.data[...] = topo | hi
            if fld is not f:
                fld.data[...] = (topo | hi)[:, None]
    snap = gen.snapshot(fld)
    bnds = rng.rand() < 0.25
    if bnds:
        kw['pt_bnds'] = ["%d%s" % (rng.randint(2), "+-"[rng.randint(2)]) for _ in range(rng.randint(1, 3))]
    ctx.note(x=x.tolist(), y=y.tolist(), c=[xc, yc], k=int(k), hi=hi, **kw)
    with np.errstate(all='ignore'):
        pts = np.asarray(viscid.topology_bitor_clusters(fld, **kw))
    gen.check_unchanged(ctx, fld, snap, "bitor-unchanged")
    ctx.check(pts.ndim == 2 and pts.shape[0] == 2, "bitor-shape", pts.shape)
    ctx.check(np.all(np.isfinite(pts)), "bitor-finite", pts)
    # windows of neighbours that hold all four topologies
    if not bnds:
        want, depth = [], 0
        pd = [p == "1" for p in kw.get('periodic', "00")]
        wins = [[{i} for i in range(n)] for n in (nx, ny)]
        for d in range(1, kw.get('max_depth', 10) + 1):
            if min(nx, ny) - d < 1:
                break
            for w, p in zip(wins, pd):
                if p:       # both ends are the same place
                    w[0] = w[-1] = w[0] | w[-1]
                w[:] = [a | b for a, b in zip(w[:-1], w[1:])]
            hit = [(i, j) for i in range(nx - d) for j in range(ny - d)
                   if np.bitwise_or.reduce(topo[np.ix_(sorted(wins[0][i]), sorted(wins[1][j]))], axis=None) == 15]
            if d >= md and hit:
                bw = np.array([comb(d, q) for q in range(d + 1)]) / 2.0**d
                loc = {(i, j): (bw.dot(x[i:i + d + 1]), bw.dot(y[j:j + d + 1])) for i, j in hit}
                if any(p and n - d < 4 for p, n in zip(pd, (nx, ny))):
                    return
                cl = components(hit, True, (nx - d, ny - d), pd)
                if not all(ok for _, ok in cl):
                    return
                if kw.get('multiple') is False:
                    cl = [({h: (0, 0) for h in hit}, True)]
                P = np.array([x[-1] - x[0], y[-1] - y[0]])
                want = [np.mean([loc[h] + np.array(w) * P for h, w in c.items()], axis=0) for c, _ in cl]
                depth = d
                break
        tol = 1e-9 * (1 + np.array([abs(x).max(), abs(y).max()]))
        for k in range(2):
            if pd[k]:       # the period of the windows is some spacings short
                tol[k] = 2 * (depth + 1) * np.max(np.diff([x, y][k]))
                ctx.check(np.all(pts[k] >= [x, y][k][0] - tol[k]) and np.all(pts[k] <= [x, y][k][-1] + tol[k]), "bitor-domain", pts)
        match_points(ctx, pts, want, [P if p else 0 for p, P in zip(pd, (x[-1] - x[0], y[-1] - y[0]))], tol, "bitor")
        ctx.saw('depth', depth, len(want))
    ctx.saw(int(k), hi, md, per, bnds, nx == ny, fld.nr_dims, kw.get('mask_limit'))


def saddle(rng):
    """field lines of (x - x0, y - y0, -2 z) leave by the sides; the regions
    of the four sides meet along the line x0, y0"""
    import viscid
    n = [int(rng.randint(9, 30)) for _ in range(3)]
    ax = [np.linspace(-4, 4, k) for k in n]
    B = viscid.zeros(ax, nr_comps=3, layout=['flat', 'interlaced'][rng.randint(2)], name='B', center='node')
    X, Y, Z = B.get_crds('xyz', shaped=True)
    x0, y0 = rng.uniform(-1.3, 1.3, size=2)
    g = rng.choice([-1.0, 1.0])
    o = X * 0 + Y * 0 + Z * 0
    B['x'], B['y'], B['z'] = g * (X - x0 + o), g * (Y - y0 + o), g * (-2 * Z + o)
    return B, x0, y0


def bits():
    import viscid
    return (viscid.END_OBOUND_XL | viscid.END_OBOUND_XH | viscid.END_OBOUND_YL | viscid.END_OBOUND_YH)


def sep_seeds(rng, x0, y0, nmin=40):
    """(seeds, place of the junctions in 3-d)"""
    import viscid
    k = rng.randint(3)
    z = rng.choice([-1, 1]) * rng.uniform(0.6, 2)
    n = [int(rng.randint(nmin, 80)) for _ in range(2)]
    if k == 0:
        lo, hi = -rng.uniform(1.5, 3.5, size=2), rng.uniform(1.5, 3.5, size=2)
        s = viscid.Volume(xl=(lo[0], lo[1], z), xh=(hi[0], hi[1], z), n=(n[0], n[1], 1))
        return k, s, np.array([[x0], [y0], [z]]), max(hi - lo)
    if k == 1:
        a = rng.uniform(0, 2 * np.pi)
        s = viscid.Plane(p0=(0, 0, z), pN=(0, 0, 1), pL=(np.cos(a), np.sin(a), 0), len_l=5.0, len_m=5.0, nl=n[0], nm=n[1])
        return k, s, np.array([[x0], [y0], [z]]), 5.0
    r = rng.uniform(0.3, 0.5)
    pole = (1, rng.uniform(-0.5, 0.5), rng.uniform(-0.4, 0.4))
    s = viscid.Sphere(p0=(x0, y0, z), r=r, ntheta=n[0], nphi=n[1], pole=pole, theta_endpoint=True, phi_endpoint=True)
    return k, s, np.array([[x0, x0], [y0, y0], [z - r, z + r]]), 2 * np.pi * r


def scen_bisect(ctx, rng):
    """points found by bisection are at the junction"""
    import viscid
    B, x0, y0 = saddle(rng)
    k, seeds, where, size = sep_seeds(rng, x0, y0)
    b = bits()

    def pc(arr):
        return int(np.bitwise_or.reduce(arr)) & b == b

    depth = int(rng.randint(3, 10))
    to = dict(ibound=0.0, topo_style='generic')
    keep = dict(to)
    snap = gen.snapshot(B)
    ctx.note(x0=x0, y0=y0, k=int(k), depth=depth, shape=[int(v) for v in seeds.uv_shape])
    with contextlib.redirect_stdout(io.StringIO()):
        p3 = np.asarray(viscid.get_sep_pts_bisect(B, seeds, trace_opts=to, min_depth=depth, max_depth=depth, perimeter_check=pc))
        uv = np.asarray(viscid.get_sep_pts_bisect(B, seeds, trace_opts=to, min_depth=depth, max_depth=depth, perimeter_check=pc, make_3d=False))
    ctx.check(to == keep, "bisect-options", to)
    gen.check_unchanged(ctx, B, snap, "bisect-unchanged")
    ctx.check(p3.ndim == 2 and p3.shape[0] == 3 and uv.ndim == 2 and uv.shape[0] == 2 and uv.shape[1] == p3.shape[1],
              "bisect-shape", (p3.shape, uv.shape))
    if uv.shape[1]:
        ctx.close(seeds.uv_to_3d(uv), p3, "bisect-uv", rtol=1e-9, atol=1e-9)
    lim = np.asarray(seeds.uv_extent)
    ctx.check(np.all(uv >= lim[:, :1] - 1e-9) and np.all(uv <= lim[:, 1:] + 1e-9), "bisect-extent", uv)
    # cut in halves or in 0.65 : 0.35 at every level
    cell = size * 0.65**depth * 0.65 * np.sqrt(2)
    for p in p3.T:
        d = np.min(np.linalg.norm(where - p[:, None], axis=0))
        ctx.check(d <= cell + 1e-9, "bisect-place", lambda: "%s is %g from %s (depth %d)" % (p, d, where.tolist(), depth))
    if p3.shape[1] == 0:
        ctx.count('none-found')
        # regions can be thinner than the samples' spacing, but not again and again
        for _ in range(3):
            _, s2, _, _ = sep_seeds(rng, x0, y0, nmin=60)
            with contextlib.redirect_stdout(io.StringIO()):
                p2 = np.asarray(viscid.get_sep_pts_bisect(B, s2, trace_opts=to, min_depth=3, max_depth=4, perimeter_check=pc))
            if p2.shape[1]:
                break
        else:
            ctx.violate("bisect-finds-nothing", "x0 %g y0 %g" % (x0, y0))
    else:
        ctx.count('found%d-%s' % (p3.shape[1], ['plane', 'plane', 'sphere'][k]))
    ctx.saw(int(k), depth, p3.shape[1])


def scen_or_seeds(ctx, rng):
    """the same by or-ing neighbours on a map of seeds"""
    import viscid
    B, x0, y0 = saddle(rng)
    k, seeds, where, size = sep_seeds(rng, x0, y0, nmin=24)
    b = bits()
    to = dict(ibound=0.0, topo_style='generic')
    keep = dict(to)
    ctx.note(x0=x0, y0=y0, k=int(k), shape=[int(v) for v in seeds.uv_shape])
    p3 = np.asarray(viscid.get_sep_pts_bitor(B, seeds, trace_opts=to, sep_val=b, mask_limit=b))
    uv = np.asarray(viscid.get_sep_pts_bitor(B, seeds, trace_opts=to, sep_val=b, mask_limit=b, make_3d=False))
    ctx.check(to == keep, "or-options", to)
    ctx.check(p3.shape == (3, uv.shape[1]), "or-shape", (p3.shape, uv.shape))
    ctx.check(np.all(np.isfinite(p3)), "or-finite", p3)
    ctx.check(p3.shape[1] >= 1, "or-found", p3)
    ctx.close(seeds.uv_to_3d(uv), p3, "or-uv", rtol=1e-9, atol=1e-9)
    du = [(hi - lo) / (n - 1) for (lo, hi), n in zip(seeds.uv_extent, seeds.uv_shape)]
    scale = 0.5 if k == 2 else 1.0
    reach = 11 * np.hypot(*du) * (size / (2 * np.pi) if k == 2 else 1.0)
    for p in p3.T:
        d = np.min(np.linalg.norm(where - p[:, None], axis=0))
        ctx.check(d <= reach, "or-place", lambda: "%s not within %g of %s" % (p, reach, where.tolist()))
    ctx.saw(int(k), p3.shape[1], scale)


def scen_dipole(ctx, rng):
    """dipole in a uniform field: the separator crosses the x axis where
    closed field lines end"""
    import viscid
    n = 40
    ax = [np.linspace(-12, 12, n + 1), np.linspace(-12, 12, n), np.linspace(-12, 12, n)]
    th = rng.uniform(0.4, 1.0) * np.pi * rng.choice([-1, 1])
    b0 = rng.uniform(20, 60)
    B = viscid.make_dipole(n=[len(a) for a in ax], l=[a[0] for a in ax], h=[a[-1] for a in ax])
    B['y'] = B['y'] + b0 * np.sin(th)
    B['z'] = B['z'] + b0 * np.cos(th)
    to = dict(ibound=2.5)
    # the end of closed field lines on the axis
    lo, hi = 2.6, 11.5
    top = lambda x: int(np.asarray(viscid.calc_streamlines(B, np.array([[x], [0.0], [0.0]]), ibound=2.5, output=viscid.OUTPUT_TOPOLOGY, max_length=300.0)[1]).reshape(-1)[0])
    ctx.note(th=th, b0=b0)
    t0, t1 = top(lo), top(hi)
    if t0 != 1 or t1 != 8:
        raise Skip()
    for _ in range(20):
        mid = 0.5 * (lo + hi)
        t = top(mid)
        if t == 1:
            lo = mid
        elif t == 8:
            hi = mid
        else:
            raise Skip()
    xs = 0.5 * (lo + hi)
    x1, x2, zz = xs - rng.uniform(1, 2), xs + rng.uniform(1, 2), rng.uniform(1.2, 2.2)
    seeds = viscid.Volume(xl=(x1, 0, -zz), xh=(x2, 0, zz * 1.1), n=(64, 1, 64))
    ctx.note(xs=xs)
    with contextlib.redirect_stdout(io.StringIO()):
        p = np.asarray(viscid.get_sep_pts_bisect(B, seeds, trace_opts=to, max_depth=5))
        q = np.asarray(viscid.get_sep_pts_bitor(B, seeds, trace_opts=to))
    grid = 24.0 / n
    for nm, pts, tol in (("bisect", p, 0.45), ("bitor", q, 0.8)):
        if pts.shape[1] == 0:
            ctx.count(nm + '-none')
            continue
        d = np.min(np.linalg.norm(pts - np.array([[xs], [0], [0]]), axis=0))
        ctx.check(d < tol, "dipole-" + nm, lambda: "%s: separator at %g" % (pts.tolist(), xs))
        ctx.count(nm + '-found')
    ctx.saw(round(th, 1), grid)


SCENARIOS = [
    Scenario("clusters", scen_clusters, quick=2000, thorough=20000, need=400),
    Scenario("overlap", scen_overlap, quick=40, thorough=400, need=40),
    Scenario("bitor", scen_bitor, quick=300, thorough=3000, need=400),
    Scenario("bisect", scen_bisect, quick=48, thorough=400, need=100),
    Scenario("orseeds", scen_or_seeds, quick=48, thorough=400, need=100),
    Scenario("dipole", scen_dipole, quick=20, thorough=160, need=4),
]

"""N06: null cells of a trilinear field are reported, once, and classified by the Jacobian"""
import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen, ext

PID = "N06"
TECHNIQUE = "runtime monitoring: reported null cells compared with an independent subdivision and Newton search of every cell's interpolant, types compared with the known Jacobian"
RULE = ("linear fields of every null type (general, axis aligned, spiral) with the null "
        "anywhere inside or outside, noise fields and superpositions, node/cell, "
        "f4 f8 and integers, both layouts, any memory order, uniform and stretched")
ASSUMPTIONS = ["zeros in generic position: not on cell faces, Jacobian not singular",
               "cells with an even number of zeros are left open (parity method)"]


def setup():
    ext.ensure()


CORN = np.array([[i, j, k] for i in (0, 1) for j in (0, 1) for k in (0, 1)], dtype='f8')


def tri(V, t):
    """V [n, 2, 2, 2, 3] at t [n, 3]"""
    out = 0.0
    for c in CORN.astype(int):
        w = 1.0
        for d in range(3):
            w = w * (t[:, d] if c[d] else 1.0 - t[:, d])
        out = out + w[:, None] * V[:, c[0], c[1], c[2]]
    return out


def jac(V, t):
    """d comp / d t_d, [n, comp, d]"""
    J = np.zeros((len(t), 3, 3))
    for c in CORN.astype(int):
        for d in range(3):
            w = 1.0
            for e in range(3):
                if e == d:
                    w = w * (1.0 if c[e] else -1.0)
                else:
                    w = w * (t[:, e] if c[e] else 1.0 - t[:, e])
            J[:, :, d] += w[:, None] * V[:, c[0], c[1], c[2]]
    return J


def find_zeros(V, depth=6):
    """zeros of each cell's interpolant: list of arrays, and cells that are
    too close to call"""
    n = len(V)
    cell = np.arange(n)
    lo = np.zeros((n, 3))
    size = 1.0
    doubt = np.zeros(n, bool)
    for lev in range(depth + 1):
        vals = np.stack([tri(V[cell], lo + size * c) for c in CORN], axis=1)
        keep = np.all((vals.min(axis=1) <= 0) & (vals.max(axis=1) >= 0), axis=1)
        cell, lo = cell[keep], lo[keep]
        if lev == depth or not len(cell):
            break
        size *= 0.5
        cell = np.repeat(cell, 8)
        lo = (lo[:, None, :] + size * CORN[None]).reshape(-1, 3)
        if len(cell) > 60000:
            raise Skip()
    zeros = [[] for _ in range(n)]
    if len(cell):
        t = lo + 0.5 * size
        for _ in range(30):
            J = jac(V[cell], t)
            det = np.linalg.det(J)
            bad = np.abs(det) < 1e-300
            J[bad] = np.eye(3)
            step = np.linalg.solve(J, tri(V[cell], t)[..., None])[..., 0]
            step = np.clip(step, -0.25, 0.25)
            t = t - step
        res = np.abs(tri(V[cell], t)).max(axis=1)
        scale = np.abs(V[cell]).max(axis=(1, 2, 3))
        ok = (res <= 1e-9 * scale.max(axis=1)) & np.all(np.abs(t - 0.5) < 0.75, axis=1)
        J = jac(V[cell], t)
        for k in np.nonzero(ok)[0]:
            c = cell[k]
            Jn = J[k] / scale[k][:, None]
            if np.abs(np.linalg.det(Jn)) < 1e-3:
                doubt[c] = True
            tt = t[k]
            d = np.minimum(np.abs(tt), np.abs(1 - tt))
            if np.any(d < 1e-3):
                doubt[c] = True
            if np.all((tt > 0) & (tt < 1)) and not any(
                    np.abs(z - tt).max() < 1e-4 for z in zeros[c]):
                zeros[c].append(tt)
        # boxes that did not converge anywhere near themselves: nothing to say,
        # unless several small boxes of one cell stay undecided
        near = np.all(np.abs(t - (lo + 0.5 * size)) < 4 * size, axis=1)
        und = ~(ok & near)
        mag = np.abs(tri(V[cell], lo + 0.5 * size)) / scale
        for k in np.nonzero(und & (mag.max(axis=1) < size * 0.5))[0]:
            doubt[cell[k]] = True
    return zeros, doubt


def cells_of(vals):
    """[ncells, 2, 2, 2, 3] and their indices"""
    n = vals.shape[:3]
    I = np.array([[i, j, k] for i in range(n[0] - 1) for j in range(n[1] - 1)
                  for k in range(n[2] - 1)])
    V = np.empty((len(I), 2, 2, 2, 3))
    for a in (0, 1):
        for b in (0, 1):
            for c in (0, 1):
                V[:, a, b, c] = vals[I[:, 0] + a, I[:, 1] + b, I[:, 2] + c]
    return I, V


def build(rng, X_func, n, dt, center, kinds=None):
    axes = []
    for k, nm in zip(n, 'xyz'):
        axes.append(gen.Axis(nm, gen.rand_nc(rng, k + (center == 'cell'),
                                             ['uniform', 'stretched'][rng.randint(2)],
                                             scale=1.0, origin=-0.5 * k * rng.uniform(0.5, 1.5))))
    crds = [a.nc if center == 'node' else a.cc for a in axes]
    X = np.stack(np.meshgrid(*crds, indexing='ij'), axis=-1)
    v = X_func(X, crds)
    m = gen.Model(np.asarray(v).astype(dt), axes, center, 3)
    f = gen.make_field(rng, m, layout=['flat', 'interlaced'][rng.randint(2)],
                       order=['C', 'F', 'strided'][rng.randint(3)],
                       crd_type=['AUTO', 'nonuniform'][rng.randint(2)])
    return f, m, crds


def as_cells(ctx, inds, pts, crds, dt):
    inds, pts = np.asarray(inds), np.asarray(pts)
    ctx.check(inds.ndim == 2 and inds.shape[0] == 3 and pts.shape == inds.shape,
              "result/shape", lambda: "%s %s" % (inds.shape, pts.shape))
    out = [tuple(int(v) for v in c) for c in inds.T]
    ctx.check(len(set(out)) == len(out), "result/twice", lambda: "%s" % out)
    for c, p in zip(out, pts.T):
        for d in range(3):
            ctx.check(0 <= c[d] < len(crds[d]) - 1, "result/index", lambda: "%s" % (c,))
            w = crds[d][c[d] + 1] - crds[d][c[d]]
            ctx.check(crds[d][c[d]] - 1e-5 * w <= p[d] <= crds[d][c[d] + 1] + 1e-5 * w + 1e-5 * abs(p[d]),
                      "result/point", lambda: "point %s of cell %s" % (p, c))
    return set(out)


def scen_cells(ctx, rng):
    """noise and superposed fields: exactly the cells with an odd number of zeros"""
    import viscid
    n = [int(k) for k in rng.randint(2, 6, size=3)]
    dt = ['f8', 'f8', 'f4', 'i4'][rng.randint(4)]
    center = ['node', 'cell'][rng.randint(2)]
    kind = ['noise', 'smooth', 'sum', 'plane'][rng.randint(4)]

    def func(X, crds):
        if kind == 'noise':
            v = rng.standard_normal(X.shape)
        elif kind == 'smooth':
            k = rng.uniform(0.3, 1.2, size=(3, 3))
            v = np.sin(X @ k + rng.uniform(0, 6, size=3)) + rng.uniform(-0.4, 0.4, size=3)
        elif kind == 'sum':
            v = (X - rng.uniform(-1, 1, size=3)) @ rng.standard_normal((3, 3)) + \
                0.3 * rng.standard_normal(X.shape)
        else:    # components that depend on one or two axes only
            v = np.empty(X.shape)
            p = rng.permutation(3)
            for c in range(3):
                v[..., c] = np.sin(X[..., p[c]] * rng.uniform(0.5, 1.5) + rng.uniform(0, 6))
                if rng.randint(2):
                    v[..., c] += rng.uniform(-1, 1) * X[..., p[(c + 1) % 3]]
        return v * (1 if dt != 'i4' else 1000)
    f, m, crds = build(rng, func, n, dt, center)
    vals = m.vals.astype('f8')
    ctx.note(n=n, dtype=dt, center=center, kind=kind, layout=f.layout)
    snap = gen.snapshot(f)
    ib = 0.0
    if rng.randint(4) == 0:
        ib = float(rng.uniform(0, 2))
    inds, pts = viscid.find_nulls(f, ibound=ib)
    gen.check_unchanged(ctx, f, snap, "source")
    got = as_cells(ctx, inds, pts, crds, dt)
    I, V = cells_of(vals)
    zeros, doubt = find_zeros(V)
    # a zero next to a face may be counted on either side
    nbad = set()
    for k in np.nonzero(doubt)[0]:
        for dlt in np.array(np.meshgrid(*[[-1, 0, 1]] * 3)).reshape(3, -1).T:
            nbad.add(tuple(I[k] + dlt))
    for c, z in zip(I, zeros):
        c = tuple(int(v) for v in c)
        if c in nbad:
            ctx.count("cells too close to call")
            continue
        r = np.sqrt(sum(crds[d][c[d]] ** 2 for d in range(3)))
        if ib and abs(r - ib) < 1e-3:
            continue
        if ib and r < ib:
            ctx.check(c not in got, "ibound", lambda: "cell %s at r=%r" % (c, r))
            continue
        if len(z) % 2:
            ctx.check(c in got, "missed", lambda: "cell %s has %d zeros at %s" % (c, len(z), z))
            ctx.count("null cells")
            ctx.saw(kind, dt, center, len(z), tuple(np.round(z[0] * 3)))
        else:
            ctx.check(c not in got, "spurious/%d" % len(z),
                      lambda: "cell %s has zeros %s" % (c, z))
            ctx.count("cells without" if not z else "cells with an even number")


def scen_linear(ctx, rng):
    """one null of a known type"""
    import viscid
    n = [int(k) for k in rng.randint(2, 8, size=3)]
    dt = ['f8', 'f8', 'f4'][rng.randint(3)]
    center = ['node', 'cell'][rng.randint(2)]
    typ = 'ABABO'[rng.randint(5)]
    how = ['general', 'aligned', 'spiral', 'sym'][rng.randint(4)]
    s = 1.0 if typ == 'A' else -1.0
    a, b = rng.uniform(0.3, 2, size=2)
    if typ == 'O':
        w = rng.uniform(0.5, 2)
        D = np.array([[0, w, 0], [-w, 0, 0], [0, 0, 0]]) if how == 'spiral' else np.diag([a, -a, 0.0])
    elif how == 'spiral':
        w = rng.uniform(0.2, 2)
        a = rng.uniform(0.06, 2)
        D = s * np.array([[-a, w, 0], [-w, -a, 0], [0, 0, 2 * a]])
    else:
        D = s * np.diag([-a, -b, a + b])
    if how == 'aligned':
        p = rng.permutation(3)
        M = D[np.ix_(p, p)]
    elif how == 'sym':
        Q, _ = np.linalg.qr(rng.standard_normal((3, 3)))
        M = Q @ D @ Q.T
    else:
        P = rng.standard_normal((3, 3)) + 2 * np.eye(3)
        M = P @ D @ np.linalg.inv(P)
    where = {}

    def func(X, crds):
        inside = rng.randint(5) > 0
        x0, cell = [], []
        for c in crds:
            i = rng.randint(len(c) - 1)
            x0.append(c[i] + (c[i + 1] - c[i]) * rng.uniform(0.05, 0.95))
            cell.append(i)
        if not inside:
            d = rng.randint(3)
            x0[d] = crds[d][-1] + 1.0
        where['x'], where['c'], where['in'] = np.array(x0), tuple(cell), inside
        return (X - x0) @ M.T
    f, m, crds = build(rng, func, n, dt, center)
    ctx.note(n=n, dtype=dt, center=center, type=typ, how=how, M=M, null=where['x'])
    if typ == 'O':
        # a whole line of zeros: only the type of a cell that is found counts
        if dt == 'f4':
            raise Skip()     # roundings decide whether the zero eigenvalue is zero
        r = viscid.find_classified_nulls(f, atol=1e-4, rtol=1e-4)
        for k in 'AB':
            ctx.check(np.asarray(r[k][0]).shape[1] == 0, "type/O", lambda: "found %s as %s" % (r, k))
        found = viscid.find_nulls(f)[0]
        ctx.check(np.array_equal(np.asarray(r['O'][0]), np.asarray(found)), "type/O-found",
                  lambda: "found cells %s, of type O %s" % (found, r['O'][0]))
        ctx.count("type O found", int(np.asarray(r['O'][0]).shape[1]))
        ctx.saw(typ, how, dt, center, int(np.asarray(r['O'][0]).shape[1]) > 0)
        return
    ev = np.linalg.eigvals(M)
    if np.min(np.abs(ev)) < 0.05 or np.linalg.cond(M) > 300:
        raise Skip()
    inds, pts = viscid.find_nulls(f)
    got = as_cells(ctx, inds, pts, crds, dt)
    want = {where['c']} if where['in'] else set()
    # oracle: the stored (rounded) values decide
    I, V = cells_of(m.vals.astype('f8'))
    zeros, doubt = find_zeros(V)
    if dt == 'f4' and doubt.any():
        raise Skip()
    ctx.check(got == want, "linear/cells", lambda: "got %s want %s" % (got, want))
    tol = 1e-6 if dt == 'f8' else 1e-3
    r = viscid.find_classified_nulls(f, atol=tol, rtol=tol)
    ctx.check(sorted(r) == ['A', 'B', 'O'], "type/keys", "%s" % sorted(r))
    for k in 'ABO':
        cells = as_cells(ctx, r[k][0], r[k][1], crds, dt)
        ctx.check(cells == (want if k == typ else set()), "type/" + how,
                  lambda: "null of type %s, %s holds %s" % (typ, k, cells))
    ctx.count("nulls classified", len(want))
    # the Jacobian on the grid
    for _ in range(3):
        ix = [int(rng.randint(k)) for k in n]
        J = viscid.jacobian_at_ind(f, *ix)
        ctx.close(np.asarray(J, 'f8'), M, "jacobian/ind", rtol=0,
                  atol=(1e-7 if dt == 'f8' else 1e-2) * np.abs(M).max() * 10,
                  msg=lambda: "at %s" % ix)
        e, w = viscid.jacobian_eig_at_ind(f, *ix)
        ctx.close(np.sort_complex(np.asarray(e, complex)), np.sort_complex(ev.astype(complex)),
                  "jacobian/eig", rtol=0, atol=(1e-4 if dt == 'f8' else 0.1) * np.abs(M).max())
    ctx.saw(typ, how, dt, center, where['in'], tuple(n))


def scen_arrange(ctx, rng):
    """the same field however it is stored or cut out"""
    import viscid
    n = [int(k) for k in rng.randint(4, 8, size=3)]
    dt = ['f8', 'f4'][rng.randint(2)]
    f, m, crds = build(rng, lambda X, c: rng.standard_normal(X.shape), n, dt, 'node')
    a = viscid.find_nulls(f)
    other = f.as_interlaced() if f.layout == 'flat' else f.as_flat()
    b = viscid.find_nulls(other)
    ctx.same(a[0], b[0], "layout/inds")
    ctx.same(a[1], b[1], "layout/points")
    # part of the field: the cells in the part
    lo = [int(rng.randint(0, k - 2)) for k in n]
    hi = [int(rng.randint(l + 2, k + 1)) for l, k in zip(lo, n)]
    sub = f[lo[0]:hi[0], lo[1]:hi[1], lo[2]:hi[2]]
    c = viscid.find_nulls(sub)
    got = {tuple(int(v) for v in q) for q in (np.asarray(c[0]).T + np.array(lo))}
    want = {tuple(int(v) for v in q) for q in np.asarray(a[0]).T
            if all(lo[d] <= q[d] < hi[d] - 1 for d in range(3))}
    ctx.check(got == want, "part/cells", lambda: "%s %s" % (got, want))
    # scaling does not move nulls
    c = viscid.find_nulls(f * 4.0)
    ctx.same(np.asarray(c[0]), np.asarray(a[0]), "scaled/inds")
    ctx.count("null cells", len(a[0].T))
    ctx.saw(dt, f.layout, len(want), tuple(n))


SCENARIOS = [
    Scenario("cells", scen_cells, quick=320, thorough=6000, need=400, hang=90),
    Scenario("linear", scen_linear, quick=800, thorough=16000, need=200, hang=60),
    Scenario("arrange", scen_arrange, quick=200, thorough=3000, need=60, hang=60),
]

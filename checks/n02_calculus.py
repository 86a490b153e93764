"""N02: vector calculus matches its definitions on every backend"""
import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen

PID = "N02"
TECHNIQUE = "runtime monitoring: the result of every operator on every backend compared point by point with its definition evaluated in plain numpy over the true coordinates"
RULE = ("random fields (node/cell, either layout, f4 f8, C/F/strided memory, uniform "
        "and stretched, sizes down to 2 per axis, sizes equal to the number of "
        "components) x operator x backend; staggered fields with leading and "
        "trailing faces, flipped axes and single-cell axes")
ASSUMPTIONS = ["derivatives need at least 2 points along each axis (3 without edges)",
               "grids in a differential operator are 3-dimensional",
               "both vector operands of dot on the numpy backend have one layout (it raises ValueError otherwise, by design)"]

LAY = ['flat', 'interlaced']
BACK = ['numpy', 'numexpr', None]


def tol_of(dt):
    return 2e-5 if np.dtype(dt) == np.float32 else 1e-10


def two_fields(rng, ncomp_a, ncomp_b, ndim=None, dtype=None, same_layout=False, lo=1):
    """two fields on the same grid"""
    ndim = ndim or int(rng.randint(1, 4))
    dt = dtype or ['f8', 'f8', 'f4'][rng.randint(3)]
    center = ['node', 'cell'][rng.randint(2)]
    sshape = [int(n) for n in rng.randint(lo, 6, size=ndim)]
    if rng.randint(4) == 0:
        sshape = [3] * ndim
    if np.prod(sshape) == 1:
        sshape[0] = 2
    axes = gen.rand_axes(rng, sshape, center, names="xyz")
    out = []
    lays = [LAY[rng.randint(2)], LAY[rng.randint(2)]]
    if same_layout:
        lays[1] = lays[0]
    ct = ['AUTO', 'nonuniform'][rng.randint(2)]
    orders = []
    for nc, lay in zip((ncomp_a, ncomp_b), lays):
        m = gen.Model(gen.rand_vals(rng, sshape + ([nc] if nc else []), dt), axes, center, nc)
        o = ['C', 'C', 'F', 'strided'][rng.randint(4)]
        orders.append(o)
        out.append((gen.make_field(rng, m, layout=lay, crd_type=ct, order=o), m))
    d = dict(sshape=sshape, center=center, dtype=dt, layouts=lays, orders=orders, crds=ct,
             nc=(ncomp_a, ncomp_b))
    return out[0][0], out[0][1], out[1][0], out[1][1], d


def kw_of(b):
    return dict(preferred=b, only=True) if b else {}


def scen_pointwise(ctx, rng):
    """sums, products, magnitudes ... against numpy"""
    import viscid
    op = ['neg', 'scale', 'add', 'diff', 'mul', 'axpby', 'relative_diff', 'abs_diff', 'abs_val',
          'abs_max', 'abs_min', 'magnitude', 'dot', 'cross', 'project', 'normalize',
          'project_vector', 'calc_beta'][rng.randint(18)]
    vec = op in ('magnitude', 'dot', 'cross', 'project', 'normalize', 'project_vector')
    nca = 3 if vec else int([0, 0, 3][rng.randint(3)])
    ncb = nca
    if op == 'calc_beta':
        nca, ncb = 0, 3
    b = BACK[rng.randint(3)]
    same = b == 'numpy' and op in ('dot', 'project') or op == 'project_vector'
    fa, ma, fb, mb, d = two_fields(rng, nca, ncb, same_layout=same)
    A, B = ma.vals.astype('f8'), mb.vals.astype('f8')
    sa, sb = gen.snapshot(fa), gen.snapshot(fb)
    f = getattr(viscid, op)
    kw = kw_of(b)
    nout = nca
    s1, s2 = [float(v) for v in np.round(rng.uniform(-4, 4, size=2), 3)]
    if rng.randint(3) == 0:
        s1 = int(rng.randint(-4, 5))
    dt = d['dtype']

    def mag(x):
        return np.sqrt(np.sum(x * x, axis=-1, keepdims=True))
    with np.errstate(all='ignore'):
        if op == 'neg':
            r, w = f(fa, **kw), -A
        elif op == 'scale':
            r, w = f(s1, fa, **kw), s1 * A
        elif op == 'add':
            r, w = f(fa, fb, **kw), A + B
        elif op == 'diff':
            r, w = f(fa, fb, **kw), A - B
        elif op == 'mul':
            r, w = f(fa, fb, **kw), A * B
        elif op == 'axpby':
            r, w = f(s1, fa, s2, fb, **kw), s1 * A + s2 * B
        elif op == 'relative_diff':
            r, w = f(fa, fb, **kw), (A - B) / A
        elif op == 'abs_diff':
            r, w = f(fa, fb, **kw), np.abs(A - B)
        elif op == 'abs_val':
            r, w = f(fa, **kw), np.abs(A)
        elif op == 'abs_max':
            r, w = f(fa, **kw), np.max(np.abs(A))
        elif op == 'abs_min':
            r, w = f(fa, **kw), np.min(np.abs(A))
        elif op == 'magnitude':
            r, w, nout = f(fa, **kw), mag(A)[..., 0], 0
        elif op == 'dot':
            r, w, nout = f(fa, fb, **kw), np.sum(A * B, axis=-1), 0
        elif op == 'cross':
            r, w = f(fa, fb, **kw), np.cross(A, B)
        elif op == 'project':
            r, w, nout = f(fa, fb, **kw), np.sum(A * B, axis=-1) / mag(B)[..., 0], 0
        elif op == 'normalize':
            r, w = f(fa, **kw), A / mag(A)
        elif op == 'project_vector':
            r, w = f(fa, fb), np.sum(A * B, axis=-1, keepdims=True) / mag(B) ** 2 * B
        else:
            r, w, nout = f(fa, fb, scale=2.5), 2.5 * 2 * A / np.sum(B * B, axis=-1), 0
    key = "pointwise/" + op
    msg = lambda: "%s %s" % (b, d)
    gen.check_unchanged(ctx, fa, sa, key + "/operand")
    gen.check_unchanged(ctx, fb, sb, key + "/operand")
    ctx.saw(op, b, d['center'], tuple(d['layouts']), dt, d['crds'], tuple(d['orders']), tuple(d['sshape']))
    ctx.count("backend_" + str(b))
    tol = tol_of(dt)
    if op in ('abs_max', 'abs_min'):
        ctx.close(np.asarray(r).reshape(()), w, key, rtol=tol, msg=msg)
        return
    if op == 'relative_diff':
        # whether it is signed is for the documentation to say
        ctx.close(np.abs(gen.canon(r)), np.abs(w), key, rtol=tol * 100, atol=tol, msg=msg)
        return
    if np.prod(w.shape) == 1:
        ctx.close(np.ravel(np.asarray(r)), np.ravel(w), key, rtol=tol, atol=tol * 10, msg=msg)
        return
    scale = {'dot': 1000, 'cross': 1000, 'mul': 100, 'calc_beta': 10}.get(op, 100)
    rt = tol * (100 if op in ('project', 'project_vector', 'normalize', 'calc_beta') else 1)
    gen.check_field(ctx, r, gen.Model(w, ma.axes, ma.center, nout), key, exact=False,
                    rtol=rt, atol=tol * scale, msg=msg)


def diff_axis(v, x, ax, bnd):
    """centered differences along an axis, one-sided at the edges"""
    v = np.moveaxis(v, ax, 0)
    sh = (-1,) + (1,) * (v.ndim - 1)
    x = x.astype('f8')
    if bnd:
        v = np.concatenate([v[:1], v, v[-1:]])
        x = np.concatenate([x[:1], x, x[-1:]])
    r = (v[2:] - v[:-2]) / (x[2:] - x[:-2]).reshape(sh)
    return np.moveaxis(r, 0, ax)


def inner(v, skip=None):
    """interior along the three axes apart from `skip`"""
    sl = [slice(1, -1)] * 3
    if skip is not None:
        sl[skip] = slice(None)
    return v[tuple(sl)]


def deriv(v, crds, ax, bnd):
    if bnd:
        return diff_axis(v, crds[ax], ax, True)
    return inner(diff_axis(v, crds[ax], ax, False), skip=ax)


def grid_field(rng, ncomp, lo, **kw):
    sshape = [int(n) for n in rng.randint(lo, 7, size=3)]
    if rng.randint(4) == 0:
        sshape = [[3, 3, 3], [5, 5, 5], [3, 4, 4], [5, 3, 3]][rng.randint(4)]
    dt = ['f8', 'f8', 'f4'][rng.randint(3)]
    return gen.rand_field(rng, ndim=3, ncomp=ncomp, sshape=sshape, dtype=dt, names="xyz", **kw)


def sub_axes(m, bnd):
    """axes of the result"""
    if bnd:
        return m.axes
    out = []
    for a in m.axes:
        if m.center == 'node':
            out.append(gen.Axis(a.name, a.nc[1:-1]))
        else:
            out.append(gen.Axis(a.name, a.nc[1:-1], cc=a.cc[1:-1]))
    return out


def dtol(m, vals):
    dx = min(np.min(np.diff(c)) for c in m.crds())
    return tol_of(m.vals.dtype) * (np.max(np.abs(vals)) + 1e-30) / dx * 10


def scen_derivs(ctx, rng):
    """grad, div, curl against centered differences"""
    import viscid
    op = ['grad', 'div', 'curl'][rng.randint(3)]
    b = BACK[rng.randint(3)]
    bnd = bool(rng.randint(2))
    f, m, d = grid_field(rng, 0 if op == 'grad' else 3, 2 if bnd else 3)
    snap = gen.snapshot(f)
    V = m.vals.astype('f8')
    crds = m.crds()
    kw = kw_of(b)
    default = bnd and rng.randint(2)
    r = getattr(viscid, op)(f, **(kw if default else dict(kw, bnd=bnd)))
    if op == 'grad':
        w = np.stack([deriv(V, crds, i, bnd) for i in range(3)], axis=-1)
    else:
        J = np.stack([np.stack([deriv(V[..., c], crds, i, bnd) for i in range(3)], axis=-1)
                      for c in range(3)], axis=-2)    # J[..., comp, dim]
        if op == 'div':
            w = J[..., 0, 0] + J[..., 1, 1] + J[..., 2, 2]
        else:
            w = np.stack([J[..., 2, 1] - J[..., 1, 2], J[..., 0, 2] - J[..., 2, 0],
                          J[..., 1, 0] - J[..., 0, 1]], axis=-1)
    key = "derivs/" + op
    msg = lambda: "%s bnd=%s %s" % (b, bnd, d)
    gen.check_unchanged(ctx, f, snap, key + "/operand")
    ctx.saw(op, b, bnd, d['center'], d['layout'], d['dtype'], d['order'], d['crd_type'], tuple(d['sshape']))
    ctx.count("derivs_%s_%s" % (op, b))
    if w.size == 1:
        ctx.close(np.ravel(np.asarray(r)), np.ravel(w), key, rtol=1e-5, atol=dtol(m, V), msg=msg)
        return
    gen.check_field(ctx, r, gen.Model(w, sub_axes(m, bnd), m.center, 3 if op != 'div' else 0), key,
                    exact=False, rtol=tol_of(d['dtype']), atol=dtol(m, V), msg=msg,
                    scale=max(np.max(np.abs(c)) for c in crds))


def scen_convective(ctx, rng):
    """(a . grad) b"""
    import viscid
    bnd = bool(rng.randint(2))
    same = bool(rng.randint(2))
    ncb = 3 if same else int([0, 3][rng.randint(2)])
    fa, ma, fb, mb, d = two_fields(rng, 3, ncb, ndim=3, lo=2 if bnd else 3,
                                   dtype=['f8', 'f4'][rng.randint(2)])
    if min(d['sshape']) < (2 if bnd else 3):
        raise Skip()
    if same:
        fb, mb = fa, ma
    A, B = ma.vals.astype('f8'), mb.vals.astype('f8')
    crds = ma.crds()
    sa, sb = gen.snapshot(fa), gen.snapshot(fb)
    r = viscid.convective_deriv(fa, bnd=bnd) if same else viscid.convective_deriv(fa, fb, bnd=bnd)
    Ai = A if bnd else inner(A)
    if ncb:
        w = np.stack([sum(Ai[..., i] * deriv(B[..., c], crds, i, bnd) for i in range(3))
                      for c in range(3)], axis=-1)
    else:
        w = sum(Ai[..., i] * deriv(B, crds, i, bnd) for i in range(3))
    msg = lambda: "bnd=%s same=%s %s" % (bnd, same, d)
    gen.check_unchanged(ctx, fa, sa, "convective/operand")
    gen.check_unchanged(ctx, fb, sb, "convective/operand")
    ctx.saw(bnd, same, ncb, d['center'], d['dtype'], tuple(d['layouts']), tuple(d['sshape']))
    tol = dtol(mb, B) * 60
    if w.size == 1:
        ctx.close(np.ravel(np.asarray(r)), np.ravel(w), "convective", rtol=1e-5, atol=tol, msg=msg)
        return
    gen.check_field(ctx, r, gen.Model(w, sub_axes(ma, bnd), ma.center, ncb), "convective", exact=False,
                    rtol=tol_of(d['dtype']), atol=tol, msg=msg, scale=max(np.max(np.abs(c)) for c in crds))


def pad_ref(v, nl, nh, ax, order):
    v = np.moveaxis(v, ax, 0)
    lo, hi = [], []
    for j in range(1, nl + 1):
        lo.insert(0, v[0] if order == 0 else v[0] - j * (v[1] - v[0]))
    for j in range(1, nh + 1):
        hi.append(v[-1] if order == 0 else v[-1] + j * (v[-1] - v[-2]))
    return np.moveaxis(np.array(lo + list(v) + hi), 0, ax)


def scen_extend(ctx, rng):
    """extending boundaries: values kept, padded by repetition or linearly"""
    import viscid
    f, m, d = gen.rand_field(rng, lo=2, hi=6, dtype=['f8', 'f4'][rng.randint(2)], names="xyz",
                             ncomp=int([0, 3, 2][rng.randint(3)]))
    nd = len(m.axes)
    nl, nh = int(rng.randint(0, 4)), int(rng.randint(0, 4))
    order, co = int(rng.randint(2)), int(rng.randint(2))
    which = [i for i in range(nd) if rng.randint(3)] or [0]
    names = [m.axes[i].name for i in which]
    arg = ['all', which, names, "".join(names)][rng.randint(4)]
    if isinstance(arg, str) and arg == 'all':
        which = list(range(nd))
    if any(len(a.cc) < 2 or len(a.nc) < 2 for a in m.axes):
        raise Skip()
    snap = gen.snapshot(f)
    r = viscid.extend_boundaries(f, nl=nl, nh=nh, axes=arg, order=order, crd_order=co)
    w = m.vals.astype('f8')
    axes = []
    for i, a in enumerate(m.axes):
        if i in which:
            w = pad_ref(w, nl, nh, i, order)
            axes.append(gen.Axis(a.name, pad_ref(a.nc, nl, nh, 0, co), cc=pad_ref(a.cc, nl, nh, 0, co)))
        else:
            axes.append(a)
    msg = lambda: "nl %s nh %s axes %s order %s %s %s" % (nl, nh, arg, order, co, d)
    gen.check_unchanged(ctx, f, snap, "extend/operand")
    gen.check_field(ctx, r, gen.Model(w, axes, m.center, m.ncomp), "extend", exact=False,
                    rtol=tol_of(d['dtype']), atol=tol_of(d['dtype']) * 100, msg=msg, crds='both')
    ctx.saw(nl, nh, str(arg), order, co, d['center'], d['ncomp'], d['layout'], tuple(d['sshape']))


def scen_extend_array(ctx, rng):
    """the same for plain arrays"""
    import viscid
    nd = int(rng.randint(1, 4))
    shape = [int(n) for n in rng.randint(1, 6, size=nd)]
    comp = int(rng.randint(0, nd + 1)) if rng.randint(2) else None
    full = list(shape)
    if comp is not None:
        full.insert(comp, int(rng.randint(1, 5)))
    arr = gen.rand_vals(rng, full, ['f8', 'f4'][rng.randint(2)])
    if rng.randint(3) == 0:
        arr = np.asfortranarray(arr)
    which = [i for i in range(nd) if rng.randint(3)] or [0]
    nl, nh = int(rng.randint(0, 4)), int(rng.randint(0, 4))
    order = int(rng.randint(2))
    idx = float(rng.randint(0, 3))
    kw = {}
    if rng.randint(3):
        kw['axes'] = which if rng.randint(2) else tuple(which)
    else:
        which = list(range(nd))
        if rng.randint(2):
            kw['axes'] = 'all'
    if comp is not None:
        kw['nr_comp'] = comp
    if idx:
        kw['invarient_dx'] = idx
    ctx.note(shape=full, comp=comp, nl=nl, nh=nh, order=order, kw=repr(kw))
    arr0 = arr.copy()
    r = viscid.extend_boundaries_ndarr(arr, nl=nl, nh=nh, order=order, **kw)
    ctx.same(arr, arr0, "extend-array/operand")
    want = arr.astype('f8')
    inner = [slice(None)] * len(full)
    shp = list(full)
    for i in which:
        ax = i if comp is None or i < comp else i + 1
        inner[ax] = slice(nl, nl + full[ax])
        shp[ax] += nl + nh
    ctx.check(list(r.shape) == shp, "extend-array/shape", lambda: repr((r.shape, shp)))
    ctx.check(r.dtype == arr.dtype, "extend-array/dtype")
    for i in which:
        # the corners are not promised
        ax = i if comp is None or i < comp else i + 1
        sl = list(inner)
        sl[ax] = slice(None)
        n = full[ax]
        if n > 1:
            w = pad_ref(want, nl, nh, ax, order)
        else:
            w = np.concatenate([want - idx * j for j in range(nl, 0, -1)] + [want] +
                               [want + idx * (j + 1) for j in range(nh)], axis=ax)
            if not (order == 1 or idx == 0):
                continue
        t = 1e-4 if arr.dtype == np.dtype('f4') else 1e-11
        ctx.close(np.asarray(r[tuple(sl)], 'f8'), w, "extend-array/values", rtol=t, atol=t * 100)
    ctx.saw(tuple(full), comp, nl, nh, order, repr(sorted(kw)))


def scen_staggered(ctx, rng):
    """fc2cc, ec2cc, div_fc use the faces / edges of the cell they are at"""
    import viscid
    what = ['fc2cc', 'ec2cc', 'div_fc', 'div'][rng.randint(4)]
    sshape = [int(n) for n in rng.randint(2 if 'div' in what else 1, 7, size=3)]
    mode = ['plain', 'leading', 'trailing'][rng.randint(3)]
    if mode != 'plain':
        sshape = [max(n, 3) if n > 1 else 1 for n in sshape]
        if 'div' in what:
            sshape = [max(n, 3) for n in sshape]
    if rng.randint(4) == 0:
        sshape = [4, 4, 4] if mode == 'plain' else [5, 5, 5]
    if rng.randint(5) == 0:
        sshape = [3, 3, 3]
    if np.prod(sshape) == 1:
        raise Skip()
    dt = ['f8', 'f8', 'f4'][rng.randint(3)]
    axes = gen.rand_axes(rng, sshape, 'cell', names="xyz")
    m = gen.Model(gen.rand_vals(rng, sshape + [3], dt), axes, 'cell', 3)
    lay = LAY[rng.randint(2)]
    if np.prod([n if n == 1 else n - (1 if mode == 'plain' else 2) for n in sshape]) <= 1:
        raise Skip()
    f = gen.make_field(rng, m, layout=lay, crd_type=['AUTO', 'nonuniform'][rng.randint(2)])
    f.center = 'edge' if what == 'ec2cc' else 'face'
    stag, flip = [0, 0, 0], [False, False, False]
    if mode != 'plain':
        f.set_info(viscid.PREPROCESSED_KEY, False)
        stag = [0 if mode == 'leading' else 1] * 3
        flip = [bool(rng.randint(2)) for _ in range(3)]
        f.set_info(viscid.STAGGER_KEY, stag)
        f.set_info(viscid.FLIP_KEY, flip)
    snap = np.array(f.data)
    bnd = bool(rng.randint(2))
    numpy = bool(rng.randint(2))
    kw = dict(bnd=bnd) if not bnd or rng.randint(2) else {}
    if what != 'div' and (numpy or rng.randint(2)):
        kw['force_numpy'] = numpy
    r = getattr(viscid, what)(f, **kw)
    V = m.vals.astype('f8')

    # where the lower and upper face of cell i are stored along axis d
    def lohi(d):
        trailing = bool(stag[d]) != bool(flip[d])
        return (-1, 0) if trailing else (0, 1)
    # cells for which both faces are there, and nothing is left over
    first = [0 if (n == 1 or mode == 'plain') else 1 for n in sshape]
    last = [n if n == 1 else n - 1 for n in sshape]    # exclusive
    cells = [np.arange(a, b) for a, b in zip(first, last)]
    shp = [len(c) for c in cells]
    W = np.zeros(shp + [3])
    for c in range(3):
        dims = [c] if what != 'ec2cc' else [k for k in range(3) if k != c]
        terms = [(cells[0], cells[1], cells[2])]
        acc = []
        for d in range(3):
            if d in dims and sshape[d] > 1:
                lo, hi = lohi(d)
                new = []
                for t in terms:
                    for k, o in enumerate((lo, hi)):
                        t2 = list(t)
                        t2[d] = t2[d] + o
                        new.append(tuple(t2))
                terms = new
        got = [V[np.ix_(*t)][..., c] for t in terms]
        if what in ('div', 'div_fc'):
            dx = np.diff(axes[c].nc.astype('f8'))[cells[c]]
            sh = [1, 1, 1]
            sh[c] = -1
            W[..., c] = (got[1] - got[0]) / dx.reshape(sh)
        else:
            W[..., c] = sum(got) / float(len(got))
    tol = tol_of(dt) * 100
    nout = 3
    if what in ('div', 'div_fc'):
        W = W.sum(axis=-1)
        nout = 0
        tol = tol_of(dt) * 200 / min(np.min(np.diff(a.nc)) for a in axes)
    msg = lambda: "%s %s stag %s flip %s %s %s bnd %s" % (what, sshape, stag, flip, lay, dt, bnd)
    key = "staggered/" + what
    ctx.same(np.array(f.data), snap, key + "/operand", msg)
    ctx.saw(what, mode, tuple(flip), lay, dt, bnd, numpy, tuple(sshape))
    d = gen.canon(r)
    if not hasattr(r, 'crds'):
        ctx.close(np.ravel(d), np.ravel(W), key, rtol=1e-5, atol=tol, msg=msg)
        return
    if bnd:     # the padding is documented to be a stand-in
        d = d[1:-1, 1:-1, 1:-1]
    ctx.close(d, W, key + "/values", rtol=tol_of(dt), atol=tol, msg=msg)
    ctx.check(r.center.lower() == 'cell', key + "/center", lambda: r.center)
    for k, a in enumerate(axes):
        c = np.asarray(r.get_crds()[k])
        if bnd:
            c = c[1:-1]
        gen.check_crd(ctx, c, a.cc[cells[k]], key + "/crds", np.max(np.abs(a.nc)), msg)


SCENARIOS = [
    Scenario("pointwise", scen_pointwise, quick=6000, thorough=120000, need=12000),
    Scenario("derivs", scen_derivs, quick=3000, thorough=60000, need=9000),
    Scenario("convective", scen_convective, quick=1200, thorough=24000, need=4000),
    Scenario("extend", scen_extend, quick=2500, thorough=50000, need=9000),
    Scenario("extend_array", scen_extend_array, quick=1000, thorough=20000, need=2500),
    Scenario("staggered", scen_staggered, quick=2500, thorough=50000, need=9000),
]

"""F06: reductions, integrals and axis changes keep values and grid together"""
import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen

PID = "F06"
TECHNIQUE = "runtime monitoring: every reduction, integral and axis change compared with numpy on a layout-free copy and with the coordinates of the remaining axes"
RULE = ("random fields (1-4 axes, node/cell centered, strided or re-centered, "
        "scalar or vector in either layout, loaded or not) reduced over any set "
        "of axes, integrated along every axis, transposed, swapped, extended, "
        "flattened, re-scaled and averaged; values, remaining coordinates, "
        "centering, and the unchanged source are checked")
ASSUMPTIONS = ["axis=None for cumulative operations is numpy's flat result and "
               "left out; the coordinate given to an axis kept with length one "
               "is not specified"]

RED = ['any', 'all', 'max', 'min', 'mean', 'prod', 'ptp', 'std', 'sum', 'argmax', 'argmin']
SAME = ['cumsum', 'cumprod', 'argsort', 'round', 'conj', 'conjugate', 'clip']
DT = ['f8', 'f8', 'f4', 'i4', 'c16']


def tol(dt):
    k = np.dtype(dt)
    if k.kind in 'fc' and k.itemsize // (2 if k.kind == 'c' else 1) == 4:
        return 2e-5
    return 1e-11


UNIT = gen.UNIT
_has_units = [False, {}]


def base(rng, ncomp=None, dtype='f8', lo=1, hi=5, ndim=None, **kw):
    """random field, sometimes with cell centers that aren't halfway"""
    names = [list("xyzuvw"), list("uvwxyz"), list("yxzwvu"), list("zxyuvw")][rng.randint(4)]
    f, m, d = gen.rand_field(rng, dtype=dtype, ncomp=ncomp, lo=lo, hi=hi, ndim=ndim,
                             names=names, time=float(rng.randint(0, 100)), **kw)
    _has_units[:] = [m.axes[0].unit != '', dict((a.name, UNIT.format(a.name)) for a in m.axes)]
    d['units'] = _has_units[0]
    how = rng.randint(6)
    if m.vals.size == 1:
        how = 5
    if how == 0:
        step = int(rng.randint(2, 4))
        i = int(rng.randint(len(m.axes)))
        sel = [slice(None)] * len(m.axes)
        sel[i] = slice(None, None, step)
        if m.vals[tuple(sel)].size > 1:
            f = f[tuple(sel)]
            m = strided(m, sel, i)
            d['variant'] = ('strided', i, step)
    elif how == 1:
        other = 'cell' if m.center == 'node' else 'node'
        pts = m.crds()
        f = f.as_centered(other)
        m = gen.Model(m.vals, [gen.Axis(a.name, p, cc=p) for a, p in zip(m.axes, pts)],
                      other, m.ncomp)
        d['variant'] = 'recentered'
    return f, m, d


def strided(m, sel, i):
    ax = list(m.axes)
    a = ax[i]
    pts = (a.nc if m.center == 'node' else a.cc)[sel[i]]
    ax[i] = gen.Axis(a.name, pts, cc=pts)
    return gen.Model(m.vals[tuple(sel)], ax, m.center, m.ncomp)


def to_data_axis(m, f, ax):
    """axis of the field's data array for canonical axis ax"""
    if not m.ncomp:
        return ax
    nd = len(m.axes)
    if f.layout == 'flat':
        return 0 if ax == nd else ax + 1
    return ax


def expect(ctx, got, m, key, scale=0.0, rtol=1e-12, atol=0.0, msg=""):
    if m.vals.size == 1:
        g = np.asarray(got.data if hasattr(got, 'crds') else got)
        ctx.close(g.reshape(()), m.vals.reshape(()), key + "/number", rtol=rtol, atol=atol, msg=msg)
        return
    if _has_units[0] and hasattr(got, 'crds'):
        # an axis keeps its unit, wherever it goes
        ctx.check(all(u == _has_units[1].get(a, u) for a, u in zip(got.crds.axes, got.crds.units)),
                  key + "/units",
                  lambda: "%s of axes %s %s" % (got.crds.units, got.crds.axes, msg if not callable(msg) else msg()))
    gen.check_field(ctx, got, m, key, exact=False, rtol=rtol, atol=atol, scale=scale, msg=msg)


def span(m):
    return 10 * max(max(np.max(np.abs(a.nc)) for a in m.axes), 1.0)


# ------------------------------------------------------------------ reductions
def scen_reduce(ctx, rng):
    dt = DT[rng.randint(len(DT))]
    op = RED[rng.randint(len(RED))]
    if dt == 'c16' and op in ('max', 'min', 'ptp', 'argmax', 'argmin'):
        dt = 'f8'
    f, m, d = base(rng, dtype=dt)
    nd = len(m.axes)
    ntot = nd + (1 if m.ncomp else 0)
    if op == 'prod' and dt == 'i4':
        f = f * 0 + 1 + (f > 0)
        m = gen.Model(2 * 0 * m.vals + 1 + (m.vals > 0), m.axes, m.center, m.ncomp)
    if not hasattr(f, 'crds'):
        raise Skip()
    snap = gen.snapshot(f)
    multi = op not in ('argmax', 'argmin', 'ptp')
    k = rng.randint(5)
    if k == 0:
        axes = None
    elif multi and k >= 3 and ntot > 1:
        n = rng.randint(1, ntot + 1)
        axes = sorted(rng.choice(ntot, size=n, replace=False).tolist())
    else:
        axes = [int(rng.randint(ntot))]
    kd = [None, None, True, False][rng.randint(4)]
    if op == 'ptp' and kd is not None:
        kd = None
    kw = {}
    if kd is not None:
        kw['keepdims'] = kd
    ref = getattr(np, op)
    if axes is None:
        want = ref(m.vals)
        if kd and op not in ('argmax', 'argmin'):
            kw.pop('keepdims')
        kw.pop('keepdims', None)
        viafn = rng.randint(2)
        got = ref(f) if viafn else getattr(f, op)(**kw)
        if op in ('argmax', 'argmin'):
            # indices into the flat data array of the field itself
            g = int(np.asarray(got))
            ctx.same(np.asarray(f.data).ravel()[g], getattr(np, op[3:])(m.vals),
                     "reduce/all/" + op)
        else:
            ctx.close(np.asarray(getattr(got, 'data', got)).reshape(()), want,
                      "reduce/all/" + op, rtol=tol(dt), atol=tol(dt) * (1 + np.sum(np.abs(m.vals))))
        gen.check_unchanged(ctx, f, snap, "reduce/source")
        ctx.saw(op, 'all', d['center'], d['ncomp'], dt)
        return
    daxes = [to_data_axis(m, f, a) for a in axes]
    neg = [a - ntot if rng.randint(2) else a for a in daxes]
    arg = neg[0] if len(neg) == 1 and rng.randint(2) else tuple(neg)
    if op in ('argmax', 'argmin', 'ptp'):
        arg = neg[0]
    viafn = rng.randint(3) == 0
    if viafn:
        got = ref(f, axis=arg, **kw)
    else:
        got = getattr(f, op)(axis=arg, **kw)
    raxes = tuple(axes) if len(axes) > 1 else axes[0]
    want = np.asarray(ref(m.vals, axis=raxes))
    keep = kd if kd is not None else (not m.ncomp)
    comp_red = m.ncomp and nd in axes
    sred = [a for a in axes if a < nd]
    axs, wv = [], want
    for i, a in enumerate(m.axes):
        if i in sred:
            if keep:
                axs.append(None)
        else:
            axs.append(a)
    ncomp = 0 if comp_red else m.ncomp
    if keep:
        wv = want
        for i in sorted(sred):
            wv = np.expand_dims(wv, i)
    sc = np.sum(np.abs(m.vals)) + 1
    at = tol(dt) * sc if op not in ('prod',) else 0.0
    rt = tol(dt) * 100
    tag = lambda: "%s axes=%s arg=%s kw=%s fn=%s %s" % (op, axes, arg, kw, viafn, d)
    if wv.size == 1 or (not axs):
        g = np.asarray(getattr(got, 'data', got))
        ctx.close(np.sort(g.ravel()), np.sort(wv.ravel()), "reduce/point/" + op,
                  rtol=rt, atol=at, msg=tag)
    else:
        ctx.check(hasattr(got, 'crds'), "reduce/type", lambda: "%r %s" % (type(got), tag()))
        full = []
        for i, a in enumerate(axs):
            if a is None:
                full.append(gen.Axis(got.crds.axes[i], got.get_crd_nc(i), cc=got.get_crd_cc(i)))
                ctx.check(got.sshape[i] == 1, "reduce/kept", tag)
            else:
                full.append(a)
        names = [a.name for a in m.axes if True]
        wn = [n for i, n in enumerate(names) if i not in sred or keep]
        ctx.check(list(got.crds.axes) == wn, "reduce/axes", lambda: "%s %s %s" % (got.crds.axes, wn, tag()))
        gen.check_field(ctx, got, gen.Model(wv, full, m.center, ncomp), "reduce/" + op,
                        exact=False, rtol=rt, atol=at, scale=span(m), msg=tag)
        ctx.check(got.time == f.time, "reduce/time")
    gen.check_unchanged(ctx, f, snap, "reduce/source")
    ctx.saw(op, tuple(axes), str(kd), d['center'], d['ncomp'], d['layout'], dt, viafn, nd)


def scen_same(ctx, rng):
    """operations that keep the shape"""
    dt = DT[rng.randint(len(DT))]
    op = SAME[rng.randint(len(SAME))]
    if dt == 'c16' and op in ('clip', 'argsort'):
        dt = 'f8'
    f, m, d = base(rng, dtype=dt)
    nd = len(m.axes)
    ntot = nd + (1 if m.ncomp else 0)
    snap = gen.snapshot(f)
    rt = tol(dt) * 100
    at = tol(dt) * (np.sum(np.abs(m.vals)) + 1)
    if op in ('cumsum', 'cumprod', 'argsort'):
        ax = int(rng.randint(ntot))
        da = to_data_axis(m, f, ax)
        if rng.randint(2):
            da -= ntot
        got = getattr(f, op)(axis=da) if rng.randint(2) else getattr(np, op)(f, axis=da)
        want = getattr(np, op)(m.vals, axis=ax)
        if op == 'cumprod':
            rt, at = max(rt, 1e-9 if dt != 'f4' else 1e-3), 0.0
    elif op == 'round':
        n = int(rng.randint(-1, 3))
        got = f.round(n) if rng.randint(2) else np.round(f, n)
        want = np.round(m.vals, n)
    elif op == 'clip':
        lo, hi = sorted(rng.uniform(-10, 10, size=2))
        if dt == 'i4':
            lo, hi = int(lo), int(hi) + 1
        k = rng.randint(3)
        if k == 0:
            got = f.clip(lo, hi)
        elif k == 1:
            got = np.clip(f, lo, hi)
        else:
            got = f.clip(max=hi)
            lo = None
        want = np.clip(m.vals, lo, hi)
    else:
        got = getattr(f, op)()
        want = m.vals.conj()
    expect(ctx, got, gen.Model(want, m.axes, m.center, m.ncomp), "same/" + op,
           scale=span(m), rtol=rt, atol=at, msg=lambda: str(d))
    gen.check_unchanged(ctx, f, snap, "same/source")
    ctx.saw(op, d['center'], d['ncomp'], d['layout'], dt, nd)


# ------------------------------------------------------------------ integrals
def ref_trapz(v, x, ax):
    v = np.moveaxis(v, ax, -1)
    out = np.zeros(v.shape[:-1], dtype=np.result_type(v.dtype, 'f8'))
    for i in range(v.shape[-1] - 1):
        out = out + 0.5 * (x[i + 1] - x[i]) * (v[..., i] + v[..., i + 1])
    return out


def ref_cumtrapz(v, x, ax):
    v = np.moveaxis(v, ax, -1)
    out = np.zeros(v.shape, dtype=np.result_type(v.dtype, 'f8'))
    for i in range(1, v.shape[-1]):
        out[..., i] = out[..., i - 1] + 0.5 * (x[i] - x[i - 1]) * (v[..., i] + v[..., i - 1])
    return np.moveaxis(out, -1, ax)


def scen_integrate(ctx, rng):
    dt = DT[rng.randint(len(DT))]
    f, m, d = base(rng, dtype=dt)
    nd = len(m.axes)
    snap = gen.snapshot(f)
    i = int(rng.randint(nd))
    how = rng.randint(4)
    arg = [m.axes[i].name, i, i - nd, np.int64(i)][how]
    kw = dict(axis=arg)
    if i == nd - 1 and rng.randint(4) == 0:
        kw = {}
    x = m.crds()[i].astype('f8')
    v = m.vals
    fudge = rng.randint(3)
    shp = [1] * v.ndim
    shp[i] = -1
    if fudge == 1:
        kw['fudge_factor'] = lambda dat, crd: np.sin(crd)
        v = v * np.sin(x).reshape(shp)
    elif fudge == 2:
        kw['fudge_factor'] = lambda dat, crd: dat * crd
        v = v * (v * x.reshape(shp))
    rt = 1e-4 if dt == 'f4' else 1e-9
    at = (1e-4 if dt == 'f4' else 1e-10) * (np.sum(np.abs(v)) * (1 + np.ptp(x)) + 1e-300)
    cum = rng.randint(2)
    tag = lambda: "%s %s fudge=%d %s" % (arg, kw.keys(), fudge, d)
    if cum:
        got = f.cumtrapz(**kw)
        want = gen.Model(ref_cumtrapz(v, x, i), m.axes, m.center, m.ncomp)
        expect(ctx, got, want, "cumtrapz", scale=span(m), rtol=rt, atol=at, msg=tag)
    else:
        got = f.trapz(**kw)
        w = ref_trapz(v, x, i)
        if nd == 1:
            ctx.close(np.asarray(getattr(got, 'data', got)).ravel(), np.ravel(w), "trapz/1d",
                      rtol=rt, atol=at, msg=tag)
        elif w.size == 1:
            ctx.close(np.asarray(getattr(got, 'data', got)).ravel(), np.ravel(w), "trapz/point",
                      rtol=rt, atol=at, msg=tag)
        else:
            axs = [a for j, a in enumerate(m.axes) if j != i]
            expect(ctx, got, gen.Model(w, axs, m.center, m.ncomp), "trapz",
                   rtol=rt, atol=at, scale=span(m), msg=tag)
    gen.check_unchanged(ctx, f, snap, "integrate/source")
    ctx.saw(cum, how, fudge, nd, i, d['center'], d['ncomp'], d['layout'], dt, str(d.get('variant')))


# ------------------------------------------------------------------ axis changes
def lazy(rng, m):
    """a field whose data isn't loaded, or is stored in reversed axis order"""
    import viscid
    from viscid import field
    crds = gen.make_crds(m.axes)
    k = rng.randint(3)
    t = gen.TIMES.pop()
    gen.TIMES.add(t)
    if not m.ncomp:
        if k == 0:
            dat = m.vals.T.copy()
            return viscid.wrap_field(dat, crds, name='q', center=m.center, time=t, zyx_native=True)
        return viscid.wrap_field(m.vals.copy(), crds, name='q', center=m.center, time=t)
    if k == 0:
        comps = [viscid.wrap_field(m.vals[..., c].copy(), crds, name='q%d' % c, center=m.center, time=t)
                 for c in range(m.ncomp)]
        return viscid.scalar_fields_to_vector(comps, name='q')
    if k == 1:
        comps = [viscid.wrap_field(m.vals[..., c].T.copy(), crds, name='q%d' % c, center=m.center, time=t,
                                   zyx_native=True) for c in range(m.ncomp)]
        return viscid.scalar_fields_to_vector(comps, name='q')
    return viscid.wrap_field(np.moveaxis(m.vals, -1, 0).copy(), crds, name='q', center=m.center, time=t,
                             fldtype='vector', _src_layout='flat')


def perm_model(m, perm):
    vals = np.transpose(m.vals, list(perm) + ([len(m.axes)] if m.ncomp else []))
    return gen.Model(vals, [m.axes[i] for i in perm], m.center, m.ncomp)


def scen_axes(ctx, rng):
    from viscid import coordinate
    f, m, d = base(rng, dtype=['f8', 'f4', 'i4'][rng.randint(3)], lo=1)
    if m.vals.size == 1:
        raise Skip()
    if rng.randint(3) == 0 and 'variant' not in d:
        f = lazy(rng, m)
        d['variant'] = 'lazy'
        d['layout'] = None
        snap = None
    else:
        snap = gen.snapshot(f)
    nd = len(m.axes)
    ntot = nd + (1 if m.ncomp else 0)
    names = [a.name for a in m.axes]
    op = ['transpose', 'T', 'transpose_crds', 'TC', 'swapaxes', 'swap_crd', 'np',
          'atleast_3d', 'atmost', 'adjust', 'contig', 'astype', 'downsample'][rng.randint(13)]
    tag = lambda: "%s %s %s" % (op, d, names)
    sc = span(m)
    if op in ('transpose', 'T', 'np', 'swapaxes'):
        # permutation of the data array's axes with the components at an end
        lay = f.layout
        sdat = list(range(1, ntot)) if (m.ncomp and lay == 'flat') else list(range(nd))
        cdat = (0 if lay == 'flat' else nd) if m.ncomp else None
        if op in ('T',) or (op == 'np' and rng.randint(2)):
            daxes = list(range(ntot))[::-1]
            got = f.T if op == 'T' else np.transpose(f)
        elif op == 'swapaxes':
            if m.ncomp:
                a, b = rng.choice(sdat, size=2) if rng.randint(3) else (0, ntot - 1)
                if (cdat in (a, b)) and not (a, b) == (0, ntot - 1):
                    raise Skip()
            else:
                a, b = rng.randint(0, ntot, size=2)
            daxes = list(range(ntot))
            daxes[a], daxes[b] = b, a
            na, nb = [int(v - ntot) if rng.randint(2) else int(v) for v in (a, b)]
            got = f.swapaxes(na, nb)
        else:
            perm = list(rng.permutation(nd))
            daxes = [sdat[p] for p in perm]
            if m.ncomp:
                if rng.randint(2):
                    daxes.insert(0, cdat)
                else:
                    daxes.append(cdat)
            arg = [int(a - ntot) if rng.randint(3) == 0 else int(a) for a in daxes]
            k = rng.randint(3)
            if op == 'np':
                got = np.transpose(f, arg)
            elif k == 0:
                got = f.transpose(arg)
            elif k == 1:
                got = f.transpose(tuple(arg))
            else:
                got = f.transpose(*arg)
        perm = [sdat.index(a) for a in daxes if a != cdat]
        expect(ctx, got, perm_model(m, perm), "axes/" + op, scale=sc, msg=tag)
        ctx.check(np.asarray(got.data).shape == tuple(np.asarray(f.data).shape[a] for a in daxes),
                  "axes/%s/shape" % op, tag)
        if m.ncomp:
            ctx.check(got.layout == ('flat' if daxes[0] == cdat else 'interlaced'),
                      "axes/%s/layout" % op, lambda: "%s %s" % (got.layout, tag()))
    elif op in ('transpose_crds', 'TC'):
        if op == 'TC':
            perm = list(range(nd))[::-1]
            got = [lambda: f.TC, lambda: f.ST, lambda: f.transpose_crds(),
                   lambda: f.spatial_transpose()][rng.randint(4)]()
        else:
            perm = list(rng.permutation(nd))
            arg = [names[p] if rng.randint(2) else int(p) for p in perm]
            got = f.transpose_crds(*arg)
        expect(ctx, got, perm_model(m, perm), "axes/" + op, scale=sc, msg=tag)
        if m.ncomp:
            ctx.check(got.layout == f.layout, "axes/%s/layout" % op, tag)
    elif op == 'swap_crd':
        a, b = rng.randint(0, nd, size=2)
        perm = list(range(nd))
        perm[a], perm[b] = b, a
        arg = [names[i] if rng.randint(2) else int(i) for i in (a, b)]
        got = f.swap_crd_axes(*arg)
        expect(ctx, got, perm_model(m, perm), "axes/swap_crd", scale=sc, msg=tag)
    elif op == 'atleast_3d':
        xl, xh = sorted(rng.uniform(-3, 3, size=2))
        kw = {} if rng.randint(2) else dict(xl=xl, xh=xh)
        if not kw:
            xl, xh = -1, 1
        got = f.atleast_3d(**kw)
        ctx.check(got.nr_sdims == max(3, nd), "axes/atleast_3d/ndims", tag)
        ctx.check([a for a in got.crds.axes if a in names] == names, "axes/atleast_3d/order", tag)
        vals, axs = m.vals, []
        for i, n in enumerate(got.crds.axes):
            if n in names:
                axs.append(m.axes[names.index(n)])
            else:
                vals = np.expand_dims(vals, i)
                nc = np.array([xl, xh]) if m.center == 'cell' else np.array([0.5 * (xl + xh)])
                axs.append(gen.Axis(n, nc))
        expect(ctx, got, gen.Model(vals, axs, m.center, m.ncomp), "axes/atleast_3d",
               scale=sc, msg=tag)
        if set(names) <= set('xyz') and nd < 3 and names == sorted(names):
            ctx.check(list(got.crds.axes) == ['x', 'y', 'z'], "axes/atleast_3d/xyz",
                      lambda: str(got.crds.axes))
    elif op == 'atmost':
        n = int(rng.randint(1, nd + 1))
        got = f.atmost_nd(n)
        if not hasattr(got, 'crds'):
            ctx.check(m.vals.shape[:nd].count(1) >= nd - 1, "axes/atmost/number", tag)
            raise Skip()
        ctx.check(got.nr_sdims <= n, "axes/atmost/ndims", tag)
        sel, axs = [], []
        for a, c in zip(m.axes, m.crds()):
            if a.name in got.crds.axes:
                sel.append(slice(None))
                axs.append(a)
            else:
                k = int(np.argmin(np.abs(c)))
                # ties, or dropped for having a single point
                sel.append(k)
        alts = [m.vals[tuple(sel)]]
        ok = [np.array_equal(gen.canon(got), a) for a in alts]
        if not any(ok):
            near = [np.sort(np.abs(c))[:2] for c in m.crds() if len(c) > 1]
            if any(abs(b - a) <= 1e-9 * abs(b) for a, b in near):
                raise Skip()
        expect(ctx, got, gen.Model(alts[0], axs, m.center, m.ncomp), "axes/atmost",
               scale=sc, msg=tag)
    elif op == 'adjust':
        adj, fn = {}, {}
        k = rng.randint(3)
        if k == 0:
            s = float(rng.uniform(0.1, 3))
            fn = dict((n, (lambda x, s=s: s * x)) for n in names)
            arg = s
        else:
            for n in names:
                r = rng.randint(3)
                if r == 0:
                    s = float(rng.uniform(0.1, 3))
                    adj[n], fn[n] = s, (lambda x, s=s: s * x)
                elif r == 1:
                    s = float(rng.uniform(-3, 3))
                    adj[n] = fn[n] = (lambda x, s=s: x + s)
            arg = adj
        nm = None
        if rng.randint(2):
            new = [['r', 's', 't', 'q'][i] for i in range(nd)] if rng.randint(2) else names[1:] + names[:1]
            pick = [i for i in range(nd) if rng.randint(2)] if new[0] in 'rstq' else range(nd)
            nm = dict((names[i], new[i]) for i in pick)
        if d.get('variant') not in (None, 'lazy'):
            raise Skip()    # acts on the nodes only
        got = f.adjust_crds(arg, name_map=nm)
        axs = [gen.Axis((nm or {}).get(a.name, a.name), fn.get(a.name, lambda x: x)(a.nc))
               for a in m.axes]
        # units are those of the axes that were renamed
        _has_units[1] = dict(((nm or {}).get(n, n), UNIT.format(n)) for n in names)
        expect(ctx, got, gen.Model(m.vals, axs, m.center, m.ncomp), "axes/adjust", scale=sc,
               msg=lambda: "%s %s %s" % (tag(), arg, nm))
    elif op == 'contig':
        got = f.as_c_contiguous()
        ctx.check(got.data.flags['C_CONTIGUOUS'], "axes/contig/flag")
        expect(ctx, got, m, "axes/contig", scale=sc, msg=tag)
    elif op == 'astype':
        dt = ['f4', 'f8', 'i8', 'c16'][rng.randint(4)]
        got = f.astype(dt)
        ctx.check(got.dtype == np.dtype(dt), "axes/astype/dtype")
        expect(ctx, got, gen.Model(m.vals.astype(dt), m.axes, m.center, m.ncomp), "axes/astype",
               scale=sc, msg=tag)
    elif op == 'downsample':
        if m.ncomp or any(n < 2 for n in m.vals.shape) or d.get('variant') not in (None, 'lazy'):
            raise Skip()
        got = f.downsample()
        v, axs = m.vals.astype('f8'), []
        for i, a in enumerate(m.axes):
            n = 2 * (v.shape[i] // 2)
            v = 0.5 * (np.take(v, np.arange(0, n, 2), axis=i) + np.take(v, np.arange(1, n, 2), axis=i))
            if m.center == 'node':
                axs.append(gen.Axis(a.name, 0.5 * (a.nc[0:n:2] + a.nc[1:n:2])))
            else:
                axs.append(gen.Axis(a.name, a.nc[0:n + 1:2]))
        expect(ctx, got, gen.Model(v, axs, m.center, 0), "axes/downsample", scale=sc,
               rtol=1e-5 if d['dtype'] == 'f4' else 1e-12,
               atol=1e-4 if d['dtype'] == 'f4' else 1e-9, msg=tag)
    if snap is not None:
        gen.check_unchanged(ctx, f, snap, "axes/%s/source" % op)
    else:
        ctx.same(gen.canon(f), m.vals, "axes/%s/source" % op)
        ctx.check(list(f.crds.axes) == names, "axes/%s/source" % op)
    ctx.saw(op, d['center'], d['ncomp'], str(d['layout']), nd, tuple(m.vals.shape),
            str(d.get('variant')))


def scen_masked(ctx, rng):
    """reductions leave out what is masked, axis changes move the mask along"""
    f, m, desc = gen.masked_field(rng)
    nd = len(m.axes)
    if m.vals.mask.all():
        raise Skip()
    ctx.note(**desc)
    off = 1 if desc['ncomp'] and desc['layout'] == 'flat' else 0
    ax = int(rng.randint(nd))
    name = ['sum', 'mean', 'max', 'min', 'std', 'prod'][rng.randint(6)]
    with np.errstate(all='ignore'):
        want = getattr(m.vals, name)(axis=ax)
        if np.size(want) > 1:
            got = getattr(f, name)(axis=off + ax)
            v, k = gen.masked_values(got)
            if v.ndim == want.ndim + 1:     # the axis is kept
                v, k = np.squeeze(v, axis=ax), np.squeeze(k, axis=ax)
            gen.check_masked(ctx, np.ma.array(v, mask=k), want, "masked/" + name)
        tot = getattr(f, name)()
        ctx.close(np.asarray(tot, 'f8').reshape(-1), np.asarray([getattr(m.vals, name)()], 'f8'), "masked/total-" + name, rtol=1e-10)
    order = [int(i) for i in rng.permutation(nd)]
    t = f.transpose_crds(*[m.axes[i].name for i in order]) if nd > 1 else f
    want = m.vals.transpose(order + ([nd] if desc['ncomp'] else []))
    gen.check_masked(ctx, t, want, "masked/transpose")
    for lay in (['flat', 'interlaced'] if desc['ncomp'] else []):
        q = f.as_layout(lay)
        gen.check_masked(ctx, q, m.vals, "masked/as-" + lay)
        with np.errstate(all='ignore'):
            ctx.close(np.asarray(q.sum(), 'f8').reshape(-1), np.asarray([m.vals.sum()], 'f8'), "masked/sum-" + lay, rtol=1e-10, atol=1e-12)
    gen.check_masked(ctx, f.as_centered(['node', 'cell'][rng.randint(2)]), m.vals, "masked/recenter")
    gen.check_masked(ctx, f, m.vals, "masked/source")
    ctx.saw(desc['layout'], desc['ncomp'], name, ax, tuple(order))


SCENARIOS = [
    Scenario("masked", scen_masked, quick=600, thorough=15000),
    Scenario("reduce", scen_reduce, quick=12000, thorough=150000, need=20000),
    Scenario("same", scen_same, quick=4000, thorough=60000, need=8000),
    Scenario("integrate", scen_integrate, quick=7000, thorough=90000, need=15000),
    Scenario("axes", scen_axes, quick=12000, thorough=150000, need=25000),
]

"""Generators of grids and fields together with an independent model of them

The model of a field keeps the values in one canonical order, spatial axes
first and the component axis last, with plain numpy coordinate arrays.
"""
from __future__ import print_function
import numpy as np

COMP = "xyzuvw"
UNIT = "unit-{0}"
TIMES = set()       # of the fields made in this case, if all are known


class Axis(object):
    """node coordinates and what they imply; a unit of None isn't checked"""
    def __init__(self, name, nc, cc=None, unit=None):
        self.name = name
        self.unit = unit
        self.nc = np.asarray(nc)
        if cc is not None:
            self.cc = np.asarray(cc)
        elif len(self.nc) > 1:
            self.cc = 0.5 * (self.nc[1:] + self.nc[:-1])
        else:
            self.cc = self.nc.copy()


class Model(object):
    """vals: [spatial..., comp] for vectors, [spatial...] for scalars"""
    def __init__(self, vals, axes, center, ncomp):
        self.vals = vals
        self.axes = list(axes)
        self.center = center
        self.ncomp = ncomp      # 0: scalar

    def crds(self):
        return [a.nc if self.center == 'node' else a.cc for a in self.axes]


def rand_nc(rng, n, kind, scale=None, origin=None, dtype='f8'):
    """ascending node coordinates"""
    scale = scale or 10.0 ** rng.uniform(-1.5, 1.5)
    origin = rng.uniform(-3, 3) * scale if origin is None else origin
    if kind == 'int':
        nc = np.arange(n) + int(rng.randint(-5, 6))
    elif kind == 'uniform':
        dx = scale * rng.uniform(0.2, 2.0)
        nc = np.linspace(origin, origin + dx * max(n - 1, 0), n)
    elif kind == 'dyadic':    # exactly representable, friendly spacing
        dx = 2.0 ** rng.randint(-3, 3)
        nc = dx * (np.arange(n) + rng.randint(-8, 9))
    else:
        w = rng.uniform(0.3, 1.7, size=max(n - 1, 0)) * scale
        nc = origin + np.concatenate([[0.0], np.cumsum(w)])
    return np.asarray(nc, dtype=dtype)


def rand_axes(rng, sshape, center, names="xyzuvw", kind=None, dtype='f8'):
    axes = []
    for n, name in zip(sshape, names):
        k = kind or ['uniform', 'dyadic', 'stretched', 'stretched'][rng.randint(4)]
        axes.append(Axis(name, rand_nc(rng, n + (1 if center == 'cell' else 0),
                                       k, dtype=dtype), unit=''))
    if rng.randint(3) == 0:
        for a in axes:
            a.unit = UNIT.format(a.name)
    return axes


def rand_vals(rng, shape, dtype):
    dt = np.dtype(dtype)
    if dt.kind in 'iu':
        v = rng.randint(-1000 if dt.kind == 'i' else 0, 1000, size=shape)
    elif dt.kind == 'b':
        v = rng.randint(0, 2, size=shape)
    elif dt.kind == 'c':
        v = rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
    else:
        v = rng.standard_normal(shape) * 10
    v = np.asarray(v).astype(dt)
    return v


def rand_shape(rng, ndim, lo=1, hi=7, center='node', distinct=None):
    s = [int(rng.randint(lo, hi + 1)) for _ in range(ndim)]
    return s


def make_crds(axes, crd_type='AUTO'):
    from viscid import coordinate
    return coordinate.arrays2crds([a.nc for a in axes], crd_type=crd_type,
                                  crd_names=[a.name for a in axes],
                                  units=[a.unit or '' for a in axes])


def native(model, layout):
    """values in the memory layout of a viscid field"""
    v = model.vals
    if model.ncomp and layout == 'flat':
        v = np.moveaxis(v, -1, 0)
    return np.array(v, order='C')


def make_field(rng, model, layout='flat', name='fld', crd_type='AUTO',
               order='C', **kw):
    """a viscid field holding the model's values"""
    import viscid
    crds = make_crds(model.axes, crd_type)
    dat = native(model, layout)
    if order == 'F':
        dat = np.asfortranarray(dat)
    elif order == 'strided':
        big = np.zeros([2 * n for n in dat.shape], dtype=dat.dtype)
        view = big[tuple(slice(None, None, 2) for _ in dat.shape)]
        view[...] = dat
        dat = view
    elif order == 'swapped':        # the byte order of another machine
        dat = dat.astype(dat.dtype.newbyteorder())
    fldtype = 'vector' if model.ncomp else 'scalar'
    from viscid import field
    cls = field.field_type(fldtype)
    if model.ncomp:
        kw.setdefault('_src_layout', layout)
    kw.setdefault('time', 7.5)
    TIMES.add(kw['time'])
    return cls(name, crds, dat, center=model.center, **kw)


def rand_field(rng, ndim=None, center=None, ncomp=None, layout=None,
               dtype='f8', lo=1, hi=6, kind=None, crd_type=None, sshape=None,
               order=None, name='fld', names="xyzuvw", **kw):
    """returns (viscid field, model, description)"""
    ndim = ndim or int(rng.randint(1, 4))
    center = center or ['node', 'cell'][rng.randint(2)]
    if ncomp is None:
        ncomp = int([0, 0, 3, 2, 4][rng.randint(5)])
    layout = layout or ['flat', 'interlaced'][rng.randint(2)]
    sshape = sshape or rand_shape(rng, ndim, lo, hi)
    axes = rand_axes(rng, sshape, center, kind=kind, names=names)
    if crd_type is None:
        crd_type = ['AUTO', 'AUTO', 'nonuniform'][rng.randint(3)]
    order = order or ['C', 'C', 'F', 'strided', 'swapped'][rng.randint(5)]
    vals = rand_vals(rng, list(sshape) + ([ncomp] if ncomp else []), dtype)
    m = Model(vals, axes, center, ncomp)
    f = make_field(rng, m, layout=layout, crd_type=crd_type, order=order,
                   name=name, **kw)
    desc = dict(sshape=list(sshape), center=center, ncomp=ncomp,
                layout=layout if ncomp else 'scalar', dtype=str(dtype),
                crd_type=f.crds.crdtype, order=order)
    return f, m, desc


def masked_field(rng, ndim=None, ncomp=None):
    """a field of masked data, its values (component last) as numpy has them"""
    import viscid
    from viscid import field
    ndim = ndim or int(rng.randint(1, 4))
    if ncomp is None:
        ncomp = int([0, 0, 3, 2][rng.randint(4)])
    center = ['node', 'cell'][rng.randint(2)]
    layout = ['flat', 'interlaced'][rng.randint(2)]
    sshape = [int(n) for n in rng.permutation(np.arange(4, 9))[:ndim]]
    axes = rand_axes(rng, sshape, center)
    shape = sshape + ([ncomp] if ncomp else [])
    vals = np.ma.array(rng.uniform(-9, 9, size=shape).round(3), mask=rng.rand(*shape) < rng.choice([0.1, 0.4]))
    m = Model(vals, axes, center, ncomp)
    dat = vals if not ncomp or layout == 'interlaced' else np.ma.array(np.moveaxis(vals.data, -1, 0), mask=np.moveaxis(vals.mask, -1, 0))
    kw = dict(_src_layout=layout) if ncomp else {}
    f = field.field_type('vector' if ncomp else 'scalar')('m', make_crds(axes), dat.copy(), center=center, **kw)
    return f, m, dict(sshape=sshape, ncomp=ncomp, layout=layout, center=center, nmask=int(vals.mask.sum()))


def masked_values(fld):
    """(values, mask), component last, of a field or of what is left of one"""
    d = getattr(fld, 'data', fld) if hasattr(fld, 'crds') else fld
    d = np.ma.asarray(d)
    v, k = np.ma.getdata(d), np.ma.getmaskarray(d)
    if getattr(fld, 'nr_comps', 0) and fld.layout == 'flat':
        v, k = np.moveaxis(v, 0, -1), np.moveaxis(k, 0, -1)
    return v, k


def check_masked(ctx, fld, want, key, msg="", rtol=1e-12):
    """same points are masked, same values elsewhere"""
    v, k = masked_values(fld)
    wv, wk = np.ma.getdata(want), np.ma.getmaskarray(np.ma.asarray(want))
    ctx.check(v.shape == wv.shape, key + "/shape", lambda: "%s %s %s" % (v.shape, wv.shape, msg() if callable(msg) else msg))
    ctx.same(k, wk, key + "/mask", msg)
    ctx.close(np.where(wk, 0, v), np.where(wk, 0, wv), key + "/values", rtol=rtol, atol=1e-12, msg=msg)


def canon(fld):
    """values of a viscid field in canonical order (component last)"""
    d = np.asarray(fld.data)
    if fld.nr_comps:
        if fld.layout == 'flat':
            d = np.moveaxis(d, 0, -1)
    return d


def check_field(ctx, fld, model, key, exact=True, crds='own', axes=True,
                rtol=1e-12, atol=0.0, msg="", scale=0.0):
    """compare a viscid field with its model, values and coordinates

    crds: 'own' compares the coordinates the field's values sit at,
          'both' also the nodes of a cell-centered field
    """
    import viscid
    ctx.check(isinstance(fld, viscid.field.Field), key + "/type",
              lambda: "not a field: %r %s" % (type(fld), ctx._m(msg)))
    if axes:
        ctx.check(list(fld.crds.axes) == [a.name for a in model.axes],
                  key + "/axes", lambda: "%s != %s %s" % (
                      fld.crds.axes, [a.name for a in model.axes], ctx._m(msg)))
        ctx.check(all(a.unit is None or a.unit == u for a, u in zip(model.axes, fld.crds.units)),
                  key + "/units", lambda: "%s of axes %s %s" % (
                      fld.crds.units, fld.crds.axes, ctx._m(msg)))
    ctx.check(fld.center == model.center, key + "/center",
              lambda: "%s != %s %s" % (fld.center, model.center, ctx._m(msg)))
    ctx.check(int(fld.nr_comps) == model.ncomp, key + "/ncomps",
              lambda: "%s != %s %s" % (fld.nr_comps, model.ncomp, ctx._m(msg)))
    ctx.check(not TIMES or fld.time in TIMES, key + "/time",
              lambda: "%s, the fields' times are %s %s" % (fld.time, TIMES, ctx._m(msg)))
    c = canon(fld)
    if exact:
        ctx.same(c, model.vals, key + "/values", msg)
    else:
        ctx.close(c, model.vals, key + "/values", rtol=rtol, atol=atol, msg=msg)
    ctx.check(tuple(fld.shape) == tuple(np.shape(fld.data)), key + "/shape",
              lambda: "%s != %s" % (fld.shape, np.shape(fld.data)))
    got = fld.get_crds()
    for g, w, a in zip(got, model.crds(), model.axes):
        sc = max(np.max(np.abs(a.nc)) if len(a.nc) else 0.0, scale)
        check_crd(ctx, g, w, key + "/crds", sc, msg)
    if crds == 'both':
        for g, a in zip(fld.crds.get_crds_nc(), model.axes):
            sc = np.max(np.abs(a.nc)) if len(a.nc) else 0.0
            check_crd(ctx, g, a.nc, key + "/nodes", sc, msg)


def check_crd(ctx, got, want, key, scale, msg="", rtol=1e-12):
    got, want = np.asarray(got), np.asarray(want)
    if want.dtype.kind in 'mM' or got.dtype.kind in 'mM':
        ctx.same(got, want, key, msg)
    else:
        if got.dtype == np.float32 or want.dtype == np.float32:
            rtol = max(rtol, 3e-6)
        ctx.close(got, want, key, rtol=rtol, atol=rtol * (scale + 1e-300), msg=msg)


def snapshot(fld):
    """what an operation must not change"""
    return (np.array(fld.data, copy=True), [np.array(c) for c in fld.crds.get_crds_nc()],
            [np.array(c) for c in fld.crds.get_crds_cc()], list(fld.crds.axes),
            fld.center, fld.layout, fld.name, fld.nr_comps)


def check_unchanged(ctx, fld, snap, key):
    s2 = snapshot(fld)
    ctx.same(s2[0], snap[0], key + "/data")
    ctx.check(s2[0].dtype == snap[0].dtype, key + "/dtype")
    for a, b in zip(s2[1] + s2[2], snap[1] + snap[2]):
        ctx.same(a, b, key + "/crds")
    ctx.check(s2[3:] == snap[3:], key + "/meta", lambda: "%s %s" % (s2[3:], snap[3:]))

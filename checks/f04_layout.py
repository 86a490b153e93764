"""F04: component layout never changes the values of a vector field"""
import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen

PID = "F04"
TECHNIQUE = "runtime monitoring: conversions and layout pairs observed against a layout-free model of the values"
RULE = ("random vector fields in both layouts, biased to spatial sizes equal to "
        "the number of components; every conversion, component access, "
        "constructor and collection is compared with a model that keeps the "
        "component axis apart; operations are run on both layouts of one field "
        "and have to give the same values")
ASSUMPTIONS = []

DTYPES = ['f8', 'f8', 'f4', 'i4', 'i8', 'c16', 'b1']


def rand_vec(rng, ndim=None, dtype=None, **kw):
    ncomp = int([3, 3, 2, 4, 5][rng.randint(5)])
    ndim = ndim or int(rng.randint(1, 4))
    r = rng.randint(3)
    if r == 0:       # every size is the number of components
        sshape = [ncomp] * ndim
    elif r == 1:
        sshape = [ncomp if rng.randint(2) else int(rng.randint(1, 6)) for _ in range(ndim)]
    else:
        sshape = [int(rng.randint(1, 6)) for _ in range(ndim)]
    dtype = dtype or DTYPES[rng.randint(len(DTYPES))]
    return gen.rand_field(rng, ncomp=ncomp, sshape=sshape, ndim=ndim, dtype=dtype, **kw)


def comp_model(m, i):
    return gen.Model(m.vals[..., i], m.axes, m.center, 0)


def check_comp(ctx, got, m, i, key):
    w = comp_model(m, i)
    if w.vals.size == 1 and not hasattr(got, 'crds'):
        ctx.same(np.asarray(got).reshape(()), w.vals.reshape(()), key, "number")
    else:
        gen.check_field(ctx, got, w, key)


def sc_convert(ctx, rng):
    f, m, desc = rand_vec(rng)
    ctx.note(**desc)
    if m.vals.size == 1:
        raise Skip()
    snap = gen.snapshot(f)
    cur = f
    path = []
    for _ in range(int(rng.randint(1, 5))):
        op = rng.randint(7)
        to = ['flat', 'interlaced'][rng.randint(2)]
        contig = bool(rng.randint(2))
        if op < 2:
            nxt = cur.as_layout(to, force_c_contiguous=contig)
            ctx.check(nxt.layout == to, "convert/layout", lambda: "%s %s" % (nxt.layout, to))
            if contig:
                ctx.check(nxt.data.flags['C_CONTIGUOUS'], "convert/contiguous", path)
        elif op == 2:
            nxt, to = cur.as_flat(), 'flat'
            ctx.check(nxt.layout == to, "convert/layout", lambda: "%s %s" % (nxt.layout, to))
        elif op == 3:
            nxt, to = cur.as_interlaced(), 'interlaced'
            ctx.check(nxt.layout == to, "convert/layout", lambda: "%s %s" % (nxt.layout, to))
        elif op == 4:
            nxt, to = cur.as_c_contiguous(), cur.layout
        elif op == 5:
            nxt, to = cur.shell_copy(force=True), cur.layout
        else:
            # change the layout of the field itself
            nxt = cur.shell_copy(force=True)
            k = rng.randint(3)
            if k == 1:
                # asked for without loading anything
                ctx.check(nxt.nr_comp == cur.nr_comp and nxt.shape == cur.shape,
                          "convert/copy-shape", lambda: repr((desc, path)))
            elif k == 2:
                nxt.resolve()
            nxt.layout = to
            ctx.check(nxt.layout == to, "convert/setter", lambda: "%s %s" % (nxt.layout, to))
        path.append((int(op), to))
        gen.check_field(ctx, nxt, m, "convert", msg=lambda: repr((desc, path)))
        comp_ax = 0 if nxt.layout == 'flat' else len(m.axes)
        ctx.check(nxt.nr_comp == comp_ax, "convert/nr_comp", lambda: repr((desc, path)))
        ctx.check(nxt.data.dtype == m.vals.dtype, "convert/dtype", lambda: repr((desc, path)))
        cur = nxt
    gen.check_unchanged(ctx, f, snap, "convert/source")
    ctx.saw(repr(desc), repr(path))


def sc_components(ctx, rng):
    f, m, desc = rand_vec(rng)
    ctx.note(**desc)
    if m.vals.size == 1:
        raise Skip()
    names = "xyzuv"[:m.ncomp]
    for i, nm in enumerate(names):
        check_comp(ctx, f[nm], m, i, "comp/name")
        sel = [slice(None)] * (f.nr_sdims + 1)
        sel[f.nr_comp] = nm
        check_comp(ctx, f[tuple(sel)], m, i, "comp/name-tuple")
    flds = f.component_fields()
    ctx.check(len(flds) == m.ncomp, "comp/count")
    for i, c in enumerate(flds):
        check_comp(ctx, c, m, i, "comp/fields")
    if all(hasattr(c, 'data') and hasattr(c, 'crds') for c in flds):
        views = f.component_views()
        for i, v in enumerate(views):
            ctx.same(v, m.vals[..., i], "comp/views")
        # the collection again, in either layout
        import viscid
        kw = {}
        lay = ['default', 'flat', 'interlaced'][rng.randint(3)]
        if lay != 'default':
            kw['_force_layout'] = lay
        parts = [c if rng.randint(2) else c.as_c_contiguous() for c in flds]
        perm = list(rng.permutation(m.ncomp))
        v = viscid.scalar_fields_to_vector([parts[i] for i in perm], name="v", **kw)
        pm = gen.Model(m.vals[..., perm], m.axes, m.center, m.ncomp)
        # before it is loaded
        j = int(rng.randint(m.ncomp))
        check_comp(ctx, v[names[j]], pm, j, "collect/lazy-comp")
        if lay != 'default':
            ctx.check(v.layout == lay, "collect/layout", v.layout)
        gen.check_field(ctx, v, pm, "collect", msg=lambda: repr((desc, perm, lay)))
        check_comp(ctx, v[names[j]], pm, j, "collect/comp")
        w = v.as_layout(['flat', 'interlaced'][rng.randint(2)])
        gen.check_field(ctx, w, pm, "collect/convert", msg=lambda: repr((desc, perm, lay)))
    # writing a component
    if rng.randint(2):
        i = int(rng.randint(m.ncomp))
        new = gen.rand_vals(rng, m.vals.shape[:-1], m.vals.dtype)
        m2 = gen.Model(m.vals.copy(), m.axes, m.center, m.ncomp)
        m2.vals[..., i] = new
        f[names[i]] = new
        gen.check_field(ctx, f, m2, "comp/assign", msg=lambda: repr(desc))
    ctx.saw(repr(desc))


def sc_mixed(ctx, rng):
    """components of different types collected into one field"""
    import viscid
    ncomp = int(rng.randint(2, 5))
    ndim = int(rng.randint(1, 4))
    center = ['node', 'cell'][rng.randint(2)]
    sshape = [int(n) for n in gen.rand_shape(rng, ndim, lo=2, hi=6, center=center)]
    axes = gen.rand_axes(rng, sshape, center)
    dts = [['i4', 'i8', 'f4', 'f8'][rng.randint(4)] for _ in range(ncomp)]
    vals, parts = [], []
    for i, dt in enumerate(dts):
        v = (rng.randint(-2**20, 2**20, size=sshape) if dt[0] == 'i'
             else rng.standard_normal(sshape) * 100).astype(dt)
        vals.append(v)
        parts.append(gen.make_field(rng, gen.Model(v, axes, center, 0), name="p%d" % i))
    want = np.stack([v.astype('f8') for v in vals], axis=-1)
    lay = ['default', 'flat', 'interlaced'][rng.randint(3)]
    kw = {} if lay == 'default' else dict(_force_layout=lay)
    how = int(rng.randint(2))
    crds = parts[0].crds
    if how == 0:
        v = viscid.scalar_fields_to_vector(parts, name="v", **kw)
    else:
        v = viscid.wrap_field([p.data for p in parts], crds, name="v",
                              fldtype="vector", center=center, **kw)
    desc = repr((dts, sshape, center, lay, how))
    j = int(rng.randint(ncomp))
    nm = "xyzuv"[j]
    if rng.randint(2):
        ctx.same(np.asarray(v[nm].data).reshape(sshape).astype('f8'), want[..., j],
                 "mixed/lazy-comp", desc)
    told = v.dtype
    for w in (v, v.as_layout('interlaced'), v.as_layout('flat')):
        ctx.same(gen.canon(w).reshape(want.shape).astype('f8'), want, "mixed/values", desc)
        ctx.check(w.dtype == told == w.data.dtype, "mixed/dtype",
                  lambda: "%s %s %s %s" % (told, w.dtype, w.data.dtype, desc))
    for p, x in zip(parts, vals):
        ctx.same(p.data, x, "mixed/source", desc)
        ctx.check(p.dtype == x.dtype, "mixed/source", desc)
    ctx.count("mixed_kinds", len(set(dts)))
    ctx.saw(desc)


def sc_like(ctx, rng):
    """fields made in the image of another one"""
    import viscid
    ncomp = int(rng.randint(0, 5))
    if ncomp == 1:
        ncomp = 3
    f, m, desc = gen.rand_field(rng, ncomp=ncomp, dtype=DTYPES[rng.randint(len(DTYPES))])
    if m.vals.size == 1:
        raise Skip()
    gen.TIMES.clear()       # looked at below
    if rng.randint(2):
        f.time = float(rng.randint(1, 100)) / 4
    snap = gen.snapshot(f)
    how = int(rng.randint(4))
    kw = {}
    if rng.randint(3) == 0:
        kw['time'] = 7.25
    dt = m.vals.dtype
    if how == 0:
        val = float(rng.randint(-9, 9))
        g = viscid.full_like(f, val, name="g", **kw)
    elif how == 1:
        val, g = 0, viscid.zeros_like(f, name="g", **kw)
    elif how == 2:
        val, g = 1, viscid.ones_like(f, name="g", **kw)
    else:
        g = viscid.empty_like(f, name="g", **kw)
        val = 3
        g.data[...] = 3
    m2 = gen.Model(np.full(m.vals.shape, val).astype(dt), m.axes, m.center, m.ncomp)
    msg = lambda: repr((desc, how, kw))  # noqa
    gen.check_field(ctx, g, m2, "like", msg=msg)
    ctx.check(g.data.dtype == dt == g.dtype, "like/dtype", msg)
    ctx.check(g.layout == f.layout, "like/layout", msg)
    ctx.check(g.time == kw.get('time', f.time), "like/time", msg)
    ctx.check(g.name == "g", "like/name", msg)
    # it's a field of its own
    if ncomp:
        i = int(rng.randint(ncomp))
        new = gen.rand_vals(rng, m.vals.shape[:-1], dt)
        m2.vals[..., i] = new
        g["xyzuv"[i]] = new
        gen.check_field(ctx, g, m2, "like/assign", msg=msg)
    gen.check_unchanged(ctx, f, snap, "like/source")
    ctx.saw(repr(desc), how)


def sc_wrap(ctx, rng):
    """constructors that take a layout, or infer one from the shape"""
    import viscid
    ncomp = int(rng.randint(2, 6))
    ndim = int(rng.randint(1, 4))
    cubic = rng.randint(3) == 0
    sshape = [ncomp if cubic else int(rng.randint(1, 6)) for _ in range(ndim)]
    center = ['node', 'cell'][rng.randint(2)]
    layout = ['flat', 'interlaced'][rng.randint(2)]
    dtype = ['f8', 'f4', 'i4'][rng.randint(3)]
    axes = gen.rand_axes(rng, sshape, center)
    m = gen.Model(gen.rand_vals(rng, sshape + [ncomp], dtype), axes, center, ncomp)
    if np.prod(sshape) == 1:
        raise Skip()
    dat = gen.native(m, layout)
    desc = dict(sshape=sshape, ncomp=ncomp, center=center, layout=layout, dtype=dtype)
    ctx.note(**desc)
    msg = lambda: repr(desc)  # noqa
    crds = gen.make_crds(axes)
    # full / zeros / ones / empty, filled by component
    which = rng.randint(4)
    if which == 0:
        f = viscid.full(crds, 3, dtype=dtype, center=center, layout=layout, nr_comps=ncomp)
        ctx.check(np.all(f.data == 3), "full/value", msg)
    elif which == 1:
        f = viscid.zeros(crds, dtype=dtype, center=center, layout=layout, nr_comps=ncomp)
        ctx.check(np.all(f.data == 0), "full/value", msg)
    elif which == 2:
        f = viscid.ones(crds, dtype=dtype, center=center, layout=layout, nr_comps=ncomp)
        ctx.check(np.all(f.data == 1), "full/value", msg)
    else:
        f = viscid.empty(crds, dtype=dtype, center=center, layout=layout, nr_comps=ncomp)
    ctx.check(f.layout == layout, "full/layout", lambda: "%s %r" % (f.layout, desc))
    ctx.check(tuple(f.data.shape) == dat.shape, "full/shape", msg)
    for i in range(ncomp):
        f["xyzuvw"[i]] = m.vals[..., i]
    gen.check_field(ctx, f, m, "full", msg=msg)
    ctx.same(f.data, dat, "full/native", msg)
    like = [viscid.zeros_like, viscid.ones_like, viscid.empty_like][rng.randint(3)](f)
    ctx.check(like.layout == layout and tuple(like.shape) == dat.shape, "like/layout", msg)
    for i in range(ncomp):
        like["xyzuvw"[i]] = m.vals[..., i]
    gen.check_field(ctx, like, m, "like", msg=msg)
    gen.check_field(ctx, f, m, "like/source", msg=msg)

    # by the shape alone, where it tells
    sh = list(dat.shape)
    amb = sh[1:] == sshape and sh[:-1] == sshape
    if not amb:
        w = viscid.wrap_field(dat, crds, name="w", fldtype="vector", center=center)
        ctx.check(w.layout == layout, "wrap/layout", lambda: "%s %r" % (w.layout, desc))
        gen.check_field(ctx, w, m, "wrap", msg=msg)
        shape_nc = [len(a.nc) for a in axes]
        shape_cc = [len(a.cc) for a in axes]
        hits = [(c, l) for c, s in (('node', shape_nc), ('cell', shape_cc))
                for l, t in (('flat', sh[1:]), ('interlaced', sh[:-1])) if s == t]
        if len(hits) == 1:
            w = viscid.arrays2field([a.nc for a in axes], dat, name="w")
            # (which doesn't know of units)
            bare = [gen.Axis(a.name, a.nc, cc=a.cc) for a in axes]
            gen.check_field(ctx, w, gen.Model(m.vals, bare, m.center, m.ncomp), "arrays2field", msg=msg)
            ctx.check(w.layout == layout, "arrays2field/layout", msg)
    # dat2field: node centered integer coordinates
    w = viscid.dat2field(dat, name="w", fldtype="vector", layout=layout)
    m2 = gen.Model(m.vals, [gen.Axis(a.name, np.arange(n).astype(dtype))
                            for a, n in zip(axes, sshape)], 'node', ncomp)
    gen.check_field(ctx, w, m2, "dat2field", msg=msg, axes=False)
    ctx.check(w.layout == layout, "dat2field/layout", lambda: "%s %r" % (w.layout, desc))
    ctx.saw(repr(desc), int(which))


def same_canon(ctx, a, b, key, msg, exact=True):
    if hasattr(a, 'crds') and hasattr(b, 'crds'):
        ctx.check(a.nr_comps == b.nr_comps and a.center == b.center, key + "/kind", msg)
        for x, y in zip(a.get_crds(), b.get_crds()):
            ctx.same(x, y, key + "/crds", msg)
        a, b = gen.canon(a), gen.canon(b)
    if exact:
        ctx.same(a, b, key, msg)
    else:
        ctx.close(a, b, key, rtol=1e-10, atol=1e-11, msg=msg)


def sc_ops(ctx, rng):
    """the same operation on both layouts"""
    import viscid
    ndim = int(rng.randint(1, 4))
    f, m, desc = rand_vec(rng, ndim=ndim, dtype=['f8', 'f4'][rng.randint(2)], layout='flat')
    if m.vals.size <= 3 or np.prod(m.vals.shape[:-1]) == 1:
        raise Skip()
    ctx.note(**desc)
    g = gen.make_field(rng, m, layout='interlaced', crd_type=desc['crd_type'])
    s = gen.make_field(rng, comp_model(m, 0))
    other = gen.Model(gen.rand_vals(rng, m.vals.shape, m.vals.dtype), m.axes, m.center, m.ncomp)
    of = gen.make_field(rng, other, layout='flat')
    og = gen.make_field(rng, other, layout='interlaced')
    ops = {
        'add': lambda v, o: v + o, 'sub': lambda v, o: v - o, 'mul': lambda v, o: v * o,
        'scalar*v': lambda v, o: s * v, 'v*scalar': lambda v, o: v * s,
        'scalar-v': lambda v, o: s - v, 'v/number': lambda v, o: v / 3.0,
        'neg': lambda v, o: -v, 'abs': lambda v, o: abs(v), 'lt': lambda v, o: v < o,
        'sqrt': lambda v, o: np.sqrt(np.abs(v)), 'sin': lambda v, o: np.sin(v),
        'sum': lambda v, o: v.sum(), 'max': lambda v, o: v.max(),
        'npadd': lambda v, o: np.add(v, o),
        'sumcomp': lambda v, o: v.sum(axis=v.nr_comp),
        'maxcomp': lambda v, o: v.max(axis=v.nr_comp),
        'meancomp': lambda v, o: np.mean(v, axis=v.nr_comp),
        'magnitude': lambda v, o: viscid.magnitude(v),
        'dot': lambda v, o: viscid.dot(v, o),
        'normalize': lambda v, o: viscid.normalize(v),
    }
    for ax in range(ndim):
        def red(v, o, ax=ax):
            return v.mean(axis=ax + (1 if v.layout == 'flat' else 0))
        if ndim > 1:
            ops['mean%d' % ax] = red
        ops['trapz%d' % ax] = lambda v, o, ax=ax: v.trapz(axis=ax)
        ops['cumtrapz%d' % ax] = lambda v, o, ax=ax: v.cumtrapz(axis=m.axes[ax].name)
    names = sorted(ops)
    for nm in [names[i] for i in rng.permutation(len(names))[:8]]:
        if nm in ('dot', 'normalize') and (m.ncomp != 3 or ndim != 3):
            continue
        if nm == 'magnitude' and m.ncomp != 3:
            continue
        a = ops[nm](f, of)
        b = ops[nm](g, og)
        exact = nm not in ('sum', 'magnitude', 'dot', 'normalize') and not nm.startswith(
            ('mean', 'trapz', 'cumtrapz', 'sumcomp'))
        if m.vals.dtype == np.float32:
            a32, b32 = (gen.canon(x) if hasattr(x, 'crds') else np.asarray(x) for x in (a, b))
            ctx.close(a32, b32, "ops/%s" % nm, rtol=2e-4, atol=2e-3, msg=lambda: repr((nm, desc)))
        else:
            same_canon(ctx, a, b, "ops/%s" % nm, lambda: repr((nm, desc)), exact)
        if nm in ('add', 'sub', 'mul', 'lt'):
            # mixed layouts of the same thing
            c = ops[nm](f, og)
            d = ops[nm](g, of)
            same_canon(ctx, a, c, "ops/mixed-%s" % nm, lambda: repr((nm, desc)))
            same_canon(ctx, a, d, "ops/mixed-%s" % nm, lambda: repr((nm, desc)))
        ctx.saw(nm, repr(desc))


def sc_sample(ctx, rng):
    """interpolation and streamlines on both layouts"""
    import viscid
    r = rng.randint(3)
    sshape = [3, 3, 3] if r == 0 else [int(rng.randint(2, 6)) for _ in range(3)]
    if r == 1:
        sshape[int(rng.randint(3))] = 3
    f, m, desc = gen.rand_field(rng, ndim=3, sshape=sshape, ncomp=3, layout='flat',
                                dtype=['f8', 'f4'][rng.randint(2)])
    m.vals += 3 * m.vals.dtype.type(1)
    f = gen.make_field(rng, m, layout='flat')
    g = gen.make_field(rng, m, layout='interlaced')
    ctx.note(**desc)
    lo = np.array([c[0] for c in m.crds()], dtype='f8')
    hi = np.array([c[-1] for c in m.crds()], dtype='f8')
    pts = lo[:, None] + (hi - lo)[:, None] * rng.uniform(-0.2, 1.2, size=(3, 9))
    for kind in ('trilin', 'nearest'):
        a = getattr(viscid, 'interp_' + kind)(f, viscid.Point(pts), wrap=False)
        b = getattr(viscid, 'interp_' + kind)(g, viscid.Point(pts), wrap=False)
        ctx.same(a, b, "interp/%s" % kind, lambda: repr(desc))
        # on a volume, wrapped
        vol = viscid.Volume(lo, hi, n=(2, 3, 2))
        a = getattr(viscid, 'interp_' + kind)(f, vol)
        b = getattr(viscid, 'interp_' + kind)(g, vol)
        ctx.same(gen.canon(a), gen.canon(b), "interp-vol/%s" % kind, lambda: repr(desc))
    seeds = lo[:, None] + (hi - lo)[:, None] * rng.uniform(0.1, 0.9, size=(3, 3))
    kw = dict(ds0=0.1 * float(np.min(hi - lo)), ibound=0.0, maxit=200,
              method=['rk2', 'euler1', 'rk12', 'rk45'][rng.randint(4)])
    la, ta = viscid.calc_streamlines(f, viscid.Point(seeds), **kw)
    lb, tb = viscid.calc_streamlines(g, viscid.Point(seeds), **kw)
    ctx.same(np.asarray(ta), np.asarray(tb), "streamline/topo", lambda: repr((desc, kw)))
    for x, y in zip(la, lb):
        ctx.same(x, y, "streamline/lines", lambda: repr((desc, kw)))
    ctx.saw(repr(desc), kw['method'])


SCENARIOS = [
    Scenario("convert", sc_convert, quick=3000, thorough=60000),
    Scenario("components", sc_components, quick=2500, thorough=50000),
    Scenario("like", sc_like, quick=800, thorough=20000),
    Scenario("mixed", sc_mixed, quick=800, thorough=20000),
    Scenario("wrap", sc_wrap, quick=2500, thorough=50000),
    Scenario("ops", sc_ops, quick=2500, thorough=50000),
    Scenario("sample", sc_sample, quick=300, thorough=8000),
]

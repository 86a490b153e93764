"""F05: field arithmetic agrees with numpy and keeps grid and metadata"""
import operator

import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen

PID = "F05"
TECHNIQUE = "runtime monitoring: every operator result compared with numpy on layout-free copies of the operands"
RULE = ("random fields (1-4 axes, node/cell, scalar/vector in either layout, "
        "all numeric kinds, any memory order) combined by every operator with "
        "fields of the same or the other kind and layout, numbers, and arrays, "
        "from either side; the result's values, dtype, coordinates, centering, "
        "time and metadata, and the unchanged operands are checked")
ASSUMPTIONS = ["numpy ufuncs called directly on a scalar and an interlaced "
               "vector field follow numpy's own broadcasting and are left out; "
               "divmod of fields is left out"]

ARITH = dict(add=operator.add, sub=operator.sub, mul=operator.mul,
             truediv=operator.truediv, floordiv=operator.floordiv,
             mod=operator.mod, pow=operator.pow)
CMP = dict(lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge,
           eq=operator.eq, ne=operator.ne)
BITS = {'and': operator.and_, 'or': operator.or_, 'xor': operator.xor,
        'lshift': operator.lshift, 'rshift': operator.rshift}
IOPS = dict(iadd=(operator.iadd, operator.add), isub=(operator.isub, operator.sub),
            imul=(operator.imul, operator.mul), itruediv=(operator.itruediv, operator.truediv),
            ifloordiv=(operator.ifloordiv, operator.floordiv), imod=(operator.imod, operator.mod),
            ipow=(operator.ipow, operator.pow))
UNARY = dict(neg=operator.neg, pos=operator.pos, abs=operator.abs)
UFUNC1 = ['sin', 'exp', 'sqrt', 'isfinite', 'floor', 'sign', 'square', 'negative',
          'absolute', 'log1p', 'arctan', 'isnan', 'rint', 'deg2rad']
UFUNC2 = ['add', 'subtract', 'multiply', 'divide', 'maximum', 'minimum', 'arctan2',
          'hypot', 'greater', 'less_equal', 'equal', 'logical_and', 'copysign', 'fmod']


def vals_for(rng, shape, dtype, opname, role):
    dt = np.dtype(dtype)
    v = gen.rand_vals(rng, shape, dtype)
    if opname in ('pow', 'ipow'):
        if dt.kind in 'iu':
            v = np.asarray(rng.randint(0, 4, size=shape)).astype(dt)
        elif dt.kind == 'f':
            v = np.asarray(rng.uniform(0.1, 3.0, size=shape)).astype(dt)
    elif opname in ('lshift', 'rshift'):
        if dt.kind in 'iu':
            v = np.asarray(rng.randint(0, 6, size=shape)).astype(dt)
    elif dt.kind in 'iu' and role == 1:
        v = np.where(v == 0, 7, v).astype(dt)
    elif opname in CMP and rng.randint(2):
        v = np.asarray(rng.randint(-1, 2, size=shape)).astype(dt)
    return v


def expect(ctx, got, vals, base, ncomp, key, msg):
    """vals: canonical expected values"""
    w = gen.Model(vals, base.axes, base.center, ncomp)
    if vals.size == 1 and not hasattr(got, 'crds'):
        ctx.close(np.asarray(got).reshape(()), vals.reshape(()), key + "/number", msg=msg,
                  rtol=4e-6 if vals.dtype in (np.float32, np.complex64) else 1e-13)
        return False
    # vector instructions may round differently for different strides
    single = vals.dtype in (np.float32, np.complex64)
    sc = np.max(np.abs(vals), where=np.isfinite(vals), initial=0) if vals.dtype.kind == 'c' else 0
    gen.check_field(ctx, got, w, key, msg=msg, exact=vals.dtype.kind not in 'fc',
                    rtol=4e-6 if single else 1e-13,
                    atol=sc * (4e-6 if single else 1e-14))
    ctx.check(got.data.dtype == vals.dtype, key + "/dtype",
              lambda: "%s %s %s" % (got.data.dtype, vals.dtype, msg()))
    return True


def check_meta(ctx, got, f, key, msg):
    ctx.check(got.time == f.time, key + "/time", lambda: "%s %s %s" % (got.time, f.time, msg()))
    ctx.check(got.meta.get("tag") == f.meta.get("tag"), key + "/meta", msg)
    ctx.check(got.find_info("source") == f.find_info("source"), key + "/info", msg)
    ctx.check(got.crds.crdtype == f.crds.crdtype, key + "/crdtype",
              lambda: "%s %s %s" % (got.crds.crdtype, f.crds.crdtype, msg()))


def base_field(ctx, rng, opname, dtypes, **kw):
    dtype = dtypes[rng.randint(len(dtypes))]
    kw.setdefault('ndim', int(rng.randint(1, 5)))
    kw.setdefault('ncomp', int([0, 0, 3, 2, 4][rng.randint(5)]))
    if rng.randint(4) == 0:
        kw['sshape'] = [kw['ncomp'] or 3] * kw['ndim']
    f, m, desc = gen.rand_field(rng, dtype=dtype, hi=5, **kw)
    m.vals = vals_for(rng, m.vals.shape, dtype, opname, 0)
    f = gen.make_field(rng, m, layout=desc['layout'] if m.ncomp else 'flat',
                       crd_type=desc['crd_type'], order=desc['order'],
                       time=float(rng.randint(1, 100)), tag="t%d" % rng.randint(9),
                       info=dict(source="s%d" % rng.randint(9)))
    return f, m, desc, dtype


def cb(m, ncomp):
    """values, with a component axis when the partner has one"""
    return m.vals[..., None] if ncomp and not m.ncomp else m.vals


def sc_binary(ctx, rng):
    r = rng.randint(10)
    table, dts = (ARITH, ['f8', 'f4', 'i4', 'i8', 'c16']) if r < 6 else (
        (CMP, ['f8', 'f4', 'i4']) if r < 8 else (BITS, ['i4', 'i8', 'b1']))
    opname = sorted(table)[rng.randint(len(table))]
    if opname in ('floordiv', 'mod'):
        dts = ['f8', 'f4', 'i4', 'i8']
    if opname in ('lshift', 'rshift'):
        dts = ['i4', 'i8']
    op = table[opname]
    f, m, desc, dtype = base_field(ctx, rng, opname, dts)
    mode = ['field', 'field', 'other-kind', 'number', 'number-left', 'array', 'array-left',
            'npscalar', 'npscalar-left'][rng.randint(9)]
    desc.update(op=opname, mode=mode)
    dt2 = dtype if table is BITS else dts[rng.randint(len(dts))]
    if opname in ('lshift', 'rshift'):
        dt2 = dtype
    snap = gen.snapshot(f)
    g = snap2 = None
    ncomp = m.ncomp
    with np.errstate(all='ignore'):
        if mode == 'field' or mode == 'other-kind':
            nc2 = m.ncomp
            if mode == 'other-kind':
                nc2 = 0 if m.ncomp else int([3, 2, 4][rng.randint(3)])
                if not m.ncomp and rng.randint(3) == 0:
                    nc2 = max(m.vals.shape)
            ncomp = max(m.ncomp, nc2)
            if ncomp > 6:
                raise Skip()
            m2 = gen.Model(vals_for(rng, list(m.vals.shape[:len(m.axes)]) +
                                    ([nc2] if nc2 else []), dt2, opname, 1),
                           m.axes, m.center, nc2)
            lay2 = ['flat', 'interlaced'][rng.randint(2)]
            desc.update(dtype2=dt2, ncomp2=nc2, layout2=lay2)
            g = gen.make_field(rng, m2, layout=lay2, name="g", time=f.time,
                               tag=f.meta["tag"], crd_type=desc['crd_type'],
                               info=dict(source=f.find_info("source")),
                               order=['C', 'F', 'strided'][rng.randint(3)])
            snap2 = gen.snapshot(g)
            got = op(f, g)
            want = op(cb(m, ncomp), cb(m2, ncomp))
        elif mode.startswith(('number', 'npscalar')):
            dk = np.dtype(dt2)
            v = vals_for(rng, (), dt2, opname, 1)
            if mode.startswith('number'):
                v = v.item()
            else:
                v = dk.type(v)
            desc['other'] = repr(v)
            if mode.endswith('left'):
                got, want = op(v, f), op(v, m.vals)
            else:
                got, want = op(f, v), op(m.vals, v)
        else:
            nat = gen.native(m, desc['layout'] if m.ncomp else 'flat')
            shp = list(nat.shape)
            if rng.randint(3) == 0:
                for i in range(len(shp)):
                    if rng.randint(2):
                        shp[i] = 1
            v = vals_for(rng, shp, dt2, opname, 1)
            keep = v.copy()
            desc['other'] = "array%s" % (v.shape,)
            if mode.endswith('left'):
                got, want = op(v, f), op(v, nat)
            else:
                got, want = op(f, v), op(nat, v)
            ctx.same(v, keep, "operand/array", lambda: repr(desc))
            if m.ncomp and desc['layout'] == 'flat':
                want = np.moveaxis(want, 0, -1)
    msg = lambda: repr(desc)  # noqa
    ctx.note(**desc)
    if expect(ctx, got, np.asarray(want), m, ncomp, "binary", msg):
        check_meta(ctx, got, f, "binary", msg)
        ctx.check(not np.shares_memory(got.data, f.data), "binary/aliases", msg)
    gen.check_unchanged(ctx, f, snap, "operand")
    if g is not None:
        gen.check_unchanged(ctx, g, snap2, "operand2")
    ctx.count(mode)
    ctx.saw(opname, mode, desc['sshape'], desc['center'], desc['ncomp'], desc['layout'],
            desc['dtype'], desc.get('dtype2'), desc.get('layout2'), desc.get('ncomp2'))


def sc_unary(ctx, rng):
    names = sorted(UNARY) + ['invert', 'conj', 'conjugate', 'real', 'imag', 'angle', 'astype',
                             'clip', 'round', 'npround', 'npclip'] + UFUNC1
    nm = names[rng.randint(len(names))]
    dts = ['f8', 'f4', 'i4', 'i8']
    if nm in ('conj', 'conjugate', 'real', 'imag', 'angle', 'neg', 'abs', 'pos'):
        dts = ['f8', 'c16', 'f4', 'c8', 'i4']
    if nm == 'invert':
        dts = ['i4', 'b1', 'i8']
    f, m, desc, dtype = base_field(ctx, rng, nm, dts)
    snap = gen.snapshot(f)
    v = m.vals
    with np.errstate(all='ignore'):
        if nm in UNARY:
            got, want = UNARY[nm](f), UNARY[nm](v)
        elif nm == 'invert':
            got, want = ~f, ~v
        elif nm in ('conj', 'conjugate'):
            got, want = getattr(f, nm)(), v.conj()
        elif nm in ('real', 'imag'):
            got, want = getattr(f, nm), getattr(v, nm)
        elif nm == 'angle':
            deg = bool(rng.randint(2))
            got, want = f.angle(deg=deg), np.angle(v, deg=deg)
        elif nm == 'astype':
            dt = ['f4', 'f8', 'i4', 'i8', 'b1'][rng.randint(5)]
            got, want = f.astype(dt), v.astype(dt)
        elif nm in ('clip', 'npclip'):
            lo, hi = sorted(rng.uniform(-8, 8, size=2))
            lo, hi = np.dtype(dtype).type(lo), np.dtype(dtype).type(hi)
            if nm == 'clip':
                got = f.clip(lo, hi) if rng.randint(2) else f.clip(min=lo, max=hi)
            else:
                got = np.clip(f, lo, hi)
            want = v.clip(lo, hi)
        elif nm in ('round', 'npround'):
            dec = int(rng.randint(-1, 3))
            got = f.round(dec) if nm == 'round' else np.round(f, dec)
            want = v.round(dec)
        else:
            got, want = getattr(np, nm)(f), getattr(np, nm)(v)
    desc.update(op=nm)
    msg = lambda: repr(desc)  # noqa
    ctx.note(**desc)
    if expect(ctx, got, np.asarray(want), m, m.ncomp, "unary/" + nm, msg):
        check_meta(ctx, got, f, "unary", msg)
    gen.check_unchanged(ctx, f, snap, "operand")
    ctx.saw(nm, desc['sshape'], desc['center'], desc['ncomp'], desc['layout'], desc['dtype'])


def sc_ufunc2(ctx, rng):
    nm = UFUNC2[rng.randint(len(UFUNC2))]
    uf = getattr(np, nm)
    f, m, desc, dtype = base_field(ctx, rng, nm, ['f8', 'f4', 'i4'])
    snap = gen.snapshot(f)
    mode = ['field', 'number', 'number-left', 'array'][rng.randint(4)]
    lay = desc['layout'] if m.ncomp else 'flat'
    with np.errstate(all='ignore'):
        if mode == 'field':
            m2 = gen.Model(vals_for(rng, m.vals.shape, dtype, nm, 1), m.axes, m.center, m.ncomp)
            g = gen.make_field(rng, m2, layout=lay)
            got, want = uf(f, g), uf(m.vals, m2.vals)
        elif mode == 'array':
            v = vals_for(rng, gen.native(m, lay).shape, dtype, nm, 1)
            got = uf(f, v)
            want = uf(gen.native(m, lay), v)
            if m.ncomp and lay == 'flat':
                want = np.moveaxis(want, 0, -1)
        else:
            v = vals_for(rng, (), dtype, nm, 1).item()
            if mode == 'number':
                got, want = uf(f, v), uf(m.vals, v)
            else:
                got, want = uf(v, f), uf(v, m.vals)
    desc.update(op=nm, mode=mode)
    msg = lambda: repr(desc)  # noqa
    ctx.note(**desc)
    if expect(ctx, got, np.asarray(want), m, m.ncomp, "ufunc2/" + nm, msg):
        check_meta(ctx, got, f, "ufunc2", msg)
    gen.check_unchanged(ctx, f, snap, "operand")
    ctx.saw(nm, mode, desc['sshape'], desc['center'], desc['ncomp'], desc['layout'])


def sc_inplace(ctx, rng):
    """x op= y gives x the value x op y, and changes nothing else"""
    opname = sorted(IOPS)[rng.randint(len(IOPS))]
    iop, op = IOPS[opname]
    f, m, desc, dtype = base_field(ctx, rng, opname, ['f8', 'f4'])
    desc['op'] = opname
    msg = lambda: repr(desc)  # noqa
    ctx.note(**desc)
    with np.errstate(all='ignore'):
        if rng.randint(2):
            m2 = gen.Model(vals_for(rng, m.vals.shape, dtype, opname, 1), m.axes, m.center, m.ncomp)
            g = gen.make_field(rng, m2, layout=desc['layout'] if m.ncomp else 'flat')
            snap2 = gen.snapshot(g)
            x = f.shell_copy(force=True)
            x = iop(x, g)
            want = op(m.vals, m2.vals)
            gen.check_unchanged(ctx, g, snap2, "inplace/right")
        else:
            v = vals_for(rng, (), dtype, opname, 1).item()
            x = iop(f, v)
            want = op(m.vals, v)
    expect(ctx, x, want, m, m.ncomp, "inplace", msg)
    ctx.saw(opname, desc['sshape'], desc['center'], desc['ncomp'], desc['layout'])


def sc_chain(ctx, rng):
    """expressions of several operators, on fields that come out of slices"""
    dtype = ['f8', 'f4'][rng.randint(2)]
    f, m, desc, dtype = base_field(ctx, rng, 'add', [dtype])
    g, m2, _, _ = f, m, None, None
    msg = lambda: repr(desc)  # noqa
    cur, cm = f, m.vals
    ops = []
    for _ in range(int(rng.randint(2, 7))):
        k = rng.randint(6)
        with np.errstate(all='ignore'):
            if k == 0:
                cur, cm = cur + f, cm + m.vals
            elif k == 1:
                cur, cm = 2 * cur, 2 * cm
            elif k == 2:
                cur, cm = f - cur, m.vals - cm
            elif k == 3:
                cur, cm = np.abs(cur) * 0.5, np.abs(cm) * 0.5
            elif k == 4:
                cur, cm = -(cur / 3), -(cm / 3)
            elif k == 5 and m.ncomp:
                cur = cur.as_layout(['flat', 'interlaced'][rng.randint(2)])
        ops.append(int(k))
        if not hasattr(cur, 'crds'):
            raise Skip()
    desc['ops'] = ops
    ctx.note(**desc)
    expect(ctx, cur, cm, m, m.ncomp, "chain", msg)
    check_meta(ctx, cur, f, "chain", msg)
    ctx.saw(repr(ops), desc['sshape'], desc['ncomp'])


def sc_masked(ctx, rng):
    """operators on masked data give what numpy's masked arrays give"""
    import operator as op
    f, m, desc = gen.masked_field(rng)
    f2, m2 = f, m.vals
    k = rng.randint(4)
    if k == 1:
        f2 = m2 = float(rng.uniform(0.5, 3))
    elif k == 2:        # a field of the same grid, other points masked
        v2 = np.ma.array(rng.uniform(1, 5, size=m.vals.shape), mask=rng.rand(*m.vals.shape) < 0.2)
        d2 = v2 if not desc['ncomp'] or desc['layout'] == 'interlaced' else np.ma.array(np.moveaxis(v2.data, -1, 0), mask=np.moveaxis(v2.mask, -1, 0))
        f2, m2 = f.wrap(d2), v2
    elif k == 3 and desc['ncomp']:
        c = int(rng.randint(desc['ncomp']))
        f2, m2 = f["xyz"[c]], m.vals[..., c:c + 1]
    ops = [op.add, op.sub, op.mul, op.truediv, op.lt, op.ge, op.eq]
    o = ops[rng.randint(len(ops))]
    ctx.note(op=o.__name__, k=int(k), **desc)
    with np.errstate(all='ignore'):
        if k == 1 and rng.randint(2):
            got, want = o(f2, f), o(m2, m.vals)
        else:
            got, want = o(f, f2), o(m.vals, m2)
        gen.check_masked(ctx, got, want, "masked/" + o.__name__)
        u = [op.neg, abs, lambda q: q**2, lambda q: q.clip(min=-2, max=3), lambda q: q.round(1), lambda q: q.astype('f4')][rng.randint(6)]
        gen.check_masked(ctx, u(f), u(m.vals), "masked/unary", rtol=1e-6)
    gen.check_masked(ctx, f, m.vals, "masked/source")
    ctx.saw(desc['layout'], desc['ncomp'], o.__name__, int(k))


SCENARIOS = [
    Scenario("masked", sc_masked, quick=600, thorough=15000),
    Scenario("binary", sc_binary, quick=6000, thorough=150000),
    Scenario("unary", sc_unary, quick=3000, thorough=60000),
    Scenario("ufunc2", sc_ufunc2, quick=2500, thorough=50000),
    Scenario("inplace", sc_inplace, quick=1000, thorough=20000),
    Scenario("chain", sc_chain, quick=1500, thorough=30000),
]

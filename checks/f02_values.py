"""F02: selecting by coordinate value keeps exactly the points in range"""
import numpy as np

from vmon.core import Scenario
from vmon import gen

PID = "F02"
TECHNIQUE = "runtime monitoring: randomised selections by value against a brute-force scan of the coordinates"
RULE = ("random fields (1-3 axes, node/cell, scalar/vector in either layout, "
        "uniform/stretched, float32/float64 axes, and date, elapsed-time and "
        "float-seconds axes) selected with ranges and single values written "
        "in every accepted form; a brute-force scan of the coordinates says "
        "which points have to come back, in which order")
ASSUMPTIONS = ["limits lie exactly on a coordinate, or at least 1e-3 of the "
               "smallest spacing away from it (the library's documented "
               "tolerance is 1e-4), single values at least 1e-6 away from "
               "the midpoint of two points",
               "axes ascend"]


def pick_limit(rng, c, where=None):
    """a coordinate value, on a point, between points, or outside"""
    n = len(c)
    span = (c[-1] - c[0]) if n > 1 else 1.0
    r = rng.randint(10)
    if r < 4:
        return float(c[rng.randint(n)])
    if r < 8 and n > 1:
        i = rng.randint(n - 1)
        return float(c[i] + rng.uniform(0.02, 0.98) * (c[i + 1] - c[i]))
    if r == 8:
        return float(c[0] - rng.uniform(0.05, 1.5) * span)
    return float(c[-1] + rng.uniform(0.05, 1.5) * span)


def pick_single(rng, c):
    for _ in range(20):
        v = pick_limit(rng, c)
        d = np.sort(np.abs(c - v))
        if len(d) == 1 or d[1] - d[0] > 1e-3 * (np.min(np.diff(c))):
            return v, int(np.argmin(np.abs(c - v)))
    i = rng.randint(len(c))
    return float(c[i]), int(i)


def in_range(c, lo, hi, step):
    """indices of an ascending axis from lo to hi (or backwards)"""
    step = step or 1
    idx = np.arange(len(c))
    if step > 0:
        ok = np.ones(len(c), bool)
        if lo is not None:
            ok &= c >= lo
        if hi is not None:
            ok &= c <= hi
        return idx[ok][::step]
    ok = np.ones(len(c), bool)
    if lo is not None:
        ok &= c <= lo
    if hi is not None:
        ok &= c >= hi
    return idx[ok][::-1][::-step]


def num(rng, v):
    return repr(float(v))


def rand_value_sel(rng, name, c, loc=False):
    """(selection, indices, form); scalar index for single values"""
    r = rng.randint(10)
    if r < 6:
        step = [None, 1, 2, 3, -1, -2, None][rng.randint(7)]
        lo = pick_limit(rng, c) if rng.randint(5) else None
        hi = pick_limit(rng, c) if rng.randint(5) else None
        if lo is not None and hi is not None and rng.randint(6):
            lo, hi = min(lo, hi), max(lo, hi)
            if step is not None and step < 0:
                lo, hi = hi, lo
        idx = in_range(c, lo, hi, step)
        f = rng.randint(2 if loc else 3)
        if loc:
            if f == 0:
                return slice(lo, hi, step), idx, 'loc-slice'
            fmt = lambda v: "" if v is None else num(rng, v)  # noqa
        else:
            if f == 0:
                j = lambda v: None if v is None else v * 1j  # noqa
                return slice(j(lo), j(hi), step), idx, 'imag-slice'
            ch = 'jfJ'[rng.randint(3)]
            fmt = lambda v: "" if v is None else num(rng, v) + ch  # noqa
            if f == 1:
                g = lambda v: None if v is None else fmt(v)  # noqa
                return slice(g(lo), g(hi), step), idx, 'str-limits'
        sp = ' ' if rng.randint(2) else ''
        s = sp + fmt(lo) + sp + ':' + sp + fmt(hi)
        if step is not None:
            s += ":%d" % step
        return s, idx, 'loc-string' if loc else 'string'
    if r < 8:
        v, i = pick_single(rng, c)
        if loc:
            if rng.randint(2):
                return v, i, 'loc-single'
            return num(rng, v), i, 'loc-single-string'
        f = rng.randint(3)
        if f == 0:
            return v * 1j, i, 'imag-single'
        if f == 1:
            return np.complex128(v * 1j), i, 'np-imag-single'
        return num(rng, v) + 'jf'[rng.randint(2)], i, 'single-string'
    if r == 8:
        vi = [pick_single(rng, c) for _ in range(rng.randint(1, 5))]
        v = np.array([a for a, _ in vi])
        idx = np.array([b for _, b in vi])
        f = rng.randint(3)
        if loc:
            return (v if f else v.tolist()), idx, 'loc-array'
        if f == 0:
            return 1j * v, idx, 'imag-array'
        if f == 1:
            return (1j * v).tolist(), idx, 'imag-list'
        return "[" + ", ".join(num(rng, x) + 'j' for x in v) + "]", idx, 'array-string'
    # one limit by index, the other by value
    step = [None, 1, 2, -1][rng.randint(4)]
    n = len(c)
    if loc:
        return slice(None), np.arange(n), 'all'
    i = int(rng.randint(0, n))
    v = pick_limit(rng, c)
    if rng.randint(2):
        by_val = in_range(c, None, v, step)
        st = 1 if step is None else step
        idx = np.arange(n)[i:] if st > 0 else np.arange(n)[:i + 1][::-1]
        idx = np.array([k for k in idx if k in set(in_range(c, None, v, np.sign(st)))], int)
        idx = idx[::abs(st)]
        return slice(i, v * 1j, step), idx, 'index:value'
    st = 1 if step is None else step
    ok = set(in_range(c, v, None, np.sign(st)).tolist())
    idx = np.arange(n)[:i] if st > 0 else np.arange(n)[i + 1:][::-1]
    idx = np.array([k for k in idx if k in ok], int)[::abs(st)]
    return slice(v * 1j, i, step), idx, 'value:index'


def model_take(m, idxs, comp=None):
    vals = m.vals
    axes = []
    for ax in range(len(m.axes) - 1, -1, -1):
        i = idxs[ax]
        a = m.axes[ax]
        c = a.cc if m.center == 'cell' else a.nc
        if isinstance(i, (int, np.integer)):
            vals = np.take(vals, i, axis=ax)
        else:
            vals = np.take(vals, i, axis=ax)
            if m.center == 'cell':
                axes.insert(0, gen.Axis(a.name, np.append(c[i], 0), c[i]))
            else:
                axes.insert(0, gen.Axis(a.name, c[i]))
    ncomp = m.ncomp
    if comp is not None:
        vals = vals[..., comp]
        ncomp = 0
    return gen.Model(vals, axes, m.center, ncomp)


def compare(ctx, got, want, key, msg):
    if want.vals.size == 1 and not hasattr(got, 'crds'):
        ctx.same(got, want.vals.reshape(()), key + "/number", msg)
        return
    gen.check_field(ctx, got, want, key, msg=msg)


def centers(fld, m):
    """the coordinates as the field reports them (F07 checks their values)"""
    return [np.array(c) for c in fld.get_crds()]


def sc_ranges(ctx, rng):
    if rng.randint(6) == 0:
        # spacings over many decades
        center = ['node', 'cell'][rng.randint(2)]
        axes = []
        for nm in "xyz"[:rng.randint(1, 3)]:
            w = 10.0 ** rng.uniform(-4, 3, size=rng.randint(3, 9))
            if rng.randint(2):
                w = np.sort(w)
            nc = np.concatenate([[0.0], np.cumsum(w)])
            if rng.randint(2):
                nc -= nc[rng.randint(len(nc))]
            axes.append(gen.Axis(nm, nc))
        shp = [len(a.nc) - (center == 'cell') for a in axes]
        m = gen.Model(gen.rand_vals(rng, shp, 'f8'), axes, center, 0)
        fld = gen.make_field(rng, m, crd_type='AUTO', name='fld')
        desc = dict(sshape=shp, center=center, ncomp=0, layout='scalar', crd_type='decades',
                    axes=[a.nc.tolist() for a in axes])
    else:
        fld, m, desc = gen.rand_field(rng, hi=9)
    ctx.note(**desc)
    snap = gen.snapshot(fld)
    C = centers(fld, m)
    for rep in range(6):
        loc = rng.randint(3) == 0
        sels, idxs, forms = [], [], []
        arr = False
        for a, c in zip(m.axes, C):
            if rng.randint(4) == 0:
                s, i, f = slice(None), np.arange(len(c)), 'all'
            else:
                s, i, f = rand_value_sel(rng, a.name, c, loc)
                if 'array' in f or 'list' in f:
                    if arr:
                        s, i, f = slice(None), np.arange(len(c)), 'all'
                    arr = True
            sels.append(s)
            idxs.append(i)
            forms.append(f)
        comp = int(rng.randint(m.ncomp)) if m.ncomp and rng.randint(2) else None
        want = model_take(m, idxs, comp)
        if want.vals.size == 0:
            ctx.count("empty")
        mode = ['positional', 'named', 'joined'][rng.randint(3)]
        sel = list(sels)
        strs = all(isinstance(s, str) or f == 'all' for s, f in zip(sels, forms))
        if mode != 'positional' and strs:
            sel = [a.name + " = " + s for a, s, f in zip(m.axes, sels, forms) if f != 'all']
            if not sel:
                continue
            sel = [sel[i] for i in rng.permutation(len(sel))]
        else:
            mode = 'positional'
        if comp is not None:
            sel.insert(int(rng.randint(len(sel) + 1)), gen.COMP[comp])
        if mode == 'joined':
            sel = ", ".join(sel)
        else:
            sel = tuple(sel)
        d = dict(sel=repr(sel), loc=loc, **desc)
        got = (fld.loc if loc else fld)[sel]
        compare(ctx, got, want, ("loc/" if loc else "val/") + mode, lambda: repr(d))
        if not loc and rng.randint(3) == 0:
            # kept with length one
            k = [np.array([i]) if isinstance(i, (int, np.integer)) else i for i in idxs]
            kw = model_take(m, k, comp)
            got = fld.slice_and_keep(sel)
            compare(ctx, got, kw, "keep/" + mode, lambda: repr(d))
        for f in forms:
            ctx.count("form_" + f)
        ctx.saw(tuple(forms), desc['center'], desc['layout'], mode, comp is not None,
                min(2, want.vals.size))
    gen.check_unchanged(ctx, fld, snap, "source-changed")


def sc_assign(ctx, rng):
    fld, m, desc = gen.rand_field(rng, hi=8, order='C')
    ctx.note(**desc)
    C = centers(fld, m)
    for rep in range(4):
        sels, idxs = [], []
        loc = rng.randint(3) == 0
        for a, c in zip(m.axes, C):
            s, i, f = rand_value_sel(rng, a.name, c, loc)
            if 'array' in f or 'list' in f:
                s, i = slice(None), np.arange(len(c))
            sels.append(s)
            idxs.append(np.atleast_1d(i))
        comp = int(rng.randint(m.ncomp)) if m.ncomp and rng.randint(2) else None
        v = float(rng.standard_normal())
        want = m.vals.copy()
        ii = list(idxs)
        if m.ncomp:
            ii.append(np.arange(m.ncomp) if comp is None else np.array([comp]))
        want[np.ix_(*ii)] = v
        sel = list(sels)
        if comp is not None:
            sel.insert(int(rng.randint(len(sel) + 1)), gen.COMP[comp])
        (fld.loc if loc else fld)[tuple(sel)] = v
        m.vals = want
        gen.check_field(ctx, fld, m, "assign", msg=lambda: repr((sel, desc)))
        ctx.saw(len(sel), desc['center'], desc['layout'], loc, comp is not None)


def sc_time(ctx, rng):
    """dates, elapsed times and plain numbers select the same points"""
    import viscid
    kind = ['date', 'elapsed', 'seconds'][rng.randint(3)]
    n = int(rng.randint(2, 12))
    center = 'node'
    base = np.datetime64('2010-01-01T12:00:00', 'us') + \
        np.timedelta64(int(rng.randint(-10 ** 9, 10 ** 9)), 's')
    # milliseconds keep every number below exact in double precision
    steps = rng.randint(1, 40, size=n - 1) * [1000, 250, 60000, 3600000, 86400000][rng.randint(5)]
    if rng.randint(2):
        steps[:] = steps[0]
    ms = np.concatenate([[0], np.cumsum(steps)]).astype('i8')
    off = int(rng.randint(-5, 6)) * 1000 if kind != 'date' else 0
    unit = ['ms', 'us', 'ns'][rng.randint(3)]
    if kind == 'date':
        t = (base + ms.astype('m8[ms]')).astype('M8[%s]' % unit)
    elif kind == 'elapsed':
        t = (ms + off).astype('m8[ms]').astype('m8[%s]' % unit)
    else:
        t = (ms + off) / 1000.0
    nx = int(rng.randint(2, 5))
    x = np.linspace(-1, 1, nx)
    tpos = int(rng.randint(2))
    names = 'tx' if tpos == 0 else 'xt'
    arrs = [t, x] if tpos == 0 else [x, t]
    shape = [len(a) for a in arrs]
    fld = viscid.zeros(arrs, crd_names=names, center=center, layout='flat')
    vals = rng.standard_normal(shape)
    fld.data[...] = vals
    ctx.note(kind=kind, unit=unit, ms=ms.tolist(), names=names)
    num_t = ms + off     # numbers on the axis in ms

    def lim():
        r = rng.randint(6)
        if r < 3:
            return int(num_t[rng.randint(n)])
        if r < 5:
            i = rng.randint(n - 1)
            return int(num_t[i] + rng.randint(1, 99) * (num_t[i + 1] - num_t[i]) // 100)
        return int([num_t[0] - max(7000, int(ms[-1]) // 50),
                    num_t[-1] + max(9000, int(ms[-1]) // 50)][rng.randint(2)])

    def forms(v, form):
        """v: ms on the axis"""
        if form == 'native-date':
            return (base + np.timedelta64(v, 'ms'))
        if form == 'py-date':
            return (base + np.timedelta64(v, 'ms')).astype('M8[us]').item()
        if form == 'date-string':
            return str((base + np.timedelta64(v, 'ms')).astype('M8[ms]'))
        if form == 'ut-string':
            return 'UT' + str((base + np.timedelta64(v, 'ms')).astype('M8[ms]'))
        if form == 'elapsed':
            return np.timedelta64(v, 'ms')
        if form == 'py-elapsed':
            return np.timedelta64(v * 1000, 'us').item()
        if form in ('t-string', 'clock-string'):
            s = v / 1000
            pre = 'T' if form == 't-string' else ''
            return pre + "%02d:%02d:%06.3f" % (s // 3600, s % 3600 // 60, s % 60)
        return 1j * (v / 1000.0)

    def ok(v, form):
        if form in ('t-string', 'clock-string'):
            return 0 <= v < 99 * 3600 * 1000
        return True

    date_forms = ['native-date', 'py-date', 'date-string', 'ut-string']
    el_forms = ['elapsed', 'py-elapsed', 't-string', 'clock-string', 'number']
    if kind == 'date':
        allf = date_forms + el_forms
    else:
        allf = el_forms
    for rep in range(8):
        form = allf[rng.randint(len(allf))]
        single = rng.randint(3) == 0
        if single:
            v = lim()
            d = np.sort(np.abs(num_t - v))
            if (len(d) > 1 and d[0] == d[1]) or not ok(v, form) or form == 'clock-string':
                continue
            idx = int(np.argmin(np.abs(num_t - v)))
            sel = forms(v, form)
            wt = None
        else:
            a = lim() if rng.randint(4) else None
            b = lim() if rng.randint(4) else None
            if (a is not None and not ok(a, form)) or (b is not None and not ok(b, form)):
                continue
            step = [None, 1, 2, -1, -2][rng.randint(5)]
            if a is not None and b is not None and rng.randint(6):
                a, b = min(a, b), max(a, b)
                if step is not None and step < 0:
                    a, b = b, a
            idx = in_range(num_t, a, b, step)
            fa = None if a is None else forms(a, form)
            fb = None if b is None else forms(b, form)
            if form in ('ut-string', 't-string') and rng.randint(2):
                sel = "%s:%s" % (fa or '', fb or '')
                if step is not None:
                    sel += ":%d" % step
            else:
                sel = slice(fa, fb, step)
            wt = t[idx]
        ax = tpos
        if isinstance(sel, str) and rng.randint(2):
            full = "t=" + sel
        elif ax == 0:
            full = sel if rng.randint(2) else (sel, slice(None))
        else:
            full = (slice(None), sel)
        got = fld[full]
        msg = lambda: repr(dict(sel=repr(full), form=form, kind=kind, idx=np.asarray(idx).tolist()))  # noqa
        want = np.take(vals, idx, axis=ax)
        ctx.check(hasattr(got, 'crds'), "time/type", msg)
        ctx.same(got.data, want, "time/%s/values" % kind, msg)
        if wt is not None:
            ctx.same(got.get_crd('t'), wt, "time/%s/crds" % kind, msg)
        ctx.same(got.get_crd('x'), x, "time/x-crds", msg)
        ctx.count("time_%s_%s" % (kind, form))
        ctx.saw(kind, form, single, unit, tpos, np.size(idx) > 0)


def sc_kernel(ctx, rng):
    """the documented value-to-index function on plain arrays"""
    import viscid
    for rep in range(20):
        n = int(rng.randint(1, 30))
        dt = ['f8', 'f4'][rng.randint(2)]
        c = gen.rand_nc(rng, n, ['uniform', 'stretched', 'dyadic'][rng.randint(3)], dtype=dt)
        if n > 1 and np.min(np.diff(c)) <= 0:
            continue
        cc = c.astype('f8')
        s, idx, form = rand_value_sel(rng, 'x', cc)
        if isinstance(s, list):
            s = np.array(s)
        got = viscid.std_sel2index(viscid.standardize_sel(s), c)
        msg = lambda: repr((s, form, c.tolist(), got))  # noqa
        if isinstance(idx, (int, np.integer)):
            ctx.check(np.ndim(got) == 0 and int(got) == idx, "kernel/single", msg)
        else:
            ctx.same(np.arange(n)[got], idx, "kernel/" + form, msg)
        ctx.saw(form, n > 1, dt, len(np.atleast_1d(idx)) > 0)


def sc_interp(ctx, rng):
    """interpolated_slice: values of the blend at the exact location"""
    fld, m, desc = gen.rand_field(rng, ndim=3, ncomp=0, lo=2, hi=7)
    ctx.note(**desc)
    snap = gen.snapshot(fld)
    C = centers(fld, m)
    for rep in range(3):
        vals = m.vals.astype('f8')
        axes, sel = [], []
        for ax in range(2, -1, -1):
            c = C[ax]
            r = rng.randint(3)
            if r == 0:
                v = float(rng.uniform(c[0], c[-1]))
                if rng.randint(4) == 0:
                    v = float(c[rng.randint(len(c))])
                i = int(np.clip(np.searchsorted(c, v, side='right') - 1, 0, len(c) - 2))
                w = (v - c[i]) / (c[i + 1] - c[i])
                vals = (1 - w) * np.take(vals, i, ax) + w * np.take(vals, i + 1, ax)
                sel.insert(0, v * 1j)
            elif r == 1:
                i = int(rng.randint(len(c)))
                sel.insert(0, i)
                vals = np.take(vals, i, ax)
            else:
                sel.insert(0, slice(None))
                a = m.axes[ax]
                axes.insert(0, a)
        got = fld.interpolated_slice(tuple(sel))
        msg = lambda: repr((sel, desc))  # noqa
        if not axes:
            ctx.close(np.asarray(got).reshape(()), vals, "interp/number", rtol=1e-9, atol=1e-9, msg=msg)
        else:
            w = gen.Model(vals, axes, m.center, 0)
            gen.check_field(ctx, got, w, "interp", exact=False, rtol=1e-8, atol=1e-8, msg=msg)
        ctx.saw(tuple(type(s).__name__ for s in sel), desc['center'], desc['crd_type'])
        gen.check_unchanged(ctx, fld, snap, "source-changed")


SCENARIOS = [
    Scenario("ranges", sc_ranges, quick=5000, thorough=120000),
    Scenario("assign", sc_assign, quick=1200, thorough=20000),
    Scenario("time", sc_time, quick=2500, thorough=60000),
    Scenario("kernel", sc_kernel, quick=1500, thorough=30000),
    Scenario("interp", sc_interp, quick=500, thorough=8000),
]

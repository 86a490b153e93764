"""F01: selecting by index agrees with numpy, values and coordinates alike"""
import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen

PID = "F01"
RULE = ("every case is a random field (1-4 axes, node/cell, scalar/vector in "
        "either layout, uniform/stretched coordinates, any memory order) with "
        "random selections; a model holding plain arrays performs numpy's "
        "selection axis by axis, and values, coordinates, axis names, "
        "centering, component count of the result, and the source are "
        "compared with it exactly")
ASSUMPTIONS = ["when index arrays are combined with other selections, each "
               "axis is selected on its own (the result has to be a grid)",
               "node coordinates of a cell-centered result are compared only "
               "for unit-stride selections; cell centers always"]


# -- one axis selection ---------------------------------------------------
def rand_slice(rng, n):
    def lim():
        r = rng.randint(6)
        if r == 0:
            return None
        if r == 1:
            return int(rng.randint(-2 * n - 1, 2 * n + 2))
        return int(rng.randint(-n, n + 1))
    step = [None, 1, 1, 2, 3, -1, -1, -2, -3, n + 1][rng.randint(10)]
    return slice(lim(), lim(), step)


def rand_sel(rng, n, allow_arr=True):
    """returns (selection, kind)"""
    r = rng.randint(12)
    if r < 3:
        i = int(rng.randint(-n, n))
        if rng.randint(3) == 0:
            i = np.int64(i)
        return i, 'int'
    if r < 8 or not allow_arr:
        if r < 4:
            return slice(None), 'all'
        return rand_slice(rng, n), 'slice'
    if r < 10:
        k = int(rng.randint(1, n + 2))
        a = rng.randint(-n, n, size=k)
        if rng.randint(3):
            a = np.unique(a % n)
        return (a.tolist() if rng.randint(2) else a), 'array'
    m = rng.randint(0, 2, size=n).astype(bool)
    m[rng.randint(n)] = True
    return (m.tolist() if rng.randint(2) else m), 'mask'


def sel_axis(axis, sel, kind, center, keep=False):
    """(new Axis or None if dropped, numpy index, unit stride?)"""
    n = len(axis.cc) if center == 'cell' else len(axis.nc)
    if kind == 'int':
        i = int(sel) % n
        if not keep:
            return None, i, True
        if center == 'cell':
            return gen.Axis(axis.name, axis.nc[i:i + 2], axis.cc[i:i + 1]), slice(i, i + 1), True
        return gen.Axis(axis.name, axis.nc[i:i + 1]), slice(i, i + 1), True
    idx = np.arange(n)
    if kind in ('array', 'mask'):
        got = idx[np.asarray(sel)]
    else:
        got = idx[sel]
    unit = len(got) > 0 and (len(got) == 1 or bool(np.all(np.diff(got) == 1)) or
                             bool(np.all(np.diff(got) == -1)))
    if center == 'cell':
        if kind in ('slice', 'all') and unit and sel.step in (None, 1, -1):
            sgn = -1 if sel.step == -1 else 1
            if sgn > 0:
                nc = axis.nc[got[0]:got[-1] + 2]
            else:
                nc = axis.nc[got[-1]:got[0] + 2][::-1]
            return gen.Axis(axis.name, nc, axis.cc[got]), got, True
        return gen.Axis(axis.name, np.concatenate([axis.cc[got], [0]]),
                        axis.cc[got]), got, False
    return gen.Axis(axis.name, axis.nc[got]), got, True


def take(vals, axis, idx):
    if isinstance(idx, (int, np.integer)):
        return np.take(vals, idx, axis=axis)
    if isinstance(idx, slice):
        return vals[(slice(None),) * axis + (idx,)]
    return np.take(vals, idx, axis=axis)


def apply_model(model, sels, kinds, keep=False, comp=None, newax=()):
    """newax: list of (position among selections, name)"""
    vals = model.vals
    axes, strict = [], True
    for ax in range(len(model.axes) - 1, -1, -1):
        a, idx, unit = sel_axis(model.axes[ax], sels[ax], kinds[ax], model.center, keep)
        vals = take(vals, ax, idx)
        strict = strict and unit
        axes.insert(0, a)
    kept = [a for a in axes if a is not None]
    ncomp = model.ncomp
    if comp is not None:
        vals = vals[..., comp]
        ncomp = 0
    return gen.Model(vals, kept, model.center, ncomp), strict, axes


def as_str(sel, kind):
    if kind == 'int':
        return str(int(sel))
    if kind in ('slice', 'all'):
        s = "%s:%s" % ("" if sel.start is None else sel.start,
                       "" if sel.stop is None else sel.stop)
        if sel.step is not None:
            s += ":%d" % sel.step
        return s
    return "[" + ",".join(str(v) for v in np.asarray(sel).tolist()) + "]"


def compare(ctx, got, model, strict, key, desc):
    """scalars come back as plain numbers, as for numpy"""
    msg = lambda: repr(desc)  # noqa
    if model.vals.size == 1 and not hasattr(got, 'crds'):
        ctx.check(not isinstance(got, np.ndarray) or got.shape == (),
                  key + "/number", msg)
        ctx.same(got, model.vals.reshape(()), key + "/number", msg)
        return
    gen.check_field(ctx, got, model, key, crds='both' if strict and
                    model.center == 'cell' else 'own', msg=msg)
    if hasattr(got, 'crds') and desc.get('units'):
        want = [UNIT.format(a) if a in desc['units'] else '' for a in got.crds.axes]
        ctx.check(list(got.crds.units) == want, key + "/units",
                  lambda: "%s of axes %s %s" % (got.crds.units, got.crds.axes, msg()))


UNIT = gen.UNIT


def pick(ctx, rng, **kw):
    kw.setdefault("dtype", ['f8', 'f4', 'i4', 'i8'][rng.randint(4)])
    fld, m, desc = gen.rand_field(rng, ndim=kw.pop("ndim", int(rng.randint(1, 5))), **kw)
    if m.axes[0].unit:
        # each axis has its own unit
        desc['units'] = [a.name for a in m.axes]
    return fld, m, desc


def sc_index(ctx, rng):
    """tuples of per-axis selections, the three flavours of dropping axes"""
    fld, m, desc = pick(ctx, rng)
    snap = gen.snapshot(fld)
    ctx.note(**desc)
    for rep in range(6):
        nsel = int(rng.randint(1, len(m.axes) + 1))
        sels, kinds = [], []
        arr_ok = rng.randint(3) == 0
        for n in m.vals.shape[:len(m.axes)]:
            if len(sels) < nsel:
                s, k = rand_sel(rng, n, arr_ok)
                if k in ('array', 'mask'):
                    arr_ok = rng.randint(4) == 0
            else:
                s, k = slice(None), 'all'
            sels.append(s)
            kinds.append(k)
        comp = None
        if m.ncomp and rng.randint(2):
            comp = int(rng.randint(m.ncomp))
        flavour = ['slice', 'slice', 'keep', 'reduce'][rng.randint(4)]
        want, strict, _ = apply_model(m, sels, kinds, keep=flavour == 'keep', comp=comp)
        if want.vals.size == 0:
            ctx.count("empty")
        form = ['tuple', 'tuple', 'strings', 'string', 'named', 'mixed'][rng.randint(6)]
        use = list(zip(range(nsel), sels[:nsel], kinds[:nsel]))
        if form == 'tuple':
            sel = [s for _, s, _ in use]
        elif form == 'mixed':
            # the leading axes by position, the others by name
            lead = int(rng.randint(len(use) + 1))
            sel = [s if rng.randint(2) else as_str(s, k) for _, s, k in use[:lead]]
            rest = [m.axes[i].name + "=" + as_str(s, k) for i, s, k in use[lead:]]
            sel += [rest[i] for i in rng.permutation(len(rest))]
        else:
            names = form == 'named'
            sel = [(m.axes[i].name + "=" if names else "") + as_str(s, k)
                   for i, s, k in use]
            if names and rng.randint(2):
                # order of named selections does not matter
                sel = [sel[i] for i in rng.permutation(len(sel))]
        if comp is not None:
            cname = gen.COMP[comp]
            if rng.randint(4) == 0:
                cname = " " * int(rng.randint(2)) + cname.upper() + " " * int(rng.randint(2))
            sel.insert(int(rng.randint(len(sel) + 1)), cname)
        if form == 'string':
            sel = ", ".join(sel)
        elif len(sel) == 1 and rng.randint(2):
            sel = sel[0]
        else:
            sel = tuple(sel)
        d = dict(sel=repr(sel), flavour=flavour, **desc)
        import copy
        sel0 = copy.deepcopy(sel)
        if flavour == 'slice':
            got = fld[sel] if rng.randint(3) else fld.iloc[sel]
        elif flavour == 'keep':
            got = fld.slice_keep(sel) if rng.randint(2) else fld.slice_and_keep(sel)
        else:
            got = fld.slice_reduce(sel) if rng.randint(2) else fld.slice_and_reduce(sel)
            # axes that had one point to begin with go as well
            drop = [i for i, (k, a) in enumerate(zip(kinds, m.axes))
                    if k != 'int' and len(a.cc if m.center == 'cell' else a.nc) == 1]
            if drop:
                v = m.vals
                s2, k2 = list(sels), list(kinds)
                for i in drop:
                    # (numpy drops what the selection left of it)
                    s2[i], k2[i] = 0, 'int'
                want, strict, _ = apply_model(m, s2, k2, comp=comp)
        ctx.check(repr(sel0) == repr(sel), "selection-changed",
                  "%r became %r" % (sel0, sel))
        key = "%s/%s" % (flavour, form)
        compare(ctx, got, want, strict, key, d)
        ctx.saw(tuple(kinds), desc['center'], desc['layout'], flavour, form,
                comp is not None, desc['crd_type'])
        ctx.count("sel_" + flavour + "_" + form)
    gen.check_unchanged(ctx, fld, snap, "source-changed")


def sc_newaxis(ctx, rng):
    """ellipsis and new axes"""
    fld, m, desc = pick(ctx, rng, ndim=int(rng.randint(1, 4)), lo=2)
    snap = gen.snapshot(fld)
    nd = len(m.axes)
    for rep in range(5):
        n_after = int(rng.randint(0, nd + 1))
        n_before = int(rng.randint(0, nd - n_after + 1))
        sels, kinds = [slice(None)] * nd, ['all'] * nd
        for i in list(range(n_before)) + list(range(nd - n_after, nd)):
            s, k = rand_sel(rng, m.vals.shape[i], False)
            sels[i], kinds[i] = s, k
        use_ell = rng.randint(2) or n_before + n_after < 1
        if not use_ell and n_after:
            n_before, n_after = nd, 0
            for i in range(nd):
                sels[i], kinds[i] = rand_sel(rng, m.vals.shape[i], False)
        items = [('s', i) for i in range(n_before)]
        if use_ell:
            items += [('e', None)]
            items += [('s', i) for i in range(nd - n_after, nd)]
        names = ['w', 't', 'q']
        nnew = int(rng.randint(0, 3))
        for j in range(nnew):
            items.insert(int(rng.randint(len(items) + 1)), ('n', None))
        comp = int(rng.randint(m.ncomp)) if m.ncomp and rng.randint(2) else None
        want, strict, axes = apply_model(m, sels, kinds, comp=comp)
        if want.vals.size <= 1:
            ctx.count("empty_or_number")
            continue
        # where do the new axes go
        out_axes, sel, q, unnamed = [], [], 0, 0
        vals = want.vals
        pos_in_vals = 0
        nspatial_done = 0
        for kind, i in items:
            if kind == 's':
                sel.append(sels[i])
                if axes[i] is not None:
                    out_axes.append(axes[i])
                nspatial_done = i + 1
            elif kind == 'e':
                sel.append(Ellipsis)
                for i in range(nspatial_done, nd - n_after):
                    if axes[i] is not None:
                        out_axes.append(axes[i])
                nspatial_done = nd - n_after
            else:
                if rng.randint(2):
                    nm = names[q]
                    q += 1
                    sel.append(nm + "=newaxis")
                else:
                    nm = "new-x%d" % unnamed
                    unnamed += 1
                    sel.append([np.newaxis, 'newaxis'][rng.randint(2)])
                vals = np.expand_dims(vals, len(out_axes))
                out_axes.append(gen.Axis(nm, [-0.1, 0.1] if m.center == 'cell' else [0.0]))
        for i in range(nspatial_done, nd):
            if axes[i] is not None:
                out_axes.append(axes[i])
        if comp is not None:
            sel.insert(int(rng.randint(len(sel) + 1)), gen.COMP[comp])
        w = gen.Model(vals, out_axes, m.center, want.ncomp)
        d = dict(sel=repr(sel), **desc)
        got = fld[tuple(sel)]
        compare(ctx, got, w, strict, "newaxis", d)
        ctx.saw(tuple(k for k, _ in items), tuple(kinds), desc['layout'], desc['center'],
                comp is not None)
        ctx.count("new_axes_%d" % nnew)
    ctx.note(**desc)
    gen.check_unchanged(ctx, fld, snap, "source-changed")


def sc_reject(ctx, rng):
    """selections that make no sense are refused, not half applied"""
    fld, m, desc = pick(ctx, rng)
    snap = gen.snapshot(fld)
    names = [a.name for a in m.axes]
    for rep in range(3):
        what = ['repeat', 'repeat', 'many', 'ellipsis', 'range', 'name', 'comps'][rng.randint(7)]
        i = int(rng.randint(len(names)))
        n = m.vals.shape[i]
        one = str(int(rng.randint(n)))
        if what == 'repeat':
            if rng.randint(2):
                sel = [slice(None)] * i + [int(one), names[i] + "=" + one]
            else:
                sel = [names[i] + "=" + one, names[i] + "=" + str(int(rng.randint(n)))]
                if len(names) > 1 and rng.randint(2):
                    j = (i + 1) % len(names)
                    sel.insert(1, names[j] + "=0")
        elif what == 'many':
            sel = [slice(None)] * len(names) + [0]
        elif what == 'ellipsis':
            sel = [Ellipsis, 0, Ellipsis]
        elif what == 'range':
            sel = [slice(None)] * i + [n + int(rng.randint(3)) if rng.randint(2) else -n - 1 - int(rng.randint(3))]
        elif what == 'name':
            sel = ["nosuch=0"]
        else:
            if m.ncomp < 2:
                continue
            sel = [gen.COMP[0], gen.COMP[1]]
        how = ['get', 'keep', 'reduce', 'set'][rng.randint(4)]
        sel = tuple(sel)
        ctx.note(sel=repr(sel), how=how, **desc)
        func = dict(get=lambda: fld[sel], keep=lambda: fld.slice_keep(sel),
                    reduce=lambda: fld.slice_reduce(sel),
                    set=lambda: fld.__setitem__(sel, 0))[how]
        ctx.raises((IndexError, ValueError, TypeError), func, "reject/" + what,
                   lambda: "%r %s %s" % (sel, how, desc))
        ctx.saw(what, how, len(names), desc['center'])
    gen.check_unchanged(ctx, fld, snap, "source-changed")


def put(rng, fld, sel, val):
    how = rng.randint(6)
    if how == 0:
        fld.iloc[sel] = val
    elif how == 1:
        fld.set_slice(sel, val)
    else:
        fld[sel] = val


def sc_assign(ctx, rng):
    """assignment writes the selected values and nothing else"""
    fld, m, desc = pick(ctx, rng, dtype='f8', order='C')
    ctx.note(**desc)
    fld.resolve()
    for rep in range(5):
        sels, kinds = [], []
        arr_used = False
        for n in m.vals.shape[:len(m.axes)]:
            s, k = rand_sel(rng, n, not arr_used and rng.randint(3) == 0)
            arr_used = arr_used or k in ('array', 'mask')
            sels.append(s)
            kinds.append(k)
        if arr_used:    # no mixing with other advanced indices
            sels = [slice(None) if k == 'int' else s for s, k in zip(sels, kinds)]
            kinds = ['all' if k == 'int' else k for k in kinds]
        comp = int(rng.randint(m.ncomp)) if m.ncomp and rng.randint(2) and not arr_used else None
        idx = []
        for ax, (s, k) in enumerate(zip(sels, kinds)):
            _, ix, _ = sel_axis(m.axes[ax], s, k, m.center)
            idx.append(np.atleast_1d(ix))
        if m.ncomp:
            idx.append(np.array([comp]) if comp is not None else np.arange(m.ncomp))
        if min(len(i) for i in idx) == 0:
            ctx.count("empty")
            continue
        want = m.vals.copy()
        val = float(rng.standard_normal())
        want[np.ix_(*idx)] = val
        sel = list(sels)
        if comp is not None:
            sel.insert(int(rng.randint(len(sel) + 1)), gen.COMP[comp])
        put(rng, fld, tuple(sel), val)
        m.vals = want
        gen.check_field(ctx, fld, m, "assign", msg=lambda: repr((sel, desc)))
        ctx.saw(tuple(kinds), desc['layout'], desc['center'], comp is not None)
        # an array of values, shaped like the selection
        if not arr_used:
            shp = [len(i) for i, k in zip(idx, kinds + ['c']) if k != 'int']
            if m.ncomp and comp is not None:
                shp = shp[:-1]
            if int(np.prod(shp)) == 0:
                continue
            v = rng.standard_normal(shp)
            full = v.reshape([len(i) for i in idx])
            want = m.vals.copy()
            want[np.ix_(*idx)] = full
            vv = v
            if m.ncomp and comp is None and fld.layout == 'flat':
                vv = np.moveaxis(v, -1, 0)
            put(rng, fld, tuple(sel), vv)
            m.vals = want
            gen.check_field(ctx, fld, m, "assign-array", msg=lambda: repr((sel, desc)))


def sc_chain(ctx, rng):
    """a selection of a selection equals the composed selection"""
    fld, m, desc = pick(ctx, rng, hi=8)
    ctx.note(**desc)
    cur, cm = fld, m
    for step in range(4):
        if not hasattr(cur, 'crds') or cm.vals.size <= 1:
            break
        sels, kinds = [], []
        for n in cm.vals.shape[:len(cm.axes)]:
            s, k = rand_sel(rng, n, False)
            if k == 'int' and rng.randint(2):
                s, k = slice(None), 'all'
            sels.append(s)
            kinds.append(k)
        want, strict, _ = apply_model(cm, sels, kinds)
        if want.vals.size == 0:
            continue
        got = cur[tuple(sels)]
        compare(ctx, got, want, False, "chain", dict(sel=repr(sels), step=step, **desc))
        ctx.saw(step, tuple(kinds), desc['center'], desc['layout'])
        if want.vals.size <= 1:
            break
        cur, cm = got, want
        # the model follows the field's own nodes from here on
        for a, nc in zip(cm.axes, got.crds.get_crds_nc()):
            a.nc = np.array(nc)


def sc_crds(ctx, rng):
    """the same selections made on a coordinate object alone"""
    fld, m, desc = pick(ctx, rng, dtype='f8', ncomp=0)
    crds = fld.crds
    ctx.note(**desc)
    cc = m.center == 'cell'
    before = [np.array(c) for c in crds.get_crds_nc() + crds.get_crds_cc()]
    nd = len(m.axes)
    for rep in range(5):
        nsel = int(rng.randint(1, nd + 1))
        sels, kinds = [], []
        arr_ok = rng.randint(3) == 0
        for i, n in enumerate(m.vals.shape):
            s, k = rand_sel(rng, n, arr_ok) if i < nsel else (slice(None), 'all')
            sels.append(s)
            kinds.append(k)
        flavour = ['slice', 'keep', 'reduce'][rng.randint(3)]
        form = ['tuple', 'strings', 'string', 'named'][rng.randint(4)]
        if form == 'tuple':
            sel = tuple(sels[:nsel])
        else:
            sel = [(m.axes[i].name + "=" if form == 'named' else "") +
                   as_str(sels[i], kinds[i]) for i in range(nsel)]
            if form == 'named':
                sel = [sel[i] for i in rng.permutation(nsel)]
            sel = ", ".join(sel) if form == 'string' else tuple(sel)
        s2, k2 = list(sels), list(kinds)
        func = {'slice': ['slice'], 'keep': ['slice_keep', 'slice_and_keep'],
                'reduce': ['slice_reduce', 'slice_and_reduce']}[flavour]
        if flavour == 'reduce':
            for i, n in enumerate(m.vals.shape):
                if kinds[i] != 'int' and n == 1:
                    s2[i], k2[i] = 0, 'int'
        want, strict, _ = apply_model(m, s2, k2, keep=flavour == 'keep')
        if 0 in want.vals.shape or not want.axes:
            ctx.count("empty")
            continue
        got = getattr(crds, func[rng.randint(len(func))])(sel, cc=cc)
        d = lambda: repr((sel, flavour, desc))  # noqa
        key = "crds/" + flavour
        ctx.check(list(got.axes) == [a.name for a in want.axes], key + "/axes", d)
        for a in want.axes:
            sc = max(np.max(np.abs(a.nc)) if len(a.nc) else 0.0, 1e-300)
            sc = max(sc, np.max(np.abs(a.cc)) if len(a.cc) else 0.0)
            if cc:
                gen.check_crd(ctx, got.get_cc(a.name), a.cc, key + "/cc", sc, d)
            if strict or not cc:
                gen.check_crd(ctx, got.get_nc(a.name), a.nc, key + "/nc", sc, d)
        if desc.get('units'):
            ctx.check(list(got.units) == [UNIT.format(a.name) for a in want.axes],
                      key + "/units", lambda: "%s %s" % (got.units, d()))
        ctx.check(('cartesian' in got.crdtype) == ('cartesian' in crds.crdtype),
                  key + "/crdtype", d)
        ctx.saw(flavour, form, tuple(kinds), cc, desc['crd_type'])
        ctx.count("crds_" + flavour)
    after = crds.get_crds_nc() + crds.get_crds_cc()
    for b, a in zip(before, after):
        ctx.same(np.asarray(a), b, "crds/source-changed")


def sc_masked(ctx, rng):
    """selections of masked data keep the mask where it was"""
    f, m, desc = gen.masked_field(rng)
    sel, nsel = [], []
    for n in desc['sshape']:
        k = rng.randint(4)
        i = int(rng.randint(n))
        if k == 0:
            s = i
        elif k == 1:
            s = slice(None)
        elif k == 2:
            s = slice(int(rng.randint(0, 2)), int(rng.randint(n - 1, n + 1)), int(rng.randint(1, 3)))
        else:
            s = slice(None, None, -1)
        sel.append(s)
    keep = bool(rng.randint(2))
    want = m.vals[tuple(slice(s, s + 1) if keep and isinstance(s, int) else s for s in sel)]
    comp = desc['ncomp'] and rng.randint(2)
    ctx.note(sel=repr(sel), keep=keep, **desc)
    if want.size == 1:
        raise Skip()
    g = f
    if comp:
        c = int(rng.randint(desc['ncomp']))
        g, want = f["xyz"[c]], want[..., c]
        if want.size == 1:
            raise Skip()
    g = g.slice_keep(tuple(sel)) if keep else g[tuple(sel)]
    gen.check_masked(ctx, g, want, "masked", lambda: repr(sel))
    gen.check_masked(ctx, f, m.vals, "masked/source")
    ctx.saw(desc['layout'], desc['ncomp'], keep, bool(comp), tuple(type(s).__name__ for s in sel))


SCENARIOS = [
    Scenario("masked", sc_masked, quick=600, thorough=15000),
    Scenario("index", sc_index, quick=6000, thorough=150000),
    Scenario("reject", sc_reject, quick=1000, thorough=20000),
    Scenario("newaxis", sc_newaxis, quick=2000, thorough=40000),
    Scenario("assign", sc_assign, quick=2000, thorough=40000),
    Scenario("chain", sc_chain, quick=2000, thorough=40000),
    Scenario("crds", sc_crds, quick=2000, thorough=40000),
]

"""D01 selecting the time steps of a data set"""
from __future__ import print_function
import datetime as dtm

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext
import viscid
from viscid.dataset import Dataset, DatasetTemporal
from viscid.grid import Grid

PID = "D01"
TECHNIQUE = ("runtime monitoring: histories of additions, selections, "
             "activations, removals and reads on real data sets; every step "
             "list, count, fetched step, field and range is judged by a plain "
             "list of (time, step) pairs kept beside the data set")
RULE = ("an execution counts when the identities of the selected steps were "
        "compared with the model's; signatures are (selection form, value "
        "form, step, options, nesting, deferred)")
ASSUMPTIONS = [
    "a single value closer than 1e-9 (relative) to the middle between two "
    "steps, or a limit between 0 and 1 times the documented tolerance (1e-4 "
    "of the smallest spacing) from a step, is left out",
    "val_endpoint=False leaves out the last step of the inclusive range, as "
    "the test suite has it",
    "interior selections are made within the covered time, with steps of one either way",
]
BASE = ['1980-01-01', '2012-02-28T23:59:50', '1967-01-01T00:00:00.5']


def setup():
    ext.ensure()
    viscid.logger.setLevel(50)


class Ref(object):
    """the model: pairs (time, key) in time order, first come first"""

    def __init__(self):
        self.steps = []
        self.active = None

    def add(self, t, key):
        i = len(self.steps)
        while i > 0 and self.steps[i - 1][0] > t:
            i -= 1
        self.steps.insert(i, (t, key))
        self.active = key

    @property
    def t(self):
        return np.array([s[0] for s in self.steps])


def make_grid(t, key):
    g = Grid(time=t, name="step%d" % key)
    c = viscid.arrays2crds([np.arange(2.0) + key])
    g.crds = c
    g.add_field(viscid.wrap_field(np.array([key, key + 0.5]), c, name='a'),
                viscid.wrap_field(np.array([-key, 1.0]), c, name='b'))
    return g


def key_of(g):
    """the number of a step, told from its content"""
    return int(round(float(np.asarray(g['a'].data)[0])))


def r_times(rng, n):
    k = rng.randint(5)
    if k == 0:
        t = np.arange(n) * float(rng.randint(1, 60)) + rng.randint(-100, 100)
    elif k == 1:
        t = np.cumsum(rng.uniform(0.05, 3.0, size=n)) + rng.uniform(-10, 10)
    elif k == 2:
        t = np.cumsum(rng.randint(1, 5000, size=n)) * 1.0 * 10.0 ** rng.randint(-3, 2)
    elif k == 3:
        t = np.round(np.cumsum(rng.uniform(1, 5, size=n)), 3)
    else:
        t = np.round(rng.uniform(0, n, size=n), 0)      # some times come twice
    t = [float(x) for x in t]
    return [t[i] for i in rng.permutation(n)]


def tol_of(t):
    if len(t) > 1:
        return 1e-4 * np.min(np.diff(t))
    return 0.0


def r_value(rng, t, tol, single):
    """a time to select by, clear of the ambiguities"""
    lo, hi = t[0], t[-1]
    span = max(hi - lo, 1.0)
    for _ in range(50):
        k = rng.randint(4)
        if k == 0:
            v = float(t[rng.randint(len(t))])
        elif k == 1:
            v = float(rng.uniform(lo - 0.3 * span, hi + 0.3 * span))
        elif k == 2:
            v = float(np.round(rng.uniform(lo, hi), 2))
        else:
            v = float(rng.choice(t)) + rng.choice([-1, 1]) * 0.3 * span / len(t)
        # whole microseconds, so that dates can name them
        v = round(v, 6)
        d = np.sort(np.abs(t - v))
        if single:
            far = d[d > d[0]]
            if len(far) and far[0] - d[0] < 1e-9 * (1 + abs(v)) + 3e-6:
                continue
            return v
        m = np.min(np.abs(t - v))
        if m == 0:
            return v
        if m < max(10 * tol, 1e-8 * (1 + abs(v)), 3e-6):
            continue
        return v
    raise Skip("no clear value")


def range_inds(t, start, stop, step, tol, val_endpoint):
    """indices for a range; limits are ('i', n), ('v', x) or None"""
    n = len(t)
    step = 1 if step is None else step
    if step > 0:
        if start is not None and start[0] == 'v':
            ok = np.nonzero(t >= start[1] - tol)[0]
            a = int(ok[0]) if len(ok) else n
        else:
            a = None if start is None else start[1]
        if stop is not None and stop[0] == 'v':
            ok = np.nonzero(t <= stop[1] + tol)[0]
            b = int(ok[-1]) + (1 if val_endpoint else 0) if len(ok) else 0
        else:
            b = None if stop is None else stop[1]
        return list(range(n))[slice(a, b, step)]
    inds = list(range(n))
    if start is not None and start[0] == 'v':
        ok = np.nonzero(t <= start[1] + tol)[0]
        if not len(ok):
            return []
        a = int(ok[-1])
    else:
        a = None if start is None else start[1]
    if stop is not None and stop[0] == 'v':
        ok = np.nonzero(t >= stop[1] - tol)[0]
        if not len(ok):
            return []
        b = int(ok[0])
        if val_endpoint:
            b = b - 1 if b > 0 else None
    else:
        b = None if stop is None else stop[1]
    return inds[slice(a, b, step)]


def td_str(x):
    """elapsed time with a T in front"""
    us = int(round(abs(x) * 1e6))
    s, us = divmod(us, 10 ** 6)
    h, r = divmod(s, 3600)
    return "T%s%02d:%02d:%02d.%06d" % ('-' if x < 0 else '', h, r // 60, r % 60, us)


def value_form(rng, x, base, allow_str=True):
    """(object that names the time x, form name)"""
    forms = ['imag', 'fstr', 'jstr', 'npimag', 'td64', 'td64us', 'td', 'float', 'npfloat']
    if 0 <= x < 86400 * 4:
        forms += ['tstr']
    if base is not None:
        forms += ['dt', 'dt64', 'utstr', 'dt64ms']
    f = forms[rng.randint(len(forms))]
    us = int(round(x * 1e6))
    if f == 'imag':
        return 1j * x, f
    if f == 'npimag':
        return np.complex128(1j * x), f
    if f == 'fstr':
        return "%.6ff" % x, f
    if f == 'jstr':
        return "%rj" % x, f
    if f in ('td64', 'td64us'):
        return np.timedelta64(us, 'us'), f
    if f == 'td':
        return dtm.timedelta(microseconds=us), f
    if f == 'float':
        return x, f
    if f == 'npfloat':
        return np.float64(x), f
    if f == 'tstr':
        return td_str(x), f
    d = base + np.timedelta64(us, 'us')
    if f == 'dt':
        return d.astype(dtm.datetime), f
    if f == 'utstr':
        return "UT" + str(d), f
    if f == 'dt64ms' and us % 1000 == 0:
        return d.astype('M8[ms]'), f
    return d, 'dt64'


def r_sel(rng, t, base):
    """(selection, wanted indices, kwargs, signature)"""
    n = len(t)
    tol = tol_of(t)
    k = rng.randint(10)
    if k == 0:
        i = int(rng.randint(-n, n))
        s = i
        r = rng.randint(3)
        if r == 1:
            s = str(i)
        elif r == 2:
            s = np.int32(i)
        return s, [i % n], {}, ('int', r)
    if k == 1:
        x = r_value(rng, t, tol, True)
        s, f = value_form(rng, x, base)
        # several steps can be equally near when times repeat: the first
        return s, [int(np.argmin(np.abs(t - x)))], {}, ('nearest', f)
    if k == 2:
        # lists
        r = rng.randint(4)
        m = int(rng.randint(1, n + 2))
        if r == 0:
            a = [int(v) for v in rng.randint(-n, n, size=m)]
            want = [v % n for v in a]
            s = [a, np.array(a), "[" + ",".join(map(str, a)) + "]"][rng.randint(3)]
        elif r == 1:
            xs = [r_value(rng, t, tol, True) for _ in range(m)]
            want = [int(np.argmin(np.abs(t - x))) for x in xs]
            s = [[1j * x for x in xs], np.array(xs) * 1j,
                 "[" + ", ".join("%rf" % x for x in xs) + "]"][rng.randint(3)]
        elif r == 2:
            b = rng.randint(2, size=n).astype(bool)
            b[rng.randint(n)] = True
            want = [int(v) for v in np.nonzero(b)[0]]
            s = [b, [bool(v) for v in b],
                 "[" + ",".join(str(bool(v)) for v in b) + "]"][rng.randint(3)]
        else:
            xs = [r_value(rng, t, tol, True) for _ in range(m)]
            want = [int(np.argmin(np.abs(t - x))) for x in xs]
            us = np.array([int(round(x * 1e6)) for x in xs])
            s = us.astype('m8[us]')
            if base is not None and rng.randint(2):
                s = base + s
        return s, want, {}, ('list', r)
    if k == 3:
        a = [None, None, int(rng.randint(-n - 1, n + 2))][rng.randint(3)]
        b = [None, int(rng.randint(-n - 1, n + 2))][rng.randint(2)]
        c = [None, 1, 2, 3, -1, -2][rng.randint(6)]
        want = list(range(n))[slice(a, b, c)]
        s = slice(a, b, c)
        if rng.randint(2):
            s = "%s:%s" % ("" if a is None else a, "" if b is None else b)
            if c is not None:
                s += ":%d" % c
        return s, want, {}, ('slice', c)
    # by-location ranges
    step = [None, None, 1, 2, 3, -1, -2][rng.randint(7)]
    sgn = 1 if step is None or step > 0 else -1
    lims, kinds, vals = [], [], []
    for _ in range(2):
        r = rng.randint(6)
        if r == 0:
            lims.append(None)
            kinds.append('-')
            vals.append(None)
        elif r == 1:
            i = int(rng.randint(-n, n + 1))
            lims.append(i)
            kinds.append('i')
            vals.append(('i', i))
        else:
            x = r_value(rng, t, tol, False)
            vals.append(('v', x))
            kinds.append('v')
            lims.append(x)
    if vals[0] and vals[1] and vals[0][0] == vals[1][0] == 'v' and rng.randint(4):
        if (lims[1] - lims[0]) * sgn < 0:
            lims.reverse()
            vals.reverse()
    kw = {}
    want = range_inds(t, vals[0], vals[1], step, tol, True)
    both = [v[1] for v in vals if v is not None and v[0] == 'v']
    r = rng.randint(6)
    if r == 0:
        kw = dict(val_endpoint=False)
        want = range_inds(t, vals[0], vals[1], step, tol, False)
    elif (r == 1 and step in (None, 1, -1) and 'i' not in kinds and both and
          min(both) >= t[0] and max(both) <= t[-1] and sorted(both) == both[::sgn]):
        # the steps just outside come along
        kw = dict(interior=True)
        a = b = None
        lo, hi = (0, 1)[::sgn]
        if kinds[lo] == 'v':
            a = int(np.nonzero(t >= lims[lo] - tol)[0][0])
            if t[a] > lims[lo]:
                a -= 1
        if kinds[hi] == 'v':
            b = int(np.nonzero(t <= lims[hi] + tol)[0][-1])
            if t[b] < lims[hi]:
                b += 1
            b += 1
        want = list(range(n))[slice(a, b)][::sgn]
        if len(np.unique(t)) < n:
            raise Skip("interior of repeated times")
    objs, forms = [], []
    for v, kk in zip(lims, kinds):
        if kk == 'v':
            o, f = value_form(rng, v, base)
        else:
            o, f = v, kk
        objs.append(o)
        forms.append(f)
    s = slice(objs[0], objs[1], step)
    strs = [o if isinstance(o, str) else None if f not in ('-', 'i') else
            ('' if o is None else str(o)) for o, f in zip(objs, forms)]
    if None not in strs and rng.randint(2):
        s = strs[0] + ":" + strs[1]
        if step is not None:
            s += ":%d" % step
        forms.append('str')
    return s, want, kw, ('range', tuple(forms), sgn, tuple(kw))


def build(ctx, rng):
    """a data set, its model and a description"""
    base = BASE[rng.randint(len(BASE))] if rng.randint(3) else None
    n = int(rng.randint(1, 9))
    times = r_times(rng, n)
    ref = Ref()
    objs = {}
    nest = rng.randint(4)
    kw = {} if base is None else dict(basetime=base)
    counter = [0]

    def new(t):
        counter[0] += 1
        k = counter[0]
        objs[k] = make_grid(t if rng.randint(4) or t != int(t) else int(t), k)
        return k

    first = []
    if rng.randint(2):
        for t in times[:n // 2]:
            k = new(t)
            ref.add(t, k)
            first.append(objs[k])
    ds = DatasetTemporal(*first, **kw)
    top = ds
    if nest == 1:
        top = Dataset(name='top')
        top.add(ds)
    elif nest == 2:
        # steps are data sets themselves
        pass
    n0 = len(first)
    calls = {}

    def add(t):
        k = new(t)
        r = rng.randint(4)
        if r == 0:
            def cb(kk, mult=1):
                calls[kk] = calls.get(kk, 0) + 1
                return objs[kk * mult]
            ds.add_deferred(t, cb, callback_args=(k,), callback_kwargs=dict(mult=1))
        elif nest == 2 and r == 1:
            sub = Dataset(name="sub%d" % k, time=t)
            sub.add(objs[k])
            ds.add(sub)
        else:
            ds.add(objs[k])
        ref.add(t, k)

    for t in times[n0:]:
        add(t)
    b64 = None if base is None else np.datetime64(base, 'us')
    return top, ds, ref, objs, b64, nest, add


def keys(gs):
    return [key_of(g) for g in gs]


def look(ctx, rng, top, ds, ref, b64, nest):
    """one selection, every way of asking"""
    t = ref.t
    sel, want_i, kw, sig = r_sel(rng, t, b64)
    want = [ref.steps[i][1] for i in want_i]
    d = top if rng.randint(2) else ds
    msg = lambda: "sel=%r %r times=%r base=%s want=%r" % (  # noqa
        sel, kw, t.tolist(), b64, want_i)
    import copy
    sel0 = copy.deepcopy(sel)
    asks = rng.permutation(6)[:3]
    for q in asks:
        if q == 0:
            ctx.same(d.nr_times(sel, **kw), len(want), "count", msg)
        elif q == 1:
            ctx.check(keys(d.get_times(sel, **kw)) == want, "get_times", msg)
        elif q == 2:
            gs = []
            ts = []
            for g in d.iter_times(sel, **kw):
                gs.append(key_of(g))
                ts.append(g.time)
            ctx.check(gs == want, "iter_times", msg)
            ctx.check(ts == [ref.steps[i][0] for i in want_i], "iter_times/time", msg)
        elif q == 3:
            if want:
                ctx.same(key_of(d.get_time(sel, **kw)), want[0], "get_time", msg)
            else:
                ctx.raises((RuntimeError, IndexError), lambda: d.get_time(sel, **kw),
                           "get_time/none", msg)
        elif q == 4 and want and not kw:
            w = want[0]
            ctx.same(float(d.get_field('a', time=sel).data[1]), w + 0.5, "get_field", msg)
            ctx.same(key_of(d.get_grid(time=sel)), w, "get_grid", msg)
            fd = d.field_dict(time=sel)
            ctx.check(set(fd) == {'a', 'b'} and float(fd['b'].data[0]) == -w,
                      "field_dict", msg)
            fs = dict((f.name, f) for f in d.iter_fields(time=sel, fld_names=['b']))
            ctx.check(list(fs) == ['b'] and float(fs['b'].data[0]) == -w,
                      "iter_fields", msg)
            fs = dict(d.iter_field_items(time=sel))
            ctx.check(set(fs) == {'a', 'b'} and float(fs['a'].data[0]) == w,
                      "iter_field_items", msg)
        elif q == 5 and want and not kw and sig[0] in ('int', 'nearest'):
            r = rng.randint(2)
            if r and d is ds:
                d.activate(sel)
            else:
                d.activate_time(sel)
            ref.active = want[0]
    ctx.check(repr(sel) == repr(sel0), "selection-changed", msg)
    ctx.saw(sig, nest, len(t) == 1)
    ctx.count("sel_" + sig[0])
    return sig


def check_state(ctx, top, ds, ref):
    want = [k for _, k in ref.steps]
    msg = lambda: "%r" % (ref.steps,)  # noqa
    ctx.same(len(ds), len(want), "len", msg)
    ctx.check(keys(list(ds)) == want, "order", msg)
    ctx.check([float(g.time) for g in ds] == [s[0] for s in ref.steps], "times", msg)
    ctx.same(top.nr_times(), len(want), "nr_times", msg)
    if ref.active is not None:
        ctx.same(float(top.get_field('a').data[0]), float(ref.active), "active", msg)
        ctx.same(float(top['a'].data[0]), float(ref.active), "active-item", msg)
        ctx.check('a' in top and 'nope' not in top, "contains", msg)
        a = float(ref.active)
        some = None if len(want) % 2 else ['b']
        got = dict((f.name, float(f.data[0])) for f in ds.iter_fields(fld_names=some))
        ctx.check(got == ({'b': -a} if some else {'a': a, 'b': -a}), "active-iter", msg)
        got = dict((n, float(f.data[0])) for n, f in ds.iter_field_items(fld_names=some))
        ctx.check(got == ({'b': -a} if some else {'a': a, 'b': -a}), "active-items", msg)
        ctx.same(float(ds.field_dict()['b'].data[0]), -a, "active-dict", msg)
    if len(want) > 0:
        # a time is contained when it is within those of the steps
        t0, t1 = ref.steps[0][0], ref.steps[-1][0]
        for x in (t0, t1, 0.5 * (t0 + t1), t0 - 0.5, t1 + 0.5):
            ctx.check(("%rf" % x in ds) == (t0 <= x <= t1), "contains-time",
                      lambda: "%r %s" % (x, msg()))
        if len(want) > 1:
            ctx.check(all(i in ds for i in range(1, len(want))), "contains-step", msg)


def sc_history(ctx, rng):
    top, ds, ref, objs, b64, nest, add = build(ctx, rng)
    check_state(ctx, top, ds, ref)
    ctx.note(nest=nest, times=ref.t.tolist(), base=str(b64))
    sigs = []
    for _ in range(int(rng.randint(4, 12))):
        r = rng.randint(12)
        if r == 0:
            tt = ref.t
            add(round(float(rng.uniform(tt[0] - 3, tt[-1] + 3)), 3))
            sigs.append('add')
        elif r == 1 and len(ref.steps) > 1:
            sel, want_i, kw, sig = r_sel(rng, ref.t, b64)
            if sig[0] in ('int', 'nearest') and type(sel) is not float:
                try:
                    del ds[sel]
                except AttributeError:
                    raise Skip("removal of steps is not offered")
                _, k = ref.steps.pop(want_i[0])
                if k == ref.active:
                    j = int(rng.randint(len(ref.steps)))
                    ds.activate(j)
                    ref.active = ref.steps[j][1]
                sigs.append('del')
        elif r == 2:
            ds.clear_cache()
            sigs.append('clear')
        else:
            try:
                sigs.append(look(ctx, rng, top, ds, ref, b64, nest)[0])
            except Skip:
                pass
        check_state(ctx, top, ds, ref)
    ctx.saw('history', tuple(sigs[:5]), nest)


def sc_range(ctx, rng):
    """the limits of a time selection"""
    top, ds, ref, objs, b64, nest, add = build(ctx, rng)
    t = ref.t
    n = len(t)
    for _ in range(6):
        step = [None, 1, 2, -1][rng.randint(4)]
        fwd = step is None or step > 0
        lims, want, forms = [], [], []
        for e in range(2):
            r = rng.randint(4)
            if r == 0:
                lims.append(None)
                want.append(t[0] if fwd == (e == 0) else t[-1])
                forms.append('-')
            elif r == 1:
                i = int(rng.randint(-n, n + (1 if e else 0)))
                lims.append(i)
                want.append(t[min(i, n - 1)])
                forms.append('i')
            else:
                try:
                    x = r_value(rng, t, tol_of(t), False)
                except Skip:
                    x = float(t[0])
                x = round(x, 6)
                o, f = value_form(rng, x, b64)
                lims.append(o)
                forms.append(f)
                want.append(x)
        s = slice(lims[0], lims[1], step)
        strs = [o if isinstance(o, str) else None if f not in ('-', 'i') else
                ('' if o is None else str(o)) for o, f in zip(lims, forms)]
        if None not in strs and rng.randint(3):
            s = strs[0] + ":" + strs[1]
            if step is not None:
                s += ":%d" % step
            forms.append('str')
        got = (top if rng.randint(2) else ds).tslc_range(s)
        ctx.close(np.array([float(v) for v in got]), np.array(want), "tslc_range",
                  rtol=1e-12, atol=2e-6, msg=lambda: "%r times=%r base=%s" % (s, t.tolist(), b64))
        ctx.saw('range', tuple(forms), step)


def sc_clock(ctx, rng):
    """times of a step in all their forms, and floats in other units"""
    base = BASE[rng.randint(len(BASE))]
    b64 = np.datetime64(base, 'us')
    x = round(float(rng.uniform(-5e5, 5e5)), int(rng.randint(0, 7)))
    us = int(round(x * 1e6))
    g = make_grid(0.0, 1)
    par = DatasetTemporal(basetime=base)
    if rng.randint(2):
        g.basetime = base
    else:
        par.add(g)
    k = rng.randint(5)
    d = b64 + np.timedelta64(us, 'us')
    v = [x, np.timedelta64(us, 'us'), dtm.timedelta(microseconds=us), d,
         d.astype(dtm.datetime)][k]
    g.time = v
    msg = lambda: "%r base=%s got %r" % (v, base, g.time)  # noqa
    ctx.close(float(g.time), x, "set-time", rtol=1e-13, atol=1e-6, msg=msg)
    one = np.timedelta64(1, 'us')
    ctx.check(abs(g.time_as_datetime64() - d) <= one, "as_datetime64", msg)
    ctx.check(abs(g.time_as_datetime() - d.astype(dtm.datetime)) <= dtm.timedelta(microseconds=1),
              "as_datetime", msg)
    ctx.check(abs(g.time_as_timedelta64() - np.timedelta64(us, 'us')) <= one, "as_timedelta64", msg)
    ctx.check(abs(g.time_as_timedelta() - dtm.timedelta(microseconds=us)) <=
              dtm.timedelta(microseconds=1), "as_timedelta", msg)
    f = g['a']
    f.time = v
    ctx.close(float(f.time), x, "field-time", rtol=1e-13, atol=1e-6, msg=msg)
    ctx.check(abs(f.time_as_datetime64() - d) <= one, "field-date", msg)
    s = g.format_time('%Y-%m-%d %H:%M:%S')
    ctx.check(s == (d + one).astype(dtm.datetime).strftime('%Y-%m-%d %H:%M:%S') or
              s == d.astype(dtm.datetime).strftime('%Y-%m-%d %H:%M:%S') or
              s == (d - one).astype(dtm.datetime).strftime('%Y-%m-%d %H:%M:%S'),
              "format", lambda: "%r for %s" % (s, d))
    ctx.saw('clock', k, x < 0)
    # steps counted in hours and minutes
    unit, fac = [('h', 3600.), ('m', 60.), ('s', 1.), ('ms', 1e-3)][rng.randint(4)]
    n = int(rng.randint(2, 8))
    ts = np.cumsum(rng.randint(1, 5, size=n)).astype('f8')
    ds = DatasetTemporal(*[make_grid(t, i + 1) for i, t in enumerate(ts)],
                         basetime=base)
    i = int(rng.randint(n))
    a, b = sorted(rng.randint(n, size=2))
    if rng.randint(2):
        def nm(j):
            return np.timedelta64(int(round(ts[j] * fac * 1e6)), 'us')
    else:
        def nm(j):
            return b64 + np.timedelta64(int(round(ts[j] * fac * 1e6)), 'us')
    got = keys(ds.get_times(nm(i), tdunit=unit))
    ctx.check(got == [i + 1], "unit/single", lambda: "%s %r got %r want %d" % (unit, ts, got, i + 1))
    got2 = keys(ds.get_times(slice(nm(a), nm(b)), tdunit=unit))
    ctx.check(got2 == list(range(a + 1, b + 2)), "unit/range",
              lambda: "%s %r got %r want %d-%d" % (unit, ts, got2, a + 1, b + 1))
    ctx.same(ds.nr_times(slice(nm(a), nm(b)), tdunit=unit), b - a + 1, "unit/count")
    rr = ds.tslc_range(slice(nm(a), nm(b)), tdunit=unit)
    ctx.close(np.array([float(v) for v in rr]), ts[[a, b]], "unit/tslc", rtol=1e-9)
    ctx.saw('unit', unit)


SCENARIOS = [
    Scenario("history", sc_history, quick=3000, thorough=80000, need=500),
    Scenario("range", sc_range, quick=800, thorough=15000, need=200),
    Scenario("clock", sc_clock, quick=800, thorough=15000, need=200),
]

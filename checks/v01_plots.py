"""V01 what a plot draws is the field's values at the field's coordinates"""
from __future__ import print_function

import warnings

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext, gen
import viscid
from viscid.plot import vpyplot as vlt
import matplotlib
import matplotlib.pyplot as plt
from matplotlib import collections as mcoll
from matplotlib.colors import to_rgba

PID = "V01"
TECHNIQUE = ("runtime monitoring: the artists the real plotting functions "
             "hand to matplotlib (meshes, contours, lines, arrows, limits, "
             "norms, labels) are read back and judged cell by cell by the "
             "field's own values, coordinates and the documented meaning of "
             "the options; the field is compared with a snapshot after")
RULE = ("an execution counts when every drawn cell, vertex or arrow was "
        "compared with the field; signatures are (function, centering, "
        "options)")
ASSUMPTIONS = [
    "the oracle trusts matplotlib to paint the artists it is given (Agg)",
    "data limits are taken from the whole field, also from nodes at its rim",
]
NOTE = "basemap projections and the interactive backends are absent here"


def setup():
    ext.ensure()
    viscid.logger.setLevel(50)
    warnings.simplefilter('ignore')


# -- reading matplotlib -----------------------------------------------------
def quads(p):
    """[(x0, x1, y0, y1, value or nan)] of a drawn mesh"""
    out = []
    if isinstance(p, mcoll.QuadMesh):
        c = np.asarray(p._coordinates)
        ny, nx = c.shape[0] - 1, c.shape[1] - 1
        v = np.ma.filled(np.ma.asarray(p.get_array()).astype('f8'), np.nan).reshape(ny, nx)
        for j in range(ny):
            for i in range(nx):
                q = c[j:j + 2, i:i + 2].reshape(-1, 2)
                out.append((q[:, 0].min(), q[:, 0].max(), q[:, 1].min(), q[:, 1].max(), v[j, i]))
    else:
        v = np.ma.filled(np.ma.asarray(p.get_array()).astype('f8'), np.nan)
        for path, a in zip(p.get_paths(), v.ravel()):
            q = path.vertices
            out.append((q[:, 0].min(), q[:, 0].max(), q[:, 1].min(), q[:, 1].max(), a))
    return np.array(out).reshape(-1, 5)


def edges_of(ax, center):
    """edges of the cells drawn along one axis"""
    if center == 'cell':
        return np.asarray(ax.nc, dtype='f8')
    nc = np.asarray(ax.nc, dtype='f8')
    mid = 0.5 * (nc[1:] + nc[:-1])
    return np.concatenate([[nc[0] - (mid[0] - nc[0])], mid, [nc[-1] + (nc[-1] - mid[-1])]])


def cells(m, modx=1.0, mody=1.0, scale=1.0, flip=False, xform=None):
    ex, ey = edges_of(m.axes[0], m.center) * modx, edges_of(m.axes[1], m.center) * mody
    out = []
    for i in range(len(ex) - 1):
        for j in range(len(ey) - 1):
            x, y = sorted(ex[i:i + 2]), sorted(ey[j:j + 2])
            v = float(m.vals[i, j]) * scale
            out.append((y + x if flip else x + y) + [v])
    return np.array(out).reshape(-1, 5)


def match(ctx, got, want, key, tol=1e-9, rtol=1e-6):
    """same set of cells with the same values"""
    ctx.check(len(got) == len(want), key + "/count", lambda: "%d cells drawn, %d in the field" % (len(got), len(want)))
    if not len(want):
        return
    sx = max(np.ptp(want[:, :2]), 1e-300)
    sy = max(np.ptp(want[:, 2:4]), 1e-300)
    S = np.array([sx, sx, sy, sy])
    # absolute positions limit what a difference of positions can show
    S = S + np.array([np.abs(want[:, :2]).max()] * 2 + [np.abs(want[:, 2:4]).max()] * 2) * 1e-4
    used = np.zeros(len(got), dtype=bool)
    for w in want:
        d = np.max(np.abs(got[:, :4] - w[:4]) / S, axis=1)
        k = int(np.argmin(np.where(used, np.inf, d)))
        ctx.check(d[k] < tol, key + "/place", lambda: "no cell drawn at %s, nearest %s" % (w.tolist(), got[k].tolist()))
        used[k] = True
        a, b = got[k, 4], w[4]
        ctx.check((np.isnan(a) and np.isnan(b)) or np.isclose(a, b, rtol=rtol, atol=0), key + "/value",
                  lambda: "cell %s shows %r, the field has %r" % (w[:4].tolist(), a, b))


def new_axes(rng):
    plt.close('all')
    k = rng.randint(3)
    if k == 0:
        fig = plt.figure()
        return None
    if k == 1:
        fig, ax = plt.subplots()
        return ax
    fig, axs = plt.subplots(1, 2)
    return axs[rng.randint(2)]


def lims_ok(ctx, got, want, key):
    s = abs(want[1] - want[0]) + 1e-300
    ctx.check(np.allclose(np.asarray(got, dtype='f8'), np.asarray(want, dtype='f8'), rtol=1e-7, atol=1e-7 * s),
              key, lambda: "limits %r want %r" % (tuple(got), tuple(want)))


DT = ['f8', 'f8', 'f4', 'i8', 'i4']


def shuffle_opts(rng, kw, allow):
    """hand the options over as keywords, as a string, or as a mix"""
    how = rng.randint(4)
    if how == 0 or not allow:
        return kw, 'kw'
    if how == 1:
        # comma separated form
        s, rest = [], {}
        for k, v in kw.items():
            if '_' in k or (isinstance(v, str) and (not v.replace('_', '').isalnum())):
                rest[k] = v
                continue
            if v is True:
                s.append(k)
            elif isinstance(v, (tuple, list)):
                s.append(k + "_" + "_".join(repr(x) for x in v))
            elif isinstance(v, str):
                s.append(k + "=" + v)
            elif isinstance(v, (int, float, bool, np.integer, np.floating)):
                s.append(k + "=" + repr(v))
            else:
                rest[k] = v
        rest['plot_opts'] = [",", ", ", " , "][rng.randint(3)].join(s)
        return rest, 'comma'
    import yaml
    ok = {k: v for k, v in kw.items() if isinstance(v, (bool, int, float, str, tuple, list))}
    rest = {k: v for k, v in kw.items() if k not in ok}
    txt = ", ".join("%s: %s" % (k, yaml.safe_dump(list(v) if isinstance(v, tuple) else v, default_flow_style=True)
                                .replace("\n...", "").strip()) for k, v in ok.items())
    rest['plot_opts'] = "{" + txt + "}"
    return rest, 'yaml'


# -- 1 --------------------------------------------------------------------
def opts(ctx, rng):
    """strings of options mean the same as keywords"""
    words = ['lin', 'log', 'x', 'y', 'clim', 'cmap', 'style', 'gridec', 'levels', 'tightlim', 'mod', 'scale',
             'symmetric', 'earth', 'title', 'norescale', 'flipplot']
    strs = ['k', 'Blues', 'Blues_r', 'contourf', 'seismic_r', 'a_b_c', 'RdBu', 'w']
    want, s, y = {}, [], []
    keys = list(rng.permutation(words)[:rng.randint(0, 7)])
    for k in keys:
        kind = rng.randint(6)
        if kind == 0:
            want[k] = True
            s.append(k)
            y.append(k if rng.randint(2) else "%s: true" % k)
        elif kind == 1:
            v = [int(rng.randint(-50, 50)), float(np.round(rng.randn() * 10, 3)), float("%.3e" % (rng.randn() * 1e-9)),
                 False][rng.randint(4)]
            want[k] = v
            s.append(k + "_="[rng.randint(2)] + repr(v))
            y.append("%s: %s" % (k, repr(v).lower() if isinstance(v, bool) else
                                 ("%f" % v if isinstance(v, float) and abs(v) > 1e-3 else repr(v))))
            if isinstance(v, float) and abs(v) <= 1e-3:
                y[-1] = "%s: %s" % (k, ("%.17e" % v))
        elif kind in (2, 3):
            n = rng.randint(2, 5)
            v = [float(np.round(rng.randn() * 10, 2)) if rng.randint(2) else int(rng.randint(-9, 9)) for _ in range(n)]
            want[k] = v
            s.append(k + "_="[rng.randint(2)] + "_".join(repr(e) for e in v))
            y.append("%s: [%s]" % (k, ", ".join(repr(e) for e in v)))
        else:
            v = strs[rng.randint(len(strs))]
            want[k] = v
            s.append(k + "_="[rng.randint(2)] + v)
            y.append("%s: %s" % (k, v))
    base = {'x': 'base', 'zz': 3} if rng.randint(2) else {}
    b0 = dict(base)
    exp = dict(base)
    exp.update(want)

    def same(a, b):
        if isinstance(b, list):
            return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
        if isinstance(b, bool):
            return a is b or a == int(b) and not isinstance(a, str)
        if isinstance(b, float):
            return isinstance(a, (int, float)) and np.isclose(a, b, rtol=1e-5, atol=0)
        return type(a) is type(b) and a == b

    for txt in ([", ", ",", " ,"][rng.randint(3)].join(s), "{" + ", ".join(y) + "}", "", None, "  "):
        if not txt or not txt.strip():
            got = vlt.plot_opts_to_kwargs(txt, base)
            ctx.check(got == base and got is not base, "opts/empty", lambda: repr((txt, got)))
            continue
        got = vlt.plot_opts_to_kwargs(txt, base)
        ctx.check(set(got) == set(exp), "opts/keys", lambda: repr((txt, got)))
        for k in exp:
            ctx.check(same(got[k], exp[k]), "opts/value", lambda: "%r: %r -> %r want %r" % (txt, k, got[k], exp[k]))
        ctx.check(base == b0, "opts/base unchanged", lambda: repr(base))
    ctx.saw('opts', len(keys), sorted(type(v).__name__ for v in want.values()))


# -- 2 --------------------------------------------------------------------
def lines1d(ctx, rng):
    center = ['node', 'cell'][rng.randint(2)]
    dt = DT[rng.randint(len(DT))]
    n = int(rng.randint(2, 12))
    f, m, d = gen.rand_field(rng, ndim=1, center=center, ncomp=0, dtype=dt, sshape=[n],
                             kind=['uniform', 'dyadic', 'stretched', 'int'][rng.randint(4)], pretty_name="PN")
    nan = dt in ('f8', 'f4') and rng.randint(4) == 0
    if nan:
        bad = rng.choice(n, size=rng.randint(1, n), replace=False)
        m.vals[bad] = np.nan
        f = gen.make_field(rng, m, layout='flat', name='fld', pretty_name="PN")
    pos = rng.randint(3) == 0
    if pos:
        m.vals = np.abs(m.vals) + 1
        f = gen.make_field(rng, m, layout='flat', name='fld', pretty_name="PN")
    kw, xs, vs = {}, 1.0, 1.0
    if rng.randint(3) == 0:
        xs = kw['mod'] = [2.0, 0.5, -1.0, 3][rng.randint(4)]
    if rng.randint(3) == 0:
        vs = kw['scale'] = [2.0, 0.5, -1.0, 1e3, 3, 0.0][rng.randint(6)]
    val = m.vals.astype('f8') * vs
    fin = val[np.isfinite(val)]
    if rng.randint(4) == 0:
        kw['masknan'] = bool(rng.randint(2))
    ymode = rng.randint(8)
    ylim = None
    if ymode == 0:
        ylim = (-float(rng.randint(1, 9)), float(rng.randint(1, 9)))
        kw['lin'] = ylim
    elif ymode == 1:
        ylim = (-float(rng.randint(1, 9)), float(rng.randint(1, 9)))
        if rng.randint(2):
            kw['clim'] = ylim
        else:
            kw['vmin'], kw['vmax'] = ylim
    elif ymode == 2 and len(fin):
        kw[['symmetric', 'sym'][rng.randint(2)]] = True
    elif ymode == 3 and len(fin) and fin.min() > 0:
        kw[['log', 'logscale'][rng.randint(2)]] = True
    elif ymode == 4 and len(fin) and fin.min() > 0 and m.crds()[0].min() * xs > 0:
        kw['loglog'] = True
    xl = None
    if rng.randint(4) == 0:
        xl = kw['x'] = (float(rng.randint(-20, 0)), float(rng.randint(1, 20)))
    if 'loglog' in kw:
        kw.pop('x', None)
        xl = None
    flip = rng.randint(5) == 0 and not set(kw) & {'lin', 'log', 'logscale', 'loglog', 'clim', 'vmin', 'symmetric',
                                                   'sym', 'x'}
    if flip:
        kw[['flip_plot', 'flipplot'][rng.randint(2)]] = True
    lab = {}
    for k in ('xlabel', 'ylabel', 'label'):
        if rng.randint(5) == 0:
            kw[k] = lab[k] = "L" + k[0]
    nolab = rng.randint(5) == 0
    if nolab:
        kw['nolabels'] = True
    leg = rng.randint(4) == 0
    if leg:
        kw['legend'] = [True, 'upper left', 3][rng.randint(3)]
    ctx.note(case=repr(kw), **d)
    snap = gen.snapshot(f)
    ax = new_axes(rng)
    call, how = shuffle_opts(rng, dict(kw), True)
    fun = [vlt.plot, vlt.plot1d_field][rng.randint(2)]
    p, cb = fun(f, ax=ax, **call)
    gen.check_unchanged(ctx, f, snap, "1d/field unchanged")
    ctx.check(cb is None and len(p) == 1, "1d/result")
    ln = p[0]
    A = ln.axes
    ctx.check(ax is None or A is ax, "1d/axis")
    ctx.check(plt.gca() is A, "1d/current axis")
    gx, gy = ln.get_xdata(orig=True), ln.get_ydata(orig=True)
    if flip:
        gx, gy = gy, gx
    gy = np.ma.filled(np.ma.asarray(gy).astype('f8'), np.nan)
    scale = np.abs(m.crds()[0] * xs).max() + 1e-300
    ctx.close(np.asarray(gx, dtype='f8'), m.crds()[0].astype('f8') * xs, "1d/x", rtol=1e-9, atol=1e-9 * scale)
    ctx.close(gy, val, "1d/values", rtol=1e-6)
    if ylim:
        lims_ok(ctx, A.get_ylim(), ylim, "1d/ylim")
    if 'symmetric' in kw or 'sym' in kw:
        a, b = A.get_ylim()
        ctx.check(np.isclose(a, -b) and (b >= np.abs(fin).max() * (1 - 1e-6)), "1d/symmetric", lambda: repr((a, b, fin)))
    if xl:
        lims_ok(ctx, A.get_xlim(), xl, "1d/xlim")
    ctx.check((A.get_yscale() == 'log') == bool({'log', 'logscale', 'loglog'} & set(kw)), "1d/yscale")
    ctx.check((A.get_xscale() == 'log') == ('loglog' in kw), "1d/xscale")
    if not nolab:
        wx = lab.get('xlabel')
        wy = lab.get('ylabel')
        wx2, wy2 = 'x', lab.get('label', 'PN')
        if flip:
            wx2, wy2 = wy2, wx2
        ctx.check((A.get_xlabel(), A.get_ylabel()) == (wx or wx2, wy or wy2), "1d/labels",
                  lambda: repr((A.get_xlabel(), A.get_ylabel(), kw)))
    else:
        ctx.check((A.get_xlabel(), A.get_ylabel()) == ("", ""), "1d/no labels")
    if leg:
        L = A.get_legend()
        ctx.check(L is not None and [t.get_text() for t in L.get_texts()] == [lab.get('label', 'PN')], "1d/legend")
        if kw['legend'] is not True:
            ctx.check(L._loc == {'upper left': 2, 3: 3}[kw['legend']], "1d/legend place", lambda: repr(L._loc))
    plt.close('all')
    ctx.saw('1d', center, dt, how, sorted(kw), nan)


# -- 3 --------------------------------------------------------------------
def rand2d(rng, sshape=None, lo=2, hi=7, **kw):
    center = ['node', 'cell'][rng.randint(2)]
    dt = DT[rng.randint(len(DT))]
    names = [('x', 'y'), ('x', 'z'), ('y', 'z')][rng.randint(3)]
    f, m, d = gen.rand_field(rng, ndim=2, center=center, ncomp=0, dtype=dt, lo=lo, hi=hi, sshape=sshape,
                             kind=kw.pop('kind', [None, 'int'][rng.randint(4) == 0]), names=names, pretty_name="PN", **kw)
    return f, m, d, names


def pick_norm(rng, kw, val):
    """options for the colour scale -> (kind, vmin, vmax) or None: matplotlib's own"""
    fin = val[np.isfinite(val)]
    lo, hi = (fin.min(), fin.max()) if len(fin) else (1e38, 1e38)
    a, b = sorted(np.round(rng.randn(2) * 10, 2))
    a, b = float(a), float(b) + 0.5
    k = rng.randint(12)
    if k == 0:
        kw['lin'] = (a, b)
        return 'lin', a, b
    if k == 1:
        kw['lin'] = (a, None) if rng.randint(2) else (None, b)
        v = kw['lin']
        return 'lin', lo if v[0] is None else a, hi if v[1] is None else b
    if k == 2:
        kw['lin'] = 0
        return 'sym', lo, hi
    if k == 3:
        kw[['symmetric', 'sym'][rng.randint(2)]] = True
        return 'sym', lo, hi
    if k == 4:
        kw['clim'] = (a, b) if rng.randint(2) else (a,)
        return 'lin', a, b if len(kw['clim']) == 2 else hi
    if k == 5:
        if rng.randint(2):
            kw['vmin'] = a
            lo = a
        if rng.randint(2):
            kw['vmax'] = b
            hi = b
        return 'lin', lo, hi
    if k in (6, 7):
        kw[['log', 'logscale'][rng.randint(2)]] = True
        return 'log', lo, hi
    if k == 8:
        kw['log'] = (0.25, 16.0)
        return 'log', 0.25, 16.0
    if k == 9:
        kw['norescale'] = True
        return None
    if k == 10:
        kw['lin'] = True
    return 'lin', lo, hi


def check_norm(ctx, p, N, key, levels=None, patches=1):
    if N is None:
        return
    kind, lo, hi = N
    if kind == 'sym':
        h = max(abs(lo), abs(hi))
        lo, hi = -h, h
    if lo == hi:
        return                       # matplotlib widens an empty colour scale
    if kind == 'log':
        ctx.check(type(p.norm).__name__ == 'LogNorm', key + "/log norm", lambda: repr(type(p.norm)))
        if hi <= 0:
            return
        if lo <= 0:
            lo = hi / 1e4
    else:
        ctx.check(type(p.norm).__name__ == 'Normalize', key + "/norm", lambda: repr(type(p.norm)))
    ctx.close(np.array([p.norm.vmin, p.norm.vmax], dtype='f8'), np.array([lo, hi]), key + "/colour limits", rtol=1e-6,
              atol=1e-12)


def mesh(ctx, rng):
    f, m, d, names = rand2d(rng)
    kw = {}
    isf = m.vals.dtype.kind == 'f'
    r = rng.randint(6)
    if isf and r == 0:
        m.vals[rng.rand(*m.vals.shape) < 0.3] = np.nan
    elif isf and r == 1 and rng.randint(4) == 0:
        m.vals[...] = np.nan
    elif r in (2, 3):
        m.vals = np.abs(m.vals) + 1
    f = gen.make_field(rng, m, name='fld', pretty_name="PN")
    modx = mody = 1.0
    if rng.randint(3) == 0:
        modx, mody = kw['mod'] = [(2.0, 0.5), (-1.0, 1.0), (1.0, -3.0), (3, 1)][rng.randint(4)]
    sc = 1.0
    if rng.randint(3) == 0:
        sc = kw['scale'] = [2.0, -1.0, 1e3, 0.5, 3][rng.randint(5)]
    val = m.vals.astype('f8') * sc
    N = pick_norm(rng, kw, val)
    if N is not None and N[0] != 'sym' and N[2] < N[1]:
        raise Skip()
    flip = rng.randint(3) == 0
    if flip:
        kw[['flip_plot', 'flipplot'][rng.randint(2)]] = True
    style = ['pcolormesh', 'pcolormesh', 'pcolor'][rng.randint(3)]
    if style == 'pcolor' or rng.randint(3) == 0:
        kw['style'] = style
    style = kw.get('style', 'pcolormesh')
    if rng.randint(4) == 0:
        kw['masknan'] = [True, False, 'r', 'b'][rng.randint(4)]
    axis = None
    if rng.randint(3) == 0:
        axis = kw['axis'] = ['none', 'image', 'equal', 'auto', 'tight'][rng.randint(5)]
    tight = True
    if rng.randint(6) == 0:
        tight = kw['tightlim'] = bool(rng.randint(2))
    xl = yl = None
    if rng.randint(5) == 0:
        xl = kw['x'] = (-3.0, 4.0)
    if rng.randint(5) == 0:
        yl = kw['y'] = (-2.0, 2.5)
    lab = {}
    for k in ('xlabel', 'ylabel', 'cbarlabel', 'title'):
        if rng.randint(6) == 0:
            kw[k] = lab[k] = "L" + k[0]
    if 'title' not in lab and rng.randint(8) == 0:
        kw['title'] = True
    nolab = rng.randint(6) == 0
    if nolab:
        kw['nolabels'] = True
    cbar = True
    if rng.randint(4) == 0:
        cbar = kw['colorbar'] = bool(rng.randint(2))
    pos = None
    if cbar and rng.randint(5) == 0:
        pos = ['left', 'right', 'top', 'bottom'][rng.randint(4)]
        kw['cbar_kwargs'] = {'position': pos}
    grid = rng.randint(5) == 0
    if grid:
        kw[['g', 'gridec'][rng.randint(2)]] = 'r'
    patch = rng.randint(6) == 0
    if patch:
        kw[['p', 'patchec'][rng.randint(2)]] = 'b'
    if rng.randint(5) == 0:
        kw['cmap'] = ['viridis', 'Blues_r', 'seismic'][rng.randint(3)]
    if rng.randint(8) == 0 and N is not None and not set(kw) & {'lin', 'log', 'clim', 'vmin', 'vmax', 'symmetric',
                                                                'sym', 'logscale'}:
        # a norm of the user's own
        if (val > 0).all() and rng.randint(2):
            kw['norm'] = matplotlib.colors.LogNorm(0.5, 20.0)
            N = 'log', 0.5, 20.0
        elif rng.randint(2):
            kw['norm'] = matplotlib.colors.Normalize(-1.0, 5.0)
            N = 'lin', -1.0, 5.0
        else:
            kw['norm'] = matplotlib.colors.Normalize()
    ctx.note(case=repr(kw), **d)
    cbk = dict(kw.get('cbar_kwargs', {}))
    snap = gen.snapshot(f)
    badcol = {c: plt.get_cmap(c).get_bad().tolist() for c in ('viridis', 'Blues_r', 'seismic')}
    ax = new_axes(rng)
    call, how = shuffle_opts(rng, dict(kw), True)
    fun = [vlt.plot, vlt.plot2d_field][rng.randint(2)]
    allnan = not np.isfinite(val).any()
    p, cb = fun(f, ax=ax, **call)
    gen.check_unchanged(ctx, f, snap, "2d/field unchanged")
    ctx.check(kw.get('cbar_kwargs', {}) == cbk, "2d/cbar_kwargs unchanged", lambda: repr(kw['cbar_kwargs']))
    A = p.axes
    ctx.check(ax is None or A is ax, "2d/axis")
    ctx.check(plt.gca() is A, "2d/current axis")
    want = cells(m, modx, mody, sc, flip)
    negmask = N is not None and N[0] == 'log' and (N[1] <= 0 or N[2] <= 0)
    if negmask:
        want[want[:, 4] <= 0, 4] = np.nan
    if style == 'pcolor':
        ctx.check(isinstance(p, mcoll.PolyCollection), "2d/kind", lambda: repr(type(p)))
        want = want[~np.isnan(want[:, 4])]
    else:
        ctx.check(isinstance(p, mcoll.QuadMesh), "2d/kind", lambda: repr(type(p)))
    match(ctx, quads(p), want, "2d", tol=1e-7)
    if not allnan:
        check_norm(ctx, p, N, "2d")
    # the colour of what is masked
    c = kw.get('masknan', True)
    ctx.check(to_rgba(c if isinstance(c, str) else 'y') == tuple(p.get_cmap().get_bad()), "2d/colour of masked",
              lambda: repr((c, p.get_cmap().get_bad())))
    ctx.check({c: plt.get_cmap(c).get_bad().tolist() for c in badcol} == badcol, "2d/named colour maps unchanged")
    if 'cmap' in kw:
        ctx.check(p.get_cmap().name == kw['cmap'], "2d/cmap", lambda: repr(p.get_cmap().name))
    # limits
    ext_ = [np.array([a.nc[0], a.nc[-1]], dtype='f8') * s for a, s in zip(m.axes, (modx, mody))]
    if flip:
        ext_ = ext_[::-1]
    keep = axis not in ('equal', 'auto', 'tight')
    if keep:
        if xl or tight:
            lims_ok(ctx, A.get_xlim(), xl or ext_[0], "2d/xlim")
        if yl or tight:
            lims_ok(ctx, A.get_ylim(), yl or ext_[1], "2d/ylim")
    if axis in ('image', 'equal'):
        ctx.check(A.get_aspect() in (1, 1.0, 'equal'), "2d/aspect", lambda: repr(A.get_aspect()))
    elif axis in ('none', 'auto'):
        ctx.check(A.get_aspect() == 'auto', "2d/aspect", lambda: repr(A.get_aspect()))
    # labels
    na, nb = names[::-1] if flip else names
    if nolab:
        ctx.check((A.get_xlabel(), A.get_ylabel(), A.get_title()) == ("", "", ""), "2d/no labels")
    else:
        ctx.check((A.get_xlabel(), A.get_ylabel()) == (lab.get('xlabel', na), lab.get('ylabel', nb)), "2d/labels",
                  lambda: repr((A.get_xlabel(), A.get_ylabel(), kw)))
        t = kw.get('title', '')
        ctx.check(A.get_title() == ('PN' if t is True else t), "2d/title", lambda: repr(A.get_title()))
    if not cbar:
        ctx.check(cb is None, "2d/no colour bar")
        ctx.check(all(a is A or not a.collections for a in A.figure.axes), "2d/no colour bar axis")
    elif not (allnan or (negmask and N[2] <= 0)):
        ctx.check(cb is not None and cb.mappable is p, "2d/colour bar")
        cl = (cb.ax.get_xlabel() or cb.ax.get_ylabel())
        if nolab:
            ctx.check(cl == "", "2d/no bar label", lambda: repr(cl))
        elif 'cbarlabel' in lab:
            ctx.check(cl == lab['cbarlabel'], "2d/bar label", lambda: repr(cl))
        elif kw.get('title') is True:
            ctx.check(cl == "", "2d/bar label with title", lambda: repr(cl))
        else:
            ctx.check(cl == "PN", "2d/bar label default", lambda: repr(cl))
        if pos:
            ctx.check(cb.orientation == ('vertical' if pos in ('left', 'right') else 'horizontal'), "2d/bar orientation")
    if grid:
        ctx.check(len(p.get_edgecolor()) > 0 and np.allclose(p.get_edgecolor()[0], to_rgba('r')), "2d/grid colour",
                  lambda: repr(p.get_edgecolor()))
    if patch:
        rects = [q for q in A.get_children() if isinstance(q, matplotlib.patches.Rectangle) and q is not A.patch]
        ctx.check(len(rects) == 1, "2d/patch box", lambda: repr(rects))
        x0, y0, w, h_ = rects[0].get_x(), rects[0].get_y(), rects[0].get_width(), rects[0].get_height()
        all_ = cells(m, modx, mody, 1.0, flip)
        box = [all_[:, 0].min(), all_[:, 1].max(), all_[:, 2].min(), all_[:, 3].max()]
        got = sorted([x0, x0 + w]) + sorted([y0, y0 + h_])
        ctx.close(np.array(got, dtype='f8'), np.array(box), "2d/patch box place", rtol=1e-7, atol=1e-7 * np.abs(box).max())
    plt.close('all')
    ctx.saw('2d', m.center, str(m.vals.dtype), style, how, sorted(kw)[:6], N and N[0])


def nonlin(rng):
    pass


def contour(ctx, rng):
    f, m, d, names = rand2d(rng, lo=3, hi=7)
    isf = m.vals.dtype.kind == 'f'
    if rng.randint(3) == 0:
        m.vals = np.abs(m.vals) + 1
    f = gen.make_field(rng, m, name='fld', pretty_name="PN")
    kw = {'style': ['contour', 'contourf'][rng.randint(2)]}
    modx = mody = 1.0
    if rng.randint(3) == 0:
        modx, mody = kw['mod'] = [(2.0, 0.5), (0.25, 1.0), (3, 1)][rng.randint(3)]
    sc = 1.0
    if rng.randint(3) == 0:
        sc = kw['scale'] = [2.0, -1.0, 1e3, 0.5, 3][rng.randint(5)]
    val = m.vals.astype('f8') * sc
    if np.ptp(val) == 0:
        raise Skip()
    N = pick_norm(rng, kw, val)
    if N is not None and N[0] == 'log' and (N[1] <= 0 or N[2] <= N[1]):
        raise Skip()
    if N is not None and N[0] != 'sym' and N[2] <= N[1]:
        raise Skip()
    lo, hi = val.min(), val.max()
    if N is not None:
        kind, lo, hi = N
        if kind == 'sym':
            h = max(abs(lo), abs(hi))
            lo, hi = -h, h
    if N is not None and N[0] == 'log' and val.min() <= 0:
        raise Skip()             # matplotlib masks what a log scale can't show
    lv = None
    if rng.randint(2):
        if rng.randint(2):
            lv = kw['levels'] = int(rng.randint(2, 9))
        else:
            lv = kw['levels'] = [float(x) for x in sorted(rng.uniform(val.min(), val.max(), size=rng.randint(2, 5)))]
            if len(set(lv)) != len(lv) or (N is not None and N[0] == 'log' and lv[0] <= 0):
                raise Skip()
    want = lv
    if isinstance(lv, list):
        want = np.array(lv)
    elif N is not None and N[0] == 'log':
        want = np.logspace(np.log10(lo), np.log10(hi), lv or 10)
    else:
        want = np.linspace(lo, hi, lv or 10)
    if not np.any((want > val.min()) & (want < val.max())):
        raise Skip()             # matplotlib makes up a level then
    flip = rng.randint(3) == 0
    if flip:
        kw['flipplot'] = True
    if kw['style'] == 'contour' and rng.randint(4) == 0:
        kw['colors'] = 'k'
    ctx.note(case=repr(kw), **d)
    snap = gen.snapshot(f)
    ax = new_axes(rng)
    call, how = shuffle_opts(rng, dict(kw), True)
    p, cb = vlt.plot(f, ax=ax, **call)
    gen.check_unchanged(ctx, f, snap, "contour/field unchanged")
    A = p.axes
    # levels
    ctx.close(np.asarray(p.levels), want, "contour/levels", rtol=1e-6, atol=1e-9 * max(abs(lo), abs(hi)))
    ctx.check((cb is None) == ('colors' in kw), "contour/colour bar")
    if 'colors' not in kw:
        check_norm(ctx, p, N, "contour")
    # place: on the edges between points the data are linear
    X = m.crds()[0].astype('f8') * modx
    Y = m.crds()[1].astype('f8') * mody
    if m.center == 'cell':
        X[0], X[-1] = np.array(m.axes[0].nc)[[0, -1]] * modx
        Y[0], Y[-1] = np.array(m.axes[1].nc)[[0, -1]] * mody

    def at(pts):
        x, y = (pts[:, 1], pts[:, 0]) if flip else (pts[:, 0], pts[:, 1])
        i = np.clip(np.searchsorted(X, x) - 1, 0, len(X) - 2)
        j = np.clip(np.searchsorted(Y, y) - 1, 0, len(Y) - 2)
        tx = np.clip((x - X[i]) / (X[i + 1] - X[i]), 0, 1)
        ty = np.clip((y - Y[j]) / (Y[j + 1] - Y[j]), 0, 1)
        onx = np.minimum(tx, 1 - tx) < 1e-6
        ony = np.minimum(ty, 1 - ty) < 1e-6
        v = (val[i, j] * (1 - tx) * (1 - ty) + val[i + 1, j] * tx * (1 - ty) +
             val[i, j + 1] * (1 - tx) * ty + val[i + 1, j + 1] * tx * ty)
        out = (x < X[0] - 1e-6 * np.ptp(X)) | (x > X[-1] + 1e-6 * np.ptp(X)) | (y < Y[0] - 1e-6 * np.ptp(Y)) | \
            (y > Y[-1] + 1e-6 * np.ptp(Y))
        return v, onx | ony, out
    tol = 1e-4 * np.ptp(val)
    nv = 0
    if kw['style'] == 'contour':
        for L, segs in zip(p.levels, p.allsegs):
            for s in segs:
                v, on, out = at(s)
                ctx.check(not out.any(), "contour/inside")
                ctx.check(on.all(), "contour/on edges", lambda: repr((s[~on][:2], s, L, val[:2, :2], X, Y)))
                ctx.check(np.all(np.abs(v - L) < tol), "contour/value", lambda: repr((L, v)))
                nv += len(s)
        # a level inside the data must be drawn
        for L, segs in zip(p.levels, p.allsegs):
            if val.min() + 1e-3 * np.ptp(val) < L < val.max() - 1e-3 * np.ptp(val):
                ctx.check(len(segs) > 0, "contour/level missing", lambda: repr((L, val)))
    else:
        for L0, L1, segs in zip(p.levels[:-1], p.levels[1:], p.allsegs):
            for s in segs:
                v, on, out = at(s)
                ctx.check(not out.any(), "contour/inside")
                ctx.check(np.all((v > L0 - tol) & (v < L1 + tol)), "contour/band", lambda: repr((L0, L1, v)))
                nv += len(s)
    lims_ok(ctx, A.get_xlim(), (np.array(m.axes[1 if flip else 0].nc)[[0, -1]] * (mody if flip else modx)), "contour/xlim")
    lims_ok(ctx, A.get_ylim(), (np.array(m.axes[0 if flip else 1].nc)[[0, -1]] * (modx if flip else mody)), "contour/ylim")
    ctx.count("contour vertices", nv)
    plt.close('all')
    ctx.saw('contour', m.center, str(m.vals.dtype), how, sorted(kw), N and N[0], nv > 0)


def amr(ctx, rng):
    """all patches, one colour scale"""
    from viscid.amr_field import AMRField
    from viscid.amr_grid import AMRSkeleton
    from viscid import grid as vgrid
    center = ['node', 'cell'][rng.randint(2)]
    npx, npy = rng.randint(1, 4), rng.randint(1, 3)
    names = [('x', 'y'), ('x', 'z'), ('y', 'z')][rng.randint(3)]
    out = [c for c in 'xyz' if c not in names][0]
    ko = 'xyz'.index(out)
    iz = int(rng.randint(3))
    ex, ey = np.cumsum(rng.uniform(1, 3, size=npx + 1)), np.cumsum(rng.uniform(1, 3, size=npy + 1))
    models, flds, grids = [], [], []
    for i in range(npx):
        for j in range(npy):
            n = [int(rng.randint(2, 5)), int(rng.randint(2, 5))]
            k = 1 if center == 'cell' else 0
            axes = [gen.Axis(names[0], np.linspace(ex[i], ex[i + 1], n[0] + k)),
                    gen.Axis(names[1], np.linspace(ey[j], ey[j + 1], n[1] + k))]
            m = gen.Model(rng.randn(*n) * 10 ** rng.uniform(-1, 1), axes, center, 0)
            if rng.randint(4) == 0:
                m.vals[rng.randint(n[0]), rng.randint(n[1])] = np.nan
            models.append(m)
            ax3 = gen.Axis(out, np.linspace(0.0, 1.0, 3 + k))
            v3 = rng.randn(3, *n)
            v3[iz] = m.vals
            m3 = gen.Model(np.moveaxis(v3, 0, ko), axes[:ko] + [ax3] + axes[ko:], center, 0)
            f = gen.make_field(rng, m3, name='fld', pretty_name="PN")
            flds.append(f)
            g = vgrid.Grid(name="g%d" % len(grids))
            g.crds = f.crds
            g.add_field(f)
            grids.append(g)
    if len(flds) < 2:
        raise Skip()
    f = AMRField(flds, AMRSkeleton(grids))
    kw = {}
    flip = rng.randint(3) == 0
    if flip:
        kw['flip_plot'] = True
    sc = 1.0
    if rng.randint(3) == 0:
        sc = kw['scale'] = [2.0, -1.0, 10.0][rng.randint(3)]
    modx = mody = 1.0
    if rng.randint(3) == 0:
        modx, mody = kw['mod'] = [(2.0, 0.5), (-1.0, 1.0)][rng.randint(2)]
    val = np.concatenate([m.vals.ravel() for m in models]) * sc
    N = pick_norm(rng, kw, val)
    if N is not None and N[0] != 'sym' and N[2] < N[1]:
        raise Skip()
    patch = rng.randint(2)
    if patch:
        kw['p'] = True
    ctx.note(case=repr(kw), n=[npx, npy], center=center)
    snaps = [gen.snapshot(q) for q in flds]
    ax = new_axes(rng)
    zc = np.linspace(0.0, 1.0, 3)[iz] if center == 'node' else (np.arange(3) + 0.5)[iz] / 3
    p, cb = vlt.plot(f, "%s=%r%s" % (out, float(zc), 'jf'[rng.randint(2)]), ax=ax, **kw)
    for q, s in zip(flds, snaps):
        gen.check_unchanged(ctx, q, s, "amr/field unchanged")
    A = p.axes
    ms = [c for c in A.collections if isinstance(c, mcoll.QuadMesh)]
    ctx.check(len(ms) == len(models), "amr/patches drawn", lambda: "%d of %d" % (len(ms), len(models)))
    got = np.concatenate([quads(q) for q in ms])
    want = np.concatenate([cells(m, modx, mody, sc, flip) for m in models])
    if N is not None and N[0] == 'log' and (N[1] <= 0 or N[2] <= 0):
        want[want[:, 4] <= 0, 4] = np.nan
    match(ctx, got, want, "amr", tol=1e-7)
    for q in ms:
        check_norm(ctx, q, N, "amr")
    E = [ex[[0, -1]] * modx, ey[[0, -1]] * mody]
    if flip:
        E = E[::-1]
    lims_ok(ctx, A.get_xlim(), E[0], "amr/xlim")
    lims_ok(ctx, A.get_ylim(), E[1], "amr/ylim")
    rects = [q for q in A.get_children() if isinstance(q, matplotlib.patches.Rectangle) and q is not A.patch]
    ctx.check(len(rects) == (len(models) if patch else 0), "amr/patch boxes")
    if patch:
        got, want = [], []
        for r, m in zip(rects, models):
            x0, y0, w, h_ = r.get_x(), r.get_y(), r.get_width(), r.get_height()
            got.append(sorted([x0, x0 + w]) + sorted([y0, y0 + h_]))
            q = cells(m, modx, mody, 1, flip)
            want.append([q[:, 0].min(), q[:, 1].max(), q[:, 2].min(), q[:, 3].max()])
        ctx.close(np.array(got), np.array(want), "amr/patch box place", rtol=1e-7, atol=1e-7)
    plt.close('all')
    ctx.saw('amr', center, len(models), sorted(kw), N and N[0])


def dispatch(ctx, rng):
    """plot() slices and chooses"""
    f, m, d = gen.rand_field(rng, ndim=3, ncomp=0, lo=2, hi=5)
    snap = gen.snapshot(f)
    plt.close('all')
    k = rng.randint(5)
    nm = [a.name for a in m.axes]
    if k == 0:
        ctx.raises(ValueError, lambda: vlt.plot(f), "dispatch/3d")
    elif k == 1:
        v, _, _ = gen.rand_field(rng, ndim=2, ncomp=3, lo=2, hi=5)
        ctx.raises(TypeError, lambda: vlt.plot(v), "dispatch/vector")
    elif k == 2:
        ctx.raises(TypeError, lambda: vlt.plot(f, "x=0,y=0,z=0"), "dispatch/nothing left")
    elif k == 3:
        a = rng.randint(3)
        i = int(rng.randint(m.vals.shape[a]))
        neg = rng.randint(2)
        sel = "%s=%d" % (nm[a], i - m.vals.shape[a] if neg else i)
        p, _ = vlt.plot(f, sel)
        m2 = gen.Model(np.take(m.vals, i, axis=a), [x for j, x in enumerate(m.axes) if j != a], m.center, 0)
        match(ctx, quads(p), cells(m2), "dispatch/plane", tol=1e-7)
    else:
        a, b = sorted(rng.permutation(3)[:2])
        i, j = int(rng.randint(m.vals.shape[a])), int(rng.randint(m.vals.shape[b]))
        p, _ = vlt.plot(f, "%s=%d,%s=%d" % (nm[a], i, nm[b], j))
        c = 3 - a - b
        v = np.take(np.take(m.vals, j, axis=b), i, axis=a)
        ctx.close(np.asarray(p[0].get_xdata(), 'f8'), m.crds()[c].astype('f8'), "dispatch/line x", rtol=1e-9,
                  atol=1e-9 * np.abs(m.crds()[c]).max())
        ctx.close(np.asarray(p[0].get_ydata(), 'f8'), v.astype('f8'), "dispatch/line values", rtol=1e-6)
    gen.check_unchanged(ctx, f, snap, "dispatch/field unchanged")
    plt.close('all')
    ctx.saw('dispatch', k, m.center)


def times(ctx, rng):
    """time axes are drawn as dates"""
    import matplotlib.dates as mdates
    n = int(rng.randint(3, 9))
    center = ['node', 'cell'][rng.randint(2)]
    dt = np.timedelta64(int(rng.randint(1, 4000)), 's')
    t = np.arange(n) * dt
    if rng.randint(3):
        t = np.datetime64('2010-01-01T00:00:00') + t
        t = t.astype('M8[us]')
        td = mdates.date2num(t)
    else:
        t = t.astype('m8[us]')
        td = mdates.date2num(np.datetime64('1970-01-01T00:00:00') + t)
    x = gen.rand_nc(rng, n, 'stretched')
    from viscid import coordinate
    two = rng.randint(2)
    tfirst = rng.randint(2)
    nm, ax_ = (['t', 'x'], [t, x]) if tfirst else (['x', 't'], [x, t])
    if not two:
        nm, ax_ = ['t'], [t]
    crds = coordinate.arrays2crds(ax_, crd_names=nm)
    sh = [n - (center == 'cell')] * len(nm)
    dat = rng.randn(*sh)
    f = viscid.wrap_field(dat.copy(), crds, center=center, fldtype='scalar', name='f')
    kw = {}
    if two and rng.randint(2):
        kw['flip_plot'] = True
    lim = None
    if t.dtype.kind == 'M' and rng.randint(2):
        lim = [t[0] + dt // 2, t[-1] - dt // 3]
        k = 'x'
        if two and bool(tfirst) == bool(kw.get('flip_plot')):
            k = 'y'
        kw[k] = lim if two or rng.randint(2) else [str(a) for a in lim]
    ctx.note(case=repr(kw), n=n, center=center, dt=str(dt), names=nm)
    plt.close('all')
    p, _ = vlt.plot(f, **kw)
    A = plt.gca() if not two else p.axes
    tol = float(td[1] - td[0]) * 1e-4
    if two:
        axes = [gen.Axis(k_, td if k_ == 't' else x) for k_ in nm]
        m = gen.Model(dat, axes, center, 0)
        match(ctx, quads(p), cells(m, flip=kw.get('flip_plot', False)), "times", tol=1e-4)
    else:
        w = td if center == 'node' else 0.5 * (td[1:] + td[:-1])
        ctx.close(mdates.date2num(p[0].get_xdata(orig=True)), w, "times/1d", rtol=0, atol=tol)
        ctx.close(np.asarray(p[0].get_ydata(), 'f8'), dat, "times/1d values")
    if lim is not None:
        g = A.get_xlim() if 'x' in kw else A.get_ylim()
        ctx.close(np.array(g), mdates.date2num(np.array(lim)), "times/limits", rtol=0, atol=tol)
    ctx.same(f.data, dat, "times/unchanged")
    plt.close('all')
    ctx.saw('times', two, tfirst, center, sorted(kw), t.dtype.kind)


# -- spheres ----------------------------------------------------------------
def sphere(rng, ctx):
    nth, nph = int(rng.randint(3, 8)), int(rng.randint(4, 10))
    center = ['node', 'cell'][rng.randint(2)]
    full = rng.randint(2)
    th = np.linspace(0, 180.0, 2 * nth + 1)
    part = rng.randint(3)
    if part == 1:
        th = th[:nth + 1]
    elif part == 2:
        th = th[nth:]
    ph = np.linspace(0.0, 360.0, nph + 1)
    unit = ['deg', 'rad'][rng.randint(2)]
    u = 1.0 if unit == 'deg' else np.pi / 180
    order = ['phi', 'theta'] if rng.randint(2) else ['theta', 'phi']
    A = {'phi': gen.Axis('phi', ph * u), 'theta': gen.Axis('theta', th * u)}
    ns = [len(A[o].nc) - (center == 'cell') for o in order]
    m = gen.Model(rng.randn(*ns), [A[o] for o in order], center, 0)
    if rng.randint(2):
        crds = viscid.wrap_crds('nonuniform_spherical', [(a.name, a.nc) for a in m.axes], units=unit)
    else:
        crds = viscid.wrap_crds('uniform_spherical', [(a.name, [a.nc[0], a.nc[-1], len(a.nc)]) for a in m.axes],
                                units=unit)
    f = viscid.wrap_field(m.vals.copy(), crds, name='fld', center=center, fldtype='scalar', pretty_name="PN")
    return f, m, dict(th=th, ph=ph, center=center, unit=unit, order=order, part=part)


def polar(ctx, rng):
    f, m, d = sphere(rng, ctx)
    th, ph, part = d['th'], d['ph'], d['part']
    it = d['order'].index('theta')
    V = m.vals if it == 1 else m.vals.T          # phi, theta
    thc = th if d['center'] == 'node' else 0.5 * (th[1:] + th[:-1])
    phc = ph if d['center'] == 'node' else 0.5 * (ph[1:] + ph[:-1])
    kw = {}
    hem = {1: 'north', 2: 'south'}.get(part, 'north')
    if rng.randint(2):
        if part == 0:
            hem = ['north', 'south'][rng.randint(2)]
        kw['hemisphere'] = hem if rng.randint(2) else hem[0]
    b = 40.0 if part == 0 else 90.0
    if rng.randint(2):
        b = kw['bounding_lat'] = float([30, 50, 70, 90][rng.randint(4)])
    style = 'pcolormesh'
    if rng.randint(4) == 0:
        style = kw['style'] = 'contourf'
    fun = [vlt.plot, vlt.plot2d_mapfield, vlt.plot_iono][rng.randint(3)]
    sc = 1.0
    if rng.randint(3) == 0:
        sc = kw['scale'] = 2.0
    units = ''
    if fun is vlt.plot_iono and rng.randint(2):
        units = kw['units'] = 'kV'
    if rng.randint(3) == 0:
        kw['title'] = 'T'
    ctx.note(case=repr(kw), fun=fun.__name__, **{k: v for k, v in d.items() if k not in ('th', 'ph')})
    colat = thc if hem == 'north' else 180 - thc
    lat = 90 - thc
    inb = colat <= b + 1e-6
    border = np.abs(colat - b) < 1e-3
    if inb.sum() < 2 or (style == 'contourf' and inb.sum() < 3):
        raise Skip()
    if len(lat) and part == 0 and d['center'] == 'cell':
        pass
    snap = gen.snapshot(f)
    plt.close('all')
    p, cb = fun(f, **kw)
    gen.check_unchanged(ctx, f, snap, "polar/field unchanged")
    A = p.axes
    ctx.check(A.name == 'polar', "polar/axes", lambda: repr(A.name))
    ctx.check(cb is not None, "polar/colour bar")
    if style == 'pcolormesh':
        Q = quads(p)
        n_in, n_border = int(inb.sum()), int(border.sum())
        nrow = len(Q) / float(len(phc))
        ctx.check(n_in - n_border <= nrow <= n_in, "polar/cells drawn", lambda: "%d cells, %g rows, want %d" % (
            len(Q), nrow, n_in))
        seen = set()
        for x0, x1, y0, y1, v in Q:
            lon, cl = np.rad2deg(0.5 * (x0 + x1)), np.rad2deg(0.5 * (y0 + y1))
            t = cl if hem == 'north' else 180 - cl
            i = int(np.argmin(np.abs(phc - lon)))
            dp, dt = phc[1] - phc[0], thc[1] - thc[0]
            j = int(np.argmin(np.abs(thc - t)))
            ctx.check(abs(phc[i] - lon) < 0.02 * dp and abs(thc[j] - t) < 0.02 * dt, "polar/place",
                      lambda: repr((lon, t, phc[i], thc[j])))
            ctx.check(np.isclose(v, V[i, j] * sc, rtol=1e-6), "polar/value", lambda: "lon %g theta %g: %r want %r" % (
                lon, t, v, V[i, j] * sc))
            seen.add((i, j))
        ctx.check(len(seen) == len(Q), "polar/each cell once")
        rows = inb & ~border
        W = V[:, inb] * sc
        W2 = V[:, rows] * sc if rows.any() else W
        okl = [np.isclose(p.norm.vmin, w.min(), rtol=1e-6) and np.isclose(p.norm.vmax, w.max(), rtol=1e-6) for w in (W, W2)]
        ctx.check(any(okl), "polar/colour limits", lambda: repr((p.norm.vmin, p.norm.vmax, W.min(), W.max())))
    # the tick labels tell where the poles and midnight are
    lbl = {}
    for t, l in zip(A.get_xticks(), A.get_xticklabels()):
        lbl[int(round(np.rad2deg(t)))] = l.get_text()
    ctx.check(lbl.get(0) == '24' and lbl.get(90) == '6' and lbl.get(180) == '12' and lbl.get(270) == '18', "polar/mlt labels",
              lambda: repr(lbl))
    sgn = 1 if hem == 'north' else -1
    rmax = A.get_rmax()
    for r, l in zip(A.get_yticks(), A.get_yticklabels()):
        if r > rmax * (1 + 1e-9) or not l.get_text():
            continue
        ctx.check(np.isclose(float(l.get_text()), sgn * (90 - np.rad2deg(r)), atol=1e-6), "polar/latitude labels",
                  lambda: repr((np.rad2deg(r), l.get_text(), hem)))
    if 'bounding_lat' in kw:
        ctx.check(np.isclose(np.rad2deg(rmax), b, atol=1e-6), "polar/bounding latitude", lambda: repr((rmax, b)))
    T = A.get_title().strip()
    ctx.check(T == kw.get('title', 'PN'), "polar/title", lambda: repr(T))
    if fun is vlt.plot_iono:
        txt = [t.get_text() for t in A.texts]
        sel = (lat >= 10 - 1e-9) if hem == 'north' else (lat <= -10 + 1e-9)
        sel2 = (lat >= 10 + 1e-9) if hem == 'north' else (lat <= -10 - 1e-9)
        us = (" " + units) if units else ""
        ok = False
        for s_ in (sel, sel2):
            w = V[:, s_] * sc
            if not w.size:
                continue
            ok = ok or ("Min: %.1f%s" % (w.min(), us) in txt and "Max: %.1f%s" % (w.max(), us) in txt and
                        "CPCP: %.1f%s" % (w.max() - w.min(), us) in txt)
        ctx.check(ok, "polar/annotations", lambda: repr((txt, hem)))
    plt.close('all')
    ctx.saw('polar', fun.__name__, d['center'], d['unit'], d['order'], part, sorted(kw))


# -- lines and points --------------------------------------------------------
def rand_lines(rng, planar=None):
    n = int(rng.randint(1, 6))
    dt = ['f8', 'f8', 'f4'][rng.randint(3)]
    lines = []
    for _ in range(n):
        k = int([1, 2, 3, 5, 9][rng.randint(5)]) if rng.randint(3) else int(rng.randint(2, 9))
        L = np.cumsum(rng.randn(3, k), axis=1).astype(dt)
        if planar is not None:
            L[planar] = 1.5
        lines.append(L)
    return lines


def fine(L, sub):
    """what a line becomes when its segments are divided"""
    n = L.shape[1]
    if not sub > 0:
        return np.asarray(L, 'f8')
    m = int(np.ceil(sub * (n - 1)) + 1)
    if n == 1:
        return np.asarray(L, 'f8')
    t = np.linspace(0, 1, m)
    return np.array([np.interp(t, np.linspace(0, 1, n), r) for r in np.asarray(L, 'f8')])


def lines(ctx, rng):
    planar = [None, 0, 1, 2][rng.randint(4)]
    LS = rand_lines(rng, planar)
    kw = {}
    sub = 2
    if rng.randint(2):
        sub = kw['subsample'] = [0, 1, 2, 3, 0.5][rng.randint(5)]
    three = rng.randint(3) == 0
    flip = False
    sym = ''
    if not three:
        if rng.randint(2):
            sym = kw['symdir'] = ['x', 'y', 'z', 'Y'][rng.randint(4)]
        flip = bool(rng.randint(3) == 0)
        if flip:
            kw['flip_plot'] = True
    N = sum(L.shape[1] for L in LS)
    sk = rng.randint(8)
    per_vert = rgb = None
    if sk == 0:
        s = rng.randn(N)
        kw['scalars'] = s
        per_vert = s
    elif sk == 1:
        s = rng.randn(len(LS))
        kw['scalars'] = s if rng.randint(2) else [float(x) for x in s]
        per_vert = np.concatenate([[x] * L.shape[1] for x, L in zip(s, LS)])
    elif sk == 2 and not three:
        kw['scalars' if rng.randint(2) else 'colors'] = 'zloc'
    elif sk == 3:
        cols = ['#%02x%02x%02x' % tuple(rng.randint(0, 256, size=3)) for _ in LS]
        kw['scalars'] = cols
        rgb = np.concatenate([[to_rgba(c)[:3]] * L.shape[1] for c, L in zip(cols, LS)])
    elif sk == 4:
        kw['scalars'] = '#fd7400'
        rgb = np.array([to_rgba('#fd7400')[:3]] * N)
    elif sk == 7:
        # values of every vertex, line by line
        s = [rng.randn(L.shape[1]) for L in LS]
        if len(set(len(q) for q in s)) > 1:
            kw['scalars'] = s if rng.randint(2) else tuple(s)
            per_vert = np.concatenate(s)
    elif sk == 5 and N > 4 and N != len(LS):
        c = rng.randint(0, 256, size=(3, N)) / 255.0
        kw['scalars'] = c if rng.randint(2) else c.T.copy()
        rgb = c.T
    elif sk == 6 and N > 4 and N != len(LS):
        c = rng.randint(0, 256, size=(3, N)) / 255.0
        rgb = c.T
    if sk == 0 and N in (3, 4) and False:
        raise Skip()
    inp = [L.copy() for L in LS]
    if sk == 6 and rgb is not None:
        st = np.cumsum([0] + [L.shape[1] for L in LS])
        inp = [np.concatenate([L, rgb.T[:, a:b]]) for L, a, b in zip(LS, st[:-1], st[1:])]
    marker = rng.randint(3) == 0
    if marker:
        kw['marker'] = 'o'
    mk = {'s': 4} if rng.randint(2) else None
    if marker and mk:
        kw['marker_kwargs'] = mk
    keep = [L.copy() for L in inp]
    ids = [id(q) for q in kw['scalars']] if isinstance(kw.get('scalars'), list) else None
    ctx.note(n=[L.shape[1] for L in LS], planar=planar, three=bool(three),
             case=repr({k: (v if not isinstance(v, np.ndarray) else v.shape) for k, v in kw.items()}))
    plt.close('all')
    lc = (vlt.plot3d_lines if three else vlt.plot2d_lines)(inp, **kw)
    for a, b in zip(inp, keep):
        ctx.same(a, b, "lines/input unchanged")
    ctx.check(mk is None or mk == {'s': 4}, "lines/marker_kwargs unchanged", lambda: repr(mk))
    if ids is not None:
        ctx.check([id(q) for q in kw['scalars']] == ids, "lines/scalars list unchanged")
    A = lc.axes
    F = [fine(L, sub) for L in LS]
    # directions
    if three:
        ind = [0, 1, 2]
    else:
        s = sym.lower()
        allp = np.concatenate(LS, axis=1)
        if s:
            ind = {'x': [1, 2], 'y': [0, 2], 'z': [0, 1]}[s]
        else:
            flat = [i for i in range(3) if np.allclose(allp[i], allp[i, 0])]
            if len(flat) > 1:
                raise Skip()
            ind = [i for i in range(3) if i not in flat][:2]
        zind = [i for i in range(3) if i not in ind][0]
        if flip:
            ind = ind[::-1]
    want = np.concatenate([np.stack([L[:, :-1].T, L[:, 1:].T], axis=1) for L in F])[:, :, ind]
    if three:
        got = np.array(lc._segments3d).reshape(-1, 2, 3)
    else:
        got = np.array([s for s in lc.get_segments()]).reshape(-1, 2, 2)
    ctx.close(got, want.reshape(got.shape) if want.size == got.size else want, "lines/segments", rtol=1e-5, atol=1e-5)

    def interp_rows(x):
        out, st = [], 0
        x = np.atleast_2d(np.asarray(x, 'f8').T).T if np.ndim(x) == 2 else np.asarray(x, 'f8')[:, None]
        for L in LS:
            n = L.shape[1]
            out.append(fine(x[st:st + n].T, sub))
            st += n
        return out                      # list of (ncomp, m)

    nseg = len(want)
    if nseg:
        if per_vert is not None:
            w = np.concatenate([r[0, :-1] for r in interp_rows(per_vert)])
            ctx.close(np.asarray(lc.get_array(), 'f8'), w, "lines/scalars", rtol=1e-4, atol=1e-4)
        elif 'zloc' in (kw.get('scalars') if isinstance(kw.get('scalars'), str) else '', kw.get('colors')):
            w = np.concatenate([L[zind, :-1] for L in F])
            ctx.close(np.asarray(lc.get_array(), 'f8'), w, "lines/zloc", rtol=1e-5, atol=1e-5)
        elif rgb is not None:
            w = np.concatenate([r[:, :-1].T for r in interp_rows(rgb)])
            g = np.asarray(lc.get_colors() if not three else lc._edgecolors, 'f8')[:, :3]
            if len(g) == 1:
                g = np.repeat(g, nseg, axis=0)
            ctx.close(g, w, "lines/colours", rtol=0, atol=1.01 / 255 * (2 if sub > 0 else 1))
    V = np.concatenate(F, axis=1)[ind]
    lim = [A.get_xlim(), A.get_ylim()] + ([A.get_zlim()] if three else [])
    if marker:
        sca = [c for c in A.collections if isinstance(c, mcoll.PathCollection)]
        ctx.check(len(sca) == 1, "lines/markers")
        if three:
            pts = np.array([np.ma.filled(np.ma.asarray(o, dtype='f8'), np.nan) for o in sca[0]._offsets3d]).T
        else:
            pts = np.asarray(sca[0].get_offsets(), 'f8')
        a, b = np.array(sorted(map(tuple, np.round(pts, 3)))), np.array(sorted(map(tuple, np.round(V.T, 3))))
        o1, o2 = pts[np.lexsort(np.round(pts, 3).T)], V.T[np.lexsort(np.round(V.T, 3).T)]
        ctx.check(len(pts) == V.shape[1], "lines/marker count")
        if not three:
            ctx.close(pts, V.T, "lines/markers at vertices", rtol=1e-5, atol=1e-5)
        else:
            ctx.close(np.sort(pts, axis=0), np.sort(V.T, axis=0), "lines/markers at vertices", rtol=1e-5, atol=1e-5)
    else:
        for k in range(len(ind)):
            ctx.check(min(lim[k]) <= V[k].min() + 1e-5 and max(lim[k]) >= V[k].max() - 1e-5, "lines/visible",
                      lambda: repr((lim[k], V[k].min(), V[k].max())))
    plt.close('all')
    ctx.saw('lines', planar, bool(three), sk, sub, sym, flip, marker, len(LS))


def points(ctx, rng):
    n = int(rng.randint(2, 12))
    planar = [None, 0, 1, 2][rng.randint(4)]
    P = rng.randn(3, n)
    if planar is not None:
        P[planar] = 0.5
    keep = P.copy()
    kw = {}
    three = rng.randint(4) == 0
    plt.close('all')
    if three:
        ax = plt.figure().add_subplot(projection='3d')
        p, _ = vlt.scatter_3d(P, ax=ax, c='zloc' if rng.randint(2) else 'r')
        ctx.close(np.sort(np.array([np.asarray(o, 'f8') for o in p._offsets3d]), axis=1), np.sort(P, axis=1), "points/3d",
                  rtol=1e-9, atol=1e-9)
    else:
        sym = kw['symdir'] = ['', 'x', 'y', 'z'][rng.randint(4)]
        flip = kw['flip_plot'] = bool(rng.randint(2))
        c = ['k', 'zloc', rng.randn(n)][rng.randint(3)]
        p, _ = vlt.scatter_2d(P, c=c, **kw)
        if sym:
            ind = {'x': [1, 2], 'y': [0, 2], 'z': [0, 1]}[sym]
        else:
            ind = [i for i in range(3) if i != planar][:2]
        z = [i for i in range(3) if i not in ind][0]
        if flip:
            ind = ind[::-1]
        ctx.close(np.asarray(p.get_offsets(), 'f8'), P[ind].T, "points/2d", rtol=1e-9, atol=1e-9)
        ctx.check((p.axes.get_xlabel(), p.axes.get_ylabel()) == ("xyz"[ind[0]], "xyz"[ind[1]]), "points/labels")
        if isinstance(c, str) and c == 'zloc':
            ctx.close(np.asarray(p.get_array(), 'f8'), P[z], "points/zloc")
        elif not isinstance(c, str):
            ctx.close(np.asarray(p.get_array(), 'f8'), c, "points/c")
    ctx.same(P, keep, "points/unchanged")
    plt.close('all')
    ctx.saw('points', planar, bool(three), kw.get('symdir'), kw.get('flip_plot'))


def arrows(ctx, rng):
    """quiver and streamlines of a 2-d vector field"""
    center = ['node', 'cell'][rng.randint(2)]
    names = [('x', 'y'), ('x', 'z'), ('y', 'z')][rng.randint(3)]
    squeezed = rng.randint(2)
    n = [int(rng.randint(2, 9)), int(rng.randint(2, 9))]
    ll = rng.randint(2)
    stream = rng.randint(4) == 0
    kind = 'uniform' if (stream and rng.randint(2)) else None
    if stream:
        n = [max(a, 4) for a in n]
    axes = gen.rand_axes(rng, n, center, names=names, kind=kind)
    layout = ['flat', 'interlaced'][rng.randint(2)]
    vals = rng.randn(*(n + [3]))
    if squeezed:
        m = gen.Model(vals, axes, center, 3)
    else:
        missing = [c for c in 'xyz' if c not in names][0]
        k = 'xyz'.index(missing)
        ax3 = gen.Axis(missing, np.array([0.0, 1.0]) if center == 'cell' else np.array([0.5]))
        m = gen.Model(np.expand_dims(vals, k), axes[:k] + [ax3] + axes[k:], center, 3)
    if stream and not squeezed:
        raise Skip()
    if stream:
        # a steady drift: streamlines must be straight
        ab = rng.randn(3) + np.sign(rng.randn(3)) * 0.3
        m.vals[...] = ab
    f = gen.make_field(rng, m, layout=layout, name='v')
    snap = gen.snapshot(f)
    plt.close('all')
    X, Y = [(a.nc if center == 'node' else a.cc) for a in axes]
    ci, cj = 'xyz'.index(names[0]), 'xyz'.index(names[1])
    if not stream:
        step = [1, 1, 2, 3, (2, 1), [1, 3]][rng.randint(6)]
        if np.prod([len(range((k_ % t_) // 2, k_, t_)) for k_, t_ in
                    zip(n, list(step) if not isinstance(step, int) else [step, step])]) < 2:
            raise Skip()         # a single value is a number, not a field
        ctx.note(step=step, n=n, names=names, center=center, layout=layout, squeezed=bool(squeezed))
        q = vlt.plot2d_quiver(f, **({'step': step} if step != 1 or rng.randint(2) else {}))
        s = list(step) if not isinstance(step, int) else [step, step]
        xs = [X[(n[0] % s[0]) // 2::s[0]], Y[(n[1] % s[1]) // 2::s[1]]]
        XY = np.asarray(q.XY, 'f8')
        U, V = np.asarray(q.U, 'f8').ravel(), np.asarray(q.V, 'f8').ravel()
        # arrows are a regular subset of the points, each with its own vector
        ctx.check(len(XY) == len(U) == len(V), "arrows/count")
        seen = set()
        for (x, y), u, v in zip(XY, U, V):
            i, j = int(np.argmin(np.abs(X - x))), int(np.argmin(np.abs(Y - y)))
            ctx.check(np.isclose(X[i], x, rtol=1e-9, atol=1e-9) and np.isclose(Y[j], y, rtol=1e-9, atol=1e-9), "arrows/place")
            ctx.check(np.isclose(u, vals[i, j, ci]) and np.isclose(v, vals[i, j, cj]), "arrows/vector",
                      lambda: repr(((u, v), vals[i, j])))
            seen.add((i, j))
        ctx.check(len(seen) == len(XY), "arrows/once")
        I = sorted(set(i for i, j in seen))
        J = sorted(set(j for i, j in seen))
        ctx.check(len(seen) == len(I) * len(J), "arrows/regular")
        for L, st, nn in ((I, s[0], n[0]), (J, s[1], n[1])):
            ctx.check(set(np.diff(L)) <= {st} and len(L) in (nn // st, -(-nn // st)), "arrows/step",
                      lambda: repr((L, st, nn)))
        ctx.saw('quiver', center, layout, str(step), names, bool(squeezed))
    else:
        ctx.note(stream=True, n=n, names=names, center=center, layout=layout)
        r = vlt.streamplot(f)
        segs = np.array(r.lines.get_segments()).reshape(-1, 2, 2)
        ctx.check(len(segs) > 0, "streams/drawn")
        u, v = m.vals.reshape(-1, 3)[0][[ci, cj]]
        dd = segs[:, 1] - segs[:, 0]
        cross = dd[:, 0] * v - dd[:, 1] * u
        L = np.hypot(dd[:, 0], dd[:, 1]) * np.hypot(u, v)
        # integration may stop or clip at a border: most of the length is straight
        okl = np.abs(cross) < 1e-2 * L + 1e-12
        ctx.check(L[okl].sum() > 0.9 * L.sum(), "streams/direction", lambda: repr((u, v, dd[:5])))
        xl, xh = np.array([axes[0].nc[0], axes[1].nc[0]]), np.array([axes[0].nc[-1], axes[1].nc[-1]])
        s = xh - xl
        pts = segs.reshape(-1, 2)
        ctx.check(np.all(pts >= xl - 1e-6 * s) and np.all(pts <= xh + 1e-6 * s), "streams/inside")
        ctx.saw('stream', center, layout, names, kind)
    gen.check_unchanged(ctx, f, snap, "arrows/field unchanged")
    plt.close('all')


def earth(ctx, rng):
    plane = 'xyz'[rng.randint(3)]
    v = float(np.round(rng.uniform(-1.4, 1.4), 2))
    if rng.randint(4) == 0:
        v = 0.0
    cs = ['gse', 'mhd'][rng.randint(2)]
    sc = float([1.0, 2.0, 0.5][rng.randint(3)])
    plt.close('all')
    fig, ax = plt.subplots()
    how = rng.randint(2)
    if how:
        vlt.plot_earth("%s=%r" % (plane, v), ax=ax, crd_system=cs, scale=sc)
        vv = v
    else:
        nc = np.linspace(-2, 2, 9)
        i = int(rng.randint(9))
        vv = nc[i]
        axes = [gen.Axis(n, nc) for n in 'xyz']
        m = gen.Model(rng.randn(9, 9, 9), axes, 'node', 0)
        f = gen.make_field(rng, m)
        f.set_info('crd_system', cs)
        g = f.slice_reduce("%s=%dj" % (plane, 0)) if False else f.slice_reduce("%s=%d" % (plane, i))
        if rng.randint(2):
            vlt.plot_earth(g, ax=ax, scale=sc)
        elif sc == 1.0:
            vlt.plot(g, ax=ax, earth=True)
        else:
            raise Skip()
    W = [p for p in ax.patches if isinstance(p, (matplotlib.patches.Wedge, matplotlib.patches.Circle))]
    if vv ** 2 >= sc ** 2:
        ctx.check(not W, "earth/no cut", lambda: repr((vv, sc)))
        ctx.saw('earth', plane, 'out')
        return
    R = np.sqrt(sc ** 2 - vv ** 2)
    sun = 1 if cs == 'gse' else -1                   # direction of the sun along x

    def colour(x, y):
        """the topmost disc part covering a point"""
        c = None
        for p in W:
            if p.get_path().contains_point((x, y), transform=p.get_patch_transform()):
                c = p.get_facecolor()
        return c
    white, black = to_rgba('w'), to_rgba('k')
    if plane != 'x':
        for s in (1, -1):
            for yy in (0.0, 0.4, -0.4):
                c = colour(0.6 * s * R, yy * R)
                ctx.check(c == (white if s == sun else black), "earth/day side", lambda: repr((plane, cs, s, c)))
    else:
        if vv != 0:
            c = colour(0.1 * R, 0.1 * R)
            ctx.check(c == (white if np.sign(vv) == sun else black), "earth/day side of x planes",
                      lambda: repr((vv, cs, c, how)))
    for a in (0.3, 2.0, 4.0):
        ctx.check(colour(0.97 * R * np.cos(a), 0.97 * R * np.sin(a)) is not None and
                  colour(1.03 * R * np.cos(a), 1.03 * R * np.sin(a)) is None, "earth/radius")
    plt.close('all')
    ctx.saw('earth', plane, cs, bool(how), sc, np.sign(vv))


SCENARIOS = [
    Scenario('opts', opts, quick=400, thorough=8000),
    Scenario('lines1d', lines1d, quick=160, thorough=3000),
    Scenario('mesh', mesh, quick=260, thorough=6000),
    Scenario('contour', contour, quick=160, thorough=4000),
    Scenario('amr', amr, quick=80, thorough=2000),
    Scenario('dispatch', dispatch, quick=80, thorough=1500),
    Scenario('times', times, quick=60, thorough=1500),
    Scenario('polar', polar, quick=120, thorough=3000),
    Scenario('lines', lines, quick=160, thorough=4000),
    Scenario('points', points, quick=80, thorough=1500),
    Scenario('arrows', arrows, quick=140, thorough=3000),
    Scenario('earth', earth, quick=100, thorough=2000),
]

"""F07: cell centers, edges, spacings and extents of coordinates are consistent"""
import itertools

import numpy as np

from vmon.core import Scenario, Skip
from vmon import gen

PID = "F07"
TECHNIQUE = "runtime monitoring: every query of a coordinate object compared with the same quantity computed from plain coordinate arrays; uniform and explicit objects compared with each other"
RULE = ("random uniform and stretched axes (1-4 axes, 1-9 nodes, f4/f8, several "
        "scales, reflected or not), every centering and query of coordinate "
        "objects and of fields on them, and re-centering back and forth; plain "
        "numpy arrays are the reference")
ASSUMPTIONS = ["the number of cells of an axis with a single node is 0 for "
               "uniform and 1 for explicit coordinates (pinned by the test "
               "suite), so cell queries on such axes are only compared where "
               "both kinds define them", "minimum spacings are compared for axes "
               "that have at least one spacing"]
_PREFIX = ['', '_cartesian']
NAMES = "xyzuvw"


def close(ctx, got, want, key, scale, f4=False, msg=""):
    rt = 4e-6 if f4 else 1e-11
    ctx.close(np.asarray(got, dtype='f8'), np.asarray(want, dtype='f8'), key,
              rtol=rt, atol=rt * (scale + 1e-300), msg=msg)


def cc_of(nc):
    return 0.5 * (nc[1:] + nc[:-1]) if len(nc) > 1 else nc


def both_kinds(rng, ndim, lo, dtype='f8', hi=9):
    """uniform nodes as explicit and as uniform crds, or only explicit"""
    from viscid import coordinate
    uni = bool(rng.randint(2))
    names = list(NAMES[:ndim])
    ncs = [gen.rand_nc(rng, rng.randint(lo, hi + 1),
                       ['uniform', 'dyadic'][rng.randint(2)] if uni else 'stretched')
           for _ in range(ndim)]
    pre = _PREFIX[rng.randint(2)]
    ex = coordinate.wrap_crds('nonuniform' + pre,
                              [(n, c.astype(dtype)) for n, c in zip(names, ncs)],
                              dtype=dtype)
    kinds = [('explicit', ex)]
    if uni:
        un = coordinate.wrap_crds('uniform' + pre,
                                  [[n, [c[0], c[-1], len(c)]]
                                   for n, c in zip(names, ncs)], dtype=dtype)
        kinds.append(('uniform', un))
    return kinds, names, ncs


def check_queries(ctx, kind, crds, names, ncs, f4, key, rng):
    nd = len(names)
    ccs = [cc_of(c) for c in ncs]
    sc = [max(np.max(np.abs(c)), 1e-300) for c in ncs]
    multi = all(len(c) > 1 for c in ncs)
    ctx.check(list(crds.axes) == names and crds.nr_dims == nd and len(crds) == nd,
              key + "/axes")
    # -- arrays, by every route
    sel = sorted(rng.choice(nd, size=rng.randint(1, nd + 1), replace=False).tolist())
    if rng.randint(2):
        sel = sel[::-1]
    axes = [[names[i], i][rng.randint(2)] for i in sel]
    for center, arrs, sfx in (('node', ncs, 'nc'), ('cell', ccs, 'cc'),
                              ('none', ncs, '')):
        for g, w, s in zip(crds.get_crds(center=center), arrs, sc):
            close(ctx, g, w, key + "/get_crds/" + center, s, f4)
        got = crds.get_crds(axes, center=center)
        ctx.check(len(got) == len(sel), key + "/get_crds/subset")
        for g, i in zip(got, sel):
            close(ctx, g, arrs[i], key + "/get_crds/subset", sc[i], f4)
        for i, g in enumerate(crds.get_crds(center=center, shaped=True)):
            shp = [1] * nd
            shp[i] = len(arrs[i])
            close(ctx, g, arrs[i].reshape(shp), key + "/shaped", sc[i], f4)
        for i, n in enumerate(names):
            close(ctx, crds[n + sfx], arrs[i], key + "/getitem", sc[i], f4)
            shp = [1] * nd
            shp[i] = len(arrs[i])
            close(ctx, crds[n.upper() + sfx], arrs[i].reshape(shp), key + "/getitem", sc[i], f4)
            ctx.check(crds.ind(n) == i and crds.ind(i) == i, key + "/ind")
    for i, n in enumerate(names):
        a = [n, i][rng.randint(2)]
        close(ctx, crds.get_nc(a), ncs[i], key + "/get_nc", sc[i], f4)
        close(ctx, crds.get_cc(a), ccs[i], key + "/get_cc", sc[i], f4)
    if multi:
        fc, ec = crds.get_crds_fc(), crds.get_crds_ec()
        fcs, ecs = crds.get_crds_fc(shaped=True), crds.get_crds_ec(shaped=True)
        one = int(rng.randint(nd))
        for g, w in zip(crds.get_fc([names[one], one][rng.randint(2)]), fc[one]):
            close(ctx, g, w, key + "/get_fc", sc[one], f4)
        for g, w in zip(crds.get_ec([names[one], one][rng.randint(2)]), ec[one]):
            close(ctx, g, w, key + "/get_ec", sc[one], f4)
        for i in range(nd):
            for j in range(nd):
                wf = ncs[i][:-1] if i == j else ccs[i]
                we = ccs[i] if i == j else ncs[i][:-1]
                close(ctx, fc[i][j], wf, key + "/faces", sc[i], f4)
                shp = [1] * nd
                shp[i] = -1
                close(ctx, fcs[i][j], wf.reshape(shp), key + "/faces/shaped", sc[i], f4)
                if j < 3 and nd <= 3:
                    close(ctx, ec[i][j], we, key + "/edges", sc[i], f4)
                    close(ctx, ecs[i][j], we.reshape(shp), key + "/edges/shaped", sc[i], f4)
    for i, n in enumerate(names):
        ctx.check(crds.axis_name(n) == n and crds.axis_name(i) == n, key + "/axis_name")
    for least in (0, 1, 2, 3):
        ctx.check(list(crds.get_culled_axes(ignore=least)) ==
                  [n for n, a in zip(names, ncs) if len(a) > least], key + "/culled")
    # -- bounds
    for center, arrs in (('node', ncs), ('cell', ccs)):
        if center == 'cell' and not multi:
            continue
        sfx = 'nc' if center == 'node' else 'cc'
        xl = np.array([c[0] for c in arrs])
        xh = np.array([c[-1] for c in arrs])
        S = max(sc)
        close(ctx, crds.get_xl(center=center), xl, key + "/xl/" + sfx, S, f4)
        close(ctx, crds.get_xh(center=center), xh, key + "/xh/" + sfx, S, f4)
        close(ctx, crds.get_L(center=center), xh - xl, key + "/L/" + sfx, S, f4)
        close(ctx, getattr(crds, 'xl_' + sfx), xl, key + "/xl/" + sfx, S, f4)
        close(ctx, getattr(crds, 'xh_' + sfx), xh, key + "/xh/" + sfx, S, f4)
        close(ctx, getattr(crds, 'L_' + sfx), xh - xl, key + "/L/" + sfx, S, f4)
        ctx.check(list(getattr(crds, 'shape_' + sfx)) == [len(a) for a in arrs],
                  key + "/shape/" + sfx, lambda: "%s %s" % (
                      getattr(crds, 'shape_' + sfx), [len(a) for a in arrs]))
        ctx.check(int(getattr(crds, 'size_' + sfx)) == np.prod([len(a) for a in arrs]),
                  key + "/size/" + sfx)
        ctx.check(int(crds.get_nr_points(center=center)) == np.prod([len(a) for a in arrs]),
                  key + "/nr_points")
        # what was handed out is not the object's own
        for fn in (crds.get_xl, crds.get_xh, crds.get_L):
            v = fn(center=center)
            w = np.array(v)
            try:
                v += 3
            except (TypeError, ValueError):
                continue
            ctx.same(fn(center=center), w, key + "/own")
        subs = [axes[k] for k, i in enumerate(sel)]
        close(ctx, crds.get_xl(subs, center=center), xl[sel], key + "/xl/subset", S, f4)
        close(ctx, crds.get_xh(subs, center=center), xh[sel], key + "/xh/subset", S, f4)
        close(ctx, crds.get_L(subs, center=center), (xh - xl)[sel], key + "/L/subset", S, f4)
        dx = crds.get_dx(center=center)
        md = crds.get_min_dx(center=center)
        mda = getattr(crds, 'min_dx_' + sfx)
        mds = crds.get_min_dx(subs, center=center)
        for i in range(nd):
            if len(arrs[i]) > 1:
                close(ctx, dx[i], np.diff(arrs[i]), key + "/dx/" + sfx, sc[i], f4)
                w = np.min(np.diff(arrs[i]))
                close(ctx, md[i], w, key + "/min_dx/" + sfx, sc[i], f4)
                close(ctx, mda[i], w, key + "/min_dx/" + sfx, sc[i], f4)
                if i in sel:
                    close(ctx, mds[sel.index(i)], w, key + "/min_dx/subset", sc[i], f4)
        # -- points
        mesh = np.array([m.ravel() for m in np.meshgrid(*arrs, indexing='ij')])
        close(ctx, crds.get_points(center=center), mesh, key + "/get_points", S, f4)
        close(ctx, crds.points(center=center), mesh, key + "/points", S, f4)
        it = np.array(list(crds.iter_points(center=center)), dtype='f8').T
        close(ctx, it, mesh, key + "/iter_points", S, f4)
        n_good = [len(a) for a in arrs if len(a) > 1]
        if nd == 3 and len(n_good) == 2:
            close(ctx, crds.as_mesh(center=center), mesh.reshape([3] + n_good),
                  key + "/as_mesh", S, f4)
    ctx.check(list(crds.shape) == [len(a) for a in ncs], key + "/shape")
    ctx.check(int(crds.nr_points) == np.prod([len(a) for a in ncs]), key + "/nr_points")
    close(ctx, np.asarray(crds), np.array([m.ravel() for m in np.meshgrid(*ncs, indexing='ij')]),
          key + "/array", max(sc), f4)
    close(ctx, crds.points(), np.asarray(crds), key + "/points/default", max(sc), f4)


def scen_queries(ctx, rng):
    nd = int(rng.randint(1, 5))
    dtype = ['f8', 'f8', 'f4'][rng.randint(3)]
    kinds, names, ncs = both_kinds(rng, nd, rng.randint(1, 3), dtype=dtype,
                                   hi=5 if nd == 4 else 9)
    for kind, crds in kinds:
        check_queries(ctx, kind, crds, names, ncs, dtype == 'f4', "query/" + kind, rng)
    # rebuilding from what the object says about itself
    for kind, crds in kinds:
        c2 = type(crds)(crds.get_clist(), dtype=dtype)
        check_queries(ctx, kind, c2, names, ncs, dtype == 'f4', "clist/" + kind, rng)
        for full in crds.get_clist(full_arrays=True, center='cell'):
            i = names.index(full[0])
            if len(ncs[i]) > 1:
                close(ctx, full[1], cc_of(ncs[i]), "clist/cell", np.max(np.abs(ncs[i])),
                      dtype == 'f4')
    ctx.saw(nd, tuple(len(c) for c in ncs), len(kinds), dtype)


def scen_reflect(ctx, rng):
    """reflected axes behave like the reflected arrays"""
    from viscid import coordinate
    nd = int(rng.randint(1, 4))
    kinds, names, ncs = both_kinds(rng, nd, 2)
    refl = [n for n in names if rng.randint(2)]
    rncs = [-c[::-1] if n in refl else c for n, c in zip(names, ncs)]
    how = rng.randint(2)
    for kind, crds in kinds:
        clist = [[n, np.array(c)] if kind == 'explicit' else [n, [c[0], c[-1], len(c)]]
                 for n, c in zip(names, ncs)]
        arg = refl if rng.randint(2) else "".join(refl)
        if how:
            c2 = coordinate.wrap_crds(crds.crdtype, clist, reflect_axes=arg)
        else:
            c2 = coordinate.wrap_crds(crds.crdtype, clist)
            c2.reflect_axes = arg
        c2.units = ["unit-%s" % n for n in names]
        check_queries(ctx, kind, c2, names, rncs, False, "reflect/" + kind, rng)
        c3 = c2.apply_reflections()
        check_queries(ctx, kind, c3, names, rncs, False, "reflect/applied/" + kind, rng)
        ctx.check([c.get_unit(n) for c in (c2, c3) for n in names] == 2 * ["unit-%s" % n for n in names],
                  "reflect/units", lambda: "%s %s" % (c2.units, c3.units))
        arr = rng.standard_normal([len(c) for c in ncs])
        want = arr[tuple(slice(None, None, -1) if n in refl else slice(None)
                         for n in names)]
        ctx.same(c2.reflect_fld_arr(arr), want, "reflect/data")
        varr = rng.standard_normal([3] + [len(c) - 1 for c in ncs])
        vw = varr[(slice(None),) + tuple(slice(None, None, -1) if n in refl else slice(None)
                                         for n in names)]
        ctx.same(c2.reflect_fld_arr(varr, cc=True, nr_comp=0, nr_comps=3), vw,
                 "reflect/vector")
    ctx.saw(nd, tuple(refl), len(kinds), how)


def scen_auto(ctx, rng):
    """arrays2crds keeps the arrays it is given whatever kind it picks"""
    from viscid import coordinate
    import viscid
    nd = int(rng.randint(1, 4))
    dtype = ['f8', 'f8', 'f4', 'int'][rng.randint(4)]
    kind = ['uniform', 'dyadic', 'stretched', 'nearly'][rng.randint(4)]
    ncs = []
    for _ in range(nd):
        n = rng.randint(1, 9)
        if dtype == 'int':
            c = np.arange(n) * (1 if kind != 'stretched' else 1) + rng.randint(-5, 5)
            if kind == 'stretched':
                c = np.cumsum(rng.randint(1, 4, size=n))
        elif kind == 'nearly':
            c = gen.rand_nc(rng, n, 'uniform', scale=1.0)
            if n > 2:
                k = rng.randint(1, n - 1)
                c[k] += 10.0 ** rng.uniform(-3, -1) * (c[1] - c[0])
        else:
            c = gen.rand_nc(rng, n, kind)
        ncs.append(np.asarray(c).astype(dtype if dtype != 'int' else 'i8'))
    arg = list(ncs) if nd > 1 or rng.randint(2) else ncs[0]
    which = rng.randint(3)
    if which == 0:
        crds = coordinate.arrays2crds(arg, crd_names=NAMES[:nd])
    elif which == 1:
        crds = coordinate.arrays2crds(arg, crd_type='AUTO_CARTESIAN'.lower().replace(
            'auto', 'AUTO'), crd_names=NAMES[:nd])
    else:
        crds = viscid.arrays2field(arg, rng.standard_normal([len(c) for c in ncs]),
                                   crd_names=NAMES[:nd]).crds
    f4 = dtype == 'f4'
    for g, w in zip(crds.get_crds_nc(), ncs):
        rt = 4e-6 if f4 else 1e-12
        ctx.close(np.asarray(g, 'f8'), np.asarray(w, 'f8'), "auto/nodes", rtol=rt,
                  atol=rt * max(np.max(np.abs(w)), 1e-300),
                  msg=lambda: "%s %s" % (crds.crdtype, w))
    ctx.saw(nd, kind, dtype, which, crds.crdtype)


def scen_extend(ctx, rng):
    from viscid import coordinate
    n = int(rng.randint(2, 9))
    kind = ['uniform', 'dyadic', 'stretched'][rng.randint(3)]
    x = gen.rand_nc(rng, n, kind)
    nl, nh = int(rng.randint(0, 4)), int(rng.randint(0, 4))
    arg = (nl, nh)
    if rng.randint(3) == 0:
        nh = nl
        arg = nl
    frac = [1.0, 0.5, 0.25][rng.randint(3)]
    x0 = x.copy()
    got = coordinate.extend_arr(x, n=arg, cell_fraction=frac)
    dl, dh = frac * (x[1] - x[0]), frac * (x[-1] - x[-2])
    want = np.concatenate([x[0] - dl * np.arange(nl, 0, -1), x,
                           x[-1] + dh * np.arange(1, nh + 1)])
    close(ctx, got, want, "extend/full", np.max(np.abs(want)))
    ctx.same(x, x0, "extend/argument")
    if kind != 'stretched':
        lin = np.array([x[0], x[-1], n])
        l0 = lin.copy()
        g2 = coordinate.extend_arr(lin, n=arg, full_arr=False)
        w2 = np.concatenate([x[0] - (x[1] - x[0]) * np.arange(nl, 0, -1), x,
                             x[-1] + (x[-1] - x[-2]) * np.arange(1, nh + 1)])
        close(ctx, np.linspace(g2[0], g2[1], int(g2[2])), w2, "extend/linspace",
              np.max(np.abs(w2)))
        ctx.same(lin, l0, "extend/argument")
    ctx.saw(n, kind, nl, nh, frac)


def scen_recenter(ctx, rng):
    """data and points stay together through re-centering"""
    import viscid
    f, m, desc = gen.rand_field(rng, lo=1, hi=6, dtype=['f8', 'f4', 'i4'][rng.randint(3)],
                                time=float(rng.uniform(0, 9)), units='nT',
                                name='q')
    snap = gen.snapshot(f)
    chain = []
    cur = f
    for _ in range(rng.randint(1, 4)):
        other = 'cell' if cur.center == 'node' else 'node'
        how = rng.randint(4)
        if how == 0:
            cur = cur.as_centered(other)
        elif how == 1:
            cur = cur.as_cell_centered() if other == 'cell' else cur.as_node_centered()
        elif how == 2:
            cur = cur.as_centered(other.title())
        else:
            same = cur.as_centered(cur.center)
            ctx.check(same is cur, "recenter/noop")
            cur = cur.as_centered(other, default_width=0.25)
        chain.append((other, how))
        # same data at the same points
        pts = [np.asarray(c, 'f8') for c in m.crds()]
        mm = gen.Model(m.vals, [gen.Axis(a.name, p if other == 'node' else a.nc, cc=p)
                                for a, p in zip(m.axes, pts)], other, m.ncomp)
        gen.check_field(ctx, cur, mm, "recenter", crds='own', rtol=1e-11,
                        scale=max([np.max(np.abs(p)) for p in pts] + [1.0]) * 10,
                        msg=lambda: "%s %s" % (desc, chain))
        ctx.check(cur.name == f.name and cur.time == f.time, "recenter/meta")
        ctx.check(cur.layout == f.layout, "recenter/layout", lambda: str(desc))
        if other == 'cell':
            # the edges bracket every center, in order
            for nc, p in zip(cur.get_crds_nc(), pts):
                ctx.check(len(nc) == len(p) + 1, "recenter/edges",
                          lambda: "%d edges for %d cells %s" % (len(nc), len(p), desc))
                ctx.check(np.all(nc[:-1] < p) and np.all(p < nc[1:]), "recenter/edges/order",
                          lambda: "%s %s" % (nc, p))
        for g, p in zip(np.asarray(cur.get_points(), 'f8'),
                        np.array([q.ravel() for q in np.meshgrid(*pts, indexing='ij')])):
            close(ctx, g, p, "recenter/points", max(np.max(np.abs(p)), 1.0) * 10)
        ctx.check(cur.nr_points == int(np.prod([len(p) for p in pts])), "recenter/nr_points")
        m = mm
    # what is done with the re-centered field keeps them together too
    op = rng.randint(4)
    if m.vals.size == 1:
        op = 3      # comes back as a number
    if op == 0 and cur.nr_sdims > 1:
        perm = rng.permutation(cur.nr_sdims)
        t = cur.transpose_crds(*[m.axes[i].name for i in perm])
        vals = np.transpose(m.vals, list(perm) + ([cur.nr_sdims] if m.ncomp else []))
        gen.check_field(ctx, t, gen.Model(vals, [m.axes[i] for i in perm], m.center, m.ncomp),
                        "recenter/transpose", scale=100.0)
    elif op == 1:
        g = cur * 1
        gen.check_field(ctx, g, m, "recenter/mul", scale=100.0)
    elif op == 2:
        i = int(rng.randint(cur.nr_sdims))
        n = m.vals.shape[i]
        k = int(rng.randint(1, n + 1))
        if m.vals.size // n * k == 1:
            raise Skip()
        sl = [slice(None)] * cur.nr_sdims
        sl[i] = slice(0, k)
        g = cur[','.join('%s=:%s' % (a.name, k if j == i else '')
                         for j, a in enumerate(m.axes))]
        ax = [gen.Axis(a.name, a.nc, cc=a.cc) for a in m.axes]
        src = m.axes[i]
        if m.center == 'node':
            ax[i] = gen.Axis(src.name, src.nc[:k])
        else:
            ax[i] = gen.Axis(src.name, src.nc[:k], cc=src.cc[:k])
        gen.check_field(ctx, g, gen.Model(m.vals[tuple(sl)], ax, m.center, m.ncomp),
                        "recenter/slice", scale=100.0)
    gen.check_unchanged(ctx, f, snap, "recenter/source")
    ctx.saw(desc['center'], desc['ncomp'], tuple(desc['sshape']), tuple(chain), op)


def scen_field(ctx, rng):
    """a field's own queries follow its centering"""
    f, m, desc = gen.rand_field(rng, lo=2, hi=6)
    nd = len(m.axes)
    arrs = m.crds()
    ncs, ccs = [a.nc for a in m.axes], [a.cc for a in m.axes]
    sc = [max(np.max(np.abs(c)), 1e-300) for c in ncs]
    S = max(sc)
    for i, a in enumerate(m.axes):
        key = [a.name, i][rng.randint(2)]
        close(ctx, f.get_crd(key), arrs[i], "field/get_crd", sc[i])
        close(ctx, f.get_crd_nc(key), ncs[i], "field/get_crd_nc", sc[i])
        close(ctx, f.get_crd_cc(key), ccs[i], "field/get_crd_cc", sc[i])
    for sh in (False, True):
        for i, (g, h, k) in enumerate(zip(f.get_crds(shaped=sh), f.get_crds_nc(shaped=sh),
                                          f.get_crds_cc(shaped=sh))):
            for got, w in ((g, arrs[i]), (h, ncs[i]), (k, ccs[i])):
                s = [1] * nd
                s[i] = len(w)
                close(ctx, got, w.reshape(s) if sh else w, "field/get_crds", sc[i])
    # the extent of the grid
    close(ctx, f.xl, [a[0] for a in ncs], "field/xl", S)
    close(ctx, f.xh, [a[-1] for a in ncs], "field/xh", S)
    mesh = np.meshgrid(*arrs, indexing='ij')
    for g, w in zip(f.meshgrid(), mesh):
        close(ctx, g, w, "field/meshgrid", S)
    for g, w in zip(f.meshgrid_flat(), mesh):
        close(ctx, g, w.ravel(), "field/meshgrid_flat", S)
    close(ctx, f.get_points(), [w.ravel() for w in mesh], "field/points", S)
    close(ctx, np.array(list(f.iter_points()), 'f8').T, [w.ravel() for w in mesh],
          "field/iter_points", S)
    ctx.check(tuple(f.sshape) == tuple(len(a) for a in arrs), "field/sshape")
    ctx.check(f.nr_sdims == nd and f.nr_points == mesh[0].size, "field/nr_points")
    ctx.check(f.nr_dims == nd + (1 if m.ncomp else 0), "field/nr_dims")
    ctx.check(tuple(f.crds.shape_nc) == tuple(len(a) for a in ncs) and
              tuple(f.crds.shape_cc) == tuple(len(a) for a in ccs), "field/crds/shape")
    ctx.saw(nd, desc['center'], desc['ncomp'], tuple(desc['sshape']))


SCENARIOS = [
    Scenario("queries", scen_queries, quick=1200, thorough=30000, need=20000),
    Scenario("reflect", scen_reflect, quick=800, thorough=20000, need=10000),
    Scenario("auto", scen_auto, quick=1500, thorough=40000, need=1500),
    Scenario("extend", scen_extend, quick=2000, thorough=50000, need=3000),
    Scenario("recenter", scen_recenter, quick=3000, thorough=80000, need=20000),
    Scenario("field", scen_field, quick=1500, thorough=40000, need=15000),
]

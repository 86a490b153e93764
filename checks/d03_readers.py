"""D03 files of simulations are decoded to the numbers in them"""
from __future__ import print_function
import os
import struct
from xml.sax.saxutils import quoteattr

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext, gen, xfiles
import viscid
from viscid.readers.openggcm import GGCMFile, GGCMGrid

PID = "D03"
TECHNIQUE = ("runtime monitoring: random files are written byte by byte from "
             "known arrays in each supported format (no code of the library "
             "takes part), the real readers load them alone, in groups and in "
             "parts, and a plain-array model judges values, coordinates, "
             "components, centering, times and grouping")
RULE = ("an execution counts when the variables of a file were compared; "
        "signatures are (format, dims, variables, dtype, byte order, steps, "
        "way of reading)")
ASSUMPTIONS = [
    "formats that hold cell centers only: nodes are half way between them, "
    "as in the readers",
    "well formed files, one geometry per group of files",
]
_SER = [0]


def setup():
    ext.ensure()
    viscid.logger.setLevel(60)
    GGCMFile._already_warned_about_logfile = True


def serial():
    _SER[0] += 1
    return "%d_%d" % (os.getpid(), _SER[0])


def fval(rng, shape, dt='f4'):
    """values that a format has to carry exactly"""
    v = (rng.standard_normal(shape) * 10.0 ** rng.uniform(-3, 4)).astype(dt)
    if v.size and np.dtype(dt).kind == 'f' and rng.randint(5) == 0:
        v.reshape(-1)[rng.randint(v.size)] = [0.0, -0.0, 1e-30, -3e30][rng.randint(4)]
    return v


def nodes_of(cc):
    cc = np.asarray(cc, dtype='f8')
    h = 0.5 * np.diff(cc)
    return np.concatenate([[cc[0] - h[0]], cc[:-1] + h, [cc[-1] + h[-1]]])


def compare(ctx, rng, fld, vals, nodes, center, key, msg, time=None, rtol=0.0,
            names="xyz", ncomp=0, lazy=True, dtype=None):
    """one variable of a file"""
    sh = vals.shape[:-1] if ncomp else vals.shape
    ctx.check(fld.center == center, key + "/center", lambda: "%s %s" % (fld.center, msg()))
    if lazy and rng.randint(3) == 0 and ncomp == 0:
        s, idx = [], []
        for m in sh:
            a = int(rng.randint(m))
            b = int(rng.randint(a, m)) + 1
            st = int(rng.randint(1, 3))
            s.append(slice(a, b, st))
            idx.append(np.arange(a, b, st))
        part = fld[tuple(s)]
        want = vals[np.ix_(*idx)]
        got = np.asarray(getattr(part, 'data', part))
        ctx.check(got.size == want.size, key + "/part-shape",
                  lambda: "%s %s %s" % (got.shape, want.shape, msg()))
        close(ctx, got.reshape(want.shape), want, key + "/part", msg, rtol)
        ctx.count("parts")
    c = gen.canon(fld)
    close(ctx, c, vals, key + "/values", msg, rtol)
    if dtype is not None:
        ctx.check(np.dtype(c.dtype) == np.dtype(dtype), key + "/dtype",
                  lambda: "%s != %s %s" % (c.dtype, dtype, msg()))
    ctx.check(int(fld.nr_comps) == ncomp, key + "/ncomps", msg)
    if nodes is not None:
        ctx.check(list(fld.crds.axes) == list(names), key + "/axes",
                  lambda: "%s %s" % (fld.crds.axes, msg()))
        top = max(np.max(np.abs(a)) + np.ptp(a) for a in nodes)
        for g, a in zip(fld.crds.get_crds_nc(), nodes):
            gen.check_crd(ctx, g, a, key + "/nodes", top, msg)
        for g, a in zip(fld.crds.get_crds_cc(), nodes):
            if len(a) > 1:
                a = np.asarray(a, dtype='f8')
                gen.check_crd(ctx, g, 0.5 * (a[1:] + a[:-1]), key + "/centers",
                              top, msg, rtol=1e-12 if g.dtype == 'f8' else 3e-6)
    if time is not None:
        ctx.check(fld.time == time, key + "/time", lambda: "%r != %r %s" % (fld.time, time, msg()))
    ctx.count("variables")


def close(ctx, got, want, key, msg, rtol):
    if rtol:
        ctx.close(got, want, key, rtol=rtol, atol=rtol * 1e-300, msg=msg)
    else:
        ctx.same(got, want, key, msg)


def times_of(rng, k, integral=False):
    """k distinct ascending times"""
    if integral:
        return sorted(int(t) for t in rng.permutation(4000)[:k])
    t = set([0.0]) if rng.randint(2) else set()
    while len(t) < k:
        t.add([round(float(rng.uniform(0, 900)), 3), float(rng.randint(100)),
               float(rng.uniform(-1, 1)) * 1e-4][rng.randint(3)])
    return sorted(t)


# -- xdmf -----------------------------------------------------------------------
class Doc(object):
    """an xdmf document and its hdf5 file"""
    def __init__(self, rng, d, base):
        self.rng, self.d, self.base = rng, d, base
        self.h5 = {}
        self.n = 0

    def item(self, arr, name=None, fmt=None):
        arr = np.asarray(arr)
        fmt = fmt or ['HDF', 'HDF', 'XML'][self.rng.randint(3)]
        nt = {'f': 'Float', 'i': 'Int', 'u': 'UInt'}[arr.dtype.kind]
        if arr.dtype.itemsize == 1:
            nt = {'i': 'Char', 'u': 'UChar'}[arr.dtype.kind]
        if fmt == 'HDF':
            self.n += 1
            path = "/g%d/%s%d" % (self.n % 3, ["a", "it em", "x:y", "p_1"][self.rng.randint(4)], self.n)
            self.h5[path] = arr
            text = "%s%s.h5:%s" % (["", "./"][self.rng.randint(2)], self.base, path)
        else:
            text = " ".join(repr(v.item()) for v in arr.reshape(-1))
            if self.rng.randint(2):
                text = "\n " + text.replace(" ", "\n") + " \n"
        a = 'Dimensions="%s" NumberType="%s" Precision="%d" Format="%s"' % (
            " ".join(str(s) for s in arr.shape), nt, arr.dtype.itemsize, fmt)
        if name:
            a = 'Name="%s" ' % name + a
        return "<DataItem %s>%s</DataItem>" % (a, text)

    def write(self, body):
        xfiles.write_h5(os.path.join(self.d, self.base + ".h5"), self.h5)
        fn = os.path.join(self.d, self.base + ".xdmf")
        with open(fn, 'w') as f:
            f.write(xfiles.XHEAD + body + xfiles.XTAIL)
        return fn


def x_geom(doc, rng, sh, dt):
    """topology and geometry of a grid with sh nodes; returns xml, nodes"""
    dims = " ".join(str(s) for s in sh[::-1])
    if rng.randint(3) == 0:
        o = rng.uniform(-10, 10, size=3).astype(dt)
        dx = rng.uniform(0.1, 2, size=3).astype(dt)
        nodes = [o[i].astype('f8') + dx[i].astype('f8') * np.arange(sh[i]) for i in range(3)]
        return ('<Topology TopologyType="3DCoRectMesh" Dimensions="%s"/>'
                '<Geometry GeometryType="ORIGIN_DXDYDZ">%s%s</Geometry>' % (
                    dims, doc.item(o[::-1]), doc.item(dx[::-1]))), nodes, 'uniform'
    nodes = [gen.rand_nc(rng, n, ['uniform', 'stretched', 'int'][rng.randint(3)], dtype=dt)
             for n in sh]
    items = [doc.item(n, 'V' + c) for n, c in zip(nodes, "XYZ")]
    if rng.randint(3) == 0:
        items = [items[i] for i in rng.permutation(3)]
    return ('<Topology TopologyType="3DRectMesh" Dimensions="%s"/>'
            '<Geometry GeometryType="VXVYVZ">%s</Geometry>' % (dims, "".join(items))), nodes, 'rect'


NAMES = ["rr", "b x", "p<q", "a&b", "V", "n'", "pp1"]
XDT = ['f4', 'f8', 'f8', 'i4', 'i8', 'u4', 'u1', 'i1', 'i2']


def x_attrs(doc, rng, sh, nodes):
    out, xml = {}, ""
    for nm in [NAMES[i] for i in rng.permutation(len(NAMES))[:rng.randint(1, 4)]]:
        center = ['node', 'cell', 'cell', 'face'][rng.randint(4)]
        s = list(sh) if center == 'node' else [m - 1 for m in sh]
        ncomp = [0, 0, 3, 2][rng.randint(4)]
        dt = XDT[rng.randint(len(XDT))]
        vals = gen.rand_vals(rng, s + ([ncomp] if ncomp else []), 'i4' if dt[0] != 'f' else dt)
        vals = (vals % 100 if dt[1:] == '1' else vals).astype(dt)
        dat = np.transpose(vals, (2, 1, 0) + ((3,) if ncomp else ()))
        cen = [center, center.title()][rng.randint(2)]
        typ = ['Vector', 'VECTOR'][rng.randint(2)] if ncomp else ['Scalar', 'scalar'][rng.randint(2)]
        xml += '<Attribute Name=%s AttributeType="%s" Center="%s">%s</Attribute>' % (
            quoteattr(nm), typ, cen, doc.item(dat))
        out[nm] = (vals, center, ncomp, dt)
    return xml, out


def sc_xdmf(ctx, rng):
    """documents of one grid or of steps"""
    with xfiles.scratch() as d:
        base = "x" + serial()
        doc = Doc(rng, d, base)
        dt = ['f8', 'f8', 'f4'][rng.randint(3)]
        k = int([1, 1, 2, 3, 5][rng.randint(5)])
        sh = [int(v) for v in rng.randint(2, 6, size=3)]
        times = times_of(rng, k)
        how = ['own', 'list', 'slab', 'spatial', 'include', 'include-one'][rng.randint(6)]
        if how == 'slab':
            t0, st = float(rng.randint(-5, 50)), [1.0, 0.5, 60.0][rng.randint(3)]
            times = [t0 + i * st for i in range(k)]
        alone = k == 1 and how in ('own', 'spatial') and rng.randint(2)
        shared = rng.randint(3) == 0 and not alone
        gxml, gnodes, gk = x_geom(doc, rng, sh, dt)
        steps, grids = {}, []
        for i in rng.permutation(k):
            t = times[i]
            if shared:
                geom, nodes, kind = "", gnodes, gk
                s = sh
            else:
                s = [int(v) for v in rng.randint(2, 6, size=3)] if rng.randint(2) else sh
                geom, nodes, kind = x_geom(doc, rng, s, dt)
            axml, attrs = x_attrs(doc, rng, s, nodes)
            steps[t] = (nodes, attrs)
            tag = '<Time Type="Single" Value="%r" />' % t
            if rng.randint(4) == 0:
                tag = '<Time Value="%r" />' % t
            inf = '<Information Name="who" Value="step %d" />' % i
            if how in ('own', 'include', 'include-one'):
                g = '<Grid Name="g%d" GridType="Uniform">%s%s%s%s</Grid>' % (i, tag, inf, geom, axml)
            elif how == 'spatial':
                g = ('<Grid Name="s" GridType="Collection" CollectionType="Spatial">%s'
                     '<Grid Name="g%d" GridType="Uniform">%s%s%s</Grid></Grid>' % (
                         tag, i, inf, geom, axml))
            else:
                g = '<Grid Name="g%d" GridType="Uniform">%s%s%s</Grid>' % (i, inf, geom, axml)
            grids.append((t, g))
        if how == 'slab':
            grids.sort(key=lambda q: q[0])
        ttag = ""
        if how == 'list':
            ttag = '<Time TimeType="List" Type="List">%s</Time>' % doc.item(
                np.array([t for t, _ in grids], dtype='f8'))
        elif how == 'slab':
            ttag = '<Time Type="HyperSlab">%s</Time>' % doc.item(np.array([t0, st, k], dtype='f8'))
        body = ""
        if how == 'include':
            for j, (t, g) in enumerate(grids):
                with open(os.path.join(d, "%s_inc%d.xdmf" % (base, j)), 'w') as f:
                    f.write(xfiles.XHEAD + g + xfiles.XTAIL)
                body += '<xi:include href="%s_inc%d.xdmf" xpointer="xpointer(//Xdmf/Domain/Grid)"/>' % (base, j)
            if rng.randint(2):
                body += '<xi:include href="nothere.xdmf" xpointer="xpointer(//Xdmf/Domain/Grid)"/>'
        elif how == 'include-one':
            with open(os.path.join(d, "%s_inc.xdmf" % base), 'w') as f:
                f.write(xfiles.XHEAD + "".join(g for _, g in grids) + xfiles.XTAIL)
            for j in range(k):
                body += ('<xi:include href="%s_inc.xdmf" xpointer="xpointer(//Xdmf/Domain/Grid[%d])"/>'
                         % (base, j + 1))
        else:
            body = "".join(g for _, g in grids)
        if not alone:
            body = '<Grid Name="all" GridType="Collection" CollectionType="Temporal">%s%s%s</Grid>' % (
                ttag, gxml if shared else "", body)
        fn = doc.write(body)
        msg = lambda: "%s k=%d shared=%s alone=%s times=%r" % (how, k, shared, alone, [t for t, _ in grids])  # noqa
        f = viscid.load_file(fn)
        try:
            if not alone:
                got = [float(g.time) for g in [f.iter_times, f.get_times][rng.randint(2)]()]
                ctx.check(got == sorted(steps), "xdmf/times", lambda: "%r %s" % (got, msg()))
                ctx.check(f.nr_times() == k, "xdmf/nr_times", msg)
            ts = sorted(steps)
            for t in [ts[i] for i in rng.permutation(k)]:
                nodes, attrs = steps[t]
                if alone:
                    g = f.get_grid()
                elif rng.randint(2):
                    f.activate_time(t)
                    g = f.get_grid()
                else:
                    g = f.get_grid(time=t)
                ctx.check(float(g.time) == t, "xdmf/grid-time", lambda: "%r %r %s" % (g.time, t, msg()))
                ctx.check(g.find_info("who") == "step %d" % times.index(t), "xdmf/info", msg)
                ctx.check(sorted(g.field_dict()) == sorted(attrs), "xdmf/names",
                          lambda: "%s %s" % (sorted(g.field_dict()), msg()))
                for nm, (vals, center, ncomp, vdt) in attrs.items():
                    fl = g[nm] if rng.randint(2) else (
                        f.get_field(nm) if alone else f.get_field(nm, time=t))
                    compare(ctx, rng, fl, vals, nodes, center, "xdmf", msg, time=t, ncomp=ncomp,
                            dtype=vdt)
                    ctx.saw('xdmf', how, k > 1, shared, center, ncomp, vdt, alone)
        finally:
            f.unload()


def sc_iono(ctx, rng):
    """maps of the sphere: only the sizes count"""
    with xfiles.scratch() as d:
        doc = Doc(rng, d, "i" + serial())
        nth, nph = [int(v) for v in rng.randint(3, 9, size=2)]
        vals = fval(rng, (nth, nph))
        xyz = np.zeros((nth * nph * 3,), dtype='f4')
        body = ('<Grid Name="m" GridType="Uniform"><Time Type="Single" Value="3.5"/>'
                '<Topology TopologyType="2DSMesh" Dimensions="%d %d"/>'
                '<Geometry GeometryType="XYZ">%s</Geometry>'
                '<Attribute Name="fac" AttributeType="Scalar" Center="Node">%s</Attribute></Grid>'
                % (nth, nph, doc.item(xyz, fmt='HDF'), doc.item(vals)))
        f = viscid.load_file(doc.write(body))
        try:
            compare(ctx, rng, f['fac'], vals.T, [np.linspace(0, 360, nph), np.linspace(0, 180, nth)],
                    'node', "iono", lambda: "%d %d" % (nth, nph), time=3.5, names=['phi', 'theta'])
        finally:
            f.unload()
        ctx.saw('iono', nth, nph)


# -- plain text -------------------------------------------------------------------
def sc_ascii(ctx, rng):
    with xfiles.scratch() as d:
        k = rng.randint(3)
        if k == 0:
            n, m = int(rng.randint(1, 9)), int(rng.randint(1, 6))
            x = np.cumsum(rng.uniform(0.1, 2, size=n)) - 3
            dat = np.column_stack([x] + [fval(rng, n, 'f8') for _ in range(m - 1)])
            fn = os.path.join(d, "a%s.%s" % (serial(), ["txt", "asc"][rng.randint(2)]))
            with open(fn, 'w') as f:
                if rng.randint(2):
                    f.write("# some words\n")
                for row in dat:
                    f.write([" ", "\t", "   "][rng.randint(3)].join(repr(float(v)) for v in row) + "\n")
            f = viscid.load_file(fn)
            try:
                g = f.get_grid()
                msg = lambda: "%d rows %d columns" % (n, m)  # noqa
                ctx.check(sorted(g.field_dict()) == ["c%d" % i for i in range(1, m)], "ascii/names",
                          lambda: "%s %s" % (sorted(g.field_dict()), msg()))
                gen.check_crd(ctx, g.crds.get_nc('x'), x, "ascii/x", 30, msg)
                for i in range(1, m):
                    compare(ctx, rng, g["c%d" % i], dat[:, i], [x], 'node', "ascii", msg, names="x")
            finally:
                f.unload()
            ctx.saw('ascii', n, m)
        elif k == 1:
            nd = int(rng.randint(1, 4))
            sh = [int(v) for v in rng.randint(2, 6, size=nd)]
            names = ["x", "y", "z"][:nd] if rng.randint(2) else ["p", "q", "rad"][:nd]
            nodes = [gen.rand_nc(rng, s, 'stretched') for s in sh]
            fn = os.path.join(d, "n%s.nda" % serial())
            flds = {}
            with open(fn, 'w') as f:
                nf = int(rng.randint(1, 4))
                f.write("NDim: %d\nNfields: %d\n" % (nd, nf))
                for a, c in zip(names, nodes):
                    f.write("%s f8\n%s\n" % (a, " ".join(repr(float(v)) for v in c)))
                for i in range(nf):
                    dt = ['f8', 'f4', 'i4'][rng.randint(3)]
                    v = gen.rand_vals(rng, sh, dt)
                    f.write("q%d %s\n%s\n" % (i, dt, " ".join(repr(w.item()) for w in v.reshape(-1))))
                    flds["q%d" % i] = v
            f = viscid.load_file(fn)
            try:
                for nm, v in flds.items():
                    compare(ctx, rng, f[nm], v, nodes, 'node', "nda", lambda: "%s" % sh,
                            names=names, dtype=v.dtype)
            finally:
                f.unload()
            ctx.saw('nda', nd, tuple(sh))
        else:
            n, m = int(rng.randint(1, 9)), int(rng.randint(2, 6))
            names = ["dt", "mass", "x1 Mom.", "x2-ME", "scalar 0"][:m - 1]
            t = np.cumsum(rng.uniform(0.1, 1, size=n))
            dat = np.column_stack([t] + [fval(rng, n, 'f8') for _ in names])
            fn = os.path.join(d, "h%s.hst" % serial())
            with open(fn, 'w') as f:
                f.write("# Athena history dump for level=0 domain=0 volume=1.0e+00\n")
                f.write("#   " + "   ".join("[%d]=%s" % (i + 1, c)
                                            for i, c in enumerate(["time"] + names)) + "\n")
                for row in dat:
                    f.write("  ".join("%.17e" % v for v in row) + "\n")
            f = viscid.load_file(fn)
            try:
                for i, nm in enumerate(names):
                    compare(ctx, rng, f[nm], dat[:, i + 1], [t], 'node', "hst",
                            lambda: "%d rows" % n, names="t")
            finally:
                f.unload()
            ctx.saw('hst', n, m)


# -- athena -------------------------------------------------------------------------
def cc_axis(rng, n, dt):
    if rng.randint(2):
        cc = rng.uniform(-5, 5) + np.cumsum(rng.uniform(0.2, 1.5, size=n))
    else:
        cc = rng.uniform(-5, 5) + rng.uniform(0.1, 2) * np.arange(n)
    return cc.astype(dt)


def athena_nodes(ccs):
    # spacings as they're stored
    dx = float(min(np.min(np.diff(c)) for c in ccs if len(c) > 1))
    return [nodes_of(c) if len(c) > 1 else
            np.array([c[0] - 0.5 * dx, c[0] + 0.5 * dx]) for c in ccs]


def ath_sizes(rng):
    while True:
        n = [int(v) for v in rng.randint(2, 6, size=3)]
        for i in range(3):
            if rng.randint(4) == 0:
                n[i] = 1
        if max(n) > 1:
            return n


def sc_athena_bin(ctx, rng):
    with xfiles.scratch() as d:
        n = ath_sizes(rng)
        end = "<>"[rng.randint(2)]
        fdt = ['f4', 'f8'][rng.randint(2)]
        var = ['cons', 'prim'][rng.randint(2)]
        prim = [4, 5, 7, 8][rng.randint(4)]
        nscal = int(rng.randint(3))
        allnm = dict(cons=['d', 'M1', 'M2', 'M3', 'E', 'B1', 'B2', 'B3'],
                     prim=['d', 'V1', 'V2', 'V3', 'P', 'B1c', 'B2c', 'B3c'])[var]
        names = allnm[:4] + (allnm[4:5] if prim in (5, 8) else []) + (allnm[5:] if prim > 6 else [])
        names = names + [str(i) for i in range(prim, prim + nscal)]
        ccs = [cc_axis(rng, m, fdt) for m in n]
        nodes = athena_nodes(ccs)
        k = int([1, 1, 2, 4][rng.randint(4)])
        times = [float(np.dtype(fdt).type(t)) for t in times_of(rng, k)]
        if len(set(times)) < k:
            raise Skip("equal times")
        base = "r" + serial()
        steps = {}
        fns = []
        for i in range(k):
            fn = os.path.join(d, "%s.%04d.bin" % (base, i * 7 + 1))
            fns.append(fn)
            dat = {}
            with open(fn, 'wb') as f:
                f.write(np.array([-1] + n + [len(names), nscal, 0, 0], dtype=end + 'i4').tobytes())
                f.write(np.array([0.6, 1.0, times[i], 0.1], dtype=end + fdt).tobytes())
                for c in ccs:
                    f.write(c.astype(end + fdt).tobytes())
                for nm in names:
                    v = fval(rng, n, fdt)
                    if nm == 'd':
                        v = (np.abs(v) + 1).astype(fdt)
                    dat[nm] = v
                    f.write(v.T.astype(end + fdt).tobytes())
            steps[times[i]] = dat
        msg = lambda: "n=%s %s%s %s nvar=%d+%d k=%d" % (n, end, fdt, var, prim, nscal, k)  # noqa
        arg = load_arg(rng, d, base + ".*.bin", fns)
        f = viscid.load_file(arg, float_type_name=fdt, var_type=var)
        try:
            for t in check_times(ctx, rng, f, times, k, "athena_bin", msg):
                g = f.get_grid(time=t) if k > 1 else f.get_grid()
                ctx.check(sorted(g.field_dict()) == sorted(names), "athena_bin/names", msg)
                for nm in names:
                    compare(ctx, rng, g[nm], steps[t][nm], nodes, 'cell', "athena_bin", msg, time=t)
                ath_derived(ctx, rng, g, steps[t], nodes, fdt, t, msg)
                ctx.saw('athena_bin', end, fdt, var, prim, nscal, k, sum(m == 1 for m in n))
        finally:
            f.unload()


def ath_derived(ctx, rng, g, dat, nodes, fdt, t, msg):
    eps = 1e-5 if fdt == 'f4' else 1e-12
    q = dict((k, v.astype('f8')) for k, v in dat.items())
    want = {'rr': q['d']}
    bn = ['B1c', 'B2c', 'B3c'] if 'B1c' in q else ['B1', 'B2', 'B3']
    if bn[0] in q:
        for c, b in zip("xyz", bn):
            want['b' + c] = q[b]
        want['bmag'] = np.sqrt(sum(q[b] ** 2 for b in bn))
        want['b'] = np.stack([q[b] for b in bn], axis=-1)
    m = [q['M%d' % i] if 'M1' in q else q['V%d' % i] * q['d'] for i in (1, 2, 3)]
    v = [q['V%d' % i] if 'V1' in q else q['M%d' % i] / q['d'] for i in (1, 2, 3)]
    for i, c in enumerate("xyz"):
        want['v' + c] = v[i]
        want['m' + c] = m[i]
    want['v'] = np.stack(v, axis=-1)
    want['speed'] = np.sqrt(sum(w ** 2 for w in v))
    if 'P' in q:
        want['p'] = want['pp'] = q['P']
    nms = sorted(want)
    label = {'b': 'B', 'v': 'V', 'bmag': '|B|', 'speed': '|V|'}
    for nm in [nms[i] for i in rng.permutation(len(nms))[:4]]:
        with np.errstate(over='ignore'):
            if not np.all(np.isfinite(want[nm].astype(fdt) ** 2)):
                continue
        fl = g[nm]
        nc = 3 if nm in 'bv' else 0
        small = np.abs(want[nm]) < 1e-25
        w = np.where(small, 0, want[nm])
        c = np.where(small, 0, gen.canon(fl))
        ctx.close(c, w, "derived/" + nm, rtol=eps, atol=1e-25, msg=msg)
        ctx.check(fl.nr_comps == nc, "derived/ncomp", msg)
        if nm not in ('rr', 'p', 'pp'):
            ctx.check(fl.name == label.get(nm, nm), "derived/name", lambda: "%s for %s" % (fl.name, nm))
        ctx.count("derived")


def load_arg(rng, d, pattern, fns):
    """a group as a pattern, or a list in any order"""
    if len(fns) == 1:
        return fns[0]
    if rng.randint(2):
        return os.path.join(d, pattern)
    return [fns[i] for i in rng.permutation(len(fns))]


def check_times(ctx, rng, f, times, k, key, msg):
    if k > 1:
        got = [float(g.time) for g in [f.iter_times, f.get_times][rng.randint(2)]()]
        ctx.check(got == sorted(times), key + "/times", lambda: "%r != %r %s" % (got, times, msg()))
    else:
        ctx.check(float(f.get_grid().time) == times[0], key + "/time",
                  lambda: "%r != %r %s" % (f.get_grid().time, times, msg()))
    return [times[i] for i in rng.permutation(k)]


def sc_athena_tab(ctx, rng):
    with xfiles.scratch() as d:
        nd = int(rng.randint(1, 4))
        n = [int(v) for v in rng.randint(2, 6, size=nd)]
        if nd > 1 and rng.randint(3) == 0:
            n[rng.randint(nd)] = 1
        names = ['d', 'V1', 'V2', 'V3', 'P', 'B1c', 'B2c', 'B3c'][:[4, 5, 8][rng.randint(3)]]
        ccs = [cc_axis(rng, m, 'f8') for m in n]
        ccs = [np.array(["%.6e" % v for v in c], dtype='f8') for c in ccs]
        if any(len(c) > 1 and np.min(np.diff(c)) < 1e-3 for c in ccs):
            raise Skip("resolution of the format")
        nodes = athena_nodes(ccs)
        k = int([1, 1, 2, 3][rng.randint(4)])
        times = sorted(set(float("%e" % t) for t in times_of(rng, k)))
        k = len(times)
        base = "tab" + serial()
        steps, fns = {}, []
        for i in range(k):
            fn = os.path.join(d, "%s.%04d.tab" % (base, i))
            fns.append(fn)
            cols = dict((nm, fval(rng, n, 'f4')) for nm in names)
            cols['d'] = (np.abs(cols['d']) + 1).astype('f4')
            steps[times[i]] = cols
            with open(fn, 'w') as f:
                f.write("# Primitive vars at Time = %e, level= 0, domain= 0\n" % times[i])
                for a in range(nd):
                    f.write("# Nx%d = %d\n" % (a + 1, n[a]))
                heads = ["%s-zone" % "ijk"[a] for a in range(nd)] + ["x%d" % (a + 1) for a in range(nd)]
                f.write("# " + "  ".join("[%d]=%s" % (j + 1, h)
                                         for j, h in enumerate(heads + names)) + "\n")
                for ix in np.ndindex(*n[::-1]):
                    ix = ix[::-1]
                    row = ["%4d" % (4 + j) for j in ix]
                    row += ["%13.6e" % ccs[a][ix[a]] for a in range(nd)]
                    row += ["%.9e" % cols[nm][ix] for nm in names]
                    f.write(" ".join(row) + "\n")
        msg = lambda: "n=%s names=%s times=%s" % (n, names, times)  # noqa
        f = viscid.load_file(load_arg(rng, d, base + ".*.tab", fns))
        try:
            for t in check_times(ctx, rng, f, times, k, "athena_tab", msg):
                g = f.get_grid(time=t) if k > 1 else f.get_grid()
                for nm in names:
                    compare(ctx, rng, g[nm], steps[t][nm], nodes, 'cell', "athena_tab", msg,
                            time=t, names="xyz"[:nd])
                ath_derived(ctx, rng, g, steps[t], nodes, 'f4', t, msg)
                ctx.saw('athena_tab', tuple(n), len(names), k)
        finally:
            f.unload()


def sc_athena_xdmf(ctx, rng):
    """xdmf files that belong together by name"""
    with xfiles.scratch() as d:
        base = "ax" + serial()
        k = int([1, 2, 3, 4][rng.randint(4)])
        times = times_of(rng, k)
        steps, fns = {}, []
        sh = [int(v) for v in rng.randint(3, 6, size=3)]
        nodes = [gen.rand_nc(rng, s, 'stretched') for s in sh]
        for i in range(k):
            vals = fval(rng, [s - 1 for s in sh], 'f8')
            steps[times[i]] = vals
            fn = xfiles.write_xdmf(d, "%s.%05d.ath" % (base, i), nodes,
                                   [("d", vals, 'cell', None)], time=times[i])
            fns.append(fn)
        msg = lambda: "times=%s" % (times,)  # noqa
        f = viscid.load_file(load_arg(rng, d, base + ".*.ath.xdmf", fns))
        try:
            for t in check_times(ctx, rng, f, times, k, "athena_xdmf", msg):
                g = f.get_grid(time=t) if k > 1 else f.get_grid()
                compare(ctx, rng, g['rr'], steps[t], nodes, 'cell', "athena_xdmf", msg, time=t)
            ctx.saw('athena_xdmf', k, tuple(sh))
        finally:
            f.unload()


# -- gkeyll ---------------------------------------------------------------------------
HYDRO = ['rho', 'rhoux', 'rhouy', 'rhouz', 'e']
M5 = ['rho_e', 'rhoux_e', 'rhouy_e', 'rhouz_e', 'e_e', 'rho_i', 'rhoux_i', 'rhouy_i',
      'rhouz_i', 'e_i', 'Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz']
M10 = ['rho_e', 'rhoux_e', 'rhouy_e', 'rhouz_e', 'pxx_e', 'pxy_e', 'pxz_e', 'pyy_e', 'pyz_e',
       'pzz_e', 'rho_i', 'rhoux_i', 'rhouy_i', 'rhouz_i', 'pxx_i', 'pxy_i', 'pxz_i', 'pyy_i',
       'pyz_i', 'pzz_i', 'Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz']


def sc_gkeyll(ctx, rng):
    import h5py
    with xfiles.scratch() as d:
        nd = int(rng.randint(1, 4))
        n = [int(v) for v in rng.randint(2, 6, size=nd)]
        names = [HYDRO, M5, M10, M10][rng.randint(4)]
        names = names + (['phi_E', 'phi_B'] if rng.randint(3) == 0 else [])
        if rng.randint(6) == 0:
            names = ["Q%d" % i for i in range([1, 3, 9][rng.randint(3)])]
        kind = ['uniform', 'rectilinear', 'structured'][rng.randint(3)]
        nodes = [gen.rand_nc(rng, m + 1, 'uniform' if kind == 'uniform' else 'stretched') for m in n]
        k = int([1, 1, 2, 3][rng.randint(4)])
        times = times_of(rng, k)
        base = "gk" + serial()
        steps, fns = {}, []
        for i in range(k):
            fn = os.path.join(d, "%s_q_%d.h5" % (base, i * 3 + 8))
            fns.append(fn)
            dat = rng.standard_normal(n + [len(names)])
            for j, nm in enumerate(names):
                if nm.startswith('rho') and 'u' not in nm:
                    dat[..., j] = np.abs(dat[..., j]) + 0.5
            steps[times[i]] = dat
            with h5py.File(fn, 'w') as f:
                f['StructGridField'] = dat
                if kind == 'structured':
                    full = np.stack(np.meshgrid(*nodes, indexing='ij'), axis=-1)
                    f['StructGrid'] = full
                else:
                    f.create_group('StructGrid')
                at = f['StructGrid'].attrs
                at['vsKind'] = np.bytes_(kind)
                if kind == 'uniform':
                    at['vsLowerBounds'] = np.array([c[0] for c in nodes])
                    at['vsUpperBounds'] = np.array([c[-1] for c in nodes])
                    at['vsNumCells'] = np.array(n)
                elif kind == 'rectilinear':
                    for j, c in enumerate(nodes):
                        f['StructGrid/axis%d' % j] = c
                tg = f.create_group('timeData')
                tg.attrs['vsStep'] = i * 10
                tg.attrs['vsTime'] = times[i]
        msg = lambda: "n=%s %s %s times=%s" % (n, kind, names, times)  # noqa
        f = viscid.load_file(load_arg(rng, d, base + "_q_*.h5", fns))
        try:
            for t in check_times(ctx, rng, f, times, k, "gkeyll", msg):
                g = f.get_grid(time=t) if k > 1 else f.get_grid()
                ctx.check(sorted(g.field_dict()) == sorted(names), "gkeyll/names",
                          lambda: "%s %s" % (sorted(g.field_dict()), msg()))
                for j, nm in enumerate(names):
                    compare(ctx, rng, g[nm], steps[t][..., j], nodes, 'cell', "gkeyll", msg,
                            names="xyz"[:nd])
                gk_derived(ctx, rng, g, dict((nm, steps[t][..., j]) for j, nm in enumerate(names)), msg)
                ctx.saw('gkeyll', kind, nd, len(names), k)
        finally:
            f.unload()


def gk_derived(ctx, rng, g, q, msg):
    want = {}
    for s in "ei":
        if 'rho_' + s not in q:
            return
        u = dict((c, q['rhou%s_%s' % (c, s)] / q['rho_' + s]) for c in "xyz")
        for c in "xyz":
            want['u%s_%s' % (c, s)] = u[c]
        want['u_' + s] = np.stack([u[c] for c in "xyz"], axis=-1)
        if 'pxx_' + s in q:
            for a, b in ["xx", "xy", "xz", "yy", "yz", "zz"]:
                want['P%s%s_%s' % (a, b, s)] = (
                    q['p%s%s_%s' % (a, b, s)]
                    - q['rhou%s_%s' % (a, s)] * q['rhou%s_%s' % (b, s)] / q['rho_' + s])
    want['b'] = np.stack([q['B' + c] for c in "xyz"], axis=-1)
    nms = sorted(want)
    for nm in [nms[i] for i in rng.permutation(len(nms))[:5]]:
        fl = g[nm]
        ctx.close(gen.canon(fl), want[nm], "gkeyll/" + nm[:3], rtol=1e-12, atol=1e-12,
                  msg=lambda: "%s %s" % (nm, msg()))
        ctx.count("derived")


# -- vpic -------------------------------------------------------------------------------
VP_F = [("Electric Field", "VECTOR", 3), ("Electric Field Divergence Error", "SCALAR", 1),
        ("Magnetic Field", "VECTOR", 3), ("Magnetic Field Divergence Error", "SCALAR", 1),
        ("Charge Density", "SCALAR", 1)]
VP_H = [("Current Density", "VECTOR", 3), ("Charge Density", "SCALAR", 1),
        ("Momentum Density", "VECTOR", 3), ("Kinetic Energy Density", "SCALAR", 1),
        ("Stress Tensor", "TENSOR", 6)]
VP_C = {1: [""], 3: [" X", " Y", " Z"], 6: [" XX", " YY", " ZZ", " YZ", " ZX", " XY"]}
VP_GET = {'ex': 'Electric Field X', 'ey': 'Electric Field Y', 'ez': 'Electric Field Z',
          'bx': 'Magnetic Field X', 'by': 'Magnetic Field Y', 'bz': 'Magnetic Field Z',
          'dive': 'Electric Field Divergence Error', 'divb': 'Magnetic Field Divergence Error',
          'n_q': 'Charge Density'}
for _s, _h in (('e', 'ehydro'), ('i', 'Hhydro')):
    for _c in "xyz":
        VP_GET['j%s_%s' % (_c, _s)] = 'Current Density (%s) %s' % (_h, _c.upper())
        VP_GET['rhov%s_%s' % (_c, _s)] = 'Momentum Density (%s) %s' % (_h, _c.upper())
    VP_GET['n_' + _s] = 'Charge Density (%s)' % _h
    VP_GET['ek_' + _s] = 'Kinetic Energy Density (%s)' % _h
    for _c in ('xx', 'yy', 'zz', 'zx', 'xy', 'yz'):
        VP_GET['P%s_%s' % (_c, _s)] = 'Stress Tensor (%s) %s' % (_h, _c.upper())
VP_VEC = {'e': ['ex', 'ey', 'ez'], 'b': ['bx', 'by', 'bz'], 'j_e': ['jx_e', 'jy_e', 'jz_e'],
          'j_i': ['jx_i', 'jy_i', 'jz_i'], 'rhov_e': ['rhovx_e', 'rhovy_e', 'rhovz_e'],
          'rhov_i': ['rhovx_i', 'rhovy_i', 'rhovz_i']}


def sc_vpic(ctx, rng):
    with xfiles.scratch() as d:
        topo = [[1, 1, 1], [2, 1, 1], [1, 3, 1], [2, 2, 1], [2, 1, 2]][rng.randint(5)]
        ld = [int(v) for v in rng.randint(2, 8, size=3)]
        dx = [2.0 ** rng.randint(-3, 3) for _ in range(3)]
        if rng.randint(2):
            # spacings that are no whole fractions in binary, as runs have
            dx = [[0.1, 0.3, 0.7, 0.0123, 1.1][rng.randint(5)] for _ in range(3)]
        xl = [float(rng.randint(-8, 8)) for _ in range(3)]
        if rng.randint(3) == 0:
            xl = [0.0, 0.0, 0.0]
        k = int(rng.randint(1, 4))
        steps = times_of(rng, k, integral=True)
        sets = [("fields", "fields", "", VP_F)]
        for h in [["ehydro"], ["Hhydro"], ["ehydro", "Hhydro"], ["Hhydro", "ehydro"], []][rng.randint(5)]:
            sets.append(("hydro", h, " (%s)" % h, VP_H))
        lines = ["# generated header", "VPIC_HEADER_VERSION 1.0.0", "DATA_HEADER_SIZE 123",
                 "GRID_DELTA_T 0.01", "GRID_CVAC 1", "GRID_EPS0 1"]
        for a in range(3):
            # the extents are those of the first block
            lines.append("GRID_EXTENTS_%s %r %r" % ("XYZ"[a], xl[a], xl[a] + ld[a] * dx[a]))
            lines.append("GRID_DELTA_%s %r" % ("XYZ"[a], dx[a]))
            lines.append("GRID_TOPOLOGY_%s %d" % ("XYZ"[a], topo[a]))
        lines += ["", "FIELD_DATA_DIRECTORY fields", "FIELD_DATA_BASE_FILENAME fields",
                  "FIELD_DATA_VARIABLES %d" % len(VP_F)]
        lines += ['"%s" %s %d FLOATING_POINT 4' % q for q in VP_F]
        lines += ["NUM_OUTPUT_SPECIES %d" % (len(sets) - 1)]
        for dr, b, _, descr in sets[1:]:
            lines += ["SPECIES_DATA_DIRECTORY %s" % dr, "SPECIES_DATA_BASE_FILENAME %s" % b,
                      "HYDRO_DATA_VARIABLES %d" % len(descr)]
            lines += ['"%s" %s %d FLOATING_POINT 4' % q for q in descr]
        fn = os.path.join(d, "g%s.vpc" % serial())
        with open(fn, 'w') as f:
            f.write("\n".join(lines) + "\n")
        ranks = [(i, j, l) for l in range(topo[2]) for j in range(topo[1]) for i in range(topo[0])]
        data = {}
        for t in steps:
            for dr, b, sfx, descr in sets:
                sd = os.path.join(d, dr, "T.%d" % t)
                os.makedirs(sd, exist_ok=True)
                for r in range(len(ranks)):
                    gd = [m + 2 for m in ld]
                    buf = struct.pack('=5b', 8, 2, 4, 4, 8)
                    buf += struct.pack('=HIfd', 0xcafe, 0xdeadbeef, 1.0, 1.0)
                    buf += struct.pack('=6i10f', 0, 1, t, ld[0], ld[1], ld[2], 0.01, dx[0], dx[1],
                                       dx[2], xl[0], xl[1], xl[2], 1.0, 1.0, 0.0)
                    buf += struct.pack('=3i1f5i', r, len(ranks), 0, 1.0, 4, 3, gd[0], gd[1], gd[2])
                    for nm, _, nc in descr:
                        for c in VP_C[nc]:
                            v = fval(rng, gd)
                            buf += v.T.tobytes()
                            data[t, r, nm + sfx + c] = v[1:-1, 1:-1, 1:-1]
                    with open(os.path.join(sd, "%s.%d.%d" % (b, t, r)), 'wb') as f:
                        f.write(buf)
        msg = lambda: "topo=%s ld=%s steps=%s sets=%s" % (topo, ld, steps, [s[1] for s in sets])  # noqa
        f = viscid.load_file(fn)
        try:
            got = [float(g.time) for g in [f.iter_times, f.get_times][rng.randint(2)]()]
            ctx.check(got == [float(t) for t in steps], "vpic/times", lambda: "%s %s" % (got, msg()))
            raw = sorted(set(q[2] for q in data))
            short = sorted(s for s, v in VP_GET.items() if v in raw)
            vecs = sorted(v for v, c in VP_VEC.items() if all(q in short for q in c))
            for t in [steps[i] for i in rng.permutation(k)]:
                for _ in range(6):
                    h = rng.randint(3)
                    if h == 0:
                        nm = raw[rng.randint(len(raw))]
                        comps = [nm]
                    elif h == 1:
                        nm = short[rng.randint(len(short))]
                        comps = [VP_GET[nm]]
                    else:
                        nm = vecs[rng.randint(len(vecs))]
                        comps = [VP_GET[q] for q in VP_VEC[nm]]
                    fld = f.get_field(nm, time=float(t))
                    patches = fld.patches if len(ranks) > 1 else [fld]
                    ctx.check(len(patches) == len(ranks), "vpic/patches", msg)
                    for r, p in enumerate(patches):
                        nodes = [xl[a] + dx[a] * (ld[a] * ranks[r][a] + np.arange(ld[a] + 1))
                                 for a in range(3)]
                        v = [data[t, r, c] for c in comps]
                        v = np.stack(v, axis=-1) if h == 2 else v[0]
                        compare(ctx, rng, p, v, nodes, 'cell', "vpic",
                                lambda: "%s t=%d rank=%d %s" % (nm, t, r, msg()),
                                ncomp=3 if h == 2 else 0)
                    ctx.saw('vpic', tuple(topo), h, len(sets), k)
        finally:
            f.unload()


# -- openggcm -----------------------------------------------------------------------------
def timestr(rng, t):
    base = np.datetime64(['2012-02-28T23:59:50', '1967-01-01', '1999-12-31T12:00:00'][rng.randint(3)], 'us')
    ut = base + np.timedelta64(int(t * 1000000), 'us')
    s = str(ut)
    return base, "time= %.4f %.8e %s 300c" % (t, 1e9, s.replace('-', ':').replace('T', ':'))


def grid2(d, run, ccs):
    with open(os.path.join(d, run + ".grid2"), 'w') as f:
        for c in ccs:
            f.write("%d   some words\n" % len(c))
            for v in c:
                f.write("%.9e\n" % v)


def fortbin_file(fn, end, t, tstr, flds):
    with open(fn, 'wb') as f:
        for nm, v in flds:
            f.write(np.array([2, int(t), v.ndim] + list(v.shape), dtype=end + 'i4').tobytes())
            f.write(nm.ljust(80).encode() + tstr.ljust(80).encode())
            f.write(v.T.astype(end + 'f4').tobytes())


GG = ['rr', 'pp', 'vx', 'vy', 'vz', 'bx', 'by', 'bz', 'xjx', 'xjy', 'xjz', 'resis']


def ggcm_run(ctx, rng, d, write, pattern, key, fmt, rtol=0.0):
    """runs of the fortran code: 3d files, planes and maps of the sphere

    write(fn, time, timestr, [(name, vals)]); pattern % (kind, time)
    """
    run = "run" + serial()
    what = ['3df', '3df', 'plane', 'iof'][rng.randint(4)]
    ccs = [cc_axis(rng, int(m), 'f4') for m in rng.randint(2, 7, size=3)]
    if rng.randint(2):
        # grids around the origin
        ccs = [(c - c.mean()).astype('f4') for c in ccs]
    n = [len(c) for c in ccs]
    nodes = [nodes_of(c) for c in ccs]
    center, names = 'cell', "xyz"
    flip = what != 'iof' and rng.randint(3) == 0
    vnames = [GG[i] for i in rng.permutation(len(GG))]
    if what == '3df':
        kind, sh, fsh = '3df', n, n
    elif what == 'plane':
        a = rng.randint(3)
        # the name of a plane has its place in the coordinates of the reader
        sgn = -1 if flip and a < 2 else 1
        loc = int(round(sgn * 10 * ccs[a][rng.randint(n[a])]))
        if loc < 0:
            loc = 0
        kind = "p%s_%d" % ("xyz"[a], loc)
        dist = np.abs(ccs[a].astype('f8') - sgn * loc / 10.0)
        o = np.sort(dist)
        if len(o) > 1 and o[1] - o[0] < 1e-4:
            raise Skip("two planes as near")
        i = int(np.argmin(dist))
        nodes[a] = nodes[a][i:i + 2]
        sh = [1 if j == a else n[j] for j in range(3)]
        fsh = [m for j, m in enumerate(n) if j != a]
        if rng.randint(2):
            fsh = sh
    else:
        kind = 'iof'
        n = [int(v) for v in rng.randint(3, 9, size=2)]
        sh = fsh = n
        nodes = [np.linspace(0, 360, n[0]), np.linspace(0, 180, n[1])]
        center, names = 'node', ['phi', 'theta']
        vnames = ['pot', 'pacurr', 'sigp', 'fac_tot'][:rng.randint(1, 5)]
    vnames = vnames[:rng.randint(1, len(vnames) + 1)] if rng.randint(2) else vnames
    k = int([1, 1, 2, 3][rng.randint(4)])
    times = [float(t) for t in times_of(rng, k, integral=True)]
    grid2(d, run, ccs)
    base, _ = timestr(rng, 0)
    steps, fns = {}, []
    for t in times:
        ut = base + np.timedelta64(int(t), 's')
        ts = "time= %.4f %.8e %s 300c" % (t, 1e9, str(ut).replace('-', ':').replace('T', ':'))
        fn = os.path.join(d, pattern % (run, kind, t))
        fns.append(fn)
        vals = dict((nm, fval(rng, sh)) for nm in vnames)
        for nm in vals:
            if nm in ('rr', 'pp'):
                vals[nm] = (np.abs(vals[nm]) + 1).astype('f4')
        steps[t] = write(fn, t, ts, vnames, vals, fsh)
    msg = lambda: "%s n=%s times=%s names=%s flip=%s" % (kind, n, times, vnames, flip)  # noqa
    old = GGCMGrid.mhd_to_gse_on_read
    GGCMGrid.mhd_to_gse_on_read = ['force', 'auto'][rng.randint(2)] if flip else False
    try:
        f = viscid.load_file(load_arg(rng, d, (pattern % (run, kind, 0)).replace("000000", "*"), fns))
        try:
            for t in check_times(ctx, rng, f, times, k, key, msg):
                g = f.get_grid(time=t) if k > 1 else f.get_grid()
                ctx.check(sorted(g.field_dict()) == sorted(vnames), key + "/names",
                          lambda: "%s %s" % (sorted(g.field_dict()), msg()))
                got = g.find_info('basetime')
                ctx.check(np.datetime64(got) == base, key + "/basetime",
                          lambda: "%s != %s %s" % (got, base, msg()))
                vals = dict((nm, v.reshape(sh)) for nm, v in steps[t].items())
                nn = nodes
                if flip:
                    vals, nn = flipped(vals, nodes)
                for nm in [vnames[i] for i in rng.permutation(len(vnames))]:
                    compare(ctx, rng, g[nm], vals[nm], nn, center, key, msg, time=t, names=names,
                            lazy=not flip, dtype='f4', rtol=rtol)
                if what != 'iof':
                    gg_derived(ctx, rng, g, vals, key, msg, max(1e-5, 10 * rtol))
                ctx.saw(fmt, kind[:2], k, flip, len(vnames), len(fsh), base.astype(str))
        finally:
            f.unload()
    finally:
        GGCMGrid.mhd_to_gse_on_read = old


FLIP = ['vx', 'vy', 'bx', 'by', 'xjx', 'xjy']


def flipped(vals, nodes):
    out = {}
    for nm, v in vals.items():
        v = v[::-1, ::-1, :]
        out[nm] = -v if nm in FLIP else v
    return out, [-nodes[0][::-1], -nodes[1][::-1], nodes[2]]


def gg_derived(ctx, rng, g, vals, key, msg, rtol=1e-5):
    q = dict((k, v.astype('f8')) for k, v in vals.items())
    want = {}
    for out, comps in (('v', ['vx', 'vy', 'vz']), ('b', ['bx', 'by', 'bz']),
                       ('j', ['xjx', 'xjy', 'xjz'])):
        if all(c in q for c in comps):
            want[out] = np.stack([q[c] for c in comps], axis=-1)
            want[dict(v='speed', b='bmag', j='jmag')[out]] = np.sqrt(sum(q[c] ** 2 for c in comps))
            if out == 'j':
                want['jx'] = q['xjx']
                want['jy'] = q['xjy']
                want['jz'] = q['xjz']
    if 'rr' in q and 'pp' in q:
        want['T'] = q['pp'] / q['rr']
    if 'pp' in q and 'b' in want:
        want['beta'] = 80.0 * q['pp'] / np.sum(want['b'] ** 2, axis=-1)
    nms = sorted(want)
    for nm in [nms[i] for i in rng.permutation(len(nms))[:3]]:
        w = want[nm]
        with np.errstate(all='ignore'):
            big = not np.all(np.isfinite((w.astype('f4')) ** 2)) or np.any(
                (w != 0) & (np.abs(w) < 1e-15))
        if big:
            continue
        fl = g[nm]
        ctx.close(gen.canon(fl), w, key + "/derived/" + nm, rtol=rtol, atol=1e-30, msg=msg)
        ctx.count("derived")


def sc_fortbin(ctx, rng):
    with xfiles.scratch() as d:
        end = "<>"[rng.randint(2)]

        def write(fn, t, ts, names, vals, fsh):
            fortbin_file(fn, end, t, ts, [(nm, vals[nm].reshape(fsh, order='F')) for nm in names])
            return vals
        ggcm_run(ctx, rng, d, write, "%s.%s.%06d.b", "fortbin", 'fortbin' + end)


def sc_ggcm_xdmf(ctx, rng):
    """xdmf files of the code, with components flipped on request"""
    with xfiles.scratch() as d:
        run = "xr" + serial()
        sh = [int(v) for v in rng.randint(3, 7, size=3)]
        nodes = [gen.rand_nc(rng, s, 'stretched', dtype='f8') for s in sh]
        k = int([1, 2, 3][rng.randint(3)])
        times = times_of(rng, k, integral=True)
        names = [GG[i] for i in rng.permutation(len(GG))[:rng.randint(3, len(GG) + 1)]]
        mode, asys = [(False, None), (False, 'mhd'), ('force', None), ('auto', 'mhd'),
                      ('auto', 'gse'), ('auto_true', None)][rng.randint(6)]
        flip = mode in ('force', 'auto_true') or (mode == 'auto' and asys == 'mhd')
        vec = rng.randint(2)
        steps, fns = {}, []
        for t in times:
            vals = dict((nm, fval(rng, [s - 1 for s in sh])) for nm in names)
            for nm in vals:
                if nm in ('rr', 'pp'):
                    vals[nm] = (np.abs(vals[nm]) + 1).astype('f4')
            flds = [(nm, vals[nm], 'cell', None) for nm in names]
            if vec and not any(nm[0] == 'b' for nm in names):
                vals['b'] = fval(rng, [s - 1 for s in sh] + [3])
                flds.append(('b', vals['b'], 'cell', None))
            steps[t] = vals
            infos = [("crd_system", asys)] if asys else []
            fns.append(xfiles.write_xdmf(d, "%s.3d.%06d" % (run, t), nodes, flds,
                                         time=float(t), infos=infos))
        msg = lambda: "%s %s sh=%s times=%s names=%s" % (mode, asys, sh, times, names)  # noqa
        old = GGCMGrid.mhd_to_gse_on_read, GGCMGrid.copy_on_transform
        GGCMGrid.mhd_to_gse_on_read = mode
        GGCMGrid.copy_on_transform = bool(rng.randint(2))
        try:
            f = viscid.load_file(load_arg(rng, d, run + ".3d.*.xdmf", fns))
            try:
                for t in check_times(ctx, rng, f, [float(t) for t in times], k, "ggcm", msg):
                    g = f.get_grid(time=t) if k > 1 else f.get_grid()
                    vals, nn = steps[int(t)], nodes
                    if flip:
                        b = vals.get('b')
                        vals, nn = flipped(vals, nodes)
                        if b is not None:
                            vals['b'] = b[::-1, ::-1] * np.array([-1, -1, 1], dtype='f4')
                    for nm in vals:
                        compare(ctx, rng, g[nm], vals[nm], nn, 'cell', "ggcm", msg, time=t,
                                ncomp=3 if nm == 'b' else 0, lazy=True, dtype='f4')
                    if 'b' in vals:
                        for i, c in enumerate("xyz"):
                            compare(ctx, rng, g['b' + c], vals['b'][..., i], nn, 'cell', "ggcm-comp",
                                    msg, lazy=False)
                        vals = dict((q, v) for q, v in vals.items() if q != 'b')
                    gg_derived(ctx, rng, g, vals, "ggcm", msg)
                    ctx.saw('ggcm', str(mode), asys, k, bool(vec))
            finally:
                f.unload()
        finally:
            GGCMGrid.mhd_to_gse_on_read, GGCMGrid.copy_on_transform = old


def sc_psc(ctx, rng):
    """names of another code"""
    with xfiles.scratch() as d:
        sh = [int(v) for v in rng.randint(3, 6, size=3)]
        nodes = [gen.rand_nc(rng, s, 'uniform') for s in sh]
        vals = dict((a + c, fval(rng, [s - 1 for s in sh], 'f8')) for a in "hej" for c in "xyz")
        fn = xfiles.write_xdmf(d, "p%sfd.%06d" % (serial(), rng.randint(1000)), nodes,
                               [(k, v, 'cell', None) for k, v in vals.items()], time=2.5)
        f = viscid.load_file(fn)
        try:
            g = f.get_grid()
            for nm in [["b", "h", "e", "j", "bx", "by", "bz", "epar"][i] for i in rng.permutation(8)]:
                if len(nm) == 1:
                    src = 'h' if nm == 'b' else nm
                    w = np.stack([vals[src + c] for c in "xyz"], axis=-1)
                elif nm == 'epar':
                    w = (sum(vals['e' + c] * vals['h' + c] for c in "xyz") /
                         np.sqrt(sum(vals['h' + c] ** 2 for c in "xyz")))
                else:
                    w = vals['h' + nm[1]]
                fl = g[nm]
                ctx.close(gen.canon(fl), w, "psc/" + nm, rtol=1e-9, atol=1e-9 * np.max(np.abs(w)))
                ctx.check(fl.nr_comps == (3 if len(nm) == 1 else 0), "psc/ncomp", nm)
            ctx.saw('psc', tuple(sh))
        finally:
            f.unload()


def sc_logfile(ctx, rng):
    from viscid.readers.ggcm_logfile import GGCMLogFile, MHD_TYPES
    kinds = ["ggcm_mhd", "mrc_domain", "mrc_crds", "ggcm_mhd_ic", "ggcm_dipole", "ggcm_mhd_step",
             "ggcm_mhd_fld", "not_watched", "mrc_io"]
    want = {}
    lines = ["starting up", "host | something"]
    for c in [kinds[i] for i in rng.permutation(len(kinds))[:rng.randint(1, 8)]]:
        lines += ["==================== class == %s" % c, "parameter            | value",
                  "---------------------|----------------"]
        for j in range(int(rng.randint(0, 5))):
            key = "%s_%d" % ("abc"[rng.randint(3)], j)
            if c == 'ggcm_mhd_fld' and j == 0:
                key, val = 'mhd_type', int(rng.randint(len(MHD_TYPES)))
                txt = str(val)
            else:
                k = rng.randint(6)
                if k == 0:
                    val = int(rng.randint(-50, 50))
                    txt = str(val)
                elif k == 1:
                    val = float(rng.standard_normal() * 10.0 ** rng.randint(-8, 8))
                    txt = repr(val)
                elif k == 2:
                    val = np.array([float(rng.randint(-9, 9)) + 0.5 for _ in range(3)])
                    txt = ", ".join("%r" % v for v in val)
                elif k == 3:
                    val = np.array([int(v) for v in rng.randint(1, 99, size=3)])
                    txt = ",".join(str(v) for v in val)
                elif k == 4:
                    val = ["1967", "01", "01", "00", "00", "00.000"]
                    txt = ":".join(val)
                else:
                    val = ["c3_double", "", "run one", "/some/path.grid2"][rng.randint(4)]
                    txt = val
            lines.append("%-20s | %s" % (key, txt))
            if not c.startswith(('not', 'mrc_io')):
                want["%s_%s" % (c, key)] = val
        if rng.randint(2):
            lines.append("-----------+------------------ type -- sub_%s" % c)
            if not c.startswith(('not', 'mrc_io')):
                want[c + "_type"] = "sub_" + c
            lines.append("%-20s | %d" % ("own", 7))
            if not c.startswith(('not', 'mrc_io')):
                want[c + "_own"] = 7
        lines.append("")
    mt = want.get("ggcm_mhd_fld_mhd_type")
    want["ggcm_mhd_fld_mhd_type_str"] = "UNKNOWN" if mt is None else MHD_TYPES[mt]
    lines += ["cp= 1 2 3", "==================== class == ggcm_mhd", "late | 1", "x | y", "late | 2", ""]
    with xfiles.scratch() as d:
        fn = os.path.join(d, "run.log")
        with open(fn, 'w') as f:
            f.write("\n".join(lines) + "\n")
        info = dict(GGCMLogFile(fn).info)
    ctx.check(sorted(info) == sorted(want), "log/keys", lambda: "%s" % (
        sorted(set(info) ^ set(want))))
    for k, v in want.items():
        g = info[k]
        ok = (type(g) is type(v) or isinstance(v, np.ndarray)) and np.array_equal(g, v)
        ctx.check(ok, "log/value", lambda: "%s: %r != %r" % (k, g, v))
    ctx.saw('log', tuple(sorted(k.rsplit('_', 1)[0] for k in want)))


def log_text(entries):
    """what libmrc says about its objects; {class: {key: text}}"""
    lines = ["starting"]
    for c, kv in entries.items():
        kv = dict(kv)
        typ = kv.pop("type", None)
        lines += ["==================== class == %s" % c, "parameter            | value",
                  "---------------------|----------------"]
        lines += ["%-20s | %s" % it for it in sorted(kv.items())]
        if typ:
            lines.append("-----------+------------------ type -- %s" % typ)
        lines.append("")
    return "\n".join(lines + ["cp= 1 2 3", ""])


def sc_stagger(ctx, rng):
    """magnetic fields on faces and electric fields on edges"""
    from viscid.readers.openggcm import DEFAULT_BBNORM
    from viscid.readers.ggcm_logfile import MHD_TYPES
    with xfiles.scratch() as d:
        run = "st" + serial()
        sh = [int(v) for v in rng.randint(4, 8, size=3)]
        nodes = [gen.rand_nc(rng, s + 1, ['uniform', 'stretched'][rng.randint(2)], dtype='f8') for s in sh]
        mt = int(rng.randint(4))
        trailing = MHD_TYPES[mt].endswith("GGCM")
        how = ['none', 'force', 'log'][rng.randint(3)]
        entries = {"ggcm_mhd_fld": {"mhd_type": "%d" % mt}}
        asys = 'unknown'
        if how == 'log':
            # the box tells which way it points
            sun = ['mhd', 'gse', 'other'][rng.randint(3)]
            lo, hi = {'mhd': (-20.0, 200.0), 'gse': (-200.0, 20.0), 'other': (-20.0, 200.0)}[sun]
            entries["mrc_crds"] = {"l": "%r, -48, -48" % lo, "h": "%r, 48, 48" % hi}
            if sun != 'other':
                k = rng.randint(3)
                if k != 1:
                    entries["ggcm_mhd"] = {"type": "ggcm"}
                if k != 0:
                    entries["ggcm_mhd_ic"] = {"type": "mirdip_double"}
            asys = sun
        bbnorm = None
        if rng.randint(2):
            bbnorm = float(rng.randint(1, 400)) / 4
            entries.setdefault("ggcm_mhd", {})["bbnorm"] = repr(bbnorm)
        if rng.randint(8) or how == 'log' or trailing:
            # found in any folder on the way up; the run's own name goes first
            up = int(rng.randint(4))
            names = [run + ".log", "log.txt", "log.log", "log"]
            k = rng.randint(4)
            with open(os.path.join(d, names[k]), 'w') as f:
                f.write(log_text(entries))
            if k + 1 < 4 and not rng.randint(3):
                with open(os.path.join(d, names[rng.randint(k + 1, 4)]), 'w') as f:
                    f.write(log_text({"ggcm_mhd_fld": {"mhd_type": "%d" % ((mt + 2) % 4)},
                                      "ggcm_mhd": {"type": "box", "bbnorm": "11.0"}}))
            haslog = True
            for q in "abc"[:up]:
                d = os.path.join(d, q)
                os.mkdir(d)
        else:
            haslog, bbnorm = False, None
        flip = how == 'force' or (how == 'log' and asys == 'mhd')
        mode = {'none': False, 'force': 'force', 'log': ['auto', 'auto_true'][rng.randint(2)]}[how]
        if how == 'log' and asys == 'other' and mode == 'auto_true':
            flip = True
        # linear in space, so averages are what they'd be there
        co = rng.uniform(-3, 3, size=(2, 3, 4))

        def lin(k, i, x, y, z):
            c = co[k, i]
            return c[0] * x + c[1] * y + c[2] * z + c[3]
        cc = [0.5 * (m[1:] + m[:-1]) for m in nodes]
        st = [m[1:] if trailing else m[:-1] for m in nodes]
        bn = ['b1', 'b2'][rng.randint(2)]
        late = bool(rng.randint(2))
        en = ['ec', 'efl', 'cc', ''][rng.randint(4)]
        flds, want_b, want_e = [], [], []
        for i, c in enumerate("xyz"):
            pb = [st[j] if j == i else cc[j] for j in range(3)]
            pe = [cc[j] if j == i or en in ('cc', '') else st[j] for j in range(3)]
            vb = lin(0, i, *np.meshgrid(*pb, indexing='ij'))
            ve = lin(1, i, *np.meshgrid(*pe, indexing='ij'))
            flds.append(("b" + c + bn[1] if late else bn + c, vb, 'cell', None))
            flds.append(({'ec': 'e%s_ec', 'efl': 'efl%s', 'cc': 'e%s_cc', '': 'e%s'}[en] % c, ve, 'cell', None))
        dv = fval(rng, sh)
        flds.append(("divB", dv, 'cell', None))
        flds = [flds[i] for i in rng.permutation(len(flds))]
        fn = xfiles.write_xdmf(d, "%s.3d.%06d" % (run, 12), nodes, flds, time=12.0)
        msg = lambda: "sh=%s type=%s %s crds=%s log=%s bbnorm=%s b=%s late=%s e=%s" % (  # noqa
            sh, MHD_TYPES[mt], mode, asys, haslog, bbnorm, bn, late, en)
        scale = 1.0 if late else (DEFAULT_BBNORM if bbnorm is None else bbnorm)
        sg = -1.0 if flip else 1.0

        def phys(k, i, x, y, z):
            v = lin(k, i, sg * x, sg * y, z) * (sg if i < 2 else 1.0)
            return v * scale if k == 0 else v

        def judge(fl, k, i, key, pts, cut):
            got = gen.canon(fl)
            got = got[..., i]
            w = phys(k, i, *np.meshgrid(*pts, indexing='ij'))
            ctx.check(got.shape == w.shape, key + "/shape", lambda: "%s != %s %s" % (got.shape, w.shape, msg()))
            sl = (slice(1, -1),) * 3 if cut else (slice(None),) * 3
            m = np.max(np.abs(w)) if w.size else 0.0
            ctx.close(got[sl], w[sl], key, rtol=1e-9, atol=1e-9 * m, msg=msg)
        old = GGCMGrid.mhd_to_gse_on_read, GGCMGrid.copy_on_transform
        GGCMGrid.mhd_to_gse_on_read = mode
        GGCMGrid.copy_on_transform = bool(rng.randint(2))
        try:
            f = viscid.load_file(fn)
            try:
                g = f.get_grid()
                order = ['b', 'e', 'b_fc', 'e_ec', 'div', 'e_cc', 'b_cc', bn, 'bx']
                for nm in [order[i] for i in rng.permutation(len(order))]:
                    if nm[0] == 'e' and en in ('cc', ''):
                        if nm == 'e_ec':
                            continue
                        fl = g[nm]
                        for i in range(3):
                            judge(fl, 1, i, "stagger/" + nm, fl.get_crds(), False)
                        continue
                    if nm == 'div':
                        ctx.same(gen.canon(g['divB']).astype('f8'), (scale_div(bbnorm, DEFAULT_BBNORM) * (
                            dv[::-1, ::-1] if flip else dv)).astype('f4').astype('f8'), "stagger/divB", msg)
                        q = viscid.div_fc(g['b_fc'])
                        w = scale * (co[0, 0, 0] + co[0, 1, 1] + co[0, 2, 2])
                        a = gen.canon(q)[1:-1, 1:-1, 1:-1]
                        ctx.close(a, np.full(a.shape, w), "stagger/div", rtol=1e-7,
                                  atol=1e-7 * scale * np.max(np.abs(co)) * 50, msg=msg)
                        continue
                    if nm == 'bx':
                        fl = g['bx']
                        w = phys(0, 0, *np.meshgrid(*fl.get_crds(), indexing='ij'))[1:-1, 1:-1, 1:-1]
                        ctx.close(gen.canon(fl)[1:-1, 1:-1, 1:-1], w, "stagger/bx", rtol=1e-9,
                                  atol=1e-9 * np.max(np.abs(w)), msg=msg)
                        continue
                    fl = g[nm]
                    k = 1 if nm[0] == 'e' else 0
                    if nm in ('b', 'b_cc', 'e', 'e_cc'):
                        ctx.check(fl.iscentered('cell'), "stagger/center", nm)
                        for j in range(3):
                            x = fl.get_crds()[j][1:-1]
                            rf = sg * cc[j] if j < 2 else cc[j]
                            rf = np.sort(rf)
                            ctx.check(len(x) > 0 and np.all(np.min(np.abs(x[:, None] - rf[None]), axis=1) < 1e-9 *
                                                            max(1.0, np.max(np.abs(rf)))),
                                      "stagger/cells", lambda: "%s %s %s" % (x, rf, msg()))
                        for i in range(3):
                            judge(fl, k, i, "stagger/" + nm, fl.get_crds(), True)
                    else:
                        ctx.check(fl.iscentered('edge' if k else 'face'), "stagger/center", nm)
                        cv = fl.get_crds_vector()
                        for i in range(3):
                            judge(fl, k, i, "stagger/" + nm, [cv[j][i] for j in range(3)], False)
                ctx.saw('stagger', MHD_TYPES[mt], str(mode), asys, bn, late, en, haslog)
            finally:
                f.unload()
        finally:
            GGCMGrid.mhd_to_gse_on_read, GGCMGrid.copy_on_transform = old


def scale_div(bbnorm, default):
    return default if bbnorm is None else bbnorm


# -- which files belong together -------------------------------------------------------------
def sc_group(ctx, rng):
    """files of several runs at once, patterns and parts of patterns"""
    with xfiles.scratch() as d:
        ser = serial()
        nodes = [np.arange(3.0), np.arange(3.0), np.arange(4.0)]
        runs = {}
        for r in range(int(rng.randint(1, 4))):
            kind = ['3d', 'px_0', '3d'][rng.randint(3)]
            run = "run%s_%s" % ("abc"[r], ser)
            ts = times_of(rng, int(rng.randint(1, 6)), integral=True)
            for t in ts:
                vals = np.full((2, 2, 3), r * 10000.0 + t)
                xfiles.write_xdmf(d, "%s.%s.%06d" % (run, kind, t), nodes, [("rr", vals, 'cell', None)],
                                  time=float(t))
            runs[run] = (kind, ts, r)
        run = sorted(runs)[rng.randint(len(runs))]
        kind, ts, r = runs[run]
        k = rng.randint(4)
        msg = lambda: "k=%d %s" % (k, runs)  # noqa
        old = GGCMGrid.mhd_to_gse_on_read
        GGCMGrid.mhd_to_gse_on_read = False
        try:
            if k == 0:
                fs = viscid.load_files([os.path.join(d, "*.xdmf")])
                ctx.check(len(fs) == len(runs), "group/number", lambda: "%d %s" % (len(fs), msg()))
                got = {}
                for f in fs:
                    got[f.find_info('run').split('/')[-1]] = steps_of(f)
                want = dict((q, [(float(t), v[2] * 10000.0 + t) for t in v[1]]) for q, v in runs.items())
                ctx.check(got == want, "group/members", lambda: "%s %s" % (got, msg()))
            elif k == 1:
                pat = "%s.%s.[%%s].xdmf" % (run, kind)
                a, b = sorted(int(v) for v in rng.randint(0, len(ts) + 1, size=2))
                st = int(rng.randint(1, 3))
                want = ts[a:b:st]
                fs = slice_pat(ctx, d, pat % ("%d:%d:%d" % (a, b, st)), want)
            elif k == 2:
                pat = "%s.%s.[%%s].xdmf" % (run, kind)
                lo, hi = sorted(int(v) for v in rng.randint(0, 4100, size=2))
                want = [t for t in ts if lo <= t <= hi]
                fs = slice_pat(ctx, d, pat % ("%df:%df" % (lo, hi)), want)
            else:
                pat = "%s.%s.[%%s].xdmf" % (run, kind)
                i = int(rng.randint(len(ts)))
                fs = slice_pat(ctx, d, pat % [str(i), "%df" % ts[i]][rng.randint(2)], [ts[i]])
                want = [ts[i]]
            if k:
                if not want:
                    ctx.check(not fs, "group/slice-empty", msg)
                else:
                    ctx.check(len(fs) == 1, "group/slice", lambda: "%d %s" % (len(fs), msg()))
                    got = steps_of(fs[0])
                    ctx.check(got == [(float(t), r * 10000.0 + t) for t in want], "group/slice",
                              lambda: "%s want %s %s" % (got, want, msg()))
            for f in fs:
                f.unload()
        finally:
            GGCMGrid.mhd_to_gse_on_read = old
        ctx.saw('group', k, len(runs), len(ts))


def slice_pat(ctx, d, pat, want):
    if not want:
        fs = viscid.glob2(os.path.join(d, pat))
        ctx.check(list(fs) == [], "group/slice-empty", lambda: "%s %s" % (pat, fs))
        return []
    return viscid.load_files(os.path.join(d, pat))


def steps_of(f):
    if f.nr_times() > 1:
        return [(float(g.time), float(np.asarray(g['rr'].data).reshape(-1)[0])) for g in f.iter_times()]
    g = f.get_grid()
    return [(float(g.time), float(np.asarray(g['rr'].data).reshape(-1)[0]))]


SCENARIOS = [
    Scenario("xdmf", sc_xdmf, quick=900, thorough=20000, need=300),
    Scenario("iono", sc_iono, quick=60, thorough=1000, need=20),
    Scenario("ascii", sc_ascii, quick=500, thorough=8000, need=100),
    Scenario("athena_bin", sc_athena_bin, quick=400, thorough=8000, need=100),
    Scenario("athena_tab", sc_athena_tab, quick=300, thorough=6000, need=80),
    Scenario("athena_xdmf", sc_athena_xdmf, quick=100, thorough=1500, need=20),
    Scenario("gkeyll", sc_gkeyll, quick=300, thorough=6000, need=80),
    Scenario("vpic", sc_vpic, quick=200, thorough=4000, need=50),
    Scenario("fortbin", sc_fortbin, quick=500, thorough=10000, need=100),
    Scenario("ggcm_xdmf", sc_ggcm_xdmf, quick=400, thorough=8000, need=100),
    Scenario("stagger", sc_stagger, quick=400, thorough=3000, need=50),
    Scenario("psc", sc_psc, quick=80, thorough=1000, need=20),
    Scenario("logfile", sc_logfile, quick=300, thorough=5000, need=100),
    Scenario("group", sc_group, quick=200, thorough=4000, need=60),
]

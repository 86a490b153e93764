"""D02 what is saved is what is loaded"""
from __future__ import print_function
import hashlib
import os
import re
import xml.etree.ElementTree as ET

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext, gen, xfiles
import viscid
from viscid.compat import OrderedDict

PID = "D02"
TECHNIQUE = ("runtime monitoring: random sets of fields are written by the "
             "real writers and loaded by the real readers; a plain-array model "
             "judges what comes back, h5py / numpy / an xml parser judge what "
             "is on disk, and digests show that reading left the files alone")
RULE = ("an execution counts when values, coordinates, names, centering, "
        "components, dtype and time of a loaded field were compared; "
        "signatures are (format, writer call, dims, center, layout, dtype, "
        "compression, way of reading)")
ASSUMPTIONS = [
    "all fields of one file share one cartesian grid whose cell centers are "
    "the midpoints of its nodes (stated in the writers)",
    "hdf5 files hold three axes: axes of fewer dimensional fields are padded "
    "with one point at 0; axes not named x, y, z are renamed in this order "
    "(stated in the writer); npz files hold no time",
]
DT = ['f8', 'f8', 'f4', 'i4', 'i8', 'u1', 'u4', 'i2', 'bool']


def setup():
    ext.ensure()
    viscid.logger.setLevel(50)


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


class Fld(object):
    pass


def r_name(rng, used, fmt):
    for _ in range(100):
        k = rng.randint(8)
        if k < 5:
            n = "".join(rng.choice(list("abcdefgpqruvw")) for _ in range(int(rng.randint(1, 6))))
        elif k == 5:
            n = "v%d_%s" % (rng.randint(9), rng.choice(list("xyz")))
        elif k == 6:
            n = "V %s[i]*" % rng.choice(list("xyz"))
        else:
            n = ["a<b", "p & q", 'say "x"', "t:u", "|b|", "n'", "e = m*c^2", "100%"][rng.randint(8)]
        if n not in used and n not in "xyz" and n not in ('u', 'v', 'w'):
            used.add(n)
            return n
    raise Skip("names")


def build(rng, fmt):
    """fields on one grid with their models"""
    nd = [3, 3, 3, 2, 1][rng.randint(5)]
    if rng.randint(5) == 0:
        n = [3 if rng.randint(2) else 4] * nd
    else:
        n = [int(v) for v in rng.randint(2, 7, size=nd)]
    names = ["xyz"[:nd], "xyz"[:nd]] + {1: ["y", "z"], 2: ["xz", "yz"], 3: ["xyz"]}[nd]
    names = names[rng.randint(len(names))]
    if fmt == 'npz' and rng.randint(4) == 0:
        names = "uvw"[:nd]
    kind = ['uniform', 'stretched', 'dyadic', 'int'][rng.randint(4)]
    axes = gen.rand_axes(rng, n, 'node', names=names, kind=kind,
                         dtype=['f8', 'f8', 'f4'][rng.randint(3)])
    crds = gen.make_crds(axes, ['AUTO', 'nonuniform'][rng.randint(2)])
    used = set()
    time = [0.0, round(float(rng.uniform(-100, 5000)), 3), float(rng.uniform(0, 1e5)),
            1.0 / 3][rng.randint(4)]
    kw = {}
    if rng.randint(3) == 0:
        kw['crd_system'] = ['gse', 'mhd', 'gsm'][rng.randint(3)]
    out = []
    for _ in range(int(rng.randint(1, 5))):
        q = Fld()
        q.center = ['node', 'cell', 'cell', 'face', 'edge'][rng.randint(5)]
        q.ncomp = int([0, 0, 3, 3, 2, 4][rng.randint(6)])
        q.layout = ['flat', 'interlaced'][rng.randint(2)]
        q.dtype = DT[rng.randint(len(DT))]
        q.name = r_name(rng, used, fmt)
        sh = [m if q.center == 'node' else m - 1 for m in n]
        vals = gen.rand_vals(rng, sh + ([q.ncomp] if q.ncomp else []), q.dtype)
        if vals.dtype.kind == 'f' and rng.randint(4) == 0:
            vals.reshape(-1)[rng.randint(vals.size)] = [np.nan, np.inf, -0.0, 1e-310][rng.randint(4)]
        q.model = gen.Model(vals, axes, 'node' if q.center == 'node' else 'cell', q.ncomp)
        f = gen.make_field(rng, q.model, layout=q.layout, name=q.name,
                           order=['C', 'F', 'strided'][rng.randint(3)], time=time)
        for k, v in kw.items():
            f.set_info(k, v)
        f.center = q.center
        q.fld = f
        out.append(q)
    # one coordinates object or equal ones
    if rng.randint(2):
        for q in out:
            q.fld.crds = crds
    return out, axes, time, kw.get('crd_system'), kind


def save(rng, path, qs, fmt):
    """through one of the public ways in; returns (way, names on disk)"""
    flds = [q.fld for q in qs]
    kw = {}
    comp = 0
    if fmt == 'h5' and rng.randint(3) == 0:
        comp = int(rng.randint(1, 10))
        kw['complevel'] = comp
    way = ['list', 'dict', 'pairs', 'grid', 'field'][rng.randint(5)]
    names = [q.name for q in qs]
    if way == 'list':
        viscid.save_fields(path, flds, **kw)
    elif way == 'dict':
        names = ["d%d" % i for i in range(len(qs))]
        viscid.save_fields(path, OrderedDict(zip(names, flds)), **kw)
    elif way == 'pairs':
        names = ["p%d" % i for i in range(len(qs))]
        viscid.save_fields(path, [(a, b) for a, b in zip(names, flds)], **kw)
    elif way == 'grid':
        g = viscid.grid.Grid(time=flds[0].time)
        g.set_crds(flds[0].crds)
        g.add_field(*flds)
        viscid.save_grid(path, g, **kw)
    else:
        if rng.randint(2):
            names = ["one"]
            viscid.save_field(path, flds[0], name='one', **kw)
        else:
            names = names[:1]
            viscid.save_field(path, flds[0], **kw)
        qs = qs[:1]
    return way, names, qs, comp


def padded(model):
    """what a three dimensional file makes of a model"""
    nd = len(model.axes)
    ax = [a.name for a in model.axes]
    pos = [("xyz".index(a) if all(b in "xyz" for b in ax) else i) for i, a in enumerate(ax)]
    axes = [gen.Axis(c, [0.0]) for c in "xyz"]
    sh = [1, 1, 1]
    for i, p in enumerate(pos):
        axes[p] = gen.Axis("xyz"[p], model.axes[i].nc)
        sh[p] = model.vals.shape[i]
    vals = model.vals.reshape(sh + ([model.ncomp] if model.ncomp else []))
    assert nd <= 3
    return gen.Model(vals, axes, model.center, model.ncomp)


def compare(ctx, rng, got, q, model, key, msg, time):
    """a loaded field against its model"""
    ctx.check(got.center == q.center, key + "/center", lambda: "%s %s" % (got.center, msg()))
    if rng.randint(3) == 0 and q.ncomp == 0:
        # part of it before the rest is in memory
        i = tuple(int(rng.randint(m)) for m in model.vals.shape)
        s = tuple(slice(j, j + 1) for j in i)
        part = np.asarray(got[s].data if hasattr(got[s], 'data') else got[s])
        ctx.same(part.reshape(-1)[:1], model.vals[i].reshape(-1), key + "/part", msg)
    elif rng.randint(3) == 0 and q.ncomp:
        c = int(rng.randint(q.ncomp))
        part = got[gen.COMP[c]]
        ctx.same(np.asarray(getattr(part, 'data', part)).reshape(model.vals.shape[:-1]),
                 model.vals[..., c], key + "/component", msg)
    ctx.same(int(got.nr_comps), q.ncomp, key + "/ncomps", msg)
    ctx.check(list(got.crds.axes) == [a.name for a in model.axes], key + "/axes",
              lambda: "%s %s" % (got.crds.axes, msg()))
    c = gen.canon(got)
    ctx.same(c, model.vals, key + "/values", msg)
    ctx.check(np.dtype(c.dtype) == np.dtype(q.dtype), key + "/dtype",
              lambda: "%s %s" % (c.dtype, msg()))
    for g, a in zip(got.crds.get_crds_nc(), model.axes):
        gen.check_crd(ctx, g, a.nc, key + "/nodes", np.max(np.abs(a.nc)), msg)
    for g, a in zip(got.crds.get_crds_cc(), model.axes):
        gen.check_crd(ctx, g, a.cc, key + "/centers", np.max(np.abs(a.nc)), msg)
    if time is not None:
        ctx.check(float(got.time) == time, key + "/time",
                  lambda: "%r != %r %s" % (got.time, time, msg()))


def check_disk_h5(ctx, d, base, qs, names, axes, msg):
    """the files themselves, told by h5py and an xml parser"""
    import h5py
    root = ET.parse(os.path.join(d, base + ".xdmf")).getroot()
    with h5py.File(os.path.join(d, base + ".h5"), 'r') as f:
        seen = []
        for att in root.iter('Attribute'):
            di = att.find('DataItem')
            nm = att.get('Name')
            seen.append(nm)
            q = qs[names.index(nm)]
            m = padded(q.model)
            fn, loc = re.match(r"\./(.*?\.h5):(.*)$", di.text.strip()).groups()
            ctx.same(fn, base + ".h5", "disk/file", msg)
            arr = f[loc][...]
            dims = [int(s) for s in di.get('Dimensions').split()]
            ctx.check(list(arr.shape) == dims, "disk/dims",
                      lambda: "%s %s %s" % (arr.shape, dims, msg()))
            want = np.transpose(m.vals, (2, 1, 0) + ((3,) if q.ncomp else ()))
            ctx.same(arr, want, "disk/values", msg)
            ctx.check(att.get('AttributeType').lower() == ('vector' if q.ncomp else 'scalar'),
                      "disk/type", msg)
            ctx.check(att.get('Center').lower() == q.center, "disk/center", msg)
            ctx.same(int(di.get('Precision')), arr.dtype.itemsize, "disk/precision", msg)
            nt = dict(f='Float', i='Int', u='UInt', b='UChar')[arr.dtype.kind]
            ctx.check(di.get('NumberType') == nt, "disk/numbertype",
                      lambda: "%s %s" % (di.get('NumberType'), msg()))
        ctx.check(sorted(seen) == sorted(names), "disk/names", lambda: "%s %s" % (seen, msg()))
        m = padded(qs[0].model)
        top = [int(s) for s in root.find('.//Topology').get('Dimensions').split()]
        ctx.check(top == [len(a.nc) for a in m.axes[::-1]], "disk/topology", msg)
        for di, a in zip(root.find('.//Geometry').findall('DataItem'), m.axes):
            loc = re.match(r"\./(.*?\.h5):(.*)$", di.text.strip()).group(2)
            gen.check_crd(ctx, f[loc][...], a.nc, "disk/crds", np.max(np.abs(a.nc)), msg)


def sc_h5(ctx, rng):
    qs, axes, time, csys, kind = build(rng, 'h5')
    with xfiles.scratch() as d:
        base = ["t", "run.3", "a-b_c", "x 1", "d12:30"][rng.randint(5)] + str(rng.randint(1000))
        path = os.path.join(d, base + ".h5")
        snaps = [gen.snapshot(q.fld) for q in qs]
        way, names, qs, comp = save(rng, path, qs, 'h5')
        msg = lambda: "%s names=%r %r" % (way, names, [  # noqa
            (q.center, q.layout, q.dtype, q.model.vals.shape) for q in qs])
        ctx.note(way=way, names=names)
        for q, s in zip(qs, snaps):
            gen.check_unchanged(ctx, q.fld, s, "saved-field-changed")
        check_disk_h5(ctx, d, base, qs, names, axes, msg)
        xd = os.path.join(d, base + ".xdmf")
        dg = digest(path), digest(xd)
        f = viscid.load_file(xd)
        try:
            g = f.get_grid()
            got = list(g.field_dict().keys())
            ctx.check(sorted(got) == sorted(names), "h5/names",
                      lambda: "%r %s" % (got, msg()))
            ctx.check(float(g.time) == time, "h5/grid-time", lambda: "%r %r" % (g.time, time))
            order = rng.permutation(len(qs))
            for i in order:
                q = qs[i]
                fl = [lambda: f[names[i]], lambda: g[names[i]],
                      lambda: f.get_field(names[i])][rng.randint(3)]()
                ctx.check(fl.name == names[i], "h5/name", msg)
                compare(ctx, rng, fl, q, padded(q.model), "h5", msg, time)
                if csys:
                    ctx.same(viscid.as_crd_system(fl), csys, "h5/crd_system", msg)
                ctx.saw('h5', way, len(q.model.axes), q.center,
                        q.layout if q.ncomp else 'scalar', q.dtype, comp > 0, kind)
                ctx.count("h5_fields")
            if rng.randint(4) == 0:
                second(ctx, rng, d, f, qs, names, time, msg)
        finally:
            f.unload()
        ctx.check((digest(path), digest(xd)) == dg, "h5/file-changed", msg)


def second(ctx, rng, d, f, qs, names, time, msg):
    """what was loaded is saved again"""
    ext2 = ['h5', 'npz'][rng.randint(2)]
    p2 = os.path.join(d, "second." + ext2)
    g = f.get_grid()
    if ext2 == 'npz' and any(n in 'xyz' for n in names):
        return
    if rng.randint(2):
        viscid.save_grid(p2, g)
    else:
        viscid.save_fields(p2, list(g.field_dict().values()))
    f2 = viscid.load_file(p2.replace('.h5', '.xdmf'))
    try:
        for q, n in zip(qs, names):
            compare(ctx, rng, f2[n], q, padded(q.model), "second-" + ext2, msg,
                    time if ext2 == 'h5' else None)
    finally:
        f2.unload()
    ctx.count("saved_twice")


def sc_npz(ctx, rng):
    qs, axes, time, csys, kind = build(rng, 'npz')
    with xfiles.scratch() as d:
        path = os.path.join(d, ["t", "run.3", "a-b_c"][rng.randint(3)] + ".npz")
        snaps = [gen.snapshot(q.fld) for q in qs]
        way, names, qs, _ = save(rng, path, qs, 'npz')
        msg = lambda: "%s names=%r %r" % (way, names, [  # noqa
            (q.center, q.layout, q.dtype, q.model.vals.shape) for q in qs])
        ctx.note(way=way, names=names)
        for q, s in zip(qs, snaps):
            gen.check_unchanged(ctx, q.fld, s, "saved-field-changed")
        dg = digest(path)
        f = viscid.load_file(path)
        try:
            g = f.get_grid()
            got = list(g.field_dict().keys())
            ctx.check(sorted(got) == sorted(names), "npz/names", lambda: "%r %s" % (got, msg()))
            for i in rng.permutation(len(qs)):
                q = qs[i]
                compare(ctx, rng, f[names[i]], q, q.model, "npz", msg, None)
                ctx.saw('npz', way, len(q.model.axes), q.center,
                        q.layout if q.ncomp else 'scalar', q.dtype, kind)
                ctx.count("npz_fields")
            ctx.same(digest(path), dg, "npz/file-changed", msg)
            if rng.randint(3) == 0:
                # over itself, or elsewhere
                p2 = None if rng.randint(2) else os.path.join(d, "other.npz")
                f.save(p2) if p2 else f.save()
                f.unload()
                f = viscid.load_file(p2 or path, force_reload=True)
                for q, n in zip(qs, names):
                    compare(ctx, rng, f[n], q, q.model, "npz-saved", msg, None)
                ctx.count("npz_saved_twice")
        finally:
            f.unload()


def sc_basetime(ctx, rng):
    """the date that goes with an hdf5 file"""
    import h5py
    base = np.datetime64(['1967-01-01', '2012-02-28T23:59:50', '1999-12-31T12:00:00.25'][rng.randint(3)], 'us')
    t = round(float(rng.uniform(0, 2e5)), int(rng.randint(0, 4)))
    axes = gen.rand_axes(rng, [3, 4, 2], 'node')
    m = gen.Model(gen.rand_vals(rng, [3, 4, 2], 'f8'), axes, 'node', 0)
    f = gen.make_field(rng, m, name='q', time=t)
    f.basetime = base
    with xfiles.scratch() as d:
        path = os.path.join(d, "b.h5")
        viscid.save_fields(path, [f])
        with h5py.File(path, 'r') as h:
            s = h['openggcm'].attrs['time_str'].decode()
        w = s.split()
        ctx.check(w[0] == 'time=' and float(w[1]) == t, "time_str/time", s)
        got = np.datetime64(w[3].replace(':', '-', 2).replace(':', 'T', 1), 'us')
        want = base + np.timedelta64(int(round(t * 1e6)), 'us')
        ctx.check(abs(got - want) <= np.timedelta64(1, 'us'), "time_str/date",
                  lambda: "%s base=%s t=%r" % (s, base, t))
        ep = float((want - np.datetime64('1966-01-01', 'us')) / np.timedelta64(1, 's'))
        ctx.close(float(w[2]), ep, "time_str/epoch", rtol=1e-12, atol=1e-5,
                  msg=lambda: "%s base=%s t=%r" % (s, base, t))
    ctx.saw('basetime', str(base), t == 0)


SCENARIOS = [
    Scenario("h5", sc_h5, quick=1200, thorough=25000, need=300),
    Scenario("npz", sc_npz, quick=900, thorough=20000, need=200),
    Scenario("basetime", sc_basetime, quick=100, thorough=1500, need=30),
]

"""D05: registries of items and of files"""
import os

import numpy as np

import viscid
from viscid.bucket import Bucket
from viscid.readers.vfile_bucket import VFileBucket
from viscid.readers import ggcm_logfile  # noqa: F401
from viscid.readers.openggcm import GGCMFile, GGCMGrid

from vmon import ext, gen, xfiles
from vmon.core import Scenario
import d03_readers as d03
import d04_jrrle as d04

PID = "D05"
TECHNIQUE = ("runtime monitoring: random histories of registry operations and of files being loaded, "
             "read, changed on disk, reloaded, dropped from memory and unloaded, after every step an "
             "online monitor compares the registry and what is read with a reference model")
RULE = ("one case is one history; handles, items, order, references and the values read are compared "
        "with the model after each of its steps")
ASSUMPTIONS = [
    "items compare equal only to themselves; handles are hashable",
    "a file that changed on disk is reloaded before it is read again",
]


def setup():
    ext.ensure()
    viscid.logger.setLevel(60)
    GGCMFile._already_warned_about_logfile = True


# -- Bucket against a model ---------------------------------------------------------------
class Item(object):
    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "<item %d>" % self.i


class RefBucket(object):
    """items in the order they came, each with handles in the order they came"""

    def __init__(self):
        self.ent = []  # [item, handles, refs]
        self.n = 0

    def find(self, item):
        for e in self.ent:
            if e[0] is item:
                return e
        return None

    def who(self, h):
        for e in self.ent:
            if any(same_handle(h, q) for q in e[1]):
                return e
        return None

    def set(self, handles, item, index_handle=True, add_ref=False):
        handles = list(handles)
        e = self.find(item)
        if e is None and index_handle:
            handles.append(self.n)
            self.n += 1
        add = []
        for h in handles:
            o = self.who(h)
            if (o is not None and o[0] is item) or any(same_handle(h, q) for q in add):
                continue
            if o is not None:
                o[1].remove(h)
                if not o[1]:
                    self.drop(o)
            add.append(h)
        if e is not None:
            e[1] += add
            e[2] += 1 if add_ref else 0
        elif add:
            self.ent.append([item, add, 1])

    def drop(self, e):
        self.ent = [q for q in self.ent if q is not e]

    def unref(self, e, n):
        e[2] -= n
        if e[2] <= 0:
            self.drop(e)


def same_handle(a, b):
    return a == b and hash(a) == hash(b)


HANDLES = ['a', 'b', 'c', 'a file', '/x/y', ('t', 1), ('t', 2), 1.5, b'a', None, frozenset([1]), -3]


def check_bucket(ctx, b, m, order, items, key, msg):
    want = [e[0] for e in m.ent]
    got = list(b.values())
    if order:
        ctx.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), key + "/order",
                  lambda: "%r want %r %s" % (got, want, msg()))
    ctx.check(sorted(map(id, got)) == sorted(map(id, want)), key + "/items",
              lambda: "%r want %r %s" % (got, want, msg()))
    ctx.check(len(b) == len(want), key + "/len", lambda: "%d want %d %s" % (len(b), len(want), msg()))
    for how in (list(b), b.items_as_list()):
        ctx.check(sorted(map(id, how)) == sorted(map(id, want)), key + "/iter", msg)
    pairs = list(b.items())
    ctx.check(len(pairs) == len(want), key + "/pairs", msg)
    for hs, it in pairs:
        e = m.find(it)
        ctx.check(e is not None and len(hs) == len(e[1]) and
                  all(any(same_handle(h, q) for q in e[1]) for h in hs) and
                  same_handle(hs[0], e[1][0]), key + "/handles",
                  lambda: "%r want %r %s" % (hs, e, msg()))
    for h in HANDLES + list(range(m.n + 1)):
        e = m.who(h)
        ctx.check(b.contains_handle(h) == (e is not None), key + "/contains handle",
                  lambda: "%r %r %s" % (h, e, msg()))
        if e is None:
            ctx.raises(KeyError, lambda: b[h], key + "/missing", lambda: "%r %s" % (h, msg()))
        else:
            ctx.check(b[h] is e[0], key + "/lookup", lambda: "%r: %r want %r %s" % (h, b[h], e, msg()))
            ctx.check(h in b, key + "/in", msg)
    for it in items:
        ctx.check(b.contains_item(it) == (m.find(it) is not None), key + "/contains item",
                  lambda: "%r %s" % (it, msg()))
        ctx.check((it in b) == (m.find(it) is not None), key + "/in",
                  lambda: "%r %s" % (it, msg()))
    if order:
        got = b.get_primary_handles()
        ctx.check(got == [e[1][0] for e in m.ent], key + "/primary", lambda: "%r %s" % (got, msg()))
    s = b.handle_string(prefix="#")
    ctx.check(s.count("#handles: ") == len(want) and all(repr(e[1][0]) in s for e in m.ent),
              key + "/string", lambda: "%s %s" % (s, msg()))


def sc_bucket(ctx, rng):
    order = bool(rng.randint(2))
    b, m = Bucket(ordered=order), RefBucket()
    items = [Item(i) for i in range(5)] + [[1, 2], [1, 2], {}, np.arange(3)]
    hist = []
    msg = lambda: "ordered=%s %s" % (order, hist[-12:])  # noqa
    for _ in range(int(rng.randint(5, 40))):
        it = items[rng.randint(len(items))]
        k = rng.randint(12)
        hs = [HANDLES[j] for j in rng.randint(0, len(HANDLES), size=rng.randint(0, 4))]
        if k < 4:
            ih, ar = bool(rng.randint(3)), bool(rng.randint(3) == 0)
            hist.append(('set', hs, it, ih, ar))
            if rng.randint(5) == 0 and hs:
                bad = [[], {}][rng.randint(2)]
                # what can't be looked up is left out
                j = int(rng.randint(len(hs) + 1))
                b.set_item(hs[:j] + [bad] + hs[j:], it, index_handle=ih, _add_ref=ar)
            else:
                b.set_item(list(hs), it, index_handle=ih, _add_ref=ar)
            m.set(hs, it, ih, ar)
        elif k == 4:
            hist.append(('[]', hs, it))
            hs2 = [h for h in hs if not isinstance(h, tuple)]
            if len(hs2) == 1 and hs2[0] is not None and rng.randint(2):
                b[hs2[0]] = it
            elif not hs2:
                b[None] = it
            else:
                b[[tuple, list][rng.randint(2)](hs2)] = it
            m.set(hs2, it)
        elif k == 5:
            hist.append(('remove', it))
            e = m.find(it)
            if e is None:
                ctx.raises((KeyError, ValueError), lambda: b.remove_item(it), "remove/missing", msg)
            else:
                b.remove_item(it)
                m.drop(e)
        elif k == 6:
            h = HANDLES[rng.randint(len(HANDLES))] if rng.randint(2) else int(rng.randint(m.n + 1))
            e = m.who(h)
            hist.append(('remove handle', h))
            if e is None:
                ctx.raises(KeyError, lambda: b.remove_item_by_handle(h), "remove/missing", msg)
            else:
                b.remove_item_by_handle(h)
                m.drop(e)
        elif k == 7:
            e = m.find(it)
            by = rng.randint(2)
            hist.append(('del', it, by))
            if e is not None:
                del b[e[1][rng.randint(len(e[1]))] if by else it]
                m.drop(e)
            else:
                def f():
                    del b[it]
                ctx.raises(KeyError, f, "remove/missing", msg)
        elif k < 11:
            e = m.find(it)
            if e is None:
                continue
            n = int([1, 1, 1, 2, 0][rng.randint(5)])
            if rng.randint(2):
                arg = e[1][rng.randint(len(e[1]))]
            else:
                arg = it
            hist.append(('unref', arg, n))
            if n == 0 and arg is it:
                continue
            if n == 0:
                continue
            try:
                hash(arg)
            except TypeError:
                arg = it
            b.remove_reference(arg, _ref_count=n)
            m.unref(e, n)
        elif rng.randint(4) == 0:
            hist.append(('clear',))
            b.remove_all_items()
            m.ent = []
        check_bucket(ctx, b, m, order, items, "bucket", msg)
    ctx.saw('bucket', order, len(m.ent), m.n, tuple(sorted(set(h[0] for h in hist))))
    ctx.count("steps", len(hist))


# -- files ------------------------------------------------------------------------------
NODES = [np.array([0., 1., 2.5]), np.array([-1., 0., 1., 3.]), np.array([0., .5, 1., 2., 2.5])]
CCS = [0.5 * (c[1:] + c[:-1]) for c in NODES]
SH = [2, 3, 4]


class Src(object):
    """one thing to load: a file, or files that belong together"""
    timed = True

    def __init__(self, rng, d, nmax=3):
        self.rng, self.d = rng, d
        self.base = "r" + d03.serial()
        self.k = int(rng.randint(1, nmax + 1)) if self.many else 1
        self.names = self.fixed_names or self.pick_names()
        self.prepare()
        self.fns = [os.path.join(d, self.name(i)) for i in range(self.k)]
        self.change(True)

    many = True
    fixed_names = None

    def pick_names(self):
        p = [['rr', 'pp', 'vx', 'qq'][j] for j in self.rng.permutation(4)]
        return p[:self.rng.randint(1, 5)]

    def prepare(self):
        pass

    def change(self, first=False):
        if not first and self.fixed_names is None:
            self.names = self.pick_names()
        self.times = [float(10 * (i + 1)) for i in range(self.k)]
        self.vals = [dict((nm, self.vary()) for nm in self.names)
                     for _ in range(self.k)]
        for i in range(self.k):
            self.write(self.fns[i], self.times[i], self.vals[i])

    def vary(self):
        return np.abs(d03.fval(self.rng, SH, 'f4')) + np.float32(1)

    def args(self):
        """ways to say which one"""
        if self.k == 1:
            fn = self.fns[0]
            return [fn, os.path.relpath(fn), os.path.join(self.d, ".", os.path.basename(fn)), [fn],
                    os.path.join(self.d, "?" + self.name(0)[1:])]
        rng = self.rng
        return [os.path.join(self.d, self.pattern()), list(self.fns),
                [self.fns[j] for j in rng.permutation(self.k)],
                [os.path.relpath(fn) for fn in self.fns]]

    def pattern(self):
        return self.name(0).replace(self.num(0), "*")

    def num(self, i):
        return "%06d" % int(10 * (i + 1))

    def grids(self, f):
        if self.k == 1:
            return [f.get_grid()]
        return list(f.iter_times())

    def rtol(self):
        return 0.0


class XdmfSrc(Src):
    many = False
    ext = "xdmf"

    def name(self, i):
        return self.base + ".xdmf"

    def write(self, fn, t, vals):
        xfiles.write_xdmf(self.d, os.path.basename(fn)[:-5], NODES,
                          [(nm, v, 'cell', None) for nm, v in vals.items()], time=t)


class SavedSrc(Src):
    many = timed = False

    def name(self, i):
        return self.base + ".npz"

    def write(self, fn, t, vals):
        flds = []
        for nm, v in vals.items():
            crds = viscid.arrays2crds(NODES)
            flds.append(viscid.wrap_field(v, crds, name=nm, center='cell', time=t))
        viscid.save_fields(fn, flds)


class SavedH5Src(SavedSrc):
    """loaded from the xdmf file that goes with it"""

    def name(self, i):
        return self.base + ".xdmf"

    def write(self, fn, t, vals):
        SavedSrc.write(self, fn[:-5] + ".h5", t, vals)


class GgcmXdmfSrc(Src):
    def name(self, i):
        return "%s.3d.%s.xdmf" % (self.base, self.num(i))

    def write(self, fn, t, vals):
        xfiles.write_xdmf(self.d, os.path.basename(fn)[:-5], NODES,
                          [(nm, v, 'cell', None) for nm, v in vals.items()], time=t)


class AthXdmfSrc(Src):
    def num(self, i):
        return "%05d" % (i + 1)

    def name(self, i):
        return "%s.%s.ath.xdmf" % (self.base, self.num(i))

    def write(self, fn, t, vals):
        xfiles.write_xdmf(self.d, os.path.basename(fn)[:-5], NODES,
                          [(nm, v, 'cell', None) for nm, v in vals.items()], time=t)


def tstr(t):
    return "time= %.4f %.8e %s 300c" % (t, 1e9, "1967:01:01:00:%02d:%02d.000" % divmod(int(t), 60))


class FortbinSrc(Src):
    def prepare(self):
        d03.grid2(self.d, self.base, [c.astype('f4') for c in CCS])

    def name(self, i):
        return "%s.3df.%s.b" % (self.base, self.num(i))

    def write(self, fn, t, vals):
        d03.fortbin_file(fn, "<", t, tstr(t), list(vals.items()))


class JrrleSrc(FortbinSrc):
    def vary(self):
        return self.rng.uniform(1, 50, size=SH).astype('f4')

    def name(self, i):
        return "%s.3df.%s" % (self.base, self.num(i))

    def write(self, fn, t, vals):
        bl = []
        for nm, v in vals.items():
            v = v.astype('f4')
            bl.append(dict(lines=d04.block(nm, SH, d04.encode(v.reshape(-1, order='F').astype('f8'),
                                                              self.rng, it=int(t)), tstr(t), int(t))))
        d04.write(fn, bl)

    def rtol(self):
        return 5e-3


class TabSrc(Src):
    def num(self, i):
        return "%04d" % (i + 1)

    def name(self, i):
        return "%s.%s.tab" % (self.base, self.num(i))

    def write(self, fn, t, vals):
        with open(fn, 'w') as f:
            f.write("# Primitive vars at Time = %e, level= 0, domain= 0\n" % t)
            for a in range(3):
                f.write("# Nx%d = %d\n" % (a + 1, SH[a]))
            heads = ["%s-zone" % q for q in "ijk"] + ["x1", "x2", "x3"]
            f.write("# " + "  ".join("[%d]=%s" % (j + 1, h)
                                     for j, h in enumerate(heads + list(vals))) + "\n")
            for ix in np.ndindex(*SH[::-1]):
                ix = ix[::-1]
                row = ["%4d" % (4 + j) for j in ix]
                row += ["%13.6e" % CCS[a][ix[a]] for a in range(3)]
                row += ["%.9e" % v[ix] for v in vals.values()]
                f.write(" ".join(row) + "\n")


class GkeyllSrc(Src):
    def num(self, i):
        return "q_%d" % (i + 3)

    def pattern(self):
        return self.base + "_q_*.h5"

    def name(self, i):
        return "%s_%s.h5" % (self.base, self.num(i))

    fixed_names = ['rho', 'rhoux', 'rhouy', 'rhouz', 'e']

    def write(self, fn, t, vals):
        import h5py
        with h5py.File(fn, 'w') as f:
            f['StructGridField'] = np.stack([vals[nm] for nm in self.names], axis=-1)
            f.create_group('StructGrid')
            at = f['StructGrid'].attrs
            at['vsKind'] = np.bytes_('rectilinear')
            for j, c in enumerate(NODES):
                f['StructGrid/axis%d' % j] = c
            tg = f.create_group('timeData')
            tg.attrs['vsStep'] = 10
            tg.attrs['vsTime'] = t


KINDS = [XdmfSrc, SavedSrc, SavedH5Src, GgcmXdmfSrc, AthXdmfSrc, FortbinSrc, JrrleSrc, TabSrc,
         GkeyllSrc]
GROUPS = [k for k in KINDS if k.many]
# steps of these are files of their own, that can be loaded on their own too
STEPFILES = [FortbinSrc, JrrleSrc, TabSrc, GkeyllSrc]


def check_read(ctx, rng, src, f, key, msg, step=None, deep=True):
    """what the file has is what was written"""
    grids = [f.get_grid()] if step is not None else src.grids(f)
    steps = [step] if step is not None else range(src.k)
    if step is None:
        ctx.check(len(grids) == src.k, key + "/steps",
                  lambda: "%d want %d %s" % (len(grids), src.k, msg()))
    for i, g in zip(steps, grids):
        if not deep and rng.randint(2):
            continue
        if src.timed:
            ctx.check(float(g.time) == src.times[i], key + "/time",
                      lambda: "%r want %r %s" % (g.time, src.times[i], msg()))
        got = sorted(g.field_dict())
        ctx.check(got == sorted(src.names), key + "/names", lambda: "%s %s" % (got, msg()))
        for nm in src.names:
            ctx.close(gen.canon(g[nm]), src.vals[i][nm].astype('f8'), key + "/values",
                      rtol=src.rtol(), atol=0, msg=lambda: "%s step %d %s" % (nm, i, msg()))
            ctx.count("reads")


def sc_files(ctx, rng):
    glob = rng.randint(2)
    B = viscid.readers.__filebucket__ if glob else VFileBucket()
    old = GGCMGrid.mhd_to_gse_on_read
    GGCMGrid.mhd_to_gse_on_read = False
    cwd = os.getcwd()
    try:
        with xfiles.scratch() as d:
            os.chdir(d)
            try:
                files_history(ctx, rng, d, B, glob)
            finally:
                os.chdir(cwd)
    finally:
        GGCMGrid.mhd_to_gse_on_read = old
        viscid.unload_all_files()


def files_history(ctx, rng, d, B, glob):
    srcs = [KINDS[rng.randint(len(KINDS))](rng, d) for _ in range(int(rng.randint(1, 4)))]
    held = {}  # (source, step or None) -> file
    order = []  # for handles that are numbers
    n0 = B._int_counter
    hist = []
    old = []  # fields somebody still has
    msg = lambda: "global=%s %s %s" % (glob, [(type(s).__name__, s.k) for s in srcs], hist)  # noqa

    def load(q, **kw):
        src, st = q
        if st is None:
            a = src.args()
            arg = a[rng.randint(len(a))]
        else:
            arg = src.fns[st]
        if rng.randint(4) == 0:
            fs = (viscid.load_files if glob else B.load_files)(arg, **kw)
            ctx.check(len(fs) == 1, "files/one", lambda: "%r %s" % (fs, msg()))
            return fs[0]
        return (viscid.load_file if glob else B.load_file)(arg, **kw)

    def handle(q):
        f = held[q]
        hs = [f.handle_name]
        if q in order and q[0].k == 1:
            hs.append(q[0].fns[0])
        return hs[rng.randint(len(hs))]

    def verify(q, key, deep=True):
        check_read(ctx, rng, q[0], held[q], key, msg, step=q[1] if q[0].k > 1 else None, deep=deep)

    for _ in range(int(rng.randint(4, 14))):
        src = srcs[rng.randint(len(srcs))]
        st = None
        if type(src) in STEPFILES and src.k > 1 and rng.randint(3) == 0:
            st = int(rng.randint(src.k))
        q = (src, st)
        k = rng.randint(14)
        tag = "%d/%s" % (srcs.index(src), st)
        if k < 4 or (q not in held and k < 12):
            hist.append(("load", tag))
            f = load(q)
            ctx.check(f is not None, "files/loaded", msg)
            if q in held:
                ctx.check(f is held[q], "files/same object", msg)
            held[q] = f
            ctx.check(f in B and f.handle_name in B and B[f.handle_name] is f, "files/registered", msg)
            verify(q, "files/load")
        elif q not in held:
            pass
        elif k == 4:
            hist.append(("get", tag))
            h = held[q].handle_name
            f = viscid.get_file(h) if glob else B[h]
            ctx.check(f is held[q], "files/get", msg)
        elif k == 5:
            hist.append(("clear", tag))
            f = held[q]
            w = rng.randint(3)
            gs = [f.get_grid()] if (st is not None or src.k == 1) else src.grids(f)
            for g in gs:
                old.append((g[src.names[0]], ))
            if w == 0:
                f.clear_cache()
            elif w == 1:
                gs[0].clear_cache()
            else:
                fld = gs[0][src.names[0]]
                fld.data  # noqa
                fld.clear_cache()
                ctx.check(not fld.is_loaded, "files/clear", msg)
            verify(q, "files/clear")
        elif k in (6, 7, 8):
            # as other histories of the same step share what is on disk, all of them reload
            src.change()
            qs = [p for p in held if p[0] is src]
            for p in [qs[j] for j in rng.permutation(len(qs))]:
                # unloading what something else holds doesn't read it again
                w = rng.randint(4 if len(qs) == 1 else 3)
                hist.append(("change+reload", w, tag))
                f = held[p]
                if w == 0:
                    f.reload()
                elif w == 1:
                    if glob:
                        viscid.reload_file(f.handle_name)
                    else:
                        B[f.handle_name].reload()
                elif w == 2:
                    ctx.check(load(p, force_reload=True) is f, "files/reload/object", msg)
                else:
                    f.unload()
                    del held[p]
                    held[p] = load(p)
                    ctx.check(held[p] is not f, "files/unload/new object", msg)
            for p in qs:
                verify(p, "files/reload")
        elif k in (9, 10, 11):
            w = rng.randint(5)
            f = held.pop(q)
            hist.append(("unload", w, tag))
            mine = [(g[nm], i, nm) for i, g in
                    (zip([st], [f.get_grid()]) if st is not None else enumerate(src.grids(f)))
                    for nm in src.names[:1]]
            for fld, _i, _n in mine:
                fld.data  # noqa
            want = [src.vals[i][nm].copy() for _f, i, nm in mine]
            name = f.handle_name
            if w == 0:
                f.unload()
            elif w == 1:
                if glob:
                    viscid.unload_file(name)
                else:
                    B[name].unload()
            elif w == 2:
                with f:
                    pass
            elif w == 3:
                del B[name]
            else:
                B.remove_item(f)
            # somebody else may hold a step of the same files
            others = [p for p in held if p[0] is src]
            if not others:
                ctx.check(name not in B and f not in B, "files/unload/gone", msg)
            for (fld, _i, nm), v in zip(mine, want):
                ctx.close(gen.canon(fld), v.astype('f8'), "files/unload/kept field",
                          rtol=src.rtol(), atol=0, msg=msg)
            for p in others:
                verify(p, "files/unload/other")
        elif k == 12 and rng.randint(2):
            hist.append(("unload all",))
            if glob:
                viscid.unload_all_files()
            else:
                B.remove_all_items()
            held.clear()
            ctx.check(len(B) == 0, "files/unload all", lambda: "%r %s" % (list(B.keys()), msg()))
        elif k == 13 and type(src) in STEPFILES and src.k > 1 and st is None:
            # steps that were not asked for belong to the group
            hist.append(("unload step of group", tag))
            f = held[q]
            steps = f.get_times()
            j = int(rng.randint(src.k))
            if (src, j) not in held:
                w = rng.randint(3)
                if w == 0:
                    steps[j].unload()
                elif w == 1:
                    with steps[j]:
                        pass
                else:
                    del B[steps[j].handle_name]
            verify(q, "files/unload/step of group")
        else:
            hist.append(("read", tag))
            verify(q, "files/read", deep=False)
        # the files held and no others
        for p, f in held.items():
            ctx.check(f in B and B[f.handle_name] is f, "files/held", lambda: "%s %s" % (p[1], msg()))
        if not held:
            ctx.check(len(B) == 0, "files/leak", lambda: "%r %s" % (list(B.keys()), msg()))
    for q in list(held):
        verify(q, "files/end")
        held.pop(q).unload()
    ctx.check(len(B) == 0, "files/leak", lambda: "%r %s" % (list(B.keys()), msg()))
    ctx.saw('files', bool(glob), tuple(sorted(type(s).__name__ for s in srcs)),
            tuple(sorted(set(h[0] for h in hist))))
    ctx.count("steps", len(hist))


def sc_index(ctx, rng):
    """files are numbered in the order they were loaded"""
    with xfiles.scratch() as d:
        B = VFileBucket()
        old = GGCMGrid.mhd_to_gse_on_read
        GGCMGrid.mhd_to_gse_on_read = False
        try:
            srcs = [KINDS[rng.randint(len(KINDS))](rng, d) for _ in range(int(rng.randint(1, 5)))]
            num = []
            msg = lambda: "%s" % ([(type(s).__name__, s.k) for s in srcs],)  # noqa
            for _ in range(int(rng.randint(2, 8))):
                s = srcs[rng.randint(len(srcs))]
                a = s.args()
                f = B.load_file(a[rng.randint(len(a))])
                if not any(f is g for g in num):
                    num.append(f)
                for i, g in enumerate(num):
                    ctx.check(B[i] is g, "index/number", lambda: "%d %s" % (i, msg()))
                ctx.check(not B.contains_handle(len(num)), "index/more", msg)
            # several at once
            if len(srcs) > 1:
                arg = []
                for s in srcs:
                    arg += s.fns
                fs = B.load_files([arg[j] for j in rng.permutation(len(arg))])
                for s in srcs:
                    a = s.args()
                    f = B.load_file(a[rng.randint(len(a))])
                    ctx.check(sum(1 for g in fs if g is f) == 1, "index/several",
                              lambda: "%r %r %s" % (fs, f, msg()))
                ctx.check(len(fs) == len(srcs), "index/several", lambda: "%r %s" % (fs, msg()))
            B.remove_all_items()
            ctx.check(len(B) == 0, "index/empty", msg)
            ctx.saw('index', len(num), tuple(sorted(type(s).__name__ for s in srcs)))
        finally:
            GGCMGrid.mhd_to_gse_on_read = old


def sc_broken(ctx, rng):
    """one file of a group is gone, nothing of the group stays"""
    with xfiles.scratch() as d:
        B = VFileBucket()
        old = GGCMGrid.mhd_to_gse_on_read
        GGCMGrid.mhd_to_gse_on_read = False
        try:
            while True:
                src = STEPFILES[rng.randint(len(STEPFILES))](rng, d)
                if src.k > 1:
                    break
            msg = lambda: "%s %s" % (type(src).__name__, src.k)  # noqa
            mine = int(rng.randint(src.k)) if rng.randint(2) else None
            lost = int(rng.randint(src.k))
            if lost == mine:
                mine = None
            if mine is not None:
                f = B.load_file(src.fns[mine])
            os.rename(src.fns[lost], src.fns[lost] + ".away")
            with open(src.fns[lost], 'wb') as fout:
                fout.write(b'' if rng.randint(2) else b'# what is this\n')
            for _ in range(int(rng.randint(1, 3))):
                fs = []
                try:
                    fs = B.load_files(list(src.fns))
                    ctx.saw('broken loaded', len(fs), type(src).__name__)
                except Exception as e:  # how it says so is up to the reader
                    ctx.saw('broken error', type(e).__name__, type(src).__name__)
                for q in fs:
                    q.unload()
                ctx.check(len(B) == (mine is not None), "broken/leak",
                          lambda: "%r %s" % (list(B.keys()), msg()))
            if mine is not None:
                check_read(ctx, rng, src, f, "broken/held", msg, step=mine)
            os.rename(src.fns[lost] + ".away", src.fns[lost])
            g = B.load_file(list(src.fns))
            check_read(ctx, rng, src, g, "broken/whole", msg)
            g.unload()
            ctx.check(len(B) == (mine is not None), "broken/leak",
                      lambda: "%r %s" % (list(B.keys()), msg()))
            B.remove_all_items()
            ctx.check(len(B) == 0, "broken/leak", msg)
            ctx.saw('broken', type(src).__name__, src.k, lost, mine)
        finally:
            GGCMGrid.mhd_to_gse_on_read = old


def sc_failing(ctx, rng):
    """what can't be loaded isn't in the registry, and can be loaded once it is whole"""
    with xfiles.scratch() as d:
        glob = rng.randint(2)
        B = viscid.readers.__filebucket__ if glob else VFileBucket()
        old = GGCMGrid.mhd_to_gse_on_read
        GGCMGrid.mhd_to_gse_on_read = False
        cwd = os.getcwd()
        os.chdir(d)
        try:
            kind = [FortbinSrc, JrrleSrc][rng.randint(2)]
            bad = [kind(rng, d) for _ in range(int(rng.randint(1, 3)))]
            good = [KINDS[rng.randint(len(KINDS))](rng, d) for _ in range(int(rng.randint(0, 2)))]
            for s in bad:
                g2 = os.path.join(d, s.base + ".grid2")
                os.rename(g2, g2 + ".away")
            msg = lambda: "%s %s %s" % (kind.__name__, [s.k for s in bad], [type(s).__name__ for s in good])  # noqa
            hg = [B.load_file(s.args()[0]) for s in good]
            n = len(B)
            for _ in range(int(rng.randint(1, 4))):
                for s in bad:
                    if rng.randint(2):
                        f = B.load_file(s.args()[0])
                        ctx.check(f is None, "failing/none", lambda: "%r %s" % (f, msg()))
                    else:
                        fs = B.load_files(s.args()[0], force_reload=bool(rng.randint(2)))
                        ctx.check([q for q in fs if q is not None] == [], "failing/none",
                                  lambda: "%r %s" % (fs, msg()))
                    ctx.check(len(B) == n and None not in list(B.values()), "failing/registry",
                              lambda: "%r %s" % (list(B.items()), msg()))
            for s in bad:
                g2 = os.path.join(d, s.base + ".grid2")
                os.rename(g2 + ".away", g2)
                f = B.load_file(s.args()[0])
                ctx.check(f is not None, "failing/later", msg)
                check_read(ctx, rng, s, f, "failing/later", msg)
            for s, f in zip(good, hg):
                check_read(ctx, rng, s, f, "failing/others", msg)
            B.remove_all_items()
            ctx.check(len(B) == 0, "failing/empty", msg)
            ctx.saw('failing', kind.__name__, tuple(s.k for s in bad), len(good), bool(glob))
        finally:
            os.chdir(cwd)
            GGCMGrid.mhd_to_gse_on_read = old
            viscid.unload_all_files()


SCENARIOS = [
    Scenario("bucket", sc_bucket, quick=5000, thorough=30000, need=400),
    Scenario("files", sc_files, quick=500, thorough=10000, need=150),
    Scenario("index", sc_index, quick=150, thorough=3000, need=40),
    Scenario("broken", sc_broken, quick=80, thorough=1500, need=20),
    Scenario("failing", sc_failing, quick=80, thorough=1500, need=20),
]

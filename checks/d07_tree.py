"""D07 what nodes of the tree of files, data sets, grids and fields know"""
from __future__ import print_function

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext, gen
import viscid
from viscid.dataset import Dataset, DatasetTemporal
from viscid.grid import Grid
from viscid.tree import Node

PID = "D07"
TECHNIQUE = ("runtime monitoring: random trees of data sets, steps, grids and "
             "fields are built, changed and asked; every answer is judged by a "
             "plain model of the same tree kept beside it")
RULE = ("an execution counts when an answer was compared with the model's; "
        "signatures are (kind of question, kinds of nodes on the way, distance "
        "of the answer)")
ASSUMPTIONS = [
    "among parents at equal distance the one that was attached first answers",
    "a name that is both a child's and a field's means the child",
    "names are used once: an item's name is taken away from it by a new item "
    "only after its removal (else the old one stays under its number, with an "
    "error in the log)",
]
_none = object()
SYS = ['gse', 'mhd', 'gsm', 'sm']


def setup():
    ext.ensure()
    viscid.logger.setLevel(60)


# -- information on the way up ---------------------------------------------------------------
class MNode(object):
    def __init__(self, real, kind, info=None):
        self.real, self.kind, self.info, self.parents = real, kind, dict(info or {}), []

    def levels(self):
        seen = {id(self)}
        lvl = [self]
        while lvl:
            yield lvl
            nxt = []
            for m in lvl:
                for p in m.parents:
                    if id(p) not in seen:
                        seen.add(id(p))
                        nxt.append(p)
            lvl = nxt

    def owner(self, key):
        for d, lvl in enumerate(self.levels()):
            for m in lvl:
                if key in m.info:
                    return m, d
        return None, -1


def small_field(rng, name='a', ncomp=0):
    n = [int(v) for v in rng.randint(2, 4, size=3)]
    crds = viscid.arrays2crds([np.arange(float(v)) + rng.randint(3) for v in n])
    if ncomp:
        return viscid.wrap_field(rng.standard_normal(n + [3]), crds, name=name, fldtype='vector',
                                 layout='interlaced', center='node')
    return viscid.wrap_field(rng.standard_normal(n), crds, name=name, center='node')


def make_node(rng, i, kw):
    k = rng.randint(4)
    nm = "n%d" % i
    if k == 0:
        return Dataset(name=nm, **kw), 'Dataset'
    if k == 1:
        return DatasetTemporal(name=nm, **kw), 'DatasetTemporal'
    if k == 2:
        return Grid(name=nm, **kw), 'Grid'
    return Node(name=nm, **kw), 'Node'


KEYS = ['run', 'alpha', 'crd_x', 'k3', 'k4']


def rval(rng):
    return [int(rng.randint(9)), float(rng.randint(9)) / 2, "s%d" % rng.randint(9), None, False, 0, '',
            (1, 2)][rng.randint(8)]


def sc_info(ctx, rng):
    """information set anywhere is found from everything below"""
    n = int(rng.randint(2, 9))
    ms = []
    for i in range(n):
        kw = {k: rval(rng) for k in KEYS if not rng.randint(6)}
        if rng.randint(3) == 0:
            real, kind = make_node(rng, i, dict(info=dict(kw)))
        else:
            real, kind = make_node(rng, i, kw)
        m = MNode(real, kind, kw)
        # several parents, in an order
        if ms:
            for j in rng.permutation(len(ms))[:[1, 1, 1, 2, 3][rng.randint(5)]]:
                p = ms[int(j)]
                p.real.prepare_child(real)
                m.parents.append(p)
        ms.append(m)
    if rng.randint(6) == 0 and n > 2:
        # a loop doesn't hang anyone
        a = ms[0]
        b = ms[int(rng.randint(1, n))]
        b.real.prepare_child(a.real)
        a.parents.append(b)
    dist = set()
    for step in range(int(rng.randint(6, 20))):
        m = ms[int(rng.randint(n))] if rng.randint(3) else ms[-1]
        key = KEYS[rng.randint(len(KEYS))]
        own, d = m.owner(key)
        msg = lambda: "key %s of %s (%s) step %d; owner %s" % (  # noqa
            key, m.real.name, m.kind, step, own and own.real.name)
        q = rng.randint(9)
        before = [dict(x.real._info) for x in ms]
        if q == 0:
            v = rval(rng)
            m.real.set_info(key, v)
            m.info[key] = v
        elif q == 1:
            v = rval(rng)
            if rng.randint(2):
                m.real.update_info(key, v)
                (own or m).info[key] = v
            elif own is None:
                ctx.raises(KeyError, lambda: m.real.update_info(key, v, fallback=False), "update/missing", msg)
            else:
                m.real.update_info(key, v, fallback=False)
                own.info[key] = v
        elif q in (2, 3):
            if own is None:
                ctx.raises(KeyError, lambda: m.real.find_info(key), "find/missing", msg)
                ctx.check(m.real.find_info(key, None) is None and m.real.find_info(key, 5) == 5,
                          "find/default", msg)
            else:
                got = m.real.find_info(key, "dflt") if rng.randint(2) else m.real.find_info(key)
                ctx.check(type(got) is type(own.info[key]) and got == own.info[key], "find",
                          lambda: "got %r want %r; %s" % (got, own.info[key], msg()))
        elif q == 4:
            if own is None:
                ctx.raises(KeyError, lambda: m.real.find_info_owner(key), "owner/missing", msg)
            else:
                ctx.check(m.real.find_info_owner(key) is own.real, "owner", msg)
        elif q == 5:
            ctx.check(m.real.has_info(key) == (key in m.info), "has", msg)
            if key in m.info:
                ctx.check(m.real.get_info(key) == m.info[key], "get", msg)
            else:
                ctx.raises(KeyError, lambda: m.real.get_info(key), "get/missing", msg)
                ctx.check(m.real.get_info(key, 7) == 7, "get/default", msg)
        elif q == 6:
            got = m.real.get_all_info()
            want = {}
            for lvl in m.levels():
                for x in lvl:
                    for k, v in x.info.items():
                        want.setdefault(k, v)
            got = {k: v for k, v in got.items() if k in KEYS}
            ctx.check(got == want, "all", lambda: "%r != %r %s" % (got, want, msg()))
        elif q == 7:
            # attributes are found the same way
            nm = "_attr_%s" % key
            holders = [x for x in ms if rng.randint(4) == 0]
            for x in holders:
                setattr(x.real, nm, NotImplemented if rng.randint(4) == 0 else x.real.name)
            want = _none
            for lvl in m.levels():
                for x in lvl:
                    v = getattr(x.real, nm, NotImplemented)
                    if v is not NotImplemented and want is _none:
                        want = v
            if want is _none:
                ctx.raises(AttributeError, lambda: m.real.find_attr(nm), "attr/missing", msg)
                ctx.check(m.real.find_attr(nm, 3) == 3, "attr/default", msg)
            else:
                ctx.same(m.real.find_attr(nm), want, "attr", msg)
        else:
            if m.parents:
                # letting go of a child
                p = m.parents[int(rng.randint(len(m.parents)))]
                if rng.randint(3) == 0:
                    p.real.tear_down_child(m.real)
                    m.parents.remove(p)
                else:
                    p.real.prepare_child(m.real)
                ctx.check([x.name for x in m.real.parents] == [x.real.name for x in m.parents], "parents", msg)
            else:
                Node().tear_down_child(m.real)
        if q > 1:
            ctx.check(before == [dict(x.real._info) for x in ms], "asking-changed", msg)
        dist.add((q, m.kind, d))
    for x in ms:
        got = {k: v for k, v in x.real._info.items() if k in KEYS}
        ctx.check(got == x.info, "state", lambda: "%s: %r != %r" % (x.real.name, got, x.info))
    ctx.saw('info', n, tuple(sorted(dist, key=str)))


# -- fields made of fields -------------------------------------------------------------------
def derive(rng, f):
    """a field made from f; (what, field)"""
    k = rng.randint(13)
    vec = bool(f.nr_comps)
    if k == 0:
        return 'arith', f * 2.0 + 1.0
    if k == 1:
        return 'slice', f[:2]
    if k == 2:
        return 'keep', f.slice_and_keep("x=0")
    if k == 3 and not vec:
        return 'ufunc', np.abs(f)
    if k == 4 and vec:
        return 'comp', f['xyz'[rng.randint(3)]]
    if k == 5 and vec:
        return 'mag', viscid.magnitude(f)
    if k == 6 and vec:
        return 'layout', f.as_layout([viscid.field.LAYOUT_FLAT, viscid.field.LAYOUT_INTERLACED][rng.randint(2)])
    if k == 7:
        return 'wrap', f.wrap(np.array(f.data) + 1.0)
    if k == 8:
        return 'astype', f.astype('f4')
    if k == 9:
        return 'copy', f.shell_copy(force=True)
    if k == 10:
        return 'loc', f.loc[:1.5]
    if k == 11:
        return 'center', f.as_centered('cell') if not f.iscentered('cell') else f.as_centered('node')
    if k == 12 and not vec:
        return 'transpose', f.T
    return 'neg', -f


def sc_fields(ctx, rng):
    """fields know what their grids, steps and files know"""
    kind = rng.randint(4)
    base = ['2003-04-05T06:07:08', None][rng.randint(2)]
    top_info = dict(run='R%d' % rng.randint(9), alpha=1)
    if base and rng.randint(2):
        top_info['basetime'] = base
        g_info = {}
    else:
        g_info = {'basetime': base} if base else {}
    where = rng.randint(4)
    csys = SYS[rng.randint(4)]
    t = float(rng.randint(0, 9))
    g = Grid(name='g', time=t, **g_info)
    if where == 0:
        top_info['crd_system'] = csys
    elif where == 1:
        g.set_info('crd_system', csys)
    if rng.randint(2):
        g.set_info('alpha', 2)
    f = small_field(rng, 'a', rng.randint(2))
    if where == 2:
        f.set_info('crd_system', csys)
    if rng.randint(3) == 0:
        f.set_info('alpha', 3)
    alpha = 3 if f.has_info('alpha') else 2 if g.has_info('alpha') else 1
    g.set_crds(f.crds)
    g.add_field(f)
    if kind == 0:
        top = Dataset(name='top', **top_info)
        top.add(g)
    elif kind == 1:
        top = DatasetTemporal(name='top', **top_info)
        top.add(g)
    elif kind == 2:
        top = Dataset(name='top', **top_info)
        mid = DatasetTemporal(name='mid')
        mid.add(g)
        top.add(mid)
    else:
        top = DatasetTemporal(name='top', **top_info)
        mid = Dataset(name='mid', time=t)
        mid.add(g)
        top.add(mid)
    h = [lambda: top['a'], lambda: top.get_field('a'), lambda: g['a'], lambda: top.get_grid()['a'],
         lambda: next(iter(top.iter_fields())), lambda: top.field_dict()['a']][rng.randint(6)]()
    chain = []
    msg = lambda: "kind %d, system at %d, via %s" % (kind, where, chain)  # noqa
    want_sys = csys if where < 3 else 'Unknown'.lower()
    for depth in range(int(rng.randint(1, 5))):
        ctx.same(h.find_info('run'), top_info['run'], "fields/run", msg)
        ctx.same(h.find_info('alpha'), alpha, "fields/alpha", msg)
        if where < 3:
            ctx.same(viscid.as_crd_system(h), csys, "fields/crd_system", msg)
            ctx.same(h.find_info('crd_system'), csys, "fields/crd_system", msg)
        else:
            ctx.raises(TypeError, lambda: viscid.as_crd_system(h), "fields/no-system", msg)
            ctx.same(viscid.as_crd_system(h, None), 'Unknown', "fields/no-system", msg)
            ctx.same(viscid.as_crd_system(h, ' GSE'), 'gse', "fields/no-system", msg)
        if base:
            ctx.check(h.basetime == np.datetime64(base), "fields/basetime", msg)
            ctx.same(h.time_as_datetime64(), np.datetime64(base, 'us') + np.timedelta64(
                int(h.time * 1e6), 'us'), "fields/date", msg)
        else:
            ctx.raises(viscid.NoBasetimeError, lambda: h.basetime, "fields/no-basetime", msg)
        # what is learnt of a new field is its own
        try:
            nm, h2 = derive(rng, h)
        except (ValueError, IndexError):
            break
        if not isinstance(h2, viscid.field.Field) or min(h2.shape) < 1 or h2.nr_sdims < 1:
            break
        if h2 is not h and rng.randint(3) == 0:
            h2.set_info('mine%d' % depth, 1)
            ctx.check(not h.has_info('mine%d' % depth) and h.find_info('mine%d' % depth, None) is None,
                      "fields/leak", lambda: "%s %s" % (nm, msg()))
            ctx.check(not f.has_info('mine%d' % depth), "fields/leak", msg)
        chain.append(nm)
        h = h2
    ctx.saw('fields', kind, where, tuple(chain))


# -- transforms that nodes know ---------------------------------------------------------------
class CotrGrid(Grid):
    given = NotImplemented

    @property
    def __cotr__(self):
        return self.given


def sc_cotr(ctx, rng):
    """the transform of a field is that of the nearest node that has one"""
    from viscid.readers.openggcm import GGCMGrid
    t = np.datetime64('1985-01-01T00:00:00') + np.timedelta64(int(rng.randint(10 ** 9)), 's')
    other = t + np.timedelta64(int(rng.randint(10 ** 6, 10 ** 8)), 's')
    f = small_field(rng)
    k = rng.randint(7)
    ref = viscid.Cotr(time=t)
    top = [Dataset, DatasetTemporal][rng.randint(2)](name='top')
    if k == 0:
        g = GGCMGrid(name='g', time=1.0, basetime=t)
    elif k == 1:
        g = GGCMGrid(name='g', time=1.0, basetime=other, dipoletime=t)
    elif k == 2:
        g = CotrGrid(name='g', time=1.0)
        g.given = ref
    elif k == 3:
        # a step that doesn't know, and a file that does
        g = CotrGrid(name='g', time=1.0)
        top.set_info('dipoletime', t)
    elif k == 4 and rng.randint(2):
        g = Grid(name='g', time=1.0)
        g.set_info('dipoletime', t)
    elif k == 4:
        g = [Grid, CotrGrid, GGCMGrid][rng.randint(3)](name='g', time=1.0)
        g.set_info('cotr', ref)
    elif k == 5:
        g = Grid(name='g', time=1.0)
        f.set_info('cotr', ref)
        top.set_info('cotr', viscid.Cotr(time=other))
    else:
        g = [Grid, CotrGrid, GGCMGrid][rng.randint(3)](name='g', time=1.0)
        ref = None
    if isinstance(g, GGCMGrid):
        # no file, no log
        g.set_info('_viscid_log_fname', False)
    g.set_crds(f.crds)
    g.add_field(f)
    top.add(g)
    h = g['a']
    if rng.randint(2):
        h = h * 2.0
    things = [h] if k == 5 else [h, g] + ([top] if k == 3 else [])
    for th in things:
        msg = lambda: "case %d of %s" % (k, type(th).__name__)  # noqa
        if ref is None:
            ctx.raises(TypeError, lambda: viscid.as_cotr(th), "cotr/none", msg)
            d = viscid.as_cotr(th, default=other)
            w = viscid.Cotr(time=other)
        else:
            d = viscid.as_cotr(th) if rng.randint(2) else viscid.as_cotr(th, default=other)
            w = ref
        ctx.check(isinstance(d, viscid.Cotr), "cotr/type", lambda: "%r %s" % (d, msg()))
        a = ['gse', 'gsm', 'sm', 'geo'][rng.randint(4)]
        b = ['gei', 'mag', 'gsm', 'mhd'][rng.randint(4)]
        ctx.close(d.get_transform_matrix(a, b), w.get_transform_matrix(a, b), "cotr/matrix",
                  atol=1e-12, rtol=0, msg=msg)
    ctx.saw('cotr', k, type(g).__name__)


# -- names and children ------------------------------------------------------------------------
def sc_names(ctx, rng):
    """children and fields by name"""
    names = ['g%d' % i for i in range(5)]
    ds = Dataset(name='top')
    model = []          # [name, {field: value}, object]
    active = [None]
    calls = []

    def mk(name):
        g = Grid(name=name, time=0.0)
        fl = {}
        for nm in ['a', 'b', 'c']:
            if rng.randint(3):
                v = float(rng.randint(1, 1000))
                fl[nm] = v
                crds = viscid.arrays2crds([np.arange(3.0)])
                g.add_field(viscid.wrap_field(np.full(3, v), crds, name=nm))
        return g, fl

    def add():
        nm = names[rng.randint(5)]
        g, fl = mk(nm)
        for it in [it for it in model if it[0] == nm]:
            if it is active[0]:
                return
            del ds[nm]
            model.remove(it)
        r = rng.randint(3)
        act = bool(rng.randint(4))
        if r == 0:
            ds.add(g, set_active=act)
        elif r == 1 and act:
            g2 = g
            g2.name = "else"
            ds[nm] = g2
            ctx.same(g2.name, nm, "names/setitem")
        else:
            def cb(x, y=None):
                calls.append(nm)
                return y if y is not None else x
            if rng.randint(2):
                ds.add_deferred(nm, cb, callback_args=(g,), set_active=act)
            else:
                ds.add_deferred(nm, cb, callback_args=(None,), callback_kwargs=dict(y=g), set_active=act)
        it = [nm, fl, g]
        model.append(it)
        if act:
            active[0] = it
        elif active[0] is not None and active[0] not in model:
            pass

    def val(fld):
        return float(np.asarray(fld.data)[1])

    for step in range(int(rng.randint(4, 14))):
        q = rng.randint(8)
        msg = lambda: "step %d op %d model %s active %s" % (  # noqa
            step, q, [(m[0], m[1]) for m in model], active[0] and active[0][0])
        if q < 3 or not model:
            add()
        elif q == 3:
            it = model[rng.randint(len(model))]
            ds.activate(it[0])
            active[0] = it
        elif q == 4 and len(model) > 1:
            it = model[rng.randint(len(model))]
            if it is active[0]:
                continue
            del ds[it[0]]
            model.remove(it)
            ctx.raises(KeyError, lambda: ds.get_child(it[0]), "names/deleted", msg)
        elif q == 5:
            it = model[rng.randint(len(model))]
            ctx.check(ds[it[0]] is it[2] and ds.get_child(it[0]) is it[2], "names/child", msg)
        elif q == 6:
            ds.clear_cache()
        ctx.same(len(ds), len(model), "names/len", msg)
        got = [c.name for c in ds]
        ctx.check(sorted(got) == sorted(m[0] for m in model), "names/iter",
                  lambda: "%s %s" % (got, msg()))
        for nm in names:
            ctx.check((nm in ds) == any(m[0] == nm for m in model), "names/contains", msg)
        if active[0] is None:
            continue
        fl = active[0][1]
        for nm in ['a', 'b', 'c']:
            ctx.check((nm in ds) == (nm in fl), "names/field-in", lambda: "%s %s" % (nm, msg()))
            if nm in fl:
                how = rng.randint(4)
                f = [lambda: ds[nm], lambda: ds.get_field(nm), lambda: ds.get_grid()[nm],
                     lambda: ds.get_field(nm, slc=Ellipsis)][how]()
                ctx.same(val(f), fl[nm], "names/field", msg)
            else:
                ctx.raises(KeyError, lambda: ds[nm], "names/no-field", msg)
                ctx.raises(KeyError, lambda: ds.get_field(nm), "names/no-field", msg)
        ctx.check(dict((f.name, val(f)) for f in ds.iter_fields()) == fl, "names/iter_fields", msg)
        ctx.check(dict((n, val(f)) for n, f in ds.iter_field_items()) == fl, "names/items", msg)
        fd = ds.field_dict()
        ctx.check(dict((n, val(f)) for n, f in fd.items()) == fl, "names/dict", msg)
        some = [n for n in ['c', 'a', 'b'] if n in fl and rng.randint(2)]
        ctx.check([f.name for f in ds.iter_fields(fld_names=some)] == some, "names/some", msg)
        ctx.check([n for n in ds.field_dict(fld_names=some)] == some, "names/some", msg)
        ctx.saw('names', q, len(model), len(fl), len(some))
    if rng.randint(3) == 0:
        ds.remove_all_items()
        ctx.same(len(ds), 0, "names/emptied")
        ctx.check(not any(m[0] in ds for m in model), "names/emptied")


# -- grids ---------------------------------------------------------------------------------------
def which_one(nm):
    return nm in ('a', 'x', 'long name')


def sc_grid(ctx, rng):
    """fields and coordinates of a grid"""
    nd = int(rng.randint(1, 4))
    sh = [int(v) for v in rng.randint(2, 6, size=nd)]
    nc = [gen.rand_nc(rng, s, ['uniform', 'stretched'][rng.randint(2)]) for s in sh]
    axes = ["xyz", "tpr", "uvw"][rng.randint(3)][:nd]
    crds = viscid.arrays2crds(nc, crd_names=axes)
    g = Grid(name='g', time=0.0)
    set_first = rng.randint(3)
    if set_first == 0:
        g.set_crds(crds)
    model = {}
    order = []
    msg = lambda: "%s %s model %s" % (axes, sh, order)  # noqa
    lay = [viscid.field.LAYOUT_DEFAULT, viscid.field.LAYOUT_FLAT, viscid.field.LAYOUT_INTERLACED][rng.randint(3)]
    g.force_vector_layout = lay
    longterm = bool(rng.randint(2))
    g.longterm_field_caches = longterm

    def add():
        nm = ['a', 'b', 'x', 'long name', 'c'][rng.randint(5)]
        if nm in model:
            del g[nm]
            order.remove(nm)
        center = ['node', 'cell'][rng.randint(2)] if min(sh) > 1 else 'node'
        vec = rng.randint(3) == 0
        fsh = [s - (center == 'cell') for s in sh]
        arr = rng.standard_normal(fsh + ([3] if vec else []))
        kw = dict(fldtype='vector', layout='interlaced') if vec else {}
        f = viscid.wrap_field(arr.copy(), crds, name=nm, center=center, **kw)
        if rng.randint(2):
            g.add_field(f)
        else:
            f.name = nm
            g[nm] = f
        model[nm] = (arr, center, vec)
        order.append(nm)

    for step in range(int(rng.randint(3, 10))):
        q = rng.randint(6)
        if q < 3 or not model:
            add()
        elif q == 3 and len(model) > 1:
            nm = order[rng.randint(len(order))]
            f = g._fields[nm]
            del g[nm]
            del model[nm]
            order.remove(nm)
            ctx.check(g not in f.parents, "grid/deleted", msg)
        elif q == 4:
            g.clear_cache()
        ctx.same(len(g), len(model), "grid/len", msg)
        ctx.check(sorted(g.field_names) == sorted(order), "grid/names", lambda: "%s %s" % (g.field_names, msg()))
        for nm in ['a', 'b', 'x', 'long name', 'c', 'nope']:
            ctx.check((nm in g) == (nm in model), "grid/contains", msg)
            if nm in model:
                arr, center, vec = model[nm]
                with g[nm] as f:
                    ctx.check(f.iscentered(center) and bool(f.nr_comps) == vec and f.name == nm, "grid/kind", msg)
                    ctx.same(gen.canon(f), arr, "grid/values", msg)
                    if vec and lay != viscid.field.LAYOUT_DEFAULT:
                        ctx.same(f.layout, lay, "grid/layout", msg)
                f = g.get_field(nm, slc=Ellipsis)
                ctx.same(gen.canon(f), arr, "grid/values", msg)
                i = int(rng.randint(arr.shape[0]))
                ax = axes[0]
                s = g.get_field(nm, slc="%s=%d" % (ax, i))
                one = not isinstance(s, viscid.field.Field)
                ctx.same(np.ravel(s) if one else gen.canon(s), arr[i:i + 1].reshape(-1) if one else arr[i:i + 1],
                         "grid/slc", msg)
            elif nm in axes and (model or set_first == 0):
                ctx.check(nm not in g, "grid/contains", msg)
        ctx.raises(KeyError, lambda: g['nope'], "grid/missing", msg)
        ctx.raises(KeyError, lambda: g.get_field('nope'), "grid/missing", msg)
        got = dict((f.name, gen.canon(f)) for f in g.iter_fields())
        ctx.check(sorted(got) == sorted(order) and all(np.array_equal(got[k], model[k][0]) for k in got),
                  "grid/iter", msg)
        ctx.check(sorted(g.field_dict()) == sorted(order), "grid/dict", msg)
        ctx.saw('grid', q, len(model), nd, longterm, str(lay))
    # coordinates of the grid are those of its fields
    if set_first == 1:
        g.set_crds(crds)
    c = g.crds
    for i, ax in enumerate(axes):
        w = nc[i]
        wc = 0.5 * (w[1:] + w[:-1])
        ctx.close(np.asarray(c.get_nc(ax)).reshape(-1), w, "grid/crds", rtol=1e-12, atol=1e-12 * np.max(np.abs(w)))
        ctx.close(g.get_crd_nc(ax), w, "grid/nc", rtol=1e-12, atol=1e-12 * np.max(np.abs(w)), msg=msg)
        ctx.close(g.get_crd_cc(i), wc, "grid/cc", rtol=1e-12, atol=1e-12 * np.max(np.abs(w)), msg=msg)
        ctx.same(g.get_crd_nc(i, shaped=True).shape, tuple(sh[i] if j == i else 1 for j in range(nd)), "grid/shaped", msg)
        ctx.close(np.asarray(g.get_crds_nc()[i]), w, "grid/ncs", rtol=1e-12, atol=1e-12 * np.max(np.abs(w)))
        ctx.close(np.asarray(g.get_crds_cc()[i]), wc, "grid/ccs", rtol=1e-12, atol=1e-12 * np.max(np.abs(w)))
        if ax not in model:
            ctx.close(np.asarray(g[ax]), w, "grid/crd-item", rtol=1e-12, atol=1e-12 * np.max(np.abs(w)), msg=msg)
    ctx.close(np.asarray(g.xl_nc), [w[0] for w in nc], "grid/xl", rtol=1e-12, atol=1e-12)
    ctx.close(np.asarray(g.xh_nc), [w[-1] for w in nc], "grid/xh", rtol=1e-12, atol=1e-12)
    ctx.close(np.asarray(g.xl_cc), [0.5 * (w[0] + w[1]) for w in nc], "grid/xl", rtol=1e-12, atol=1e-12)
    ctx.close(np.asarray(g.xh_cc), [0.5 * (w[-1] + w[-2]) for w in nc], "grid/xh", rtol=1e-12, atol=1e-12)
    # coordinates are flat unless asked otherwise, whichever way
    for fn in ('nc', 'cc', 'ec', 'fc'):
        try:
            one = getattr(g, 'get_crd_' + fn)(axes[0])
            many = getattr(g, 'get_crds_' + fn)()
        except Exception as e:
            ctx.check(fn in ('ec', 'fc') and nd != 3, "grid/crds-" + fn, lambda: "%r %s" % (e, msg()))
            continue
        if fn in ('nc', 'cc'):
            ctx.check(np.ndim(one) == 1 and all(np.ndim(m) == 1 for m in many), "grid/flat", msg)
            ctx.check(np.shape(getattr(g, 'get_crds_' + fn)(shaped=True)[-1])[:-1] == (1,) * (nd - 1),
                      "grid/shaped", msg)
    # data that's read through a grid only stays in memory if that's asked for
    several = [nm for nm in order if model[nm][0].size > 3]
    if several:
        nm = several[rng.randint(len(several))]
        g.clear_cache()
        force = bool(rng.randint(2))
        f = g.get_field(nm, force_longterm_caches=True) if force else g.get_field(nm)
        ctx.same(gen.canon(f), model[nm][0], "grid/values", msg)
        ctx.check(bool(g._fields[nm].is_loaded) == (force or longterm), "grid/kept-in-memory", msg)
        f2 = g.get_field(nm)
        ctx.check((f2 is f) == (force or longterm), "grid/kept-in-memory", msg)
        ctx.same(gen.canon(f2), model[nm][0], "grid/values", msg)
        # readers derive fields and process what they read
        vec = model[nm][2]
        calls = []

        class Reader(Grid):
            def _get_made(self):
                calls.append('get')
                return 2.0 * self[nm]

            def _processALL(self, fld):
                calls.append('all')
                return fld.wrap(np.asarray(fld.data) + 1.0) if which & 1 else fld

        if which_one(nm):
            setattr(Reader, '_process_' + nm, lambda self, fld: fld.wrap(np.asarray(fld.data) * 3.0))
        which = int(rng.randint(2))
        r = Reader(name='r', time=0.0)
        r.set_crds(crds)
        r.add_field(viscid.wrap_field(model[nm][0].copy(), crds, name=nm, center=model[nm][1],
                                      **(dict(fldtype='vector', layout='interlaced') if vec else {})))
        want = model[nm][0] * 3.0 if which_one(nm) else model[nm][0]
        want = want + which
        ctx.close(gen.canon(r[nm]), want, "grid/processed", rtol=1e-14, atol=1e-14, msg=msg)
        ctx.close(gen.canon(r['made']), 2 * want + which, "grid/derived", rtol=1e-14, atol=1e-14, msg=msg)
        ctx.close(gen.canon(r[nm]), want, "grid/processed-once", rtol=1e-14, atol=1e-14, msg=msg)
        ctx.check('made' not in r and len(r) == 1, "grid/derived-kept", msg)
        i = int(rng.randint(model[nm][0].shape[0]))
        s = r.get_field(nm, slc="%s=%d" % (axes[0], i))
        s = np.ravel(s.data if isinstance(s, viscid.field.Field) and not vec else
                     gen.canon(s) if isinstance(s, viscid.field.Field) else s)
        ctx.close(s, want[i].reshape(-1), "grid/processed-slice", rtol=1e-14, atol=1e-14, msg=msg)
        ctx.check(calls.count('get') == 1 and calls.count('all') >= 4, "grid/hooks", lambda: repr(calls))
    if rng.randint(3) == 0:
        fs = [g._fields[nm] for nm in order]
        g.remove_all_items()
        ctx.check(len(g) == 0 and not any(nm in g for nm in order), "grid/emptied", msg)
        ctx.check(not any(g in f.parents for f in fs), "grid/emptied", msg)


SCENARIOS = [
    Scenario("info", sc_info, quick=1500, thorough=60000, need=300),
    Scenario("fields", sc_fields, quick=800, thorough=20000, need=200),
    Scenario("cotr", sc_cotr, quick=300, thorough=6000, need=10),
    Scenario("names", sc_names, quick=600, thorough=15000, need=100),
    Scenario("grid", sc_grid, quick=400, thorough=10000, need=50),
]

"""F03: forward-only reads reproduce any slice of a reversed dataset"""
import numpy as np

from vmon.core import Scenario
from vmon import gen, xfiles
from f01_index import rand_slice, rand_sel
from f02_values import rand_value_sel

PID = "F03"
TECHNIQUE = "runtime monitoring: recorded forward reads and lazily read fields against in-memory numpy"
RULE = ("(a) random shapes, reversals and selections given to the forward "
        "slice computation, the first selection is checked to be one an HDF5 "
        "store accepts and both together to give numpy's result; exhaustive "
        "over all slices of short axes; (b) fields in real HDF5/XDMF files "
        "(with and without the simulation-frame reflection, vectors in either "
        "storage order, either centering) selected from disk without loading, "
        "selected again after loading, both against the arrays written")
ASSUMPTIONS = ["single machine, h5py 3.10"]


class Recorder(object):
    """an array that accepts only what a forward-only store accepts"""
    def __init__(self, ctx, arr):
        self.ctx, self.arr = ctx, arr

    def __getitem__(self, sel):
        sel = sel if isinstance(sel, tuple) else (sel,)
        for s, n in zip(sel, self.arr.shape):
            if isinstance(s, slice):
                ok = ((s.step is None or s.step > 0) and
                      (s.start is None or 0 <= s.start <= n) and
                      (s.stop is None or 0 <= s.stop <= n))
            else:
                ok = isinstance(s, (int, np.integer)) and 0 <= s < n
            self.ctx.check(ok, "fwd/not-forward", lambda: "%r of %r" % (sel, self.arr.shape))
        return self.arr[sel]


def check_fwd(ctx, shape, slices, rev, as_scalar=False):
    from viscid import sliceutil
    arr = np.arange(1, int(np.prod(shape)) + 1).reshape(shape)
    flipped = arr[tuple(slice(None, None, -1) if r else slice(None) for r in rev)]
    want = flipped[tuple(slices)]
    args = [list(shape), list(slices), list(rev)]
    if as_scalar:
        args = [shape[0], slices[0], rev[0]]
    first, second = sliceutil.make_fwd_slice(*args)
    got = Recorder(ctx, arr)[tuple(first)]
    if np.ndim(got):
        got = got[tuple(second)]
    ctx.same(got, want, "fwd/values", lambda: repr((shape, slices, rev, first, second)))


def sc_fwd(ctx, rng):
    for rep in range(15):
        nd = int(rng.randint(1, 5))
        shape = [int(rng.randint(1, 8)) for _ in range(nd)]
        rev = [bool(rng.randint(2)) for _ in range(nd)]
        slices = []
        for n in shape[:int(rng.randint(1, nd + 1))]:
            if rng.randint(4) == 0:
                slices.append(int(rng.randint(-n, n)))
            else:
                slices.append(rand_slice(rng, n))
        pos = [i for i in range(len(slices) + 1)]
        sl = list(slices)
        nnew = 0
        if rng.randint(6) == 0:
            # new axes keep the reversal with its axis
            i = int(rng.choice(pos))
            sl.insert(i, None)
            rv = list(rev)
            rv.insert(i, False)
            from viscid import sliceutil
            arr = np.arange(int(np.prod(shape))).reshape(shape)
            flipped = arr[tuple(slice(None, None, -1) if r else slice(None) for r in rev)]
            want = flipped[tuple(sl)]
            first, second = sliceutil.make_fwd_slice(list(shape), sl, rv)
            got = Recorder(ctx, arr)[tuple(first)][tuple(second)] if np.ndim(want) > 0 else want
            ctx.same(got, want, "fwd/newaxis", lambda: repr((shape, sl, rv, first, second)))
            nnew = 1
        else:
            check_fwd(ctx, shape, sl, rev)
        ctx.saw(tuple(shape), tuple(rev), repr(sl), nnew)


def sc_exhaustive(ctx, rng):
    """all slices of one axis"""
    n = 1 + ctx.index % 7
    vals = [None] + list(range(-n - 2, n + 3))
    for start in vals:
        for stop in vals:
            for step in [None, 1, 2, 3, n, n + 2, -1, -2, -3, -n, -n - 1]:
                if step == 0:
                    continue
                for rev in (False, True):
                    check_fwd(ctx, [n], [slice(start, stop, step)], [rev],
                              as_scalar=bool((hash((start, stop)) & 1)))
    for i in range(-n, n):
        for rev in (False, True):
            check_fwd(ctx, [n], [i], [rev])
    ctx.count("exhaustive_axis_len_%d" % n)
    ctx.saw(n)


def make_files(ctx, rng, d, ggcm):
    """returns (file name, nodes, {name: (vals, center, factor)})"""
    shape_cc = [int(rng.randint(1, 6)) for _ in range(3)]
    nodes = []
    for n in shape_cc:
        dt = ['f8', 'f4'][rng.randint(2)]
        nodes.append(gen.rand_nc(rng, n + 1, ['uniform', 'stretched', 'dyadic'][rng.randint(3)],
                                 dtype=dt))
    fields, model = [], {}
    dt = ['f8', 'f4', 'f8'][rng.randint(3)]
    names = ['rr', 'bx', 'by', 'bz', 'vx', 'vy', 'vz', 'pp']
    for i, nm in enumerate(names):
        center = 'cell'
        if nm in ('rr', 'pp'):
            center = ['cell', 'node'][rng.randint(2)]
        sh = [n + (center == 'node') for n in shape_cc]
        v = gen.rand_vals(rng, sh, dt)
        fields.append((nm, v, center, None))
        model[nm] = (v, center)
    for nm, disk in (('w', 'inter'), ('u', 'flat')):
        center = ['cell', 'node'][rng.randint(2)]
        sh = [n + (center == 'node') for n in shape_cc] + [3]
        # shapes that do not tell the storage order are not in the format
        if sh[0] == 3 or sh[2] == 3 or min(sh[:3]) == 1:
            continue
        v = gen.rand_vals(rng, sh, dt)
        fields.append((nm, v, center, disk))
        model[nm] = (v, center)
    base = "run.3d.000001" if ggcm else "plain"
    fn = xfiles.write_xdmf(d, base, nodes, fields, time=float(rng.randint(0, 100)),
                           big_endian=bool(rng.randint(3) == 0))
    return fn, nodes, model


def sc_lazy(ctx, rng):
    import viscid
    from viscid.readers import openggcm
    ggcm = bool(rng.randint(2))
    force = ggcm and bool(rng.randint(4))
    layout = ['none', 'flat', 'interlaced'][rng.randint(3)]
    with xfiles.scratch() as d:
        fn, nodes, model = make_files(ctx, rng, d, ggcm)
        kw = {}
        if ggcm:
            class G(openggcm.GGCMGrid):
                mhd_to_gse_on_read = 'force' if force else False
                copy_on_transform = bool(rng.randint(2))
                force_vector_layout = layout
            openggcm.GGCMFile._already_warned_about_logfile = True
            kw['grid_type'] = G
        ctx.note(ggcm=ggcm, force=force, layout=layout,
                 shapes={k: v[0].shape for k, v in model.items()})
        f = viscid.load_file(fn, **kw)
        grid = f.get_grid()
        ax_nodes = [np.array(n) for n in nodes]
        if force:
            ax_nodes[0] = -ax_nodes[0][::-1]
            ax_nodes[1] = -ax_nodes[1][::-1]
        want = {}
        for nm, (v, center) in model.items():
            v = v.copy()
            if force:
                v = v[::-1, ::-1]
                if v.ndim == 4:
                    v = v * np.array([-1, -1, 1], dtype=v.dtype)
                elif nm in ('bx', 'by', 'vx', 'vy'):
                    v = -v
            want[nm] = (v, center)
        if ggcm:
            for nm in 'bv':
                want[nm] = (np.stack([want[nm + c][0] for c in 'xyz'], axis=-1), 'cell')
        keys = sorted(want)
        for rep in range(8):
            nm = keys[rng.randint(len(keys))]
            v, center = want[nm]
            m = gen.Model(v, [gen.Axis(a, n) for a, n in zip('xyz', ax_nodes)], center,
                          3 if v.ndim == 4 else 0)
            lazy = grid[nm]
            own = [np.array(c) for c in lazy.get_crds()]
            sels, idx = [], []
            arr = False
            for c, a in zip(own, m.axes):
                n = len(c)
                r = rng.randint(5)
                if r == 0:
                    s, i = slice(None), np.arange(n)
                elif r == 1 and not arr:
                    s, k = rand_sel(rng, n, True)
                    arr = k in ('array', 'mask')
                    i = np.arange(n)[np.asarray(s)] if arr else np.arange(n)[s]
                elif r == 2:
                    s, i, k = rand_value_sel(rng, a.name, c.astype('f8'))
                    if 'array' in k or 'list' in k:
                        s, i = slice(None), np.arange(n)
                else:
                    s = rand_slice(rng, n)
                    i = np.arange(n)[s]
                sels.append(s)
                idx.append(i)
            comp = int(rng.randint(3)) if m.ncomp and rng.randint(2) else None
            sel = list(sels)
            if comp is not None:
                sel.insert(int(rng.randint(4)), 'xyz'[comp])
            sel = tuple(sel)
            vals, axes = m.vals, []
            for ax in (2, 1, 0):
                vals = np.take(vals, idx[ax], axis=ax)
                if np.ndim(idx[ax]):
                    a = gen.Axis('xyz'[ax], own[ax], own[ax])
                    axes.insert(0, gen.Axis('xyz'[ax], np.append(own[ax][idx[ax]], 0),
                                            own[ax][idx[ax]]))
                    if center == 'node':
                        axes[0].nc = own[ax][idx[ax]]
            ncomp = m.ncomp
            if comp is not None:
                vals, ncomp = vals[..., comp], 0
            cscale = max(np.max(np.abs(n)) for n in ax_nodes)
            w = gen.Model(vals, axes, center, ncomp)
            msg = lambda: repr(dict(name=nm, sel=sel, ggcm=ggcm, force=force, layout=layout,  # noqa
                                    shape=v.shape, center=center))

            def compare(got, key):
                if w.vals.size == 1 and not hasattr(got, 'crds'):
                    ctx.same(got, w.vals.reshape(()), key + "/number", msg)
                else:
                    gen.check_field(ctx, got, w, key, msg=msg, scale=cscale)
            lazy.clear_cache()
            ctx.note(name=nm, sel=repr(sel), shape=v.shape, center=center)
            got = lazy[sel]
            compare(got, "lazy" + ("/gse" if force else ""))
            if not lazy.is_loaded:
                ctx.count("selected_without_loading")
            # as many times as one likes
            if rng.randint(2):
                compare(lazy[sel], "lazy-again")
            gen.check_field(ctx, lazy, m, "full", msg=msg)
            ctx.check(lazy.is_loaded, "loaded", msg)
            compare(lazy[sel], "loaded" + ("/gse" if force else ""))
            lazy.clear_cache()
            gen.check_field(ctx, lazy, m, "full-after-clear", msg=msg)
            ctx.saw(nm, ggcm, force, layout, tuple(type(s).__name__ for s in sels), comp,
                    w.vals.size > 0)
        viscid.unload_all_files()


SCENARIOS = [
    Scenario("fwd", sc_fwd, quick=4000, thorough=100000),
    Scenario("exhaustive", sc_exhaustive, quick=7, thorough=7),
    Scenario("lazy", sc_lazy, quick=500, thorough=12000),
]

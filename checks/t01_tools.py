"""T01 tools that work through files use exactly the items selected"""
from __future__ import print_function
import contextlib
import fnmatch
import io
import os
import runpy
import sys

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext, xfiles
import viscid

PID = "T01"
TECHNIQUE = ("runtime monitoring: file patterns, paths, comparisons, "
             "conversions and series are run on random trees of files, nested "
             "mappings and data sets made from known arrays; what was selected, "
             "called back, plotted, printed and written is recorded and judged "
             "by a brute-force model of the selection")
RULE = ("random names with numbers in hostile directories selected by pattern "
        "and slice; random nested mappings searched by glob paths; pairs of "
        "files that differ in known fields; block decompositions of known "
        "arrays; data sets of 1-6 steps run through the plot drivers with 1-3 "
        "processes; an execution counts when its selection was compared")
ASSUMPTIONS = [
    "numbers in file names are distinct",
    "the command line tools are run inside of the monitoring process",
]
REPO = os.environ.get("VERIF_REPO", "/repo")
_SER = [0]


def setup():
    ext.ensure()
    viscid.logger.setLevel(60)
    from viscid.plot import vpyplot  # noqa


def serial():
    _SER[0] += 1
    return "%d_%d" % (os.getpid(), _SER[0])


# ------------------------------------------------------------------ globs
WORDS = ["a", "run", "x.y", "t+1", "d(2)", "b c", "$x", "v-1", "n_{3}", "^q", "aTSLICEb", "m|n", "0j"]


def word(rng):
    return WORDS[rng.randint(len(WORDS))]


def slice_text(rng, ts):
    """-> (text between the brackets, list of the numbers that are selected,
    ordered)"""
    n = len(ts)
    ts = sorted(ts)
    kind = rng.randint(5)
    if kind == 0:
        i = int(rng.randint(-n, n))
        return "%d" % i, [ts[i]]
    if kind == 1:
        t = ts[rng.randint(n)]
        return "%s%s" % (num(rng, t), "jf"[rng.randint(2)]), [t]
    step = [None, None, 1, 2, 3, -1, -2][rng.randint(7)]
    stx = "" if step is None else ":%d" % step
    if kind == 2 or (step is not None and step < 0):
        lim = [None if rng.randint(3) == 0 else int(rng.randint(-n - 2, n + 3)) for _ in range(2)]
        txt = "%s:%s%s" % tuple(["" if v is None else str(v) for v in lim] + [stx])
        return txt, ts[slice(lim[0], lim[1], step)]
    lo, hi = [None if rng.randint(4) == 0 else float(rng.uniform(ts[0] - 3, ts[-1] + 3)) for _ in range(2)]
    pick = lambda: ts[rng.randint(n)]  # noqa
    if lo is not None:
        lo = pick() if rng.randint(2) else round(lo) + 0.5
    if hi is not None:
        hi = pick() if rng.randint(2) else round(hi) + 0.5
    sfx = "jf"[rng.randint(2)]
    txt = "%s:%s%s" % ("" if lo is None else num(rng, lo) + sfx,
                       "" if hi is None else num(rng, hi) + sfx, stx)
    sel = [t for t in ts if (lo is None or t >= lo) and (hi is None or t <= hi)]
    return txt, sel[::step or 1]


def num(rng, v):
    if v == int(v) and rng.randint(2):
        return "%d" % v
    return "%.1f" % v if rng.randint(2) else "%.3f" % v


def sc_globs(ctx, rng):
    with xfiles.scratch() as top:
        d = top
        for _ in range(rng.randint(3)):
            d = os.path.join(d, word(rng))
        os.makedirs(d, exist_ok=True)
        pre, suf = word(rng), word(rng)
        n = int(rng.randint(1, 9))
        ts = sorted(set(int(v) for v in rng.randint(0, [12, 120, 5000][rng.randint(3)], size=n)))
        width = int(rng.randint(1, 6))
        sep = "._"[rng.randint(2)]
        names = {}
        for t in ts:
            fn = os.path.join(d, "%s%s%s%s%s" % (pre, sep, str(t).zfill(width), sep, suf))
            names[t] = fn
        decoys = [pre + sep + "junk" + sep + suf, pre + sep + "12x" + sep + suf,
                  pre + sep + "7" + sep + suf + "x", "y" + pre + sep + "8" + sep + suf]
        decoys = [os.path.join(d, v) for v in decoys if rng.randint(2)]
        for fn in list(names.values()) + decoys:
            open(fn, "w").close()
        txt, want = slice_text(rng, ts)
        head = pre
        if rng.randint(3) == 0:
            head = pre[:-1] + "?"       # another wildcard in front
        tail = suf
        extra_tail = False
        if rng.randint(4) == 0:
            tail = suf[:-1] + "*"       # matches suf + 'x', too
            extra_tail = any(v.endswith("x") and sep + "7" + sep in v for v in decoys)
        pat = os.path.join(d, "%s%s[%s]%s%s" % (head, sep, txt, sep, tail))
        if extra_tail:
            raise Skip("decoy matches")
        msg = lambda: "%r of %s (%s)" % (pat, ts, [os.path.basename(v) for v in decoys])  # noqa
        got = viscid.slice_globbed_filenames(pat)
        exp = [names[t] for t in want]
        if ":-" in txt and txt.count(":") == 2 and txt.rsplit(":", 1)[1].startswith("-"):
            ctx.check(sorted(got) == sorted(exp), "globs/backward", lambda: "%s != %s %s" % (got, exp, msg()))
        else:
            ctx.check(list(got) == exp, "globs/slice", lambda: "%s != %s %s" % (got, exp, msg()))
        ctx.check(list(viscid.glob2(pat)) == list(got), "globs/glob2", msg)
        # no slice
        pat = os.path.join(d, pre + "*" + suf)
        want = [fn for fn in list(names.values()) + decoys
                if os.path.basename(fn).startswith(pre) and fn.endswith(suf)]
        got = viscid.slice_globbed_filenames(pat)
        ctx.check(sorted(got) == sorted(want), "globs/plain", lambda: "%s != %s %s" % (got, want, pat))
        none = os.path.join(d, "zz" + sep + "[:3]" + sep + suf)
        ctx.check(list(viscid.glob2(none)) == [], "globs/none", lambda: none)
        ctx.raises(IOError, lambda: viscid.slice_globbed_filenames(none), "globs/none-error", lambda: none)
        if rng.randint(4) == 0:
            pat = os.path.join(d, "%s%s[%s]%s%s" % (pre, sep, txt, sep, suf))
            out = run_script("fnslice", [pat])[1]
            ctx.check(out.rstrip("\n") == " ".join(viscid.slice_globbed_filenames(pat)), "globs/script",
                      lambda: "%r %s" % (out, msg()))
        ctx.saw('globs', len(ts), txt.count(":"), "j" in txt or "f" in txt, head == pre, tail == suf)


# ------------------------------------------------------------------ paths
KEYS = ["a", "b", "ab", "abc", "x1", "x2", "x10", "y", "[z]", "q?"]


def rand_tree(rng, depth):
    d = {}
    for k in rng.permutation(KEYS)[:rng.randint(0 if depth < 3 else 1, 6)]:
        if depth > 0 and rng.randint(3):
            d[str(k)] = rand_tree(rng, depth - 1)
        else:
            d[str(k)] = [int(rng.randint(1000)), "str", [1, 2], np.arange(3), None, 1.5][rng.randint(6)]
    return d


def model_find(d, parts):
    """all (value, path): a key of exactly that name goes first, else all that
    the pattern matches"""
    if not parts:
        return [(d, [])]
    if not isinstance(d, dict):
        return []
    if parts[0] in d:
        ks = [parts[0]]
    else:
        ks = [k for k in d if fnmatch.fnmatchcase(k, parts[0])]
    return [(v, [k] + p) for k in ks for v, p in model_find(d[k], parts[1:])]


def sc_paths(ctx, rng):
    tree = rand_tree(rng, 3)
    for _ in range(6):
        # walk down a real path and blur it
        parts, d = [], tree
        while isinstance(d, dict) and d:
            k = list(d)[rng.randint(len(d))]
            parts.append(k)
            d = d[k]
            if rng.randint(4) == 0:
                break
        if not parts:
            raise Skip("empty tree")
        pat = []
        for p in parts:
            r = rng.randint(6)
            pat.append(p if r < 2 else "*" if r == 2 else p[:1] + "*" if r == 3 else "?" * len(p) if r == 4 else
                       ["zz", "x[12]", "[ab]", "[!x]*"][rng.randint(4)])
        if rng.randint(5) == 0:
            pat.append(["*", "a"][rng.randint(2)])
        loc = "/".join(pat)
        if loc in tree:
            want = [(tree[loc], [loc])]
        else:
            want = model_find(tree, pat)
        msg = lambda: "%r in %r: %s" % (loc, tree, ["/".join(p) for _, p in want])  # noqa
        given = ("/" + loc) if rng.randint(4) == 0 and "/" in loc else loc
        if not want:
            ctx.raises(KeyError, lambda: viscid.resolve_path(tree, given), "paths/missing", msg)
            ctx.raises(KeyError, lambda: viscid.find_item(tree, given), "paths/missing-first", msg)
        else:
            vals, paths = viscid.resolve_path(tree, given)
            got = sorted(p.strip("/") for p in paths)
            ctx.check(got == sorted("/".join(p) for _, p in want), "paths/paths", lambda: "%s %s" % (got, msg()))
            by = {"/".join(p): v for v, p in want}
            ctx.check(all(by.get(p.strip("/")) is v for v, p in zip(vals, paths)), "paths/values", msg)
            its = viscid.find_items(tree, given)
            ctx.check(len(its) == len(vals) and all(x is y for x, y in zip(its, vals)), "paths/items", msg)
            try:
                v, p = viscid.resolve_path(tree, given, first=True)
                ok = p.strip("/") in by and by[p.strip("/")] is v
                ctx.check(ok, "paths/first", lambda: "%r %s" % (p, msg()))
                v2 = viscid.find_item(tree, given)
                ctx.check(v2 is v, "paths/first-item", msg)
            except KeyError:
                ctx.violate("paths/first-missed", "no match reported for %s" % msg())
        ctx.saw('paths', len(pat), min(len(want), 4), "/" in loc)


# ------------------------------------------------------------------ scripts
def run_script(name, argv):
    """-> (exit value, text on stdout)"""
    old = sys.argv
    lvl = viscid.logger.level
    out = io.StringIO()
    rc = 0
    sys.argv = [name] + list(argv)
    try:
        with contextlib.redirect_stdout(out):
            with contextlib.redirect_stderr(io.StringIO()):
                runpy.run_path(os.path.join(REPO, "scripts", name), run_name="__main__")
    except SystemExit as e:
        rc = e.code or 0
    finally:
        sys.argv = old
        viscid.logger.setLevel(lvl)
    return rc, out.getvalue()


def axis(rng, n):
    return np.cumsum(rng.uniform(0.5, 1.5, size=n)) - 2.0


def sc_diff(ctx, rng):
    with xfiles.scratch() as d:
        sh = [int(v) for v in rng.randint(2, 5, size=3)]
        nodes = [axis(rng, n + 1) for n in sh]
        names = ["f%d" % i for i in range(rng.randint(1, 6))]
        a, b = {}, {}
        tol = [0.0, 0.0, 0.25][rng.randint(3)]
        state = {}
        for nm in names:
            vec = rng.randint(4) == 0
            v = np.round(rng.standard_normal(sh + ([3] if vec else [])) * 64) / 8.0 + 40.0
            w = v.copy()
            st = ["same", "point", "small", "only_a", "only_b"][rng.randint(5)]
            if st == "point":
                w.reshape(-1)[rng.randint(w.size)] += [-2.0, 2.0][rng.randint(2)]
            elif st == "small":
                w.reshape(-1)[rng.randint(w.size)] += [-0.125, 0.125][rng.randint(2)]
            state[nm] = st
            if st != "only_b":
                a[nm] = v
            if st != "only_a":
                b[nm] = w
        if not a or not b:
            raise Skip("no fields")
        fns = []
        for w, q in zip("ab", (a, b)):
            sub = os.path.join(d, ["", w][rng.randint(2)])
            os.makedirs(sub, exist_ok=True)
            fl = [(nm, v.astype('f8'), 'cell', 'inter') for nm, v in q.items()]
            fns.append(xfiles.write_xdmf(sub, "%s%s" % (w, serial()), nodes, fl, time=60.0 if rng.randint(2) else None))
        args = list(fns)
        if tol:
            args = ["-p", "%r" % tol] + args
        given = []
        if rng.randint(3) == 0:
            given = [str(v) for v in rng.permutation(names)[:rng.randint(1, len(names) + 1)]]
        want = 0
        for nm in (given or names):
            st = state[nm]
            want += st in ("point", "only_a", "only_b") or (st == "small" and tol == 0.0)
        rc, _ = run_script("viscid_diff", ["-q", "-q", "-q"] + args + given)
        ctx.check(rc == want, "diff/count", lambda: "exit value %r, %d fields differ: %s tol=%s given=%s" % (
            rc, want, state, tol, given))
        ctx.saw('diff', tuple(sorted(state.values())), tol, bool(given))
        for fn in fns:
            viscid.unload_all_files()


def split(rng, n, k):
    cuts = sorted(rng.permutation(np.arange(1, n))[:k - 1])
    return [0] + [int(c) for c in cuts] + [n]


def sc_blocks(ctx, rng):
    """athena2xdmf: one file for each process -> one file"""
    with xfiles.scratch() as d:
        N = [int(v) for v in rng.randint(2, 8, size=3)]
        nb = [int(rng.randint(1, max(2, min(3, n // 2) + 1))) for n in N]
        cuts = [split2(rng, n, k) for n, k in zip(N, nb)]
        # cells of equal size, so that the blocks' nodes meet
        dx = [0.5, 1.0, 2.0]
        cc = [(np.arange(n) + 0.5) * dx[rng.randint(3)] + rng.randint(-3, 3) for n in N]
        names = ['d', 'M1', 'M2', 'M3', 'E'][:[4, 5][rng.randint(2)]]
        nt = int(rng.randint(1, 4))
        run = "r" + serial().replace("_", "q")
        full = [{nm: rng.standard_normal(N) for nm in names} for _ in range(nt)]
        times = np.cumsum(rng.randint(1, 5, size=nt)) * 0.5
        blocks = [(i, j, k) for k in range(len(cuts[2]) - 1) for j in range(len(cuts[1]) - 1) for i in range(len(cuts[0]) - 1)]
        fns = []
        for b, ijk in enumerate(blocks):
            sub = os.path.join(d, "id%d" % b)
            os.makedirs(sub)
            sl = tuple(slice(c[i], c[i + 1]) for c, i in zip(cuts, ijk))
            for it in range(nt):
                fn = os.path.join(sub, "%s%s.%04d.bin" % (run, "-id%d" % b if b else "", it))
                with open(fn, 'wb') as f:
                    f.write(np.array([-1] + [s.stop - s.start for s in sl] + [len(names), 0, 0, 0], dtype='<i4').tobytes())
                    f.write(np.array([0.6, 1.0, times[it], 0.1], dtype='<f8').tobytes())
                    for c, s in zip(cc, sl):
                        f.write(c[s].astype('<f8').tobytes())
                    for nm in names:
                        f.write(full[it][nm][sl].T.astype('<f8').tobytes())
                fns.append(fn)
        if rng.randint(2):
            fns = [fns[i] for i in rng.permutation(len(fns))]
        cwd = os.getcwd()
        msg = lambda: "cells %s cut at %s, %d steps" % (N, cuts, nt)  # noqa
        os.chdir(d)
        try:
            run_script("athena2xdmf", ["-q", "-q", "-q"] + fns)
        finally:
            os.chdir(cwd)
        viscid.unload_all_files()
        made = sorted(fn for fn in os.listdir(d) if fn.endswith(".xdmf"))
        ctx.check(len(made) == nt, "blocks/files", lambda: "%s %s" % (made, msg()))
        for it, fn in enumerate(made[:nt]):
            f = viscid.load_file(os.path.join(d, fn))
            g = f.get_grid()
            ctx.close(g.time, times[it], "blocks/time", 1e-12, 1e-12, msg)
            ctx.check(sorted(g.field_names) == sorted(names), "blocks/names", lambda: "%s %s" % (g.field_names, msg()))
            for nm in names:
                fld = g[nm]
                for ax, c in zip("xyz", cc):
                    ctx.close(fld.get_crd_cc(ax), c, "blocks/crds", 1e-12, 1e-12, lambda: "%s %s" % (ax, msg()))
                want = full[it][nm]
                order = ["xyz".index(a) for a in fld.crds.axes]
                ctx.same(np.asarray(fld.data), want.transpose(order), "blocks/values",
                         lambda: "%s of step %d %s" % (nm, it, msg()))
            f.unload()
        ctx.saw('blocks', tuple(nb), nt, len(blocks) > 1)


def split2(rng, n, k):
    """cuts into k parts of at least 2 cells"""
    while True:
        c = split(rng, n, k) if k > 1 else [0, n]
        if min(np.diff(c)) >= 2:
            return c


# ------------------------------------------------------------------ series
def temporal(rng, d, nt, nodes, names, sh):
    """a run of nt steps in one xdmf file -> (file name, times, values)"""
    times = np.round(np.cumsum(rng.uniform(0.5, 3.0, size=nt)), 2)
    base = "s" + serial()
    grids, h5s, vals = [], {}, []
    for it in range(nt):
        v = {nm: rng.standard_normal(sh) for nm in names}
        vals.append(v)
        xml, h5 = xfiles.xdmf_grid(base, nodes, [(nm, a, 'cell', 'inter') for nm, a in v.items()],
                                   time=times[it], name="g%d" % it, group="g%d" % it)
        grids.append(xml)
        h5s.update(h5)
    xfiles.write_h5(os.path.join(d, base + ".h5"), h5s)
    fn = os.path.join(d, base + ".xdmf")
    with open(fn, "w") as f:
        f.write(xfiles.XHEAD)
        if nt > 1 or rng.randint(2):
            f.write('<Grid Name="T" GridType="Collection" CollectionType="Temporal">')
            f.write("\n".join(grids))
            f.write("</Grid>")
        else:
            f.write(grids[0])
        f.write(xfiles.XTAIL)
    return fn, times, vals


def time_sel(rng, times):
    """-> (text, indices)"""
    n = len(times)
    k = rng.randint(4)
    if k == 0:
        return ":", list(range(n))
    if k == 1:
        a, b = [None if rng.randint(3) == 0 else int(rng.randint(0, n + 1)) for _ in range(2)]
        st = [None, 1, 2][rng.randint(3)]
        return ("%s:%s%s" % ("" if a is None else a, "" if b is None else b, "" if st is None else ":%d" % st),
                list(range(n))[a:b:st])
    lo, hi = [None if rng.randint(3) == 0 else float(round(rng.uniform(times[0] - 1, times[-1] + 1), 1)) + 0.005
              for _ in range(2)]
    st = [None, 1, 2][rng.randint(3)]
    idx = [i for i in range(n) if (lo is None or times[i] >= lo) and (hi is None or times[i] <= hi)]
    return ("%s:%s%s" % ("" if lo is None else "%.3ff" % lo, "" if hi is None else "%.3ff" % hi,
                         "" if st is None else ":%d" % st), idx[::st or 1])


def recorder(tind, grid, out=None, first_run=None, first_run_result=None, tag=None, **kw):
    """a plot function that writes down what it was called with"""
    v = float(np.asarray(grid['u'].data).reshape(-1)[0])
    with open(os.path.join(out, "%03d_%d_%s" % (tind, bool(first_run), serial())), "w") as f:
        f.write(repr((int(tind), float(grid.time), v, bool(first_run), first_run_result, tag, sorted(kw))))
    return ["result", tind]


def sc_multiplot(ctx, rng):
    with xfiles.scratch() as d:
        sh = [int(v) for v in rng.randint(2, 4, size=3)]
        nodes = [axis(rng, n + 1) for n in sh]
        nt = int(rng.randint(1, 7))
        fn, times, vals = temporal(rng, d, nt, nodes, ["u"], sh)
        f = viscid.load_file(fn)
        try:
            txt, want = time_sel(rng, times) if nt > 1 else (":", [0])
            out = os.path.join(d, "out")
            os.makedirs(out)
            np_ = int([1, 1, 2, 3][rng.randint(4)])
            kw = dict(tag="t%d" % rng.randint(100), out=out)
            if rng.randint(2):
                kw["kwopts"] = {} if rng.randint(2) else {"dpi": 10}
            msg = lambda: "%d steps %s, %r, %d processes" % (nt, list(times), txt, np_)  # noqa
            if not want:
                ctx.raises(ValueError, lambda: viscid.make_multiplot(f, recorder, nr_procs=np_, time_slice=txt, **kw),
                           "multiplot/empty", msg)
                return
            before = sorted(kw)
            viscid.make_multiplot(f, recorder, nr_procs=np_, time_slice=txt, **kw)
            ctx.check(sorted(kw) == before, "multiplot/kwargs-changed", msg)
            got = sorted(eval(open(os.path.join(out, v)).read()) for v in os.listdir(out))
            exp = []
            for n, i in enumerate(want):
                exp.append((n, float(times[i]), float(vals[i]["u"].reshape(-1)[0]), n == 0,
                            None if n == 0 else ["result", 0], kw["tag"], ["kwopts"] if "kwopts" in kw else []))
            ctx.check(got == exp, "multiplot/calls", lambda: "%s != %s %s" % (got, exp, msg()))
            if np_ == 1:
                order = sorted(os.listdir(out), key=lambda v: int(v.rsplit("_", 1)[1]))
                ctx.check([int(v[:3]) for v in order] == list(range(len(want))), "multiplot/order", msg)
            ctx.saw('multiplot', nt, len(want), np_, txt.count(":"), "f" in txt)
        finally:
            f.unload()


def point_slice(rng, sh, nodes):
    """a selection down to one point -> (text, index)"""
    idx = [int(rng.randint(n)) for n in sh]
    out = []
    for ax, i, nd in zip("xyz", idx, nodes):
        c = 0.5 * (nd[i] + nd[i + 1])
        out.append("%s=%d" % (ax, i) if rng.randint(2) else "%s=%.6f%s" % (ax, c, "jf"[rng.randint(2)]))
    return [out[i] for i in rng.permutation(3)], tuple(idx)


def sc_series(ctx, rng):
    import matplotlib.pyplot as plt
    plt.close('all')
    with xfiles.scratch() as d:
        sh = [int(v) for v in rng.randint(2, 4, size=3)]
        nodes = [axis(rng, n + 1) for n in sh]
        nt = int(rng.randint(2, 6))
        fn, times, vals = temporal(rng, d, nt, nodes, ["u", "w"], sh)
        txt, want = time_sel(rng, times)
        if len(want) < 2:
            raise Skip("too few steps")
        args, exp = [], []
        # the axes that all variables share
        parts, idx = point_slice(rng, sh, nodes)
        nshare = int(rng.randint(0, 3))
        shared, rest = parts[:nshare], parts[nshare:]
        for _ in range(rng.randint(1, 4)):
            nm = ["u", "w"][rng.randint(2)]
            args += ["-p", ",".join([nm] + rest)]
            exp.append((nm, np.array([vals[i][nm][idx] for i in want])))
        if shared:
            args += ["--slice", ",".join(shared)]
        one = bool(rng.randint(3) == 0)
        if one:
            args.append("--one")
        args += ["-t" + txt, "--prefix", os.path.join(d, "o"), "-f", "pdf"]
        args += [["--timeformat", [".02f", "hms", "dhms"][rng.randint(3)]], []][rng.randint(2)]
        msg = lambda: "%s of %d steps %s" % (args, nt, list(times))  # noqa
        saved = []
        real = plt.savefig
        plt.savefig = lambda *a, **k: saved.append(a[0])
        try:
            run_script("viscid_ts", ["-q", "-q", "-q"] + args + [fn])
        finally:
            plt.savefig = real
        fig = plt.gcf()
        axs = fig.axes
        lines = [ln for ax in axs for ln in ax.get_lines()]
        ctx.check(len(lines) == len(exp) and len(axs) == (1 if one else len(exp)), "series/lines",
                  lambda: "%d lines on %d axes %s" % (len(lines), len(axs), msg()))
        ctx.check(saved == [os.path.join(d, "o.pdf")], "series/saved", lambda: "%s %s" % (saved, msg()))
        for ln, (nm, v) in zip(lines, exp):
            ctx.close(np.asarray(ln.get_xdata(), dtype='f8'), times[want], "series/times", 1e-12, 1e-12, msg)
            ctx.close(np.asarray(ln.get_ydata(), dtype='f8'), v, "series/values", 1e-12, 1e-12,
                      lambda: "%s %s" % (nm, msg()))
        plt.close('all')
        viscid.unload_all_files()
        ctx.saw('series', nt, len(want), len(exp), one, nshare)


def sc_movie(ctx, rng):
    """viscid_2d: one picture of all variables for each step"""
    import matplotlib.pyplot as plt
    from viscid.plot import vpyplot as vlt
    plt.close('all')
    with xfiles.scratch() as d:
        sh = [int(v) for v in rng.randint(2, 5, size=3)]
        nodes = [axis(rng, n + 1) for n in sh]
        nt = int(rng.randint(1, 4))
        fn, times, vals = temporal(rng, d, nt, nodes, ["u", "w"], sh)
        txt, want = time_sel(rng, times) if nt > 1 else (":", [0])
        if not want:
            raise Skip("no steps")
        args, exp = [], []
        ax = rng.randint(3)
        i = int(rng.randint(sh[ax]))
        slc = "%s=%d" % ("xyz"[ax], i)
        shared = bool(rng.randint(2))
        for _ in range(rng.randint(1, 4)):
            nm = ["u", "w"][rng.randint(2)]
            opts = ["", "", "lin", "cmap=viridis"][rng.randint(4)]
            args += ["-p", nm if shared else "%s,%s" % (nm, slc)]
            if opts:
                args += ["-o", opts]
            exp.append(nm)
        if shared:
            args += ["--slice", slc]
        if rng.randint(2):
            args.append("-T")
        if rng.randint(2):
            args.append("--own")
        tf = [".02f", ".3f", "none"][rng.randint(3)]
        args += ["--timeformat", tf, "-t" + txt, "--prefix", os.path.join(d, "o")]
        msg = lambda: "%s of %d steps %s" % (args, nt, list(times))  # noqa
        log = []
        real, realsave = vlt.plot, plt.savefig

        def plot(fld, *a, **k):
            log.append(("plot", fld.name, float(fld.time), np.array(fld.data), tuple(fld.crds.axes)))
            return real(fld, *a, **k)

        def save(name, *a, **k):
            st = plt.gcf()._suptitle
            log.append(("save", name, len(plt.gcf().axes), st.get_text() if st is not None else ""))
        vlt.plot, plt.savefig = plot, save
        try:
            run_script("viscid_2d", ["-q", "-q", "-q"] + args + [fn])
        finally:
            vlt.plot, plt.savefig = real, realsave
        pos = 0
        k = len(exp) + 1
        ctx.check(len(log) == k * len(want), "movie/events", lambda: "%s %s" % ([q[:3] for q in log], msg()))
        for n, it in enumerate(want):
            for nm, ev in zip(exp, log[pos:pos + k - 1]):
                ctx.check(ev[0] == "plot" and ev[1] == nm, "movie/name", lambda: "%s %s" % (ev[:2], msg()))
                if ev[0] == "plot":
                    ctx.same(ev[3].reshape(-1), np.take(vals[it][nm], i, axis=ax).reshape(-1), "movie/values",
                             lambda: "%s of step %d %s" % (nm, it, msg()))
            for ev in log[pos + k - 1:pos + k]:
                ctx.check(ev[0] == "save" and ev[1] == os.path.join(d, "o_%06d.png" % (n + 1)), "movie/saved",
                          lambda: "%s %s" % (ev, msg()))
                if ev[0] == "save":
                    t = "" if tf == "none" else ("%" + tf) % times[it]
                    if tf == ".02f":
                        t = "%.2f" % times[it]
                    ctx.check(ev[3] == t, "movie/title", lambda: "%r != %r %s" % (ev[3], t, msg()))
            pos += k
        plt.close('all')
        viscid.unload_all_files()
        ctx.saw('movie', nt, len(want), len(exp), shared, tf)


SCENARIOS = [
    Scenario("globs", sc_globs, quick=600, thorough=8000, need=500),
    Scenario("paths", sc_paths, quick=400, thorough=6000, need=1000),
    Scenario("diff", sc_diff, quick=120, thorough=1500, need=60),
    Scenario("blocks", sc_blocks, quick=60, thorough=800, need=100),
    Scenario("multiplot", sc_multiplot, quick=80, thorough=800, need=100, hang=120),
    Scenario("series", sc_series, quick=60, thorough=600, need=100, hang=120),
    Scenario("movie", sc_movie, quick=40, thorough=400, need=100, hang=120),
]

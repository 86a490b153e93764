"""V02 lines get the vertices, colors and connections they were given"""
from __future__ import print_function

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext
import viscid
from viscid import vutil

PID = "V02"
TECHNIQUE = ("runtime monitoring: lines with every documented form of colors go "
             "through the code that prepares them for drawing; a model that "
             "holds one color or value for each vertex judges vertices, "
             "connections, scalars, colors and other arrays")
RULE = ("1-6 lines of 1-9 vertices (float and integer, 3, 4 or 6 rows) with "
        "colors by name, hex code with 3-8 digits, rgb and rgba numbers for all, "
        "each line or each vertex, values for each line or vertex, fields; shapes "
        "that the documentation leaves ambiguous are not generated; an execution "
        "counts when all vertices and colors were compared")


def setup():
    ext.ensure()
    viscid.logger.setLevel(60)


NAMED = {"red": (255, 0, 0), "k": (0, 0, 0), "white": (255, 255, 255), "blue": (0, 0, 255), "lime": (0, 255, 0)}


def color(rng, alpha, kind):
    """-> (as text, rgba of 0-255)"""
    if kind == "name":
        nm = sorted(NAMED)[rng.randint(len(NAMED))]
        return nm, NAMED[nm] + (255,)
    if kind == "short":
        v = [int(c) for c in rng.randint(16, size=3)]
        if alpha:
            v.append(int(rng.randint(16)))
        return "#" + "".join("%x" % c for c in v), (tuple(17 * c for c in v) + (255,))[:4]
    v = tuple(int(c) for c in rng.randint(256, size=4))
    if alpha:
        return "#%02x%02X%02x%02x" % v, v
    return "#%02X%02x%02x" % v[:3], v[:3] + (255,)


def lines_of(rng, rows=3):
    nl = int(rng.randint(1, 7))
    dt = ['f8', 'f4', 'i8'][rng.randint(3)]
    out = []
    for _ in range(nl):
        n = int(rng.randint(1, 10))
        v = (rng.standard_normal((rows, n)) * 10).astype(dt)
        out.append(np.asfortranarray(v) if rng.randint(2) else v)
    return out


def sc_prepare(ctx, rng):
    lines = lines_of(rng)
    keep = [ln.copy() for ln in lines]
    nl, npts = len(lines), [ln.shape[1] for ln in lines]
    N = sum(npts)
    rep = lambda a: np.repeat(np.asarray(a), npts, axis=0)  # noqa
    amb = nl in (3, 4) or N in (3, 4)
    kind = ["none", "one", "hexes", "rgb1", "rgbs", "vals_l", "vals_v", "rgb_v", "field_l", "field_v", "field_i", "rows"][rng.randint(12)]
    scalars, want, mode = None, None, kind
    if kind in ("one", "hexes"):
        m = 1 if kind == "one" else nl
        ks = ["name", "short", "hex", "hex"]
        cs = []
        alpha_any = rng.randint(3) == 0
        for _ in range(m):
            k = ks[rng.randint(4)] if rng.randint(2) else "hex"
            cs.append(color(rng, alpha_any and rng.randint(2), k))
        txt = [c[0] for c in cs]
        scalars = txt[0] if kind == "one" and rng.randint(2) else [txt, tuple(txt), np.array(txt)][rng.randint(3)]
        want = np.array([c[1] for c in cs])
        want = np.repeat(want, N, axis=0) if m == 1 else rep(want)
        named = any(not c.startswith("#") or len(c) in (5, 9) for c in txt)
        want = want.T if named else want.T[:3]
        mode += "/named" if named else ""
    elif kind == "rgb1":
        if amb or nl == 1:
            raise Skip("ambiguous")
        m = 3 + rng.randint(2)
        c = rng.uniform(0, 1, size=m)
        scalars = [tuple(c), list(c), c][rng.randint(3)]
        if rng.randint(2):
            scalars = tuple(int(v) for v in np.round(c * 253 + 2))
            want = np.tile(np.asarray(scalars)[:, None], (1, N))
        else:
            want = np.tile(np.round(255 * c)[:, None], (1, N))
    elif kind in ("rgbs", "rgb_v"):
        m = 3 + rng.randint(2)
        n = nl if kind == "rgbs" else N
        if kind == "rgb_v" and (nl == N or N in (3, 4) or nl in (1, 3, 4)):
            raise Skip("ambiguous")
        if kind == "rgbs" and (N in (3, 4) or nl == 1):
            raise Skip("ambiguous")
        c = rng.uniform(0, 1, size=(n, m))
        if rng.randint(2):
            c = np.round(c * 255)
            c[rng.randint(n), rng.randint(m)] = 200.0
            vals = c
        else:
            vals = np.round(255 * c)
        scalars = [c, [tuple(r) for r in c], [list(r) for r in c]][rng.randint(3)]
        if isinstance(scalars, np.ndarray) and n not in (3, 4) and rng.randint(2):
            scalars = c.T.copy()
        want = (rep(vals) if kind == "rgbs" else vals).T
    elif kind == "vals_l":
        v = rng.standard_normal(nl)
        scalars = [v, list(v), tuple(v), v.reshape(1, -1), v.reshape(-1, 1)][rng.randint(5)]
        want = rep(v)
    elif kind == "vals_v":
        if N == nl or nl == 1 and N in (3, 4):
            raise Skip("ambiguous")
        v = rng.standard_normal(N)
        scalars = [v, list(v), v.reshape(1, -1), v.reshape(-1, 1)][rng.randint(4)]
        want = v
    elif kind in ("field_l", "field_v"):
        n = nl if kind == "field_l" else N
        if n < 2 or (kind == "field_v" and N == nl):
            raise Skip("ambiguous")
        v = rng.standard_normal(n)
        scalars = viscid.arrays2field([np.arange(n, dtype='f8')], v)
        want = rep(v) if kind == "field_l" else v
    elif kind == "field_i":
        x = [np.linspace(-50, 50, rng.randint(2, 5)) for _ in range(3)]
        X, Y, Z = np.meshgrid(*x, indexing='ij')
        c = rng.standard_normal(4)
        v = c[0] * X + c[1] * Y + c[2] * Z + c[3]
        if v.size in (nl, N):
            raise Skip("ambiguous")
        scalars = viscid.arrays2field(x, v, center='node')
        p = np.clip(np.concatenate([ln.astype('f8') for ln in lines], axis=1), -50, 50)
        want = c[:3].dot(p) + c[3]
    elif kind == "rows":
        rows = [4, 6][rng.randint(2)]
        extra = [rng.uniform(0, 1, size=(rows - 3, n)) for n in npts]
        lines = [np.concatenate([ln.astype('f8'), e]) for ln, e in zip(lines, extra)]
        keep = [ln.copy() for ln in lines]
        want = np.concatenate(extra, axis=1)
        want = want[0] if rows == 4 else np.round(255 * want)
    other = None
    if rng.randint(2):
        other = dict(a=np.arange(nl, dtype='f8').reshape([(1, -1), (-1, 1)][rng.randint(2)]),
                     b=rng.standard_normal(N), c=None)
    oth0 = dict(other) if other else None
    snap = scalars.copy() if isinstance(scalars, np.ndarray) else None
    conn = bool(rng.randint(2))
    verts, got, con, oth = vutil.prepare_lines(lines, scalars, do_connections=conn, other=other)
    msg = lambda: "%s, %d lines of %s, scalars %r" % (mode, nl, npts, type(scalars))  # noqa
    ctx.check(all(np.array_equal(a, b) for a, b in zip(lines, keep)), "prepare/lines-changed", msg)
    if snap is not None:
        ctx.check(np.array_equal(snap, scalars), "prepare/scalars-changed", msg)
    wv = np.concatenate([k[:3] for k in keep], axis=1)
    ctx.check(verts.shape == (3, N) and verts.dtype.kind == 'f' and np.allclose(verts, wv, rtol=1e-6, atol=0),
              "prepare/vertices", msg)
    if want is None:
        ctx.check(got is None, "prepare/none", msg)
    elif np.ndim(want) == 1:
        tol = 1e-4 if kind == "field_i" else 1e-6
        ctx.close(got, want, "prepare/values", tol, tol, msg)
        ctx.check(got.shape == (N,), "prepare/values-shape", lambda: "%s %s" % (got.shape, msg()))
    else:
        ctx.check(got.dtype == np.uint8 and got.shape == want.shape and
                  np.max(np.abs(got.astype(int) - want)) == 0, "prepare/colors",
                  lambda: "%s\n!= %s %s %r" % (got, want, msg(), scalars))
    if conn:
        exp, i0 = [], 0
        for n in npts:
            exp += [(i0 + k, i0 + k + 1) for k in range(n - 1)]
            i0 += n
        ctx.check(con.dtype.kind == 'i' and con.shape == (len(exp), 2) and
                  np.array_equal(con, np.array(exp, dtype=int).reshape(-1, 2)), "prepare/connections",
                  lambda: "%s != %s %s" % (con.tolist(), exp, msg()))
    else:
        ctx.check(con is None, "prepare/no-connections", msg)
    if oth0:
        ctx.check(np.array_equal(oth["a"], rep(np.arange(nl)).reshape(1, N)),
                  "prepare/other-lines", lambda: "%s %s" % (oth["a"], msg()))
        ctx.check(np.array_equal(np.reshape(oth["b"], -1), oth0["b"]), "prepare/other-verts", msg)
        ctx.check(oth["c"] is None, "prepare/other-none", msg)
    ctx.saw('prepare', mode, nl, N == nl, conn, lines[0].dtype.char)


def sc_topology(ctx, rng):
    """topology codes stand for the colors of a mapping"""
    t2c = viscid.topology2color
    style = ['msphere', 'msphere', 'dict', 'generic'][rng.randint(4)]
    ms = {viscid.TOPOLOGY_MS_CLOSED: (0.0, 0.8, 0.0), viscid.TOPOLOGY_MS_OPEN_NORTH: (0.0, 0.0, 0.7),
          viscid.TOPOLOGY_MS_OPEN_SOUTH: (0.7, 0.0, 0.0), viscid.TOPOLOGY_MS_SW: (0.7, 0.7, 0.7)}
    if style == 'dict':
        mapping = dict((int(k), tuple(rng.uniform(size=3))) for k in rng.randint(0, 40, size=5))
        given = dict(mapping)
    else:
        mapping = ms if style == 'msphere' else {}
        given = style
    bad = None if rng.randint(2) else tuple(rng.uniform(size=3))
    codes = list(ms) + list(mapping) + [0, 3, 16, 1024, 77]
    n = int(rng.randint(1, 30))
    topo = np.array([codes[k] for k in rng.randint(len(codes), size=n)])
    want = np.array([mapping.get(int(t), (0.0, 0.0, 0.0) if bad is None else bad) for t in topo])
    kw = dict(topo_style=given, bad_color=bad)
    if style == 'msphere' and rng.randint(2):
        del kw['topo_style']
    how = ['array', 'i4', 'list', 'field', 'single'][rng.randint(5)]
    msg = lambda: "%s %s %s" % (how, topo.tolist(), kw)
    if how == 'single':
        for t, w in zip(topo, want):
            t = [int(t), np.int32(t)][rng.randint(2)]
            ctx.check(np.array_equal(np.reshape(t2c(t, **kw), -1), w), "topology/single", msg)
    else:
        if how == 'field':
            sh = [n] if rng.randint(2) else [1, n]
            fld = viscid.arrays2field([np.arange(float(m)) for m in sh], topo.reshape(sh), center='node')
            arg = fld
        else:
            arg = topo.astype('i4') if how == 'i4' else topo.tolist() if how == 'list' else topo
        got = np.asarray(t2c(arg, **kw))
        ctx.check(got.shape == (n, 3) and np.array_equal(got, want), "topology/colors",
                  lambda: "%s != %s %s" % (got.tolist(), want.tolist(), msg()))
    ctx.check(given == (mapping if style == 'dict' else style), "topology/mapping-changed", msg)
    # what's colored can be drawn
    line = [np.zeros((3, 2)) for _ in range(n)]
    if bad is None or style != 'dict':
        _, sc, _, _ = vutil.prepare_lines(line, want)
        if n > 1 and sc is not None and sc.ndim == 2:
            ctx.check(np.array_equal(sc, np.repeat(np.round(255 * want).astype('u1'), 2, axis=0).T)
                      or n in (3, 4), "topology/draw", msg)
    ctx.saw('topology', how, style, bad is None)


SCENARIOS = [
    Scenario("prepare", sc_prepare, quick=3000, thorough=60000, need=5000),
    Scenario("topology", sc_topology, quick=300, thorough=3000, need=100),
]

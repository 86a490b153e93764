"""G02 rotation representations"""
from __future__ import print_function
import itertools

import numpy as np

from vmon.core import Scenario, Skip
import viscid
from viscid import rotation as rt
from vmon import ext

PID = "G02"
TECHNIQUE = ("runtime monitoring: every conversion, product and application "
             "of rotations is observed on the real code for regular, "
             "singular, nearly singular, tiny and half-turn rotations, single "
             "and stacked, and judged by an independent reference (Rodrigues' "
             "formula and products of elementary rotations); argument "
             "snapshots detect changes of the inputs")
RULE = ("an execution counts when a result of the code was compared with the "
        "reference rotation; signatures are (function, axis order, angle "
        "class, stack shape, argument type)")
ASSUMPTIONS = [
    "comparisons are of the rotations described (matrices), within 1e-6 near "
    "the singular points of a representation and 1e-9 elsewhere",
]

ORD6 = ['zyx', 'yxz', 'xzy', 'xyz', 'yzx', 'zxy']
ORDE = ['zyz', 'zxz', 'yzy', 'yxy', 'xzx', 'xyx']
ALL = ORD6 + ORDE
REPS = ['zzx', 'xxy', 'yyz', 'xxx', 'yzz']


def setup():
    ext.ensure()


# ---- reference -------------------------------------------------------------
def rod(w, k):
    k = np.asarray(k, dtype='f8')
    k = k / np.sqrt((k ** 2).sum())
    c, s = np.cos(w), np.sin(w)
    R = np.empty((3, 3))
    for i in range(3):
        e = np.zeros(3)
        e[i] = 1.0
        cr = np.array([k[1] * e[2] - k[2] * e[1], k[2] * e[0] - k[0] * e[2],
                       k[0] * e[1] - k[1] * e[0]])
        R[:, i] = e * c + cr * s + k * k[i] * (1 - c)
    return R


def elem(w, ax):
    return rod(w, np.eye(3)["xyz".index(ax)])


def ref_seq(angles, axes, kind):
    """kind: angle (transform order) or eul (multiplication order)"""
    mats = [elem(w, a) for w, a in zip(angles, axes)]
    if kind == 'angle':
        mats = mats[::-1]
    return mats[0].dot(mats[1]).dot(mats[2])


def qmat(q):
    q = np.asarray(q, dtype='f8')
    q = q / np.sqrt((q ** 2).sum())
    w, v = q[0], q[1:]
    n = np.sqrt((v ** 2).sum())
    if n < 1e-300:
        return np.eye(3)
    return rod(2 * np.arctan2(n, w), v)


# ---- generation ------------------------------------------------------------
def rangle(rng):
    cls = int(rng.randint(0, 6))
    if cls == 0:
        a = rng.uniform(-7, 7)
    elif cls == 1:
        a = rng.randint(-8, 9) * np.pi / 4
    elif cls == 2:
        a = rng.choice([-1, 1]) * 10.0 ** rng.uniform(-14, -1)
    elif cls == 3:
        a = rng.choice([-1, 1]) * np.pi + 10.0 ** rng.uniform(-14, -1)
    elif cls == 4:
        a = rng.choice([-1, 1]) * np.pi / 2 + \
            rng.choice([-1, 1]) * 10.0 ** rng.uniform(-14, -1)
    else:
        a = rng.uniform(-np.pi, np.pi)
    return float(a), cls


def raxis(rng):
    cls = int(rng.randint(0, 4))
    if cls == 0:
        v = np.zeros(3)
        v[rng.randint(0, 3)] = rng.choice([-1.0, 1.0])
    elif cls == 1:
        v = rng.randint(-3, 4, 3).astype('f8')
        if not v.any():
            v[0] = 1.0
    else:
        v = rng.normal(size=3)
    return v * float(rng.choice([1.0, 1.0, 1e-3, 250.0])), cls


def rrot(rng):
    w, c = rangle(rng)
    k, d = raxis(rng)
    return rod(w, k), (c, d)


def rstack(rng, allow0=True):
    """None (single) or number of items of a stack"""
    return [None, None, 1, 2, 3, 7][int(rng.randint(0, 6))]


def pick(items, n):
    """the single item or a stack"""
    return np.array(items[0] if n is None else items)


def dress(arr, rng):
    """the array in one of several containers"""
    k = int(rng.randint(0, 5))
    arr = np.array(arr)
    if k == 0:
        return arr.tolist(), 'list'
    if k == 1:
        big = np.zeros(arr.shape[:-1] + (2 * arr.shape[-1],))
        big[..., ::2] = arr
        return big[..., ::2], 'strided'
    if k == 2:
        return np.asfortranarray(arr), 'fortran'
    if k == 3:
        a = arr.copy()
        a.flags.writeable = False
        return a, 'readonly'
    return arr, 'plain'


def as_stack(m, n, shape):
    m = np.asarray(m)
    return m.reshape((-1,) + shape)


def shp(ctx, got, n, shape, key):
    want = shape if n is None else (n,) + shape
    ctx.check(np.shape(got) == want, key,
              lambda: "shape %r want %r" % (np.shape(got), want))


def unchanged(ctx, arr, before, key):
    ctx.check(np.array_equal(np.asarray(arr), before, equal_nan=True),
              key + "/argument-changed",
              lambda: "%r -> %r" % (before, arr))


TOL = 2e-6   # arccos based results near 0 and pi, singular Euler angles
TIGHT = 1e-9


# ---- scenarios -------------------------------------------------------------
def forward(ctx, rng):
    """Euler angles -> matrix against products of elementary rotations"""
    kind = str(rng.choice(['angle', 'eul']))
    typ = str(rng.choice(['rot', 'dcm']))
    axes = str(rng.choice(ALL + REPS))
    n = rstack(rng)
    m = 1 if n is None else n
    angs = [[rangle(rng)[0] for _ in range(3)] for _ in range(m)]
    deg = bool(rng.randint(0, 2))
    arg = pick(angs, n)
    if deg:
        arg = np.rad2deg(arg)
    arg, how = dress(arg, rng)
    before = np.array(arg)
    fn = getattr(rt, '%s2%s' % (kind, typ))
    if kind == 'angle' and rng.randint(0, 2):
        fn = getattr(rt, 'angles2%s' % typ)
    given = {0: axes, 1: axes.upper(), 2: list(axes),
             3: ["xyz".index(a) for a in axes]}[int(rng.randint(0, 4))]
    ctx.note(fn=fn.__name__, axes=repr(given), angles=np.array(angs).tolist(),
             deg=deg, how=how)
    R = fn(arg, axes=given, unit='deg' if deg else 'rad')
    shp(ctx, R, n, (3, 3), fn.__name__ + "/shape")
    unchanged(ctx, arg, before, fn.__name__)
    sgn = 1.0 if typ == 'rot' else -1.0
    for got, a in zip(as_stack(R, n, (3, 3)), angs):
        want = ref_seq([sgn * v for v in a], axes, kind)
        ctx.close(got, want, fn.__name__ + "/matrix", atol=TIGHT, rtol=0)
    # elementary ones
    w = [a[0] for a in angs]
    ax = str(rng.choice(list('xyz')))
    e = getattr(rt, 'e_' + typ)(w[0] if n is None else w,
                                ax if rng.randint(0, 2) else "xyz".index(ax))
    shp(ctx, e, n, (3, 3), "e_%s/shape" % typ)
    for got, v in zip(as_stack(e, n, (3, 3)), w):
        ctx.close(got, elem(sgn * v, ax), "e_%s/matrix" % typ, atol=TIGHT, rtol=0)
    ctx.saw(fn.__name__, axes, n, deg, how)


def back(ctx, rng):
    """matrix -> Euler angles, judged by what the angles describe"""
    kind = str(rng.choice(['angle', 'eul']))
    typ = str(rng.choice(['rot', 'dcm']))
    axes = str(rng.choice(ALL))
    n = rstack(rng)
    m = 1 if n is None else n
    mats, cl = [], []
    for _ in range(m):
        k = int(rng.randint(0, 3))
        if k == 0:
            R, c = rrot(rng)
        else:
            # near the singular angle of this order
            mid = rng.choice([-1, 1]) * np.pi / 2 if axes in ORD6 else \
                rng.choice([0.0, np.pi])
            eps = [0.0, 10.0 ** rng.uniform(-13, -2)][int(rng.randint(0, 2))]
            a = [rangle(rng)[0], mid + eps, rangle(rng)[0]]
            R, c = ref_seq(a, axes, kind), 'sing%d' % (eps == 0)
        mats.append(R)
        cl.append(c)
    deg = bool(rng.randint(0, 2))
    four = rng.randint(0, 5) == 0
    arg = pick(mats, n)
    if four:
        big = np.zeros(arg.shape[:-2] + (4, 4))
        big[..., :3, :3] = arg
        big[..., 3, 3] = 1.0
        arg = big
    arg, how = dress(arg, rng)
    before = np.array(arg)
    fn = getattr(rt, '%s2%s' % (typ, kind))
    ctx.note(fn=fn.__name__, axes=axes, mats=np.array(mats).tolist(), deg=deg,
             how=how)
    got = fn(arg, axes=axes, unit='deg' if deg else 'rad', bad_matrix='ignore')
    shp(ctx, got, n, (3,), fn.__name__ + "/shape")
    unchanged(ctx, arg, before, fn.__name__)
    got = np.deg2rad(got) if deg else np.asarray(got)
    sgn = 1.0 if typ == 'rot' else -1.0
    for a, R in zip(as_stack(got, n, (3,)), mats):
        ctx.check(np.all(np.isfinite(a)), fn.__name__ + "/finite", repr(a))
        want = ref_seq([sgn * v for v in a], axes, kind)
        ctx.close(want, R, fn.__name__ + "/rotation", atol=TOL, rtol=0,
                  msg=lambda: "angles %r" % (a,))
        mid = a[1]
        if axes in ORD6:
            ctx.check(abs(mid) <= np.pi / 2 + 1e-9, fn.__name__ + "/range",
                      repr(mid))
    ctx.saw(fn.__name__, axes, n, tuple(cl), how, four)


def quats(ctx, rng):
    """matrix <-> quaternion"""
    typ = str(rng.choice(['rot', 'dcm']))
    n = rstack(rng)
    m = 1 if n is None else n
    rr = [rrot(rng) for _ in range(m)]
    mats = [a[0] for a in rr]
    arg, how = dress(pick(mats, n), rng)
    before = np.array(arg)
    fn = getattr(rt, typ + '2quat')
    ctx.note(fn=fn.__name__, mats=np.array(mats).tolist(), how=how)
    q = fn(arg)
    shp(ctx, q, n, (4,), fn.__name__ + "/shape")
    unchanged(ctx, arg, before, fn.__name__)
    for a, R in zip(as_stack(q, n, (4,)), mats):
        ctx.close(np.sum(a ** 2), 1.0, fn.__name__ + "/unit", rtol=1e-9)
        ctx.close(qmat(a), R if typ == 'rot' else R.T, fn.__name__ + "/rotation",
                  atol=1e-8, rtol=0)
    # quaternions of any length and type
    qs = []
    for _ in range(m):
        k = int(rng.randint(0, 4))
        if k == 0:
            v = rng.randint(-3, 4, 4).astype('f8')
            if not v.any():
                v[0] = 1.0
        else:
            v = rng.normal(size=4)
            if k == 1:
                v = v / np.sqrt((v ** 2).sum()) * \
                    (1 + rng.choice([0.0, 3e-6, -8e-6]))
            elif k == 2:
                v[1:] *= 10.0 ** rng.uniform(-12, 0)
        qs.append(v)
    arg, how2 = dress(pick(qs, n), rng)
    if all((v == np.round(v)).all() for v in qs):
        arg = np.array(pick(qs, n)).astype('i8')
        how2 = 'int'
        if rng.randint(0, 2):
            arg = arg.tolist()
            how2 = 'intlist'
    elif rng.randint(0, 5) == 0:
        arg = np.asarray(arg, dtype='f4')
        qs = list(np.asarray(arg, dtype='f8').reshape(-1, 4))
        how2 = 'f4'
    before = np.array(arg)
    for f2, tr in ((rt.quat2rot, False), (rt.quat2dcm, True)):
        R = f2(arg)
        shp(ctx, R, n, (3, 3), f2.__name__ + "/shape")
        unchanged(ctx, arg, before, f2.__name__)
        for got, v in zip(as_stack(R, n, (3, 3)), qs):
            want = qmat(v)
            ctx.close(got, want.T if tr else want, f2.__name__ + "/rotation",
                      atol=1e-8, rtol=0, msg=lambda: "quat %r" % (v,))
    # quaternion -> axis angle
    deg = bool(rng.randint(0, 2))
    unit = 'deg' if deg else 'rad'
    w, k = rt.quat2wxyz(arg, unit=unit)
    shp(ctx, w, n, (), "quat2wxyz/shape")
    shp(ctx, k, n, (3,), "quat2wxyz/shape")
    unchanged(ctx, arg, before, "quat2wxyz")
    aa = rt.quat2axang(arg, unit=unit)
    shp(ctx, aa, n, (4,), "quat2axang/shape")
    ctx.close(aa[..., 3], w, "quat2axang/angle", rtol=1e-12, atol=1e-12)
    ctx.close(aa[..., :3], k, "quat2axang/axis", rtol=1e-12, atol=1e-12)
    for ww, kk, v in zip(np.reshape(w, -1), as_stack(k, n, (3,)), qs):
        ctx.close(np.sum(kk ** 2), 1.0, "quat2wxyz/unit-axis", rtol=1e-9)
        ctx.close(rod(np.deg2rad(ww) if deg else ww, kk), qmat(v),
                  "quat2wxyz/rotation", atol=1e-7, rtol=0,
                  msg=lambda: "quat %r" % (v,))
    ctx.saw(fn.__name__, n, tuple(a[1] for a in rr), how, how2, deg)


def axang(ctx, rng):
    """axis-angle -> matrix, quaternion and back"""
    n = rstack(rng)
    m = 1 if n is None else n
    ws = [rangle(rng) for _ in range(m)]
    ks = [raxis(rng) for _ in range(m)]
    deg = bool(rng.randint(0, 2))
    unit = 'deg' if deg else 'rad'
    # one angle for many axes and the other way round are both documented
    mode = str(rng.choice(['both', 'both', 'one-angle', 'one-axis']))
    if n is None:
        mode = 'both'
    if mode == 'one-angle':
        ws = [ws[0]] * m
    elif mode == 'one-axis':
        ks = [ks[0]] * m
    wv = np.array([w[0] for w in ws])
    kv = np.array([k[0] for k in ks])
    warg = np.rad2deg(wv) if deg else wv
    karg = kv
    if n is None:
        warg, karg = float(warg[0]), karg[0]
    elif mode == 'one-angle':
        warg = [float(warg[0]), warg[:1]][int(rng.randint(0, 2))]
    elif mode == 'one-axis':
        karg = karg[0]
    karg, how = dress(karg, rng)
    b1, b2 = np.array(warg), np.array(karg)
    ctx.note(ws=wv.tolist(), ks=kv.tolist(), mode=mode, deg=deg, how=how)
    want = [rod(w, k) for w, k in zip(wv, kv)]

    R = rt.wxyz2rot(warg, karg, unit=unit)
    shp(ctx, R, n, (3, 3), "wxyz2rot/shape")
    for got, wnt in zip(as_stack(R, n, (3, 3)), want):
        ctx.close(got, wnt, "wxyz2rot/rotation", atol=TIGHT, rtol=0)
    q = rt.wxyz2quat(warg, karg, unit=unit)
    shp(ctx, q, n, (4,), "wxyz2quat/shape")
    for got, wnt in zip(as_stack(q, n, (4,)), want):
        ctx.close(qmat(got), wnt, "wxyz2quat/rotation", atol=1e-8, rtol=0)
        ctx.close(np.sum(got ** 2), 1.0, "wxyz2quat/unit", rtol=1e-9)
    unchanged(ctx, warg, b1, "wxyz2x")
    unchanged(ctx, karg, b2, "wxyz2x")
    aa = np.concatenate([kv, (np.rad2deg(wv) if deg else wv)[:, None]], axis=1)
    aa = aa[0] if n is None else aa
    before = aa.copy()
    for fn in (rt.axang2rot, rt.axang2quat):
        got = fn(aa, unit=unit)
        unchanged(ctx, aa, before, fn.__name__)
        if fn is rt.axang2quat:
            got = np.array([qmat(a) for a in as_stack(got, n, (4,))])
        for g, wnt in zip(as_stack(got, n, (3, 3)), want):
            ctx.close(g, wnt, fn.__name__ + "/rotation", atol=1e-8, rtol=0)
    # and back
    quick = bool(rng.randint(0, 2))
    arg, how2 = dress(pick(want, n), rng)
    before = np.array(arg)
    w, k = rt.rot2wxyz(arg, unit=unit, quick=quick, bad_matrix='ignore')
    shp(ctx, w, n, (), "rot2wxyz/shape")
    shp(ctx, k, n, (3,), "rot2wxyz/shape")
    unchanged(ctx, arg, before, "rot2wxyz")
    for ww, kk, wnt in zip(np.reshape(w, -1), as_stack(k, n, (3,)), want):
        ww = np.deg2rad(ww) if deg else ww
        ctx.close(np.sum(kk ** 2), 1.0, "rot2wxyz/unit-axis", rtol=1e-9)
        ctx.check(-1e-12 <= ww <= np.pi + 1e-12, "rot2wxyz/range", repr(ww))
        ctx.close(rod(ww, kk), wnt, "rot2wxyz/rotation", atol=TOL, rtol=0,
                  msg=lambda: "angle %r axis %r quick %r" % (ww, kk, quick))
    x = rt.rot2axang(arg, unit=unit, quick=quick, bad_matrix='ignore')
    ctx.close(x[..., 3], w, "rot2axang/angle", rtol=1e-12, atol=1e-12)
    ctx.close(x[..., :3], k, "rot2axang/axis", rtol=1e-12, atol=1e-12)
    ctx.saw('axang', n, mode, tuple(w[1] for w in ws), tuple(k[1] for k in ks),
            deg, quick, how)


def apply_(ctx, rng):
    """products and application agree in both representations"""
    nmat = int(rng.randint(1, 4))
    N = int(rng.choice([1, 2, 3, 5]))
    mats, args, stacked, qargs = [], [], [], []
    for _ in range(nmat):
        s = int(rng.randint(0, 3))        # single, stack of one, stack of N
        k = 1 if s < 2 else N
        ms = np.array([rrot(rng)[0] for _ in range(k)])
        qs = np.array([rt.rot2quat(x) for x in ms])
        qs = qs * rng.choice([-1.0, 1.0], size=(k, 1))
        args.append(ms[0] if s == 0 else ms)
        qargs.append(qs[0] if s == 0 else qs)
        stacked.append(None if s == 0 else k)
        mats.append(np.array(np.broadcast_to(ms, (N, 3, 3))))
    vs = int(rng.randint(0, 3))
    kv = 1 if vs < 2 else N
    vecs = rng.normal(size=(kv, 3)) * 10.0 ** rng.uniform(-3, 3)
    varg = vecs[0] if vs == 0 else vecs
    allv = np.broadcast_to(vecs, (N, 3))
    L = max([k or 1 for k in stacked])
    prod = []
    for i in range(N):
        P = np.eye(3)
        for mm in mats:
            P = P.dot(mm[i])
        prod.append(P)
    single = all(k is None for k in stacked)
    ctx.note(stacked=stacked, vs=vs, N=N, vec=vecs.tolist(),
             mats=[np.asarray(a).tolist() for a in args])
    b = [np.array(a) for a in args]
    bq = [np.array(a) for a in qargs]
    bv = np.array(varg)
    R = rt.rotmul(*args)
    ctx.check(np.shape(R) == ((3, 3) if single else (L, 3, 3)), "rotmul/shape",
              lambda: repr(np.shape(R)))
    for i, got in enumerate(np.reshape(R, (-1, 3, 3))):
        ctx.close(got, prod[i], "rotmul/product", atol=TIGHT, rtol=0)
    Q = rt.quatmul(*qargs)
    ctx.check(np.shape(Q) == ((4,) if single else (L, 4)), "quatmul/shape",
              lambda: repr(np.shape(Q)))
    for i, got in enumerate(np.reshape(Q, (-1, 4))):
        ctx.close(np.sum(got ** 2), 1.0, "quatmul/norm", rtol=1e-9)
        ctx.close(qmat(got), prod[i], "quatmul/product", atol=1e-7, rtol=0)
    scale = np.abs(vecs).max()
    M = max(L, kv)
    for fn, a in ((rt.rotate, args), (rt.quat_rotate, qargs)):
        got = fn(varg, *a)
        ctx.check(np.shape(got) == ((3,) if single and vs == 0 else (M, 3)),
                  fn.__name__ + "/shape", lambda: repr(np.shape(got)))
        for i, g in enumerate(np.reshape(got, (-1, 3))):
            ctx.close(g, prod[i].dot(allv[i]), fn.__name__ + "/vector",
                      atol=1e-7 * scale, rtol=0)
    for x, y in zip(args + qargs + [varg], b + bq + [bv]):
        unchanged(ctx, x, y, "apply")
    ctx.saw('apply', tuple(stacked), vs, N)


def two_vectors(ctx, rng):
    """angle_between and a2b_rot"""
    n = rstack(rng)
    m = 1 if n is None else n
    A, B, cl = [], [], []
    for _ in range(m):
        a, c = raxis(rng)
        k = int(rng.randint(0, 6))
        if k == 0:
            b = a * rng.choice([1.0, 3.0, 1e-2, 1.0 / 3.0])
        elif k == 1:
            b = -a * rng.choice([1.0, 3.0, 1e-2, 0.7])
        elif k == 2:
            b = a + rng.normal(size=3) * 10.0 ** rng.uniform(-12, -1) * \
                np.sqrt((a ** 2).sum())
        elif k == 3:
            b = -a + rng.normal(size=3) * 10.0 ** rng.uniform(-12, -1) * \
                np.sqrt((a ** 2).sum())
        else:
            b, _ = raxis(rng)
        A.append(a)
        B.append(b)
        cl.append((k, c))
    A, B = np.array(A), np.array(B)
    side = str(rng.choice(['both', 'both', 'one-a', 'one-b']))
    if n is None:
        side = 'both'
    aa = A[0] if n is None or side == 'one-a' else A
    bb = B[0] if n is None or side == 'one-b' else B
    if side == 'one-a':
        A = np.array(np.broadcast_to(A[:1], A.shape))
    if side == 'one-b':
        B = np.array(np.broadcast_to(B[:1], B.shape))
    aa, how = dress(aa, rng)
    bb, how2 = dress(bb, rng)
    ba, bbf = np.array(aa), np.array(bb)
    deg = bool(rng.randint(0, 2))
    unit = 'deg' if deg else 'rad'
    ctx.note(a=A.tolist(), b=B.tolist(), n=n, side=side, how=how, how2=how2)
    with np.errstate(all='ignore'):
        ang = rt.angle_between(aa, bb, unit=unit)
    shp(ctx, ang, n, (), "angle_between/shape")
    unchanged(ctx, aa, ba, "angle_between")
    unchanged(ctx, bb, bbf, "angle_between")
    un = lambda v: v / np.sqrt((v ** 2).sum())
    for g, a, b in zip(np.reshape(ang, -1), A, B):
        a, b = un(a), un(b)
        # accurate for all angles
        want = 2 * np.arctan2(np.sqrt(((a - b) ** 2).sum()),
                              np.sqrt(((a + b) ** 2).sum()))
        ctx.close(np.deg2rad(g) if deg else g, want, "angle_between/angle",
                  atol=1e-7, rtol=1e-9, msg=lambda: "%r %r" % (a, b))
    R0 = rt.a2b_rot(aa, bb)
    shp(ctx, R0, n, (3, 3), "a2b_rot/shape")
    unchanged(ctx, aa, ba, "a2b_rot")
    unchanged(ctx, bb, bbf, "a2b_rot")
    roll = float(rangle(rng)[0])
    R1 = rt.a2b_rot(aa, bb, roll=np.rad2deg(roll) if deg else roll, unit=unit)
    unchanged(ctx, aa, ba, "a2b_rot")
    unchanged(ctx, bb, bbf, "a2b_rot")
    for r0, r1, a, b in zip(as_stack(R0, n, (3, 3)), as_stack(R1, n, (3, 3)), A, B):
        a, b = un(a), un(b)
        for r in (r0, r1):
            ctx.close(r.dot(r.T), np.eye(3), "a2b_rot/orthonormal", atol=1e-9,
                      rtol=0)
            ctx.close(np.linalg.det(r), 1.0, "a2b_rot/proper", rtol=1e-9)
            ctx.close(r.dot(a), b, "a2b_rot/takes-a-to-b", atol=TOL, rtol=0,
                      msg=lambda: "a %r b %r" % (a, b))
        ctx.close(r1, rod(roll, b).dot(r0), "a2b_rot/roll", atol=TOL, rtol=0)
        # without roll it is the shortest such rotation
        want = 2 * np.arctan2(np.sqrt(((a - b) ** 2).sum()),
                              np.sqrt(((a + b) ** 2).sum()))
        tr = np.clip((np.trace(r0) - 1) / 2, -1, 1)
        ctx.close(np.cos(want), tr, "a2b_rot/shortest", atol=1e-7, rtol=0)
    # the x axis towards new_x
    nx, kn = raxis(rng)
    k = int(rng.randint(0, 5))
    z = np.array([0.0, 0, 1])
    if k == 0:
        nx = -rt.a2b_rot(z, B[0])[:, 0] * rng.choice([1.0, 5.0])
    elif k == 1:
        nx = B[0] * rng.choice([-1.0, 2.0])
    bnx = nx.copy()
    R2 = rt.a2b_rot([0, 0, 1], bb, new_x=nx)
    unchanged(ctx, nx, bnx, "a2b_rot new_x")
    unchanged(ctx, bb, bbf, "a2b_rot")
    for r, b in zip(np.reshape(R2, (-1, 3, 3)), B):
        b = un(b)
        ctx.close(r.dot(z), b, "a2b_rot/new_x/takes-a-to-b", atol=TOL, rtol=0)
        p = un(nx) - un(nx).dot(b) * b
        pn = np.sqrt((p ** 2).sum())
        if pn > 1e-4:
            ctx.close(r[:, 0], p / pn, "a2b_rot/new_x/x-axis", atol=1e-4, rtol=0,
                      msg=lambda: "b %r new_x %r" % (b, nx))
            ctx.count("new_x")
    ctx.saw('two', n, tuple(cl), side, deg, k)


def other_names(ctx, rng):
    """the other names of a function, and the ones in viscid itself, do the same"""
    import viscid
    mats = rt.e_rot(rangle(rng)[0], 'z').dot(rt.e_rot(rangle(rng)[0], 'y')).dot(
        rt.e_rot(rangle(rng)[0], 'x'))
    angs = rng.uniform(-1.4, 1.4, size=3)
    axes = str(rng.choice(['zyx', 'xyz', 'zxy', 'yzx']))
    ax = rng.standard_normal(3)
    ax /= np.linalg.norm(ax)
    w = float(rng.uniform(0.2, 2.9))
    q = np.array(rt.rot2quat(mats))
    a, b = rng.standard_normal(3), rng.standard_normal(3)
    kw = dict(axes=axes, unit='rad')
    table = [
        ('angle2rot', ['angles2rot', 'angle2rotm', 'angles2rotm'], (angs,), kw),
        ('angle2dcm', ['angles2dcm'], (angs,), kw),
        ('eul2rot', ['eul2rotm'], (angs,), kw),
        ('eul2dcm', [], (angs,), kw),
        ('rot2angle', ['rot2angles', 'rotm2angle', 'rotm2angles'], (mats,), kw),
        ('dcm2angle', ['dcm2angles'], (mats,), kw),
        ('rot2eul', ['rotm2eul'], (mats,), kw),
        ('dcm2eul', [], (mats,), kw),
        ('rot2quat', ['rotm2quat'], (mats,), {}),
        ('dcm2quat', [], (mats,), {}),
        ('quat2rot', ['quat2rotm'], (q,), {}),
        ('quat2dcm', [], (q,), {}),
        ('a2b_rot', ['a2b_rotm'], (a, b), {}),
        ('axang2rot', ['axang2rotm'], (np.concatenate([ax, [w]]),), {}),
        ('rot2axang', ['rotm2axang'], (mats,), {}),
        ('wxyz2rot', ['wxyz2rotm'], (w, ax), {}),
        ('rot2wxyz', ['rotm2wxyz'], (mats,), {}),
        ('axang2quat', [], (np.concatenate([ax, [w]]),), {}),
        ('wxyz2quat', [], (w, ax), {}),
        ('quat2axang', [], (q,), {}),
        ('quat2wxyz', [], (q,), {}),
        ('convert_angle', ['convert_angles'], (angs, 'rad', 'deg'), {}),
        ('e_rot', [], (w, 'y'), {}),
        ('e_dcm', [], (w, 'y'), {}),
        ('rotmul', [], (mats, mats), {}),
        ('rotate', [], (a, mats), {}),
        ('quatmul', [], (q, q), {}),
        ('quat_rotate', [], (a, q), {}),
        ('angle_between', [], (a, b), {}),
    ]
    name, others, args, kwa = table[rng.randint(len(table))]

    def run(fn):
        r = fn(*args, **kwa)
        r = r if isinstance(r, tuple) else (r, )
        return np.concatenate([np.ravel(np.asarray(v, 'f8')) for v in r])

    ctx.note(name=name, args=repr(args), kwargs=kwa)
    want = run(getattr(rt, name))
    for o in others:
        ctx.close(run(getattr(rt, o)), want, "names/" + o, atol=TIGHT, rtol=0)
    for o in [name] + others:
        if hasattr(viscid, o):
            ctx.close(run(getattr(viscid, o)), want,
                      "names/viscid." + o, atol=TIGHT, rtol=0)
    ctx.saw(name)


def detect(ctx, rng):
    """check_orthonormality and the angle units"""
    R, c = rrot(rng)
    perm = np.eye(3)[list([(0, 1, 2), (1, 2, 0), (2, 0, 1)][int(rng.randint(0, 3))])]
    ctx.check(rt.check_orthonormality(perm, bad_matrix='raise'),
              "check_orthonormality/true")
    bad = [np.diag([1.0, 1.0, -1.0]), R * 1.01, perm[[1, 0, 2]]][int(rng.randint(0, 3))]
    stack = np.array([perm, bad])
    for b in (bad, stack):
        ctx.raises(ValueError, lambda b=b: rt.check_orthonormality(b, 'raise'),
                   "check_orthonormality/raises", repr(b))
        ctx.raises(ValueError, lambda b=b: rt.rot2angle(b, bad_matrix='raise'),
                   "rot2angle/raises", repr(b))
        ctx.raises(ValueError, lambda b=b: rt.rot2wxyz(b, bad_matrix='raise'),
                   "rot2wxyz/raises", repr(b))
    a = rng.uniform(-720, 720, size=4)
    u1, u2 = str(rng.choice(['deg', 'Degrees', ' deg'])), str(rng.choice(['rad', 'RADIANS', 'rad ']))
    ctx.close(rt.convert_angle(a, u1, u2), a * np.pi / 180, "convert_angle", rtol=1e-12)
    ctx.close(rt.convert_angle(a, u2, u1), a * 180 / np.pi, "convert_angle", rtol=1e-12)
    ctx.close(rt.convert_angle(a, u1, u1), a, "convert_angle/same", rtol=1e-12, atol=1e-12)
    ctx.raises(ValueError, lambda: rt.convert_angle(a, 'grad', 'rad'), "convert_angle/raises")
    ctx.raises(ValueError, lambda: rt.e_rot(0.1, 'w'), "e_rot/raises")
    ctx.saw('detect', c)


SCENARIOS = [
    Scenario('forward', forward, quick=1500, thorough=6000),
    Scenario('back', back, quick=2400, thorough=10000),
    Scenario('quats', quats, quick=1500, thorough=6000),
    Scenario('axang', axang, quick=1500, thorough=6000),
    Scenario('apply', apply_, quick=1500, thorough=6000),
    Scenario('two_vectors', two_vectors, quick=1800, thorough=8000),
    Scenario('other_names', other_names, quick=300, thorough=1500),
    Scenario('detect', detect, quick=180, thorough=200),
]

"""G01 coordinate system transforms"""
from __future__ import print_function
import datetime as dtm
import math

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext
import viscid
from viscid import cotr as ct
from g02_rotation import rod

PID = "G01"
TECHNIQUE = ("runtime monitoring: every transform matrix, transformed vector, "
             "dipole moment and angle the real code returns is judged by an "
             "independent evaluation of Hapgood's published formulas with the "
             "IGRF coefficients, and by the group laws (inverse, composition, "
             "properness) over all pairs and triples of systems")
RULE = ("an execution counts when matrices for all 49 pairs (or vectors, "
        "moments, angles) were compared for one time; signatures are (how the "
        "time was given, decade, options, order of the calls)")
ASSUMPTIONS = [
    "Hapgood's simplified formulas are the specification; the date used to "
    "interpolate the IGRF coefficients may differ by a few hours of calendar "
    "convention (tolerance 5e-6)",
]
SYS = ['gei', 'geo', 'gse', 'gsm', 'sm', 'mag', 'mhd']
IGRF = [(1950, -30554.00, -2250.00, 5815.00), (1955, -30500.00, -2215.00, 5820.00),
        (1960, -30421.00, -2169.00, 5791.00), (1965, -30334.00, -2119.00, 5776.00),
        (1970, -30220.00, -2068.00, 5737.00), (1975, -30100.00, -2013.00, 5675.00),
        (1980, -29992.00, -1956.00, 5604.00), (1985, -29873.00, -1905.00, 5500.00),
        (1990, -29775.00, -1848.00, 5406.00), (1995, -29692.00, -1784.00, 5306.00),
        (2000, -29619.40, -1728.20, 5186.10), (2005, -29554.63, -1669.05, 5077.99),
        (2010, -29496.57, -1586.42, 4944.26), (2015, -29442.00, -1501.00, 4797.10)]
TOL = 5e-6


def setup():
    ext.ensure()


def hap(theta_deg, axis):
    """<theta, axis> of Hapgood: rotations of the axes for x and z, the
    opposite sense for y"""
    t = math.radians(theta_deg)
    c, s = math.cos(t), math.sin(t)
    if axis == 'X':
        return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
    if axis == 'Y':
        return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])


class Ref(object):
    """when: python datetime"""
    def __init__(self, when, notilt=False, tilt=None, gsm=None):
        day = dtm.datetime(when.year, when.month, when.day)
        mjd = (day - dtm.datetime(1858, 11, 17)).days
        ut = (when - day).total_seconds() / 3600.0
        T0 = (mjd - 51544.5) / 36525.0
        T1 = hap(100.461 + 36000.770 * T0 + 15.04107 * ut, 'Z')
        M = math.radians(357.528 + 35999.050 * T0 + 0.04107 * ut)
        L = 280.460 + 36000.772 * T0 + 0.04107 * ut
        lam = L + (1.915 - 0.0048 * T0) * math.sin(M) + 0.020 * math.sin(2 * M)
        T2 = hap(lam, 'Z').dot(hap(23.439 - 0.013 * T0, 'X'))
        y0 = dtm.datetime(when.year, 1, 1)
        yr = when.year + (when - y0).total_seconds() / \
            (dtm.datetime(when.year + 1, 1, 1) - y0).total_seconds()
        g10, g11, h11 = IGRF[0][1:] if yr <= 1950 else IGRF[-1][1:]
        for a, b in zip(IGRF[:-1], IGRF[1:]):
            if a[0] <= yr <= b[0]:
                w = (yr - a[0]) / float(b[0] - a[0])
                g10, g11, h11 = [p + w * (q - p) for p, q in zip(a[1:], b[1:])]
        lon = math.atan2(h11, g11) + math.pi
        lat = math.pi / 2 - math.asin((g11 * math.cos(lon) + h11 * math.sin(lon)) / g10)
        T5 = hap(math.degrees(lat) - 90.0, 'Y').dot(hap(math.degrees(lon), 'Z'))
        Qg = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon),
                       math.sin(lat)])
        Qe = T2.dot(T1.T).dot(Qg)
        psi = math.degrees(math.atan2(Qe[1], Qe[2]))
        mu = math.degrees(math.atan2(Qe[0], math.hypot(Qe[1], Qe[2])))
        if tilt is not None or gsm is not None:
            mu, psi = tilt or 0.0, gsm or 0.0
        elif notilt:
            mu, psi = 0.0, 0.0
        if notilt:
            T1 = T2 = T5 = np.eye(3)
        self.mu, self.psi = mu, psi
        T3, T4 = hap(-psi, 'X'), hap(-mu, 'Y')
        # everything by way of gei
        self.from_gei = dict(gei=np.eye(3), geo=T1, gse=T2, gsm=T3.dot(T2),
                             sm=T4.dot(T3).dot(T2), mag=T5.dot(T1),
                             mhd=np.diag([-1.0, -1.0, 1.0]).dot(T2))

    def mat(self, a, b):
        return self.from_gei[b].dot(self.from_gei[a].T)


def rtime(rng):
    """a time and the ways of giving it"""
    k = rng.randint(5)
    if k == 0:
        y = rng.randint(1900, 2100)
    elif k == 1:
        y = 1950 + 5 * rng.randint(14)
    else:
        y = rng.randint(1950, 2025)
    base = dtm.datetime(y, 1, 1)
    kind = ['iso', 'iso-frac', 'colons', 'datetime', 'ns', 'ms', 's', 'date',
            'M8date', 'us'][rng.randint(10)]
    secs = rng.randint(0, 365 * 86400)
    t = base + dtm.timedelta(seconds=int(secs))
    if rng.randint(6) == 0:
        t = dtm.datetime(t.year, t.month, t.day, *[(0, 0, 0), (23, 59, 59), (12, 0, 0)][rng.randint(3)])
    if kind in ('iso-frac', 'datetime', 'ns', 'us', 'ms'):
        t = t + dtm.timedelta(microseconds=int(rng.randint(1000)) * 1000)
    if kind in ('date', 'M8date'):
        t = dtm.datetime(t.year, t.month, t.day)
    if t.year == 1967 and t.month == 1 and t.day == 1:
        t = t + dtm.timedelta(days=40)
    return t, give(t, kind), kind


def give(t, kind):
    if kind == 'iso':
        return t.strftime('%Y-%m-%dT%H:%M:%S')
    if kind == 'iso-frac':
        return t.strftime('%Y-%m-%dT%H:%M:%S') + '.%03d' % (t.microsecond // 1000)
    if kind == 'colons':
        return t.strftime('%Y:%m:%d:%H:%M:%S')
    if kind == 'datetime':
        return t
    if kind == 'date':
        return t.strftime('%Y-%m-%d')
    if kind == 'M8date':
        return np.datetime64(t.strftime('%Y-%m-%d'))
    return np.datetime64(t, kind)


def spell(rng, s):
    return [s, s, s.upper(), ' ' + s + ' '][rng.randint(4)]


def all_mats(ctx, c, ref, rng, key, tol=TOL, systems=SYS):
    """observe the matrices in a random order, then judge them"""
    pairs = [(a, b) for a in systems for b in systems]
    rng.shuffle(pairs)
    got = {}
    for a, b in pairs:
        m = c.get_transform_matrix(spell(rng, a).strip().lower(), b)
        ctx.check(m.shape == (c.rdim, c.rdim), key + "/shape")
        if c.rdim == 4:
            ctx.close(m[3], [0, 0, 0, 1], key + "/fourth", atol=1e-12)
            ctx.close(m[:, 3], [0, 0, 0, 1], key + "/fourth", atol=1e-12)
        got[(a, b)] = np.array(m[:3, :3])
    for a, b in pairs:
        m = got[(a, b)]
        t = tol if {a, b} - {'gei', 'geo', 'gse', 'mhd'} else 1e-9
        ctx.close(m, ref.mat(a, b), key + "/formula", atol=t, rtol=0,
                  msg=lambda: "%s->%s" % (a, b))
        ctx.close(m.dot(m.T), np.eye(3), key + "/orthonormal", atol=1e-12, rtol=0)
        ctx.close(np.linalg.det(m), 1.0, key + "/proper", rtol=1e-12)
        ctx.close(m, got[(b, a)].T, key + "/inverse", atol=1e-12, rtol=0)
        for x in systems:
            ctx.close(got[(x, b)].dot(got[(a, x)]), m, key + "/composition",
                      atol=1e-12, rtol=0, msg=lambda: "%s->%s->%s" % (a, x, b))
    ctx.count("matrices", len(pairs))
    return got


def hapgood(ctx, rng):
    t, given, kind = rtime(rng)
    rdim = [3, 3, 4][rng.randint(3)]
    ctx.note(time=str(t), kind=kind, rdim=rdim)
    c = viscid.Cotr(given, rdim=rdim)
    ref = Ref(t)
    if rng.randint(2):        # touch the angles first
        tilt, gsm = c.get_dipole_angles()
        all_mats(ctx, c, ref, rng, "matrix")
    else:
        all_mats(ctx, c, ref, rng, "matrix")
        tilt, gsm = c.get_dipole_angles()
    ctx.close(np.deg2rad([tilt, gsm]), np.deg2rad([ref.mu, ref.psi]), "angles",
              atol=TOL, rtol=0)
    ctx.same(viscid.get_dipole_angles(given), (tilt, gsm), "angles/function")
    ctx.saw(kind, t.year // 10, rdim, t.hour)


def vectors(ctx, rng):
    t, given, kind = rtime(rng)
    rdim = [3, 3, 4][rng.randint(3)]
    a, b = SYS[rng.randint(7)], SYS[rng.randint(7)]
    n = [None, 1, 2, 3, 4, 17][rng.randint(6)]
    dt = ['f8', 'f8', 'f4', 'i8', 'list'][rng.randint(5)]
    v = rng.normal(size=(3,) if n is None else (3, n)) * 10.0 ** rng.uniform(-2, 4)
    if dt == 'i8':
        v = np.round(v * 10)
    v = v.astype('f8' if dt == 'list' else dt)
    if n and rng.randint(2):
        v = np.asfortranarray(v)
    v.flags.writeable = False
    before = v.copy()
    arg = v.tolist() if dt == 'list' else v
    ctx.note(time=str(t), kind=kind, a=a, b=b, v=v.tolist(), dt=dt, rdim=rdim)
    M = Ref(t).mat(a, b)
    how = rng.randint(2)
    if how:
        got = viscid.cotr_transform(given, spell(rng, a), spell(rng, b), arg)
    else:
        c = viscid.Cotr(given, rdim=rdim)
        got = c.transform(spell(rng, a), spell(rng, b), arg)
    ctx.same(v, before, "transform/argument-changed")
    scale = np.abs(v).max()
    ctx.close(got, M.dot(v.astype('f8')), "transform/vector",
              atol=TOL * scale, rtol=0)
    # each on its own gives the same
    if n:
        c = viscid.Cotr(given)
        for i in range(n):
            ctx.close(c.transform(a, b, v[:, i]), got[:, i], "transform/each",
                      atol=(1e-6 if dt == 'f4' else 1e-12) * scale, rtol=0)
    # axis and angle of the rotation
    c = viscid.Cotr(given)
    w = c.get_rotation_wxyz(a, b)
    ctx.check(np.all(np.isfinite(w)), "rotation_wxyz/finite", repr(w))
    ctx.close(np.sum(w[1:] ** 2), 1.0, "rotation_wxyz/unit", rtol=1e-9)
    ctx.close(rod(np.deg2rad(w[0]), w[1:]), M, "rotation_wxyz/rotation", atol=2e-5, rtol=0)
    w2 = ct.get_rotation_wxyz(np.array(M), quick=False)
    ctx.close(rod(np.deg2rad(w2[0]), w2[1:]), M, "rotation_wxyz/slow", atol=1e-6, rtol=0)
    ctx.raises(ValueError, lambda: ct.get_rotation_wxyz(M * 1.1), "rotation_wxyz/raises")
    # longer vectors, for matrices that also shift
    nd = [3, 4, 4][rng.randint(3)]
    fill = tuple(float(x) for x in rng.randint(-9, 9, 4))
    for init in (None, fill):
        g = ct.as_nvec(arg, nd) if init is None else ct.as_nvec(arg, nd, init_vals=init)
        w = (0, 0, 0, 1) if init is None else init
        ctx.check(g.shape == (nd,) + v.shape[1:], "as_nvec/shape", repr(g.shape))
        ctx.same(np.asarray(g[:3], dtype='f8'), v.astype('f8'), "as_nvec/values")
        ctx.check(np.all(g[3:] == w[3]), "as_nvec/filled", repr(g))
    ctx.raises((ValueError, TypeError), lambda: c.transform('gse', 'nope', [1, 2, 3.0]),
               "transform/unknown-system")
    ctx.saw(kind, a, b, n, dt, rdim, how)


def moments(ctx, rng):
    t, given, kind = rtime(rng)
    s = [1.0, 3.0574e4, 32707.5, float(10 ** rng.uniform(-3, 5))][rng.randint(4)]
    crd = SYS[rng.randint(7)]
    ref = Ref(t)
    want = ref.mat('sm', crd).dot([0, 0, -s])
    ctx.note(time=str(t), kind=kind, crd=crd, s=s)
    ctx.close(viscid.get_dipole_moment(given, crd_system=spell(rng, crd), strength=s), want,
              "moment", atol=TOL * s, rtol=0)
    ctx.close(viscid.Cotr(given).get_dipole_moment(crd, strength=s), want, "moment",
              atol=TOL * s, rtol=0)
    # set by hand
    k = rng.randint(4)
    tilt = float(rng.uniform(-89, 89)) if k != 1 else 0.0
    gsm = float(rng.uniform(-179, 179)) if k != 2 else 0.0
    kw = [dict(dip_tilt=tilt, dip_gsm=gsm), dict(dip_gsm=gsm), dict(dip_tilt=tilt),
          dict(dip_tilt=tilt, dip_gsm=gsm)][k]
    # the rest may depend on the time, which may be the special day
    special = rng.randint(3) == 0
    c = viscid.Cotr('1967-01-01' if special else given, **kw)
    r = Ref(t, notilt=special, tilt=kw.get('dip_tilt'), gsm=kw.get('dip_gsm'))
    ctx.close(c.get_dipole_angles(), (r.mu, r.psi), "by-hand/angles", rtol=1e-12)
    # the north pole is sunward for positive tilt, duskward for positive psi
    north = -np.asarray(c.get_dipole_moment('gse', strength=1.0))
    tr, gr = np.deg2rad(r.mu), np.deg2rad(r.psi)
    ctx.close(north, [np.sin(tr), np.cos(tr) * np.sin(gr), np.cos(tr) * np.cos(gr)],
              "by-hand/pole", atol=1e-12, rtol=0)
    nomag = [x for x in SYS if x != 'mag']
    all_mats(ctx, c, r, rng, "by-hand", tol=1e-9, systems=nomag)
    if not special:
        ctx.raises(RuntimeError, lambda: c.transform('mag', 'gse', [1.0, 2, 3]), "by-hand/mag-refused")
    got = viscid.get_dipole_moment_ang(crd_system='gse', strength=s, **kw)
    ctx.close(got, -s * north, "moment_ang", atol=1e-9 * s, rtol=0)
    got = viscid.get_dipole_moment_ang(crd_system='mhd', strength=s, **kw)
    ctx.close(got, -s * north * [-1, -1, 1], "moment_ang", atol=1e-9 * s, rtol=0)
    # and back from the moment
    for sysn in ('gse', 'mhd'):
        m = c.get_dipole_moment(sysn, strength=s)
        b = m.copy()
        c2 = viscid.cotr.dipole_moment2cotr(m, crd_system=sysn)
        ctx.same(m, b, "moment2cotr/argument-changed")
        ctx.close(c2.get_dipole_moment(sysn, strength=s), m, "moment2cotr/moment",
                  atol=1e-9 * s, rtol=0)
        if abs(r.mu) < 89 and abs(r.psi) < 179:
            ctx.close(c2.get_dipole_angles(), (r.mu, r.psi), "moment2cotr/angles",
                      atol=1e-6, rtol=0)
    ctx.saw(kind, crd, k, special, int(tilt // 30), int(gsm // 60))


def notilt(ctx, rng):
    secs = [0, 1, 3600 * 5, 43200, 86399, int(rng.randint(86400))][rng.randint(6)]
    off = [0, 0, 0, -86400, 86400][rng.randint(5)]
    t = dtm.datetime(1967, 1, 1) + dtm.timedelta(seconds=secs + off)
    kinds = ['iso', 'colons', 'datetime', 's', 'ns']
    if secs == 0:
        kinds += ['date', 'M8date']
    kind = kinds[rng.randint(len(kinds))]
    given = give(t, kind)
    flag = bool(rng.randint(2))
    special = flag and off == 0
    ctx.note(t=str(t), kind=kind, flag=flag)
    c = viscid.Cotr(given, notilt1967=flag)
    ref = Ref(t, notilt=special)
    got = all_mats(ctx, c, ref, rng, "notilt" if special else "other-1967")
    if special:
        flip = np.diag([-1.0, -1.0, 1.0])
        for (a, b), m in got.items():
            want = flip if (a == 'mhd') != (b == 'mhd') else np.eye(3)
            ctx.close(m, want, "notilt/identity", atol=1e-15, rtol=0,
                      msg=lambda: "%s->%s" % (a, b))
        ctx.close(viscid.get_dipole_moment(given, 'gse', strength=2.0), [0, 0, -2.0],
                  "notilt/moment", atol=1e-12)
    ctx.close(np.deg2rad(viscid.get_dipole_angles(given, notilt1967=flag)),
              np.deg2rad([ref.mu, ref.psi]), "notilt/angles", atol=TOL, rtol=0)
    ctx.close(viscid.cotr_transform(given, 'gse', 'sm', [1.0, 2, 3], notilt1967=flag),
              ref.mat('gse', 'sm').dot([1.0, 2, 3]), "notilt/transform", atol=1e-4)
    ctx.saw(kind, secs if secs in (0, 1, 18000, 43200, 86399) else 'r', off, flag)


class Thing(object):
    pass


def finders(ctx, rng):
    """objects that know their system and transform"""
    t, given, kind = rtime(rng)
    ref = Ref(t)
    want = [ref.mu, ref.psi]
    chk = lambda c, key, w=want: ctx.close(np.deg2rad(c.get_dipole_angles()),
                                           np.deg2rad(w), key, atol=TOL, rtol=0)
    c = viscid.as_cotr(given)
    chk(c, "as_cotr/time")
    ctx.check(viscid.as_cotr(c) is c, "as_cotr/identity")
    chk(viscid.as_cotr(None), "as_cotr/none", [0, 0])
    ctx.close(viscid.as_cotr(None).get_transform_matrix('gei', 'sm'), np.eye(3), "as_cotr/none")
    chk(viscid.as_cotr(dict(dip_tilt=12.0, dip_gsm=-7.0)), "as_cotr/mapping", [12.0, -7.0])
    chk(viscid.as_cotr(dict(time=given)), "as_cotr/mapping")
    th = Thing()
    th.__cotr__ = c
    ctx.check(viscid.as_cotr(th) is c, "as_cotr/property")
    f = viscid.zeros([np.linspace(0, 1, 3)] * 3, center='node')
    ctx.raises(TypeError, lambda: viscid.as_cotr(f), "as_cotr/raises")
    ctx.raises(TypeError, lambda: viscid.as_cotr(object()), "as_cotr/raises")
    chk(viscid.as_cotr(f, default=given), "as_cotr/default")
    chk(viscid.as_cotr(f, default=None), "as_cotr/default-none", [0, 0])
    f.set_info('dipoletime', given)
    chk(viscid.as_cotr(f), "as_cotr/dipoletime")
    g = f['x=1:'] + 1.0
    if g.find_info('dipoletime', None) is not None:
        chk(viscid.as_cotr(g), "as_cotr/derived")
        ctx.count("derived")
    f.set_info('cotr', dict(dip_tilt=3.0))
    chk(viscid.as_cotr(f), "as_cotr/info", [3.0, 0])
    f.set_info('cotr', c)
    ctx.check(viscid.as_cotr(f) is c, "as_cotr/info")
    s = SYS[rng.randint(7)]
    ctx.check(viscid.as_crd_system(' %s ' % s.upper()) == s, "as_crd_system/string")
    f = viscid.zeros([np.linspace(0, 1, 3)] * 3, center='node')
    ctx.raises(TypeError, lambda: viscid.as_crd_system(f), "as_crd_system/raises")
    ctx.check(viscid.as_crd_system(f, s) == s, "as_crd_system/default")
    f.set_info('crd_system', s.upper())
    ctx.check(viscid.as_crd_system(f, 'gei') == s, "as_crd_system/info")
    th = Thing()
    th.__crd_system__ = s
    ctx.check(viscid.as_crd_system(th) == s, "as_crd_system/property")
    ctx.check(viscid.as_crd_system(None) == "Unknown", "as_crd_system/none")
    # building blocks
    th = float(rng.uniform(-400, 400))
    if rng.randint(4) == 0:
        th = float(90 * rng.randint(-4, 5))
    for i, ax in enumerate('xyz'):
        for rdim in (3, 4):
            m = ct.make_rotation(th, [ax, ax.upper(), i][rng.randint(3)], rdim=rdim)
            w = np.eye(rdim)
            w[:3, :3] = hap(th, ax.upper())
            ctx.close(m, w, "make_rotation", atol=1e-12)
    v = rng.normal(size=3)
    p = np.append(rng.normal(size=3), 1.0)
    T, Ti = ct.make_translation(v)
    ctx.close(T.dot(p), np.append(p[:3] + v, 1.0), "make_translation", atol=1e-12)
    ctx.close(Ti.dot(p), np.append(p[:3] - v, 1.0), "make_translation/inverse", atol=1e-12)
    ctx.saw(kind, s, t.year)


SCENARIOS = [
    Scenario('hapgood', hapgood, quick=800, thorough=3000),
    Scenario('vectors', vectors, quick=3000, thorough=8000),
    Scenario('moments', moments, quick=800, thorough=3000),
    Scenario('notilt', notilt, quick=600, thorough=1000),
    Scenario('finders', finders, quick=600, thorough=1000),
]

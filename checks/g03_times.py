"""G03 dates and elapsed times"""
from __future__ import print_function
import datetime as dtm
from fractions import Fraction
import math

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext
import viscid
from viscid import npdatetime as nd

PID = "G03"
TECHNIQUE = ("runtime monitoring: every converted, summed, subtracted, "
             "regularised, formatted or evenly spaced time that the real code "
             "returns is judged by exact integer / rational arithmetic on "
             "attoseconds since 1970; formatted times are parsed back")
RULE = ("an execution counts when the instant held by a result was compared "
        "with the exact one; signatures are (function, input form, units, "
        "options, magnitude class)")
ASSUMPTIONS = [
    "numbers of seconds are kept to 1 ns (or to 1 part in 1e4 below 10 us, or "
    "to the precision of a double)",
    "coarser units drop what they cannot hold (less than one unit)",
]
ATT = dict([('as', 1), ('fs', 10 ** 3), ('ps', 10 ** 6), ('ns', 10 ** 9), ('us', 10 ** 12),
            ('ms', 10 ** 15), ('s', 10 ** 18), ('m', 60 * 10 ** 18), ('h', 3600 * 10 ** 18),
            ('D', 86400 * 10 ** 18), ('W', 7 * 86400 * 10 ** 18)])
FINE = ['as', 'fs', 'ps', 'ns', 'us', 'ms', 's', 'm', 'h']
ORDER = FINE + ['D', 'W']
I64 = 2 ** 63 - 1
EPOCH = dtm.datetime(1970, 1, 1)


def setup():
    ext.ensure()


def unit_of(t):
    n = t.dtype.name
    return n[n.index('[') + 1:-1]


def att(t):
    """exact attoseconds (since 1970 for dates)"""
    if isinstance(t, dtm.datetime):
        t = t - EPOCH
    if isinstance(t, dtm.timedelta):
        return ((t.days * 86400 + t.seconds) * 10 ** 6 + t.microseconds) * 10 ** 12
    u = unit_of(t)
    i = int(t.astype('i8'))
    if u in ('M', 'Y'):
        d = t.astype('M8[D]')
        return int(d.astype('i8')) * ATT['D']
    return i * ATT[u]


def r_unit(rng, lo='as'):
    us = FINE[FINE.index(lo):] + ['D']
    return us[rng.randint(len(us))]


def r_count(rng, unit, years=200):
    """a number of units that stays within +- years of 1970"""
    # (numpy's conversions wrap within one unit of the 64 bit limits)
    span = min(int(I64 * 0.95), int(years * 365.25 * 86400 * 10 ** 18) // ATT[unit])
    k = rng.randint(5)
    if k == 0:
        v = int(span * rng.uniform(-1, 1))
    elif k == 1:
        v = int(math.copysign(min(span, 10 ** rng.uniform(0, 18)), rng.uniform(-1, 1)))
    elif k == 2:
        v = int(rng.randint(-3, 4))
    elif k == 3:
        # whole days and hours
        v = int(span * rng.uniform(-1, 1)) // (3600 * 10 ** 18 // min(ATT[unit], 3600 * 10 ** 18))
        v = v * max(1, 3600 * 10 ** 18 // ATT[unit])
    else:
        v = int(span * rng.uniform(0, 1))
    return max(-span, min(span, v))


def r_date(rng, lo='as', years=200):
    u = r_unit(rng, lo)
    return np.datetime64(r_count(rng, u, years), u)


def r_delta(rng, lo='as', years=200):
    u = r_unit(rng, lo)
    return np.timedelta64(r_count(rng, u, years), u)


def fits(a, unit):
    return a % ATT[unit] == 0 and abs(a) // ATT[unit] <= I64


def within_unit(ctx, got, want, key, msg=""):
    """got (a numpy time) equals want (attoseconds) to less than its unit"""
    err = abs(att(got) - want)
    ctx.check(err < ATT.get(unit_of(got), 0) or err == 0, key,
              lambda: "%r is off by %g s %s" % (got, err / 1e18, msg))


# ---- dates -----------------------------------------------------------------
def iso(a, digits):
    """a string of instant a (attoseconds)"""
    days, r = divmod(a, ATT['D'])
    d = dtm.date(1970, 1, 1) + dtm.timedelta(days=days)
    s, f = divmod(r, 10 ** 18)
    out = "%04d-%02d-%02dT%02d:%02d:%02d" % (d.year, d.month, d.day, s // 3600, s // 60 % 60, s % 60)
    if digits:
        out += ".%018d" % f
        out = out[:len(out) - 18 + digits]
    return out


def dates(ctx, rng):
    digits = [0, 0, 1, 2, 3, 6, 7, 9][rng.randint(8)]
    step = 10 ** (18 - digits)
    a = r_count(rng, 'us', 150) * 10 ** 12 + int(rng.randint(10 ** 6)) * 10 ** 6
    a = a // step * step
    form = ['iso', 'colons', 'UT', 'datetime', 'M8', 'space', 'T-less'][rng.randint(7)]
    s = iso(a, digits)
    if form == 'colons':
        given = s.replace('-', ':').replace('T', ':')
    elif form == 'UT':
        given = 'UT' + s
    elif form == 'datetime':
        a = a // 10 ** 12 * 10 ** 12
        given = EPOCH + dtm.timedelta(microseconds=a // 10 ** 12)
    elif form == 'M8':
        u = {0: 's', 1: 'ms', 2: 'ms', 3: 'ms', 6: 'us', 7: 'ns', 9: 'ns'}[digits]
        given = np.datetime64(a // ATT[u], u)
    elif form == 'space':
        given = ' %s ' % s
    elif form == 'T-less':
        given = s.replace('T', ' ')
    else:
        given = s
    ctx.note(form=form, given=repr(given), att=a)
    got = nd.as_datetime64(given)
    ctx.check(isinstance(got, np.datetime64), "as_datetime64/type", repr(got))
    ctx.check(att(got) == a, "as_datetime64/instant", lambda: "%r -> %r" % (given, got))
    ctx.check(nd.is_datetime_like(given), "is_datetime_like", repr(given))
    ctx.check(nd.is_time_like(given), "is_time_like", repr(given))
    if isinstance(given, str):
        again = nd.as_isotime(given)
        ctx.check(att(np.datetime64(again)) == a, "as_isotime/instant",
                  lambda: "%r -> %r" % (given, again))
        ctx.check(nd.as_isotime([given, given]) == [again, again], "as_isotime/list")
        arr = nd.as_isotime(np.array([given]))
        ctx.check(att(np.datetime64(arr[0])) == a, "as_isotime/array", repr(arr))
        ctx.raises(TypeError, lambda: nd.as_isotime(5.0), "as_isotime/raises")
        ctx.raises(ValueError, lambda: nd.as_datetime64("what?"), "as_datetime64/raises")
    # target units
    u = r_unit(rng)
    try:
        g = nd.as_datetime64(given, unit=u)
    except (OverflowError, ValueError):
        g = None
        ctx.check(abs(a) // ATT[u] > I64 or u in ('as', 'fs', 'ps'), "as_datetime64/unit-refused", u)
    if g is not None and abs(a) // ATT[u] <= I64:
        ctx.check(unit_of(g) == u, "as_datetime64/unit", repr(g))
        within_unit(ctx, g, a, "as_datetime64/unit-instant")
    py = nd.as_datetime(given)
    ctx.check(isinstance(py, dtm.datetime), "as_datetime/type", repr(py))
    ctx.check(0 <= a - att(py) < 10 ** 12, "as_datetime/instant", lambda: "%r -> %r" % (given, py))
    # sequences
    for seq in ([given, given], (given,)):
        arr = nd.as_datetime64(seq)
        ctx.check(isinstance(arr, np.ndarray) and len(arr) == len(seq), "as_datetime64/seq")
        for x in arr:
            ctx.check(att(x) == a, "as_datetime64/seq-instant", lambda: "%r -> %r" % (given, x))
        for x in nd.as_datetime(seq):
            ctx.check(0 <= a - att(x) < 10 ** 12, "as_datetime/seq-instant", repr(x))
    arr = np.array([got, got])
    ctx.same(nd.as_datetime64(arr), arr, "as_datetime64/array")
    ctx.saw('dates', form, digits, u, a > 0)


def tol_of(sec):
    """allowed error of a number of seconds"""
    sec = abs(sec)
    return max(Fraction(1, 10 ** 9) if sec >= Fraction(1, 10 ** 5) else sec / 10 ** 4,
               sec * Fraction(4, 10 ** 15))


def deltas(ctx, rng):
    form = ['float', 'float', 'int', 'f4', 'npint', 'str-s', 'str-ms', 'str-hms', 'timedelta', 'm8'][rng.randint(10)]
    unit = None
    if form in ('float', 'int', 'f4', 'npint') and rng.randint(2):
        unit = ['us', 'ms', 's', 'm', 'h', 'D', 'W'][rng.randint(7)]
    mult = Fraction(ATT[unit or 's'], 10 ** 18)
    if form in ('float', 'f4'):
        v = float(10.0 ** rng.uniform(-9, 6)) * [1, -1][rng.randint(2)]
        k = rng.randint(4)
        if k == 0:
            v = round(v, rng.randint(0, 5))
        elif k == 1:
            v = float(rng.randint(-10 ** 5, 10 ** 5)) + [0.5, 0.25, 0.1, 0.125][rng.randint(4)]
        given = np.float32(v) if form == 'f4' else (v if rng.randint(2) else np.float64(v))
        if v != 0 and abs(Fraction(float(given)) * mult) < Fraction(1, 10 ** 12):
            raise Skip()
        sec = Fraction(float(given)) * mult
    elif form in ('int', 'npint'):
        v = int(rng.randint(-10 ** 6, 10 ** 6)) * [1, 1, 1000][rng.randint(3)]
        given = v if form == 'int' else [np.int64, np.int32][rng.randint(2)](v)
        sec = Fraction(v) * mult
    elif form.startswith('str'):
        nfrac = rng.randint(0, 7)
        f = "%0*d" % (nfrac, rng.randint(0, 10 ** nfrac)) if nfrac else ""
        s = rng.randint(0, 60)
        sec = Fraction(int(s)) + (Fraction(int(f), 10 ** nfrac) if f else 0)
        given = "%02d" % s + ("." + f if f else "")
        if form != 'str-s':
            m = rng.randint(0, 60)
            given = "%d:" % m + given
            sec += 60 * int(m)
        if form == 'str-hms':
            hh = rng.randint(0, 200)
            given = "%d:" % hh + given
            sec += 3600 * int(hh)
        if rng.randint(4) == 0:         # all of it is negative
            given, sec = '-' + given, -sec
        if rng.randint(2):
            given = 'T' + given
    elif form == 'timedelta':
        given = dtm.timedelta(days=int(rng.randint(-400, 400)), seconds=int(rng.randint(86400)),
                              microseconds=int(rng.randint(10 ** 6)))
        sec = Fraction(att(given), 10 ** 18)
    else:
        given = r_delta(rng)
        sec = Fraction(att(given), 10 ** 18)
    ctx.note(form=form, given=repr(given), unit=unit)
    got = nd.as_timedelta64(given, unit=unit) if unit else nd.as_timedelta64(given)
    ctx.check(isinstance(got, np.timedelta64), "as_timedelta64/type", repr(got))
    err = abs(Fraction(att(got), 10 ** 18) - sec)
    ctx.check(err <= (0 if form in ('int', 'npint', 'timedelta', 'm8') else tol_of(sec)),
              "as_timedelta64/value", lambda: "%r [%s] -> %r" % (given, unit, got))
    ctx.check(nd.is_timedelta_like(given), "is_timedelta_like", repr(given))
    ctx.check(nd.is_time_like(given), "is_time_like", repr(given))
    if form in ('timedelta', 'm8'):
        ctx.check(nd.is_timedelta_like(given, conservative=True), "is_timedelta_like/conservative")
        ctx.check(not nd.is_datetime_like(given), "is_datetime_like/delta")
    if form in ('float', 'int', 'f4', 'npint'):
        ctx.check(not nd.is_timedelta_like(given, conservative=True), "is_timedelta_like/conservative")
        ctx.check(not nd.is_datetime_like(given, conservative=True), "is_datetime_like/number")
    if abs(sec) < 9 * 10 ** 12:  # microseconds in 64 bits
        td = nd.as_timedelta(given, unit=unit)
        ctx.check(isinstance(td, dtm.timedelta), "as_timedelta/type", repr(td))
        err = abs(Fraction(att(td), 10 ** 18) - sec)
        ctx.check(err <= tol_of(sec) + Fraction(1, 10 ** 6), "as_timedelta/value", lambda: "%r -> %r" % (given, td))
    lst = nd.as_timedelta64([given, given], unit=unit)
    for x in lst:
        ctx.check(att(x) == att(got), "as_timedelta64/seq", lambda: "%r %r" % (x, got))
    # a date that many seconds after 1970
    if form != 'm8' and unit is None and not form.startswith('str'):
        dt = nd.as_datetime64(given)
        ctx.check(isinstance(dt, np.datetime64) and att(dt) == att(got), "as_datetime64/elapsed",
                  lambda: "%r -> %r" % (given, dt))
    ctx.saw('deltas', form, unit, int(math.log10(abs(sec))) if sec else 0, sec > 0)


# ---- common units ----------------------------------------------------------
def common(ctx, rng):
    n = 1 + rng.randint(4)
    ts = [r_date(rng) if rng.randint(2) else r_delta(rng) for _ in range(n)]
    kw = {}
    unit = None
    if rng.randint(2):
        unit = kw['unit'] = FINE[rng.randint(len(FINE))]
    most = kw['most_precise'] = bool(rng.randint(3) == 0)
    ar = kw['allow_rounding'] = bool(rng.randint(3))
    a0 = kw['allow0'] = bool(rng.randint(3))
    want = [att(t) for t in ts]
    u0 = unit or ORDER[min(ORDER.index(unit_of(t)) for t in ts)]
    single = n == 1 and rng.randint(2)
    arg = ts[0] if single else (tuple(ts) if rng.randint(2) else list(ts))
    ctx.note(ts=repr(ts), kw=kw)

    def too_big(u):
        """numpy may refuse what needs a factor of 1e18 or more"""
        return any(abs(w) // ATT[u] > I64 or
                   (unit_of(t) != u and ATT[unit_of(t)] // ATT[u] >= 10 ** 15)
                   for w, t in zip(want, ts))

    def lost(u):
        return [w for w in want if w != 0 and abs(w) < ATT[u]]
    try:
        got = nd.regularize_time(arg, **kw)
    except OverflowError:
        ctx.check(not ar and too_big(u0), "regularize/needless-overflow", repr((ts, kw)))
        got = None
        ctx.count("overflow-reported")
    except nd.PrecisionError:
        # some unit that was tried dropped a value
        us = [u for u in ORDER[ORDER.index(u0):]]
        ctx.check(not a0 and any(lost(u) for u in us), "regularize/needless-precision-error",
                  repr((ts, kw)))
        got = None
        ctx.count("precision-reported")
    if got is not None:
        lst = [got] if single else got
        ctx.check(len(lst) == n, "regularize/number", repr(lst))
        us = set(unit_of(g) for g in lst)
        ctx.check(len(us) == 1, "regularize/common", repr(lst))
        u = us.pop()
        for g, t, w in zip(lst, ts, want):
            ctx.check(type(g) is type(t), "regularize/kind", repr((g, t)))
            if most and (unit or too_big(u0)):
                # rounded to a unit that was given, or that fits, then refined
                ctx.check(att(g) == w or abs(att(g) - w) < max(ATT[u], ATT[unit or 'ns'], 10 ** 9),
                          "regularize/most-precise-value", lambda: repr((g, ts, kw)))
            else:
                within_unit(ctx, g, w, "regularize/value", repr((ts, kw)))
            if not a0:
                ctx.check(w == 0 or att(g) != 0, "regularize/lost", repr((ts, kw)))
        if not most:
            ctx.check(ORDER.index(u) >= ORDER.index(u0), "regularize/unit", repr((u, u0)))
            if not too_big(u0):
                ctx.check(u == u0, "regularize/needless-rounding", repr((u, u0, ts)))
            if not ar:
                ctx.check(u == u0, "regularize/rounded", repr((u, u0, ts)))
        elif ORDER.index(u) > 0 and not unit:
            finer = ORDER[ORDER.index(u) - 1]
            # numpy checks only overflow, so the finest that fits is found
            ctx.check(too_big(finer) or any(w % ATT[u] for w in want), "regularize/most-precise",
                      repr((u, ts)))
    # rounding
    u = FINE[rng.randint(len(FINE))]
    try:
        rr = nd.round_time(arg, u, allow0=a0)
    except nd.PrecisionError:
        ctx.check(not a0 and bool(lost(u)), "round/needless-error", repr((ts, u)))
        rr = None
    if rr is not None:
        for g, t, w in zip([rr] if single else rr, ts, want):
            ctx.check(ORDER.index(unit_of(g)) >= ORDER.index(u), "round/unit", repr((g, u)))
            if ORDER.index(unit_of(t)) >= ORDER.index(u):
                ctx.check(unit_of(g) == unit_of(t) and att(g) == w, "round/kept", repr((g, t)))
            within_unit(ctx, g, w, "round/value")
            if not a0:
                ctx.check(w == 0 or att(g) != 0, "round/lost", repr((ts, u)))
    ctx.saw('common', n, unit, most, ar, a0, tuple(sorted(unit_of(t) for t in ts)))


def arrays(ctx, rng):
    """a list of arrays of times is converted like a list of all their values"""
    def one():
        if rng.randint(4) == 0:
            return r_date(rng) if rng.randint(2) else r_delta(rng)
        u = r_unit(rng)
        m = 1 + rng.randint(4)
        if rng.randint(3) == 0:
            # all but one of them are small
            v = [int(rng.randint(-5, 6)) for _ in range(m)]
            v[rng.randint(m)] = r_count(rng, u)
        else:
            v = [r_count(rng, u) for _ in range(m)]
        return np.array(v, dtype='i8').astype(('M8[%s]' if rng.randint(2) else 'm8[%s]') % u)
    ts = [one() for _ in range(1 + rng.randint(3))]
    flat = [x for t in ts for x in np.atleast_1d(t)]
    kw = {}
    if rng.randint(3) == 0:
        kw['unit'] = FINE[rng.randint(len(FINE))]
    kw['most_precise'] = bool(rng.randint(2))
    kw['allow_rounding'] = bool(rng.randint(3))
    keep = [np.array(t) for t in ts]
    ctx.note(ts=repr(ts), kw=kw)

    def run(lst):
        try:
            return nd.regularize_time(lst, **kw)
        except OverflowError:
            return None
    got, want = run(list(ts)), run(flat)
    for t, k in zip(ts, keep):
        ctx.same(np.array(t), k, "regularize-arrays/argument")
    ctx.check((got is None) == (want is None), "regularize-arrays/overflow",
              lambda: repr((ts, kw, got, want)))
    if got is not None:
        ctx.check(len(got) == len(ts) and all(np.shape(g) == np.shape(t) for g, t in zip(got, ts)),
                  "regularize-arrays/shape", repr(got))
        us = set(unit_of(np.asarray(g)) for g in got)
        ctx.check(us == set(unit_of(w) for w in want), "regularize-arrays/unit", lambda: repr((us, want)))
        out = [x for g in got for x in np.atleast_1d(g)]
        for g, w, x in zip(out, want, flat):
            ctx.check(g == w and type(g) is type(x), "regularize-arrays/value", lambda: repr((ts, kw, got)))
            if not kw['most_precise']:
                within_unit(ctx, g, att(x), "regularize-arrays/kept", repr((ts, kw)))
    ctx.saw('arrays', len(ts), got is None, *[str(v) for v in kw.values()])


def sums(ctx, rng):
    d1, d2, td = r_date(rng), r_date(rng), r_delta(rng)
    most = bool(rng.randint(2))
    ar = bool(rng.randint(2))
    ctx.note(d1=repr(d1), d2=repr(d2), td=repr(td), most=most, ar=ar)
    w = att(d1) + att(td)
    uf = ORDER[min(ORDER.index(unit_of(d1)), ORDER.index(unit_of(td)))]
    finest_ok = all(abs(x) // ATT[uf] <= I64 for x in (att(d1), att(td), w)) and \
        max(ATT[unit_of(d1)], ATT[unit_of(td)]) // ATT[uf] < 10 ** 15
    try:
        got = nd.time_sum(d1, td, most_precise=most, allow_rounding=ar)
    except OverflowError:
        ctx.check(not ar and (not finest_ok or most), "time_sum/needless-overflow", repr((d1, td)))
        ctx.count("overflow-reported")
    else:
        ctx.check(isinstance(got, np.datetime64), "time_sum/type", repr(got))
        err = abs(att(got) - w)
        ctx.check(err == 0 or (not finest_ok and ar and err < 2 * max(ATT[unit_of(got)], 10 ** 9)), "time_sum/value",
                  lambda: "%r + %r = %r" % (d1, td, got))
    w = att(d1) - att(d2)
    uf = ORDER[min(ORDER.index(unit_of(d1)), ORDER.index(unit_of(d2)))]
    finest_ok = all(abs(x) // ATT[uf] <= I64 for x in (att(d1), att(d2), w)) and \
        max(ATT[unit_of(d1)], ATT[unit_of(d2)]) // ATT[uf] < 10 ** 15
    got = nd.time_diff(d1, d2, most_precise=most)
    ctx.check(isinstance(got, np.timedelta64), "time_diff/type", repr(got))
    err = abs(att(got) - w)
    # (a difference that went through coarser units may be refined again)
    lim = 2 * max(ATT[unit_of(got)], 10 ** 9)
    ctx.check(err == 0 or (not finest_ok and err < lim), "time_diff/value",
              lambda: "%r - %r = %r" % (d1, d2, got))
    back = nd.time_diff(d2, d1, most_precise=most)
    ctx.check(abs(att(back) + att(got)) <= (0 if finest_ok else lim),
              "time_diff/antisymmetric", lambda: "%r %r" % (got, back))
    u = ['s', 'm', 'h', 'ms'][rng.randint(4)]
    g = nd.time_diff(d1, d2, unit=u)
    ctx.check(abs(att(g) - w) < 2 * ATT[unit_of(g)] and unit_of(g) in ORDER[ORDER.index(u):],
              "time_diff/unit", lambda: "%r - %r = %r" % (d1, d2, g))
    ctx.saw('sums', unit_of(d1), unit_of(d2), unit_of(td), most, ar, finest_ok)


# ---- text ------------------------------------------------------------------
def parse(s, sep):
    """'2010-06-21<sep>12:34:56.789' -> Fraction of seconds"""
    d, t = s.split(sep)
    y, m, dd = [int(x) for x in d.split('-')]
    hms = t.split(':')
    days = (dtm.date(y, m, dd) - dtm.date(1970, 1, 1)).days
    return Fraction(hms[2]) + 60 * int(hms[1]) + 3600 * int(hms[0]) + 86400 * days


def text(ctx, rng):
    k = rng.randint(4)
    if k == 0:
        t = r_date(rng, 'ns', 150)
    elif k == 1:
        # close below a full second, minute, ... year
        base = dtm.datetime(1950 + rng.randint(150), [1, 3, 12][rng.randint(3)], 1)
        us = -int(10 ** rng.uniform(0, 6.5))
        t = np.datetime64(base + dtm.timedelta(microseconds=us))
    elif k == 2:
        t = np.datetime64(dtm.datetime(2000, 1, 1) + dtm.timedelta(microseconds=int(rng.randint(2 ** 50, dtype='i8'))))
    else:
        t = EPOCH + dtm.timedelta(seconds=int(rng.randint(10 ** 9)), microseconds=int(rng.randint(10 ** 6)))
    exact = Fraction(att(t), 10 ** 18)
    nd_ = rng.randint(0, 9)
    dot = [".", ""][rng.randint(2)]
    ctx.note(t=repr(t), digits=nd_)
    f = nd.format_time if rng.randint(2) else nd.format_datetime
    s = f(t, "%Y-%m-%d %H:%M:%S.%" + dot + "%02df" % nd_)
    if nd_ == 0:
        ctx.check(s.endswith('.'), "format/digits", s)
        s = s[:-1]
    else:
        ctx.check(len(s.split('.')[1]) == nd_, "format/digits", s)
    err = abs(parse(s, ' ') - exact)
    ctx.check(err <= Fraction(1, 2 * 10 ** nd_) + Fraction(1, 10 ** 6), "format/readback",
              lambda: "%r -> %s" % (t, s))
    # the default and other layouts
    s = nd.format_datetime(t)
    ctx.check(abs(parse(s, ' ') - exact) <= Fraction(1, 200) + Fraction(1, 10 ** 6), "format/default",
              lambda: "%r -> %s" % (t, s))
    py = EPOCH + dtm.timedelta(microseconds=att(t) // 10 ** 12)
    s = nd.format_time(t, "%Y%m%d_%H%M%S")
    ctx.check(s == "%04d%02d%02d_%02d%02d%02d" % (py.year, py.month, py.day, py.hour, py.minute, py.second),
              "format/compact", lambda: "%r -> %s" % (t, s))
    s = nd.format_time(t, "%Y%m%d_%H%M%S_%6f_%f")
    us = "%06d" % py.microsecond
    ctx.check(s == "%04d%02d%02d_%02d%02d%02d_%s_%s" % (py.year, py.month, py.day, py.hour, py.minute, py.second, us, us),
              "format/fractions", lambda: "%r -> %s" % (t, s))
    s = nd.format_time(t, ['ut', 'UT'][rng.randint(2)])
    ctx.check(s == "%04d-%02d-%02d %02d:%02d:%02d" % (py.year, py.month, py.day, py.hour, py.minute, py.second),
              "format/ut", lambda: "%r -> %s" % (t, s))
    s = nd.format_time(t, 'hms')
    ctx.check(s == "%02d:%02d:%02d" % (py.hour, py.minute, py.second), "format/date-hms", lambda: "%r -> %s" % (t, s))
    base = np.datetime64(py - dtm.timedelta(microseconds=int(rng.randint(10 ** 9))), 'us')
    s = nd.format_time(t, '.06f', basetime=base)
    ctx.check(abs(Fraction(s) - (exact - Fraction(att(base), 10 ** 18))) <= Fraction(11, 10 ** 7) , "format/basetime",
              lambda: "%r since %r -> %s" % (t, base, s))
    # elapsed seconds
    v = float(round(10.0 ** rng.uniform(-2, 6.3), rng.randint(0, 4)))
    if rng.randint(3) == 0:
        v = float(rng.randint(0, 400000))
    d = rng.randint(0, 5)
    s = nd.format_time(v, ".%02df" % d)
    ctx.check(abs(Fraction(s) - Fraction(v)) <= Fraction(1, 2 * 10 ** d) + Fraction(2, 10 ** 9), "format/seconds",
              lambda: "%r -> %s" % (v, s))
    iv = int(math.floor(Fraction(round(v * 1e6)) / 10 ** 6))
    sgn = ""
    if rng.randint(4) == 0:
        v, sgn = -v, "-" if iv else ""
    hh, mm, ss = iv // 3600, iv // 60 % 60, iv % 60
    dd = iv // 86400
    hms = "%s%02d:%02d:%02d" % (sgn, hh, mm, ss)
    dhms = "%s%d day%s %02d:%02d:%02d" % (sgn, dd, "" if dd == 1 else "s", hh % 24, mm, ss)
    iv = -iv if sgn else iv
    for st, want in (('hms', hms), ('hmss', hms + " (%06d)" % iv), ('dhms', dhms), ('dhmss', dhms + " (%06d)" % iv)):
        s = nd.format_time(v, st)
        ctx.check(s == want, "format/" + st, lambda: "%r -> %s want %s" % (v, s, want))
        if st == 'hms':     # and back
            ctx.check(Fraction(att(nd.as_timedelta64(s)), 10 ** 18) == iv, "format/hms-back", lambda: "%r -> %s -> %s" % (v, s, nd.as_timedelta64(s)))
    ctx.saw('text', k, nd_, dot, dd > 0, f.__name__)


# ---- others ----------------------------------------------------------------
def spaced(ctx, rng):
    a, b = r_date(rng, 'ns', 120), r_date(rng, 'ns', 120)
    k = rng.randint(4)
    if k == 0:
        b = a + np.timedelta64(int(rng.randint(1, 10 ** 6)), ['s', 'ms', 'us'][rng.randint(3)])
    n = int([1, 2, 3, 10, 65, 1000][rng.randint(6)])
    end = bool(rng.randint(3))
    ga, gb = a, b
    if rng.randint(2):
        ga, gb = str(a), str(b)
    ctx.note(a=repr(a), b=repr(b), n=n, end=end)
    arr = nd.linspace_datetime64(ga, gb, n, endpoint=end)
    ctx.check(isinstance(arr, np.ndarray) and arr.shape == (n,) and arr.dtype.kind == 'M', "linspace/shape",
              repr(arr.dtype))
    A, B = att(a), att(b)
    u = ATT[unit_of(arr)]
    den = (n - 1 if end else n) or 1
    vals = [int(i) * u for i in arr.astype('i8')]
    ctx.check(vals[0] == A, "linspace/start", lambda: "%r %r" % (a, arr[0]))
    if end and n > 1:
        ctx.check(vals[-1] == B, "linspace/stop", lambda: "%r %r" % (b, arr[-1]))
    for i, v in enumerate(vals):
        ctx.check(abs(Fraction(v) - (A + Fraction((B - A) * i, den))) <= u, "linspace/value",
                  lambda: "%d: %r" % (i, arr[i]))
    steps = np.diff(arr.astype('i8'))
    if len(steps):
        ctx.check(int(steps.max()) - int(steps.min()) <= 1, "linspace/spacing", repr((steps.min(), steps.max())))
    ctx.count("points", n)
    ctx.saw('spaced', unit_of(a), unit_of(b), n, end, B > A)


def seconds(ctx, rng):
    dec = rng.randint(0, 7)
    t = r_date(rng, 'ns', 120)
    got = nd.datetime_as_seconds(t, decimals=dec)
    ctx.note(t=repr(t), dec=dec)
    step = 10 ** (18 - dec)
    ctx.check(att(got) % step == 0 and abs(att(got) - att(t)) <= step // 2 + 10 ** 9, "datetime_as_seconds",
              lambda: "%r -> %r" % (t, got))
    ctx.check(att(nd.time_as_seconds(t, decimals=dec)) == att(got), "time_as_seconds/date")
    d = r_delta(rng, 'ns', 5)
    got = nd.timedelta_as_seconds(d, decimals=dec)
    ctx.check(abs(att(got) - att(d)) <= step // 2 + 10 ** 9 + abs(att(d)) // 10 ** 15, "timedelta_as_seconds",
              lambda: "%r -> %r" % (d, got))
    ctx.check(att(nd.time_as_seconds(d, decimals=dec)) == att(got), "time_as_seconds/delta")
    v = float(rng.uniform(-1e5, 1e5))
    ctx.check(nd.time_as_seconds(v, decimals=dec) == np.round(v, dec), "time_as_seconds/number")
    # years
    y = nd.datetime64_as_years(t)
    py = EPOCH + dtm.timedelta(microseconds=att(t) // 10 ** 12)
    y0 = dtm.datetime(py.year, 1, 1)
    want = py.year + (py - y0).total_seconds() / (dtm.datetime(py.year + 1, 1, 1) - y0).total_seconds()
    ctx.close(y, want, "datetime64_as_years", atol=0.004, rtol=0)
    ctx.check(abs((y - 1970) * 365.242 * 86400 - float(att(t)) / 1e18) < 0.1, "datetime64_as_years/linear", repr((t, y)))
    # valid or not
    for s, isdt in (("2010-06-21T12:00", True), ("hello", False), ("2010-13-45", False)):
        ctx.check(bool(nd.is_valid_datetime64(s)) == isdt, "is_valid_datetime64", s)
    for s, istd in (("12:30:00.5", True), ("hello", False), ("1:2:3:4", False)):
        ctx.check(bool(nd.is_valid_timedelta64(s)) == istd, "is_valid_timedelta64", s)
    arr = nd.asarray_datetime64([str(t)], conservative=bool(rng.randint(2)))
    ctx.check(arr.dtype.kind == 'M' and att(arr[0]) == att(t), "asarray_datetime64/date", repr(arr))
    x = rng.uniform(-5, 5, 3)
    ctx.same(nd.asarray_datetime64(x, conservative=True), x, "asarray_datetime64/numbers")
    ctx.saw('seconds', unit_of(t), unit_of(d), dec)


def mixed(ctx, rng):
    """sums of native or written times; what looks like a date or a time"""
    a = r_count(rng, 'us', 100)
    b = r_count(rng, 'us', 20)
    d64, t64 = np.datetime64(a, 'us'), np.timedelta64(b, 'us')
    dn, tn = EPOCH + dtm.timedelta(microseconds=a), dtm.timedelta(microseconds=b)
    d = [d64, dn, iso(a * 10 ** 12, 6)][rng.randint(3)]
    t = [t64, tn][rng.randint(2)]
    got = nd.time_sum(d, t)
    ctx.note(d=repr(d), t=repr(t))
    ctx.check(isinstance(got, np.datetime64) and att(got) == (a + b) * 10 ** 12, "time_sum/native", repr(got))
    d2 = [d64, dn, iso(a * 10 ** 12, 6)][rng.randint(3)]
    e = EPOCH + dtm.timedelta(microseconds=a + b)
    got = nd.time_diff([e, np.datetime64(e), e.isoformat()][rng.randint(3)], d2)
    ctx.check(isinstance(got, np.timedelta64) and att(got) == b * 10 ** 12, "time_diff/native", repr(got))
    # which is which: (value, looks like a date, like a time, like a time when only sure things count)
    f = float(rng.uniform(-50, 50))
    for v, isd, ist, sure in [
            (d64, True, False, False), (dn, True, False, False), (iso(a * 10 ** 12, 3), True, False, False),
            (t64, False, True, True), (tn, False, True, True), (f, False, True, False), (int(f), False, True, False),
            ("%d:%02d:%02d" % (abs(f), 30, 2), True, True, True), (None, False, False, False),
            ("nope", False, False, False), ({}, False, False, False)]:
        forms = [v]
        if not isinstance(v, (str, dict)) and v is not None:
            forms += [[v, v], (v,)]
            if isinstance(v, np.generic):
                forms.append(np.array([v, v]))
            if isinstance(v, (dtm.datetime, dtm.timedelta)):
                forms.append(np.array([v, v], dtype='O'))
        elif isinstance(v, str):
            forms.append([v, v])
        for x in forms:
            gd = [bool(nd.is_datetime_like(x)), bool(nd.is_datetime_like(x, conservative=True))]
            gt = bool(nd.is_timedelta_like(x)), bool(nd.is_timedelta_like(x, conservative=True))
            gg = bool(nd.is_time_like(x)), bool(nd.is_time_like(x, conservative=True))
            ctx.check(gd == [isd, isd], "is_datetime_like", lambda: "%r %s" % (x, gd))
            ctx.check(gt == (ist, sure), "is_timedelta_like", lambda: "%r %s" % (x, gt))
            ctx.check(gg == (isd or ist, isd or sure), "is_time_like", lambda: "%r %s" % (x, gg))
    # sequences of numbers, in a unit
    u = ['s', 'ms', 'h', 'D'][rng.randint(4)]
    v = [int(x) for x in rng.randint(-1000, 1000, 4)]
    for form in (v, np.array(v), tuple(float(x) for x in v), np.array(v, dtype='f8')):
        got = nd.as_timedelta64(form, unit=u)
        ctx.check(got.shape == (4,) and [att(g) for g in got] == [x * ATT[u] for x in v],
                  "as_timedelta64/sequence", lambda: "%r %s -> %r" % (form, u, got))
    ctx.saw('mixed', type(d).__name__, type(t).__name__, u)


SCENARIOS = [
    Scenario('dates', dates, quick=1600, thorough=15000),
    Scenario('deltas', deltas, quick=2000, thorough=20000),
    Scenario('common', common, quick=2400, thorough=25000),
    Scenario('arrays', arrays, quick=1500, thorough=12000),
    Scenario('sums', sums, quick=2000, thorough=20000),
    Scenario('mixed', mixed, quick=800, thorough=6000),
    Scenario('text', text, quick=1600, thorough=15000),
    Scenario('spaced', spaced, quick=600, thorough=3000),
    Scenario('seconds', seconds, quick=1200, thorough=10000),
]

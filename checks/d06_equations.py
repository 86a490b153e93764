"""D06: user equations, option strings and metadata text"""
import io
import json
import os

import numpy as np

import viscid
from viscid import pyeval, vjson, _rc
from viscid.calculator import calc, evaluator
from viscid.grid import Grid

from vmon import ext, gen, xfiles
from vmon.core import Scenario, Skip

PID = "D06"
TECHNIQUE = ("runtime monitoring: random equations go through both engines of the real evaluator and a "
             "monitor compares every point with the same expression on plain arrays (with an error bound "
             "from evaluations in other precisions); random literals and json documents with comments, "
             "trailing commas and hostile strings go through the parsers, random rc files through the loader")
RULE = "one case is one equation on one grid, one literal, one document or one rc file"
ASSUMPTIONS = [
    "names in equations hold no double underscore (the evaluator removes them on purpose)",
    "points where the expression overflows or isn't a number are left out",
]


def setup():
    ext.ensure()
    viscid.logger.setLevel(60)


# -- equations ----------------------------------------------------------------------------
NAMES = ['vx', 'vy', 'rr', 'x', 'e', 'E', 'j', 'E1', 'e5', '_a', 'a_1', 'SALT', 'SALTvx', 'sqrt', 'abs',
         'pi', 'where', 'sum', 'dot', 'b2', 'nan', 'longer_name_2', 'X', 'lo', 'np', 'data', 'vxy']
BOTH1 = ['sin', 'cos', 'tan', 'arctan', 'sinh', 'cosh', 'tanh', 'exp', 'expm1', 'abs', 'floor', 'ceil']
POS1 = ['sqrt', 'log', 'log10', 'log1p']
NPONLY1 = ['square', 'cbrt', 'sign', 'rint', 'negative', 'fabs']
NPONLY2 = ['maximum', 'minimum', 'hypot', 'fmod', 'copysign']
CONST = ['1', '2', '3', '0.5', '1.5', '2.0', '1e-1', '2.5e0', '.25', '1E0', '2e+0', '3.', '2.e0', '1.E-1', '7']


def sp(rng):
    return ["", "", " ", "  "][rng.randint(4)]


def rexpr(rng, names, depth, ints=False):
    """random text of an expression"""
    if depth == 0 or rng.randint(7) == 0:
        if rng.randint(3) == 0:
            c = CONST[rng.randint(len(CONST))]
            if ints:
                c = str(rng.randint(1, 6))
            return c
        return names[rng.randint(len(names))]
    sub = lambda: rexpr(rng, names, depth - 1, ints)  # noqa
    s = lambda: sp(rng)  # noqa
    par = lambda t: "(%s%s%s)" % (s(), t, s())  # noqa
    maybe = lambda t: t if rng.randint(2) else par(t)  # noqa
    k = rng.randint(14)
    if ints:
        k = rng.randint(9)
    if k < 5:
        return "%s%s%s%s%s" % (maybe(sub()), s(), ["+", "-", "*", "+", "-"][k], s(), maybe(sub()))
    if k == 5:
        return "%s%s/%s%s" % (maybe(sub()), s(), s(), par(sub()))
    if k == 6:
        return "%s%s**%s%s" % (par(sub()), s(), s(), ["2", "3", "2"][rng.randint(3)] if ints
                               else ["2", "3", "-1", "0.5", "2.0", "-2"][rng.randint(6)])
    if k == 7:
        return "-" + maybe(sub())
    if k == 8:
        d = str(rng.randint(2, 6)) if ints or rng.randint(2) else par("1.5%s+%sabs%s" % (s(), s(), par(sub())))
        return "%s%s%%%s%s" % (par(sub()), s(), s(), d)
    if k == 9:
        return "%s%s%s" % (BOTH1[rng.randint(len(BOTH1))], s(), par(sub()))
    if k == 10:
        return "%s%s(%sabs(%s)%s+%s0.5)" % (POS1[rng.randint(len(POS1))], s(), s(), sub(), s(), s())
    if k == 11:
        cond = "%s%s%s%s%s" % (par(sub()), s(), ["<", ">", "<=", ">=", "!="][rng.randint(5)], s(), par(sub()))
        if rng.randint(3) == 0:
            c2 = "%s > 0.1" % par(sub())
            cond = "(%s)%s%s%s(%s)" % (cond, s(), "&|"[rng.randint(2)], s(), c2)
            if rng.randint(3) == 0:
                cond = "~" + par(cond)
        return "where(%s,%s%s,%s%s)" % (cond, s(), sub(), s(), sub())
    if k == 12:
        return "arctan2(%s,%s%s)" % (sub(), s(), sub())
    if rng.randint(3):
        return "%s(%s)" % (NPONLY1[rng.randint(len(NPONLY1))], sub())
    return "%s(%s,%s%s)" % (NPONLY2[rng.randint(len(NPONLY2))], sub(), s(), sub())


FUNCS = BOTH1 + POS1 + NPONLY1 + NPONLY2 + ['where', 'arctan2']


def ref_eval(eqn, arrs):
    """the expression on plain arrays; names of functions are told from names of fields by the call"""
    import re
    eqn = re.sub(r"\b([_A-Za-z]\w*)(\s*\()", r"F_\1\2", re.sub(r"(?<![\w.])([_A-Za-z]\w*)\b(?!\s*\()", r"V_\1", eqn))
    ns = dict(("F_" + f, getattr(np, f)) for f in FUNCS)
    ns.update(("V_" + k, v) for k, v in arrs.items())
    with np.errstate(all='ignore'):
        try:
            ret = np.asarray(eval(eqn, {"__builtins__": {}}, ns))  # pylint: disable=eval-used
        except (TypeError, ValueError, ZeroDivisionError, OverflowError):
            # constants in it are not numbers
            raise Skip("not an expression of real numbers")
        if ret.dtype.kind == 'c':
            raise Skip("not an expression of real numbers")
        return ret


def make_grid(rng, dt, names, nd=None):
    """(grid, {name: values}, model)"""
    nd = nd or rng.randint(1, 4)
    axes = gen.rand_axes(rng, rng.randint(3, 7, size=nd), 'node', kind=['uniform', 'stretched'][rng.randint(2)])
    center = ['node', 'cell'][rng.randint(2)]
    g = Grid(name="g")
    time = float(rng.randint(0, 50))
    crds = gen.make_crds(axes)
    g.set_crds(crds)
    g.time = time
    sh = crds.shape_nc if center == 'node' else crds.shape_cc
    vals = {}
    for nm in names:
        if dt in ('i4', 'i8'):
            v = rng.randint(-5, 6, size=sh).astype(dt)
        else:
            v = (rng.uniform(-2, 2, size=sh)).astype(dt)
            if rng.randint(6) == 0:
                v.flat[rng.randint(v.size)] = 0
        vals[nm] = v
        g.add_field(viscid.wrap_field(v.copy(), crds, name=nm, center=center, time=time))
    return g, vals, (crds, center, time, nd)


def with_eval(func):
    def inner(ctx, rng):
        old = evaluator.enabled
        evaluator.enabled = True
        try:
            with np.errstate(all='ignore'):
                func(ctx, rng)
        finally:
            evaluator.enabled = old
    return inner


def engines(g, rng, name, eqn, slc):
    out = [("numexpr", lambda: evaluator.evaluate(g, name, eqn, try_numexpr=True, slc=slc)),
           ("numpy", lambda: evaluator.evaluate(g, name, eqn, try_numexpr=False, slc=slc)),
           ("grid", lambda: g.get_field("%s%s=%s%s" % (name, sp(rng), sp(rng), eqn), slc=slc))]
    if slc is Ellipsis:
        out.append(("[]", lambda: g["%s=%s" % (name, eqn)]))
    return [out[0], out[1], out[2 + rng.randint(len(out) - 2)]]


@with_eval
def sc_eqn(ctx, rng):
    dt = ['f8', 'f8', 'f4', 'i8'][rng.randint(4)]
    names = [NAMES[i] for i in rng.permutation(len(NAMES))[:rng.randint(1, 6)]]
    eqn = rexpr(rng, names, int(rng.randint(1, 5 if dt != 'i8' else 4)), ints=dt == 'i8')
    import re
    used = [nm for nm in names if re.search(r"(?<![\w.])%s\b(?!\s*\()" % nm, eqn)]
    if not used:
        raise Skip("no fields in it")
    g, vals, (crds, center, time, nd) = make_grid(rng, dt, names)
    msg = lambda: "%r dt=%s names=%s %s" % (eqn, dt, names, crds.shape_nc)  # noqa
    ref = ref_eval(eqn, dict((k, v.astype('f8') if dt != 'i8' else v) for k, v in vals.items()))
    if ref.dtype.kind == 'b':
        raise Skip("conditions")
    alts = []
    if dt == 'i8':
        if np.any(np.abs(ref_eval(eqn, dict((k, v.astype('f8')) for k, v in vals.items())) - ref) >
                  1e-6 * (1 + np.abs(ref))):
            raise Skip("overflow")
        eps = 1e-14
    elif dt == 'f4':
        alts.append(ref_eval(eqn, vals))
        eps = 1e-6
    else:
        alts.append(ref_eval(eqn, dict((k, v.astype(np.longdouble)) for k, v in vals.items())))
        eps = 1e-13
    if dt != 'i8':
        for _ in range(4):
            alts.append(ref_eval(eqn, dict((k, v.astype('f8') * (1 + eps * rng.uniform(-1, 1, size=v.shape)))
                                           for k, v in vals.items())))
    ref = np.broadcast_to(ref, vals[names[0]].shape)
    tol = 10 * eps * np.abs(ref) + eps
    ok = np.isfinite(ref) & (np.abs(ref) < 1e30)
    for a in alts:
        ok = ok & np.isfinite(a)
        tol = tol + 20 * np.abs(np.asarray(a - ref, dtype='f8'))
    if not np.any(ok) or not np.median(tol[ok] / (1e-3 + np.abs(ref[ok]))) < 1e-2:
        raise Skip("not a number or no digits")
    before = dict((nm, g[nm].data.copy()) for nm in names)
    rname = ['res', 'speed', 'a', names[0] + "_new"][rng.randint(4)]
    if rname in names:
        rname = 'res'
    for how, func in engines(g, rng, rname, eqn, Ellipsis):
        key = "eqn/" + how
        if '!=' in eqn or '<=' in eqn or '>=' in eqn:
            ctx.count("with =")
        fld = func()
        ctx.check(isinstance(fld, viscid.field.Field), key + "/a field",
                  lambda: "%r %s" % (type(fld), msg()))
        got = np.asarray(fld.data)
        ctx.check(got.shape == ref.shape, key + "/shape", lambda: "%s %s %s" % (got.shape, ref.shape, msg()))
        bad = ok & ~(np.abs(got - ref) <= tol)
        ctx.check(not np.any(bad), key + "/values",
                  lambda: "%r want %r %s" % (got[bad][:3], ref[bad][:3], msg()))
        ctx.check(fld.name == rname and fld.pretty_name == rname, key + "/name",
                  lambda: "%r %r %s" % (fld.name, fld.pretty_name, msg()))
        ctx.check(fld.center == center and fld.time == time, key + "/center time",
                  lambda: "%r %r %s" % (fld.center, fld.time, msg()))
        for d, ax in enumerate(crds.axes):
            ctx.check(np.array_equal(fld.get_crd_nc(ax), crds.get_nc(ax)), key + "/coordinates", msg)
        ctx.saw(how, dt, nd, len(used), len(eqn) // 8)
    for nm in names:
        ctx.same(g[nm].data, before[nm], "eqn/unchanged", msg)
        ctx.check(g[nm].name == nm, "eqn/unchanged", msg)
    ctx.check(sorted(g.field_names) == sorted(names), "eqn/fields", msg)


@with_eval
def sc_slice(ctx, rng):
    """with a selection the result is what the selection of the whole is"""
    names = [NAMES[i] for i in rng.permutation(len(NAMES))[:rng.randint(1, 4)]]
    g, vals, (crds, center, time, nd) = make_grid(rng, 'f8', names, nd=int(rng.randint(2, 4)))
    eqn = ["%s", "2.5 * %s", "%s ** 2 + 1", "sin(%s)", "maximum(%s, 0.1)"][rng.randint(5)] % names[0]
    if len(names) > 1:
        eqn += " + " + names[1]
    n = [len(c) for c in g[names[0]].get_crds()]
    parts = []
    for d in range(nd):
        a = int(rng.randint(0, n[d]))
        b = int(rng.randint(a + 1, n[d] + 1))
        parts.append([":", "%d:%d" % (a, b), "%d" % a][rng.randint(3)])
    slc = ", ".join("%s = %s" % (ax, p) if p[0] != ':' else ax + " = :" for ax, p in zip(crds.axes, parts))
    slc = slc.replace(" = ", "=")
    msg = lambda: "%r %r %s" % (eqn, slc, n)  # noqa
    if all(p.isdigit() for p in parts):
        raise Skip("a point")
    whole = evaluator.evaluate(g, 'res', eqn, try_numexpr=False).slice_and_keep(slc)
    for how, func in engines(g, rng, 'res', eqn, slc):
        fld = func()
        if not isinstance(whole, viscid.field.Field):
            # what is left is one point
            ctx.close(float(fld), float(whole), "slice/" + how + "/point", rtol=1e-12, atol=1e-14, msg=msg)
            continue
        ctx.close(gen.canon(fld), gen.canon(whole), "slice/" + how + "/values", rtol=1e-12, atol=1e-14, msg=msg)
        for ax in crds.axes:
            ctx.check(np.array_equal(fld.get_crd_nc(ax), whole.get_crd_nc(ax)),
                      "slice/" + how + "/coordinates", msg)
        ctx.check(fld.name == 'res' and fld.center == whole.center, "slice/" + how + "/meta", msg)
    ctx.saw('slice', nd, tuple(len(p) > 1 for p in parts), eqn.split(names[0])[0])


VEC = ["dot(b, v)", "magnitude(b)", "b * rr", "rr * b", "b + v", "2 * b - v", "cross(b, v)", "b / rr",
       "div(v)", "curl(v)", "magnitude(cross(b, v)) / rr", "dot(b, b) ** 0.5", "rr * rr + magnitude(b)",
       "-b", "grad(rr)", "normalize(b)", "b * rr + v"]


@with_eval
def sc_vector(ctx, rng):
    """equations of vector fields are what the functions of the calculator give"""
    kind = ['uniform', 'stretched'][rng.randint(2)]
    axes = gen.rand_axes(rng, rng.randint(3, 7, size=3) if rng.randint(3) else [4, 4, 4], 'node', kind=kind)
    center = ['node', 'cell'][rng.randint(2)]
    crds = gen.make_crds(axes)
    g = Grid(name="g")
    g.set_crds(crds)
    lay = ['interlaced', 'flat'][rng.randint(2)]
    flds = {}
    for nm, nc in (('b', 3), ('v', 3), ('rr', 1)):
        f = viscid.empty(crds, nr_comps=nc if nc > 1 else 0, name=nm, center=center, layout=lay) \
            if nc > 1 else viscid.empty(crds, name=nm, center=center)
        f.data[...] = rng.uniform(0.5, 2, size=f.data.shape)
        g.add_field(f)
        flds[nm] = f
    eqn = VEC[rng.randint(len(VEC))]
    msg = lambda: "%r %s %s %s" % (eqn, crds.shape_nc, center, lay)  # noqa
    ns = dict(flds)
    for f in ('dot', 'magnitude', 'cross', 'div', 'curl', 'grad', 'normalize'):
        ns[f] = getattr(calc, f)
    want = eval(eqn, {"__builtins__": {}}, ns)  # pylint: disable=eval-used
    for how, func in engines(g, rng, 'res', eqn, Ellipsis):
        fld = func()
        ctx.check(isinstance(fld, viscid.field.Field), "vector/" + how + "/a field",
                  lambda: "%r %s" % (type(fld), msg()))
        ctx.check(fld.nr_comps == want.nr_comps, "vector/" + how + "/components",
                  lambda: "%s %s %s" % (fld.nr_comps, want.nr_comps, msg()))
        ctx.close(gen.canon(fld), gen.canon(want), "vector/" + how + "/values", rtol=1e-10, atol=1e-12, msg=msg)
        ctx.check(fld.name == 'res', "vector/" + how + "/name", msg)
    ctx.saw('vector', eqn, center, lay)


def sc_refused(ctx, rng):
    """disabled, unknown names and functions"""
    names = [NAMES[i] for i in rng.permutation(len(NAMES))[:rng.randint(1, 4)]]
    g, vals, _ = make_grid(rng, 'f8', names)
    old = evaluator.enabled
    try:
        evaluator.enabled = False
        for how, func in engines(g, rng, 'res', names[0] + " + 1", Ellipsis):
            ctx.raises(RuntimeError, func, "refused/disabled/" + how)
        evaluator.enabled = True
        miss = "nothere%d" % rng.randint(9)
        for eqn in ("%s + %s" % (names[0], miss), "sin(%s)" % miss, miss):
            for how, func in engines(g, rng, 'res', eqn, Ellipsis):
                ctx.raises(KeyError, func, "refused/unknown name/" + how, eqn)
        hit = []
        evil = "%s" % ["nosuchfunction(%s)", "open('%s')", "__import__('%s')", "eval('%s')",
                       "exec('%s')"][rng.randint(5)] % names[0]
        for how, func in engines(g, rng, 'res', evil, Ellipsis):
            try:
                r = func()
                hit.append(r)
            except Exception:  # pylint: disable=broad-except
                pass
            ctx.check(not hit, "refused/unknown function", lambda: "%s %r" % (evil, hit))
        ctx.saw('refused', evil.split('(')[0], len(names))
    finally:
        evaluator.enabled = old


# -- option strings -----------------------------------------------------------------------
BARE = ['x', 'jet', 'viridis', 'a_b', '_private', 'X9', 'truely', 'nonesuch', 'lin', 'earth', 'log', 'é']
TEXT = ['', 'a', 'two words', "it's", 'say "x"', 'back\\slash', 'tab\t', 'true', 'None', '1', '1.5', 'ü', '[1]', '#c', ',']


def rlit(rng, depth):
    """(text, value)"""
    k = rng.randint(9) if depth == 0 else rng.randint(14)
    if k == 0:
        v = int(rng.randint(-1000, 1000))
        return str(v), v
    if k == 1:
        v = float(rng.choice([0.5, 1e5, -2.25, 1e-7, 12.0, -0.0]))
        return repr(v), v
    if k == 2:
        v = bool(rng.randint(2))
        t = str(v)
        return [t, t.lower(), t.upper()][rng.randint(3)], v
    if k == 3:
        return ['None', 'none', 'NONE'][rng.randint(3)], None
    if k == 4:
        v = BARE[rng.randint(len(BARE))]
        return v, v
    if k == 5:
        v = TEXT[rng.randint(len(TEXT))]
        return repr(v), v
    if k == 6:
        t = ['1e3', '.5', '5.', '0x1F', '1_000', '-.5', '+3', '1e-3', '0o17'][rng.randint(9)]
        return t, {'1e3': 1e3, '.5': .5, '5.': 5., '0x1F': 31, '1_000': 1000, '-.5': -.5, '+3': 3,
                   '1e-3': 1e-3, '0o17': 15}[t]
    if k == 7:
        return '3+4j', 3 + 4j
    if k == 8:
        v = "".join(chr(rng.randint(32, 500)) for _ in range(rng.randint(6)))
        return repr(v), v
    subs = [rlit(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    s = lambda: sp(rng)  # noqa
    if k in (9, 10):
        return "[%s%s]" % ((s() + "," + s()).join(t for t, _ in subs), s()), [v for _, v in subs]
    if k == 11:
        t = (s() + "," + s()).join(t for t, _ in subs)
        if len(subs) == 1:
            t += ","
        return "(%s)" % t, tuple(v for _, v in subs)
    keys = [rlit(rng, 0) for _ in subs]
    if k == 12:
        return "{%s}" % ", ".join("%s%s:%s%s" % (a[0], s(), s(), b[0]) for a, b in zip(keys, subs)), \
            dict((a[1], b[1]) for a, b in zip(keys, subs))
    if not keys:
        return "{}", {}
    return "{%s}" % ",".join(t for t, _ in keys), set(v for _, v in keys)


def same_value(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(same_value(x, y) and same_value(a[x], b[y])
                                        for x, y in zip(a, b))
    if isinstance(a, set):
        return a == b and sorted(map(repr, a)) == sorted(map(repr, b))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


EVIL = ["f(x)", "a.b", "a[0]", "lambda: 1", "[i for i in (1, 2)]", "a + b", "1 if a else 2", "a and b",
        "not a", "a < b", "__import__('os')", "open('x')", "{**a}", "f'{a}'", "-a", "a * 2", "[a.b]",
        "print(1)", "(x for x in [1])", "{1: a()}", "2 ** 3", "'a' * 3"]


def sc_literal(ctx, rng):
    for _ in range(5):
        t, v = rlit(rng, int(rng.randint(0, 4)))
        text = sp(rng) + t + sp(rng)
        got = pyeval.parse(text)
        ctx.check(same_value(got, v), "literal/value", lambda: "%r: %r want %r" % (text, got, v))
        ctx.saw(type(v).__name__, min(len(t), 30))
    e = EVIL[rng.randint(len(EVIL))]
    ctx.raises(pyeval.PyEvalError, lambda: pyeval.parse(e), "literal/refused", e)
    ctx.saw('refused', e)


# -- json with comments ---------------------------------------------------------------------
PIECES = ['#', '//', ',]', ', }', '"', "'", '\\', '\n', ' ', 'a', 'http://x', '[', '{', ',', '\t', 'é', '\u2028',
          ':', '\r', '/* */', '\\"', "it's", '}', ']', '0', '# "']


def rjson(rng, depth):
    k = rng.randint(6) if depth == 0 else rng.randint(10)
    if k == 0:
        return int(rng.randint(-10 ** 6, 10 ** 6))
    if k == 1:
        return float(rng.standard_normal() * 10.0 ** rng.randint(-5, 9))
    if k == 2:
        return [True, False, None][rng.randint(3)]
    if k < 6:
        return "".join(PIECES[i] for i in rng.randint(0, len(PIECES), size=rng.randint(0, 6)))
    if k < 8:
        return [rjson(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    return dict(("".join(PIECES[i] for i in rng.randint(0, len(PIECES), size=rng.randint(0, 4))),
                 rjson(rng, depth - 1)) for _ in range(rng.randint(0, 4)))


def dress(rng, v):
    """text of a value with comments and trailing commas"""
    com = ["// it's, a \"comment }", "# x", "#", "//", "# [1, 2,]", "# // \"", "// 'a' }", "# é"]

    def ws():
        k = rng.randint(8)
        if k == 0:
            return " " + com[rng.randint(len(com))] + "\n"
        return ["", "", " ", "\n", "\t", " \n  ", "\r\n"][k - 1]

    def out(v):
        if isinstance(v, dict):
            body = ",".join(ws() + json.dumps(k, ensure_ascii=bool(rng.randint(2))) + ws() + ":" + ws() +
                            out(w) + ws() for k, w in v.items())
            return "{" + body + ("," + ws() if v and rng.randint(2) else "") + ws() + "}"
        if isinstance(v, list):
            body = ",".join(ws() + out(w) + ws() for w in v)
            return "[" + body + ("," + ws() if v and rng.randint(2) else "") + ws() + "]"
        return json.dumps(v, ensure_ascii=bool(rng.randint(2)))
    return ws() + out(v) + ws()


def sc_json(ctx, rng):
    v = rjson(rng, int(rng.randint(0, 4)))
    kw = [dict(), dict(indent=int(rng.randint(0, 4))), dict(separators=(',', ':')),
          dict(ensure_ascii=False, indent=1)][rng.randint(4)]
    t = vjson.dumps(v, **kw)
    ctx.check(json.loads(t) == v, "json/dumps", lambda: "%r %r" % (t, v))
    got = vjson.loads(t)
    ctx.check(got == v, "json/loads", lambda: "%r: %r want %r" % (t, got, v))
    t2 = dress(rng, v)
    try:
        got = vjson.loads(t2)
    except ValueError as e:
        ctx.violate("json/comments", "%r: %s" % (t2, e))
        return
    ctx.check(got == v, "json/comments", lambda: "%r: %r want %r" % (t2, got, v))
    f = io.StringIO()
    vjson.dump(v, f)
    f.seek(0)
    ctx.check(vjson.load(f) == v, "json/file", lambda: repr(v))
    # not json
    bad = ["{", "[1 2]", "{'a': 1}", "{a: 1}", "[1, , 2]", '"abc', "{\"a\" 1}", "[,,]", "1 1", ""][rng.randint(10)]
    ctx.raises(ValueError, lambda: vjson.loads(bad), "json/refused", bad)
    ctx.saw('json', type(v).__name__, tuple(sorted(kw)), min(len(t2), 60))


def ref_all(s, subs, rev):
    """places of the next one from either end, that don't overlap"""
    out = []
    if not rev:
        p = 0
        while True:
            hits = [(s.find(q, p), i, len(q)) for i, q in enumerate(subs) if s.find(q, p) >= 0]
            if not hits:
                return out
            i, _, n = min(hits)
            out.append(i)
            p = i + n
    p = len(s)
    while True:
        hits = [s.rfind(q, 0, p) for q in subs if s.rfind(q, 0, p) >= 0]
        if not hits:
            return out
        out.append(max(hits))
        p = out[-1]


def sc_find(ctx, rng):
    ab = ["ab", "abc", "a"][rng.randint(3)]
    s = "".join(ab[i] for i in rng.randint(0, len(ab), size=rng.randint(0, 14)))
    # none is the beginning of another, so it's clear which one is found
    subs = [["a"], ["ab"], ["aa"], ["a", "b"], ["ab", "ba"], ["abc", "c"], ["b"]][rng.randint(7)]
    arg = subs[0] if len(subs) == 1 and rng.randint(2) else subs
    msg = "%r %r" % (s, subs)
    got = list(vjson.find_all(s, arg))
    ctx.check(got == ref_all(s, subs, False), "find/all", lambda: "%s %s" % (got, msg))
    got = list(vjson.rfind_all(s, arg))
    ctx.check(got == ref_all(s, subs, True), "find/reversed", lambda: "%s want %s %s" % (
        got, ref_all(s, subs, True), msg))
    ctx.saw('find', len(s), tuple(subs))


# -- rc files -------------------------------------------------------------------------------
RC = [("calculator.evaluator.enabled", [True, False]),
      ("readers.openggcm.GGCMFile.read_log_file", [True, False]),
      ("readers.openggcm.GGCMGrid.mhd_to_gse_on_read", [True, False, "auto"]),
      ("grid.Grid.longterm_field_caches", [True, False]),
      ("grid.Grid.force_vector_layout", ["interlaced", "flat"])]


def sc_rc(ctx, rng):
    from importlib import import_module
    pick = [RC[i] for i in rng.permutation(len(RC))[:rng.randint(0, len(RC) + 1)]]
    want = {}
    for path, vs in pick:
        want[path] = vs[rng.randint(len(vs))]
    bad = {}
    if rng.randint(2):
        bad["no.such.thing"] = 1
        bad["grid.NoClass.x"] = [1, 2]
        if rng.randint(2):
            bad["readers.openggcm.GGCMFile.read_log_file.x"] = 3
        if rng.randint(2):
            bad["grid.Grid.longterm_field_caches.x.y"] = 3
    objs = {}
    for path, _ in RC:
        p = path.split('.')
        o = viscid
        for q in p[:-1]:
            if not hasattr(o, q):
                import_module("%s.%s" % (o.__name__, q))
            o = getattr(o, q)
        objs[path] = (o, p[-1])
    old = dict((path, getattr(o, a)) for path, (o, a) in objs.items())
    msg = lambda: "%s %s" % (want, bad)  # noqa
    with xfiles.scratch() as d:
        fn = os.path.join(d, "rc")
        items = list(want.items()) + list(bad.items())
        items = [items[i] for i in rng.permutation(len(items))]
        try:
            import yaml  # noqa: F401
            text = json.dumps(dict(items))
        except ImportError:
            text = dress(rng, dict(items))
        with io.open(fn, 'w', newline='') as f:
            f.write(text)
        try:
            _rc.load_rc_file(fn)
            for path, (o, a) in objs.items():
                v = getattr(o, a)
                ctx.check(v == want.get(path, old[path]) and type(v) is type(want.get(path, old[path])),
                          "rc/value", lambda: "%s: %r %s" % (path, v, msg()))
            _rc.load_rc_file(os.path.join(d, "missing"))
            with open(os.path.join(d, "empty"), 'w') as f:
                f.write(["", "# readers.x: 1\n", "{}"][rng.randint(3)])
            _rc.load_rc_file(os.path.join(d, "empty"))
            for path, (o, a) in objs.items():
                ctx.check(getattr(o, a) == want.get(path, old[path]), "rc/missing file", msg)
        finally:
            for path, (o, a) in objs.items():
                setattr(o, a, old[path])
    ctx.saw('rc', len(want), bool(bad))


SCENARIOS = [
    Scenario("eqn", sc_eqn, quick=7500, thorough=60000, need=800),
    Scenario("slice", sc_slice, quick=900, thorough=6000, need=100),
    Scenario("vector", sc_vector, quick=900, thorough=6000, need=80),
    Scenario("refused", sc_refused, quick=300, thorough=2000, need=30),
    Scenario("literal", sc_literal, quick=2400, thorough=20000, need=200),
    Scenario("json", sc_json, quick=4500, thorough=40000, need=400),
    Scenario("find", sc_find, quick=900, thorough=5000, need=60),
    Scenario("rc", sc_rc, quick=180, thorough=1000, need=8),
]

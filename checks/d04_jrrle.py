"""D04 the run length encoded text format"""
from __future__ import print_function
import os

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext, xfiles
import viscid
from viscid.readers import ggcm_jrrle
from viscid.readers.openggcm import GGCMFile
import d03_readers as d03

PID = "D04"
TECHNIQUE = ("runtime monitoring: files are encoded by an independent encoder "
             "(and by the Fortran writer of the library), the Fortran reader "
             "decodes them in random access orders, whole, cut at random "
             "bytes and with damaged bytes; an independent decoder judges "
             "every value and every refusal, a dead worker process is a "
             "violation; the same scenarios run under AddressSanitizer, UBSan "
             "and Fortran bounds checks in N05")
RULE = ("an execution counts when a decoded variable was compared or a damaged "
        "one was refused; signatures are (dims, size class, range of values, "
        "ascii, damage)")
ASSUMPTIONS = ["files are written by the code that owns the format: lines end "
               "in a line feed and hold at most 80 characters of text"]
_SER = [0]


def setup():
    ext.ensure()
    viscid.logger.setLevel(60)
    GGCMFile._already_warned_about_logfile = True
    # the fortran says what it finds damaged, N05 lets it
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)


# -- encoder and decoder --------------------------------------------------------
def rle(codes, rng=None):
    """one record: runs are a count above 170 and a character"""
    out, i = [], 0
    codes = [int(c) for c in codes]
    while i < len(codes):
        j = i
        while j < len(codes) and codes[j] == codes[i]:
            j += 1
        n = j - i
        if rng is not None and n > 1:
            n = int(rng.randint(1, n + 1))
        if n > 1 or (rng is not None and rng.randint(8) == 0):
            out += [170 + n, codes[i]]
        else:
            out += [codes[i]]
        i += n
    if len(out) > 65:
        # records are read from 66 characters
        return rle(codes)
    return bytes([33 + sum(codes) % 92] + out) + b"\n"


def encode(vals, rng=None, nid=None, it=7, cid="FUNC-3-1"):
    """text of an array and the steps it's made of"""
    v = np.asarray(vals, dtype='f8').reshape(-1, order='F')
    a = np.clip(np.abs(v), 1e-33, 1e33)
    z1, z2 = np.log(a.min()), np.log(a.max())
    z1 = max(z1, z2 - 37.0)
    if abs(z2 - z1) <= 1e-5:
        z1, z2 = z1 - 1.0, z2 + 1.0
    s1, s2 = "%14.7E" % z1, "%14.7E" % z2
    dz = 4410.0 / (z2 - z1)
    i3 = np.clip((dz * (np.log(np.maximum(a, np.exp(z1))) - z1) + 0.5).astype(int), 0, 4414)
    i1 = i3 // 94 + np.where(v < 0, 47, 0) + 33
    i2 = i3 % 94 + 33
    out = [("WRN2%8s%s%s%14.7E%8d%s" % (nid or len(v), s1, s2, 3.0, it, cid)).encode() + b"\n"]
    for k in range(0, len(v), 64):
        out.append(rle(i1[k:k + 64], rng))
        out.append(rle(i2[k:k + 64], rng))
    return out


def expand(line):
    """one record back to its codes or None"""
    s = line.rstrip(b"\n")[:72].ljust(72)
    codes, j = [], 0
    while j < 67 and s[j] != 32:
        c = s[j]
        if c > 127:
            j += 1
            codes += [s[j]] * max(0, c - 170)
        else:
            codes.append(c)
        j += 1
    if j >= 67:
        return None
    if not codes or codes[0] != 33 + sum(codes[1:]) % 92:
        return None
    return codes[1:]


def decode(lines, n):
    """values of encoded lines, None when they aren't whole"""
    head = lines[0].rstrip(b"\n")
    if head[:4] != b"WRN2":
        return None
    try:
        if head[4:12] != b"********" and int(head[4:12]) != n:
            return None
        z1 = np.float32(head[12:26].decode())
        z2 = np.float32(head[26:40].decode())
    except ValueError:
        return None
    if z1 == z2:
        return np.full(n, z1, dtype='f8')
    dzi = (np.float64(z2) - np.float64(z1)) / 4410.0
    out = []
    for k in range(0, n, 64):
        m = min(64, n - k)
        i = 1 + 2 * (k // 64)
        if i + 1 >= len(lines):
            return None
        r1, r2 = expand(lines[i]), expand(lines[i + 1])
        if r1 is None or r2 is None or len(r1) != m or len(r2) != m:
            return None
        for a, b in zip(r1, r2):
            a, b = a - 33, b - 33
            sig = 1.0
            if a >= 47:
                sig, a = -1.0, a - 47
            out.append(sig * np.exp(dzi * (b + 94 * a) + z1))
    return np.array(out)


def rvals(rng, sh):
    """fields of every kind: smooth, constant, with runs, tiny, huge, signed"""
    n = int(np.prod(sh))
    k = rng.randint(9)
    if k == 0:
        v = np.full(n, [0.0, 1.0, -2.5, 1e-20, 3e20][rng.randint(5)])
    elif k == 1:
        v = np.repeat(rng.standard_normal(n // 7 + 1), 7)[:n]
    elif k == 2:
        v = rng.standard_normal(n) * 10.0 ** rng.uniform(-36, 36, size=n)
    elif k == 3:
        v = np.where(rng.uniform(size=n) < 0.8, 0.0, rng.standard_normal(n))
    elif k == 4:
        v = np.full(n, 5.0)
        v[rng.randint(n)] = -5.0
    elif k == 5:
        v = np.exp(rng.uniform(-3, 3, size=n)) * rng.choice([-1, 1])
    elif k == 6:
        v = np.linspace(-1, 1, n) * 100
    elif k == 7:
        # neighbours that differ in one step
        v = 1.0 + 1e-6 * rng.randint(-3, 3, size=n)
    else:
        v = rng.standard_normal(n)
    return v.astype('f4').reshape(sh, order='F'), k


def rshape(rng, nd=None):
    nd = nd or int(rng.randint(1, 4))
    if nd == 1:
        return [int([1, 2, 63, 64, 65, 127, 128, 129, rng.randint(1, 400)][rng.randint(9)])]
    return [int(m) for m in rng.randint(1, [0, 0, 24, 9][nd], size=nd)]


def tstring(rng, t):
    return "time= %.4f %.8e %s 300c" % (t, 1e9, "1967:01:01:00:%02d:%02d.%03d" % (
        rng.randint(60), rng.randint(60), rng.randint(1000)))


def block(nm, sh, body, ts, it=3):
    nd = len(sh)
    return [b"FIELD-%dD-1\n" % nd, nm.ljust([1, 80][len(nm) % 2]).encode() + b"\n",
            ts.encode() + b"\n",
            ("%12d" % it + "".join("%12d" % m for m in sh) + "\n").encode()] + body


NM = ["rr", "r", "pp", "vx", "bx", "b", "xjx", "longer_name_of_a_field", "q1", "q12"]


def rfile(rng, ascii_ok=True, nd=None, nmax=6):
    """(list of blocks); a block has name, shape, values, lines and kind"""
    out = []
    for nm in [NM[i] for i in rng.permutation(len(NM))[:rng.randint(1, nmax + 1)]]:
        sh = rshape(rng, nd)
        v, kind = rvals(rng, sh)
        how = ['rle', 'rle', 'rle', 'ascii', 'both', 'stars', 'const'][rng.randint(7)]
        if how in ('ascii', 'both') and not ascii_ok:
            how = 'rle'
        txt = [(" %s\n" % repr(float(x))).encode() for x in v.reshape(-1, order='F')]
        if how == 'const':
            c = float(np.float32("%.7E" % rng.uniform(-5, 5)))
            enc = [("WRN2%8d%14.7E%14.7E%14.7E%8d%s" % (v.size, c, c, 1.0, 3, "FUNC-1-1")).encode() + b"\n"]
        else:
            enc = encode(v, rng if rng.randint(3) == 0 else None, "********" if how == 'stars' else None)
        if how == 'ascii':
            body = [b" fullasciifollows\n"] + txt
        elif how == 'both':
            body = enc + [b" fullasciifollows\n"] + txt
        else:
            body = enc
        out.append(dict(name=nm, sh=sh, v=v, how=how, enc=None if how == 'ascii' else enc,
                        lines=block(nm, sh, body, tstring(rng, 3.0)), nb=len(body), kind=kind))
    return out


def fname(d):
    _SER[0] += 1
    return os.path.join(d, "j%d_%d.3df.000003" % (os.getpid(), _SER[0]))


def write(fn, blocks, rng=None):
    with open(fn, 'wb') as f:
        for b in blocks:
            for l in b['lines']:
                f.write(l)


def judge(ctx, got, b, ascii_, key, msg):
    """decoded values of a block"""
    n = int(np.prod(b['sh']))
    got = np.asarray(got)
    ctx.check(got.shape == tuple(b['sh']), key + "/shape", lambda: "%s %s" % (got.shape, msg()))
    g = got.reshape(-1, order='F').astype('f8')
    v = b['v'].reshape(-1, order='F').astype('f8')
    if b['how'] == 'ascii' or (b['how'] == 'both' and ascii_):
        ctx.same(g.astype('f4'), v.astype('f4'), key + "/ascii", msg)
    else:
        want = decode(b['enc'], n)
        if want is None:
            ctx.violate("harness/decoder", msg)
            return
        ctx.close(g, want, key + "/values", rtol=3e-5, atol=1e-37, msg=msg)
        if b['how'] in ('rle', 'both', 'stars'):
            # and against what was encoded
            a = np.clip(np.abs(v), 1e-33, 1e33)
            lo = max(np.log(a.min()), np.log(a.max()) - 37.0)
            hi = np.log(a.max())
            step = max(hi - lo, 2.0 if hi - lo <= 1e-5 else 0.0) / 4410.0
            la = np.maximum(np.log(a), lo)
            lg = np.log(np.maximum(np.abs(g), 1e-37))
            # what's too small is the smallest or less
            err = np.where(np.abs(v) < 1.0001e-33, np.maximum(lg - la, 0.0), np.abs(lg - la))
            ctx.check(np.all(err <= 0.5 * step + 2e-5), key + "/quantisation",
                      lambda: "%r of a step of %r %s" % (err.max(), step, msg()))
            ctx.check(np.all((g < 0) == (v < 0)), key + "/sign", msg)
    ctx.count("variables")
    ctx.count("values", n)


def sc_codec(ctx, rng):
    """variables of a file in any order, again and again"""
    with xfiles.scratch() as d:
        fn = fname(d)
        blocks = rfile(rng)
        write(fn, blocks)
        asc = bool(rng.randint(2))
        old = ggcm_jrrle.read_ascii
        ggcm_jrrle.read_ascii = asc
        w = ggcm_jrrle.JrrleFileWrapper(fn)
        names = [b['name'] for b in blocks]
        msg = lambda: "%s ascii=%s" % ([(b['name'], b['sh'], b['how'], b['kind']) for b in blocks], asc)  # noqa
        try:
            if rng.randint(3) == 0:
                w.open()
            if rng.randint(3) == 0:
                with w:
                    w.inquire_all_fields(reinquire=bool(rng.randint(2)))
                    ctx.check(list(w.fields_seen) == names, "index/all",
                              lambda: "%s %s" % (list(w.fields_seen), msg()))
            for _ in range(int(rng.randint(1, 9))):
                b = blocks[rng.randint(len(blocks))]
                with w:
                    if rng.randint(8) == 0:
                        ctx.raises(KeyError, lambda: w.read_field("nothere", 3), "index/missing", msg)
                        continue
                    meta, arr = w.read_field(b['name'], len(b['sh']))
                    if rng.randint(4) == 0:
                        w.inquire_next()
                ctx.check(tuple(meta['dims']) == tuple(b['sh']) and meta['ndim'] == len(b['sh']),
                          "index/meta", lambda: "%s %s" % (meta, msg()))
                judge(ctx, arr, b, asc, "codec", lambda: "%s: %s" % (b['name'], msg()))
                ctx.saw(len(b['sh']), min(3, int(np.prod(b['sh'])) // 64), b['kind'], b['how'], asc)
            with w:
                w.inquire_all_fields()
            ctx.check(list(w.fields_seen) == names or set(w.fields_seen) == set(names), "index/all",
                      lambda: "%s %s" % (list(w.fields_seen), msg()))
        finally:
            ggcm_jrrle.read_ascii = old
            w.close()


def sc_several(ctx, rng):
    """several files open at the same time"""
    with xfiles.scratch() as d:
        files = []
        for _ in range(int(rng.randint(2, 6))):
            fn = fname(d)
            blocks = rfile(rng, nmax=4)
            write(fn, blocks)
            files.append((ggcm_jrrle.JrrleFileWrapper(fn), blocks))
        try:
            for _ in range(int(rng.randint(4, 14))):
                w, blocks = files[rng.randint(len(files))]
                k = rng.randint(4)
                if k == 0:
                    if not w.isopen:
                        w.open()
                elif k == 1:
                    w.close()
                else:
                    b = blocks[rng.randint(len(blocks))]
                    if not w.isopen:
                        w.open()
                    _, arr = w.read_field(b['name'], len(b['sh']))
                    judge(ctx, arr, b, False, "several", lambda: "%s %s %s" % (
                        b['name'], b['sh'], b['how']))
                ctx.saw("several", k, len(files), sum(f[0].isopen for f in files))
        finally:
            for w, _ in files:
                w.close()


def sc_writer(ctx, rng):
    """arrays written by the Fortran code itself"""
    from viscid.readers import _jrrle
    with xfiles.scratch() as d:
        fn = fname(d)
        open(fn, 'w').close()
        w = ggcm_jrrle.JrrleFileWrapper(fn)
        w.open()
        blocks = []
        for nm in [NM[i] for i in rng.permutation(len(NM))[:rng.randint(1, 5)]]:
            sh = rshape(rng)
            v, kind = rvals(rng, sh)
            f = [_jrrle.write_jrrle1d, _jrrle.write_jrrle2d, _jrrle.write_jrrle3d][len(sh) - 1]
            a = v.reshape(-1, order='F')
            l1, l2 = nm.ljust(80), tstring(rng, 1.0).ljust(80)
            if len(sh) == 1:
                f(w.unit, a, l1, l2, 3)
            else:
                f(w.unit, a, *(sh + [l1, l2, 3]))
            blocks.append(dict(name=nm, sh=sh, v=v, how='rle', kind=kind))
        w.close()
        with open(fn, 'rb') as f:
            lines = f.read().splitlines(True)
        # cut into blocks again: the text itself is judged by the decoder
        starts = [i for i, l in enumerate(lines) if l.startswith(b"FIELD-")] + [len(lines)]
        ctx.check(len(starts) == len(blocks) + 1, "writer/blocks", "%s" % starts)
        try:
            for i in rng.permutation(len(blocks)):
                b = blocks[i]
                b['enc'] = lines[starts[i] + 4:starts[i + 1]]
                with w:
                    _, arr = w.read_field(b['name'], len(b['sh']))
                judge(ctx, arr, b, False, "writer", lambda: "%s %s kind=%d" % (b['name'], b['sh'], b['kind']))
                ctx.saw("writer", len(b['sh']), b['kind'], min(3, int(np.prod(b['sh'])) // 64))
        finally:
            w.close()


# -- damage ------------------------------------------------------------------------
def outcome(fn, b, asc):
    """('ok', array) or ('error', exception)"""
    w = ggcm_jrrle.JrrleFileWrapper(fn)
    try:
        with w:
            return 'ok', w.read_field(b['name'], len(b['sh']))[1]
    except Exception as e:  # pylint: disable=broad-except
        return 'error', e
    finally:
        w.close()


def sc_truncate(ctx, rng):
    """files that end at any byte"""
    with xfiles.scratch() as d:
        fn = fname(d)
        blocks = rfile(rng, nmax=3)
        raw = b"".join(l for b in blocks for l in b['lines'])
        where = int(rng.randint(0, len(raw)))
        if rng.randint(2):
            # inside of the headers
            b0 = rng.randint(len(blocks))
            where = sum(len(l) for b in blocks[:b0] for l in b['lines'])
            where += int(rng.randint(0, 1 + sum(len(l) for l in blocks[b0]['lines'][:6])))
        with open(fn, 'wb') as f:
            f.write(raw[:where])
        asc = bool(rng.randint(2))
        old = ggcm_jrrle.read_ascii
        ggcm_jrrle.read_ascii = asc
        pos = 0
        try:
            for b in blocks:
                size = sum(len(l) for l in b['lines'])
                msg = lambda: "%s %s %s cut at %d of %d..%d ascii=%s" % (  # noqa
                    b['name'], b['sh'], b['how'], where, pos, pos + size, asc)
                k, got = outcome(fn, b, asc)
                if where == pos + size - 1:
                    # all but the line feed at its very end
                    if k == 'ok':
                        judge(ctx, got, b, asc, "cut", msg)
                elif where >= pos + size:
                    ctx.check(k == 'ok', "cut/whole", lambda: "%r %s" % (got, msg()))
                    judge(ctx, got, b, asc, "cut", msg)
                elif b['how'] == 'both':
                    # encoded numbers are whole and the text isn't
                    part = pos + sum(len(l) for l in b['lines'][:4 + len(b['enc'])])
                    if where < part - 1:
                        ctx.check(k == 'error', "cut/refused", msg)
                    elif k == 'ok' and not asc:
                        judge(ctx, got, b, False, "cut", msg)
                elif b['how'] == 'const' and where > pos + size - 50:
                    # header with some of its last numbers cut off
                    pass
                elif b['how'] == 'ascii' and where > pos + size - len(b['lines'][-1]):
                    pass
                else:
                    ctx.check(k == 'error', "cut/refused", msg)
                ctx.count("refused" if k == 'error' else "accepted")
                ctx.saw("cut", b['how'], k, len(b['sh']), where < pos, where < pos + 100)
                pos += size
        finally:
            ggcm_jrrle.read_ascii = old


def sc_damage(ctx, rng):
    """bytes of encoded records and numbers of headers changed"""
    with xfiles.scratch() as d:
        fn = fname(d)
        blocks = rfile(rng, ascii_ok=False, nmax=3)
        b = blocks[rng.randint(len(blocks))]
        n = int(np.prod(b['sh']))
        lines = [bytes(l) for l in b['lines']]
        hit = ['byte', 'byte', 'byte', 'swap', 'drop', 'dup', 'nid', 'nidtext', 'magic', 'dims',
               'dimtext', 'noise', 'long', 'rep'][rng.randint(14)]
        err = None
        if hit in ('byte', 'swap', 'drop', 'dup', 'noise', 'long', 'rep') and len(lines) < 6:
            raise Skip("no records")
        j = int(rng.randint(5, len(lines))) if len(lines) > 5 else 4
        l = bytearray(lines[j])
        if hit == 'byte':
            p = int(rng.randint(len(l) - 1))
            l[p] = int([rng.randint(33, 127), rng.randint(128, 256), 32, rng.randint(1, 32)][rng.randint(4)])
            if l[p] in (10, 13):
                raise Skip("a new line")
            lines[j] = bytes(l)
        elif hit == 'swap':
            p, q = int(rng.randint(len(l) - 1)), int(rng.randint(len(l) - 1))
            l[p], l[q] = l[q], l[p]
            lines[j] = bytes(l)
        elif hit == 'noise':
            l = bytearray(int(v) for v in rng.randint(33, 256, size=int(rng.randint(0, 72)))) + b"\n"
            lines[j] = bytes(l)
        elif hit == 'long':
            l = bytearray(l[:-1]) * 40
            lines[j] = bytes(l[:int(rng.randint(66, 200))]) + b"\n"
        elif hit == 'rep':
            # a huge number of repeats
            p = int(rng.randint(1, len(l)))
            l[p:p] = bytes([int(rng.randint(200, 256)), 40])
            lines[j] = bytes(l)
        elif hit == 'drop':
            del lines[j]
        elif hit == 'dup':
            lines.insert(j, lines[j])
        elif hit == 'nid':
            m = int([n + 1, n - 1, 10 * n, 0, -3, 9999999][rng.randint(6)])
            lines[4] = lines[4][:4] + (b"%8d" % m) + lines[4][12:]
            err = True
        elif hit == 'nidtext':
            lines[4] = lines[4][:4] + [b"abcdefgh", b"   12.5 ", b"  1x    "][rng.randint(3)] + lines[4][12:]
            err = True
        elif hit == 'magic':
            lines[4] = [b"WRN3", b"wrn2", b"    "][rng.randint(3)] + lines[4][4:]
            err = True
        elif hit == 'dims':
            sh = list(b['sh'])
            i = rng.randint(len(sh))
            sh[i] += int(rng.randint(1, 5))
            lines[3] = ("%12d" % 3 + "".join("%12d" % m for m in sh) + "\n").encode()
            # with a count of stars the size can't be known
            err = True if b['how'] == 'rle' else None
            if err is None:
                raise Skip("unknown size")
        elif hit == 'dimtext':
            lines[3] = [b"    3   four five six\n", b"\n", b"   x\n"][rng.randint(3)]
            err = True
        if err is None:
            want = decode(lines[4:], n)
            err = want is None
        if hit == 'noise' and not err:
            raise Skip("valid noise")
        raw = b""
        for q in blocks:
            raw += b"".join(lines if q is b else q['lines'])
        with open(fn, 'wb') as f:
            f.write(raw)
        msg = lambda: "%s %s %s %s record %d %r" % (hit, b['name'], b['sh'], b['how'], j,  # noqa
                                                    lines[min(j, len(lines) - 1)])
        k, got = outcome(fn, b, False)
        if err:
            ctx.check(k == 'error', "damage/refused", msg)
        else:
            ctx.check(k == 'ok', "damage/still valid", lambda: "%r %s" % (got, msg()))
            with np.errstate(over='ignore'):
                # what doesn't fit single precision is infinite
                want = np.where(np.abs(want) > 3.4e38, np.sign(want) * np.inf, want)
                arr = np.asarray(got).reshape(-1, order='F').astype('f8')
                arr = np.where(np.abs(arr) > 3.4e38, np.sign(arr) * np.inf, arr)
            ctx.close(arr, want, "damage/values",
                      rtol=3e-5, atol=1e-37, msg=msg)
        ctx.count("refused" if k == 'error' else "accepted")
        # the others are as they were
        if hit not in ('dimtext', 'dims'):
            for q in blocks:
                if q is not b:
                    k2, got2 = outcome(fn, q, False)
                    ctx.check(k2 == 'ok', "damage/others", lambda: "%s %r %s" % (q['name'], got2, msg()))
                    judge(ctx, got2, q, False, "damage/others", msg)
        ctx.saw("damage", hit, k, len(b['sh']), b['how'])


def sc_missing(ctx, rng):
    """names of files that aren't there"""
    with xfiles.scratch() as d:
        fn = fname(d)
        w = ggcm_jrrle.JrrleFileWrapper(fn)
        ctx.raises(Exception, w.open, "missing/open")
        ctx.check(not os.path.exists(fn), "missing/created", fn)
        w.close()
        ctx.saw("missing", rng.randint(3))


def sc_run(ctx, rng):
    """whole runs by way of the usual interface"""
    def wr(fn, t, ts, names, vals, fsh):
        out = {}
        with open(fn, 'wb') as f:
            for nm in names:
                v = vals[nm].reshape(fsh, order='F')
                enc = encode(v, it=int(t), cid="FUNC-%d-1" % v.ndim)
                for l in block(nm, v.shape, enc, ts, int(t)):
                    f.write(l)
                out[nm] = decode(enc, v.size).astype('f4').reshape(vals[nm].shape, order='F')
        return out
    with xfiles.scratch() as d:
        d03.ggcm_run(ctx, rng, d, wr, "%s.%s.%06d", "run", "jrrle", rtol=3e-5)


SCENARIOS = [
    Scenario("codec", sc_codec, quick=1200, thorough=30000, need=400),
    Scenario("several", sc_several, quick=300, thorough=6000, need=100),
    Scenario("writer", sc_writer, quick=500, thorough=10000, need=150),
    Scenario("truncate", sc_truncate, quick=1500, thorough=40000, need=500),
    Scenario("damage", sc_damage, quick=2500, thorough=60000, need=700),
    Scenario("missing", sc_missing, quick=20, thorough=100, need=3),
    Scenario("run", sc_run, quick=500, thorough=10000, need=150),
]

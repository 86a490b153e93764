"""C01 parallel maps"""
from __future__ import print_function
import multiprocessing as mp
import multiprocessing.pool
import os
import time

import numpy as np

from vmon.core import Scenario, Skip
from vmon import ext, gen, xfiles
import viscid
from viscid import parallel

PID = "C01"
TECHNIQUE = ("runtime monitoring: every item of a real parallel map appends "
             "(item, process, thread, start, stop) to an event log while random "
             "delays stir the schedule; an offline checker over the log decides "
             "exactly-once execution, a serial run decides results and order; "
             "faults (exceptions, killed workers, stuck workers) are injected "
             "and later calls are checked")
RULE = ("an execution counts when its event log and results were checked; "
        "signatures are (kind of pool, processes, items, argument form, result "
        "form, fault, order in which the items finished)")
ASSUMPTIONS = [
    "a worker process that is killed from outside is reported by the timeout "
    "(the standard library's pool does not notice it)",
]


def setup():
    ext.ensure()
    viscid.logger.setLevel(50)


# -- what the workers run (module level: sent to processes by name) ------------
class Boom(Exception):
    pass


def _log(path, i, t0):
    import threading
    rec = "%d %d %d %.6f %.6f\n" % (i, os.getpid(), threading.get_ident() % 10 ** 9,
                                    t0, time.time())
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, rec.encode())
    os.close(fd)


def item(i, delay, form, fail, path, scale=1, shift=0):
    t0 = time.time()
    if delay:
        time.sleep(delay)
    _log(path, i, t0)
    if fail == 'boom':
        raise Boom(i, "item %d" % i)
    if fail == 'zero':
        return 1 // (i - i)
    if fail == 'kill':
        os._exit(3)
    if fail == 'stuck':
        time.sleep(30.0)
    return value(i, form, scale, shift)


def value(i, form, scale, shift):
    v = i * scale + shift
    if form == 'int':
        return v
    if form == 'none':
        return None if i % 2 else v
    if form == 'tuple':
        return (v, [str(i)], {'k': v})
    if form == 'array':
        return np.arange(v, v + 50, dtype='f8').reshape(5, 10)
    if form == 'field':
        return viscid.arrays2field([np.arange(4.0), np.arange(3.0)],
                                   np.arange(12.0).reshape(4, 3) + v, name="f%d" % i,
                                   center='node')
    return lambda: v    # cannot be sent between processes


def equal(a, b):
    if type(a) != type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, viscid.field.Field):
        return (a.name == b.name and np.array_equal(a.data, b.data) and
                a.center == b.center and
                all(np.array_equal(x, y) for x, y in zip(a.get_crds_nc(), b.get_crds_nc())))
    return a == b


def nested(i, path):
    """a map within a map"""
    t0 = time.time()
    r = parallel.map(2, item, [(j, 0.0, 'int', None, path + ".in") for j in range(i, i + 3)],
                     force_subprocess=True)
    _log(path, i, t0)
    return sum(r)


def read_log(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [l.split() for l in f]


# -- scenarios -------------------------------------------------------------------
def sc_chunks(ctx, rng):
    """every item in one chunk, in order, chunks as equal as can be"""
    for _ in range(30):
        nel = int([rng.randint(0, 8), rng.randint(0, 100), rng.randint(0, 5000)][rng.randint(3)])
        size = None
        nch = int(rng.randint(1, 12)) if rng.randint(3) else int(rng.randint(1, nel + 5))
        if rng.randint(3) == 0:
            size = int(rng.randint(1, nel + 5))
        want_n = nch if size is None else max(1, -(-nel // size))
        kw = {} if size is None else dict(size=size)
        msg = lambda: "nel=%d nchunks=%d size=%s" % (nel, nch, size)  # noqa
        sl = parallel.chunk_slices(nel, nch, **kw)
        ctx.same(len(sl), want_n, "slices/number", msg)
        cover = [i for a, b in sl for i in range(a, b)]
        ctx.check(cover == list(range(nel)), "slices/cover", msg)
        sz = [b - a for a, b in sl]
        ctx.check(max(sz) - min(sz) <= 1 and sorted(sz, reverse=True) == sz, "slices/sizes",
                  lambda: "%r %s" % (sz, msg()))
        cs = parallel.chunk_sizes(nel, nch, **kw)
        ctx.check(list(cs) == sz, "sizes", lambda: "%r %r %s" % (list(cs), sz, msg()))
        k = rng.randint(4)
        seq = [list(range(nel)), np.arange(nel * 2).reshape(nel, 2), "ab" * (nel // 2) + "c" * (nel % 2),
               range(nel)][k]
        ch = parallel.chunk_list(seq, nch, **kw)
        ctx.same(len(ch), want_n, "list/number", msg)
        if k == 1:
            ctx.same(np.concatenate(ch), seq, "list/cover", msg)
        elif k == 2:
            ctx.check("".join(ch) == seq, "list/cover", msg)
        else:
            ctx.check([x for c in ch for x in c] == list(seq), "list/cover", msg)
        ctx.check([len(c) for c in ch] == sz, "list/sizes", msg)
        ins = parallel.chunk_interslices(nch)
        got = [list(range(nel))[slice(*s)] for s in ins]
        ctx.check(sorted(x for c in got for x in c) == list(range(nel)) and len(ins) == nch,
                  "interslices/cover", msg)
        ctx.check(all(len(g) in (nel // nch, nel // nch + 1) for g in got), "interslices/sizes", msg)
        if size is None:
            ctx.check([len(g) for g in got] == list(cs), "interslices/chunk_sizes", msg)
        if size is not None:
            ctx.check(max(sz) <= size, "size/limit", msg)
        ctx.saw('chunks', k, size is None, nel % want_n == 0, nel < want_n)


def r_items(rng, path, form, nmax=25):
    n = int([rng.randint(0, 4), rng.randint(1, nmax)][rng.randint(2)])
    slow = rng.randint(3)
    its = []
    for i in range(n):
        d = 0.0 if slow == 0 else float(rng.uniform(0, 0.004)) if slow == 1 else \
            0.002 * (n - i) / float(n)      # the last ones finish first
        its.append((i, d, form, None, path))
    return its


def as_args(rng, its):
    k = rng.randint(4)
    if k == 0:
        return its, 'list'
    if k == 1:
        return (t for t in its), 'generator'
    if k == 2:
        return zip(*[list(c) for c in zip(*its)]) if its else zip(), 'zip'
    return tuple(list(t) for t in its), 'tuple'


def check_log(ctx, path, n, key, msg, procs=None, atmost=False):
    ev = read_log(path)
    ids = sorted(int(e[0]) for e in ev)
    if atmost:
        ctx.check(len(set(ids)) == len(ids) and set(ids) <= set(range(n)), key + "/twice",
                  lambda: "%r %s" % (ids, msg()))
    else:
        ctx.check(ids == list(range(n)), key + "/exactly-once", lambda: "%r %s" % (ids, msg()))
    if procs is not None and ev:
        np_ = len(set((e[1], e[2]) for e in ev))
        ctx.check(np_ <= procs, key + "/workers", lambda: "%d > %d %s" % (np_, procs, msg()))
    ctx.count("events", len(ev))
    return tuple(int(e[0]) for e in ev)


KINDS = ['serial', 'procs', 'procs', 'forced', 'threads', 'threads', 'pool', 'thread-pool',
         'async', 'async-threads', 'nodaemon']


def call(rng, kind, nproc, args, kw, timeout=None):
    """the map in one of its forms; returns results"""
    okw = dict(args_kw=kw) if kw is not None else {}
    if timeout is not None and not kind.startswith('async'):
        okw['timeout'] = timeout
    name = [nproc, str(nproc), np.int64(nproc)][rng.randint(3)]
    if kind == 'serial':
        return parallel.map(1, item, args, **okw)
    if kind == 'procs':
        return parallel.map(name, item, args, **okw)
    if kind == 'forced':
        return parallel.map(1, item, args, force_subprocess=True, **okw)
    if kind == 'threads':
        return parallel.map(name, item, args, threads=True, **okw)
    if kind == 'nodaemon':
        return parallel.map(name, item, args, daemonic=False, force_subprocess=True, **okw)
    if kind == 'pool':
        p = mp.Pool(nproc)
        try:
            return parallel.map(nproc, item, args, pool=p, **okw)
        finally:
            p.terminate()
            p.join()
    if kind == 'thread-pool':
        p = mp.pool.ThreadPool(nproc)
        try:
            return parallel.map(nproc, item, args, pool=p, **okw)
        finally:
            p.terminate()
            p.join()
    p, r = parallel.map_async(name, item, args, threads=kind == 'async-threads', **okw)
    try:
        return r.get(timeout or 60)
    finally:
        if timeout:
            p.terminate()
        p.join()


def sc_map(ctx, rng):
    with xfiles.scratch() as d:
        for rep in range(2):
            path = os.path.join(d, "log%d" % rep)
            form = ['int', 'none', 'tuple', 'array', 'field'][rng.randint(5)]
            its = r_items(rng, path, form)
            kind = KINDS[rng.randint(len(KINDS))]
            nproc = int(rng.randint(1, 6))
            kw = [None, {}, dict(scale=int(rng.randint(1, 5))),
                  dict(scale=2, shift=int(rng.randint(9)))][rng.randint(4)]
            args, aform = as_args(rng, its)
            kw0 = None if kw is None else dict(kw)
            msg = lambda: "%s nproc=%d n=%d %s %s kw=%r" % (kind, nproc, len(its), form, aform, kw)  # noqa
            got = call(rng, kind, nproc, args, kw)
            want = [value(i[0], form, (kw or {}).get('scale', 1), (kw or {}).get('shift', 0))
                    for i in its]
            ctx.check(isinstance(got, list) and len(got) == len(want), "map/number",
                      lambda: "%r %s" % (type(got), msg()))
            for a, b in zip(got, want):
                ctx.check(equal(a, b), "map/result", lambda: "%r != %r %s" % (a, b, msg()))
            ctx.check(kw == kw0, "map/kwargs-changed", msg)
            order = check_log(ctx, path, len(its), "map", msg,
                              procs=1 if kind in ('serial', 'forced') else nproc)
            ctx.saw(kind, nproc, form, aform, order)


def sc_pool(ctx, rng):
    """many calls on one pool, some of which fail"""
    with xfiles.scratch() as d:
        nproc = int(rng.randint(1, 5))
        kind = ['procs', 'threads', 'nodaemon'][rng.randint(3)]
        p = {'procs': mp.Pool, 'threads': mp.pool.ThreadPool,
             'nodaemon': parallel.NoDaemonPool}[kind](nproc)
        try:
            sig = []
            for rep in range(int(rng.randint(3, 7))):
                path = os.path.join(d, "log%d" % rep)
                its = r_items(rng, path, 'int', 20)
                bad = []
                if its and rng.randint(3) == 0:
                    bad = sorted(set(int(b) for b in rng.randint(len(its), size=rng.randint(1, 3))))
                    for b in bad:
                        its[b] = its[b][:3] + ('boom',) + its[b][4:]
                msg = lambda: "%s nproc=%d n=%d bad=%r call %d" % (kind, nproc, len(its), bad, rep)  # noqa
                how = rng.randint(2)
                try:
                    if how:
                        got = parallel.map(nproc, item, its, pool=p, timeout=60)
                    else:
                        p2, r = parallel.map_async(nproc, item, its, pool=p)
                        ctx.check(p2 is p, "pool/same", msg)
                        got = r.get(60)
                except Boom as e:
                    ctx.check(bad and e.args[0] in bad and e.args == (e.args[0], "item %d" % e.args[0]),
                              "pool/failure", lambda: "%r %s" % (e.args, msg()))
                    sig.append('boom')
                    continue
                ctx.check(not bad, "pool/failure-lost", msg)
                ctx.check(got == [i[0] for i in its], "pool/result", lambda: "%r %s" % (got, msg()))
                check_log(ctx, path, len(its), "pool", msg, procs=nproc)
                sig.append('ok')
            ctx.saw('pool', kind, nproc, tuple(sig))
        finally:
            p.terminate()
            p.join()


def sc_faults(ctx, rng):
    """failing items are reported, in every form of the map"""
    with xfiles.scratch() as d:
        path = os.path.join(d, "log")
        its = []
        while not its:
            its = r_items(rng, path, 'int', 20)
        n = len(its)
        kind = KINDS[rng.randint(len(KINDS))]
        nproc = int(rng.randint(1, 5))
        fault = ['boom', 'boom', 'zero', 'late', 'unsendable'][rng.randint(5)]
        bad = sorted(set(int(b) for b in rng.randint(n, size=rng.randint(1, 4))))
        if fault == 'late':
            bad = [n - 1]
        msg = lambda: "%s nproc=%d n=%d bad=%r %s" % (kind, nproc, n, bad, fault)  # noqa
        for b in bad:
            f = dict(late='boom', unsendable=None).get(fault, fault)
            form = 'lambda' if fault == 'unsendable' else 'int'
            its[b] = (its[b][0], its[b][1], form, f, path)
        args, _ = as_args(rng, its)
        got = err = None
        try:
            got = call(rng, kind, nproc, args, None)
        except Exception as e:  # noqa
            err = e
        procs = kind in ('procs', 'forced', 'pool', 'async', 'nodaemon')
        if kind == 'procs' and nproc == 1:
            procs = False
        if fault == 'unsendable' and not procs:
            ctx.check(err is None and len(got) == n and [g() if callable(g) else g for g in got] ==
                      list(range(n)), "fault/in-process", msg)
        else:
            ctx.check(err is not None, "fault/lost", lambda: "%r %s" % (got, msg()))
            if fault in ('boom', 'late'):
                ctx.check(type(err) is Boom and err.args[0] in bad and len(err.args) == 2,
                          "fault/which", lambda: "%r %s" % (err, msg()))
                if not procs and kind in ('serial', 'procs'):
                    ctx.check(err.args[0] == bad[0], "fault/first", msg)
            elif fault == 'zero':
                ctx.check(type(err) is ZeroDivisionError, "fault/type", lambda: "%r %s" % (err, msg()))
        check_log(ctx, path, n, "fault", msg, atmost=True)
        # and afterwards all is well
        path2 = os.path.join(d, "log2")
        its2 = [(i, 0.0, 'int', None, path2) for i in range(5)]
        got = call(rng, kind, nproc, its2, dict(shift=3))
        ctx.check(got == [3, 4, 5, 6, 7], "fault/afterwards", lambda: "%r %s" % (got, msg()))
        check_log(ctx, path2, 5, "fault/afterwards", msg)
        ctx.saw('fault', kind, fault, nproc, len(bad))


def sc_timeout(ctx, rng):
    """killed and stuck workers run into the timeout, slow ones do not"""
    with xfiles.scratch() as d:
        path = os.path.join(d, "log")
        n = int(rng.randint(1, 8))
        k = rng.randint(3)
        nproc = int(rng.randint(2, 4))
        if k == 2:
            t = float(rng.uniform(0.6, 0.95)) if rng.randint(2) else 20
            its = [(i, 0.03 / n, 'int', None, path) for i in range(n)]
            t0 = time.time()
            try:
                got = parallel.map(nproc, item, its, timeout=t, force_subprocess=True)
            except mp.TimeoutError:
                # a machine too busy to start processes in time is no violation
                ctx.check(t < 1, "timeout/early", "t=%r" % t)
                took = time.time() - t0
                ctx.check(took > t - 0.02, "timeout/early",
                          lambda: "t=%r given up after %r" % (t, took))
                raise Skip("slow machine")
            ctx.check(got == list(range(n)), "timeout/result", "%r" % got)
            ctx.saw('timeout', 'in time', t < 1)
            return
        fault = ['kill', 'stuck'][k]
        b = int(rng.randint(n))
        its = [(i, 0.0, 'int', fault if i == b else None, path) for i in range(n)]
        pool = mp.Pool(nproc)
        t0 = time.time()
        try:
            ctx.raises(mp.TimeoutError,
                       lambda: parallel.map(nproc, item, its, pool=pool, timeout=1),
                       "timeout/" + fault, "n=%d b=%d" % (n, b))
            ctx.check(time.time() - t0 > 0.9, "timeout/too-soon", "%r" % (time.time() - t0))
        finally:
            pool.terminate()
            pool.join()
        path2 = os.path.join(d, "log2")
        got = parallel.map(nproc, item, [(i, 0.0, 'int', None, path2) for i in range(4)], timeout=60)
        ctx.check(got == [0, 1, 2, 3], "timeout/afterwards", "%r" % got)
        ctx.saw('timeout', fault, n, b)


def sc_nested(ctx, rng):
    """workers that start workers of their own"""
    with xfiles.scratch() as d:
        path = os.path.join(d, "log")
        n = int(rng.randint(1, 4))
        its = [(i * 10, path) for i in range(n)]
        got = parallel.map(int(rng.randint(1, 3)), nested, its, daemonic=False,
                           force_subprocess=True, timeout=60)
        ctx.check(got == [30 * i + 3 for i in range(n)], "nested", "%r" % got)
        ids = sorted(int(e[0]) for e in read_log(path))
        ctx.check(ids == [10 * i for i in range(n)], "nested/exactly-once", "%r" % ids)
        ids = sorted(int(e[0]) for e in read_log(path + ".in"))
        ctx.check(ids == sorted(10 * i + j for i in range(n) for j in range(3)),
                  "nested/inner", "%r" % ids)
        ctx.saw('nested', n)


def sc_procs(ctx, rng):
    """names for numbers of processes"""
    n = mp.cpu_count()
    for a, w in (("all", n), (" AUTO ", n), ("Auto", n), ("3", 3), (2.0, 2), (np.int32(4), 4)):
        ctx.same(parallel.sanitize_nr_procs(a), w, "procs", repr(a))
    ctx.raises(ValueError, lambda: parallel.sanitize_nr_procs("many"), "procs/nonsense")
    ctx.saw('procs')


SCENARIOS = [
    Scenario("chunks", sc_chunks, quick=300, thorough=6000, need=1000),
    Scenario("map", sc_map, quick=300, thorough=6000, need=300, hang=90),
    Scenario("pool", sc_pool, quick=100, thorough=2000, need=100, hang=90),
    Scenario("faults", sc_faults, quick=200, thorough=4000, need=200, hang=90),
    Scenario("timeout", sc_timeout, quick=24, thorough=300, need=10, hang=90),
    Scenario("nested", sc_nested, quick=10, thorough=200, need=10, hang=90),
    Scenario("procs", sc_procs, quick=1, thorough=1),
]

"""Shared driver runner for the pair and lifetime checks."""
from vlib import build, pairs, life, vn, alg


def driver(name):
    import os
    return os.path.join(build.VERIF, 'drivers', name + '.cpp')


class OutOfTime(Exception):
    pass


def guarded(ck, rule, site, what, f):
    """an analysis that fails or runs out of time leaves its construct undecided"""
    import signal, time

    def late(*a):
        raise OutOfTime()
    end = (500 if ck.tier == 'quick' else 820) - (time.time() - ck.t0)
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, max(3, end))
    try:
        f()
    except (OutOfTime, RecursionError, MemoryError, ArithmeticError, LookupError, TypeError, ValueError, AttributeError, vn.Unsupported if hasattr(vn, 'Unsupported') else OutOfTime, alg.TooBig) as e:
        import traceback
        signal.setitimer(signal.ITIMER_REAL, 0)
        ck.ob(rule, site, 'undecided', '%s: analysis ended with %s %s' % (what, type(e).__name__, '' if isinstance(e, OutOfTime) else traceback.format_exc()[-300 if not __import__("os").environ.get("VERIF_VERBOSE") else -3000:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_pairs(ck, drv, srcs, rule, fallback, defs=(), inc=None, names=None, skip=None, assume=None, lifetime=None, pipeline=None, keep=(), pairs_kw=None, label=None, limit=4000, peel=0):
    """compare every impl_/spec_ pair of the driver; optionally decide the
    heap lifetimes of every impl_ function"""
    if ck.enough():
        return
    kw = pairs_kw or {}
    roots = None
    if isinstance(names, (tuple, list)):
        roots = ['^(impl|spec|roots)_(%s)($|\\()' % '|'.join(names)]
        some = set(names)
        names = lambda n: n in some
    tag = (label + ' ') if label else ''
    try:
        m = pairs.load(driver(drv), srcs, defs=defs, inc=inc, dinc=inc, pipeline=pipeline, keep=keep, peel=peel, roots=roots)
    except build.ToolError as e:
        ck.ob(rule, fallback, 'undecided', tag + 'driver %s does not compile against the current interface: %s' % (drv, str(e)[-700:]))
        return
    for s in srcs:
        ck.unit(s)
    ck.unit('drivers/' + drv + '.cpp')
    for f in m['functions']:
        n = pairs.fname(f)
        if not n.startswith('impl_'):
            continue
        n = n[5:]
        if names is not None and not names(n):
            continue
        if skip is not None and skip(n):
            continue
        guarded(ck, rule, fallback, tag + n, lambda: pairs.compare_pair(ck, m, n, rule, fallback, assume=(assume or {}).get(n), label=tag + n, limit=limit, **kw))
    if lifetime:
        try:
            m = pairs.load(driver(drv), srcs, defs=defs, inc=inc, dinc=inc, pipeline=pipeline, keep=keep, opaque_heap=True, peel=peel)
        except build.ToolError:
            return
        for f in m['functions']:
            n = pairs.fname(f)
            if n.startswith('impl_') and (names is None or names(n[5:])):
                guarded(ck, lifetime, fallback, tag + n[5:], lambda: life.check(ck, f, m['globals'], lifetime, fallback, tag + n[5:]))


def parallel(ck, jobs, width=7):
    """run the jobs (functions of the check) in forked processes and collect
    their obligations in the order of the jobs"""
    import os, pickle, sys, tempfile, traceback
    if os.environ.get('VERIF_SERIAL'):
        for j in jobs:
            j(ck)
        return
    build.ensure_tools()
    d = build.tmpdir()
    running, done = {}, {}
    todo = list(enumerate(jobs))
    while todo or running:
        while todo and len(running) < width:
            n, j = todo.pop(0)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    import tempfile as tf
                    build._tmp = tf.mkdtemp(prefix='job%d_' % n, dir=d)
                    ck.obl, ck.units, ck.assumptions = [], [], []
                    try:
                        j(ck)
                        err = None
                    except BaseException:
                        err = traceback.format_exc()
                    with open(os.path.join(d, 'job%d.out' % n), 'wb') as f:
                        pickle.dump((ck.obl, ck.units, ck.assumptions, ck.extra, err), f)
                    import shutil
                    shutil.rmtree(build._tmp, ignore_errors=True)
                    rc = 0
                finally:
                    os._exit(rc)
            running[pid] = n
        pid, st = os.wait()
        if pid in running:
            if os.environ.get('VERIF_VERBOSE'):
                import time
                print('   job', running[pid], 'ended at', round(time.time() - ck.t0), flush=True)
            done[running.pop(pid)] = st
    for n in range(len(jobs)):
        f = os.path.join(d, 'job%d.out' % n)
        if not os.path.exists(f):
            ck.ob('analysis', 'job %d' % n, 'undecided', 'the analysis process ended early (status %s)' % done.get(n))
            continue
        with open(f, 'rb') as h:
            o, u, a, e, err = pickle.load(h)
        os.unlink(f)
        if err:
            raise RuntimeError(err)
        ck.obl += o
        for x in u:
            ck.unit(x)
        ck.assume(*a)
        ck.extra.update(e)

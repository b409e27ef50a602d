"""Initial value solvers: Runge-Kutta-Fehlberg and Shampine-Gordon."""
from vlib import build
from .common import run_pairs, parallel

INC = ['-I' + build.REPO + '/var/ode_solvers']
RKF = ['var/ode_solvers/rkf45_fehl.cpp', 'var/ode_solvers/rkf45_rkfs.cpp']


OUT = ('flag', 'T', 'Y')


def rkf(ck):
    ck.assume('the right hand side is an arbitrary pure function of time (and of the state for the single step formula)',
              'the first %d attempts of the first %d step(s) of a call; one and two equations' % ((2, 1) if ck.tier == 'quick' else (3, 2)),
              'heap allocations succeed', 'real arithmetic (rounding is not modelled)')
    kw = dict(pairs_kw=dict(pure_calls=('ode', 'slope', 'slope2'), beyond=('further',), budget=150), pipeline=build.PEEL, limit=10 ** 6, inc=INC)

    def go(defs, names, peel, label, only=None):
        kw['pairs_kw']['only'] = only
        base = list(defs) + ['-DEIGEN_NO_DEBUG']
        if build.compiles(driver_path('rkf45'), base + ['-DPRIV'], INC):
            base.append('-DPRIV')
        run_pairs(ck, 'rkf45', RKF, 'one step', 'var/ode_solvers/rkf45_rkfs.cpp', defs=tuple(base), names=names, peel=peel, label=label, **kw)
    go(['-DSTEPS=1', '-DTRIES=1'], lambda n: True, 1, 'first attempt')
    go(['-DSTEPS=1', '-DTRIES=2'], lambda n: n in ('forward', 'backward'), 2, 'retry', OUT)
    if ck.tier == 'thorough':
        go(['-DSTEPS=1', '-DTRIES=2'], lambda n: n == 'pair', 2, 'retry', OUT)
        go(['-DSTEPS=1', '-DTRIES=3'], lambda n: n in ('forward', 'backward', 'fromzero'), 3, 'second retry', OUT)
        go(['-DSTEPS=2', '-DTRIES=1', '-DMODE=1'], lambda n: n in ('forward', 'backward', 'fromzero'), 2, 'two steps', OUT)


SG = ['sgode_step.cpp', 'sgode_intrp.cpp', 'sgode_de.cpp']
ABSTRACT = ('ode', 'ode2', 'st_x', 'st_y', 'st_h', 'st_eps', 'st_crash', 'st_kold', 'in_y')


STEPS = ('small', 'smallback', 'o1', 'o1const', 'o1up', 'o2', 'o2back', 'o2new', 'o2up', 'o2round', 'o3', 'o3up', 'o3low', 'o4new')
DRIVES = (('fresh', 'freshback', 'again', 'after5', 'none', 'neg', 'zero'), ('stop', 'againback', 'after3', 'negabs', 'flag0', 'lost'),
          ('stopback', 'after4', 'abs0'), ('againstop', 'rel0'))


def sgode(ck):
    ck.assume('the right hand side is an arbitrary pure function', 'single steps from the histories, orders and sizes listed in drivers/sgode.cpp; the driver with an arbitrary step and interpolation',
              'the first attempts of a step and the first steps of a call', 'heap allocations succeed', 'real arithmetic (rounding is not modelled)')
    deep = ck.tier == 'thorough'

    def job(part, label, pipeline, peel, names=None, defs=(), de=False, src=False):
        d = ('-DPART=%d' % part, '-DWHAT=1', '-DEIGEN_NO_DEBUG') + tuple(defs) + (('-DSRC',) if src else ())
        home = 'src/integrators/' if src else 'var/ode_solvers/'
        inc = ['-I' + build.REPO + '/src', '-I' + build.REPO + '/src/integrators'] if src else INC
        srcs = [home + x for x in SG if x.endswith('_de.cpp') or not de]
        return lambda ck: run_pairs(ck, 'sgode', srcs, label, home + ('sgode_de.cpp' if de else 'sgode_intrp.cpp' if part == 5 else 'sgode_step.cpp'), defs=d, inc=inc,
                                    names=names, pipeline=pipeline, peel=peel, label=('library ' if src else '') + label, limit=10 ** 6, pairs_kw=dict(pure_calls=ABSTRACT, beyond=('further',), budget=200 if deep else 60))
    one = ('-DTRIES=1',)
    slow = ('o2', 'o3low', 'o4new')
    jobs = [job(1, 'single step', build.PEEL3, 1, tuple(n for n in STEPS if n not in slow), one),
            job(2, 'pair of equations', build.PEEL3, 1, ('pair1', 'pair2'), one),
            job(3, 'higher order', build.PEEL3, 1, ('o4up', 'o5up'), one),
            job(4, 'first step', build.PEEL3, 1, ('first', 'firstback'), one),
            job(4, 'repeated attempts', build.PEEL3, 4, ('retry', 'retryrun', 'retryround'), ('-DTRIES=4',)),
            job(5, 'interpolation', build.PEEL2, 1, defs=('-DTRIES=1',)),
            ] + [job(6, 'driver', build.PEEL2, 1, g, ('-DTRIES=2',), de=True) for g in DRIVES]
    for src in (False, True):
        for o in (3, 4, 5):
            if not src or o > 3 or deep:
                jobs.append(job(7, 'step limit after order %d' % o, build.PEEL2, 1, defs=('-DORDER=%d' % o, '-DSTIFF=%d' % (o <= 4), '-DTRIES=1'), de=True, src=src))
    jobs += [job(1, 'single step', build.PEEL3, 1, tuple(n for n in STEPS if n not in slow and (deep or n not in ('o3', 'small'))), one, src=True),
             job(4, 'first step', build.PEEL3, 1, ('first',), one, src=True),
             job(4, 'repeated attempts', build.PEEL3, 4, ('retry',), ('-DTRIES=4',), src=True),
             job(5, 'interpolation', build.PEEL2, 1, defs=('-DTRIES=1',), src=True),
             ] + [job(6, 'driver', build.PEEL2, 1, g, ('-DTRIES=2',), de=True, src=True) for g in DRIVES]
    if deep:
        jobs.append(job(2, 'pair of equations', build.PEEL3, 1, ('pair1', 'pair2'), one, src=True))
    if deep:
        for n in slow:
            jobs.append(job(1, 'single step', build.PEEL3, 1, (n,), one))
        for n in ('o3const', 'o12', 'o12ph'):
            jobs.append(job(3, 'higher order', build.PEEL3, 1, (n,), one))
        jobs.append(job(5, 'interpolation', build.PEEL2, 1, ('interp1_5', 'interp1_6', 'interp2_4', 'interp1_12'), ('-DTRIES=1', '-DDEEPER')))
        jobs.append(job(6, 'driver, more steps', build.PEEL2, 2, defs=('-DTRIES=3',), de=True, names=('fresh', 'stop', 'again', 'againback', 'after5')))
    parallel(ck, jobs)


def driver_path(n):
    from .common import driver
    return driver(n)

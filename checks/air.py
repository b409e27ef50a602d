"""Atmosphere models: numerical kernels against the published formulas."""
from vlib import build
from .common import run_pairs, parallel

A = 'src/atmosphere/'
KERNELS = [A + 'nrlmsise00_%s.cpp' % x for x in ('ccor', 'ccor2', 'dnet', 'splini', 'splint', 'glatf')] + [A + 'nrlmsise_spline.cpp']
LIMITS = [0, 25, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120, 130, 140, 150, 180, 200, 250, 300, 350, 400, 450, 500, 600, 700, 800, 900, 1000, 3000]


def atmosphere(ck):
    ck.assume('real arithmetic (rounding is not modelled)', 'spline recursions compared at fixed knots of unequal spacing with arbitrary ordinates and slopes', 'in the profiles the spline kernels are arbitrary functions of their arguments (they are compared separately)')
    kw = dict(pairs_kw=dict(pure_calls=('pure_',)))
    # ordinary kernels and splines in separate processes
    sp = lambda n: n.startswith('spl')
    ks = [lambda n: not sp(n)] + [lambda n, k=k: n.startswith('spl') and n.startswith(k) for k in ('spline_', 'splint_4', 'splini_4', 'splint_5', 'splini_5')]
    jobs = [lambda c, w=w, k=k: run_pairs(c, 'msis', KERNELS, 'MSIS kernel', A + 'nrlmsise00.hpp', names=w, **(dict(pipeline=build.PEEL3, peel=5) if k > 1 else {}), defs=['-fno-access-control', '-DKERNEL', '-DGRAVITY=m->gsurf'], **kw) for k, w in enumerate(ks)]
    jobs += [lambda c: run_pairs(c, 'msis', [A + 'nrlmsise00_densm.cpp', A + 'nrlmsise00_densu.cpp'], 'MSIS profile', A + 'nrlmsise00.hpp', defs=['-fno-access-control', '-DPROFILE'], **kw)]
    for k in range(28):
        jobs.append(lambda c, k=k: run_pairs(c, 'msis', [A + 'exponential_atmospheric_model.cpp'], 'exponential atmosphere', A + 'exponential_atmospheric_model.cpp',
                                             defs=['-DEXPO', '-DLAYER=%d' % k, '-DLO=%d.0' % LIMITS[k], '-DHI=%d.0' % LIMITS[k + 1]], label='layer %d' % k))
    parallel(ck, jobs)

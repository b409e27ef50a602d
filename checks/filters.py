"""Estimation filters."""
from vlib import build
from .common import run_pairs, parallel


def kalman(ck):
    ck.assume('real arithmetic (rounding is not modelled)', 'memory allocation does not fail', 'states of two and three parameters')
    dims = ((2, ''),) if ck.tier == 'quick' else ((2, ''), (3, ''))
    names = ('measurement', 'propagation', 'propagation_noise')
    parallel(ck, [lambda c, d=d, n=n: run_pairs(c, 'kalman', [], 'filter equations', 'src/filters/ekf.hpp', defs=['-DDIM=%d' % d[0]], inc=['-I' + build.REPO + '/src'], names=(n,), label='%d parameters' % d[0])
                  for d in dims for n in names])
    layout(ck)


def layout(ck):
    ck.assume('one force-model parameter; two beacons (three in the thorough tier); polynomial models of third order')
    lin = ['linear_' + x for x in LAYOUT]
    con = ['const_' + x for x in LAYOUT]
    for ns in ((2,) if ck.tier == 'quick' else (2, 3)):
        parallel(ck, [lambda c, g=g, ns=ns: run_pairs(c, 'filters', [], 'parameter layout', 'src/filters/filters.hpp', defs=['-DNS=%d' % ns], inc=['-I' + build.REPO + '/src'], names=g, label='%d beacons' % ns)
                      for g in [(x,) for x in lin + con + ['layout', 'readback']]])
    run_pairs(ck, 'filters', [], 'reference model', 'src/filters/models.hpp', inc=['-I' + build.REPO + '/src'], names=('line', 'polynomial', 'polynomial_copy', 'polynomial_move'))


LAYOUT = ('wet_all', 'wet_one', 'wet_sigma_all', 'wet_sigma_one', 'offset_all', 'offset_one', 'offset_sigma_all', 'offset_sigma_one', 'drag')

"""Table interpolation and factorials."""
from vlib import build
from .common import run_pairs, parallel


def interpolation(ck):
    ck.assume('at least three nodes, strictly ascending', 'real arithmetic (rounding is not modelled)')
    for n in (3, 4, 5) if ck.tier == 'quick' else (3, 4, 5, 6, 7):
        run_pairs(ck, 'intrp', [], 'interpolated value', 'var/intrp.cc', defs=('-DSIZE=%d' % n, '-DNDEBUG'), inc=['-I' + build.REPO + '/var'], label='%d nodes' % n, pairs_kw=dict(budget=60))


def factorials(ck):
    top, rat = (30, 12) if ck.tier == 'quick' else (60, 24)
    ck.assume('tables of 1 to %d entries in floating point and 1 to 20 in integers; ratios up to %d!/%d! and samples above' % (top, rat, rat))
    run_pairs(ck, 'factorial', [], 'factorial', 'src/factorial.hpp', defs=('-DTOP=%d' % top, '-DRAT=%d' % rat))


def orientation(ck):
    ck.assume('operator new does not fail', 'real arithmetic (rounding is not modelled)', 'tables of 1 to 5 rows', 'the Lagrange kernel, tidal and libration series are arbitrary functions')
    run_pairs(ck, 'eop', [], 'table content', 'src/eop.hpp', defs=['-DTABLE', '-DNEW_EOP'], lifetime='table lifetime')
    run_pairs(ck, 'eop', ['src/iers/eop_interpolate.cpp'], 'interpolated parameters', 'src/iers/eop_interpolate.cpp', defs=['-DNEW_EOP'], pairs_kw=dict(pure_calls=('pure_',)))
    kw = dict(inc=['-I' + build.REPO + '/src'], limit=10 ** 6, pairs_kw=dict(pure_calls=('pure_',), budget=150))
    parallel(ck, [lambda c, d=d, l=l: run_pairs(c, 'eoptext', [], 'file content', 'src/iers/parse_c04.cpp', defs=['-DNEW_EOP', '-DDAYS=%d' % d, '-DLINES=%d' % l], pipeline=build.PEEL3, peel=14, label='%d days, %d lines' % (d, l), **kw)
                  for d, l in ((1, 2), (2, 2))])

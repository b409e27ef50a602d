"""Two-body conversions, rotations and their partials."""
from vlib import vn
from .common import run_pairs

SRC = ['src/astrodynamics/%s.cpp' % x for x in ('perifocal', 'state2kepler', 'state_partials', 'propagate_state', 'pos2ra')]


def kepler(ck):
    ck.assume('elliptic orbit (a > 0, 0 < e < 1, 0 < i < pi) for the partial derivatives', 'the Kepler solver is an arbitrary function of (e, M, tolerance)',
              'real arithmetic (rounding is not modelled)')
    vn.HALF = True
    run_pairs(ck, 'orbit', SRC, 'two-body formula', 'src/astrodynamics.hpp', pairs_kw=dict(pure_calls=('pure_',), budget=120))
    vn.HALF = False

"""Force models and frames as closed formulas."""
from vlib import build
from .common import run_pairs


def simple(ck):
    ck.assume('real arithmetic (rounding is not modelled)', 'the Earth rotation rate of the constants header')
    run_pairs(ck, 'accel', ['src/gravity/point_mass_acceleration.cpp', 'src/astrodynamics/drag.cpp'], 'force formula', 'src/astrodynamics.hpp')


def surface(ck):
    ck.assume('real arithmetic (rounding is not modelled)', 'the geodetic latitude is an arbitrary function of the position', 'the physical constants of the constants header')
    run_pairs(ck, 'surface', ['src/astrodynamics/solar_radiation.cpp', 'src/astrodynamics/occultation.cpp', 'src/relativity/relativistic_clock_correction.cpp'],
              'radiation, eclipse and clock formula', 'src/astrodynamics.hpp', defs=['-DVSTUB_NEAR_SUN'], pairs_kw=dict(pure_calls=('pure_',)))


def frames(ck):
    ck.assume('real arithmetic (rounding is not modelled)', 'the SOFA series, leap seconds, ephemerides and Earth orientation table are arbitrary functions of their arguments')
    kw = dict(pairs_kw=dict(pure_calls=('pure_',)))
    F = 'src/itrs2gcrs.cpp'
    run_pairs(ck, 'frames', [F], 'Earth rotation', F, defs=['-DNEW_EOP', '-DROTATION'], **kw)
    run_pairs(ck, 'frames', [F], 'Earth orientation', F, defs=['-DNEW_EOP', '-DEPOCH'], **kw)
    run_pairs(ck, 'frames', ['src/sunmoon.cpp', 'src/gravity/point_mass_acceleration.cpp'], 'Sun and Moon perturbation', 'src/sunmoon.cpp', defs=['-DNEW_EOP'], **kw)


def sunmoon(ck):
    ck.assume('real arithmetic (rounding is not modelled)', 'the fundamental lunar and solar arguments are arbitrary functions of time')
    run_pairs(ck, 'sunmoonpos', ['src/planets/sunpos.cpp', 'src/planets/moonpos.cpp'], 'Sun and Moon series', 'src/planetpos.hpp', pairs_kw=dict(pure_calls=('pure_',)))

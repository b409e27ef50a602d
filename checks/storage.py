"""2-D arrays and harmonic coefficient containers."""
from vlib import build
from .common import run_pairs

ICG = ['-I' + build.REPO + '/var/icgem/src']


def arrays(ck):
    ck.assume('operator new does not fail; element types are double; sizes 3x4, 5x2, 4x4, 5x3, 7x7 for whole-object behaviour, every size for the dense offsets')
    run_pairs(ck, 'mat2d', [], 'array-content', 'src/cmat2d.hpp', lifetime='array-lifetime', label='src')
    run_pairs(ck, 'mat2d', [], 'array-content', 'var/icgem/src/compact2dmat.hpp', defs=('-DVAR_COPY',), inc=ICG, lifetime='array-lifetime', label='var')


def den(n):
    return n.startswith('den')


def harm(ck, names, life):
    run_pairs(ck, 'harmonics', ['src/gravity/harmonic_coeffs.cpp'], 'coefficients', 'src/harmonic_coeffs.hpp', names=names, lifetime=life, label='src')
    run_pairs(ck, 'harmonics', ['var/icgem/src/harmonic_coeffs.cpp'], 'coefficients', 'var/icgem/src/harmonic_coeffs.hpp', defs=('-DVAR_COPY',), inc=ICG, names=names, lifetime=life, label='var')


def container(ck):
    ck.assume('operator new does not fail', 'degrees 0 to 6')
    harm(ck, lambda n: not den(n), 'container-lifetime')


def denormalise(ck):
    ck.assume('operator new does not fail', 'degrees 1 to 6 (24 in the thorough tier), orders full, partial, zonal and default')
    harm(ck, den, None)
    big = lambda n: n.startswith('den24')
    if ck.tier == 'thorough':
        run_pairs(ck, 'harmonics', ['src/gravity/harmonic_coeffs.cpp'], 'coefficients', 'src/harmonic_coeffs.hpp', defs=('-DBIG',), names=big, label='src')
        run_pairs(ck, 'harmonics', ['var/icgem/src/harmonic_coeffs.cpp'], 'coefficients', 'var/icgem/src/harmonic_coeffs.hpp', defs=('-DVAR_COPY', '-DBIG'), inc=ICG, names=big, label='var')

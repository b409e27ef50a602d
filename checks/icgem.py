"""The two readers of ICGEM gravity models."""
import re
from vlib import alg, build, pairs, vn
from .common import guarded, parallel, run_pairs, driver

HOMES = (('src/gravity', ['-I' + build.REPO + '/src', '-I' + build.REPO + '/src/gravity'], ()),
         ('var/icgem/src', ['-I' + build.REPO + '/var/icgem/src'], ('-DVAR_COPY',)))
KW = dict(pure_calls=('pure_',), beyond=('further',), budget=60)

# (label, definitions, peeling)
DATA = (('one line', ('-DLINES=1',), 2),
        ('one line, unnormalised', ('-DLINES=1', '-DFULLY=0'), 2),
        ('arguments', ('-DARGS', '-DLINES=1'), 2),
        ('two lines', ('-DLINES=2',), 3),
        ('order two', ('-DLINES=5', '-DDEG=2', '-DORD=2', '-DSIZE=3', '-DFIXED={0,0},{2,1},{2,0},{2,2},'), 8),
        ('order one', ('-DLINES=6', '-DDEG=2', '-DORD=1', '-DSIZE=2', '-DFIXED={0,0},{2,1},{2,0},{2,2},{1,0},'), 8),
        ('order zero', ('-DLINES=5', '-DDEG=2', '-DORD=0', '-DSIZE=2', '-DFIXED={0,0},{2,0},{3,0},'), 8),
        ('full triangle', ('-DLINES=6', '-DDEG=2', '-DORD=2', '-DSIZE=3', '-DFIXED={0,0},{1,0},{1,1},{2,0},{2,1},'), 8))


def data(ck):
    ck.assume('the numbers in the file are arbitrary, up to the line counts and triangles listed in checks/icgem.py', 'no coefficient equals the mark -999 the reader uses for a missing value',
              'a file gives a coefficient once', 'lines shorter than the line buffer; no Fortran D exponents', 'heap allocations succeed')

    def job(home, inc, extra, label, defs, peel):
        return lambda ck: run_pairs(ck, 'icgdata', [home + '/harmonic_coeffs.cpp'], 'coefficients read', home + '/icgemio_rddata.cpp', defs=tuple(defs) + extra, inc=inc,
                                    pipeline=build.PEEL3, peel=peel, label=home + ', ' + label, limit=10 ** 6, pairs_kw=KW)
    def model(ask, order, has):
        return lambda ck: run_pairs(ck, 'gravmodel', ['src/gravity/harmonic_coeffs.cpp'], 'model read', 'src/gravity/parse_coefficients.cpp', defs=('-DASK=%d' % ask, '-DORDER=%d' % order, '-DHAS=%d' % has, '-DEIGEN_NO_DEBUG'),
                                    inc=HOMES[0][1], label='degree %d order %d of %d' % (ask, order, has), pairs_kw=KW)
    parallel(ck, [job(*h, *d) for h in HOMES for d in DATA] + [model(*q) for q in ((2, 1, 3), (3, 3, 3), (2, 2, 1), (2, 3, 4))])


END = '"end_of_head"'
WORDS = ('product_type', 'modelname', 'errors', 'tide_system', 'norm', 'radius', 'max_degree', 'earth_gravity_constant')
HEAD = [('product_type', '"product_type gr",', 14), ('modelname and errors', '"modelname  ab x","errors q",', 14), ('radius', '"radius A",', 12), ('GM', '"earth_gravity_constant B",', 23),
        ('max_degree', '"max_degree C",', 12), ('tide_system', '"tide_system tt",', 12), ('norm after a tab', '"\\tnorm  un ",', 12), ('several', '"product_type g"," radius A","","max_degree C","norm u",', 14),
        ('other words', '"radius_x A","normal z","","   ","x errors q","max_degree_of B",', 18), ('repeated', '"norm a","norm b","radius A","radius B",', 12)] + \
       [('no value for ' + w, '" %s  ",' % w, max(14, len(w) + 1)) for w in WORDS] + [('nothing after ' + w, '"%s",' % w, max(14, len(w) + 1)) for w in ('norm', 'radius')]


def header(ck):
    ck.assume('the header texts listed in checks/icgem.py with arbitrary numbers', 'the text has an end_of_head line', 'lines shorter than the line buffer')

    def job(home, inc, extra, label, text, peel, defs=()):
        return lambda ck: run_pairs(ck, 'icghead', [], 'header read', home + '/icgemio_rdhead.cpp', defs=('-DTEXT=' + text, '-DCHARS=4') + tuple(defs) + extra, inc=inc,
                                    pipeline=build.PEEL3, peel=peel, label=home + ', ' + label, limit=10 ** 6, pairs_kw=KW)
    jobs = []
    for home, inc, extra in HOMES:
        jobs += [job(home, inc, extra, n, t + END, p) for n, t, p in HEAD]
        jobs += [job(home, inc, extra, 'text after the end', '"norm a","end_of_head ===","radius A"', 12),
                 job(home, inc, extra, 'new reader', '"a"', 18, ('-DFRESH',)),
                 lambda ck, home=home, inc=inc, extra=extra: guarded(ck, 'text fits its field', home + '/icgemio_rdhead.cpp', home, lambda: fields(ck, home, inc, extra))]
    parallel(ck, jobs)


def fields(ck, home, inc, extra):
    """every copy into a text field of the reader is limited to its room"""
    rule = 'text fits its field'
    try:
        bc = build.compile_bc(driver('icglim'), defs=tuple(extra), inc=inc)
        m = build.export(bc, roots=['parse_header'], pipeline=build.RAW, no_inline=True)
    except build.ToolError as e:
        ck.ob(rule, home + '/icgemio_rdhead.cpp', 'undecided', 'driver icglim does not compile: ' + str(e)[-500:])
        return
    for f in m['functions']:
        s = vn.Sym(f, m['globals'])
        for c in s.calls:
            q = re.search(r'vp_copyIA(\d+)_c', c['name'] or '')
            if not q:
                continue
            room, n = int(q.group(1)), c['args'][2]
            site = s.fn.where(c['ins'])
            what = '%s bytes for %s characters' % (room, alg.show(n)[:80])
            best = int(n.cval()) if n.cval() is not None else None
            if best is None:
                for k in s.facts(c['blk']):
                    if k[0] == 'cmp' and k[1] in ('le', 'lt') and k[3] == 'i':
                        d = (n - alg.N(k[2])).cval()      # n - d <= 0
                        if d is not None:
                            d = int(d) - (k[1] == 'lt')
                            best = d if best is None else min(best, d)
            if best is not None:
                ck.ob(rule, site, 'ok' if best < room else 'bad', what + ', at most %d' % best)
                continue
            # the length a helper reported that was told no limit
            k = [alg.key(a) for a in n.atoms()]
            src = [x for x in s.calls if k and k[0][0] == 'out' and x['name'] == k[0][1] and x.get('seq') == k[0][2]]
            free = len(k) == 1 and len(src) == 1 and n == alg.Num.atom(k[0]) and all(isinstance(a, vn.Ptr) for a in src[0]['args'])
            ck.ob(rule, site, 'bad' if free else 'undecided', what + ', no limit found')


# (part, degree, order); one more degree than asked for is stored
FIELD = ((1, 1, 1), (1, 3, 0), (1, 4, 2), (1, 5, 5), (2, 1, 0), (2, 1, 1), (2, 2, 0), (2, 3, 3), (2, 5, 3), (2, 4, 4), (3, 2, 1), (3, 3, 3), (3, 1, 1))
DEEPER = ((1, 6, 6), (2, 6, 6), (2, 6, 2), (2, 8, 1), (3, 4, 2))


def field(ck):
    ck.assume('real arithmetic (rounding is not modelled)', 'the position is not the origin', 'heap allocations succeed', 'degrees and orders listed in checks/icgem.py')

    def job(home, inc, extra, part, n, m):
        var = 'var/' in home
        srcs = [home + '/harmonic_coeffs.cpp'] + ([] if var else [home + '/lagrange_poly.cpp'] * (part != 3) + [home + '/gravity_acceleration.cpp'] * (part != 1))
        what = ('potential terms', 'acceleration', 'from a position')[part - 1]
        d = ('-DPART=%d' % part, '-DDN=%d' % n, '-DDM=%d' % m, '-DEXTRA=1', '-DEIGEN_NO_DEBUG') + (('-DDEBUG',) if part == 1 and n < 5 else ()) + extra
        return lambda ck: run_pairs(ck, 'gravity', srcs, what, home + ('/lagrange_poly.cpp' if part == 1 else '/gravity_acceleration.cpp'), defs=d, inc=inc[:1], label='%s, %dx%d' % (home, n, m), limit=10 ** 6,
                                    pairs_kw=dict(pure_calls=('pure_',), budget=60))
    jobs = []
    for home, inc, extra in HOMES:
        for p, n, m in FIELD + (DEEPER if ck.tier == 'thorough' else ()):
            if p != 3 or not extra:
                jobs.append(job(home, inc, extra, p, n, m))
    parallel(ck, jobs)

"""The properties: text for properties.jsonl, MANIFEST.json and DESIGN.md.
`python3 checks/catalog.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PAIR = 'partial evaluation to LLVM IR, value numbering and normal-form equality of every output with a reference formula'
REAL = 'Real arithmetic: rounding is not modelled. '

P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, na=na, state=state, observe=observe))


prop('S01', 'Two-dimensional arrays address their own elements and own their storage',
     'Every element (i,j) of a dense or lower-triangular array has its own storage cell inside the allocation, so a value written through any accessor (element, row, column, flat) is the one read back through every other and no other element changes. '
     'Copying gives an equal and independent array, moving transfers the content and leaves the source harmless, filling and multiplying touch exactly the stored elements, and resizing leaves usable storage of the new shape. '
     'Over any life cycle of construct, copy, move, assign, resize and destroy each allocation is released exactly once and never used afterwards.',
     ['inputs', 'histories'], 'all contents and index pairs; all sequences of the special member functions of both copies of the container',
     'No stable test uses the container; aliasing or a double release only shows for particular shapes and life-cycle sequences.',
     ['src/cmat2d.hpp', 'var/icgem/src/compact2dmat.hpp'],
     [('element addressing, copies and storage ownership', 'class Mat2D and MatrixStorageImpl in src/cmat2d.hpp; the same class in var/icgem/src/compact2dmat.hpp')],
     PAIR + '; heap typestate (allocate, use, release once) on every path', REAL + 'Proof for the shapes and life cycles in drivers/mat2d.cpp with symbolic contents; dense offsets for every size.')

prop('S02', 'The coefficient container stores every C and S of its triangle independently',
     'For every degree and order the container keeps each cosine and sine coefficient of the lower triangle in a cell of its own: setting one never changes another and reading returns exactly the last value set. '
     'Construction, copy, move, assignment and resize keep degree, order, constants and the normalisation state consistent with the stored coefficients, start from zero where documented, and stay inside the allocation. '
     'Each allocation is released exactly once.',
     ['inputs', 'histories'], 'all coefficient values, all (degree, order) pairs up to the bound, all life cycles of the container',
     'C and S share one packed table with mirrored indices; an overlap or an off-by-one only shows for particular (n,m) pairs that no stable test stores.',
     ['src/harmonic_coeffs.hpp', 'src/gravity/harmonic_coeffs.cpp', 'var/icgem/src/harmonic_coeffs.hpp', 'var/icgem/src/harmonic_coeffs.cpp'],
     [('packed C/S table', 'class HarmonicCoeffs in src/harmonic_coeffs.hpp'), ('allocation, resize, move', 'HarmonicCoeffs members in src/gravity/harmonic_coeffs.cpp')],
     PAIR + '; heap typestate on every path', REAL + 'Proof for degrees 0 to 6 with symbolic coefficients.')

prop('S03', 'Denormalising coefficients applies the geodetic factor exactly once',
     'Denormalising divides every C and S of degree n >= 1 and order m by sqrt((n+m)!/((n-m)!(2n+1)(2-delta_0m))), leaves the degree-0 term and coefficients outside the requested order alone, and reports what it did. '
     'Coefficients already flagged unnormalised are not changed again where that state is tracked.',
     ['inputs'], 'all coefficient values and every (degree, order) up to the bound',
     'The factor differs per (n,m), so a sample of coefficients says nothing about the others; no stable test calls it.',
     ['src/gravity/harmonic_coeffs.cpp', 'src/harmonic_coeffs.hpp', 'var/icgem/src/harmonic_coeffs.cpp'],
     [('per-coefficient factors', 'HarmonicCoeffs::denormalize in src/gravity/harmonic_coeffs.cpp and var/icgem/src/harmonic_coeffs.cpp')],
     PAIR, REAL + 'Proof for degrees 1 to 6 (24 in the thorough tier) and full, partial, zonal and default orders.')

prop('S04', 'The Runge-Kutta-Fehlberg integrator takes Fehlberg steps under its error control',
     'Each attempted step evaluates the right-hand side at the Fehlberg nodes and advances the state by the Fehlberg formula of its order; the error estimate, the acceptance test, the step shrink and growth limits, and the initial step follow the published RKF45 driver. '
     'The reported time, state and status flag agree with the last accepted step, for forward and backward integration and for one-step and to-the-end modes. '
     'Invalid tolerances, flags or intervals are reported and leave the state alone.',
     ['inputs', 'histories'], 'all initial states, tolerances, intervals and right-hand sides; the first attempts and steps of a call',
     'The one stable example samples a few smooth problems with loose tolerances, so a wrong coefficient in the error estimate or a wrong step limit still converges.',
     ['var/ode_solvers/rkf45.hpp', 'var/ode_solvers/rkf45_rkfs.cpp', 'var/ode_solvers/rkf45_fehl.cpp'],
     [('one Fehlberg step', 'RKF45::fehl in var/ode_solvers/rkf45_fehl.cpp'), ('step control and flags', 'RKF45::rkfs in var/ode_solvers/rkf45_rkfs.cpp')],
     PAIR, REAL + 'Proof with an arbitrary pure right-hand side for one and two equations; the retry and step loops are unrolled to the bound recorded in the evidence.')

prop('S05', 'Third-body and drag accelerations and their partials follow the force equations',
     'The third-body acceleration is -GM(d/|d|^3 + s/|s|^3) with d the satellite position relative to the body, and the drag acceleration is -(1/2) C (A/m) rho |v_r| v_r with v_r the velocity relative to the rotating atmosphere, expressed in the frame of its inputs. '
     'Every returned partial derivative matrix (position, velocity, drag coefficient) is the exact derivative of that acceleration.',
     ['inputs'], 'all positions, velocities, areas, masses, densities and density gradients',
     'No stable test evaluates a force; wrong signs or transposed partials only show for generic, non-symmetric geometry.',
     ['src/gravity/point_mass_acceleration.cpp', 'src/astrodynamics/drag.cpp'],
     [('third body', 'point_mass_accel in src/gravity/point_mass_acceleration.cpp'), ('drag', 'drag_accel overloads in src/astrodynamics/drag.cpp')],
     PAIR, REAL + 'Proof for symbolic inputs, every output component.')

prop('S06', 'Orbital elements, perifocal frames and state partials are mutually consistent',
     'The perifocal frame is the rotation by node, inclination and perigee, and converting vectors to and from it are inverse rotations; elements give the two-body position and velocity at the requested time, and a state gives back the elements, with the solver status passed on. '
     'Propagation is conversion, time shift and conversion, and every entry of the partials of the state with respect to the elements is the exact derivative of the two-body solution.',
     ['inputs'], 'all elliptic element sets, states, gravitational constants and times',
     'The programs that exercise these functions are not stable tests; a wrong quadrant or a wrong partial only shows for particular geometries.',
     ['src/astrodynamics/perifocal.cpp', 'src/astrodynamics/state2kepler.cpp', 'src/astrodynamics/state_partials.cpp', 'src/astrodynamics/propagate_state.cpp', 'src/astrodynamics/pos2ra.cpp'],
     [('perifocal conversions', 'src/astrodynamics/perifocal.cpp'), ('state to elements', 'src/astrodynamics/state2kepler.cpp'), ('partials', 'state_partials in src/astrodynamics/state_partials.cpp'), ('propagation', 'src/astrodynamics/propagate_state.cpp')],
     PAIR, REAL + "Proof for symbolic elements, states and times; Kepler's equation is solved by an arbitrary function of eccentricity, anomaly and tolerance.")

prop('S07', 'Reading a gravity model stores exactly the requested coefficients of the file',
     'After a successful read every requested coefficient of the container (degree up to l, order up to m) is the one its own line of the file gives, C(1,0) and C(1,1) are zero when the file leaves out exactly those two, no other stored coefficient has changed, and the constants and normalisation state are those of the model. '
     'Lines of other kinds or outside the requested triangle have no effect, in any order of lines. '
     'Success is reported only if everything requested was found; a request that does not fit the model or the container, an unopened file, an unreadable number or an incomplete file is reported as an error.',
     ['inputs'], 'all numbers, line kinds and unreadable fields in files of the lengths in the bound; all degrees, orders and prior contents',
     'No stable test reads a model; a wrong limit, a shifted column or a file that ends early only matters for particular requests.',
     ['src/gravity/icgemio_rddata.cpp', 'src/icgemio.hpp', 'var/icgem/src/icgemio_rddata.cpp', 'var/icgem/src/icgemio.hpp'],
     [('line by line reading of coefficients', 'Icgem::parse_data in src/gravity/icgemio_rddata.cpp and var/icgem/src/icgemio_rddata.cpp'), ('model for a degree and order', 'parse_gravity_model in src/gravity/parse_coefficients.cpp')],
     PAIR, 'Proof for files of up to two arbitrary lines and of five to six lines with fixed leading entries, with files and text conversion replaced by arbitrary functions; coefficients given twice or equal to the -999 mark are out of the bound.')

prop('S08', 'Reading a model header takes each keyword\'s value and refuses what it cannot use',
     'Every header value is the first word after its own keyword at the start of a line (after blanks); other words, longer words that begin like a keyword and text after the end of the header have no effect, and the data section begins after the end line. '
     'A keyword without a value, an unreadable or zero constant, a value too long for its field or a missing mandatory constant is reported as an error, and no text is ever written past its field. '
     'A new reader describes a fully normalised model of unknown tide system, and normalisation is recognised by that exact word.',
     ['inputs'], 'the header texts in the bound with every numeric value, readable or not, and every prior value of the constants; every copy into a text field',
     'No stable test reads a header; keyword prefixes, missing values and long values occur only in unusual files.',
     ['src/gravity/icgemio_rdhead.cpp', 'src/icgemio.hpp', 'var/icgem/src/icgemio_rdhead.cpp', 'var/icgem/src/icgemio.hpp'],
     [('keyword resolution and values', 'Icgem::parse_header, resolve_header_keyword in icgemio_rdhead.cpp'), ('normalisation', 'Icgem::is_normalized in src/icgemio.hpp')],
     PAIR + '; bound on every copy from the conditions that dominate it', 'Proof for the header texts listed in checks/icgem.py with arbitrary numbers.')

prop('S09', 'A download leaves the complete file or no new file, and says which',
     'Without force an existing file is never touched and no transfer is made. '
     'Otherwise success is reported exactly when the whole body of a successful response was written and the file closed without error; on any failure a positive code is returned and no partial file remains, and a file that could not be opened is left as it was. '
     'The local file is closed before the call returns and every transfer session is released.',
     ['inputs', 'fault_sequences'], 'all outcomes of opening, transferring, writing and closing, for both settings of force',
     'There is no network in the tests; refused responses, short writes and failing closes never happen there.',
     ['src/web/http_get.cpp', 'src/cweb.hpp'], [('download', 'dso::http_get in src/web/http_get.cpp')],
     PAIR, 'Proof with the transfer library and the local file replaced by arbitrary outcomes; transfers of up to two blocks.')

prop('S10', 'The variable-order Adams integrator takes the published steps and controls error',
     'A step predicts and corrects with the variable-coefficient Adams formulas of the current order, evaluates the right-hand side where they prescribe, estimates the errors at the neighbouring orders, and accepts, repeats or gives up as the published integrator does; the order and size of the next step, the difference table and the starting step follow its rules. '
     'Interpolation inside the last step evaluates the polynomial through the stored differences and its derivative. '
     'The driver honours the stop-at-end mode, the direction of integration, the tolerances, the step limit and stiffness test, and reports time, state and status consistently; invalid input is reported and leaves the state alone.',
     ['inputs', 'histories'], 'all states, differences, tolerances, intervals and right-hand sides, from the histories, orders and first steps in the bound',
     'The one stable example integrates a smooth problem at loose tolerance: a wrong coefficient at an order it never reaches, a wrong retry or a wrong restart goes unseen.',
     ['var/ode_solvers/sgode.hpp', 'var/ode_solvers/sgode_step.cpp', 'var/ode_solvers/sgode_intrp.cpp', 'var/ode_solvers/sgode_de.cpp', 'src/integrators/sgode_step.cpp', 'src/integrators/sgode_intrp.cpp', 'src/integrators/sgode_de.cpp'],
     [('one step', 'SGOde::step in sgode_step.cpp'), ('interpolation', 'SGOde::intrp in sgode_intrp.cpp'), ('driver', 'SGOde::de in sgode_de.cpp')],
     PAIR, REAL + 'Proof with an arbitrary pure right-hand side for one and two equations, orders 1 to 5 (12 in the thorough tier), four attempts and the first steps of a call; the driver is decided with an arbitrary step and interpolation.')

prop('S11', 'Gravity acceleration and partials are derivatives of the harmonic potential',
     'The potential terms of every degree and order satisfy their recursions for any position, and the acceleration from given terms and coefficients is the gradient of the potential truncated at the requested degree and order, scaled by GM/R^2. '
     'The partials are its second derivatives scaled by GM/R^3: symmetric, trace-free and including every order from zero up. '
     'All ways of asking (given constants, the constants of the model, a position) agree, and an order above the degree is refused.',
     ['inputs'], 'all positions, terms, coefficients and constants for the degrees and orders in the bound',
     'No stable test evaluates gravity; an error confined to one order, to orders below the degree or to one partial needs particular coefficients to show.',
     ['src/gravity/lagrange_poly.cpp', 'src/gravity/gravity_acceleration.cpp', 'src/egravity.hpp', 'var/icgem/src/lagrange_poly.cpp', 'var/icgem/src/gravity_acceleration.cpp'],
     [('potential terms', 'lagrange_polynomials in lagrange_poly.cpp'), ('acceleration and partials', 'grav_potential_accel in gravity_acceleration.cpp and egravity.hpp')],
     PAIR, REAL + 'Proof for every coefficient and position at degrees up to 5 (8 in the thorough tier) with orders from zero to the degree.')

prop('S12', 'Radiation pressure, eclipse and relativistic clock models are their formulas',
     'The solar radiation acceleration points away from the Sun with the inverse-square flux, area, mass and reflectivity of the textbook formula, and its partials are the derivatives of it. '
     'Each eclipse model returns the illumination its geometry defines for every Sun and satellite position: full in sunlight, none in the umbra, the stated fraction in between. '
     'The clock correction and the ionospheric phase correction equal their published expressions.',
     ['inputs'], 'all satellite and Sun positions, velocities and physical parameters',
     'No stable test evaluates them, and eclipse errors show only for positions near a shadow boundary.',
     ['src/astrodynamics/solar_radiation.cpp', 'src/astrodynamics/occultation.cpp', 'src/relativity/relativistic_clock_correction.cpp'],
     [('radiation', 'solar_radiation_acceleration'), ('eclipse', 'shadow models in occultation.cpp'), ('clock', 'relativistic_clock_correction')],
     PAIR, REAL + 'Proof over all inputs; the geodetic latitude conversion is external and arbitrary.')

prop('S13', 'Frame changes and third-body accelerations follow the rotation composition',
     'A position goes between the celestial and terrestrial frames by the polar motion, Earth rotation and celestial pole matrices in that order, the way back is the inverse, and velocities include the rotation of the Earth at the rate given by the length of day. '
     'The rotation parameters of an epoch are formed from the Earth orientation record with its units and time scales. '
     'Sun and Moon accelerations are the direct minus indirect attraction of each body in SI units, with the matching gradient.',
     ['inputs'], 'all states, epochs, matrices and orientation records',
     'No stable test transforms a state; a wrong order, sign, scale or unit keeps results plausible.',
     ['src/itrs2gcrs.cpp', 'src/sunmoon.cpp', 'src/gravity/point_mass_acceleration.cpp'],
     [('rotations', 'rcel2ter, rter2cel, ycel2ter and yter2cel'), ('orientation', 'gcrs2itrs'), ('third bodies', 'SunMoon')],
     PAIR, REAL + 'Proof over all inputs with the SOFA series, leap seconds, ephemerides and orientation table regarded as arbitrary functions.')

prop('S14', 'Low-precision Sun and Moon positions follow the published series',
     'The analytical Sun and Moon positions equal the published series of their source (arguments, amplitudes, obliquity and distance, in kilometres or metres as documented) at every epoch.',
     ['inputs'], 'all epochs',
     'The stable tests do not evaluate them, and a wrong digit in a rate only shows decades from the reference epoch.',
     ['src/planets/sunpos.cpp', 'src/planets/moonpos.cpp'], [('series', 'sun_vector_* and moon_vector_*')],
     PAIR, REAL + 'Proof over all epochs.')

prop('S15', 'Atmosphere kernels and profiles follow the published model',
     'The numerical kernels of the density model (turbopause corrections, net density, magnetic activity functions, splines, gravity and scale height) and its lower and upper temperature and density profiles equal the published formulas for every input. '
     'The exponential model uses, at each altitude, the base altitude, density and scale height of the layer the altitude falls in.',
     ['inputs'], 'all altitudes, temperatures, densities, coefficients and node values',
     'No stable test evaluates a density; a wrong layer, switch or node needs the altitude range it belongs to.',
     ['src/atmosphere/nrlmsise00_densm.cpp', 'src/atmosphere/nrlmsise00_densu.cpp', 'src/atmosphere/nrlmsise_spline.cpp', 'src/atmosphere/exponential_atmospheric_model.cpp'],
     [('kernels', 'nrlmsise00 detail functions'), ('profiles', 'densm and densu'), ('layers', 'exponential::density')],
     PAIR, REAL + 'Proof over all inputs; spline recursions at fixed unequal knots with arbitrary ordinates; in the profiles the spline kernels are arbitrary functions.')

prop('S16', 'Event flags and packed flag words behave as independent bits',
     'Marking, clearing and querying events behaves as set insertion, removal and membership: an operation on one event never changes whether another is set, combinations mark exactly their members, and a flag is clean exactly when nothing is set. '
     'The fields packed into one word keep their full eight-bit values independently of each other and of the order in which they are written, and the value of a measurement depends on its flags in the same way in every layout.',
     ['inputs', 'histories'], 'all flag words, events, masks and field values, for one-, four- and eight-byte underlying types',
     'The stable programs set a few events and random fields always in the same order; most (old word, new field) pairs and non-clean starting points are never seen.',
     ['var/flags.cc', 'var/compound_measurement.cc', 'src/enum_bitset.hpp'],
     [('event flag', 'Sp3Flag in var/flags.cc'), ('packed fields', 'Flag in var/compound_measurement.cc'), ('enumeration bitset', 'EnumBitset in src/enum_bitset.hpp')],
     'bit-level abstract evaluation to canonical boolean functions (BDDs) compared with a reference, bit by bit', 'Proof for every input word; the reference is set semantics on a bit mask.')

prop('S17', 'Table interpolators return the interpolant of the bracketing nodes',
     'For any strictly ascending table and any argument the nearest-neighbour, linear and quadratic interpolators evaluate their interpolant on the nodes that bracket the argument (the quadratic adds the nearer neighbouring node), reproduce the table at the nodes and never read outside it. '
     'Arguments before or after the table give the first or last value and say so.',
     ['inputs'], 'all ascending tables of three and more nodes, all values and all arguments',
     'The program prints values for one equidistant table and checks none; wrong node selection only shows for unequal spacing or at the edges.',
     ['var/intrp.cc'], [('interpolators', 'NearestNeighborInterpolator, LinearInterpolator and QuadraticInterpolator in var/intrp.cc')],
     PAIR, REAL + 'Proof for tables of 3 to 5 nodes (7 in the thorough tier) with symbolic nodes, values and argument.')

prop('S18', 'Factorials and factorial ratios are exact products',
     'Every entry n of a factorial table is n!, and the ratio of two factorials n!/d! is the product of the integers between them, or its reciprocal when d is larger.',
     ['inputs'], 'all table entries and all pairs of arguments up to the bound',
     'No test evaluates them; one wrong entry or one wrong pair would pass unnoticed.',
     ['src/factorial.hpp'], [('table and ratios', 'FactorialLookUpTable and factorialRatio in src/factorial.hpp')],
     PAIR, REAL + 'Proof for tables of every size up to 30 (60 in the thorough tier) and all ratios up to 12!/12! (24!/24!).')

prop('S19', 'Earth orientation tables keep, interpolate and load their records intact',
     'A table copied, assigned, moved or resized holds exactly the rows of its source in every column, independently of it, and each block of memory is released once. '
     'Interpolation gives the Lagrange value of each column at the epoch plus the zonal, ocean-tide and libration corrections of that parameter, regularisation subtracts the zonal part, and a failed interpolation is reported. '
     'Reading a file succeeds only with one readable record per requested day, each number going to its own column.',
     ['inputs'], 'all table contents, epochs and records for the table and file sizes in the bound',
     'No stable test touches a table; a swapped column, a lost correction or a partial copy needs later interpolation to show.',
     ['src/eop.hpp', 'src/iers/eop_interpolate.cpp', 'src/iers/parse_c04.cpp'],
     [('storage', 'EopLookUpTable'), ('interpolation', 'interpolate, interpolate_lagrange and regularize'), ('reader', 'parse_iers_C04')],
     PAIR, REAL + 'Proof for tables of 1 to 5 rows and files of up to 2 lines; the Lagrange kernel and tidal series are arbitrary functions.')

prop('S20', 'The orbit filter applies the Kalman equations to the right parameters',
     'A scalar measurement with standard deviation s changes the state by gain times residual and the covariance as the Kalman equations prescribe, and a propagation replaces the state, transports the covariance with the transition matrix and adds the process noise. '
     'Every parameter (satellite state, drag coefficient, and per beacon wet delay and clock terms) has one place, and setting an a-priori value or sigma of one beacon or of all of them changes exactly the places that belong to it. '
     'Reference polynomial models evaluate, copy and move their coefficients intact.',
     ['inputs'], 'all states, covariances, transition matrices, measurements and a-priori values for the state sizes and beacon counts in the bound',
     'No stable test touches the filter; a wrong gain term or a value written to another beacon only shows as a worse orbit.',
     ['src/filters/ekf.hpp', 'src/filters/filters.hpp', 'src/filters/models.hpp'],
     [('filter equations', 'ExtendedKalmanFilter'), ('parameter layout', 'EkfFilter'), ('reference models', 'LinearModel and PolynomialModel')],
     PAIR, REAL + 'Proof for states of 2 and 3 parameters, one force-model parameter, 2 and 3 beacons and third-order models.')

NA = [
    ('N01', 'The numerical solution of a smooth problem stays within the requested tolerance', 'For every sufficiently smooth right-hand side the integrators return a state whose error is within the requested tolerances.', 'The error of an integration is a quantity of the particular right-hand side and of rounding; no static argument in reach bounds it. The formulas that control it are decided by S04 and the multistep property.',
     ['var/ode_solvers/rkf45_rkfs.cpp', 'src/integrators/sgode_de.cpp'], [('integrators', 'var/ode_solvers and src/integrators')]),
    ('N02', 'Atmospheric densities agree with the reference empirical model', 'For every date, place and space-weather input the density returned agrees with the published empirical atmosphere model.', 'Agreement with a tabulated empirical model is a comparison of numbers over thousands of coefficients; there is no independent reference in the source to decide it against.',
     ['src/atmosphere'], [('model evaluation', 'src/atmosphere')]),
    ('N03', "Kepler's equation converges to the requested tolerance", "For every eccentricity below one and every mean anomaly the solver terminates with E - e sin E = M within its tolerance.", 'Convergence of the iteration depends on floating-point values of the inputs that no static bound in reach settles.',
     ['src/astrodynamics'], [("Kepler's equation", 'src/astrodynamics')]),
]


def write():
    from . import registry
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = p['state']
            if p['observe']:
                a['observe_at'] = p['observe']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
        for i, t, s, r, fs, me in NA:
            f.write(json.dumps({'id': i, 'title': t, 'statement': s, 'quantifier': {'over': ['inputs'], 'text': 'every input'}, 'why_tests_cant': 'Holds for every input; the tests sample a few.', 'anchors': {'files': fs, 'mechanism': [{'name': n, 'where': w} for n, w in me]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': [{'property': x[0], 'reason': x[3]} for x in NA],
         'notes': 'Every check is static: it compiles the current /repo sources to LLVM IR or a syntax tree and decides obligations on that; nothing of the repository is executed. No hooks are needed in /repo.'}
    for p in P:
        if p['id'] not in registry.PROPS:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'no check yet'})
            continue
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                            'technique': 'static analysis: ' + p['technique'], 'level': registry.PROPS[p['id']][2], 'level_note': p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    write()

# Per-property design notes: (events observed / monitor, oracle, why tests cannot settle it)
N = {
'C01': ('every setter call (10 kinds, all units, changes down to parts in 1e9), every read of 23 grid properties, in-place edits of handed-out arrays, clones and interleaved second pulses',
        'closed form of each grid from the model\'s (N, window, carrier), kept next to the object', 'caching makes the answer depend on the order of sets and reads'),
'C02': ('AT/AW writes and reads in every array form (list, strided, read-only, reversed, single precision, integer), refused writes, writes after grid changes',
        'explicit N x N transform matrix built from the *reported* time and frequency grids', 'fftshift/normalisation slips vanish for the symmetric pulses tests use, odd N differ'),
'C03': ('energies after random histories of set_epp (also by parts in 1e9), phase operations, delays, copies, cuts', 'trapezoidal time integral of the reported field in SI units', 'unit or caching slips appear only after particular histories and on particular grids'),
'C04': ('all constructors with random arguments, flags, units; trace files written by the monitor', 'documented closed form of field, peak/average power, chirp phase; grid closed form', 'tests use default flags; combinations of chirp, average power and units are not sampled'),
'C05': ('each phase operation in random histories', 'documented phase factor applied to the field read just before; inverse/additivity/commutation; group-delay sign by moment shift', 'sign and 1/n! conventions are invisible in intensities'),
'C06': ('dechirp and delay removal on smooth spectra with random polynomial phase', 'independent least-squares fit over bins above threshold; invariance under added phase; idempotence', 'depends on masking, unwrapping and centring that symmetric pulses hide'),
'C07': ('clone, clone_pulse, deepcopy, pickle, dictionary/JSON, FROG file (also read onto another grid); then edits on either side', 'snapshot of the original before; model of both afterwards', 'aliasing shows only when one side is changed later'),
'C08': ('expand, rotate, interpolate, create_subset, filter alone and in chains; invalid requests', 'index-level model of the field on its absolute frequencies/times', 'off-by-one and boundary decisions at arbitrary limits'),
'C09': ('mean frequency, autocorrelation, XFROG/FROG, and the same after known shifts', 'directly evaluated double sums; shift covariance; default-argument gates from 0.3 samples to many windows', 'rotations of axes cancel for centred pulses'),
'C10': ('thousands of draws per run for both models', 'normalised residuals pooled, 7 standard errors on mean, variance, phase and neighbour correlations; seeding', 'a statistical property is not an example'),
'C11': ('get_betas/get_B and beta2/D queries for every dispersion format and pulse grid, also of fibres that change along z', 'Horner evaluation in exact units, independent Taylor/lsq/index models, shape curvature', 'formats agree only if all units and expansions agree'),
'C12': ('DTabulationToBetas with in-memory and file tables', 'independent scaled least squares, residual orthogonality, permutation and scaling covariance', 'fit order, ordering, mutation'),
'C13': ('interleaved generate/load/set/query on several fibres, collections of one name in several files, special gains (exactly 0, 1, -1, integers), all defaults, all shipped entries', 'model per fibre, the JSON database read independently', 'shared class-level state appears only with two fibres'),
'C14': ('get_gain for flat and tabulated spectra', 'table interpolation on the pulse grid for shape, power of the linearly amplified field for scale', 'optimiser behaviour over random spectra/targets'),
'C15': ('every saved column of linear propagation', 'exp((i beta + g/2) z) with beta from C11\'s models, the fibre often specified at another wavelength than the pulse\'s; superposition', 'step-size control, FFT shifts and last-step handling combine'),
'C16': ('final and intermediate fields for random nonlinear problems, with fibres specified up to 3 % away from the pulse\'s wavelength', 'independent fixed-step RK4-IP solver of the documented GNLSE refined until self-consistent; closed forms for SPM, solitons, parametric gain, shock', 'tests sample two problems; each term has its own regime'),
'C17': ('runs paired by a symmetry; invariants before/after', 'energy, photon number, first moment, time/phase/mirror/scaling covariance, back-propagation', 'invariants hold for every input'),
'C18': ('the same problem organised differently: output steps, cut fibres (also zero-length pieces), back ends, first steps from a thousandth to a hundred fibres, solvers, pulses and fibres that have just been used for nearly the same problem; snapshots of all arguments', 'pairwise agreement; snapshots equal', 'state kept in the solver between calls'),
'C19': ('phase left by an intensity spike in a dispersionless fibre, sideband growth', 'documented response functions, causality, unit area', 'hR is internal; only measured through the field'),
'C20': ('returned coherence and trials, trials vs undisturbed run, reseeded runs', 'statistic recomputed from the returned trials; 7-sigma for noise clauses; bitwise repeatability', 'statistical, seed-dependent'),
'C21': ('propagate_to_gain_goal results and their replay; a third of the goals need four to six runs', 'average power of the returned pulse; replay with the scale factor', 'iterative search, goal-dependent'),
'C22': ('integrations of closed-form problems and single steps', 'exact solutions, empty, smallest and large intervals; observed order of single steps; covariance under rescaling, reversal, complex-as-pairs; effort counters', 'tableau digits only show at high accuracy'),
'C23': ('rows saved by Output in dense, every-step and off modes', 'exact solution at each row\'s position; row count and spacing', 'storage growth and end-point rounding need many rows'),
'C24': ('integrators constructed/interleaved/nested/reused; failing right-hand sides', 'bitwise equality with the run alone; exceptions', 'shared mutable state'),
'C25': ('index calls on scalars and arrays after histories of settings', 'published Sellmeier equations transcribed independently', 'coefficients and temperature factors over the whole range'),
'C26': ('cached and uncached queries under random interleavings of changes', 'published equation under the current settings', 'cache keys and invalidation'),
'C27': ('poling periods, inverse search, phase-matching angles, poling functions', 'wave-vector balance from the published indices', 'continuous families of triples'),
'C28': ('group velocities, D, delays, bandwidth', 'derivatives of the published equations by complex contour', 'units and signs'),
'C29': ('beam geometry, overlaps, waveguide conversions, optimised waists; one beam while pulses and crystals change by little', 'Gaussian beam formulas, numerically integrated overlap, dense search', 'negative positions, unmatched beams, broadband'),
'C30': ('every right-hand-side call and every saved position', 'd/dz of total energy and photon numbers, totals along z, snapshots of inputs', 'conservation for every state'),
'C31': ('right-hand side and saved fields; problems built after nearly equal ones on the same objects', 'direct-sum evaluation of the coupled equations, independent integration, closed forms (cw efficiency, QPM, focus)', 'each factor has its own regime'),
'C32': ('result object and HDF5 files in random access order', 'the save table itself', 'index arithmetic and reuse of one pulse object'),
'C33': ('angles, dispersions, higher orders, compressed pulses', 'analytic Treacy phase and its derivatives by Cauchy contour', 'coercion and high orders'),
'C34': ('results of every stage of two to five interleaved jobs; digests of arguments; random state, error handling, directory, files, switches after every stage', 'the same job alone in a process forked before the library was first used; the digests taken before', 'histories and interleavings across all parts, with equal and nearly equal jobs in company'),
}

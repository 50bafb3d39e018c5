"""Writes properties.jsonl and MANIFEST.json from the table below.
Run: python3 tools/gen_properties.py   (from /verif)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=(), note=''):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(quant.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


PB = 'src/pynlo/light/PulseBase.py'
DP = 'src/pynlo/light/DerivedPulses.py'
FI = 'src/pynlo/media/fibers/fiber.py'
CA = 'src/pynlo/media/fibers/calculators.py'
JL = 'src/pynlo/media/fibers/JSONFiberLoader.py'
SS = 'src/pynlo/interactions/FourWaveMixing/SSFM.py'
FF = 'src/pynlo/util/pynlo_ffts.py'
ST = 'src/pynlo/util/ode_solve/steppers.py'
D8 = 'src/pynlo/util/ode_solve/dopr853.py'
DK = 'src/pynlo/util/ode_solve/dopr853_constants.py'
DC = 'src/pynlo/util/ode_solve/dopr853_controller.py'
CC = 'src/pynlo/media/crystals/CrystalContainer.py'
LN = 'src/pynlo/media/crystals/XTAL_PPLN.py'
AS = 'src/pynlo/media/crystals/XTAL_AgGaS.py'
AE = 'src/pynlo/media/crystals/XTAL_AgGaSe2.py'
BE = 'src/pynlo/light/beam.py'
WG = 'src/pynlo/light/high_V_waveguide.py'
DI = 'src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py'
FC = 'src/pynlo/interactions/ThreeWaveMixing/field_classes.py'
MR = 'src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py'
TC = 'src/pynlo/devices/grating_compressor.py'

prop('C01', 'Pulse grids always agree with points, time window and carrier',
     """After any sequence of setting, changing and reading the number of points, the time window
     (or frequency resolution) and the centre wavelength or frequency of a pulse, every time, frequency, angular
     frequency and wavelength grid and every scalar grid property it reports is exactly the one implied by the
     current three values, in every unit offered. Time runs from minus half the window in uniform steps, frequency
     is centred on the carrier with spacing one over the window, and wavelength is the speed of light over frequency.
     Editing an array a pulse handed out, or using other pulses and copies, changes nothing.""",
     ['inputs', 'histories'], """every even grid size, time window, carrier, order and unit of setting, every
     interleaving with reads (which may be cached), in-place edits of results, copies and second pulses""",
     """The tests read each grid of one freshly constructed pulse; stale caches appear only after particular
     orders of set, read and set again.""",
     [PB], [('grid getters with a cache keyed by the pulse parameters', PB), ('setters', PB)],
     ['grid and scalar properties of a pulse'],
     [('cached grids and their hash', 'time, frequency and wavelength arrays computed once per parameter set', PB)])

prop('C02', 'Time and frequency fields are one field through one Fourier transform',
     """Whatever complex field is written to a pulse in one domain is read back unchanged in that domain, and in the
     other domain it equals the centred discrete Fourier transform evaluated on the pulse's own time and frequency
     grids (inverse-normalised towards frequency, so that a unit line at the carrier is a unit constant in time).
     Writes copy their argument, reads hand out copies, a refused write keeps the old field and a field survives
     a change of grid size only by being set anew.""",
     ['inputs', 'histories'], """all fields (smooth, noisy, single sample, single line, edge-heavy), even sizes,
     number types and memory layouts, orders of writing and reading in both domains, in-place edits""",
     """No test compares the two domains; a swapped shift, sign or normalisation is invisible in the peak of a
     symmetric pulse.""", [PB, FF], [('field getters and setters', PB), ('shifted FFT helpers', FF)],
     ['AT and AW of a pulse', 'the FFT helper functions'])

prop('C03', 'Pulse energy is the time integral of the intensity, whatever happened before',
     """The energy reported in joules is always the integral over the time window of the squared magnitude of the
     current field with time in seconds, and setting an energy rescales the field to exactly that energy without
     touching its shape or grid. Phase-only operations, delays, chirps and copies keep the energy, and a pulse
     constructed from an average power has that power over its repetition rate as energy.""",
     ['inputs', 'histories'], """all fields over 40 decades of energy, repetition rates, and histories of energy
     settings, phase operations, grid changes, filters and copies""",
     """No test looks at energies; wrong units or normalisation change every absolute result while all shapes stay
     right.""", [PB, DP], [('calc_epp / set_epp', PB), ('average power handling in the constructors', DP)],
     ['calc_epp', 'set_epp', 'fields'])

prop('C04', 'Pulse constructors deliver the documented shape, width, power and grid',
     """Each constructor yields the documented field: the sech, Gaussian and sinc shapes with the documented width
     convention, centred in the window, with the given peak or average power and second- and third-order chirp;
     a single spectral line of the given power at the given wavelength; vanishing noise; or the interpolated
     retrieved field from tabulated trace data with its energy. Grid, carrier and repetition rate are those asked for,
     and no two pulses share state.""",
     ['inputs', 'configurations'], """all widths, powers, grids, carriers, chirps, flags (peak or average power,
     given or default repetition rate) and tabulated inputs""",
     """Tests build sech pulses with one set of numbers; other shapes, flags, chirps and file input are never
     constructed.""", [DP, PB], [('constructors', DP)], ['fields and grids of new pulses'])

prop('C05', 'Chirp, phase and delay operations apply exactly the documented phase',
     """Adding chirp, spectral or temporal phase or a delay multiplies the field by exactly the documented phase
     factor about the carrier, in the documented units and sign (positive group-delay dispersion delays higher
     frequencies), leaving amplitudes in that domain and the grid untouched. The operations commute where they should,
     add up, and are undone by their negatives; a positive delay moves the intensity to later times.""",
     ['inputs', 'histories'], 'all fields, coefficients of order two to four, phase arrays, delays and sequences of them',
     'The tests never chirp, delay or phase-shift a pulse.', [PB],
     [('chirp_pulse_W, apply_phase_*, add_time_offset', PB)], ['field before and after each operation'])

prop('C06', 'Dechirping and delay removal take out exactly the fitted phase',
     """Dechirping removes exactly the quadratic (and lower) part of the spectral phase and delay removal exactly its
     linear part, as obtained from a fit over the bins that carry energy, leaving spectral amplitude and grid
     untouched. Applying either to a pulse with any amount of such phase added gives the same result, a second
     application changes nothing, and a transform-limited pulse comes out with its peak at time zero.""",
     ['inputs', 'histories'], 'all smooth spectra, centres, widths, amounts of polynomial phase, and repeated application',
     'No test calls these functions.', [PB],
     [('dechirp_pulse, remove_time_delay', PB)], ['field before and after'])

prop('C07', 'Copies and saved forms of a pulse are faithful and independent',
     """A pulse cloned, copied into another pulse, deep-copied, pickled or written as a dictionary carries the same
     grid, carrier, repetition rate and field as the original, and from then on neither influences the other. A pulse
     written to a trace file and read back has the same intensity and phase, energy and time axis to the precision of
     the file.""", ['inputs', 'histories'],
     'all pulses of all classes, all copy routes, later modification of either side, all file contents',
     'Nothing is copied or written in the tests.', [PB, DP],
     [('create_cloned_pulse, clone_pulse, get_pulse_dict, load_pulse_dict', PB), ('write_frog', PB), ('FROG reader', DP)],
     ['fields and grids on both sides', 'the files'])

prop('C08', 'Grid-changing operations keep the field where it belongs',
     """Padding the time window keeps every sample's value and spacing and adds zeros on the side requested; rotating the spectrum
     shifts it by the whole number of bins closest to the requested wavelength; re-centring by interpolation and selecting a band keep every spectral
     amplitude at its absolute optical frequency; filtering leaves the pass band (limits included) as it was and the stop band exactly empty. Invalid
     requests are refused before anything changes, and operations that return a new pulse leave
     the source alone.""", ['inputs', 'histories'],
     'all fields, grids, pad counts and sides, target wavelengths, bands and filters, alone and in sequences',
     'None of these operations is tested.', [PB],
     [('expand_time_window, rotate_spectrum_to_new_center_wl, interpolate_to_new_center_wl, create_subset_pulse, filter_by_wavelength_nm', PB)],
     ['field and grid before and after'])

prop('C09', 'Pulse diagnostics report the pulse\'s own intensity and frequency content',
     """The mean frequency is the first moment of the spectral intensity, the autocorrelation is the
     (symmetric, phase-blind) correlation of the intensity with itself, and a spectrogram is the squared magnitude of
     the transform of the field times the delayed gate, on axes that give true delays and true optical frequencies.
     Delaying the pulse shifts the spectrogram in delay, a spectral line shows at its own frequency, and no diagnostic
     modifies the pulse.""", ['inputs'], 'all fields, grids, gates and extents',
     'No test calls a diagnostic.', [PB], [('calculate_weighted_avg_frequency_mks, calculate_intensity_autocorrelation, spectrogram', PB)],
     ['returned arrays and axes'])

prop('C10', 'Added noise has the documented statistics and touches nothing else',
     """One-photon-per-bin noise adds to every frequency bin an independent complex value with uniformly random phase and a
     normally distributed amplitude whose standard deviation is one photon energy of that bin times the bin width, whatever the field;
     the square-root-of-N model adds the same multiplied by the square root of the number of photons in the bin, and hence nothing to dark bins. Draws
     are fresh unless the random generator is seeded and reproducible when it is; grid, carrier and repetition rate stay as they were,
     and an unknown noise model is refused without touching the field.""",
     ['inputs', 'histories'], 'all fields, grids, carriers, seeds and numbers of draws',
     'Noise is random and untested; wrong scaling or correlated draws look like noise all the same.', [PB],
     [('add_noise', PB)], ['differences of noisy and clean spectra, pooled over many draws'])

prop('C11', 'The propagation constant follows the fibre\'s dispersion data',
     """On every pulse grid the dispersive phase per length of a fibre equals what its data imply: the Taylor series in
     angular frequency about the fibre's centre wavelength for coefficients per metre or per kilometre, the least-squares
     expansion for a table of D values, or the index times frequency over c less value and slope for a table of refractive
     index. It vanishes with its slope at the pulse carrier, describes the same fibre equally in each format, and the
     reported beta2 and D are its curvature in the documented units and sign.""",
     ['inputs', 'configurations'], 'all coefficient sets, tables, files, formats, units, carriers and pulse grids',
     'No test looks at a fibre\'s dispersion.', [FI, CA, JL],
     [('get_betas and the loaders', FI), ('DTabulationToBetas', CA)], ['get_betas', 'Beta2', 'Beta2_to_D'])

prop('C12', 'Tabulated D values convert to their least-squares Taylor coefficients',
     """Converting a table of wavelength and D gives the Taylor coefficients of the polynomial of the requested order in
     angular frequency about the given wavelength that fits the implied group-velocity dispersion in the least-squares
     sense. The result does not depend on row order, scales with D, is the same from file and from memory, and the
     caller's table is left alone.""", ['inputs', 'configurations'],
     'all tables (exactly polynomial, noisy, unsorted), orders, centre wavelengths and sources',
     'Untested.', [CA], [('DTabulationToBetas', CA)], ['returned coefficients and diagnostics', 'the table argument'])

prop('C13', 'A fibre\'s description belongs to that fibre and is what was last set',
     """Length, nonlinearity, dispersion, gain and z-dependence reported by a fibre are those it was last generated, loaded or
     set with, never those of another fibre or of its own earlier contents; z-dependent dispersion and nonlinearity are the
     functions given evaluated at that z, and the entrance without one. Fibres of the shipped library
     load with the coefficients, units and centre wavelength of their database entries, and unknown ones are refused.""",
     ['histories', 'inputs'], 'all interleavings of creating, loading, changing and querying several fibres',
     'Sharing between instances appears only with several fibres and reloads, which no test has.', [FI, JL],
     [('loaders and z-function setters', FI), ('JSON database', JL)],
     ['get_betas, get_gain, gamma, length'],
     [('fiber specifications', 'dictionary of the loaded fibre', FI)])

prop('C14', 'Fibre gain is as given, and gain spectra reach the requested output power',
     """A flat gain is applied as given to every bin; a tabulated gain spectrum follows the table on the pulse's own
     optical frequencies, is zero outside it, and is scaled such that the linearly amplified pulse has exactly the requested
     average power for its repetition rate. Computing a gain leaves pulse and table unchanged.""",
     ['inputs', 'configurations'], 'all gain values, tables, pulses, repetition rates, lengths and target powers',
     'Untested.', [FI], [('get_gain', FI)], ['get_gain', 'linear output power'])

prop('C15', 'Without nonlinearity every colour just gets its own phase and gain',
     """With zero nonlinearity the output spectrum at every saved position is the input spectrum times
     exp((i beta(omega) + gain/2) z), for every numerical method, step count, tolerance and dispersion format, including
     dispersion that varies along the fibre. Saved positions, time and frequency columns and the output pulse agree with
     each other, and superpositions propagate as superpositions.""",
     ['inputs', 'configurations'], 'all pulses, linear fibres, solver settings and numbers of steps',
     'No test runs the fibre solver.', [SS, FI], [('propagate, RK4IP, split step', SS)],
     ['y, AW, AT and output pulse of propagate'])

prop('C16', 'Nonlinear fibre propagation solves the documented Schroedinger equation',
     """For resolved pulses the field at the end and at every saved position agrees, within the accuracy the requested
     tolerance implies, with the solution of the generalised nonlinear Schroedinger equation with the fibre's dispersion,
     gain, nonlinearity and the selected Raman response and self-steepening. In particular pure self-phase modulation gives
     the exact intensity-proportional phase, solitons keep their shape with their phase, weak sidebands grow at the
     analytic parametric gain, and self-steepening moves the peak as the implicit solution says.""",
     ['inputs', 'configurations'], 'all resolved pulses, fibres, Raman models, self-steepening, gains, methods and tolerances',
     'The fibre solver has no tests; a wrong coefficient still yields plausible spectra.', [SS],
     [('RK4IP / split step and the nonlinear operator', SS), ('adaptive local error control', SS)],
     ['fields returned by propagate against an independent solver'])

prop('C17', 'Propagation keeps the conserved quantities and symmetries of its equation',
     """Without gain, energy is conserved when neither self-steepening nor Raman scattering acts, photon number when self-steepening
     acts, and Raman scattering only ever lowers the mean frequency. A global phase, a shift in time, a mirror in time, and
     a joint rescaling of amplitude, time and length carry over to the output, and propagating back
     through the sign-reversed fibre restores the input.""",
     ['inputs', 'configurations'], 'all resolved pulses and fibres and pairs of runs related by a symmetry',
     'Untested; these hold or fail for every input at once and need pairs of runs.', [SS],
     [('nonlinear operator', SS)], ['energies, photon numbers, moments and fields of runs'])

prop('C18', 'How a propagation is organised does not change what comes out',
     """The output does not depend (beyond the tolerance) on the number of saved steps, on cutting the fibre into pieces, on
     what the solver propagated before, or on the numerical back end; saved positions run from zero to the
     length with column k holding the field at the (k+1)-th of them, and the last column is the output pulse. Pulse, fibre and all their arrays are
     left as they were, and z-dependent parameters act where they are.""",
     ['inputs', 'histories', 'configurations'], 'all problems, step counts, cuts, solver histories and back ends',
     'Needs several runs compared; the tests make none.', [SS], [('propagate and its bookkeeping', SS)],
     ['fields of differently organised runs', 'snapshots of arguments'],
     [('solver buffers', 'fields, FFT plans and step size kept between runs', SS)])

prop('C19', 'The delayed nonlinear response is the documented Raman response',
     """The response applied to the intensity is (1 - f_R) of it at once plus f_R of it through the selected causal Raman
     function with unit area - damped oscillation with the given times, or the two-component Lin-Agrawal form - and nothing
     delayed when Raman is off. It acts after the intensity, never before it, and amplifies sidebands on the low-frequency side as
     much as its spectrum says.""", ['inputs', 'configurations'],
     'all grids, models, fractions and times', 'Untested.', [SS], [('response function set-up', SS)],
     ['phase left by an intensity spike', 'sideband growth'])

prop('C20', 'Coherence is the documented statistic over independent noisy runs',
     """The coherence spectrum returned equals the ensemble statistic |<E_i* E_j>| over unequal pairs divided by the mean
     intensity of the returned trials at the returned positions, lies between zero and one, and is one where noise is negligible.
     The trials are independent noisy versions of the input each propagated through the same fibre, repeat exactly
     under a fixed seed, differ under another, and amplifying fibres reach their output power.""",
     ['inputs', 'histories', 'configurations'], 'all pulses, fibres, noise models, seeds, numbers of trials',
     'Untested; stochastic.', [SS, PB], [('calculate_coherence', SS), ('add_noise', PB)], ['returned coherence and trials'])

prop('C21', 'Amplifier runs deliver the power that was asked for',
     """Propagating to a gain goal returns a pulse whose average power is the requested one within the allowed error, and
     the scale factor it returns reproduces that run. With purely linear amplification the factor is one, and input pulse and
     fibre data are left unchanged.""", ['inputs', 'configurations'],
     'all pulses, gain spectra, nonlinearities, powers and repetition rates', 'Untested.', [SS, FI],
     [('propagate_to_gain_goal', SS), ('get_gain', FI)], ['output power, scale factor'])

prop('C22', 'The adaptive integrator meets its error tolerance',
     """For every smooth initial value problem, real or complex, forwards or backwards, the integrator ends at exactly the
     requested end point with an error commensurate with the requested tolerances, and a single step has the
     order of the Dormand-Prince 8(5,3) method. Effort decreases with looser tolerance, and equivalent
     problems (rescaled, reversed, complex as pairs) give equivalent results.""",
     ['inputs', 'configurations'], 'all smooth problems, dimensions, tolerances, first steps and directions',
     'One problem at one tolerance is tested.', [ST, D8, DK, DC],
     [('step and error estimate', D8), ('coefficients', DK), ('step size control', DC)], ['final values, step counts'])

prop('C23', 'Dense output returns the solution on the requested points',
     """With a number of save points requested the integrator returns exactly that many equally spaced rows including
     start and end, in either direction, each within the accuracy of the method's seventh-order interpolant of the true solution;
     without one it returns every accepted step in order, or nothing if saving is off. Rows are copies
     and their number is never limited by the initial storage.""",
     ['inputs', 'configurations'], 'all problems, numbers of points, directions, storage sizes',
     'The test uses one output grid.', [ST, D8], [('Output', ST), ('dense coefficients', D8)], ['saved x and y'])

prop('C24', 'Integrations do not influence each other and fail loudly',
     """Any number of integrators and outputs, constructed, interleaved, repeated or reused in any order, return bit for
     bit what each returns alone, and leave the caller's arrays as documented. A right-hand side that produces no number, a
     vanishing step or an exhausted step limit raises rather than returning a wrong result, and exceptions raised by
     the right-hand side reach the caller.""",
     ['histories', 'fault_sequences', 'inputs'], 'all interleavings and reuses, all failing right-hand sides',
     'Tests run one integration per process.', [ST, D8, DC],
     [('construction of stepper, controller and output', ST)], ['results of repeated and interleaved runs, exceptions'])

prop('C25', 'Crystal refractive indices follow the published Sellmeier equations',
     """For every wavelength, temperature, crystal angle and polarisation axis the refractive index reported equals the
     published Sellmeier equation of the selected data set, scalar or array alike, and mixed polarisation interpolates between ordinary
     and extraordinary index on the index ellipsoid. Changing temperature, data set or angle takes effect at once and only on that crystal,
     an unknown axis is refused, and material constants are the documented ones.""",
     ['inputs', 'histories'], 'all wavelengths, temperatures, angles, axes, data sets and histories of changes',
     'The tests evaluate one crystal at one temperature through a whole simulation.', [LN, AS, AE, CC],
     [('Sellmeier formulas', LN), ('index ellipsoid', AE)], ['n(wavelength, axis)'])

prop('C26', 'Index caching is invisible and crystals do not influence each other',
     """With caching on, off or switched in between, the index and wavenumber a crystal reports on a pulse's grid always equal the index
     at that pulse's own wavelengths under the crystal's current settings. Results belong to the caller, so editing them
     changes nothing, and no crystal's indices, length, poling or damage threshold depend on another
     crystal.""", ['histories', 'inputs', 'configurations'],
     'all interleavings of queries, pulse changes, crystal changes and cache switching on several crystals and pulses',
     'Stale caches need a change between two queries with caching on, which no test does.', [CC, LN, AE, AS],
     [('index cache keyed by pulse grid and axis', CC)], ['get_pulse_n, get_pulse_k'],
     [('cached indices', 'index arrays stored per pulse grid and axis', CC)])

prop('C27', 'Phase matching: angles and poling periods close the momentum balance',
     """The poling period returned closes the wavevector mismatch of the three waves up to the documented offset over the crystal length, a missing
     wavelength is supplied by energy conservation, and searching for the signal wavelength of a period inverts that calculation. The phase-matching angle
     returned makes the mixed-axis pump wavenumber equal the sum of the ordinary signal and idler wavenumbers, and impossible
     combinations are refused. Poling set as constant, function or linear chirp is what is reported along the crystal.""",
     ['inputs', 'histories'], 'all wavelength triples, temperatures, lengths, offsets, poling functions',
     'Only one triple is used in the tests.', [LN, AE, AS, CC],
     [('calculate_poling_period, set_pp', LN), ('phasematch', AE), ('invert_dfg_qpm_to_signal_wl, set_pp_chirp', CC)],
     ['returned periods, angles and wavelengths'])

prop('C28', 'Group velocity, dispersion, delay and bandwidth derive from the index',
     """Group velocity is c over n minus wavelength times slope, dispersion D is minus wavelength over c times the curvature of the index in both unit systems,
     the delay between two colours is the difference of their transit times through the given or own length, and the acceptance
     bandwidth is the smaller one that group-velocity mismatch of pump with signal and idler allows. All hold for scalar and array wavelengths and every axis.""",
     ['inputs', 'configurations'], 'all crystals, wavelengths, temperatures, angles, axes and lengths',
     'Untested.', [CC], [('numerical derivatives of the index', CC)], ['returned values against analytic derivatives'])

prop('C29', 'Beams and waveguide modes follow Gaussian-beam optics',
     """Waist, Rayleigh range, confocal parameter, curvature and Gouy phase of a beam are those of a Gaussian beam of the given
     waist in the medium of the given index at each wavelength, and matched beams share confocal parameters. The overlap of two beams is the
     squared overlap integral of their fields, between zero and one and one for identical beams; a waveguide mode keeps its area, has no Gouy phase and unit overlap.
     The conversion between power and field follows from area, index and vacuum impedance.""",
     ['inputs', 'configurations'], 'all waists, wavelengths, indices, positions, beam pairs, areas',
     'Untested except through one simulation.', [BE, WG], [('formulas', BE), ('mode', WG)], ['returned values'])

prop('C30', 'Three-wave mixing conserves energy and photons and keeps its bookkeeping',
     """In waveguide mixing the total energy of pump, signal and idler is constant along the crystal and pump
     photons lost equal signal photons and idler photons gained, whatever the pulses, poling and mismatch. Without an idler or pump partner or
     nonlinearity no energy is exchanged, the reported result starts from the input fields at the crystal entrance and ends at its
     length, and pulses, beams and crystal are left as they were.""",
     ['inputs', 'configurations'], 'all pulses, grids, crystals, poling patterns, lengths and solver settings',
     'Tests check one CW efficiency in two grid placements.', [DI, FC],
     [('coupled-wave right-hand side', DI), ('field bookkeeping', FC)], ['fields at all saved positions'])

prop('C31', 'Three-wave mixing solves the coupled-wave equations',
     """Signal, idler and pump fields at every saved position agree with an independent solution of the coupled three-wave equations for the
     crystal's index, nonlinearity, poling pattern and the beams, within the tolerance. Undepleted mixing reproduces the analytic
     efficiency including phase mismatch, quasi phase matching and the position of the focus, generated light appears at the frequency difference, and its delay
     follows group velocities.""",
     ['inputs', 'configurations'], 'all pulses, crystals, mismatches, poling, beams, waveguides, lengths',
     'Two CW points are tested.', [DI, BE, WG, FC], [('right-hand side', DI)], ['fields against reference solution'])

prop('C32', 'Mixing results and their files return exactly the saved fields',
     """The result object returns at each index the pump, signal and idler fields and position of that save point, as pulses on
     the right grids, without altering the stored data, however often and in whatever order it is asked. Runs written to a file and
     read back are identical, run by run, and reading beyond them is refused.""",
     ['histories', 'inputs'], 'all runs, access orders, numbers of runs and file histories',
     'Nothing is written in the tests.', [DI, MR, FC], [('result interface', DI), ('writer and reader', MR)],
     ['returned pulses, file contents'])

prop('C33', 'The grating compressor applies the analytic Treacy dispersion',
     """The angle of diffraction, group-delay dispersion and its higher derivatives of the grating pair are those of the analytic
     Treacy phase in first-order diffraction for the grating density, incidence angle, separation and wavelength, with impossible angles coerced as documented. Applying the compressor to a
     pulse multiplies its spectrum by that phase in the sense of a chirp and keeps every colour's power; orders without meaning are refused.""",
     ['inputs', 'configurations'], 'all gratings, angles, separations, wavelengths, orders and pulses',
     'One dispersion value is tested.', [TC], [('TreacyCompressor', TC)], ['returned angles and dispersions, field before and after'])

prop('C34', 'Computations in one process do not influence each other',
     """Building, changing and evaluating pulses, noise, fibres, amplifiers, propagations, coherence runs, compressors, crystals, beams,
     waveguides, mixing problems, integrations and dispersion tables gives the same result whatever else was computed before or is
     computed in between on other objects of the same process, even equal or nearly equal ones. Pulses, fibres and arrays passed as
     arguments come back as they went in unless changing them is the documented purpose of the call, and the process (random generator,
     unless noise is drawn; floating-point error handling; working directory; solver switches) is left as it was found.""",
     ['histories', 'inputs', 'configurations'], 'all sequences and interleavings of uses of the library',
     'Every test builds its objects afresh and uses them once.', [PB, FI, SS, CC, DI, ST],
     [('Pulse', PB), ('FiberInstance', FI), ('SSFM', SS), ('Crystal', CC), ('dfg_problem', DI), ('ODEint', ST)],
     ['results of interleaved jobs, digests of arguments, process state after every stage'])

TECH = {'C34': 'runtime monitoring: differential oracle against the same job alone in a freshly forked process, over recorded interleavings of jobs, with state monitors at every stage'}
LEVEL_NOTE = ('Held on the executions counted in the evidence file, nothing more: the real code runs under '
              'seeded random workloads while an oracle that shares no code with it judges every observed result. '
              'Trusts numpy/scipy and the reference model; sys.monitoring counts what was reached and bounds loops.')


def tech(pid):
    mod = os.path.join(HERE, 'mon', 'props', pid.lower() + '.py')
    return TECH.get(pid, 'runtime monitoring: reference-model oracle over executions of the real code under seeded random workloads')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        pid = p['id']
        if os.path.exists(os.path.join(HERE, 'mon', 'props', pid.lower() + '.py')):
            checks.append(dict(property=pid, quick_cmd='./check %s quick' % pid,
                               thorough_cmd='./check %s thorough' % pid,
                               technique=tech(pid), level='exploration', level_note=LEVEL_NOTE))
        else:
            na.append(dict(property=pid, reason='check not built yet'))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks in /repo: all monitors observe the public interface; see DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()

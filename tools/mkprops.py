#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that statements and anchors stay reviewable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=None)))

PY='pyregpt/pyregpt.py'
p('C01', 'Linear-spectrum lookup is exact per query, in any order',
  'For every tabulated linear spectrum (strictly increasing wavenumbers, at least three points) and every list of queried wavenumbers in any order, each returned power depends only on its own query: the tabulated value on a table point, the local interpolant between table points ("poly": polynomial through the up to five surrounding points; "lin": straight line between the two neighbours), and beyond either end a power law (below the table through its second point, above it through its last) whose index is the mean logarithmic slope of the up to fifteen outermost points, or zero when that slope window contains a non-positive power. The stand-alone polynomial and linear interpolators return the value of the polynomial (line) through the table they are given.',
  ['inputs'], 'all tables with at least 3 points, all query lists (order, duplicates, table points, both ends, out of range), both interpolation modes',
  'test_find_pk_lin looks up one ascending grid on one table, and never queries outside the table or out of order; test_interpol_poly only uses a straight line at its own nodes.',
  ['src/common.c', PY], [('find_pk / find_pk_lin','src/common.c'),('interpol_poly, interpol_lin','src/common.c'),('extrapol_pk_lowk, extrapol_pk_highk','src/common.c'),('PyRegPT.find_pk_lin','pyregpt/pyregpt.py')],
  [('pk_lin','registered linear spectrum','src/define.c')], ['PyRegPT.find_pk_lin return value','pk_lin column after run_terms'])
p('C02', 'Displacement dispersion is the running integral of the linear spectrum',
  'For every linear spectrum, every list of output wavenumbers in any order and every cutoff factor, the dispersion reported at k is 1/(6 pi^2) times the trapezoidal integral of the spectrum from its first table point up to cutoff*k (linear interpolation at the upper limit): zero below the table, constant above it, never decreasing in k for a non-negative spectrum, and independent of the other requested wavenumbers. The same holds for the dispersion column every calculation fills in, with the cutoff set for that calculation.',
  ['inputs','configurations'], 'all tables, query lists, cutoffs (calculation-specific and direct)',
  'test_sigmad2 only compares two values beyond the table with each other.',
  ['src/common.c', PY], [('calc_running_sigmad2','src/common.c'),('set_running_uvcutoff','pyregpt/pyregpt.py')],
  [('uvcutoff','per-calculation cutoff factor','src/spectrum_*.c')], ['PyRegPT.calc_running_sigmad2','sigmad2 column'])
p('C03', 'Quadrature nodes and weights are the Gauss-Legendre rule',
  'For every order n >= 1 and every interval, the n nodes are the roots of the Legendre polynomial of degree n mapped to the interval, in order from the first bound to the second and symmetric about its centre, the weights have the sign of the interval (positive when the first bound is the lower), are symmetric and sum to the signed length of the interval, and every polynomial of degree up to 2n-1 is integrated exactly up to rounding.',
  ['inputs'], 'all orders (odd, even, 1, large) and intervals (including reversed and shifted ones)',
  'test_gauss_legendre checks affine covariance at n=10 and one sine integral at n=100.',
  ['src/common.c', PY], [('nodes_weights_gauss_legendre','src/common.c')], [], ['PyRegPT.nodes_weights_gauss_legendre'])
p('C04', 'Each precision setting changes exactly the calculations it names',
  'After any sequence of precision and cutoff settings, every calculation uses for each of its own settings (number of points, range, interpolation mode, cutoff) the last value given to it by name or through a group name that covers it, and its default where none was given: a call updates only the fields it specifies, a call that specifies nothing (no positive number of points, no range with max >= min, no known interpolation mode) restores that precision setting to its default, and an unknown mode changes no field. No setting of one calculation alters the results of another.',
  ['histories','configurations'], 'all sequences of set_precision / set_running_uvcutoff calls over all calculation and group names, partial arguments, interleaved with runs',
  'Tests set one or two settings in one fixed order and mostly check that results do not move.',
  ['src/common.c','src/calc_pkcorr_from_*.c','src/gamma1_1loop.c','src/gamma1_2loop.c','src/gamma2d_1loop.c','src/gamma2t_1loop.c','src/spectrum_*.c',PY],
  [('set_precision (partial update, default on no change)','src/common.c'),('PyRegPT.set_precision group names','pyregpt/pyregpt.py'),('PyRegPT.set_running_uvcutoff','pyregpt/pyregpt.py')],
  [('precision_q, precision_mu','per-calculation settings','src/*.c')], ['columns after run_terms'])
p('C05', 'clear() restores every setting to its default',
  'After clear(), whatever was set before through any instance, every calculation gives the same results as in a fresh process that was given the same spectrum and wavenumbers, and messages are at the default level. A group reset (a group name with nothing specified) does the same for every setting the group covers.',
  ['histories'], 'all setting histories followed by clear() or a group reset, then any calculation',
  'Tests call clear() at the end but never compare a run after it with a fresh process.',
  [PY,'src/common.c','src/spectrum_*.c'], [('PyRegPT.clear','pyregpt/pyregpt.py'),('set_precision default branch','src/common.c')],
  [('precision_*_default','default settings','src/*.c')], ['columns after clear(); run_terms'])
p('C06', 'Results do not depend on history',
  'The columns a run produces are a function only of the linear spectrum last registered, the requested wavenumbers, the settings in force and the fields asked for: earlier runs of the same or other calculations, other live or discarded instances, lookups, copies, failed calls and repeated runs leave no trace in them. In particular an instance that registered the spectrum may be discarded and its memory reused without changing later results.',
  ['histories'], 'all interleavings of construction, registration, settings, runs of all calculations and destruction of instances, against a fresh process with the same inputs',
  'Every test uses one fresh process and one instance at a time.',
  [PY,'src/regpt.c','src/define.c','src/spectrum_*.c'], [('set_pk_lin / set_terms_* registers','src/regpt.c, src/spectrum_*.c'),('re-initialisation of the integrators on every run','src/calc_pkcorr_from_*.c')],
  [('pk_lin, terms_*','library-wide registers','src/define.c, src/spectrum_*.c')], ['columns after run_terms'])
p('C07', 'Results do not depend on the number of threads or their schedule',
  'For every calculation, every number of threads (one, fewer, as many as and more than the wavenumbers or the cores) and every interleaving of the threads, a run gives the same columns as a single-threaded run, fills every row, and terminates.',
  ['schedules'], 'all thread counts and schedules, all calculations, all grid sizes including empty and single-point grids',
  'Tests always use 8 threads and compare with stored references at 1e-6.',
  ['src/spectrum_1loop.c','src/spectrum_2loop.c','src/spectrum_bias_1loop.c','src/spectrum_A_1loop.c','src/spectrum_A_2loop.c','src/spectrum_B.c','src/calc_pkcorr_from_*.c','src/regpt.c'],
  [('omp parallel + per-thread (threadprivate) integrators','src/spectrum_*.c, src/calc_pkcorr_from_*.c'),('omp for schedule(static) over wavenumbers','src/spectrum_*.c'),('omp critical release','src/spectrum_*.c')],
  [('gauss_legendre_q, gauss_legendre_mu','thread-private scratch','src/calc_pkcorr_from_*.c')], ['columns after run_terms(nthreads=n)'])
p('C08', 'Each wavenumber is computed independently of the rest of the grid',
  'For every calculation, the row produced for a wavenumber k is the same whatever other wavenumbers are in the grid: any permutation, subset, superset, repetition or splitting of the grid gives the same row for k, including wavenumbers outside the tabulated spectrum.',
  ['inputs'], 'all output grids (unsorted, repeated, one point, any split into several runs)',
  'Tests always use one increasing grid taken from the reference file.',
  ['src/spectrum_*.c','src/common.c','src/calc_pkcorr_from_*.c'], [('per-k loop of run_terms_*','src/spectrum_*.c'),('find_pk, calc_running_sigmad2','src/common.c')], [], ['columns after run_terms'])
p('C09', 'Amplitude and unit scaling of every term',
  'Multiplying the linear spectrum by s multiplies every column by s to the power of that column\'s perturbative order, so that rescaling an object\'s columns by a growth factor D is the same as running it on the spectrum multiplied by D^2, and an assembled spectrum evaluated at growth D equals the one of the rescaled object at growth 1. Changing the unit of length (wavenumbers times u, spectrum and any ranges accordingly) only rescales the columns of the power-spectrum, bias, one-loop A and B calculations by the matching power of u. (The A and B corrections of the two-loop class combine several orders and have no single power of s.)',
  ['inputs','configurations'], 'all spectra, positive amplitudes, growth factors, units and calculations',
  'Tests use one spectrum; growth enters only in one stored comparison of pk().',
  [PY,'src/spectrum_*.c','src/calc_pkcorr_from_*.c'], [('SCALE tables and Terms.rescale','pyregpt/pyregpt.py'),('scale_factor, damping_factor','pyregpt/pyregpt.py')], [], ['columns','pk(Dgrowth)','rescale'])
p('C10', 'Exchange of the two fields a and b',
  'Power-spectrum runs for (a,b) and (b,a) give the same symmetric columns and assembled spectrum, with the two propagator columns swapped; the propagator column of a field does not depend on the other field, and for a=b both propagator columns are equal. An unknown field name is treated as the density.',
  ['inputs','configurations'], 'all pairs of field names, all spectra, grids and settings, 1- and 2-loop',
  'Reference comparisons cover the four pairs at 1 loop only through stored files and never relate one to another.',
  ['src/spectrum_1loop.c','src/spectrum_2loop.c','src/calc_pkcorr_from_gamma1.c','src/calc_pkcorr_from_gamma2.c','src/regpt.c'], [('set_flag','src/regpt.c'),('a==b short cuts','src/spectrum_1loop.c, src/calc_pkcorr_from_gamma1.c, src/calc_pkcorr_from_gamma2.c')], [], ['columns after run_terms(a,b)'])
p('C11', 'One-loop power-spectrum terms are their defining integrals',
  'For every spectrum, field pair, wavenumber and setting, the one-loop propagator column is k^3/(2 pi^2) times the quadrature of the published kernel of that field against the linear spectrum, and the tree mode-coupling column is the quadrature of 2 F_a F_b P(q) P(|k-q|) over the integration range, where both q and |k-q| are inside the range, with the second-order kernels of standard perturbation theory of the fields (density: 5/7, 2/7; velocity divergence: 3/7, 4/7). The published kernels are used with their limits near q=k and for q much larger than k.',
  ['inputs','configurations'], 'all spectra, wavenumbers, ranges (fixed, automatic, narrow), point numbers, interpolation modes, field pairs',
  'Tests compare with stored numbers for one cosmology at default precision with 1e-5 tolerances.',
  ['src/gamma1_1loop.c','src/calc_pkcorr_from_gamma2.c','src/kernels.c','src/spectrum_1loop.c'], [('kernel_ff, kernel_gg, gamma1_1loop','src/gamma1_1loop.c'),('calc_pk_gamma2_tree, set_mu_range','src/calc_pkcorr_from_gamma2.c'),('F2_sym_fast','src/kernels.c')], [], ['Spectrum1Loop columns'])
p('C12', 'Bias terms are their defining integrals',
  'For every spectrum, wavenumber and setting, each of the eight one-loop bias columns (b2-density, bs2-density, b2-velocity, bs2-velocity, b2b2, b2bs2, bs2bs2 and sigma_3^2) is the quadrature of its published kernel over the allowed (q, mu) domain, with the zero-lag constant removed from the quadratic ones.',
  ['inputs','configurations'], 'all spectra, wavenumbers, ranges, point numbers, interpolation modes',
  'One stored reference for one cosmology, one grid and one setting.',
  ['src/spectrum_bias_1loop.c','src/calc_pkcorr_from_bias_1loop.c','src/kernels.c'], [('kernel_b2 ... kernel_sigma3sq','src/spectrum_bias_1loop.c'),('calc_pk_bias_1loop, set_mu_range','src/calc_pkcorr_from_bias_1loop.c')], [], ['Bias1Loop columns'])
p('C13', 'One-loop A correction is its defining integral',
  'For every spectrum, wavenumber and setting, the five components of the one-loop A correction are the quadratures of the published kernels (the two mode-coupling parts and the one-dimensional part, with its limits for very small and very large q/k and at q=k) against products of the linear spectrum.',
  ['inputs','configurations'], 'all spectra, wavenumbers, ranges, point numbers, interpolation modes',
  'One stored reference for one cosmology, one grid and one setting.',
  ['src/calc_pkcorr_from_A_1loop.c','src/spectrum_A_1loop.c'], [('kernel_A_tA_1loop, kernel_a_1loop, calc_pk_A_1loop','src/calc_pkcorr_from_A_1loop.c')], [], ['A1Loop pk column'])
p('C14', 'B correction is the defining integral of the spectra it is given',
  'For every spectrum, wavenumber and setting, the nine components of the B correction are the quadratures of the published kernels with the density-velocity spectrum where one velocity leg is required and the velocity-velocity spectrum where both are: the linear spectrum for both in the one-loop class, and in the two-loop class the one-loop density-velocity and velocity-velocity spectra computed from the registered linear spectrum on its own table. A spectrum handed over for a field pair is used for that pair only, in either order of the pair.',
  ['inputs','configurations','histories'], 'all spectra, wavenumbers, settings, both classes, and the direct registration of field-pair spectra',
  'One stored reference for the one-loop class; with equal spectra for both pairs a mix-up of the pairs is invisible.',
  ['src/calc_pkcorr_from_B.c','src/spectrum_B.c',PY], [('kernel_B, calc_pk_B','src/calc_pkcorr_from_B.c'),('set_spectra_B, run_terms_B','src/spectrum_B.c'),('B1Loop.run_terms, B2Loop.run_terms','pyregpt/pyregpt.py')],
  [('pk_dt, pk_tt','field-pair spectra','src/spectrum_B.c')], ['B1Loop / B2Loop pk column'])
p('C15', 'Assembled spectra follow the regularised expansion',
  'For every object state, growth factor and (given or stored) dispersion, each one number or one per row, the assembled 1- and 2-loop spectra are the regularised multipoint-propagator combination of the columns: damping exp(-x), x=(kD)^2 sigma_d^2/2, propagators 1+x+D^2 G1 at 1 loop and 1+x+x^2/2+D^2 G1 (1+x)+D^4 G2 at 2 loops, mode coupling with the matching counter-terms, and with no damping and no correction they reduce to D^2 times the linear spectrum. The library\'s own assembled one- and two-loop spectra equal the Python ones at D=1, bias and correction accessors multiply by the right power of D, and damped bias terms by exp(-2x)(1+x)^2.',
  ['inputs','histories'], 'all columns, growth factors, dispersions; Python assembly and the library\'s own',
  'Tests compare pk() with stored values for one cosmology and one growth factor per field pair; damping variants and the library\'s own assembly are never called.',
  [PY,'src/spectrum_1loop.c','src/spectrum_2loop.c'], [('Spectrum1Loop.pk, Spectrum2Loop.pk, scale_factor, damping_factor','pyregpt/pyregpt.py'),('spectrum_1loop, run_spectrum_1loop','src/spectrum_1loop.c')], [], ['pk(), pk_lin(), pk_b22_damp(), ...','run_spectrum_1loop'])
p('C16', 'Verbosity never affects results, and quiet means quiet',
  'The verbosity last set is in force for all instances, present and future, until it is set again or cleared: at "quiet" no call prints anything or writes any file, at "info" messages are printed but no file is written, at "debug" the only files written are the calculation\'s debug dumps in the current directory - each run of terms writes its own, one row per wavenumber holding the wavenumber and the columns just computed to the precision printed - and an unknown level changes nothing. Results are identical at every level.',
  ['histories','configurations'], 'all sequences of verbosity changes, instance creation, copies, slices and runs of all calculations',
  'No test looks at output or files.',
  ['src/regpt.c','src/spectrum_*.c',PY], [('set_verbosity','src/regpt.c, pyregpt/pyregpt.py'),('verbose == INFO / DEBUG guards','src/*.c')], [('verbose','library-wide level','src/define.c')], ['stdout/stderr bytes','files in the current directory'])
p('C17', 'Runs read their inputs only and write only their own columns',
  'A run fills the columns of the object it is called on, all rows of them and nothing else: the caller\'s spectrum and wavenumber arrays, the columns of every other live object and memory around the columns keep their values, and the wavenumber column is unchanged. When several objects of the same class have been given wavenumbers, running one fills that one.',
  ['histories','inputs'], 'all interleavings of set_terms and run_terms over several objects of all classes; all grid sizes',
  'Tests never keep two objects alive and compare them, nor check inputs after a run.',
  [PY,'src/spectrum_*.c','src/regpt.c'], [('Terms.zeros, set_terms, run_terms','pyregpt/pyregpt.py'),('set_terms_* registers','src/spectrum_*.c')], [('terms_*','registered output arrays','src/spectrum_*.c')], ['columns of all live objects after every call'])
p('C18', 'Copies, slices and column access behave as documented',
  'copy() shares the spectrum and the columns with the original, deepcopy() shares nothing, and a slice is a new object of the same class holding that part of every column; assigning through a slice or a field name changes exactly those values. Iteration, fields, size, membership, as_dict, pop and nan_to_zero agree with the columns present, and a missing field raises KeyError.',
  ['histories','inputs'], 'all sequences of copy, deepcopy, slicing, assignment, rescale, pop and runs over several objects',
  'test_copy checks only whether the two spectra are the same object or not.',
  [PY], [('Terms.copy, Terms.deepcopy, PyRegPT.deepcopy, Terms.__getitem__, __setitem__, __iter__, pop, as_dict, nan_to_zero','pyregpt/pyregpt.py')], [], ['columns of all live objects after every call'])
p('C19', 'Padding extends the grid and keeps the computed rows',
  'pad_k(k) adds one row per wavenumber of k below the first and above the last computed one (none on a side where there is none), in order, with the fill value (or the value given for that column) in every column, whatever the column\'s number of components; rows already computed keep their values. For library objects the linear-spectrum and dispersion columns are re-evaluated on the whole new grid.',
  ['inputs'], 'all grids and padding grids (one side, both, none), all classes, fill values and modes',
  'test_pad pads one 2-loop object on both sides only and checks the re-evaluated linear spectrum.',
  [PY], [('Terms.pad_k, PyRegPT.pad_k','pyregpt/pyregpt.py')], [], ['columns after pad_k'])
p('C20', 'Two-loop propagator terms are their defining integrals',
  'For every spectrum, field pair, wavenumber and setting, the two-loop propagator column of a field is the double quadrature of the published fitting formula for that field against the linear spectrum, divided by 4 pi^4, plus half the square of its one-loop propagator, and the one-loop columns of a two-loop run equal those of a one-loop run with the same settings.',
  ['inputs','configurations'], 'all spectra, wavenumbers, ranges, point numbers, field pairs',
  'The two-loop tests cannot run without the integrator library; where they do they compare one cosmology with stored numbers.',
  ['src/gamma1_2loop.c','src/calc_pkcorr_from_gamma1.c','src/spectrum_2loop.c'], [('beta, cc, dd, delta, alpha, gamma1_2loop','src/gamma1_2loop.c'),('calc_pk_gamma1_2loop','src/calc_pkcorr_from_gamma1.c')], [], ['Spectrum2Loop columns'])
p('C21', 'One-loop mode-coupling kernels are those of perturbation theory',
  'For every triangle of wavenumbers and loop momentum, the one-loop correction to the two-point propagator of density and of velocity divergence that enters the two-loop spectrum is the angular average of the fourth-order perturbation-theory kernel, to the accuracy of the published fitting regions: it is symmetric in the two incoming wavenumbers, continuous across the region boundaries and finite everywhere. The tree-loop and loop-loop columns combine it with the tree kernel as 2 P P (F_a G_b + G_a F_b) and 2 P P G_a G_b.',
  ['inputs'], 'all triangles (equilateral, squeezed, elongated, collinear, isosceles) and loop momenta, both fields, all settings',
  'The two-loop tests cannot run without the integrator library; where they do they see only an integral over everything.',
  ['src/gamma2d_1loop.c','src/gamma2t_1loop.c','src/kernels.c','src/calc_pkcorr_from_gamma2.c'], [('kernel_gamma2d, kernel_gamma2t region dispatch','src/gamma2d_1loop.c, src/gamma2t_1loop.c'),('calc_pk_gamma2_1loop','src/calc_pkcorr_from_gamma2.c'),('LFunc, WFunc, betafunc, small_beta, big_beta','src/kernels.c')], [], ['Spectrum2Loop pk_gamma2_* columns'])
p('C22', 'Monte-Carlo integrands handed to the integrator are the defining ones',
  'For every wavenumber, field pair and sample point of the unit hypercube, the function the library hands to its integrator for the three-point propagator term equals the published integrand (third-order kernels of both fields, spectra of the three internal legs, restricted domain, Jacobian), and the value returned by the integrator is scaled by 6/(2 pi)^6 into the row of that wavenumber; likewise for the two one-loop bispectrum diagrams of the two-loop A correction. The integration range is the one set, or the range of the spectrum registered at the time of the run when the range is automatic.',
  ['inputs','configurations','histories'], 'all sample points, wavenumbers, field pairs, ranges (fixed and automatic after a change of spectrum)',
  'The integrator is absent from the build, so no stable test executes these functions.',
  ['src/calc_pkcorr_from_gamma3.c','src/calc_pkcorr_from_A_2loop_II_III.c','src/bispectrum_1loop.c','src/kernels.c'], [('kernel_pk_gamma3_tree, calc_pk_gamma3_tree','src/calc_pkcorr_from_gamma3.c'),('kernel_A_tA_2loop_II_III','src/calc_pkcorr_from_A_2loop_II_III.c'),('F3_sym','src/kernels.c'),('bispectrum_1loop_II_III','src/bispectrum_1loop.c')], [], ['calls received by the integrator','pk_gamma3_tree and A columns'])
p('C23', 'Two-loop A correction combines its bispectrum parts correctly',
  'For every spectrum, wavenumber and setting, the five components of the two-loop A correction are the sums of the published projections of the regularised one-loop bispectrum (propagators, damping and all three permutations of the legs, with the low-wavenumber limits) over both orderings of the velocity leg, plus the integrator\'s contribution, each in its own component.',
  ['inputs','configurations'], 'all spectra, wavenumbers, settings, integrator outcomes',
  'The integrator is absent from the build, so no stable test executes this calculation.',
  ['src/calc_pkcorr_from_A_2loop_I.c','src/spectrum_A_2loop.c','src/bispectrum_1loop.c'], [('kernel_projection_A_tA, calc_pk_A_2loop_I','src/calc_pkcorr_from_A_2loop_I.c'),('bispectrum_1loop_I, gamma1_reg_1loop, gamma2_reg_1loop','src/bispectrum_1loop.c'),('run_terms_A_2loop','src/spectrum_A_2loop.c')], [], ['A2Loop pk column'])
p('C24', 'Redshift-space interpolation is the right polynomial in mu^2 and beta',
  'For every object with A (five) or B (nine) components, every k, mu^2 and growth rate ratio beta (each one number or one per queried k), growth factor D and end values, the interpolated correction is D^4 times the sum of the linearly interpolated components weighted with A: mu^2 b, mu^2 b^2, mu^4 b^2, mu^4 b^3, mu^6 b^3, and B: mu^2 b^2, mu^2 b^3, mu^2 b^4, mu^4 b^2, mu^4 b^3, mu^4 b^4, mu^6 b^3, mu^6 b^4, mu^8 b^4, with the requested values (per component) outside the grid. Interpolating an assembled power spectrum is linear interpolation of it with the requested end values.',
  ['inputs'], 'all component values, k inside, on and outside the grid, mu^2, beta, D, end values',
  'No test calls the interpolation of A or B.',
  [PY], [('A1Loop.pk_interp, B1Loop.pk_interp, Terms.pk_interp','pyregpt/pyregpt.py')], [], ['pk_interp return values'])
p('C25', 'Repeated use does not accumulate memory or touch freed memory',
  'Any sequence of calls, repeated any number of times, with any thread counts, returns every block of memory the library allocates for it, never frees a block twice and never writes outside a block.',
  ['histories','schedules'], 'all repetitions and interleavings of all calculations, thread counts and interpolation modes',
  'Tests run each calculation a handful of times and do not observe memory.',
  ['src/common.c','src/calc_pkcorr_from_*.c','src/spectrum_*.c'], [('init_* / free_* pairs per thread','src/calc_pkcorr_from_*.c, src/gamma*.c'),('interpol_poly scratch','src/common.c'),('free_terms_spectrum_1loop, free_spectra_B','src/spectrum_1loop.c, src/spectrum_B.c')], [], ['allocator calls made by the library'])
p('C26', 'Derived statistics and the no-wiggle spectrum follow their definitions',
  'For every spectrum object, sigma_v^2 is the trapezoidal integral of P over k divided by 6 pi^2, sigma(r)^2 the one of P (W(kr) k)^2 divided by 2 pi^2 with the top-hat window (sigma_8 at r=8), all scaling with the requested growth. The no-wiggle spectrum is A k^n times the squared Eisenstein-Hu no-wiggle transfer function of the given cosmology, with A given or fixed by the first value of the given spectrum, and the shot-noise template is one inside its range with Gaussian cut-offs outside.',
  ['inputs'], 'all spectra, radii, growth factors, cosmologies',
  'test_sigma8 / test_nowiggle look at a single cosmology.',
  [PY], [('Terms.sigmav, sigmar, sigma8','pyregpt/pyregpt.py'),('SpectrumNoWiggle.transfer, run_terms','pyregpt/pyregpt.py'),('Bias1Loop.shotnoise','pyregpt/pyregpt.py')], [], ['return values'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))

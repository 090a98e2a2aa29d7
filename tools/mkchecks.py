#!/usr/bin/env python3
"""Writes tools/checks.json: the deciding method and its limits, per property with a built check."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'TLA+ specification (TLC): behaviours generated from the specification are executed by the real library and every recorded event is validated against the specification'
MC = '; the design modules behind it are model-checked exhaustively'
note = {
 'C01': 'Every lookup of the generated lists (all ordered pairs of query regions, shuffled lists, tables of 3 to 1500 points incl. non-positive powers on both sides of the slope windows) against FindPk of Lookup.tla at 1e-11. Tables and query lists are a finite sample.',
 'C02': 'Every reported dispersion against SigmaD2 of Lookup.tla at 1e-13 of its scale, in any order, several cutoffs, and the column of all seven classes. Finite sample of tables.',
 'C03': 'Nodes are checked to be roots of the Legendre recurrence, weights against their formula, and moments up to degree min(2n-1, 41); orders 1..64 and a sample up to 600 (thorough 2000).',
 'C11': 'Rows against OneLoop.tla at 1e-9 of the magnitude of the terms; wavenumbers on, next to and far from the nodes of the grid and beyond the table, ranges given and automatic, all field pairs. Finite sample of spectra and settings.',
 'C12': 'Rows of all eight columns against Bias.tla at 1e-9. Finite sample; the default 2000 x 20 grid only in the thorough tier.',
 'C13': 'Rows of all five components against ACorr.tla at 1e-9. Finite sample; the default 2000 x 20 grid only in the thorough tier.',
 'C14': 'Rows of all nine components against BCorr.tla at 1e-9, for the two-loop class with the one-loop spectra of OneLoop.tla on the table. Finite sample.',
 'C20': 'Rows against TwoLoop.tla (published fit and its expansions) at 1e-9. Finite sample.',
 'C21': 'The kernels against the angular average of F4/G4 computed from the recursion (PT.tla) at 2e-3 (5e-3 near q = k), and the loop columns at 1e-2 of the magnitude of their terms: deviations below the accuracy of the published fit are not seen.',
 'C22': 'A stand-in integrator evaluates the integrand at given points; rows against the definition at 1e-9 (three-point) and 1e-8 (bispectrum). The integrator itself is outside the repository.',
 'C23': 'Rows against ATwo.tla at 1e-8 where the loop grid sees no power and at 1e-2 where the fourth-order kernels enter.',
 'C07': 'Every row of every run with 0, 1, fewer, as many and more threads than rows (and yields inside the integrator stand-in) equals the row first observed for the same inputs, for the seven classes and the assembled spectrum of the library. In addition the library is instrumented so that every byte which one thread changes and another uses in the same parallel region is part of the recorded event, and must not exist. Schedules of the real code are those the operating system produces; the design module explores all of them for a model.',
 'C08': 'The same wavenumbers in permuted, repeated, split, reduced, extended and long (up to 1031 rows) grids for the seven classes; a row must equal the row first observed for its wavenumber at 1e-9.',
 'C09': 'Spectra scaled by powers of two from 2^-30 to 2^12 and units of length by powers of two, settings with given and automatic ranges; rows are compared with the scaled row at 1e-7. Two-loop A and B, which resum orders, are excluded where the statement excludes them.',
 'C10': 'All pairs of delta, theta and unknown names in both orders, with assembled spectra; rows share the key of the exchanged pair.',
 'C15': 'Every assembled value of objects filled by runs and of objects given arbitrary columns, for growths 0 to 3 and stored, scalar and per-row dispersions, against Assemble.tla at 1e-11; the spectrum the library assembles itself at 1e-7. Finite sample of columns.',
 'C24': 'Interpolated corrections for arbitrary and computed columns (also one component at a time) at 1e-12, wavenumbers on, between and outside the grid, scalar and array cosines, several beta, growths and end values. Finite sample.',
 'C04': 'Every precision name and group in order and in random walks of settings over the seven classes; the effect of a setting is seen in the values of the next run, which the specification predicts from its settings table. Finite sample of settings.',
 'C05': 'Default settings of every class (fresh and after reset) against the values the specification computes with the documented defaults; the classes whose default grid is too large for the quick tier are run at a single wavenumber there.',
 'C06': 'Random histories of registration, settings, runs, slices, drops and allocations over several objects; runs are repeated in a fresh process and must give the same rows. In addition every history of length three (thorough: four) over ten operations, per class.',
 'C16': 'Bytes on standard output and files written are observed at every event of histories with every verbosity, and values must not depend on the level; at debug the dump of every run must exist and its rows must equal, as printed, the columns the run left behind.',
 'C17': 'Contents of every live column of every object are compared after every event; guard zones around the output arrays and all allocations of the library are watched. Random histories, and every history of length three (thorough: four) over runs, copies, slices and edits of three objects, per class.',
 'C18': 'All sequences of two container operations (three in the thorough tier) on objects of four classes with every way of looking afterwards, long random sequences, and slices of the columns of runs; contents of all live objects compared exactly after each operation.',
 'C19': 'Eleven sets of wavenumbers times the padding modes on three grids of each of the nine classes, repeated padding and runs on padded grids; exact, looked-up columns at 1e-10.',
 'C25': 'The number and size of the blocks the library holds is compared at the end of every repetition of a cycle; double and foreign frees, writes past a block and after its release are reported by the recording allocator at every event of all suites. These cycles and a part of every other suite are run again with every access of the library to memory checked (address sanitizer), so that reads are seen as well.',
 'C26': 'Statistics of positive spectra at 1e-9 (1e-13 for sigma_v), transfer function and no-wiggle runs for eleven cosmologies at 1e-11, shot-noise template inside and outside its range. Finite sample.',
}
suites = json.load(open(R + '/tools/suites.json'))
json.dump({p: {'technique': TV + (MC if suites[p].get('design') else ''), 'level_note': note[p]} for p in suites}, open(R + '/tools/checks.json', 'w'), indent=1)

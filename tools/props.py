#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand
after editing; the generated files are committed)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IO = 'package/inference/utils/ioutils.py'
P = 'package/inference/'
TECH = 'deterministic simulation with fault injection: seeded search over '

CLAIMED = [
    dict(id='P01', title='Saved data survive failed, killed and power-cut saves',
         statement='Whatever happens while a data store is being saved (disk error, full disk, a value that cannot be '
         'stored, the process killed at any instant), the last successfully saved version or a later complete one '
         'can still be read in full under the file name or its first backup, and no unrelated file is altered. The file '
         'under the store\'s own name is never left partly written. A version that was saved and had reached the disk '
         'also survives a power cut.',
         over=['crash_points', 'fault_sequences', 'histories', 'inputs'],
         qtext='every history of assignments and saves over several stores and files, every fault kind and every instant of a kill inside a save',
         why='The self test saves two small stores once, without any failure; the property quantifies over the instant of a crash or error inside a save.',
         files=[IO], mech=[('temporary file, backup and rename on save', IO + ':_save_file'),
                           ('gathering of archived and new values before writing', IO + ':ArrayStore.save, AttrStore.save')],
         tech='store histories with disk errors, full disk, torn writes, kills and power cuts',
         note='Sampling of seeded histories against a version model; assumes ordered metadata and 30 s write-back.'),
    dict(id='P02', title='A store behaves as the dictionary of the values assigned to it',
         statement='At every point of any history, a store lists exactly the distinct names assigned to it or archived in the '
         'file it was opened from, reads each as the latest value (including in-place changes made through it), and saving then '
         'reopening gives the same mapping, whichever attributes were touched, whichever file name form was used and whatever other stores '
         'did to the same file meanwhile. A read or write error is reported as an error, never as a missing attribute, '
         'a wrong value or a success, and it does not change what the store or the files hold, so the operation can be retried.',
         over=['histories', 'fault_sequences', 'inputs'],
         qtext='every sequence of operations on several stores sharing files, with read and write faults at every point',
         why='The self test performs one fixed save/open/overwrite sequence; it does not interleave stores on one file and never meets a read error.',
         files=[IO], mech=[('lazy attribute lookup and merging on save', IO + ':ArrayStore, AttrStore')],
         tech='multi-store operation histories with read/write errors and short reads, checked against a dictionary model',
         note='Refinement check against a dictionary model over sampled histories; object-dtype arrays excluded.'),
    dict(id='P03', title='Backup rotation loses nothing but the oldest version',
         statement='Opening or saving over an existing file keeps the previous version under one backup suffix and the one before it under '
         'two, newest first, and an absent file causes no rotation. If a rename, an open or a write fails or the process is killed at any point '
         'of this, the surviving versions keep their order and only the one beyond the second backup level can be lost. Files outside that chain are never touched, '
         'and a caller-supplied opener is called exactly once, with the caller\'s arguments, after the rotation.',
         over=['crash_points', 'fault_sequences', 'histories'],
         qtext='every history of backups, safe opens, store saves and deletions over several names, with an error or kill at every point',
         why='Tests run each save once in an empty directory; no test reaches the second backup level or fails a rename.',
         files=[IO], mech=[('two-level rename', IO + ':backup'), ('rotation before opening', IO + ':safe_open'),
                           ('rotation on save', IO + ':_save_file')],
         tech='rotation histories with rename/open/write errors and kills at every step, checked against a chain model',
         note='Exact chain model on success, order/loss invariant on failure; rename assumed atomic.'),
    dict(id='P04', title='A saved random-number state resumes exactly the same stream',
         statement='Restoring a saved generator state makes every later draw, of any distribution, the same as it was after the save, in this '
         'process or a later one. Saving never disturbs the generator, keeps the two previous states as backups, and an error or kill at any point '
         'of a save loses at most the oldest backup. A restore that fails or meets a damaged file raises and leaves the generator and the files as they '
         'were, and restoring from a missing file saves the current state.',
         over=['crash_points', 'fault_sequences', 'histories'],
         qtext='every history of draws, saves, restores, restarts and damage to the saved files, with faults inside saves and restores',
         why='No test imports the module; resuming exactly depends on where in the stream the save fell and on what failed meanwhile.',
         files=['package/inference/utils/rng.py'],
         mech=[('state file with two backups', 'package/inference/utils/rng.py:save_rng'),
               ('validation before setting the state', 'package/inference/utils/rng.py:restore_rng')],
         tech='draw/save/restore/restart histories with disk faults, kills and damaged files, checked against a reference generator',
         note='Bitwise comparison with an independent reference stream over sampled histories.'),
    dict(id='P05', title='Column data read from a faulty stream are right or an error',
         statement='Reading columns from an open stream returns columns of equal length with every row\'s values in order, however the stream '
         'delivers its bytes. If the stream fails or a value cannot be converted, that error reaches the caller and no data are returned. If the stream ends early or has blank or short lines among the rows, '
         'complete rows are never dropped, reordered or altered.',
         over=['fault_sequences', 'inputs'],
         qtext='every table, delivery pattern of the stream, error position, early end and failing conversion',
         why='No test reads columns at all; the outcome depends on where in the stream a fault falls.',
         files=[IO], mech=[('line by line conversion', IO + ':read_column_vectors')],
         tech='streams with planned chunking, I/O errors, early ends and converter failures',
         note='Exact comparison with the generated table over sampled fault positions.'),
    dict(id='P06', title='A user function\'s error stops a computation and reaches the caller intact',
         statement='When a user-supplied function raises an exception or is interrupted during a numerical calculation (derivative steps, information matrix, adaptive or fixed cubature, '
         'minimisation, gridding, credible regions), that same exception object reaches the caller, the function is not evaluated again, and no result is returned. A return value that is not a number is '
         'never turned into a result. Every later calculation, by the same or another routine, also when one is started from inside another, gives bit for bit what it gives without the failure.',
         over=['fault_sequences', 'histories', 'inputs'],
         qtext='every sequence of calculations, exception type, evaluation at which the function fails, and nesting',
         why='Tests call each routine with a well behaved function; compiled callbacks that fail at a given evaluation, or nested calls, are never exercised.',
         files=[P + 'deriv/_obsinfo.f', P + 'integrate/adapt_py.f', P + 'integrate/adapt_vec.py', P + 'utils/nrmin.py', P + 'grid/grid1d.py', P + 'grid/hpdgrid.py'],
         mech=[('callbacks from compiled code', P + 'deriv, ' + P + 'integrate'), ('minimisers', P + 'utils/nrmin.py:powell, brent, linmin'), ('grids', P + 'grid/grid1d.py, ' + P + 'grid/hpdgrid.py')],
         tech='sequences and nestings of engine calls with exceptions, interrupts and non-numbers at planned evaluations, compared with undisturbed calls',
         note='The reference is the same call without faults; seeded sampling over engines, positions and exception types.'),
    dict(id='P07', title='Calculations never modify the caller\'s arrays or results given out before',
         statement='Arrays and lists a caller passes to a numerical routine keep their values, at every evaluation of the user function and after the routine returns or fails, whatever their memory layout, type of container or writability. '
         'Results handed out earlier do not change when further calculations are made.',
         over=['inputs', 'histories', 'fault_sequences'],
         qtext='every engine, memory layout, sequence of calls and failure point',
         why='Tests look at return values only; modification in place depends on layout and on where a call is cut off.',
         files=[P + 'deriv/obsinfo.py', P + 'integrate/adapt.py', P + 'integrate/adapt_vec.py', P + 'utils/nrmin.py', P + 'grid/hpd.py'],
         mech=[('copies before compiled in/out arguments', P + 'deriv/obsinfo.py'), ('direction set of the minimiser', P + 'utils/nrmin.py:powell')],
         tech='engine call sequences with several array layouts and planned failures, arrays watched at every evaluation',
         note='Bitwise watch of caller arrays and earlier results at every callback, over sampled calls.'),
    dict(id='P08', title='Calculations that overlap in threads or nest do not affect each other',
         statement='Numerical calculations in progress at the same time, in several threads or started from inside a user function of another, each give exactly the result, the errors and the sequence of evaluations they give when '
         'run alone, also when some of them fail or share input arrays.',
         over=['schedules', 'fault_sequences', 'inputs'],
         qtext='every interleaving of 2-4 calculations at the granularity of Python lines and callbacks, with failures and nesting',
         why='Tests are single threaded and never nest; shared module state shows only under particular interleavings.',
         files=[P + 'deriv', P + 'integrate', P + 'utils/nrmin.py', P + 'grid'],
         mech=[('callbacks and work arrays of compiled code', P + 'integrate/adapt_py.f, ' + P + 'deriv/_obsinfo.f'), ('objects holding per-call state', P + 'utils/nrmin.py, ' + P + 'grid/hpd.py')],
         tech='thread schedules preempting at package lines and user callbacks, with failures and nested calls, compared with the calls alone',
         note='One simulated thread runs at a time; compiled code is atomic between callbacks.'),
    dict(id='P09', title='Routines end within their budget and never report unearned success',
         statement='Whatever values a user function returns (NaN, infinities, constants, noise, unbounded or suddenly bad values), every numerical routine ends within its stated number of iterations or evaluations and '
         'with an ordinary result or exception. An adaptive integral is flagged as converged only if its own reported error meets the requested tolerance, and a search, bracketing or minimisation that did not find what it '
         'looked for does not claim that it did; for smooth functions with one solution it is found.',
         over=['inputs', 'fault_sequences', 'configurations'],
         qtext='every family of hostile return values, evaluation at which they start, budget and tolerance',
         why='Tests use smooth functions for which every routine converges.',
         files=[P + 'deriv/_obsinfo.f', P + 'integrate/adapt.py', P + 'integrate/adapt_vec.py', P + 'utils/nrmin.py', P + 'utils/numutils.py'],
         mech=[('evaluation limits and convergence flags', P + 'integrate/adapt_vec.py, ' + P + 'integrate/adapt_py.f'), ('bracketing limits', P + 'utils/nrmin.py:MinBracket'),
               ('step search', P + 'deriv/_obsinfo.f:pk_scales')],
         tech='engines driven by hostile value streams, with evaluation counters as the simulated clock',
         note='Progress is measured in evaluations; adaptive cubature may overshoot its limit by one subdivision round.'),
    dict(id='P10', title='Parameter bookkeeping of a model follows its history of changes',
         statement='After any sequence of fixing, varying, stepping, ranging, setting and advancing parameters, the lists of fixed, varying and stepped parameters, and each parameter\'s status, value, range and step position, '
         'are those the sequence implies, and stepping visits the product of the step grids in order and ends with the documented signal. A failure of the user\'s change hook in between reaches the caller and '
         'leaves lists and statuses consistent with each other, so that the next operation works as if made on a model in that state.',
         over=['histories', 'fault_sequences'],
         qtext='every history of operations on several models and every failure point of the change hook',
         why='Tests perform a few fixed sequences on one model; the lists depend on the whole history and on hook failures.',
         files=[P + 'pie/realparam.py', P + 'pie/param.py', P + 'pie/inference_base.py'],
         mech=[('status lists', P + 'pie/inference_base.py:_on_param_status_change'), ('step order', P + 'pie/inference_base.py:next_step'), ('parameter handler', P + 'pie/realparam.py:RealParamHandler')],
         tech='histories of parameter operations with failing hooks, compared with a reference state machine after every step',
         note='Refinement check against a small reference; no rollback is claimed when a hook fails.'),
    dict(id='P11', title='A refused parameter change has no effect at all',
         statement='An operation on one or all parameters that is refused (value or step out of range, not a number, missing range or scale, impossible step grid, operation that does not fit the status) raises and leaves every parameter, list, step '
         'position and score as it was, and no user hook is called for it.',
         over=['histories', 'inputs'],
         qtext='every reachable model state and every kind of refused operation',
         why='Tests check that an error is raised, in one state, not that nothing changed.',
         files=[P + 'pie/realparam.py', P + 'pie/inference_base.py'],
         mech=[('checks before changes', P + 'pie/realparam.py:linstep, logstep, vary, fix, set_value')],
         tech='histories mixing valid operations, failing hooks and refusals, with full snapshots across each refusal',
         note='Snapshot equality across refusals in sampled states.'),
    dict(id='P12', title='Models always compute with their current parameters',
         statement='Every signal evaluation, score, likelihood and fit of a model uses the parameter values in force at that moment, with the user\'s preparation hook run after the last change and before the signal function, '
         'and the change hook and every registered listener are told of each change with the new value already readable. Failures in hooks, signal function or prior reach the caller and never make a later evaluation use outdated preparations or another model\'s parameters.',
         over=['histories', 'fault_sequences'],
         qtext='every history of changes, evaluations, fits and grids over several models and every failing user call',
         why='Tests evaluate a score after one fixed set-up.',
         files=[P + 'pie/signalmodel.py', P + 'pie/gaussian.py', P + 'pie/param.py', P + 'pie/inference_base.py'],
         mech=[('use and change notification', P + 'pie/signalmodel.py:_on_use, _on_param_value_change'), ('listeners', P + 'pie/param.py:add_listener, del_listener'), ('predictions', P + 'pie/gaussian.py:get_prdxns')],
         tech='histories of changes and evaluations with failing user code, each evaluation compared with current parameters and first-principles scores',
         note='Checked inside every signal call and against independently computed scores.'),
    dict(id='P13', title='A completed parameter grid holds the right value in every cell',
         statement='A grid calculation that completes has in every cell the score (and best-fit values of varied parameters) belonging to exactly that cell\'s parameter values, for any number of stepped and varied parameters and linear or logarithmic steps. '
         'The result is the same bit for bit as on a fresh model, whatever fits, manual steps, interruptions or failed grids came before, and a failure of user code in the middle reaches the caller.',
         over=['histories', 'fault_sequences', 'configurations'],
         qtext='every grid set-up, history before it and user call at which an attempt is cut off',
         why='Tests fill one grid on a fresh model; leftovers of an interrupted grid never occur.',
         files=[P + 'pie/inference_base.py', P + 'pie/containers.py'],
         mech=[('grid loop', P + 'pie/inference_base.py:do_grid'), ('grid containers', P + 'pie/containers.py:ScalarGrid, VectorGrid')],
         tech='repeated grids with user-code failures at planned calls and manual steps between, compared cell by cell and with a fresh model',
         note='Cells compared with first-principles scores; bitwise comparison with an undisturbed model.'),
    dict(id='P14', title='A fit ends with the model at the best fit it reports',
         statement='A completed fit leaves the varied parameters at the reported values, inside their ranges, with the reported score being the model\'s score there and no worse than at the start, and the other parameters untouched; for well behaved problems it is the optimum. '
         'The outcome is the same bit for bit as for a fresh model in the same state, whatever fits failed or were interrupted before, and a failure of user code reaches the caller without leaving a parameter outside its range.',
         over=['histories', 'fault_sequences', 'configurations'],
         qtext='every sequence of fits with start values, scales, ranges, mapped or plain bounds, and every failing user call',
         why='Tests run a single fit to convergence.',
         files=[P + 'pie/inference_base.py', P + 'pie/realparam.py', P + 'utils/nrmin.py'],
         mech=[('fit and optimisation', P + 'pie/inference_base.py:fit, optimize'), ('bound mapping', P + 'pie/realparam.py:unbounded_value'), ('Powell minimiser', P + 'utils/nrmin.py:powell')],
         tech='fit sequences with failing user code and ranges, compared with fresh models, first-principles scores and analytic optima',
         note='Gaussian problems with analytic optimum; optimum claimed for unmapped fits only.'),
    dict(id='P15', title='Computing the observed information leaves the model at its mode',
         statement='After the observed information matrix of a model has been computed, or the computation has failed at any point, all parameters and the stored score are back at the mode, so that later results are unaffected. The matrix and its error '
         'estimate depend only on the mode, the data and the arguments, not on earlier or failed computations, and a failure of user code reaches the caller.',
         over=['histories', 'fault_sequences', 'configurations'],
         qtext='every sequence of computations, step argument, parameter range and failing user call',
         why='Tests compute one matrix and do not look at the model afterwards.',
         files=[P + 'pie/bayes.py', P + 'deriv/_obsinfo.f'],
         mech=[('return to the mode', P + 'pie/bayes.py:obs_info'), ('finite differences', P + 'deriv/_obsinfo.f')],
         tech='sequences of information-matrix computations with user-code failures and ranges, compared with fresh models and the analytic matrix',
         note='Bitwise equality with a fresh model; analytic Gaussian matrix as absolute reference.'),
    dict(id='P16', title='Simulated data are right and private to the model that made them',
         statement='Simulating data sets the values to the current prediction plus noise of the stated size drawn once per datum from the random stream, for all, one or additional data, and scores use them from then on. Original data, other models (also of the same class) and '
         'arrays passed in by the caller never change, and a refused or failed simulation leaves a consistent data set.',
         over=['histories', 'fault_sequences', 'inputs'],
         qtext='every history of simulations, scores and parameter changes over several models, with failing user code and all forms of data',
         why='Tests simulate once on one instance.',
         files=[P + 'pie/gaussian.py', P + 'pie/predictor.py'],
         mech=[('localised data', P + 'pie/gaussian.py:localize_data, changing_data'), ('simulation', P + 'pie/gaussian.py:sim, sim1, add_sim')],
         tech='multi-model simulation histories over a seeded random stream with failing user code, compared with a reference data set after every operation',
         note='The random stream is replayed by an independent reference.'),
    dict(id='P17', title='Credible-region queries are right, independent and recorded in step',
         statement='A credible region (by probability, ratio or level, in one or two dimensions) contains the stated probability, and its bounds, level and content belong together and do not depend on earlier queries. '
         'The recorded probabilities, ratios, levels and bounds always line up with the queries that succeeded; a refused or failed query raises and records nothing. The normalization of a grid is the integral of the density over it.',
         over=['histories', 'fault_sequences', 'inputs'],
         qtext='every sequence of queries, refusals and failures over objects of four kinds and multi-peaked densities',
         why='Tests make one query per object.',
         files=[P + 'grid/hpd.py', P + 'grid/hpdgrid.py', P + 'grid/_gridquad.f'],
         mech=[('region search and record', P + 'grid/hpd.py, ' + P + 'grid/hpdgrid.py:critlevel, bounds'), ('content above a level', P + 'grid/_gridquad.f')],
         tech='query histories with failing densities and content functions, compared with fresh objects, a reference quadrature and the query list',
         note='Content compared with an independent quadrature; unsolvable levels may raise.'),
    dict(id='P18', title='On/off count inferences do not depend on order, failure or overlap',
         statement='For given counts and exposures, the on/off likelihood, posterior and signal-count probabilities for a rate or number of signal counts are the same bit for bit whichever queries, failures or simultaneous queries in other threads came before, for '
         'scalars and for arrays of any number type and length, on their own or for a list of channels. Results belong to the receiver, and overwriting them changes no later answer.',
         over=['schedules', 'histories', 'fault_sequences', 'inputs'],
         qtext='every order and interleaving of queries on shared or separate objects with failures in between',
         why='Tests query one object in one order.',
         files=[P + 'count/onoff.py', P + 'count/_cbmlike.f'],
         mech=[('cached coefficients', P + 'count/onoff.py'), ('compiled likelihood', P + 'count/_cbmlike.f')],
         tech='query histories in preempted simulated threads with failing inputs, compared with fresh objects and a reference computation',
         note='Compiled code runs with the interpreter lock held.'),
    dict(id='P19', title='A refined grid holds the function\'s values at its own points',
         statement='After a completed first pass or refinement, every point of an adaptive one-dimensional grid holds the value of the latest function there, the function is evaluated nowhere outside the interval, the points cover it in order and at least as densely as the base grid, and quadratures and moments are the trapezoid '
         'sums over exactly those points. After a failed pass or refinement a query raises or gives the answer of a complete earlier grid, never a mixture, and repeating the step gives what a fresh grid gives.',
         over=['histories', 'fault_sequences', 'inputs'],
         qtext='every history of passes, refinements and queries on several grids, and every evaluation at which the function fails',
         why='Tests do one pass and one refinement with a function that never fails.',
         files=[P + 'grid/grid1d.py'],
         mech=[('evaluation', P + 'grid/grid1d.py:BasicGrid1D.stepfunc'), ('refined interval list', P + 'grid/grid1d.py:RefinedIntervalList1D'), ('passes', P + 'grid/grid1d.py:Grid1D.firstpass, refine')],
         tech='grid histories with functions failing at planned evaluations, compared point by point and with fresh grids',
         note='Ascending grids; comparison up to rounding of abscissas.'),
    dict(id='P20', title='A model has exactly the parameters and predictors its classes define',
         statement='Each model lists the parameters and predictors of its signal and predictor classes, inherited ones included, in the order of definition, starts at their defaults, and scores with all of them and no others. This holds whatever '
         'becomes of the source files after import, whichever other classes are defined or derived later, and whatever other models or their users do to their own values and lists; a duplicated parameter name is refused.',
         over=['histories', 'fault_sequences', 'programs'],
         qtext='every set of generated model classes, order of definitions and instantiations, and damage to source files',
         why='Tests define one model per file and never touch its source or derive from it.',
         files=[P + 'pie/autoname.py', P + 'pie/param.py', P + 'pie/predictor.py', P + 'pie/inference_base.py'],
         mech=[('name registration', P + 'pie/param.py:_report_name, ' + P + 'pie/predictor.py:_report_name'), ('gathering names', P + 'pie/inference_base.py:Inference.__init__')],
         tech='histories of generated model classes with source files deleted, edited or unreadable, compared with the definitions',
         note='An inference combines one signal class, one predictor class and one kind, as documented.'),
    dict(id='P21', title='Statistics of a linear model belong together and to the parameters asked for',
         statement='The marginal statistics, amplitudes, covariance and residuals of the linear-model marginalisers (BA, BAObj) are those of least squares for the nonlinear parameters asked for or, without parameters, for the last ones calculated. '
         'They are bit for bit those of a fresh object whatever evaluations, failures of basis or set-up functions, degenerate bases or queries of other objects came before or happen inside a basis function. '
         'A failure reaches the caller, results belong to the receiver, and the caller\'s data never change.',
         over=['histories', 'fault_sequences', 'inputs'],
         qtext='every sequence of queries, failures and overwritten results over objects of both kinds',
         why='This code has no tests here; its memoised results depend on the history of calls.',
         files=[P + 'gauss/vecba.py'],
         mech=[('memoised statistics', P + 'gauss/vecba.py:calc_marg_stats'), ('derived quantities', P + 'gauss/vecba.py:amplitudes, covar, residuals')],
         tech='query histories with failing basis functions and compiled routine, compared with fresh objects and least squares',
         note='The compiled module vba, a placeholder in this version, is transcribed from vbamodule.c.'),
    dict(id='P22', title='Population samples come from the shared random stream alone',
         statement='Samples of a weighted population, with or without replacement, and of a piecewise-linear density are determined by the weights, the size and the state of the shared random-number generator alone, which they leave advanced by exactly the '
         'numbers drawn, its cached normal deviate included. Members without replacement are distinct and picked by Sampford\'s scheme for that size, whatever sizes, methods, refusals, failures or interrupts came before. '
         'A refused or failed sample raises and leaves the generator as it was; arrays passed in never change.',
         over=['histories', 'fault_sequences', 'inputs'],
         qtext='every sequence of samples, sizes, methods, refusals, failures and other uses of the generator',
         why='This code has no tests here; tables for a sample size persist between calls.',
         files=[P + 'mc/population.py', P + 'mc/pwlinear.py', P + 'mc/sampford.c', P + 'mc/compact5table.c'],
         mech=[('generator state in and out', P + 'mc/population.py:sample, subset_pps, subset_pps5'), ('tables for a sample size', P + 'mc/population.py, ' + P + 'mc/sampford.c:set_sample'), ('density', P + 'mc/pwlinear.py')],
         tech='sampling histories with failing and interrupted calls into the compiled sampler, compared with a reference sampler started from the generator state',
         note='The C sampler is compiled from the tree; its Python 2 binding is transcribed with ctypes.'),
    dict(id='P23', title='Running log sums and steppers hold exactly what was put into them',
         statement='The count, log sum, log mean and log standard deviation a running log sum reports are those of the values added to it so far, zeros counted, up to rounding and without overflow at any magnitude and in any order, whatever additions failed in '
         'between, whichever other sums are in use, and also when it resumed from the reported count and sums of an earlier one. A value that cannot be added raises and changes nothing, and an infinite value or one that is not a number is never forgotten. '
         'A linear or logarithmic stepper visits exactly its n points in order, with both ends exact, whatever other steppers do and however their users stop or fail.',
         over=['histories', 'fault_sequences', 'inputs'],
         qtext='every sequence of additions, failures, resumptions and status queries on several sums, and every interleaving of steppers',
         why='This code has no tests.',
         files=[P + 'utils/numutils.py'],
         mech=[('running sums', P + 'utils/numutils.py:LogSummer'), ('steppers', P + 'utils/numutils.py:lin_stepper, log_stepper, lin_enum_stepper, log_enum_stepper')],
         tech='histories of additions with failing and re-entrant values, resumptions and interleaved steppers, compared with the exact sums of the values added',
         note='One thread uses a sum at a time.'),
]

NA = [
    dict(id='P30', title='Cubature rules are exact for polynomials of their stated degree',
         statement='Each tabulated one- and two-dimensional quadrature rule integrates every polynomial up to its stated degree exactly up to rounding.',
         over=['inputs'], qtext='every polynomial up to the degree and every rule', why='Tests sample a few integrands.',
         files=[P + 'integrate/cub2d.py'], mech=[('tabulated nodes and weights', P + 'integrate/cub2d.py')],
         reason='A pure function of tabulated constants: no schedule, time, I/O, randomness or fault can influence it, so there is nothing for a simulator to vary.'),
    dict(id='P31', title='Adaptive integrals are as accurate as their reported error for smooth integrands',
         statement='For smooth integrands the difference between a converged adaptive integral and the true one does not exceed the reported error.',
         over=['inputs'], qtext='every smooth integrand, region and tolerance', why='Tests sample a few integrands.',
         files=[P + 'integrate/adapt_py.f', P + 'integrate/adapt_vec.py'], mech=[('error estimate', P + 'integrate/adapt_py.f')],
         reason='Numerical analysis of a pure function of the integrand; it depends on no schedule, fault or history (what faults can do to these routines is decided under P06 to P09).'),
    dict(id='P32', title='On/off posteriors are normalised and match the analytic marginals',
         statement='The on/off posterior density integrates to one and equals the analytic marginal for all counts and exposures.',
         over=['inputs'], qtext='all counts and exposures', why='Tests sample a few counts.',
         files=[P + 'count/onoff.py', P + 'count/_cbmlike.f'], mech=[('series', P + 'count/_cbmlike.f')],
         reason='A formula evaluated on its arguments; no concurrency, time, I/O or fault enters (independence of order, failures and threads is decided under P18).'),
    dict(id='P33', title='Log factorials and Poisson probabilities are accurate over their whole range',
         statement='Log factorials, Poisson probabilities and related helpers are accurate to rounding for every argument, without overflow.',
         over=['inputs'], qtext='every argument', why='Tests sample a few values.',
         files=[P + 'count/_cbmlike.f'], mech=[('helpers', P + 'count/_cbmlike.f')],
         reason='Pure arithmetic helpers: one call has one outcome, whatever is scheduled or fails around it.'),
    dict(id='P34', title='Sampford\'s scheme gives the requested inclusion probabilities',
         statement='Samples drawn without replacement by Sampford\'s scheme include each member with probability proportional to its weight.',
         over=['inputs'], qtext='all weights and sample sizes', why='This code has no tests here.',
         files=[P + 'mc/sampford.c'], mech=[('sampler', P + 'mc/sampford.c')],
         reason='A theorem about the scheme, not a behaviour of one execution; that the code follows the scheme, draw by draw, is decided under P22.'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in CLAIMED + [n for n in NA]:
            rec = dict(id=p['id'], title=p['title'], statement=p['statement'],
                       quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                       anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                    hook_needed=None))
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(rec) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh',
             hooks=dict(guard='none (no hook in /repo: the seams are installed by the harness over open/os.*, caller callbacks, '
                              'numpy.random and thread scheduling)', enable='not needed', source_commits=[]),
             checks=[dict(property=p['id'], quick_cmd='./check.py ' + p['id'],
                          thorough_cmd='./check.py %s --tier thorough' % p['id'],
                          evidence_file='evidence/%s.json' % p['id'], technique=TECH + p['tech'],
                          level='exploration', level_note=p['note']) for p in CLAIMED],
             not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    MAP = {'crash points': 'crash_points', 'fault sequences': 'fault_sequences',
           'clock behaviours': 'schedules', 'ambient states': 'configurations',
           'event sequences': 'histories'}
    over = list(dict.fromkeys(MAP.get(o, o) for o in over))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])]))
    d.update(kw)
    assert len(title) <= 80, (id, len(title))
    P.append(d)

ADMMF = ['sporco/admm/admm.py', 'sporco/admm/bpdn.py', 'sporco/admm/cbpdn.py', 'sporco/admm/cbpdnin.py',
         'sporco/admm/cbpdntv.py', 'sporco/admm/pdcsc.py', 'sporco/admm/ccmod.py', 'sporco/admm/ccmodmd.py',
         'sporco/admm/cmod.py', 'sporco/admm/rpca.py', 'sporco/admm/spline.py', 'sporco/admm/tvl1.py',
         'sporco/admm/tvl2.py', 'sporco/admm/ppp.py']
PGMF = ['sporco/pgm/pgm.py', 'sporco/pgm/momentum.py', 'sporco/pgm/stepsize.py', 'sporco/pgm/backtrack.py',
        'sporco/pgm/bpdn.py', 'sporco/pgm/cbpdn.py', 'sporco/pgm/ccmod.py', 'sporco/pgm/cmod.py', 'sporco/pgm/ppp.py']
DLF = ['sporco/dictlrn/dictlrn.py', 'sporco/dictlrn/bpdndl.py', 'sporco/dictlrn/wbpdndl.py',
       'sporco/dictlrn/cbpdndl.py', 'sporco/dictlrn/cbpdndlmd.py', 'sporco/dictlrn/prlcnscdl.py']

p('P01', 'Stopping and resuming an ADMM or PGM solver never changes the outcome',
  'For every ADMM and PGM solver and every option setting, however a run of n iterations is split over successive calls to solve '
  '(by the iteration limit, by a callback that asks to stop, or both), the solution, the internal working variables that determine '
  'further progress, the iteration numbers and every recorded statistic other than times are those of one uninterrupted run of n iterations. '
  'This includes adaptive penalty parameters, momentum, step-size policies and backtracking, whose state must survive the interruption.',
  ['histories', 'crash points', 'configurations'],
  'all solver classes, all option combinations, all ways of cutting n iterations into segments, all numbers of segments',
  'Tests call solve once, or compare a couple of hand-picked splits; the guarantee is over every cut point, class and option combination, and the state that is lost is usually only visible for particular option/period/cut alignments.',
  ADMMF + PGMF + ['sporco/common.py'],
  'ADMM.solve / PGM.solve keep the iteration counter and all working variables on the instance and continue from them; restart branches in momentum, step size, backtracking and adaptive rho updates depend on the counter.')

p('P02', 'Stopping and resuming dictionary learning never changes the outcome',
  'For every dictionary learning solver, however the outer iterations are split over successive calls to solve (by the iteration limit or by a callback '
  'that asks to stop), the dictionary, the coefficient maps, the iteration numbers and every recorded statistic other than times are those of one uninterrupted run. '
  'This holds for every combination of sparse coding and dictionary update method, with or without a mask, and for the parallel consensus variants.',
  ['histories', 'configurations'],
  'all dictionary learning classes and method combinations, all splits of the outer iterations',
  'Tests run each learner once for a fixed number of iterations; none compares a segmented run with an uninterrupted one for the various method combinations and option settings.',
  DLF + ['sporco/common.py', 'sporco/admm/ccmod.py', 'sporco/admm/ccmodmd.py', 'sporco/pgm/ccmod.py', 'sporco/admm/cmod.py', 'sporco/pgm/cmod.py'],
  'DictLearn.solve alternates one iteration of the x step and the d step solver objects; their inner state and the outer counter live on the instances.')

p('P03', 'A solver restored from a saved copy continues where the saved one was',
  'If a serial solver is serialised (pickled) between calls to solve (including before the first one), the process is lost, and the saved bytes are loaded in a new process, '
  'continuing the restored solver gives the same solution, iteration numbers and recorded statistics (other than times) as if nothing had happened. '
  'Saving does not disturb the solver that was saved, and a restored copy and its original evolve independently.',
  ['crash points', 'histories', 'configurations'],
  'all serial ADMM, PGM and dictionary learning solver classes (other than the mask simulation wrapper, which replaces methods of the wrapped object) and option settings, every crash point between iterations at which a call to solve ends',
  'Tests only check that pickling a few classes does not raise; they do not lose the process at arbitrary iterations and compare the continuation.',
  ADMMF + PGMF + ['sporco/common.py', 'sporco/cdict.py', 'sporco/dictlrn/dictlrn.py'],
  'All solver state must be reachable from the instance and picklable (IterationStats namedtuples, option objects, FFT-domain caches), with nothing essential in module globals or class attributes.')

p('P04', 'Solvers living in the same process do not influence each other',
  'Several solver objects in one process, including ones built from the same option objects and input arrays and ones whose options are built or which are run in different threads, each give exactly the result they would give alone, '
  'whatever the order in which their construction, iterations, queries and destruction are interleaved. No solver modifies the arrays or options it was given.',
  ['schedules', 'histories'],
  'all pairs of serial solver classes, all interleavings of their operations at any granularity down to single Python operations in threads, with shared inputs and options',
  'Tests build one solver at a time; interference needs a particular interleaving of two solvers with a shared object.',
  ADMMF + PGMF + ['sporco/common.py', 'sporco/cdict.py', 'sporco/fft.py', 'sporco/linalg.py', 'sporco/dictlrn/dictlrn.py', 'sporco/dictlrn/onlinecdl.py'],
  'State lives on instances; options are copied on construction; module-level globals and class-level defaults hold no per-run state.')

p('P05', 'Parallel convolutional sparse coding does not depend on worker scheduling',
  'The solution, statistics and iteration numbers produced by any sequence of solve calls of the process-parallel convolutional basis pursuit solver are the same for every number of worker processes and every scheduling of the workers, '
  'namely those of the serial execution with the same grouping of filters. Stopping and resuming a run any number of times does not change the solution or the iteration numbers, and neither do earlier solvers in the same process.',
  ['schedules', 'histories', 'configurations'],
  'all worker counts, groupings, interleavings of worker memory accesses, splits over solve calls (including iteration counts in the hundreds), option settings',
  'A test observes whatever schedule the operating system picks, on a few iterations; races, missing barriers and stale per-process copies need particular interleavings.',
  ['sporco/admm/parcbpdn.py', 'sporco/admm/cbpdn.py'],
  'Forked pool workers update disjoint slices of shared arrays between barriers; anything not in shared memory is a per-worker snapshot taken when the pool is created.')

p('P06', 'Parallel consensus dictionary learning does not depend on worker scheduling',
  'The dictionary, coefficient maps and statistics produced by the process-parallel consensus dictionary learning solvers (with and without mask) are the same for every number of worker processes, including none, '
  'and for every scheduling of the workers. This also holds when learning is stopped and resumed and when new learners follow old ones in the same process.',
  ['schedules', 'histories', 'configurations'],
  'all worker counts including zero, all interleavings of worker memory accesses, splits over solve calls, option settings, single and multi-channel data',
  'A test observes whatever schedule the operating system picks; races and stale per-process copies need particular interleavings.',
  ['sporco/dictlrn/prlcnscdl.py'],
  'Workers handle one training signal each, writing slices of shared arrays; the consensus averaging and dual updates run in the parent between barriers.')

p('P07', 'Failures in parallel execution surface and leave nothing behind',
  'When a worker task, the creation of the worker pool, the allocation of shared memory or a user callback fails during parallel sparse coding, parallel dictionary learning or a parallel grid search, '
  'the error reaches the caller instead of a result or a hang, and no worker processes are left running. Afterwards a new solver in the same process behaves as if the failure had never happened.',
  ['fault sequences', 'schedules'],
  'every fault kind (worker exception, memory exhaustion, process creation failure, callback exception or interrupt) at every point of every parallel solver, followed by further use',
  'Tests never make a worker, an allocation or a callback fail.',
  ['sporco/admm/parcbpdn.py', 'sporco/dictlrn/prlcnscdl.py', 'sporco/util.py'],
  'Pools are created on entry to solve / grid_search and have to be shut down on every exit path.')

p('P08', 'Parallel grid search returns the true optimum under any schedule',
  'For every function and grid, the multi-process grid search evaluates the function exactly once at every grid point and returns the function values at their own grid positions together with the optimum value, '
  'its indices and its parameters (ignoring undefined values, for minimisation and maximisation, for scalar and tuple-valued functions), independently of the number of worker processes and of the order in which they finish.',
  ['schedules', 'inputs'],
  'all grids, functions, worker counts, completion orders and chunkings',
  'Tests use one small function and grid under one schedule.',
  ['sporco/util.py'],
  'util.grid_search maps the function over the product of the axes in a pool and reshapes the ordered results.')

p('P09', 'Distributed (MPI) grid search agrees on every rank and never deadlocks',
  'For every number of MPI ranks (including more ranks than grid points), every grid and every scalar or tuple-valued function, the MPI grid search completes on all ranks, evaluates every grid point exactly once overall, '
  'and every rank returns the same answer: the one a sequential search would give.',
  ['schedules', 'configurations', 'inputs'],
  'all communicator sizes, arrival orders of ranks at collective operations, grids, functions and result types',
  'The test suite runs with a single rank.',
  ['sporco/mpiutil.py'],
  'Each rank evaluates a contiguous chunk computed with a scan; values are gathered on all ranks with Allgather/Allgatherv whose counts and datatypes must match on all ranks.')

p('P10', 'Downloads return complete data or a URL error, within the retry limit',
  'For every sequence of network faults, a download returns exactly the complete content of the resource or raises a URL error; it never returns truncated or corrupted content and never raises another kind of exception for a network failure. '
  'Timeouts, at whatever stage of the transfer they occur, are retried up to the given number of attempts and no further, and no connection is left open.',
  ['fault sequences'],
  'all sequences of connection refusals, name resolution failures, timeouts, resets, premature closes, HTTP errors and delays, at every byte position',
  'There is no network in the tests; each fault kind at each stage and attempt is a distinct case.',
  ['sporco/util.py'],
  'util.netgetdata loops over urlopen and read with a timeout and reports failures as URLError.')

p('P11', 'Labelled timers account for exactly the time during which they were running',
  'For every sequence of start, stop, reset and query operations on any set of labels and every behaviour of the clock, each timer reports exactly the total time during which it was running (or, on request, the time since its latest start), independently of all other labels. '
  'Redundant starts and stops change nothing, context-managed use starts and stops properly also when an exception is raised, and stopping, resetting or querying an unknown label is reported as an error and changes nothing.',
  ['histories', 'clock behaviours'],
  'all operation sequences, label sets, nesting of context managers, exceptions and clock advances',
  'Real clocks prevent a test from asserting exact values; tests check that calls do not raise.',
  ['sporco/util.py'],
  'Timer keeps a start time and an accumulator for each label; ContextTimer wraps start/stop.')

p('P12', 'Iteration counts, stop conditions and timings are exact under any clock',
  'For every iterative solver, clock behaviour and sequence of solve calls, each call performs at most the requested number of iterations and ends exactly at the iteration where the callback asks to stop or the stopping tolerance is met, '
  'one statistics record is kept for each iteration performed with consecutive numbers, and recorded times equal the time spent inside solve (never the time between calls), excluding objective evaluation or residual computation exactly when such a timer is selected. '
  'The numerical results never depend on the clock.',
  ['clock behaviours', 'histories', 'configurations'],
  'all solver classes, sequences of solve calls, iteration limits, callback stop points and clock advances (including stalls and jumps)',
  'Tests cannot control the clock, and only look at the number of iterations of single calls.',
  ['sporco/common.py', 'sporco/util.py', 'sporco/admm/admm.py', 'sporco/pgm/pgm.py', 'sporco/dictlrn/dictlrn.py', 'sporco/dictlrn/onlinecdl.py', 'sporco/dictlrn/prlcnscdl.py', 'sporco/admm/parcbpdn.py'],
  'solve starts and stops labelled timers around iteration phases, appends IterationStats and increments the iteration counter on exit.')

p('P13', 'Looking at a solver never changes what it computes',
  'Querying a solver from its callback or between calls to solve (current minimiser, coefficients, dictionary, reconstruction, iteration statistics, objective values, verbose display) any number of times and at any point leaves all later iterates and statistics unchanged. '
  'Repeating a query without iterating in between gives the same answer.',
  ['histories', 'schedules'],
  'all solver classes, all query methods, all points of the run, all repetition patterns',
  'Tests query results once at the end, so a query that disturbs the state has no later iteration to affect.',
  ADMMF + PGMF + DLF + ['sporco/dictlrn/onlinecdl.py', 'sporco/common.py'],
  'getmin/getcoef/getdict/reconstruct/getitstat/eval_objfn are meant to be read-only views on the working variables.')

p('P14', 'Online dictionary learning is determined by its stream of training data',
  'After any sequence of training batches the online dictionary learners (with and without mask) hold exactly the dictionary that results from applying the published update to the batches one after the other: sparse coding with the current dictionary, '
  'a gradient step with the scheduled step size, and projection onto the feasible set. The size and number of images in a batch may change from call to call, and nothing but the dictionary and the step count carries over. '
  'A batch interrupted at any point leaves the dictionary as it was or fully updated, and later batches proceed from it.',
  ['histories', 'inputs'],
  'all streams of batches, including changes of batch size and image size, interruptions by failing batches, and all option settings',
  'Tests feed a constant shape for a few steps and check that nothing is raised.',
  ['sporco/dictlrn/onlinecdl.py'],
  'OnlineConvBPDNDictLearn.solve sets up a sparse coding problem for the batch, computes the DFT-domain gradient and projects.')

p('P15', 'A learned dictionary satisfies its constraints at every moment',
  'At every iteration boundary of every dictionary learning or dictionary update solver, after any history of stops, resumptions, worker schedules and failed iterations, the dictionary handed out has the requested filter sizes and only finite entries, '
  'and each filter (or atom) has unit norm (or is zero) and has zero mean or non-negative entries when that was requested.',
  ['histories', 'schedules', 'fault sequences'],
  'all dictionary learning and dictionary update classes, option settings (constraint options, dictionary sizes, multi-channel), every observation point',
  'Tests look at the final dictionary of one run, if at all.',
  DLF + ['sporco/dictlrn/onlinecdl.py', 'sporco/admm/ccmod.py', 'sporco/admm/ccmodmd.py', 'sporco/admm/cmod.py', 'sporco/pgm/ccmod.py', 'sporco/pgm/cmod.py', 'sporco/cnvrep.py'],
  'Every dictionary variable handed out has passed through the constraint projection.')

p('P16', 'Results depend on the inputs only, not on ambient state',
  'The result of every solver and learner is a function of its arguments and options only: it does not depend on the state of the random number generators, the clock, the contents of uninitialised memory, the memory layout of the input arrays, '
  'the number of FFT threads, the work done earlier in the process, or which optional parts of the package have been imported. Running a solver leaves the global random state, floating point error settings and current directory as they were.',
  ['ambient states', 'histories'],
  'all solver classes and options, all values of the ambient state, injected independently',
  'Tests run in one ambient state; a dependence on, say, uninitialised memory shows only when the allocator returns dirty memory.',
  ADMMF + PGMF + DLF + ['sporco/common.py', 'sporco/linalg.py', 'sporco/fft.py', 'sporco/signal.py', 'sporco/cnvrep.py', 'sporco/cupy/__init__.py'],
  'No randomness is used in the solvers; buffers are fully written before being read; module-level settings are not modified.')

p('P17', 'Image and dictionary files are read completely or an error is reported',
  'For every directory content and every storage fault (missing, unreadable, truncated, corrupt or replaced files, read errors, short reads), listing the example images names exactly the readable image files by group, '
  'and reading an image or the example dictionaries returns exactly the stored data, converted as requested, or raises an error; it never returns partial or wrong data. An inaccessible image is reported as an I/O error.',
  ['fault sequences', 'inputs'],
  'all directory trees, file kinds, conversion options and storage faults at any read',
  'Tests read two images of the intact package.',
  ['sporco/util.py'],
  'util.ExampleImages walks a directory, identifies images by content and reads through imageio; util.convdicts loads an npz archive.')

p('P18', 'Interactive figures keep a consistent view under any event sequence',
  'For every sequence of mouse-wheel, key-press and re-attachment events on a figure, zooming never moves the view outside the limits of the original plot, zooming out far enough restores the original limits, and each event is handled exactly once however often the handlers were attached. '
  'Events outside the axes and unrecognised keys change nothing.',
  ['histories', 'event sequences'],
  'all event sequences, cursor positions, numbers of attachments',
  'Tests draw figures but never deliver events.',
  ['sporco/plot.py'],
  'attach_keypress and attach_zoom register canvas event handlers that recompute axis limits around the cursor.')

p('P19', 'A warm start from exported iterates continues the original run',
  'Starting a new ADMM solver from the primal and dual iterates exported from another one (with the same problem, options and a fixed penalty parameter) produces exactly the iterates the original solver would have produced next. '
  'This holds for every iteration at which the export is made, for every solver whose iteration depends on these iterates only (not those with an inner iterative x step, history-dependent weights or further variables), '
  'up to the precision in which the solver stores initial values, and includes the parallel sparse coding solver with its separate initial values.',
  ['crash points', 'configurations'],
  'all ADMM solver classes accepting initial iterates, all option settings with fixed penalty, all export points',
  'Tests check that initial values are accepted, not that the continuation equals the original run from every point.',
  ['sporco/admm/admm.py', 'sporco/admm/bpdn.py', 'sporco/admm/cbpdn.py', 'sporco/admm/cbpdntv.py', 'sporco/admm/ccmod.py', 'sporco/admm/ccmodmd.py', 'sporco/admm/parcbpdn.py', 'sporco/admm/rpca.py', 'sporco/admm/tvl1.py', 'sporco/admm/tvl2.py', 'sporco/admm/spline.py', 'sporco/admm/ppp.py'],
  'Initial values for the auxiliary and dual variables are given as options; the x step depends on nothing else.')

p('P20', 'Recorded statistics describe the iterate they are recorded for',
  'At every iteration of every history of calls (stops, exceptions raised by the callback, changes of the reporting options between calls), the statistics recorded for the iteration carry its number and equal the values of the iterate the solver hands out at that moment: '
  'the objective components, the primal and dual residuals, the penalty parameter, the step size and the backtracking condition. '
  'With the monotone variant of the proximal gradient method the objective never increases from one iteration to the next (its first iteration excepted), and the penalty parameter changes only at the configured period, within the configured scaling and only if adaptation is enabled.',
  ['histories', 'configurations'],
  'all ADMM, PGM and dictionary learning classes, option settings and histories of calls',
  'Tests look at the last recorded objective of a few runs.',
  ['sporco/admm/admm.py', 'sporco/pgm/pgm.py', 'sporco/dictlrn/dictlrn.py', 'sporco/admm/cbpdn.py', 'sporco/pgm/cbpdn.py', 'sporco/admm/ccmod.py', 'sporco/pgm/ccmod.py'],
  'Statistics are assembled between the update of the iterate and the adaptation of the parameters, from cached auxiliary quantities; reporting and computing share working arrays.')

p('P21', 'Options that control only reporting or speed never change what is computed',
  'Whatever values the options controlling only reporting or speed have (Verbose, StatusHeader, FastSolve, IterTimer, LinSolveCheck, HighMemSolve, AccurateDFid, AuxVarObj), at construction or changed between calls of solve, the solver constructs and computes the same iterates to rounding accuracy (stopping tolerances disabled). '
  'The status display consists of the configured header and separators and exactly one row per recorded iteration showing the recorded values; a failure of the output stream is reported as that error and never swallowed.',
  ['histories', 'configurations', 'faults'],
  'all solver classes, option settings, changes between calls, output failures at any write',
  'Tests run most solvers with one value of these options.',
  ['sporco/admm/admm.py', 'sporco/pgm/pgm.py', 'sporco/dictlrn/dictlrn.py', 'sporco/admm/cbpdn.py', 'sporco/admm/pdcsc.py', 'sporco/admm/parcbpdn.py', 'sporco/common.py'],
  'Caches (HighMemSolve) must follow every change of the penalty parameter; skipping of residuals and statistics (FastSolve) must not skip parts of the algorithm.')

p('P22', 'Optional components that are missing or broken change only speed',
  'Every solver, the online dictionary learning, and every function of the array, transform, linear algebra and proximal modules compute the same results, to rounding accuracy at the precision of their arguments, and of the same types and shapes, '
  'whichever of the optional components pyfftw, numexpr and mpldatacursor can be imported. '
  'Importing any modules of the package, in any order, succeeds in all those environments and whatever state the GPU software is in (absent, device inaccessible, driver failing), leaves all modules of the package and the import machinery as usable as before, and '
  'does not change what the others compute. The variant of the package in sporco.cupy, used without a GPU on host arrays, computes what the standard variant computes.',
  ['configurations', 'faults', 'histories'],
  'all serial classes and array functions, sets of missing components, states of the GPU software, import orders',
  'The tests run in one environment, with everything installed and one import order.',
  ['sporco/fft.py', 'sporco/linalg.py', 'sporco/prox/_lp.py', 'sporco/prox/_util.py', 'sporco/array.py', 'sporco/cupy/__init__.py', 'sporco/cupy/fft.py', 'sporco/cupy/linalg.py', 'sporco/cupy/prox/__init__.py',
   'sporco/cupy/admm/__init__.py', 'sporco/cupy/pgm/__init__.py', 'sporco/util.py'],
  'The choice between alternative implementations is made once at import time; the variant modules are made by reloading and patching module objects in sys.modules.')

p('P23', 'An interrupted operation leaves everything else untouched',
  'If the construction of a solver, a call of its solve method, a query or a serialisation is interrupted at any point by an exception (keyboard interrupt, allocation failure, failing system call), '
  'the exception reaches the caller unchanged; the input arrays and option objects given to the operation, all other solvers, class and module state keep their values; and operations on other or new solvers, '
  'also with the same inputs and options, give exactly the results they give if the interrupted operation is never attempted. An interrupted query or serialisation also leaves the solver itself unaffected.',
  ['fault_sequences', 'crash_points', 'histories'],
  'all solver classes, operations, instructions at which the interruption strikes, subsequent operations',
  'Tests never interrupt anything.',
  ['sporco/admm/admm.py', 'sporco/pgm/pgm.py', 'sporco/dictlrn/dictlrn.py', 'sporco/common.py', 'sporco/cdict.py', 'sporco/util.py', 'sporco/admm/parcbpdn.py', 'sporco/dictlrn/prlcnscdl.py'],
  'Constructors and solve temporarily replace options, attributes and global settings and restore them afterwards; module-level state of the parallel solvers.')

p('P24', 'A solver given new data continues like one built for them',
  'After the dictionary or the coefficient maps of a solver are replaced with setdict or setcoef, or its penalty parameter is changed followed by rhochange, at any point of its history, its further iterates, statistics, '
  'reconstruction and solution are those of a solver constructed for the current data and parameter and started from the iterates the solver held at that moment: nothing computed from the previous data remains in use. '
  'For solvers with two dictionaries this holds if only one of them is replaced. Giving the same data again changes nothing, and a replacement interrupted at any point has no effect once it has been repeated.',
  ['histories', 'fault_sequences', 'inputs'],
  'all ADMM and PGM classes with setdict or setcoef whose iterates can be transferred, sequences of iterations, replacements, penalty changes and interruptions',
  'The tests give new data at most once, to solvers that have not iterated, and do not compare with a solver built for the data.',
  ['sporco/admm/bpdn.py', 'sporco/admm/cbpdn.py', 'sporco/admm/cbpdnin.py', 'sporco/admm/cbpdntv.py', 'sporco/admm/pdcsc.py', 'sporco/admm/cmod.py', 'sporco/admm/ccmod.py', 'sporco/admm/ccmodmd.py',
   'sporco/pgm/bpdn.py', 'sporco/pgm/cbpdn.py', 'sporco/pgm/cmod.py', 'sporco/pgm/ccmod.py'],
  'Factorisations, transforms and products of dictionary, coefficient maps and penalty parameter are cached in the solver and refreshed by setdict, setcoef and rhochange.')

# --- not applicable to the technique -----------------------------------
p('N01', 'Proximal operators solve their defining optimisation problem',
  'Every proximal operator and projection returns the minimiser of its defining problem for every input array, parameter and axis selection.',
  ['inputs'], 'all arrays, parameters and axes', 'Only sampled inputs are tested.',
  ['sporco/prox/_lp.py', 'sporco/prox/_l21.py', 'sporco/prox/_dl1l2.py', 'sporco/prox/_l1proj.py', 'sporco/prox/_nuclear.py'], 'pure array functions')
p('N02', 'Structured linear system solvers solve their systems',
  'Every structured linear solver returns a solution of its linear system to working precision for every well-posed input.',
  ['inputs'], 'all well-posed systems', 'Only sampled systems are tested.', ['sporco/linalg.py'], 'pure array functions')
p('N03', 'Transform and convolution identities hold for every array',
  'Forward and inverse transforms are inverses of each other, norms in the transform domain agree with spatial norms, and transform-domain convolution equals direct convolution, for every shape, axes and data type.',
  ['inputs'], 'all shapes, axes and types', 'Only sampled shapes are tested.', ['sporco/fft.py', 'sporco/cnvrep.py'], 'pure array functions')
p('N04', 'Solvers converge to a minimiser of the stated problem',
  'With stopping tolerances tending to zero every solver converges to a minimiser of the optimisation problem it documents.',
  ['inputs', 'configurations'], 'all problems and options', 'Convergence is checked on a few problems.', ADMMF + PGMF, 'mathematical property of the iteration')
p('N05', 'Option dictionaries accept exactly the documented keys',
  'Constructing or updating an options object accepts exactly the documented keys at every nesting level and reports any other key as an error.',
  ['inputs'], 'all key paths', 'Only a few keys are tested.', ['sporco/cdict.py'], 'pure data structure')
p('N06', 'Quality metrics and signal helpers compute their definitions',
  'Quality metrics, signal processing helpers, interpolation and array block helpers return the value of their defining formula for every input.',
  ['inputs'], 'all arrays and parameters', 'Only sampled inputs are tested.', ['sporco/metric.py', 'sporco/signal.py', 'sporco/interp.py', 'sporco/array.py'], 'pure array functions')

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))

"""Writes /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))


p('C01', 'Groups are tuned bottom-up and completion is never claimed wrongly',
  'Each tuning step does exactly one thing: it evaluates one parameter group, or asks that group for new voltages, or '
  'applies pending voltages; after voltages are applied evaluation starts again at the lowest group, a group is '
  'evaluated only after every group below it was found tuned at the voltages now set, new voltages are requested '
  'exactly when the current group was found untuned, and the request names the already tuned parameters of the groups below. '
  'Tuning is reported complete exactly when all groups in order were found tuned at the voltages now set; a step on a '
  'completed tuner is refused without touching the experiment. (Voltages changed by hand are announced by a restart.)',
  ['histories', 'inputs'],
  'For every sequence (to a bounded length) of steps, restarts, target changes and manual voltage changes, for 1 to 4 groups and every pattern '
  'of tuned/untuned answers of the groups.',
  'No existing test drives the tuning loop at all; the answer patterns x operation histories form a tree that '
  'samples do not cover.',
  ['qtune/autotuner.py'],
  [('step dispatch (apply / evaluate / suggest)', 'qtune/autotuner.py:Autotuner.iterate'),
   ('index reset on voltage change, restart, target change', 'qtune/autotuner.py:Autotuner.restart, change_targets'),
   ('set of tuned parameters below', 'qtune/autotuner.py:Autotuner.tuned_parameters')],
  [('tuner position', 'group under consideration', 'Autotuner.current_tuner_index'),
   ('evaluated flag', 'current group was evaluated and found untuned', 'Autotuner.current_tuner_status'),
   ('pending voltages', 'voltages applied by the next step', 'Autotuner.voltages_to_set')],
  ['calls arriving at the parameter groups and at the experiment', 'reported position/status/completion'])

p('C02', 'A failing experiment call leaves the tuning run retryable',
  'If a read, a measurement or a voltage write of the experiment fails during a tuning step, the failure reaches the '
  'caller and no parameter value, gradient information, tuned-point record or position in the hierarchy is changed by the failed step (only a sensing-dot group whose expensive scan fails may have recorded the cheap values it just measured). '
  'Repeating the step once the experiment works again gives the same voltages, verdicts and reported values as a run in which '
  'nothing failed.',
  ['fault_sequences', 'histories'],
  'For every single experiment call (and every pair of calls) of a tuning run as the failing one, for all shipped '
  'combinations of tuner, solver and gradient estimator.',
  'Existing tests never let the experiment fail; the guarantee quantifies over each call site of each history.',
  ['qtune/autotuner.py', 'qtune/parameter_tuner.py', 'qtune/evaluator.py'],
  [('state is written after the experiment call succeeded', 'qtune/autotuner.py:Autotuner.iterate'),
   ('evaluation before book keeping', 'qtune/parameter_tuner.py:SubsetTuner.is_tuned, SensingDotTuner.is_tuned')],
  observe=['experiment call log', 'reported values, gradients, voltages'])

p('C03', 'Only the requested, finite voltages are applied, and only once',
  'The voltages sent to the experiment are exactly the pending ones, sent in one call and one time; a pending set that contains an '
  'undefined (NaN) voltage is refused on every attempt and never reaches the experiment. A group of parameters tuned '
  'with a subset of gates never changes any other gate (except when walking back from a failed evaluation), and computing or refusing voltages never moves a gate. A set-up in which '
  'the pending or last voltages, an optimizer or a gradient estimator names a gate unknown to the experiment is refused before anything is measured or moved.',
  ['inputs', 'histories', 'configurations'],
  'For every subset of gates holding NaN, every subset of gates owned by each of up to three groups, every placement of '
  'a misnamed gate in the set-up, and all step histories up to the bound.',
  'Tests never run the apply path with an experiment; the guarantee ranges over subsets and histories.',
  ['qtune/autotuner.py', 'qtune/parameter_tuner.py', 'qtune/solver.py'],
  [('NaN guard and single write', 'qtune/autotuner.py:Autotuner.iterate'),
   ('naming check', 'qtune/autotuner.py:Autotuner.ready_to_tune'),
   ('only tunable gates are replaced', 'qtune/parameter_tuner.py:SubsetTuner.get_next_voltages')],
  observe=['voltage writes arriving at the experiment'])

p('C04', 'Voltage steps respect the size limit and large moves are re-evaluated',
  'No proposed voltage change of a gate-subset group is longer (Euclidean norm) than the configured maximal step size, except when recovering '
  'from a failed evaluation; a larger move is shortened along its direction, a smaller one is proposed unchanged. '
  'Between two evaluations of the group at most the configured number of steps is taken. After a shortened step the evaluation is skipped exactly while '
  'the remaining move is longer than one step and fewer than that many steps were taken since the last evaluation (a move that is an exact multiple '
  'of the step may be evaluated one step earlier).',
  ['inputs', 'histories', 'configurations'],
  'For every combination of required move (length in halves of the limit, several directions), size limit, step-count limit, other gates '
  'present, and changes of the required move during slicing, over complete slicing histories.',
  'One existing test covers one move with one limit; the counter arithmetic has boundaries (exact multiples, counter '
  'exhaustion, shrinking moves) that must all be right.',
  ['qtune/parameter_tuner.py'],
  [('slicing', 'qtune/parameter_tuner.py:SubsetTuner.get_next_voltages'),
   ('skipping evaluation while steps are queued', 'qtune/parameter_tuner.py:SubsetTuner.is_tuned')],
  [('queued steps', 'steps still to be taken before the next evaluation', 'SubsetTuner')],
  ['proposed voltages', 'evaluations performed'])

p('C05', 'A failed evaluation walks back half-way to the last good voltages',
  'If an evaluation after the first one yields an undefined value for a relevant parameter (gate-subset group: one with desired value and tolerance; '
  'sensing dot: a cheaply measured one), the point is not reported as tuned, is not '
  'used for gradients or the position of the optimizer, and the next voltages are exactly half-way between the failing '
  'point and the most recent point that could be evaluated (for the sensing dot: the most recent tuned point), repeatedly until an evaluation succeeds, after which normal tuning '
  'resumes. Undefined values of parameters without any target do not trigger this.',
  ['histories', 'inputs', 'configurations'],
  'For every success/failure pattern up to a bounded length, every choice of failing parameters, with and without slicing, and '
  'for both kinds of tuners.',
  'One (unstable) test covers one failure; consecutive failures and interactions with slicing and reload are not reached.',
  ['qtune/parameter_tuner.py', 'qtune/solver.py'],
  [('failure flag and evaluatable points', 'qtune/parameter_tuner.py:SubsetTuner.is_tuned/get_next_voltages'),
   ('sensing dot recovery', 'qtune/parameter_tuner.py:SensingDotTuner.is_tuned/get_next_voltages')],
  observe=['next voltages', 'tuned flag', 'last reported values'])

p('C06', 'A group counts as tuned exactly when all targets are met',
  'A gate-subset group is reported tuned exactly when every parameter with a desired value and a tolerance lies strictly within that '
  'tolerance of the desired value after division by its rescaling factor; parameters without tolerance or desired value never '
  'block. Values and variances reported for the group are the rescaled ones (variance by the squared factor), '
  'matched by parameter name whatever order evaluators deliver them in, and a tuned verdict records the voltages of the evaluation.',
  ['inputs', 'configurations'],
  'For every combination, per parameter, of distance to the target (below, at, above tolerance, either side), tolerance presence, desired '
  'presence, rescaling factor, evaluator grouping and parameter order, for up to 3 parameters.',
  'Tests check two single examples; sign, boundary, alignment and rescaling interact over the full product.',
  ['qtune/parameter_tuner.py', 'qtune/solver.py'],
  [('tolerance comparison', 'qtune/parameter_tuner.py:SubsetTuner.is_tuned'),
   ('rescaling', 'qtune/solver.py:Solver.rescale_values'), ('target normal form', 'qtune/solver.py:make_target')],
  observe=['verdict', 'last parameters and variances', 'tuned voltages'])

p('C07', 'Resuming from any checkpoint continues the run identically',
  'After every step a checkpoint is written; a tuner loaded from any of them and attached to an experiment in the same condition continues with the same '
  'measurements, verdicts, reported values, gradients and voltages as the run that was never interrupted, also when it is interrupted again. '
  'Checkpoints have distinct names that sort in the order of writing, and a checkpoint once '
  'written is never altered or overwritten by later steps, also not by those of a resumed run.',
  ['crash_points', 'histories', 'configurations'],
  'For every step of bounded runs as interruption point (and pairs of interruption points), for all shipped combinations of tuner, solver '
  'and gradient estimator, including runs with failed evaluations, sliced steps and target changes.',
  'No test loads a checkpoint of a tuner; equality must hold from every intermediate state, where different pieces of '
  'hidden state matter.',
  ['qtune/autotuner.py', 'qtune/parameter_tuner.py', 'qtune/solver.py', 'qtune/gradient.py', 'qtune/kalman_gradient.py',
   'qtune/storage.py', 'qtune/evaluator.py', 'qtune/util.py'],
  [('constructor arguments written per class', 'to_hdf5 of every serializable class'),
   ('checkpoint per step', 'qtune/autotuner.py:Autotuner.save_current_status'),
   ('reload', 'qtune/autotuner.py:load_auto_tuner')],
  observe=['experiment call log of resumed and uninterrupted run', 'bytes of checkpoint files'])

p('C08', 'Saved objects load back equal, with the same sharing',
  'Every supported value - numbers, text, None, arrays, labelled series and tables, lists, tuples, string-keyed dicts, '
  'shipped serializable objects and arbitrarily nested combinations - loads back equal in value, kind and '
  'labels (numbers may come back as NumPy scalars), and a container, series, table or object referenced from several places is loaded as one shared object while distinct '
  'objects stay distinct. A value that cannot be saved is rejected with an error rather than silently dropped or changed, and '
  'declared external objects are replaced by the ones given at load time.',
  ['inputs', 'programs'],
  'For every value tree up to a bounded size over an alphabet covering each supported type, every sharing pattern between slots, and temporaries produced '
  'while saving.',
  'Tests cover six fixed examples (one fails already); sharing and aliasing depend on the combination of types and positions.',
  ['qtune/storage.py'],
  [('recursive writer with identity table', 'qtune/storage.py:_to_hdf5'),
   ('recursive reader with object table', 'qtune/storage.py:_from_hdf5'),
   ('class registry', 'qtune/storage.py:HDF5Serializable')],
  observe=['loaded object graph'])

p('C09', 'The background writer stores what was handed over and always stops',
  'Whatever the interleaving of caller and background thread, each accepted object is written exactly once, in the '
  'order of submission, with the content it had when it was handed over, even if the caller changes it right after; when '
  'waiting for the writer returns, everything accepted has been written or the failure of a write was reported. '
  'Waiting, restarting and disposing always terminate, also if a write failed or the writer already stopped, and an object handed to a stopped writer is '
  'refused with an error.',
  ['schedules', 'fault_sequences'],
  'For every interleaving up to a preemption bound at statement granularity of short caller scripts (write, mutate, wait, restart, dispose) with '
  'every position of a failing write.',
  'No test touches the writer; races and hangs appear only under particular schedules.',
  ['qtune/storage.py'],
  [('snapshot by deep copy', 'qtune/storage.py:AsynchronousHDF5Writer.write'),
   ('queue and worker', 'qtune/storage.py:_writer_target'), ('stop protocol', 'qtune/storage.py:AsynchronousHDF5Writer.join/restart')],
  observe=['sequence of stored contents', 'termination of calls'])

p('C10', 'A history loaded from disk equals the history recorded live',
  'Feeding the running tuner to the history after each step and loading the directory of the checkpoints of the same '
  'run give the same table of voltages, parameters, variances, gradients and covariances, row by row, the same raw measurement data and reload paths. The reload path of a row is the last checkpoint saved there. Rows are in chronological order, there is '
  'one row per visited voltage point, and adding a checkpoint file by file gives the same as loading the directory.',
  ['histories', 'schedules', 'configurations'],
  'For every tuning history up to the bound over the shipped tuner/solver/estimator set-ups and every completion order of the parallel file '
  'loading.',
  'No test constructs a history.',
  ['qtune/history.py', 'qtune/storage.py'],
  [('append of a tuner state', 'qtune/history.py:History.append_autotuner'),
   ('directory load', 'qtune/history.py:History.load_directory'),
   ('ordered parallel read', 'qtune/storage.py:ParallelHDF5Reader')],
  observe=['history accessors'])

p('C11', 'History rows attribute every value to the right voltages and name',
  'In every row of the history the parameter values, variances and raw data are those measured at the voltages of that '
  'row, the gradients and covariances are the ones held after evaluation at these voltages, and what was not evaluated there is undefined. Queries for a parameter, gate or '
  'gradient return exactly the entries of that name - no entry of a similarly named one, in the right row, the standard deviation being the root of '
  'the variance and covariances keeping both gate names. (For a history recorded from the start of the run.)',
  ['histories', 'inputs', 'configurations'],
  'For every answer pattern of a hierarchy of up to three groups over a bounded history and for adversarial parameter and gate names '
  '(prefixes, suffixes, blanks, special characters).',
  'No test constructs a history; mis-attribution needs particular verdict/voltage sequences or names.',
  ['qtune/history.py'],
  [('which groups are new in this row', 'qtune/history.py:History.append_autotuner'),
   ('name patterns', 'qtune/history.py:History.get_gradients/get_gradient_covariances/get_gradient_variances')],
  observe=['history accessors compared with the measurement log'])

p('C12', 'Finite-difference gradients are exact for linear response',
  'Following the measurement requests from any start point, a finite-difference estimator over the gates of its optimizer asks for linearly '
  'independent displacements of the configured size, needs exactly N+1 (one-sided) or 2N (symmetric, pairs mirrored about the '
  'centre) measurements for N gates, and then yields the exact gradient of any affine function, labelled by gate, '
  'with the propagated covariance of the measurement variances; repeating the last measurement (or, two-sided, between pairs, the one at the centre or any earlier one; one-sided, any earlier one) changes nothing. Afterwards it requests nothing and keeps the estimate.',
  ['inputs', 'configurations'],
  'For every gradient with entries in a small integer range, N up to 3 (4 in depth), both modes, all gate orders, step sizes per gate, start points known or '
  'learnt, with variances distinct per measurement.',
  'Tests sample a handful of random functions with a loose tolerance.',
  ['qtune/gradient.py', 'qtune/util.py'],
  [('request generation', 'qtune/gradient.py:FiniteDifferencesGradientEstimator.require_measurement'),
   ('gradient from differences', 'qtune/util.py:calculate_gradient_non_orthogonal'),
   ('orthogonal directions', 'qtune/util.py:get_orthogonal_vector')],
  observe=['requested positions', 'estimate', 'covariance'])

p('C13', 'The Kalman gradient equals the exact Bayesian estimate',
  'After any sequence of measurements the tracked gradient and covariance equal those of the linear Gaussian posterior computed '
  'from the voltage and value differences between consecutive base points, with the configured noise, process noise and fading factor. The covariance stays symmetric positive '
  'semidefinite, does not grow in any direction without process noise or fading, and without dynamics the order of independent measurements is irrelevant; repeated measurements at the '
  'same voltages leave it unchanged.',
  ['histories', 'inputs'],
  'For every measurement sequence up to length 4 over a small grid of displacements, values and variances, 1 to 3 gates, shuffled '
  'gate order, with trial measurements that do not move the base point.',
  'Tests check convergence of random samples within a tolerance.',
  ['qtune/gradient.py', 'qtune/kalman_gradient.py'],
  [('measurement update', 'qtune/kalman_gradient.py:KalmanGradient.update'),
   ('difference to the base point', 'qtune/gradient.py:KalmanGradientEstimator.update')],
  observe=['estimate', 'covariance'])

p('C14', 'Extra gradient measurements are requested exactly where uncertain',
  'A Kalman estimator requests a measurement exactly when its uncertainty restricted to the relevant gates exceeds the '
  'allowed covariance in some principal direction; the request displaces the current position by the configured step '
  'along the worst such direction and leaves other gates alone. If gradients of already tuned parameters are known only directions that leave them '
  'unchanged are considered and requested, and repeatedly measuring at the requested points ends the requests after '
  'finitely many measurements.',
  ['inputs', 'histories', 'configurations'],
  'For every covariance on a grid of 2- and 3-gate covariances, allowed covariance at, below and above the largest uncertainty, gate '
  'subsets, and every small integer gradient of tuned parameters.',
  'Tests check two fixed covariances.',
  ['qtune/gradient.py', 'qtune/solver.py'],
  [('threshold on principal directions', 'qtune/gradient.py:KalmanGradientEstimator.require_measurement'),
   ('who asks, with which constraint', 'qtune/solver.py:NewtonSolver.suggest_next_position')],
  observe=['requested positions'])

p('C15', 'The Newton step solves the linearised problem with the smallest move',
  'With all gradients available the proposed position makes the linear model reach every desired value that can be reached (least squares otherwise), '
  'is the smallest such move, and keeps parameters without desired value unchanged to first order. '
  'Values, variances, gradients and positions are matched by name: permuting parameters or gates, or adding '
  'unrelated entries, permutes the result and changes nothing else, and only estimators of parameters with a desired value are updated or asked for measurements.',
  ['inputs', 'configurations'],
  'For every small integer Jacobian (1x1 to 2x3, singular ones included), targets with and without NaN, all permutations of '
  'parameter and gate order.',
  'Tests check one fixed Jacobian.',
  ['qtune/solver.py'],
  [('least-squares step', 'qtune/solver.py:NewtonSolver.suggest_next_position'),
   ('update by name', 'qtune/solver.py:NewtonSolver.update_after_step')],
  observe=['proposed position', 'updates arriving at the estimators'])

p('C16', 'Restart and new targets bring every component to the same point',
  'After a restart every component holds the present voltages of the experiment for its gates, forgets pending voltages, '
  'pending verdicts and queued partial steps, keeps learned gradients and earlier records of tuned points unaltered, and continues at the lowest group with a fresh '
  'evaluation; values measured before are not combined with later ones. After a target change exactly the named entries of the targets of the addressed groups change, nothing measured or '
  'learned about gradients is lost, and tuning continues at the lowest group.',
  ['histories', 'inputs', 'configurations'],
  'For every position in a tuning run at which restart or target change is called, voltages moved or not, all shipped '
  'tuner/solver/estimator set-ups and every subset of target entries.',
  'No test calls either operation.',
  ['qtune/autotuner.py', 'qtune/parameter_tuner.py', 'qtune/solver.py', 'qtune/gradient.py'],
  [('restart cascade', 'Autotuner.restart, ParameterTuner.restart, NewtonSolver.restart, GradientEstimator.restart'),
   ('target change', 'Autotuner.change_targets, Solver.target')],
  observe=['positions reported by the components', 'next experiment calls'])

p('C17', 'The control window obeys start, step, pause and close',
  'Whatever the timing of the user, each single-step request made while idle runs exactly one tuning step and there are never more steps than requests, continuous running steps until '
  'paused, complete or failed, at most one tuning step is in progress at any time, and every finished step is in the history before the next begins. After pausing '
  'at most one step that was already due begins, after closing none; closing always terminates, and a step that raises is logged and does not leave the '
  'window unable to be started again.',
  ['schedules', 'fault_sequences'],
  'For every interleaving up to a preemption bound of user event sequences with the worker thread, tuning steps that succeed, complete or '
  'raise.',
  'The window is not imported by any test.',
  ['qtune/gui.py'],
  [('worker loop', 'qtune/gui.py:GUI._work'), ('user commands', 'qtune/gui.py:GUI.start/step/pause/close')],
  observe=['steps executed on the tuner', 'history appends', 'termination'])

p('C18', 'Evaluators restore the gates and label results as declared',
  'An evaluator leaves all gate voltages as it found them, also if a measurement fails half-way; it performs exactly its configured measurements in '
  'order, with the sweep centred and shifted as configured, and returns one value and one variance for each declared parameter under '
  'its declared name (lead tunnel times: the standard names), keeping the positions and the data of the scan as raw data. Data that cannot be evaluated (not finite, of too many dimensions for the tunnel '
  'coupling, or whose fit fails) give undefined values rather than an exception or stale results, and averaging repeats '
  'exactly the configured number of times, ignoring failed repetitions and returning the mean and the variance of the mean.',
  ['inputs', 'fault_sequences', 'configurations'],
  'For every evaluator, every failing measurement position, gate/measurement configurations (orders, ranges, widths), synthetic data with features at '
  'every grid position, and every pattern of failed repetitions.',
  'No test exercises an evaluator of the package.',
  ['qtune/evaluator.py', 'qtune/util.py'],
  [('shift and restore', 'qtune/evaluator.py:LeadTransition.evaluate'),
   ('fit failure handling', 'qtune/evaluator.py:InterDotTCByLineScan.evaluate, NewLoadTime.evaluate'),
   ('averaging', 'qtune/evaluator.py:AveragingEvaluator.evaluate')],
  observe=['experiment call log', 'returned values'])

p('C19', 'The sensing-dot group escalates to expensive scans only when needed',
  'The sensing-dot group is tuned exactly when no cheaply measured value is at or below its minimum; it runs the expensive '
  'evaluation exactly when it is untuned and some cheaply measured value is at or below its cost threshold. The next voltages are then the measured positions of '
  'the most recent evaluation in original (unscaled) units for the gates they are assigned to, all other gates of the group keeping their present voltage.',
  ['inputs', 'histories', 'configurations'],
  'For every pattern of values below/at/above minimum and cost threshold over up to two signals, rescaling factors, assignments of '
  'values to gates, and bounded sequences of evaluations.',
  'Tests cover two or three fixed examples of one evaluation each.',
  ['qtune/parameter_tuner.py', 'qtune/solver.py'],
  [('decision', 'qtune/parameter_tuner.py:SensingDotTuner.is_tuned'),
   ('forwarding', 'qtune/solver.py:ForwardingSolver')],
  observe=['evaluations performed', 'verdict', 'next voltages'])

p('C20', 'Linear systems are tuned within the predicted number of steps',
  'For a noiseless experiment with linear response and reachable targets the whole loop - hierarchy, gradient '
  'estimation, Newton steps, slicing - reports completion after a number of steps bounded by gradient measurements plus slices, with all '
  'parameters really within tolerance at the final voltages, and targets of lower groups still met.',
  ['inputs', 'configurations'],
  'For every small integer response matrix in block-triangular form with invertible blocks, start offsets on a grid, all '
  'estimator kinds and step limits.',
  'No test runs the complete loop.',
  ['qtune/autotuner.py', 'qtune/parameter_tuner.py', 'qtune/solver.py', 'qtune/gradient.py'],
  [('whole loop', 'qtune/autotuner.py:Autotuner.iterate')],
  observe=['experiment voltages', 'completion flag'])

p('C21', 'The simplex optimizer makes valid Nelder-Mead moves',
  'Driven with any values of pairwise distinct cost, the simplex optimizer first builds a full-dimensional simplex and then in each move proposes the '
  'reflected, expanded, contracted or shrunk point that the Nelder-Mead rules (coefficients 1, 2, 1/2, 1/2) prescribe for the costs seen, never '
  'discards the best known point, and can be saved and reloaded at any moment without changing its next proposals.',
  ['inputs', 'histories'],
  'For every order pattern of the costs over bounded histories in one and two dimensions.',
  'The simplex optimizer has no test.',
  ['qtune/solver.py'],
  [('state machine', 'qtune/solver.py:NelderMeadSolver.suggest_next_position/update_after_step')],
  observe=['proposed positions', 'simplex'])

p('C22', 'Parallel reading keeps the requested order',
  'Reading many saved files in parallel yields their contents in the order the files were requested, whatever order the '
  'reads finish in and however many workers there are; a file that cannot be read raises its error at its position and '
  'every result equals reading that file alone.',
  ['schedules', 'fault_sequences'],
  'For every completion order of up to four files, one to four workers and every failing position.',
  'No test uses the parallel reader.',
  ['qtune/storage.py'],
  [('ordered map over an executor', 'qtune/storage.py:ParallelHDF5Reader.read_iter')],
  observe=['sequence yielded'])

p('C23', 'The simulated experiment behaves like the real interface',
  'The simulated experiment lists its gates and measurements, reports exactly the voltages last set for each gate, changes only the gates named in a write, never lets a caller alter '
  'its voltages through a value it returned or received, and runs for each known measurement the simulation assigned to it at '
  'the present voltages; unknown measurements are rejected.',
  ['histories', 'inputs'],
  'For every sequence up to a bounded length of reads, writes to every subset of gates, caller-side mutations and measurements.',
  'Tests only use it as a fixture, never check it.',
  ['qtune/basic_dqd.py', 'qtune/experiment.py'],
  [('read/set/measure', 'qtune/basic_dqd.py:TestExperiment')],
  observe=['values returned by the experiment'])

p('C24', 'The MATLAB bridge reads and writes gates in the right order',
  'Voltages exchanged with the MATLAB special-measure session are converted in unit, order and name without loss: a write hands over, in one call, the voltage of every gate, the named ones replaced, and returns what was '
  'actually set. Each measurement calls the MATLAB function of its name with exactly its own options, and its result stays readable. Indices and slices (also negative ones) select in MATLAB the elements which they select in Python; fields, '
  'cells and arrays are read and written element by element. The evaluators of MATLAB results assign them to the declared parameters in order, undefined outside of their limits. A failed MATLAB call is reported '
  'and sets nothing; a session is connected to once, prepared by the setup script only if necessary, and finds the MATLAB files of qtune.',
  ['inputs', 'configurations', 'fault_sequences'],
  'For every gate order and subset of gates written, every index within the range, every subset of options of every measurement, every failing call and every state of the session.',
  'Needs the MATLAB engine, which is not available here; no test imports these modules.',
  ['qtune/mat2py.py', 'qtune/sm.py', 'qtune/sm_tune_qqd.py'],
  [('index translation', 'qtune/mat2py.py:transform_index'), ('views and calls', 'qtune/mat2py.py:make_view/MATLABFunctionView'), ('session and conversion', 'qtune/sm.py:SpecialMeasureMatlab'),
   ('experiments', 'qtune/sm.py:LegacyDQDRefactored, qtune/sm_tune_qqd.py:SMTuneQQD'), ('evaluators', 'qtune/sm_tune_qqd.py')],
  observe=['calls arriving at the MATLAB engine', 'values returned by the bridge'])

p('C25', 'Reloading an earlier state does exactly what the window shows',
  'The reload window always shows the number of the recorded row it would reload, which exists (numbers out of range are clamped, other text counts as 0). Reloading voltages sets exactly the voltages recorded in '
  'that row, in one call, and restarts the tuner that is in use; reloading the entire state replaces the tuner in use by the one stored for that row, working with the same experiment, restarted at the present voltages, '
  'without moving a gate, and the following steps run on it and go into the history. Without tuner nothing happens; if the stored state cannot be read the tuner in use stays. '
  'This holds for any number of reload windows open at the same time.',
  ['histories', 'configurations', 'fault_sequences'],
  'For every bounded sequence of steps, manual changes, choices of rows, reloads through one or two windows, damaged files and closed windows, while the tuning is paused.',
  'The windows have no tests.',
  ['qtune/gui.py', 'qtune/history.py', 'qtune/autotuner.py', 'qtune/storage.py'],
  [('reload of voltages and state', 'qtune/gui.py:ReloadWidget'),
   ('exchange of the tuner', 'qtune/gui.py:GUI.load_auto_tuner_from_reload_widget'),
   ('stored files of the rows', 'qtune/history.py:History.get_reload_path'),
   ('loading', 'qtune/autotuner.py:load_auto_tuner')],
  observe=['shown row number', 'calls arriving at the experiment', 'reported state of the tuner in use'])

p('C26', 'Plots show exactly the recorded entries',
  'History.plot_tuning shows for each requested gate, parameter and gradient one curve (labelled with its name), through exactly the recorded values of all rows in which there is one, with the recorded standard '
  'deviations as error bars if they are requested, and nothing else, for any selection in any order; plotting does not change the history. The parameter and gradient windows show this for all entries, '
  'from the moment they are opened and after each step. The real time plot shows at any time exactly the curves, error bars and legend entries which are selected, with the present data; selecting a '
  'gradient selects all of its components; all gates, parameters and measured gradients can be selected. The raw data window shows the recorded scan of the chosen evaluator in the row whose number is shown, '
  'with the fit or the positions recorded for this row (or an empty plot if there are none); plot_evaluator_data does the same for lists of evaluators and ranges of rows. No plot of recorded entries fails.',
  ['histories', 'configurations', 'inputs'],
  'For every hierarchy of the shipped tuners, every length of the history, every combination of modes and selections, and every bounded sequence of opened and closed windows, selections and steps. Raw data for the shipped '
  'evaluators with the names known to the plots.',
  'Plots and windows have no tests.',
  ['qtune/history.py', 'qtune/gui.py', 'qtune/util.py'],
  [('plots of the history', 'qtune/history.py:History.plot_tuning'), ('raw data', 'qtune/history.py:History.plot_evaluator_data'),
   ('real time plot', 'qtune/gui.py:PlotOrganizer.refresh'), ('windows', 'qtune/gui.py:QTuneMatplotWidget')])

p('C27', 'The tuner works with the voltages that were really applied',
  'Whatever the hardware does with a requested voltage (finite resolution, limits, offsets, dead band, crosstalk, a hand on the knob between two steps), '
  'everything the tuner records and computes with refers to the voltages the measurements really took place at: last and tuned voltages, the positions of the '
  'optimizers, the points used for gradients and simplex, and the rows of the history. Proposed moves start at the true voltages, gates which are not owned are requested as they really are, '
  'steps are limited relative to the true voltages, and linear systems still get tuned.',
  ['configurations', 'histories', 'fault_sequences'],
  'For every shipped combination of tuner, solver and gradient estimator, every kind of hardware behaviour, and a manual change of every gate after every step of a run.',
  'Tests use a simulated experiment that applies exactly what it is asked for.',
  ['qtune/autotuner.py', 'qtune/parameter_tuner.py', 'qtune/solver.py', 'qtune/gradient.py', 'qtune/history.py'],
  [('voltages are read before every evaluation and request', 'qtune/autotuner.py:Autotuner.iterate'),
   ('positions handed to optimizer and estimators', 'qtune/parameter_tuner.py:SubsetTuner.is_tuned, get_next_voltages')],
  [('last voltages', 'where the last evaluation took place', 'ParameterTuner._last_voltage')],
  observe=['last_voltages, tuned_voltages, optimizer positions', 'requested voltages', 'history'])

p('C28', 'Groups sharing gates do not detune each other',
  'Groups of parameters tuned one after another with the same gates, their Newton optimizers sharing all Kalman gradient estimators (the documented set-up), work together: gradient measurements for a higher group '
  'leave the parameters of tuned lower groups unchanged and are made until the uncertainty in the remaining directions is small; the moves of a group change its own parameters to their '
  'targets and no parameter of the other groups; a linear system is tuned within the predicted number of moves, also again after a drift of the device.',
  ['inputs', 'configurations', 'histories'],
  'For every small integer response matrix with independent rows, every division of 2 or 3 parameters into groups, prior knowledge of the gradients, step limit, start point, parameter and gate order.',
  'No test combines two groups with the same gates.',
  ['qtune/parameter_tuner.py', 'qtune/solver.py', 'qtune/gradient.py', 'qtune/kalman_gradient.py', 'qtune/autotuner.py'],
  [('tuned parameters are handed to the optimizer', 'qtune/autotuner.py:Autotuner.iterate'),
   ('measurements in the null space of the tuned gradients', 'qtune/gradient.py:KalmanGradientEstimator.require_measurement'),
   ('parameters without own target are kept', 'qtune/solver.py:NewtonSolver.suggest_next_position')],
  observe=['requested voltages', 'real values of the parameters', 'completion'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P), 'properties')

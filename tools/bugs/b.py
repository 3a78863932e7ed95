BUGS = [
dict(id='C01-only-next-below', property='C01', file='qtune/autotuner.py', edits=[("for i in range(0, self.current_tuner_index):", "for i in range(max(0, self.current_tuner_index - 1), self.current_tuner_index):")],
 needs='three groups, the highest of which asks for voltages',
 breaks='the request of the third group no longer names the parameters of the lowest group as tuned',
 demo="""
from lab import *
lab = Lab(dict(a=0., b=0., c=0.), dict(p=lambda v: v['a'], q=lambda v: v['b'], r=lambda v: v['c']))
groups = [group(lab, [n], [g], {n: {g: 1.}}, {n: d}) for n, g, d in (('p', 'a', 0.), ('q', 'b', 0.), ('r', 'c', 1.))]
names = []
original = groups[2].get_next_voltages
groups[2].get_next_voltages = lambda tuned_parameters=None: (names.append(set(tuned_parameters)), original(tuned_parameters))[1]
tuner = Autotuner(lab, groups)
for _ in range(4):
    tuner.iterate()
assert names == [{'p', 'q'}], names
"""),
dict(id='C02-verdict-first', property='C02', file='qtune/autotuner.py', edits=[("""            if self.get_current_tuner().is_tuned(self._experiment.read_gate_voltages()):
                self._current_tuner_index += 1
""", """            self._current_tuner_status = True
            if self.get_current_tuner().is_tuned(self._experiment.read_gate_voltages()):
                self._current_tuner_status = False
                self._current_tuner_index += 1
""")],
 needs='a measurement that raises, followed by another step',
 breaks='after a failed evaluation the group counts as untuned and is asked for voltages although nothing was measured',
 demo="""
from lab import *
lab = Lab(dict(a=0.), dict(p=lambda v: v['a']))
tuner = Autotuner(lab, [group(lab, ['p'], ['a'], dict(p=dict(a=1)), dict(p=1.))])
lab.fail = True
try:
    tuner.iterate()
    assert False
except RuntimeError:
    pass
lab.fail = False
del lab.log[:]
tuner.iterate()
assert lab.log == [('measure', 'p')], lab.log
"""),
dict(id='C03-partly-undefined', property='C03', file='qtune/autotuner.py', edits=[("self.voltages_to_set.isna().any()", "self.voltages_to_set.isna().all()")],
 needs='pending voltages of which some, but not all, are undefined',
 breaks='an undefined voltage is sent to the experiment',
 demo="""
from lab import *
lab = Lab(dict(a=0., b=0.), dict(p=lambda v: v['a']))
tuner = Autotuner(lab, [group(lab, ['p'], ['a'], dict(p=dict(a=1)), dict(p=1.))], voltage_to_set=pd.Series(dict(a=1., b=np.nan)))
try:
    tuner.iterate()
    assert False
except RuntimeError:
    pass
assert lab.log == [], lab.log
"""),
dict(id='C03-estimator-gates', property='C03', file='qtune/autotuner.py', edits=[("                        if not set(gradient_estimator.current_position.index).issubset(all_gates):", "                        if not set(gradient_estimator.current_position.index) & all_gates:")],
 needs='a gradient estimator that knows the right gates and, in addition, a misspelt one',
 breaks='a set-up with a gate the experiment does not know is accepted',
 demo="""
from lab import *
lab = Lab(dict(a=0.), dict(p=lambda v: v['a']))
position = pd.Series(dict(a=0.))
target = make_target(desired=pd.Series(dict(p=1.)), tolerance=pd.Series(dict(p=.1)))
solver = NewtonSolver(target, [kalman(dict(a=0., A=0.), dict(a=1., A=0.))], position)
tuner = Autotuner(lab, [SubsetTuner([evaluator(lab, 'p')], ['a'], solver=solver, last_voltage=lab.read_gate_voltages())])
try:
    tuner.iterate()
    assert False
except RuntimeError:
    pass
assert lab.log == [], lab.log
"""),
dict(id='C05-dot-first-point', property='C05', file='qtune/parameter_tuner.py', edits=[("return 0.5 * (self.tuned_voltages[-1] + self._last_voltage)", "return 0.5 * (self.tuned_voltages[0] + self._last_voltage)")],
 needs='a sensing-dot group tuned at two different points before a failing evaluation',
 breaks='the sensing dot walks back towards the first tuned point instead of the most recent one',
 demo="""
from lab import *
state = dict(s=2.)
lab = Lab(dict(a=0.), dict(signal=lambda v: state['s']))
target = make_target(minimum=pd.Series(dict(signal=1.)), cost_threshold=pd.Series(dict(signal=.5)))
t = SensingDotTuner([evaluator(lab, 'signal')], [evaluator(lab, 'signal')], ['a'], last_voltage=pd.Series(dict(a=0.)),
                    solver=ForwardingSolver(target, pd.Series(dict(signal='a')), pd.Series(dict(a=0.))))
assert t.is_tuned(pd.Series(dict(a=0.)))
assert t.is_tuned(pd.Series(dict(a=4.)))
state['s'] = np.nan
assert not t.is_tuned(pd.Series(dict(a=6.)))
assert t.get_next_voltages()['a'] == 5., t.get_next_voltages()
"""),
dict(id='C06-variance-order', property='C06', file='qtune/parameter_tuner.py', edits=[("            parameters.append(parameter)\n            variances.append(variance)\n        # the", "            parameters.append(parameter)\n            variances.append(pd.Series(np.asarray(variance), index=parameter.index))\n        # the")],
 needs='an evaluator that returns its variances in another order than its values',
 breaks='the variances are attributed to the wrong parameters',
 demo="""
from lab import *
class Other(Ev):
    def evaluate(self):
        return pd.Series(dict(p=1., q=2.)), pd.Series(dict(q=.2, p=.1))
    def to_hdf5(self):
        return super().to_hdf5()
lab = Lab(dict(a=0., b=0.), dict(p=lambda v: 1., q=lambda v: 2.))
t = group(lab, ['p', 'q'], ['a', 'b'], dict(p=dict(a=1, b=0), q=dict(a=0, b=1)), dict(p=0., q=0.))
t._evaluators = (Other(lab, [Measurement('p')], ['p', 'q']),)
t.is_tuned(lab.read_gate_voltages())
assert dict(t.last_parameters_and_variances[1]) == dict(p=.1, q=.2), t.last_parameters_and_variances
"""),
dict(id='C08-eleventh', property='C08', file='qtune/storage.py', edits=[("""            result = deserialized[hdf5_obj.id]

            for idx in range(len(hdf5_obj.keys())):
                result.append(_from_hdf5(root, hdf5_obj[str(idx)], deserialized))
            return result
""", """            result = deserialized[hdf5_obj.id]

            for item in hdf5_obj.values():
                result.append(_from_hdf5(root, item, deserialized))
            return result
""")], also=['C07'],
 needs='a list with more than ten entries',
 breaks='the entries of long lists are loaded in alphabetical order of their numbers (0, 1, 10, 2, ...)',
 demo="""
from lab import *
from qtune.storage import to_hdf5, from_hdf5
path = os.path.join(tempfile.mkdtemp(), 'x.hdf5')
to_hdf5(path, 'x', [float(i) for i in range(12)])
x = from_hdf5(path, {})['x']
assert [float(i) for i in x] == list(range(12)), x
"""),
dict(id='C09-stack', property='C09', file='qtune/storage.py', edits=[("            self.QueueType = queue.Queue\n", "            self.QueueType = queue.LifoQueue\n")],
 needs='a second and third object handed over while the first one is still being written',
 breaks='objects are written in reverse order, and objects handed over before joining are never written',
 demo="""
from lab import *
import time
import qtune.storage as st
original = st.to_hdf5
def slow(*args, **kwargs):
    time.sleep(.5)
    return original(*args, **kwargs)
st.to_hdf5 = slow
d = tempfile.mkdtemp()
w = st.AsynchronousHDF5Writer(reserved={}, multiprocess=False)
for i in range(3):
    w.write([float(i)], os.path.join(d, str(i)), 'x')
w.join()
assert sorted(os.listdir(d)) == ['0', '1', '2'], os.listdir(d)
"""),
dict(id='C09-no-refusal', property='C09', file='qtune/storage.py', edits=[("""        if not self._worker.is_alive():
            raise RuntimeError('Writer already stopped')

        if name""", """        if name""")],
 needs='an object handed to a writer that was stopped (joined, or whose earlier write failed)',
 breaks='the object is accepted and silently lost',
 demo="""
from lab import *
from qtune.storage import AsynchronousHDF5Writer
w = AsynchronousHDF5Writer(reserved={}, multiprocess=False)
w.join()
try:
    w.write([1.], os.path.join(tempfile.mkdtemp(), 'x'), 'x')
    assert False
except RuntimeError:
    pass
os._exit(0)
"""),
dict(id='C10-reload-path', property='C10', file='qtune/history.py', edits=[("""            # stay in the row
            self._paths_for_reload[-1] = path
""", """            # stay in the row
            if self._paths_for_reload[-1] is None:
                self._paths_for_reload[-1] = path
""")], also=['C11'],
 needs='several steps at the same voltages, recorded live, and reloading the state of that row',
 breaks='the reload path of a row is the first checkpoint of that voltage point instead of the latest',
 demo="""
from lab import *
from qtune.history import History
lab = Lab(dict(a=0.), dict(p=lambda v: v['a']))
tuner = Autotuner(lab, [group(lab, ['p'], ['a'], dict(p=dict(a=1)), dict(p=1.))], hdf5_storage_path=tempfile.mkdtemp())
h = History(None, lab)
for _ in range(2):
    tuner.iterate()
    h.append_autotuner(tuner)
tuner.asynchrone_writer.join()
assert h.get_reload_path(0) == tuner.last_save_file, h.get_reload_path(0)
"""),
dict(id='C10-chunk', property='C10', file='qtune/storage.py', edits=[("        yield from self._executor.map(from_hdf5, file_names, itertools.repeat(self.reserved), chunksize=1)", "        yield from self._executor.map(from_hdf5, sorted(file_names, key=os.path.getmtime), itertools.repeat(self.reserved), chunksize=1)"),
                                                                        ("import itertools\n", "import itertools\nimport os\n")], also=['C22'],
 needs='files whose modification times are not in the order of their names (a copied library)',
 breaks='loading a directory attributes contents to the wrong files and rows',
 demo="""
from lab import *
import qtune.storage as st
d = tempfile.mkdtemp()
paths = []
for i in range(3):
    paths.append(os.path.join(d, str(i)))
    st.to_hdf5(paths[-1], 'x', float(i))
    os.utime(paths[-1], (1000 - i, 1000 - i))
with st.ParallelHDF5Reader({}, multiprocess=False) as r:
    got = [float(x['x']) for x in r.read_iter(paths)]
assert got == [0., 1., 2.], got
"""),
dict(id="C11-similar-name", property="C11", file="qtune/history.py", edits=[("""        return self._data_frame[self._parameter_variance_name.format(parameter_name=parameter_name)].apply(np.sqrt)""", """        name = self._parameter_variance_name.format(parameter_name=parameter_name)
        return self._data_frame.filter(like=name).iloc[:, 0].apply(np.sqrt)""")],
 needs='a parameter whose name ends with the name of another one',
 breaks='the standard deviation of a similarly named parameter is returned',
 demo="""
from lab import *
from qtune.history import History
class Other(Ev):
    def evaluate(self):
        return pd.Series(dict(pos=1., a_pos=2.)), pd.Series(dict(pos=.04, a_pos=.09))
    def to_hdf5(self):
        return super().to_hdf5()
lab = Lab(dict(a=0., b=0.), dict(pos=lambda v: v['a'], a_pos=lambda v: v['b']))
t = group(lab, ['a_pos', 'pos'], ['a', 'b'], dict(a_pos=dict(a=1, b=0), pos=dict(a=0, b=1)), dict(a_pos=0., pos=0.))
t._evaluators = (Other(lab, [Measurement('pos')], ['a_pos', 'pos']),)
tuner = Autotuner(lab, [t])
tuner.iterate()
h = History(None, lab)
h.append_autotuner(tuner)
assert abs(h.get_parameter_std('pos').iloc[0] - .2) < 1e-9, h.get_parameter_std('pos')
"""),
dict(id='C11-pending-row', property='C11', file='qtune/history.py', edits=[("""        if autotuner.voltages_to_set is not None or autotuner.current_tuner_status:
            evaluated_tuner_index += 1
""", """        if autotuner.current_tuner_status:
            evaluated_tuner_index += 1
""")],
 needs='a library in which only the checkpoint with pending voltages of a point is present or appended',
 breaks='what was evaluated at a point is missing from its row if the first state appended there has pending voltages',
 demo="""
from lab import *
from qtune.history import History
lab = Lab(dict(a=0.), dict(p=lambda v: v['a']))
tuner = Autotuner(lab, [group(lab, ['p'], ['a'], dict(p=dict(a=1)), dict(p=5.), maximal_step_size=1.)])
h = History(None, lab)
tuner.iterate()
h.append_autotuner(tuner)
for _ in range(4):
    tuner.iterate()
assert tuner.voltages_to_set is not None
h.append_autotuner(tuner)
assert h.get_parameter_values('p').iloc[-1] == 1., h.get_parameter_values('p')
"""),
dict(id='C12-variance-order', property='C12', file='qtune/gradient.py', edits=[("                                                                         variances=variances[::-1])", "                                                                         variances=variances)")],
 needs='one-sided differences whose measurements have different variances',
 breaks='the propagated covariance of the gradient belongs to a permutation of the measurements',
 demo="""
from lab import *
e = FiniteDifferencesGradientEstimator(current_position=pd.Series(dict(a=0., b=0.)), epsilon=1., symmetric=False)
points = []
for v in (1., 2., 4.):
    points.append(e.require_measurement())
    e.update(points[-1], 0., v)
d = np.array([np.append(p, 1.) for p in points])
m = np.linalg.inv(d)[:2]
assert np.allclose(e.covariance(), m @ np.diag([1., 2., 4.]) @ m.T), (e.covariance(), m @ np.diag([1., 2., 4.]) @ m.T)
"""),
dict(id='C14-last-tuned-only', property='C14', file='qtune/solver.py', edits=[("            tuned_jacobian = pd.concat(tuned_gradients, axis=1).T\n", "            tuned_jacobian = tuned_gradients[-1].to_frame().T\n")], also=['C28'],
 needs='two tuned parameters below the group whose gradients are uncertain',
 breaks='the measurements for the next group change one of the two tuned parameters',
 demo="""
from lab import *
target = make_target(desired=pd.Series(dict(p=np.nan, q=np.nan, r=1.)))
position = dict(a=0., b=0., c=0.)
s = NewtonSolver(target, [kalman(position, dict(a=1., b=0., c=0.)), kalman(position, dict(a=0., b=1., c=0.)), kalman(position, dict(a=1., b=1., c=1.), .5)],
                 pd.Series(position), pd.Series(dict(p=0., q=0., r=0.)))
n = s.suggest_next_position({'p', 'q'})
assert abs(n['a']) < 1e-9 and abs(n['b']) < 1e-9 and abs(n['c']) > 1e-3, n
"""),
dict(id='C14-first-parameter-only', property='C14', file='qtune/solver.py', edits=[("""                if suggestion is not None and not suggestion.empty:
                    return suggestion
""", """                if suggestion is not None and not suggestion.empty:
                    return suggestion
                if tuned_jacobian is not None:
                    break
""")], also=['C28'],
 needs='a group of two parameters above tuned ones, the second of which has an uncertain gradient',
 breaks='the gradient of the second parameter is never measured and its guess is used for the move',
 demo="""
from lab import *
target = make_target(desired=pd.Series(dict(p=np.nan, q=1., r=1.)))
position = dict(a=0., b=0., c=0.)
s = NewtonSolver(target, [kalman(position, dict(a=1., b=0., c=0.)), kalman(position, dict(a=0., b=1., c=0.)), kalman(position, dict(a=1., b=1., c=1.), .5)],
                 pd.Series(position), pd.Series(dict(p=0., q=0., r=0.)))
n = s.suggest_next_position({'p'})
assert abs(np.linalg.norm(n) - .1) < 1e-9, n
"""),
dict(id='C15-small-gradients', property='C15', file='qtune/solver.py', edits=[("        rcond = np.finfo(float).eps * max(jacobian.shape)\n", "        rcond = 1e-3\n")], also=['C20'],
 needs='parameters whose gradients differ by more than three orders of magnitude',
 breaks='the direction of the small gradient is dropped and a reachable target is never reached',
 demo="""
from lab import *
target = make_target(desired=pd.Series(dict(p=1., q=1.)))
s = NewtonSolver(target, [kalman(dict(a=0., b=0.), dict(a=1., b=0.)), kalman(dict(a=0., b=0.), dict(a=0., b=1e-4))], pd.Series(dict(a=0., b=0.)), pd.Series(dict(p=0., q=0.)))
n = s.suggest_next_position()
assert abs(n['a'] - 1) < 1e-9 and abs(n['b'] - 1e4) < 1e-5, n
"""),
dict(id='C15-values-by-position', property='C15', file='qtune/solver.py', edits=[("""        self._current_values = values[self._current_values.index]

    def to_hdf5(self):
        return dict(target=self.target,
                    gradient_estimators""", """        self._current_values = pd.Series(values.values[:len(self._current_values)], index=self._current_values.index)

    def to_hdf5(self):
        return dict(target=self.target,
                    gradient_estimators""")],
 needs='values given in another order than the parameters of the target, or with additional entries',
 breaks='the Newton step is computed from the values of other parameters',
 demo="""
from lab import *
target = make_target(desired=pd.Series(dict(p=1., q=2.)))
zero = dict(a=0., b=0.)
s = NewtonSolver(target, [kalman(zero, dict(a=1., b=0.)), kalman(zero, dict(a=0., b=1.))], pd.Series(zero))
s.update_after_step(pd.Series(zero), pd.Series(dict(q=2., p=0.)), pd.Series(dict(q=.1, p=.1)))
n = s.suggest_next_position()
assert abs(n['a'] - 1) < 1e-9 and abs(n['b']) < 1e-9, n
"""),
dict(id='C16-pending-kept', property='C16', file='qtune/autotuner.py', edits=[("""        self._current_tuner_index = 0
        self._current_tuner_status = False
        self._voltages_to_set = None

    def __getstate__""", """        self._current_tuner_index = 0
        self._current_tuner_status = False

    def __getstate__""")],
 needs='a change of the targets while voltages are pending',
 breaks='voltages computed for the old targets are applied after the targets were changed',
 demo="""
from lab import *
lab = Lab(dict(a=0.), dict(p=lambda v: v['a']))
tuner = Autotuner(lab, [group(lab, ['p'], ['a'], dict(p=dict(a=1)), dict(p=1.))])
tuner.iterate()
tuner.iterate()
tuner.change_targets([dict(desired=pd.Series(dict(p=0.)))])
while not tuner.is_tuning_complete():
    tuner.iterate()
assert lab.voltages['a'] == 0. and [w for w, _ in lab.log].count('set') == 0, lab.log
"""),
dict(id='C17-restart-order', property='C17', file='qtune/gui.py', edits=[("""        self._thread = Thread(target=self._work)
        self._continuous = False
        self._stepped = False
        self._stop = False
        self._thread.start()

    def _work""", """        self._thread = Thread(target=self._work)
        self._thread.start()
        self._continuous = False
        self._stepped = False
        self._stop = False

    def _work""")],
 needs='the worker is restarted and the new thread looks at the stop flag before it is cleared',
 breaks='the restarted worker may end at once; the started tuning does nothing',
 demo="""
from lab import *
import threading
import time
gui = gui_module()
class Tuner:
    n = 0
    def is_tuning_complete(self):
        return False
    def iterate(self):
        self.n += 1
class Late(threading.Thread):
    def start(self):
        super().start()
        time.sleep(.3)
tuner = Tuner()
g = gui.GUI(tuner, None)
gui.Thread = Late
g.restart_thread()
g.step()
ok = wait(lambda: tuner.n == 1) and g._thread.is_alive()
g.close()
os._exit(0 if ok else 1)
"""),
dict(id='C17-close-running', property='C17', file='qtune/gui.py', edits=[("""                    except Exception:
                        self.logger.exception('Error during auto tuner iteration: Pausing...')
                        self.pause()
""", """                    except Exception:
                        self.logger.exception('Error during auto tuner iteration: Pausing...')
                        self._continuous = False
""")],
 needs='a step that raises while the tuning runs continuously',
 breaks='after the failure the start button stays disabled, so the tuning cannot be started again',
 demo="""
from lab import *
gui = gui_module()
class Tuner:
    def is_tuning_complete(self):
        return False
    def iterate(self):
        raise RuntimeError('x')
g = gui.GUI(Tuner(), None)
g.start()
wait(lambda: not g._continuous)
ok = wait(g._start_btn.isEnabled, 1.)
g.close()
os._exit(0 if ok else 1)
"""),
dict(id='C18-stale-centre', property='C18', file='qtune/evaluator.py', edits=[("""        sensing_dot_measurement.options["center"] = self.experiment.read_gate_voltages()[gate]
""", """        if sensing_dot_measurement.options.get("center") is None:
            sensing_dot_measurement.options["center"] = self.experiment.read_gate_voltages()[gate]
""")],
 needs='two evaluations of the same sensing-dot evaluator with different gate voltages',
 breaks='the second sweep is centred at the old gate voltage',
 demo="""
from lab import *
from qtune.evaluator import SensingDot1D
seen = []
class Dot(Lab):
    def measure(self, m):
        seen.append(m.options['center'])
        return np.sin(np.linspace(0, 1, 1280))
lab = Dot(dict(SDB2=1.), {})
e = SensingDot1D(lab)
e.evaluate()
lab.voltages['SDB2'] = 2.
e.evaluate()
assert seen == [1., 2.], seen
"""),
dict(id='C18-detune-centre', property='C18', file='qtune/evaluator.py', edits=[("""        self._raw_x_data = np.linspace(self.measurements[0].options['center'] - self.measurements[0].options['range'],
                                       self.measurements[0].options['center'] + self.measurements[0].options['range'],
                                       n_points)""", """        self._raw_x_data = np.linspace(-self.measurements[0].options['range'], self.measurements[0].options['range'],
                                       n_points)""")],
 needs='a detuning scan that is not centred at zero',
 breaks='the positions stored with the scan (and the fitted position) are off by the centre',
 demo="""
from lab import *
from qtune.evaluator import InterDotTCByLineScan
class Scan(Lab):
    def measure(self, m):
        x = np.linspace(-2e-3, 2e-3, 100)
        return np.tanh(x / 2e-4) + .01 * x
lab = Scan(dict(a=1.), {})
e = InterDotTCByLineScan(lab, measurements=(Measurement('detune_scan', center=1e-3, range=2e-3, N_points=100),))
e.evaluate()
assert abs(e.raw_data[0].mean() - 1e-3) < 1e-9, e.raw_data[0].mean()
"""),
dict(id='C19-at-minimum', property='C19', file='qtune/parameter_tuner.py', edits=[("""if current_parameter.le(self.target["minimum"]).any():""", """if current_parameter.lt(self.target["minimum"]).any():""")],
 needs='a signal exactly at its minimum',
 breaks='the sensing dot counts as tuned although a value is at its minimum',
 demo="""
from lab import *
lab = Lab(dict(a=0.), dict(signal=lambda v: 1.))
target = make_target(minimum=pd.Series(dict(signal=1.)), cost_threshold=pd.Series(dict(signal=.5)))
t = SensingDotTuner([evaluator(lab, 'signal')], [evaluator(lab, 'signal')], ['a'], last_voltage=pd.Series(dict(a=0.)),
                    solver=ForwardingSolver(target, pd.Series(dict(signal='a')), pd.Series(dict(a=0.))))
assert not t.is_tuned(pd.Series(dict(a=0.)))
"""),
dict(id='C19-scaled-position', property='C19', file='qtune/parameter_tuner.py', edits=[("""                current_parameter, variances = self.evaluate(cheap=False)
                self.solver.rescale_values(current_parameter, variances)
""", """                current_parameter, variances = self.evaluate(cheap=False)
""")],
 needs='an expensive evaluation of a parameter with a rescaling factor',
 breaks='the position found by the expensive scan is multiplied by the rescaling factor',
 demo="""
from lab import *
lab = Lab(dict(a=0.), dict(signal=lambda v: 0., position=lambda v: 3.))
target = make_target(minimum=pd.Series(dict(signal=1., position=np.nan)), cost_threshold=pd.Series(dict(signal=.5, position=np.nan)),
                     rescaling_factor=pd.Series(dict(signal=1., position=2.)))
t = SensingDotTuner([evaluator(lab, 'signal')], [evaluator(lab, 'position')], ['a'], last_voltage=pd.Series(dict(a=0.)),
                    solver=ForwardingSolver(target, pd.Series(dict(position='a')), pd.Series(dict(a=0.))))
assert not t.is_tuned(pd.Series(dict(a=0.)))
assert t.get_next_voltages()['a'] == 3., t.get_next_voltages()
"""),
dict(id='C21-shrink-saved', property='C21', file='qtune/solver.py', edits=[("""                    shrunk_points=self._shrunk_points,
                    cost_function=self._cost_function,""", """                    cost_function=self._cost_function,""")],
 needs='saving and reloading in the middle of a shrink',
 breaks='the points of the shrink measured before saving are lost and measured again',
 demo="""
from lab import *
from qtune.storage import to_hdf5, from_hdf5
target = make_target(desired=pd.Series(dict(p=0.)))
s = NelderMeadSolver.from_scratch(target, pd.Series(dict(a=1., b=1.)), pd.Series(dict(a=0., b=0.)), pd.Series(dict(p=1.)))
def tell(v):
    p = s.suggest_next_position()
    s.update_after_step(p, pd.Series(dict(p=v)), pd.Series(dict(p=.1)))
for v in (2., 4., 5., 6., 2.5):
    tell(v)
path = os.path.join(tempfile.mkdtemp(), 'x')
to_hdf5(path, 'x', s)
t = from_hdf5(path, {})['x']
assert np.allclose(s.suggest_next_position(), t.suggest_next_position()), (s.suggest_next_position(), t.suggest_next_position())
"""),
dict(id='C21-outside-contraction', property='C21', file='qtune/solver.py', edits=[("            if contraction_cost < reflection_cost:\n", "            if contraction_cost < self.get_costs()[-1]:\n")],
 needs='an outside contraction that is worse than the reflected point but better than the worst one',
 breaks='the contracted point is accepted where the rules prescribe a shrink',
 demo="""
from lab import *
target = make_target(desired=pd.Series(dict(p=0.)))
s = NelderMeadSolver.from_scratch(target, pd.Series(dict(a=1., b=1.)), pd.Series(dict(a=0., b=0.)), pd.Series(dict(p=1.)))
def tell(v):
    p = s.suggest_next_position()
    s.update_after_step(p, pd.Series(dict(p=v)), pd.Series(dict(p=.1)))
    return p
for v in (2., 4.):
    tell(v)
positions = s.get_positions()
tell(3.)
tell(3.5)
n = s.suggest_next_position()
assert np.allclose(n, (positions[0] + positions[1]) / 2), n
"""),
dict(id='C22-workers-ahead', property='C22', file='qtune/storage.py', edits=[("        yield from self._executor.map(from_hdf5, file_names, itertools.repeat(self.reserved), chunksize=1)", """        futures = [self._executor.submit(from_hdf5, file_name, self.reserved) for file_name in file_names]
        yield from (future.result() for future in futures if future.exception() is None)""")],
 needs='a file that cannot be read',
 breaks='an unreadable file is skipped silently and the following contents move to its place',
 demo="""
from lab import *
import qtune.storage as st
d = tempfile.mkdtemp()
paths = [os.path.join(d, str(i)) for i in range(3)]
for i in (0, 2):
    st.to_hdf5(paths[i], 'x', float(i))
open(paths[1], 'w').write('no')
got = []
with st.ParallelHDF5Reader({}, multiprocess=False) as r:
    try:
        for x in r.read_iter(paths):
            got.append(float(x['x']))
        assert False, got
    except OSError:
        pass
assert got == [0.], got
"""),
dict(id='C23-by-name', property='C23', file='qtune/basic_dqd.py', edits=[("        simulator = self.simulator_dict[id(measurement)]\n", """        simulator = next(self.simulator_dict[id(known)] for known in self._measurements
                         if known.name == measurement.name)
""")],
 needs='two measurements of the same name (two line scans) with different simulations',
 breaks='the simulation of another measurement is run',
 demo="""
from lab import *
from qtune.basic_dqd import TestExperiment, Simulator
ms = [Measurement('line_scan', gate='a'), Measurement('line_scan', gate='b')]
e = TestExperiment(pd.Series(dict(a=1., b=2.)), ms, {id(ms[0]): Simulator(lambda v, m, o: 1.), id(ms[1]): Simulator(lambda v, m, o: 2.)})
assert [e.measure(m) for m in ms] == [1., 2.]
"""),
dict(id='C23-own-series', property='C23', file='qtune/basic_dqd.py', edits=[("        return self._gate_voltages.sort_index()\n", """        if self._gate_voltages.index.is_monotonic_increasing:
            return self._gate_voltages
        return self._gate_voltages.sort_index()
""")],
 needs='gates that are already in alphabetical order and a caller that changes the returned voltages',
 breaks='a caller changes the voltages of the experiment through the value it read',
 demo="""
from lab import *
from qtune.basic_dqd import TestExperiment
e = TestExperiment(pd.Series(dict(a=1., b=2.)), [], {})
v = e.read_gate_voltages()
v['a'] = 5.
assert e.read_gate_voltages()['a'] == 1.
"""),
dict(id='C04-rounded-up', property='C04', file='qtune/parameter_tuner.py', edits=[("number_of_steps = int(np.linalg.norm(step) / self._maximal_step_size)", "number_of_steps = int(round(np.linalg.norm(step) / self._maximal_step_size))")],
 needs='a move of one and a half to two maximal steps, with several steps allowed between evaluations',
 breaks='the evaluation is skipped although the remaining move is shorter than one step',
 demo="""
from lab import *
lab = Lab(dict(a=0.), dict(p=lambda v: v['a']))
tuner = Autotuner(lab, [group(lab, ['p'], ['a'], dict(p=dict(a=1)), dict(p=1.75), maximal_step_size=1., maximal_step_number=3)])
for _ in range(4):
    tuner.iterate()
assert [w for w, _ in lab.log] == ['measure', 'set', 'measure'], lab.log
"""),
dict(id='C07-queue-lost', property='C07', file='qtune/parameter_tuner.py', edits=[("""                    maximal_step_number=self._maximal_step_number,
                    number_queued_steps=self._number_queued_steps)""", """                    maximal_step_number=self._maximal_step_number)""")],
 needs='a run resumed between the partial steps of a large move',
 breaks='the resumed run evaluates where the uninterrupted run takes the next partial step',
 demo="""
from lab import *
def run(resume):
    lab = Lab(dict(a=0.), dict(p=lambda v: v['a']))
    tuner = Autotuner(lab, [group(lab, ['p'], ['a'], dict(p=dict(a=1)), dict(p=5.), maximal_step_size=1., maximal_step_number=3)], hdf5_storage_path=tempfile.mkdtemp())
    for i in range(12):
        if resume and i == 3:
            tuner.asynchrone_writer.join()
            tuner = load_auto_tuner(tuner.last_save_file, {'experiment': lab})
        tuner.iterate()
    tuner.asynchrone_writer.join()
    return lab.log
assert repr(run(False)) == repr(run(True)), (run(False), run(True))
"""),
dict(id='C13-small-moves', property='C13', file='qtune/gradient.py', edits=[("        if not np.linalg.norm(diff_position) < 1e-7:\n", "        if not np.linalg.norm(diff_position) < 1e-3:\n")],
 needs='measurements less than a millivolt apart (voltages in volts)',
 breaks='measurements at small displacements are ignored by the tracked gradient',
 demo="""
from lab import *
e = kalman(dict(a=0.), dict(a=0.), cov=np.eye(1))
e.update(pd.Series(dict(a=0.)), 0., 1e-12, is_new_position=True)
e.update(pd.Series(dict(a=5e-4)), 1e-3, 1e-12, is_new_position=True)
assert abs(e.estimate()['a'] - 2) < 1e-3, e.estimate()
"""),
dict(id='C19-old-cost', property='C19', file='qtune/parameter_tuner.py', edits=[("""if current_parameter.le(self.target["cost_threshold"]).any():""", """if self._last_parameter_values.le(self.target["cost_threshold"]).any():""")],
 needs='an earlier expensive result at or below its cost threshold, and a cheap one between cost threshold and minimum',
 breaks='an expensive scan is repeated because of an old expensive result',
 demo="""
from lab import *
state = dict(signal=0., other=0.)
lab = Lab(dict(a=0.), dict(signal=lambda v: state['signal'], other=lambda v: state['other']))
target = make_target(minimum=pd.Series(dict(signal=1., other=1.)), cost_threshold=pd.Series(dict(signal=.5, other=.5)))
t = SensingDotTuner([evaluator(lab, 'signal')], [evaluator(lab, 'other')], ['a'], last_voltage=pd.Series(dict(a=0.)),
                    solver=ForwardingSolver(target, pd.Series(dict(other='a')), pd.Series(dict(a=0.))))
t.is_tuned(pd.Series(dict(a=0.)))
state['signal'] = .75
del lab.log[:]
t.is_tuned(pd.Series(dict(a=0.)))
assert lab.log == [('measure', 'signal')], lab.log
"""),
]

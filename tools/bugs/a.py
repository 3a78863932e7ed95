BUGS = [
dict(id='C01-untargeted-named-tuned', property='C01', file='qtune/autotuner.py', edits=[("""self.tuning_hierarchy[i].target.isna().all()[ind]], axis='columns').dropna().index
            tuned""", """self.tuning_hierarchy[i].target.isna().all()[ind]], axis='columns').dropna(how='all').index
            tuned""")],
 needs='a lower group in which one parameter has no desired value (an invariant), then a higher group asking for voltages',
 breaks='the request of a higher group names parameters that were never tuned (no desired value) as already tuned',
 demo="""
from lab import *
lab = Lab(dict(a=0., b=0.), dict(p=lambda v: v['a'], q=lambda v: v['b'], r=lambda v: v['a'] + v['b']))
low = group(lab, ['p', 'q'], ['a', 'b'], dict(p=dict(a=1, b=0), q=dict(a=0, b=1)), dict(p=0., q=np.nan), tolerance=.1)
high = group(lab, ['r'], ['a', 'b'], dict(r=dict(a=1, b=1)), dict(r=1.))
names = []
original = high.get_next_voltages
high.get_next_voltages = lambda tuned_parameters=None: (names.append(set(tuned_parameters)), original(tuned_parameters))[1]
tuner = Autotuner(lab, [low, high])
for _ in range(3):
    tuner.iterate()
assert names == [{'p'}], names
"""),
dict(id='C02-pending-lost', property='C02', file='qtune/autotuner.py', edits=[("""            self._experiment.set_gate_voltages(self._voltages_to_set)
            self._current_tuner_index = 0
            self._voltages_to_set = None
""", """            voltages_to_set, self._voltages_to_set = self._voltages_to_set, None
            self._current_tuner_index = 0
            self._experiment.set_gate_voltages(voltages_to_set)
""")],
 needs='a voltage write that raises, followed by another step',
 breaks='a failed voltage write forgets the pending voltages, so repeating the step does not retry it',
 demo="""
from lab import *
lab = Lab(dict(a=0.), dict(p=lambda v: v['a']))
tuner = Autotuner(lab, [group(lab, ['p'], ['a'], dict(p=dict(a=1)), dict(p=1.))])
tuner.iterate()
tuner.iterate()
lab.fail = True
try:
    tuner.iterate()
    assert False
except RuntimeError:
    pass
lab.fail = False
tuner.iterate()
assert lab.voltages['a'] == 1., lab.voltages
"""),
dict(id='C04-queue-refilled', property='C04', file='qtune/parameter_tuner.py', edits=[("""            if self._number_queued_steps == 0:
                number""", """            if self._number_queued_steps <= 1:
                number""")],
 needs='a move of several maximal steps with maximal_step_number of at least 2',
 breaks='more than the configured number of steps is taken between two evaluations',
 demo="""
from lab import *
lab = Lab(dict(a=0.), dict(p=lambda v: v['a']))
tuner = Autotuner(lab, [group(lab, ['p'], ['a'], dict(p=dict(a=1)), dict(p=10.), maximal_step_size=1., maximal_step_number=2)])
sets = 0
while not tuner.is_tuning_complete():
    before = len(lab.log)
    tuner.iterate()
    for what in lab.log[before:]:
        if what[0] == 'set':
            sets += 1
            assert sets <= 2, sets
        else:
            sets = 0
"""),
dict(id='C05-first-good-point', property='C05', file='qtune/parameter_tuner.py', edits=[("""0.5 * (self._evaluatable_voltages[-1] + self._last_voltage)""", """0.5 * (self._evaluatable_voltages[0] + self._last_voltage)""")],
 needs='two successful evaluations at different voltages followed by a failing one',
 breaks='after a failed evaluation the group walks back towards the first instead of the most recent good voltages',
 demo="""
from lab import *
lab = Lab(dict(a=0.), dict(p=lambda v: v['a'] if v['a'] < 3.5 else np.nan))
tuner = Autotuner(lab, [group(lab, ['p'], ['a'], dict(p=dict(a=1)), dict(p=5.), maximal_step_size=1., maximal_step_number=1)])
seen = [0.]
for _ in range(16):
    tuner.iterate()
    if lab.voltages['a'] != seen[-1]:
        seen.append(lab.voltages['a'])
assert seen[:6] == [0., 1., 2., 3., 4., 3.5], seen
"""),
dict(id='C06-boundary', property='C06', file='qtune/parameter_tuner.py', edits=[(""".abs().fillna(0.) < self.target['tolerance'].fillna(
                np.inf)).all()""", """.abs().fillna(0.) <= self.target['tolerance'].fillna(
                np.inf)).all()""")],
 needs='a value exactly one tolerance away from the desired value',
 breaks='a parameter exactly at its tolerance counts as tuned',
 demo="""
from lab import *
lab = Lab(dict(a=0.), dict(p=lambda v: v['a']))
t = group(lab, ['p'], ['a'], dict(p=dict(a=1)), dict(p=.5), tolerance=.5)
assert not t.is_tuned(lab.read_gate_voltages())
"""),
dict(id='C07-good-points-lost', property='C07', file='qtune/parameter_tuner.py', edits=[("""                    last_evaluation_failed=self._last_evaluation_failed,
                    evaluatable_voltages=self._evaluatable_voltages)


class SubsetTuner""", """                    last_evaluation_failed=self._last_evaluation_failed,
                    evaluatable_voltages=self._tuned_voltages)


class SubsetTuner""")],
 needs='a run resumed from a checkpoint whose next evaluation fails',
 breaks='a resumed run walks back to other voltages (or fails) after a failed evaluation',
 demo="""
from lab import *
def make():
    return Lab(dict(a=0.), dict(p=lambda v: v['a'] if v['a'] < 2.5 else np.nan))
def run(resume):
    lab = make()
    directory = tempfile.mkdtemp()
    tuner = Autotuner(lab, [group(lab, ['p'], ['a'], dict(p=dict(a=1)), dict(p=5.), maximal_step_size=1., maximal_step_number=1)], hdf5_storage_path=directory)
    seen = []
    for i in range(14):
        if resume and i == 8:
            tuner.asynchrone_writer.join()
            tuner = load_auto_tuner(tuner.last_save_file, {'experiment': lab})
        tuner.iterate()
        seen.append(lab.voltages['a'])
    tuner.asynchrone_writer.join()
    return seen
assert run(False) == run(True), (run(False), run(True))
"""),
dict(id='C08-tuple-sharing', property='C08', file='qtune/storage.py', edits=[("""            _to_hdf5(hdf5_group, str(idx), value, serialized)
        serialized[id(obj)] = hdf5_group
        return
""", """            _to_hdf5(hdf5_group, str(idx), value, serialized)
        if isinstance(obj, list):
            serialized[id(obj)] = hdf5_group
        return
""")],
 needs='a tuple referenced from two places of the saved object',
 breaks='a shared tuple (and what it holds) is loaded as two separate ones',
 demo="""
from lab import *
from qtune.storage import to_hdf5, from_hdf5
path = os.path.join(tempfile.mkdtemp(), 'x.hdf5')
shared = ([1., 2.], 3.)
to_hdf5(path, 'x', dict(a=shared, b=shared))
x = from_hdf5(path, {})['x']
assert x['a'] is x['b'] and list(x['a'][0]) == [1., 2.]
"""),
dict(id='C09-shallow-copy', property='C09', file='qtune/storage.py', edits=[("""        obj, reserved = copy.deepcopy((obj, self.reserved))
""", """        obj, reserved = copy.copy(obj), self.reserved
""")],
 needs='an object whose nested content is changed between handing it over and the moment the background thread writes it',
 breaks='the file holds the content at the time of writing instead of the time of hand-over',
 demo="""
from lab import *
import time
import qtune.storage as st
from qtune.storage import AsynchronousHDF5Writer, from_hdf5
original = st.to_hdf5
def slow(*args, **kwargs):
    time.sleep(.5)
    return original(*args, **kwargs)
st.to_hdf5 = slow
path = os.path.join(tempfile.mkdtemp(), 'x.hdf5')
w = AsynchronousHDF5Writer(reserved={}, multiprocess=False)
x = dict(a=[1., 2.])
w.write(x, path, 'x')
x['a'].append(3.)
w.join()
assert list(from_hdf5(path, {})['x']['a']) == [1., 2.], from_hdf5(path, {})
"""),
dict(id='C12-mirror', property='C12', file='qtune/gradient.py', edits=[("""self._requested_measurements.append(2 * self._current_position[gates] - measured_points[-1])""", """self._requested_measurements.append(2 * self._current_position[gates] - measured_points[0])""")],
 needs='a symmetric finite-difference estimator with at least two gates',
 breaks='the second and later pairs are not mirrored about the centre',
 demo="""
from lab import *
centre = pd.Series(dict(a=1., b=2.))
e = FiniteDifferencesGradientEstimator(current_position=centre, epsilon=.5, symmetric=True)
points = []
while e.require_measurement() is not None and len(points) < 10:
    p = e.require_measurement()
    points.append(p)
    e.update(p, p['a'] + 2 * p['b'], .1)
assert len(points) == 4
for x, y in zip(points[::2], points[1::2]):
    assert np.allclose((x + y) / 2, centre), (x, y)
"""),
dict(id='C13-base-value', property='C13', file='qtune/gradient.py', edits=[("""        if is_new_position:
            self._current_value = value
            self._current_position = position[self._current_position.index]

    def to_hdf5""", """        if is_new_position and not np.linalg.norm(diff_position) < 1e-7:
            self._current_value = value
            self._current_position = position[self._current_position.index]

    def to_hdf5""")],
 needs='a base point measured twice in succession (same voltages, other value), then a measurement elsewhere',
 breaks='the difference is taken to an outdated value of the base point instead of the latest one',
 demo="""
from lab import *
e = kalman(dict(a=0.), dict(a=0.), cov=np.eye(1))
e.update(pd.Series(dict(a=0.)), 1., 1., is_new_position=True)
e.update(pd.Series(dict(a=0.)), 2., 1., is_new_position=True)
e.update(pd.Series(dict(a=1.)), 3., 1., is_new_position=True)
assert abs(e.estimate()['a'] - .5) < 1e-9, e.estimate()
"""),
dict(id='C14-limits-by-position', property='C14', file='qtune/gradient.py', edits=[("        self._maximum_covariance = maximum_covariance[current_position.index]\n", "        self._maximum_covariance = pd.Series(maximum_covariance.values, index=current_position.index)\n")],
 needs='allowed covariances per gate, given in another order than the gates of the position',
 breaks='the limits are assigned to the wrong gates: the measurement is requested along a direction in which the uncertainty is allowed, or not at all',
 demo="""
from lab import *
e = KalmanGradientEstimator(KalmanGradient(2, 1, initial_gradient=[1., 1.], initial_covariance_matrix=np.diag([4., 1.])), pd.Series(dict(b=0., a=0.)),
                            pd.Series(dict(a=.5, b=np.inf)), .1, 0.)
r = e.require_measurement(['b', 'a'])
assert abs(r['b']) < 1e-9 and abs(abs(r['a']) - .1) < 1e-9, r
"""),
dict(id='C15-gate-order', property='C15', file='qtune/solver.py', edits=[("""        jacobian = self.jacobian[self._current_position.index]

        # we want""", """        jacobian = self.jacobian

        # we want""")],
 needs='gradient estimators whose gates are ordered differently from the position of the optimizer',
 breaks='the Newton step is applied to the wrong gates',
 demo="""
from lab import *
target = make_target(desired=pd.Series(dict(p=1.)))
s = NewtonSolver(target, [kalman(dict(b=0., a=0.), dict(a=1., b=0.))], pd.Series(dict(a=0., b=0.)), pd.Series(dict(p=0.)))
n = s.suggest_next_position()
assert abs(n['a'] - 1) < 1e-9 and abs(n['b']) < 1e-9, n
"""),
dict(id='C16-old-reference', property='C16', file='qtune/gradient.py', edits=[("""    def restart(self, new_position):
        self._current_value = None
        super().restart(new_position)


class SelfInit""", """    def restart(self, new_position):
        super().restart(new_position)


class SelfInit""")],
 needs='a restart at changed voltages after at least one evaluation, with a Kalman estimator',
 breaks='after a restart the value measured at the old voltages is attributed to the new ones, so the first new evaluation is not taken as a fresh reference',
 demo="""
from lab import *
e = kalman(dict(a=0.), dict(a=1.), cov=np.eye(1))
e.update(pd.Series(dict(a=0.)), 0., 1., is_new_position=True)
e.restart(pd.Series(dict(a=5.)))
e.update(pd.Series(dict(a=6.)), 6., 1., is_new_position=True)
assert abs(e.estimate()['a'] - 1) < 1e-9, e.estimate()
"""),
dict(id='C21-inside-contraction', property='C21', file='qtune/solver.py', edits=[("""            worst_cost = self.get_costs()[-1]

            contraction_cost = self.cost_function(values)
            if contraction_cost < worst_cost:""", """            worst_cost = self.get_costs()[-2]

            contraction_cost = self.cost_function(values)
            if contraction_cost < worst_cost:""")],
 needs='an inside contraction whose cost lies between those of the two worst points',
 breaks='the simplex is shrunk although the contracted point is better than the worst one',
 demo="""
from lab import *
target = make_target(desired=pd.Series(dict(p=0.)))
s = NelderMeadSolver.from_scratch(target, pd.Series(dict(a=1., b=1.)), pd.Series(dict(a=0., b=0.)), pd.Series(dict(p=1.)))
def tell(p, v):
    s.update_after_step(p, pd.Series(dict(p=v)), pd.Series(dict(p=.1)))
for v in (2., 4.):
    tell(s.suggest_next_position(), v)
worst = s.get_positions()[-1]
tell(s.suggest_next_position(), 5.)
c = s.suggest_next_position()
tell(c, 3.)
assert any(np.allclose(p, c) for p in s.get_positions()), s.get_positions()
"""),
dict(id='C22-completion-order', property='C22', file='qtune/storage.py', edits=[("""        yield from self._executor.map(from_hdf5, file_names, itertools.repeat(self.reserved), chunksize=1)""", """        import concurrent.futures
        futures = [self._executor.submit(from_hdf5, file_name, self.reserved) for file_name in file_names]
        for future in concurrent.futures.as_completed(futures):
            yield future.result()""")],
 needs='two workers and a file that takes longer to read than one requested after it',
 breaks='the contents are returned in the order in which the reads finish',
 demo="""
from lab import *
import time
import qtune.storage as st
paths = []
for i in range(3):
    path = os.path.join(tempfile.mkdtemp(), 'x%d.hdf5' % i)
    st.to_hdf5(path, 'x', float(i))
    paths.append(path)
original = st.from_hdf5
def slow(path, reserved):
    if path == paths[0]:
        time.sleep(.7)
    return original(path, reserved)
slow.__module__ = 'qtune.storage'
st.from_hdf5 = slow
with st.ParallelHDF5Reader({}, multiprocess=False, max_workers=3) as r:
    got = [float(x['x']) for x in r.read_iter(paths)]
assert got == [0., 1., 2.], got
"""),
]

"""third batch"""
GUI = '''
import os
os.environ['QT_QPA_PLATFORM'] = 'offscreen'
import IPython
class Shell:
    def magic(self, *args): pass
    class events:
        @staticmethod
        def register(*args): pass
IPython.get_ipython = lambda: Shell()
from lab import *
from qtune.history import History
import shutil, time
import qtune.gui as g
from pyqtgraph.Qt import QtWidgets
app = QtWidgets.QApplication([])
root = tempfile.mkdtemp()
import atexit
lab = Lab(dict(a=0., b=0.), dict(p=lambda v: v['a'] + v['b'] ** 2))
t = group(lab, ['p'], ['a', 'b'], dict(p=dict(a=1., b=1.)), dict(p=3.), maximal_step_size=.5)
at = Autotuner(lab, [t], hdf5_storage_path=root)
h = History(None, lab)
def steps(n):
    for _ in range(n):
        at.iterate()
        at.asynchrone_writer.restart()
        h.append_autotuner(at)
def done():
    shutil.rmtree(root, ignore_errors=True)
    sys.stdout.flush()
    os._exit(0)
def click(w, text):
    [b for b in w.findChildren(QtWidgets.QPushButton) if b.text() == text][0].click()
def choose(w, text):
    line = w.findChildren(QtWidgets.QLineEdit)[0]
    line.setText(text)
    line.editingFinished.emit()
'''
BUGS = [
dict(id='C25-restart-first', property='C25', file='qtune/gui.py', edits=[("""            self.auto_tuner._experiment.set_gate_voltages(new_gate_voltages=voltages)
            self.auto_tuner.restart()
""", """            self.auto_tuner.restart()
            self.auto_tuner._experiment.set_gate_voltages(new_gate_voltages=voltages)
""")],
 needs='reloading the voltages of an earlier row',
 breaks='the optimizer continues with the voltages before the reload, so the next gradient update uses a wrong displacement',
 demo=GUI + """
steps(7)
w = g.ReloadWidget(h, at)
click(w, 'Reload Voltages')
assert lab.voltages['a'] == 0 and t.solver.current_position['a'] == 0, t.solver.current_position
done()
"""),
dict(id='C25-state-not-restarted', property='C25', file='qtune/gui.py', edits=[("""            self.auto_tuner = new_autotuner
            new_autotuner.restart()
""", """            self.auto_tuner = new_autotuner
            if new_autotuner.voltages_to_set is not None:
                new_autotuner.restart()
""")],
 needs='reloading a state that was saved without pending voltages, while the gates are somewhere else',
 breaks='the reloaded tuner believes to be at the old voltages and its group is not evaluated at the present ones',
 demo=GUI + """
steps(7)
path = h.get_reload_path(0)
w = g.ReloadWidget(h, at)
lab.voltages['b'] = .75
click(w, 'Reload Entire State!')
new = w.auto_tuner
assert new is not at and new.current_tuner_index == 0 and new.tuning_hierarchy[0].solver.current_position['b'] == .75, new.tuning_hierarchy[0].solver.current_position
done()
"""),
dict(id='C25-clamp', property='C25', file='qtune/gui.py', edits=[("""        if i < 0:
            i = 0
        elif i >= self.history.number_of_stored_iterations:
            i = self.history.number_of_stored_iterations - 1
        self._tune_run_number = i

    @property
    def logger(self):
        return logging.getLogger(self._logger)

    @QtCore.pyqtSlot()
    @log_exceptions('plotting')
    def refreh_tune_run_number(self):
        i = self.tune_run_line.text()
        self.tune_run_number = i
        self.tune_run_line.setText(str(self.tune_run_number))

    @QtCore.pyqtSlot()
    @log_exceptions('plotting')
    def reload_voltages(self):
""", """        if i < 0:
            i = 0
        elif i > self.history.number_of_stored_iterations:
            i = self.history.number_of_stored_iterations - 1
        self._tune_run_number = i

    @property
    def logger(self):
        return logging.getLogger(self._logger)

    @QtCore.pyqtSlot()
    @log_exceptions('plotting')
    def refreh_tune_run_number(self):
        i = self.tune_run_line.text()
        self.tune_run_number = i
        self.tune_run_line.setText(str(self.tune_run_number))

    @QtCore.pyqtSlot()
    @log_exceptions('plotting')
    def reload_voltages(self):
""")],
 needs='choosing exactly the number of stored rows',
 breaks='a row is chosen that does not exist, reloading does nothing',
 demo=GUI + """
steps(7)
n = h.number_of_stored_iterations
w = g.ReloadWidget(h, at)
choose(w, str(n))
assert w.findChildren(QtWidgets.QLineEdit)[0].text() == str(n - 1)
done()
"""),
dict(id='C27-lowest-reading', property='C27', file='qtune/autotuner.py', edits=[("""            if self.get_current_tuner().is_tuned(self._experiment.read_gate_voltages()):
""", """            voltages = self._tuning_hierarchy[0].last_voltages if self._current_tuner_index else self._experiment.read_gate_voltages()
            if self.get_current_tuner().is_tuned(voltages):
""")],
 needs='two groups and a gate changed (by hand or drift) between the evaluation of the lowest group and that of the next one',
 breaks='the higher group attributes its measurement to voltages at which it was not made; its gradient is updated wrongly',
 demo="""
from lab import *
lab = Lab(dict(a=0., b=0.), dict(p=lambda v: v['a'], q=lambda v: v['b']))
t = group(lab, ['p'], ['a'], dict(p=dict(a=1.)), dict(p=0.))
u = group(lab, ['q'], ['b'], dict(q=dict(b=1.)), dict(q=1.))
at = Autotuner(lab, [t, u])
at.iterate()
lab.voltages['b'] = .25
at.iterate()
assert u.last_voltages['b'] == .25 and u.solver.current_position['b'] == .25, u.last_voltages
"""),
dict(id='C27-foreign-gates', property='C27', file='qtune/parameter_tuner.py', edits=[("""        new_voltages = pd.Series(self._last_voltage).copy(deep=True)
        new_voltages[solver_voltage.index] = solver_voltage
        step = new_voltages - self._last_voltage

        if np""", """        new_voltages = pd.Series((self._evaluatable_voltages or [self._last_voltage])[-1]).copy(deep=True)
        new_voltages[solver_voltage.index] = solver_voltage
        step = new_voltages - self._last_voltage

        if np""")], also=['C03'],
 needs='a step divided into slices, during which a gate that is not owned by the group is changed by hand or crosstalk',
 breaks='the next slice moves the foreign gate back to where it was at the last evaluation',
 demo="""
from lab import *
lab = Lab(dict(a=0., b=0.), dict(p=lambda v: v['a']))
t = group(lab, ['p'], ['a'], dict(p=dict(a=1.)), dict(p=1.), maximal_step_size=.3, maximal_step_number=3)
at = Autotuner(lab, [t])
for _ in range(3):
    at.iterate()
lab.voltages['b'] = .25
for _ in range(3):
    at.iterate()
assert lab.voltages['b'] == .25, lab.voltages
"""),
dict(id='C28-own-gradients', property='C28', file='qtune/solver.py', edits=[("""        jacobian = self.jacobian[self._current_position.index]

        # we want""", """        jacobian = self.jacobian[self._current_position.index].loc[required_diff.index[self.target.desired.notna()]]

        # we want""")],
 needs='two groups tuned with the same gates, the solver of the upper one knowing the gradients of the lower one',
 breaks='the moves of the upper group change the parameters of the lower one, so that both take turns',
 demo="""
from lab import *
target = make_target(desired=pd.Series(dict(p=np.nan, q=1.)))
position = dict(a=0., b=0.)
s = NewtonSolver(target, [kalman(position, dict(a=1., b=0.)), kalman(position, dict(a=1., b=1.))], pd.Series(position), pd.Series(dict(p=0., q=0.)))
n = s.suggest_next_position({'p'})
assert abs(n['a']) < 1e-9 and abs(n['b'] - 1) < 1e-9, n
"""),
dict(id='C28-sorted-names', property='C28', file='qtune/solver.py', edits=[("""                            if self.target.index[i] in tuned_parameters]
""", """                            if sorted(self.target.index)[i] in tuned_parameters]
""")], also=['C14'],
 needs='groups sharing their estimators, whose parameters are not listed alphabetically',
 breaks='the measurements of gradients keep the wrong parameter constant and detune the lower group',
 demo="""
from lab import *
target = make_target(desired=pd.Series(dict(q=np.nan, p=1.)))
position = dict(a=0., b=0.)
s = NewtonSolver(target, [kalman(position, dict(a=1., b=0.)), kalman(position, dict(a=0., b=1.), .5)], pd.Series(position), pd.Series(dict(q=0., p=0.)))
n = s.suggest_next_position({'q'})
assert abs(n['a']) < 1e-9 and abs(n['b']) > .01, n
"""),
dict(id='C06-foreign-parameter', property='C06', file='qtune/parameter_tuner.py', edits=[("""        if ((self.target.desired - current_parameters).abs().fillna(0.) < self.target['tolerance'].fillna(
                np.inf)).all():
            self._tuned_voltages.append(voltages)
            return True
        else:
            return False

    def get_next_voltages(self, tuned_parameters=None):
        \"\"\"
        Slices""", """        if ((self.target.desired - current_parameters).abs() < self.target['tolerance'].fillna(
                np.inf)).all():
            self._tuned_voltages.append(voltages)
            return True
        else:
            return False

    def get_next_voltages(self, tuned_parameters=None):
        \"\"\"
        Slices""")], also=['C28'],
 needs='a group whose target lists a parameter without desired value (evaluated by another group)',
 breaks='the group never counts as tuned',
 demo="""
from lab import *
lab = Lab(dict(a=0., b=0.), dict(p=lambda v: v['a'], q=lambda v: v['b']))
t = group(lab, ['p', 'q'], ['a', 'b'], dict(p=dict(a=1., b=0.), q=dict(a=0., b=1.)), dict(p=0., q=np.nan))
assert t.is_tuned(lab.read_gate_voltages())
"""),
]

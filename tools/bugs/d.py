"""fourth batch: plots"""
HEAD = '''
import os
os.environ['QT_QPA_PLATFORM'] = 'offscreen'
import IPython
class Shell:
    def magic(self, *args): pass
    class events:
        @staticmethod
        def register(*args): pass
IPython.get_ipython = lambda: Shell()
from lab import *
from qtune.history import History
import qtune.gui as g
IPython.get_ipython = lambda: None
import pyqtgraph as pg
from pyqtgraph.Qt import QtWidgets
app = QtWidgets.QApplication([])
lab = Lab(dict(a=0., b=0.), dict(p=lambda v: v['a'] + v['b'] ** 2, q=lambda v: v['a'] - .5 * v['b']))
t = group(lab, ['p', 'q'], ['a', 'b'], dict(p=dict(a=1., b=1.), q=dict(a=1., b=-.4)), dict(p=3., q=1.), maximal_step_size=.5)
at = Autotuner(lab, [t])
h = History(None, lab)
def steps(n):
    for _ in range(n):
        at.iterate()
        h.append_autotuner(at)
def done():
    sys.stdout.flush()
    os._exit(0)
def lines(w):
    return {i.name(): list(i.yData) for i in w.plot.getPlotItem().items if isinstance(i, pg.PlotDataItem)}
def bars(w):
    return [i for i in w.plot.getPlotItem().items if isinstance(i, pg.ErrorBarItem)]
'''
BUGS = [
dict(id='C26-same-row', property='C26', file='qtune/gui.py', edits=[("""                if param in self._plots:
                    self._plots[param].setData(data)
""", """                if param in self._plots:
                    if data.size != self._plots[param].yData.size:
                        self._plots[param].setData(data)
""")],
 needs='a selected parameter which is evaluated in a row that is already shown (several evaluations at the same voltages)',
 breaks='the real time plot does not show the value of the last row until the next row appears',
 demo=HEAD + """
steps(3)
w = g.PlotOrganizer(h)
w.parameter.child('Parameters').child('p').setValue('plot')
h._data_frame.loc[h._data_frame.index[-1], 'p'] = 17.
w.refresh()
assert lines(w)['p'][-1] == 17., lines(w)
done()
"""),
dict(id='C26-bars-stay', property='C26', file='qtune/gui.py', edits=[("""                    plot_item.addItem(self._plots[error_plot_name])

            else:
                self._remove_plot(error_plot_name)
""", """                    plot_item.addItem(self._plots[error_plot_name])

            elif plot_param:
                self._remove_plot(error_plot_name)
""")],
 needs='deselecting a parameter which was shown with errors',
 breaks='the error bars of a deselected parameter stay',
 demo=HEAD + """
steps(3)
w = g.PlotOrganizer(h)
p = w.parameter.child('Parameters').child('p')
for value in ('plot + error', 'plot', 'plot + error', ''):
    p.setValue(value)
    assert len(bars(w)) == value.endswith('error'), (value, bars(w))
done()
"""),
dict(id='C26-deselect-gradient', property='C26', file='qtune/gui.py', edits=[("""            for child in param.children():
                child.setValue(plot_activated)
""", """            for child in param.children():
                if plot_activated:
                    child.setValue(plot_activated)
""")],
 needs='deselecting a whole gradient',
 breaks='the components of a deselected gradient stay in the plot',
 demo=HEAD + """
steps(3)
w = g.PlotOrganizer(h)
p = w.parameter.child('Gradients').child('p')
p.setValue('plot')
assert set(lines(w)) == {'p#a', 'p#b'}, lines(w)
p.setValue('')
assert not lines(w), lines(w)
done()
"""),
dict(id='C26-closed-window', property='C26', file='qtune/gui.py', edits=[("""            self._update_plots.disconnect(lambda x: None)
""", """            self._update_plots.disconnect()
""")],
 needs='two plot windows, one of which is closed before the next step',
 breaks='the other windows are not refreshed any more',
 demo=HEAD + """
steps(2)
gui = g.GUI(at, h)
gui.spawn_parameter_window()
gui.spawn_plot_window()
first = gui._parameter_windows[0]
gui._plot_organizer[0].close()
steps(3)
gui._update_plots.emit()
n = len(first.getFigure().axes[0].lines[0].get_ydata())
assert n == h.number_of_stored_iterations, (n, h.number_of_stored_iterations)
done()
"""),
dict(id='C26-axes-reused', property='C26', file='qtune/gui.py', edits=[("""            for ax in self.getFigure().axes:
                ax.clear()
            return self.getFigure().axes
""", """            for ax in self.getFigure().axes[1:]:
                ax.clear()
            return self.getFigure().axes
""")],
 needs='a parameter or gradient window which is refreshed',
 breaks='the first axes show the old curve beneath the present one',
 demo=HEAD + """
steps(2)
w = g.ParameterWidget(h)
first = [len(ax.containers) for ax in w.getFigure().axes]
steps(2)
w.refresh()
assert [len(ax.containers) for ax in w.getFigure().axes] == first, [len(ax.containers) for ax in w.getFigure().axes]
done()
"""),
dict(id='C26-legend-order', property='C26', file='qtune/history.py', edits=[("""    voltage_ax.legend(voltage_data_frame.columns)
""", """    voltage_ax.legend(sorted(voltage_data_frame.columns))
""")],
 needs='plotting chosen gates in an order which is not alphabetical',
 breaks='the legend names the wrong curves',
 demo=HEAD + """
steps(5)
_, axes = h.plot_tuning(voltage_indices=['b', 'a'])
names = [x.get_text() for x in axes[0].get_legend().get_texts()]
for name, line in zip(names, axes[0].lines):
    assert list(line.get_ydata()) == list(h.get_gate_values(name)), (name, list(line.get_ydata()))
done()
"""),
dict(id='C26-variance-bars', property='C26', file='qtune/history.py', edits=[("""            gradient.plot(ax=ax, yerr=gradient_std[parameter_name].applymap(np.sqrt))
""", """            gradient.plot(ax=ax, yerr=gradient_std[parameter_name].applymap(abs))
""")],
 needs='a plot of gradients with errors',
 breaks='variances are drawn as error bars',
 demo=HEAD + """
steps(5)
_, axes = h.plot_tuning(mode='all_gradients with_grad_covariances')
c = axes[2][0].containers[0]
s = c.lines[2][0].get_segments()[-1]
want = 2 * np.sqrt(h.get_gradient_variances('p')[c.get_label()].iloc[-1])
assert abs(s[1][1] - s[0][1] - want) < 1e-9, (s, want)
done()
"""),
dict(id='C26-evaluator-axes', property='C26', file='qtune/history.py', edits=[("""            ax_list = [eval_data_ax.ravel()[sum(number_measurements[0:j]):sum(number_measurements[0:j + 1])] for j in
                       range(len(number_measurements))]
""", """            ax_list = [eval_data_ax.ravel()[sum(number_measurements[0:j]):][:number_measurements[0]] for j in
                       range(len(number_measurements))]
""")],
 needs='raw data of two evaluators with different numbers of measurements',
 breaks='scans of the second evaluator are left out or drawn into further axes',
 demo=HEAD + """
from qtune.evaluator import LeadTransition, NewLoadTime
class Scans(Lab):
    def measure(self, m):
        return np.arange(m.options['N_points']) * 1. if m.name == 'line_scan' else np.array([1 - np.exp(-np.arange(100) / 30.), np.arange(100.)])
lab = Scans(dict(RFA=0., RFB=0.), dict(line_scan=None))
e = [NewLoadTime(lab, ('parameter_time_load',)), LeadTransition(lab)]
for x in e:
    x.evaluate()
h = History(None, lab)
h._evaluator_data = pd.DataFrame({x.name: [x.to_hdf5()] for x in e})
for order in (('LoadTime', 'LeadTransition'), ('LeadTransition', 'LoadTime')):
    _, axes = h.plot_evaluator_data(evaluator_names=list(order))
    assert sum(bool(ax.lines) for ax in np.ravel(axes[0])) == 3, [len(ax.lines) for ax in np.ravel(axes[0])]
done()
"""),
dict(id='C26-mean-axis', property='C26', file='qtune/util.py', edits=[("""    if len(y_data.shape) == 2:
        y_data = np.nanmean(y_data, 0)
    if x_data is None:
        x_data = np.arange(0, y_data.shape[0])
    if isinstance(function_args""", """    if len(y_data.shape) == 2:
        y_data = np.mean(y_data, 0)
    if x_data is None:
        x_data = np.arange(0, y_data.shape[0])
    if isinstance(function_args""")],
 needs='a repeated scan in which single points are missing',
 breaks='points which were measured at least once are left out of the plot',
 demo=HEAD + """
from qtune.util import plot_raw_data_fit
import matplotlib.pyplot as plt
y = np.ones((3, 10))
y[1, 4] = np.nan
ax = plot_raw_data_fit(y, np.arange(10), ax=plt.figure().add_subplot())
assert list(ax.lines[0].get_ydata()) == [1.] * 10, ax.lines[0].get_ydata()
done()
"""),
]

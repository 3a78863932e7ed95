"""C26: plots and plot windows show the recorded entries.

The real plots are made with matplotlib and pyqtgraph on the real Qt library (without a screen); what they contain is read from the
drawn objects and compared with what the history answers to the corresponding queries.
"""
import mc.qt as qt  # noqa  (must come first)

import copy
import itertools
import logging
import warnings

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import pyqtgraph as pg
from matplotlib.backends import backend_qtagg

from qtune.autotuner import Autotuner
from qtune.evaluator import AveragingEvaluator
from qtune.history import History, parameter_information
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import make_target

from mc import hist, setups
from mc.checks import c18
from mc.kit import ScriptSolver
from mc.world import clone, series

QUIET = False
TECHNIQUE = 'exhaustive enumeration of histories x plot requests and of sequences of user actions (bounded depth) on the real plots and windows'
LEVEL = 'model_checking'
RULE = 'a state is what all plots show; a transition is one plot request or user action; an execution is one history with one request or one sequence of actions'
BOUNDS = {'quick': 'all hierarchies x histories of 0, 1, 4 and 9 steps x all 32 combinations of modes and all selections of up to 2 names; all sequences of up to 4 actions (step, open or close windows) with the parameter '
                   'and gradient windows; all sequences of up to 3 selections, steps and refreshes in the real time plot; 8 evaluators and their averages x 5 runs, with and without unusable data, x all sequences of up to 3 '
                   'choices of runs, evaluators and steps',
          'thorough': 'histories of up to 14 steps, sequences longer by one action'}
ASSUMPTIONS = ['raw data are plotted for the shipped evaluators with their own names', 'the windows are opened after the first record']
LIMIT = {'quick': 400, 'thorough': 3000}


def chunks(tier):
    for kind in ('tuning', 'windows', 'realtime'):
        for h in hist.HIERARCHIES:
            yield kind, h, tier
    for kind in sorted(c18.NAMES):
        for averaged in (False, True):
            yield 'raw', (kind, averaged), tier
    for kinds in (('tc', 'load'), ('transition', 'tc'), ('two', 'tc'), ('one', 'lead')):
        yield 'pairs', kinds, tier
    yield 'names', None, tier


def explore(chunk, rec):
    logging.disable(logging.NOTSET)
    warnings.simplefilter('ignore')
    qt.application()
    backend_qtagg.FigureCanvasQTAgg.draw = matplotlib.figure.Figure.tight_layout = lambda *args, **kwargs: None       # (nobody looks at the screen)
    {'tuning': tuning, 'windows': windows, 'realtime': realtime, 'raw': raw, 'pairs': pairs, 'names': names}[chunk[0]](chunk, rec)
    plt.close('all')
    rec.sample(repr(rec.current))


# -- what is to be shown ----------------------------------------------------------------------------------------------

def points(values, errors=None):
    """the points of a curve: (x, y, error)"""
    errors = [float('nan')] * len(values) if errors is None else list(errors)
    return tuple((float(i), hist.number(v), hist.number(e) if e == e else 0.) for i, (v, e) in enumerate(zip(values, errors)) if v == v)


def gradients(history, parameter, errors):
    values, variances = history.get_gradients(parameter), history.get_gradient_variances(parameter)
    return {g: points(values[g], np.sqrt(variances[g]) if errors and g in variances else None) for g in values.columns}


def parameters(history, names, errors):
    return [{p: points(history.get_parameter_values(p), history.get_parameter_std(p) if errors else None)} for p in names]


# -- what is shown ----------------------------------------------------------------------------------------------------

def curves(ax):
    """the curves of matplotlib axes with their error bars"""
    bars, parts, labels = {}, set(), {}
    for c in ax.containers:
        line, caps, segments = c.lines
        labels[id(line)] = c.get_label()
        parts |= {id(x) for x in caps}
        bars[id(line)] = {float(s[0][0]): (float(s[0][1]), float(s[1][1])) for group in segments for s in group.get_segments() if len(s) == 2 and np.isfinite(s).all()}
    out = {}
    legend = ax.get_legend()
    for line in ax.lines:
        if id(line) in parts:
            continue
        x, y = (np.ma.filled(np.ma.asarray(v, dtype=float), np.nan) for v in line.get_data(orig=False))
        found = []
        for a, b in zip(x, y):
            if b == b:
                low, high = bars.get(id(line), {}).get(a, (b, b))
                found.append((float(a), hist.number(b), hist.number(high - b) if abs(high - 2 * b + low) < 1e-9 else 'asymmetric'))
        label = labels.get(id(line), line.get_label())
        out[label] = tuple(found) if label not in out else 'twice'
    if legend is not None:
        entries = dict(zip((t.get_text() for t in legend.get_texts()), legend.legend_handles))
        if all(label.startswith('_') for label in out):
            # the legend names the lines
            lines = [line for line in ax.lines if id(line) not in parts]
            out = {}
            for line in lines:
                names = [n for n, handle in entries.items() if handle.get_color() == line.get_color()]
                x, y = line.get_data()
                out[names[0] if len(names) == 1 else repr(names)] = tuple((float(a), hist.number(b), 0.) for a, b in zip(x, y) if b == b)
    return out


def named(parameter, kind):
    return parameter_information.get(parameter, {}).get(kind)


def check_voltages(need, ax, history, gates):
    got = curves(ax)
    want = {g: points(history.get_gate_values(g)) for g in gates}
    need(got == want, lambda: 'voltages: shows %.600r instead of %.600r' % (got, want))


def check_parameters(need, axes, history, names, errors):
    axes = list(np.ravel(axes))
    got, want = sorted((curves(ax) for ax in axes), key=repr), sorted(parameters(history, names, errors), key=repr)
    need(got == want, lambda: 'parameters %r: shows %.600r instead of %.600r' % (list(names), got, want))
    for ax in axes:
        for p in curves(ax):
            title = named(p, 'name') or p
            need(ax.get_title() == title, lambda: 'parameter %r has the title %r' % (p, ax.get_title()))
            unit = named(p, 'entity_unit') or p
            need(ax.get_ylabel() == unit, lambda: 'parameter %r has the label %r' % (p, ax.get_ylabel()))


def check_gradients(need, axes, history, names, errors):
    axes = list(np.ravel(axes))
    need(len(axes) == max(1, len(names)), lambda: 'gradients %r: %d axes' % (list(names), len(axes)))
    left = list(axes)
    for p in names:
        label = named(p, 'gradient_unit') or p
        here = [ax for ax in left if ax.get_ylabel() == label or not named(p, 'gradient_unit') and label in ax.get_ylabel().split()]
        if not need(len(here) == 1, lambda: 'gradient of %r: %d axes have its label, of %r' % (p, len(here), [ax.get_ylabel() for ax in left])):
            continue
        left.remove(here[0])
        got, want = curves(here[0]), gradients(history, p, errors)
        need(got == want, lambda: 'gradient of %r: shows %.600r instead of %.600r' % (p, got, want))
    for ax in left:
        need(not curves(ax), lambda: 'gradients %r: shows also %.300r' % (list(names), curves(ax)))


# -- histories --------------------------------------------------------------------------------------------------------


def steps(hierarchy, lab, count):
    """the tuner, the experiment and the history after some steps"""
    at, lab = hist.build(hierarchy, lab)
    history = History(None, lab)
    history.append_autotuner(at)
    done = 0
    while done < count and not at.is_tuning_complete():
        at.iterate()
        history.append_autotuner(at)
        done += 1
    return at, lab, history, done


def lengths(tier):
    return (0, 1, 4, 9) if tier == 'quick' else (0, 1, 2, 3, 4, 6, 9, 14)


# -- plots of a history -----------------------------------------------------------------------------------------------

MODES = ('all_voltages', 'all_parameters', 'all_gradients', 'with_grad_covariances', 'with_par_variances')


def selections(names, most=2):
    names = sorted(names)
    yield None
    for n in range(1, most + 1):
        yield from map(list, itertools.permutations(names, n))
    yield names[::-1]


def tuning(chunk, rec):
    _, hierarchy, tier = chunk
    for lab_name in ('far', 'hole') if tier != 'quick' and 'hole' in setups.LABS else ('far',):
        for count in lengths(tier):
            at, lab, history, done = steps(hierarchy, lab_name, count)
            if done < count and count > 1:
                continue
            before = hist.table(history, paths=False)
            for chosen in itertools.product((False, True), repeat=len(MODES)):
                if tier == 'quick' and count in (1, 4) and sum(chosen[:3]) in (1, 2):
                    continue
                mode = ' '.join(m for m, c in zip(MODES, chosen) if c)
                request(rec, chunk, count, history, dict(mode=mode), sorted(history.gate_names) if chosen[0] else None, sorted(history.parameter_names) if chosen[1] else None,
                        sorted(history.gradient_controlled_parameter_names) if chosen[2] else None, chosen[4], chosen[3])
            for mode in ('', 'with_grad_covariances with_par_variances'):
                if tier == 'quick' and bool(mode) == (count in (0, 4)):
                    continue
                for sel in selections(history.gate_names, 1):
                    request(rec, chunk, count, history, dict(mode=mode, voltage_indices=sel), sel, None, None, bool(mode), bool(mode))
                for sel in selections(history.parameter_names):
                    request(rec, chunk, count, history, dict(mode=mode, parameter_names=sel), None, sel, None, bool(mode), bool(mode))
                for sel in selections(history.gradient_controlled_parameter_names):
                    if sel != []:
                        request(rec, chunk, count, history, dict(mode=mode, gradient_parameter_names=sel), None, None, sel, bool(mode), bool(mode))
            rec.require(hist.table(history, paths=False) == before, 'plotting changes the history')


def request(rec, chunk, count, history, options, gates, names, grads, with_std, with_cov):
    rec.current = (chunk, count, options)

    def need(cond, message):
        return rec.require(cond, message)
    options = {k: v[:] if isinstance(v, list) else v for k, v in options.items()}
    try:
        figures, axes = history.plot_tuning(**options)
    except Exception as e:
        rec.violation('plot_tuning(%r) raised %r' % (options, e))
        return
    for what, figure, ax, wanted in zip(('voltages', 'parameters', 'gradients'), figures, axes, (gates, names, grads)):
        need((ax is None) == (wanted is None), lambda: '%s: %r' % (what, ax))
    if gates is not None and axes[0] is not None:
        check_voltages(need, axes[0], history, gates)
    if names is not None and axes[1] is not None:
        check_parameters(need, axes[1], history, names, with_std)
        need([p for ax in np.ravel(axes[1]) for p in curves(ax)] == list(names), lambda: 'parameters are shown in the order %r' % [list(curves(ax)) for ax in np.ravel(axes[1])])
    if grads is not None and axes[2] is not None:
        check_gradients(need, axes[2], history, grads, with_cov)
    for f, ax in zip(figures, axes):
        if f is not None:
            need(all(a.figure is f for a in np.ravel(ax)), 'the axes belong to another figure')
    plt.close('all')
    rec.transition()
    rec.execution(key=rec.current, outcome=(repr(options), count, chunk[1]))
    rec.state((repr(options), count, chunk[1]))
    rec.trace()


# -- parameter and gradient windows -----------------------------------------------------------------------------------

def action_sequences(depth):
    """open windows, steps"""
    def extend(seq, opened):
        if seq:
            yield seq
        if len(seq) == depth:
            return
        for a in (('step',), ('open', 'Parameter Plot'), ('open', 'Gradient Plot')):
            if a[0] == 'open' and len(opened) == 2:
                continue
            yield from extend(seq + (a,), opened + ((len(opened),) if a[0] == 'open' else ()))
        for i in opened:
            if i is not None:
                yield from extend(seq + (('close', i),), tuple(None if k == i else k for k in opened))
    for seq in extend((), ()):
        if any(a[0] == 'open' for a in seq) and (len(seq) == depth or seq[-1][0] != 'step') and seq[0] != ('step', 1):
            yield seq


def windows(chunk, rec):
    _, hierarchy, tier = chunk
    every = [s for s in action_sequences(4 if tier == 'quick' else 5) if len(s) == (4 if tier == 'quick' else 5)]
    number = sorted(hist.HIERARCHIES).index(hierarchy)
    for j, start in enumerate((0, 3) if tier == 'quick' else (0, 1, 3, 7)):
        base = steps(hierarchy, 'far', start)
        for k, seq in enumerate(every):
            if (k + number + j) % (6 if tier == 'quick' else 2):
                continue
            rec.current = (chunk, start, seq)
            lab, at, history = clone(base[1], base[0], base[2])
            gui = qt.control_window(at, history)
            opened = []

            def need(cond, message):
                return rec.require(cond, message, case=(rec.current, action))
            qt.LOG.errors()
            for action in seq:
                if action[0] == 'step':
                    qt.button(gui, 'Step').click()
                    qt.work(gui)
                elif action[0] == 'open':
                    opened.append([action[1], qt.new_window(qt.button(gui, action[1]).click)])
                    need(opened[-1][1] is not None, 'no window appears')
                else:
                    opened[action[1]][1].close()
                    opened[action[1]][1] = None
                    qt.APP[0].processEvents()
                rec.transition()
                errors = qt.LOG.errors()
                need(not errors, lambda: 'error: %r' % errors[:2])
                for kind, w in opened:
                    if w is not None:
                        if kind == 'Parameter Plot':
                            check_parameters(need, w.getFigure().axes, history, sorted(history.parameter_names), True)
                        else:
                            check_gradients(need, w.getFigure().axes, history, sorted(history.gradient_controlled_parameter_names), True)
                rec.state((hierarchy, hist.table(history, False), tuple((k, w is None) for k, w in opened)))
                if rec.violations:
                    break
            qt.dispose(gui, *[w for _, w in opened if w is not None])
            rec.execution(key=rec.current, outcome=rec.current)
            rec.trace()
            if rec.violations:
                return


# -- real time plot ---------------------------------------------------------------------------------------------------

def tree_parameters(window):
    """(group, name, ..) -> what a user can choose in the tree"""
    tree = window.findChildren(pg.parametertree.ParameterTree)[0]
    out = {}

    def walk(item, path):
        for i in range(item.childCount()):
            child = item.child(i)
            param = getattr(child, 'param', None)
            if param is None:
                continue
            # (the common root of the groups is not shown)
            here = path if any(c.opts['type'] == 'group' for c in param.children()) else path + (param.name(),)
            if param.opts['type'] != 'group':
                out[here] = param
            walk(child, here)
    walk(tree.invisibleRootItem(), ())
    return out


def shown(window):
    """the curves, the error bars and the legend of a real time plot"""
    item = window.findChildren(pg.PlotWidget)[0].getPlotItem()
    lines, bars = {}, []
    for i in item.items:
        if isinstance(i, pg.ErrorBarItem):
            o = i.opts
            size = [None if o[k] is None else list(np.asarray(o[k], dtype=float)) for k in ('height', 'top', 'bottom')]
            height = [h / 2 for h in size[0]] if size[0] is not None else [t if abs(t - b) < 1e-12 else -1e9 for t, b in zip(size[1], size[2])]
            bars.append(tuple((hist.number(x), hist.number(y), hist.number(h)) for x, y, h in zip(np.asarray(o['x'], dtype=float), np.asarray(o['y'], dtype=float), height) if y == y and h == h))
        elif isinstance(i, pg.PlotDataItem):
            x, y = i.getOriginalDataset()
            y = [] if y is None else list(np.asarray(y, dtype=float))
            x = range(len(y)) if x is None else list(np.asarray(x, dtype=float))
            lines[i.name()] = tuple((float(a), hist.number(b)) for a, b in zip(x, y) if b == b) if i.name() not in lines else 'twice'
    legend = sorted(label.text for _, label in item.legend.items)
    return lines, sorted(bars), legend


def expected(history, choice):
    lines, bars = {}, []

    def line(name, values):
        lines[name] = tuple((float(i), hist.number(v)) for i, v in enumerate(values) if v == v)

    def bar(values, std):
        bars.append(tuple((float(i), hist.number(v), hist.number(e)) for i, (v, e) in enumerate(zip(values, std)) if v == v and e == e))
    for path, value in choice.items():
        if path[0] == 'Gate Voltages' and value:
            line(path[1], history.get_gate_values(path[1]))
        elif path[0] == 'Parameters' and value:
            line(path[1], history.get_parameter_values(path[1]))
            if value.endswith('error'):
                bar(history.get_parameter_values(path[1]), history.get_parameter_std(path[1]))
        elif path[0] == 'Gradients' and len(path) == 3 and value:
            values, variances = history.get_gradients(path[1])[path[2]], history.get_gradient_variances(path[1])
            line('#'.join(path[1:]), values)
            if value.endswith('error') and path[2] in variances:
                bar(values, np.sqrt(variances[path[2]]))
    return lines, sorted(bars), sorted(lines)


OPTIONS = ('', 'plot', 'plot + error')


def realtime(chunk, rec):
    _, hierarchy, tier = chunk
    depth = 3 if tier == 'quick' else 4
    number = sorted(hist.HIERARCHIES).index(hierarchy)
    for j, start in enumerate((1, 5) if tier == 'quick' else (0, 1, 5)):
        base = steps(hierarchy, 'far', start)
        history = base[2]
        gates, names = sorted(history.gate_names), sorted(history.parameter_names)
        grads = {p: sorted(g) for p, g in sorted(history.gradient_controlled_parameter_names.items())}
        measured = {p: sorted(history.get_gradients(p).columns) for p in grads}
        paths = {('Gate Voltages', g) for g in gates} | {('Parameters', p) for p in names} | {('Gradients', p) for p in grads} | {('Gradients', p, g) for p in measured for g in measured[p]}
        some = [('set', ('Gate Voltages', g), v) for g in (gates[0], gates[-1]) for v in (True, False)]
        some += [('set', ('Parameters', p), v) for p in (names[0], names[-1]) for v in OPTIONS]
        for p in [p for p in measured if measured[p]][:2]:
            some += [('set', ('Gradients', p), v) for v in OPTIONS] + [('set', ('Gradients', p, measured[p][0]), v) for v in OPTIONS]
        some = list(dict.fromkeys(some)) + [('step',), ('refresh',)]
        k = 0
        for seq in itertools.product(some, repeat=depth):
            if any(a == b for a, b in zip(seq, seq[1:])) or seq[0][0] in ('step', 'refresh') or seq[0][-1] in (False, '') or seq[-2:] == (('refresh',), ('step',)):
                continue
            k += 1
            if (k + number + 2 * j) % (41 if tier == 'quick' else 61):
                continue
            organizer(rec, chunk, start, base, seq, paths)
            if rec.violations:
                return
        everything = tuple(('set', p, True if p[0] == 'Gate Voltages' else 'plot + error') for p in sorted(paths))
        organizer(rec, chunk, start, base, everything + (('step',), ('step',), ('refresh',)) + tuple(('set', p, False if p[0] == 'Gate Voltages' else 'plot') for p in sorted(paths))
                  + (('step',),) + tuple(('set', p, False if p[0] == 'Gate Voltages' else '') for p in sorted(paths)), paths)


def organizer(rec, chunk, start, base, seq, paths):
    rec.current = (chunk, start, seq)
    action = None

    def need(cond, message):
        return rec.require(cond, message, case=(rec.current, action))
    lab, at, history = clone(base[1], base[0], base[2])
    gui = qt.control_window(at, history)
    window = qt.new_window(qt.button(gui, 'Real Time Plot').click)
    qt.LOG.errors()
    if not need(window is not None, 'no window appears'):
        return
    tree = tree_parameters(window)
    need(set(tree) == paths, lambda: 'one can choose %r instead of %r' % (sorted(tree), sorted(paths)))
    choice = {p: False if p[0] == 'Gate Voltages' else '' for p in tree}
    for action in seq:
        if action[0] == 'set':
            tree[action[1]].setValue(action[2])
            if action[1][0] == 'Gradients' and len(action[1]) == 2 and choice[action[1]] != action[2]:
                for p in tree:
                    if p[:2] == action[1] and len(p) == 3:
                        choice[p] = action[2]
            choice[action[1]] = action[2]
        elif action[0] == 'step':
            qt.button(gui, 'Step').click()
            qt.work(gui)
        else:
            qt.button(window, 'Refresh').click()
        rec.transition()
        errors = qt.LOG.errors()
        need(not errors, lambda: 'error: %r' % errors[:2])
        got, want = shown(window), expected(history, choice)
        for what, a, b in zip(('curves', 'error bars', 'legend'), got, want):
            need(a == b, lambda: '%s: %.600r instead of %.600r' % (what, a, b))
        need({p: tree[p].value() for p in tree} == choice, lambda: 'the tree shows %r instead of %r' % ({p: tree[p].value() for p in tree}, choice))
        rec.state((chunk[1], start, got))
        if rec.violations:
            break
    qt.dispose(gui, window)
    rec.execution(key=rec.current, outcome=rec.current)
    rec.trace()


# -- raw data ---------------------------------------------------------------------------------------------------------

def raw_data(kind, count):
    """a different scan for each evaluation: (measurement name, options) -> data"""
    if kind in c18.FITS:
        cases = c18.FITS[kind]
        return lambda name, o: c18.fit_case(kind, cases[(count * 7) % len(cases)])[0] * 1.
    if kind == 'transition':
        return lambda name, o: (np.arange(o['N_points']) > (100 if o['gate'] == 'RFA' else 200) + 20 * count) * 1.
    if kind == 'one':
        return lambda name, o: np.tanh(np.linspace(-2. - .3 * count, 3., o['N_points']))
    return lambda name, o: -np.tanh(np.linspace(-2., 3. + .3 * count, 104))[None, :] * (1. - .01 * abs(np.arange(20) - 12 + count))[:, None]


class Scanning:
    """a tuner which evaluates a shipped evaluator (or two) at a new point in each step"""

    def __init__(self, kinds, averaged, unusable=()):
        self.scans = 0
        self.lab = c18.Scans(self.data)
        self.kinds, self.unusable = kinds, unusable
        self.evaluators = []
        for kind in kinds:
            e = c18.make(kind, self.lab)
            if averaged:
                e = AveragingEvaluator(e, 2)
            self.evaluators.append(e)
        names = [p for e in self.evaluators for p in e.parameters]
        gates = sorted(self.lab.voltages)[:2]
        start = series({g: self.lab.voltages[g] for g in gates})
        target = make_target(desired=series({p: 1e6 for p in names}), tolerance=series({p: 1e-9 for p in names}))
        self.at = Autotuner(self.lab, [SubsetTuner(self.evaluators, gates, solver=ScriptSolver(target, start, series({g: 1e-4 for g in gates})))])
        self.history = History(None, self.lab)
        self.gui = None

    def data(self, name, options, voltages):
        out = self.make(name, options)
        self.scans += 1
        return out

    def make(self, name, options):
        kind = [k for k in self.kinds if c18.NAMES[k] == name][0]
        count = int(round((self.at.tuning_hierarchy[0].solver._current_position.iloc[0] - 0) * 1e4)) % 5
        out = raw_data(kind, count)(name, options)
        if self.history.number_of_stored_iterations in self.unusable:
            out = out * np.nan
        elif kind == 'tc' and count % 2 == 0:
            # the scan is repeated, and a point of one repetition is missing
            out = np.stack([flat(out) * f for f in (1.02, .98, 1.)])
            out *= 1. + 1e-4 * np.sin(np.arange(out.shape[1]))      # (no fit is exact)
            out[2, 5 + 9 * count] = np.nan
        return out


def raw(chunk, rec):
    _, (kind, averaged), tier = chunk
    matched = {'tc', 'load', 'prefit', 'lead', 'transition', 'one', 'two'} if not averaged else {'tc', 'lead', 'prefit'}
    if kind in matched:
        for unusable in ((), (2,)):
            single(chunk, rec, (kind,), averaged, unusable, tier)


def pairs(chunk, rec):
    single(chunk, rec, chunk[1], False, (), chunk[2])


def names(chunk, rec):
    """History.plot_evaluator_data for lists of names"""
    run = Scanning(('tc', 'load', 'transition'), False)
    while run.history.number_of_stored_iterations < 4:
        run.at.iterate()
        run.history.append_autotuner(run.at)
    known = sorted(run.history.evaluator_names)
    for n in range(0, 4):
        for chosen in itertools.permutations(known + ['nobody', 'nothing'], n):
            for start, end in ((0, None), (1, 3), (0, 4), (2, 2), (1, None))[:1 if n == 3 and chunk[2] == 'quick' else 5]:
                rec.current = ('names', chosen, start, end)
                plot_rows(rec, run, list(chosen), start, end, [c for c in chosen if c in known])
    rec.current = ('names', None)
    plot_rows(rec, run, None, 0, 2, list(run.history.evaluator_names))


def plot_rows(rec, run, chosen, start, end, wanted):
    given = None if chosen is None else chosen[:]
    try:
        figures, axes = run.history.plot_evaluator_data(start=start, end=end, evaluator_names=chosen)
    except Exception as e:
        rec.violation('plot_evaluator_data(%r, %r, %r) raised %r' % (start, end, given, e))
        return
    qt.LOG.errors()
    rows = range(start, start + 1 if end is None else end)
    rec.require(chosen == given, lambda: 'the list of names is changed to %r' % (chosen,))
    rec.require(len(figures) == len(axes) == len(rows), lambda: '%d figures for the rows %r' % (len(figures), rows))
    for i, ax in zip(rows, axes):
        ax = list(np.ravel(ax))
        for name in wanted:
            data = run.history.get_evaluator_data().iloc[i][name]
            count = number_of_axes(data)
            here, ax = ax[:count], ax[count:]
            for a in here:
                rec.require(a.get_title() == name, lambda: 'the axes of %s have the title %r' % (name, a.get_title()))
            check_raw(rec.require, here, name, data, run.history, i, titles=False)
        rec.require(not any(a.lines or a.collections for a in ax), 'there are further data')
    plt.close('all')
    rec.transition()
    rec.execution(key=rec.current, outcome=rec.current)
    rec.state(rec.current)
    rec.trace()


def number_of_axes(data):
    return len(data['measurements']) if 'measurements' in data else len(data['evaluator'].measurements)


def single(chunk, rec, kinds, averaged, unusable, tier):
    base = Scanning(kinds, averaged, unusable)
    base.history.append_autotuner(base.at)
    while base.history.number_of_stored_iterations < 4:
        base.at.iterate()
        base.history.append_autotuner(base.at)
    rows = base.history.number_of_stored_iterations
    evaluators = sorted(base.history.evaluator_names)
    rec.require(evaluators == sorted(e.name for e in base.evaluators), lambda: 'raw data of %r' % evaluators)
    texts = ('0', '1', str(rows - 1), '99', '-1') if len(kinds) == 1 else ('0', '1', str(rows - 1))
    some = [('row', t) for t in texts] + [('plot', e) for e in evaluators] + [('step',)]
    depth = 3 if tier == 'quick' else 4
    for n in range(1, depth + 1):
        for seq in itertools.product(some, repeat=n):
            if seq[-1][0] != 'plot' or any(a[0] == b[0] and a[0] != 'plot' for a, b in zip(seq, seq[1:])):
                continue
            rec.current = (chunk, kinds, averaged, unusable, seq)
            raw_window(rec, base, seq)
            if rec.violations:
                return
    for i in range(rows):
        rec.current = (chunk, kinds, averaged, unusable, i)
        data = base.history.get_evaluator_data().iloc[i]
        plot_rows(rec, base, evaluators[:], i, None, [e for e in evaluators if isinstance(data[e], dict)])


def raw_window(rec, base, seq):
    lab = c18.Scans(None, base.lab.voltages)
    run = copy.deepcopy(base, {id(base.lab): lab})
    lab.data = run.data
    action = None

    def need(cond, message):
        return rec.require(cond, message, case=(rec.current, action))
    history = run.history
    gui = qt.control_window(run.at, history)
    window = qt.new_window(qt.button(gui, 'Raw Data Plot').click)
    line = window.findChildren(qt.QtWidgets.QLineEdit)[0]
    qt.LOG.errors()
    for action in seq:
        if action[0] == 'row':
            line.setText(action[1])
            line.editingFinished.emit()
            want = max(0, min(int(action[1]), history.number_of_stored_iterations - 1))
            need(line.text() == str(want), lambda: 'chosen %r of %d: shows %r' % (action[1], history.number_of_stored_iterations, line.text()))
        elif action[0] == 'step':
            qt.button(gui, 'Step').click()
            qt.work(gui)
        else:
            qt.button(window, action[1]).click()
            plots = [w for w in window.findChildren(qt.gui_module.MatplotlibWidget)]
            figure = plots[-1].getFigure()
            i = int(line.text())
            data = history.get_evaluator_data().iloc[i][action[1]]
            if isinstance(data, dict):
                count = number_of_axes(data)
                need(len(figure.axes) >= count, lambda: '%d axes for %d measurements' % (len(figure.axes), count))
                check_raw(need, figure.axes[:count], action[1], data, history, i)
            else:
                need(not figure.axes, 'there are no data, but axes')
        rec.transition()
        errors = qt.LOG.errors()
        need(not errors, lambda: 'error: %r' % errors[:2])
        rec.state((rec.current[1:4], history.number_of_stored_iterations, line.text(), action))
        if rec.violations:
            break
    qt.dispose(gui, window)
    rec.execution(key=rec.current, outcome=rec.current)
    rec.trace()


def flat(values):
    values = np.squeeze(np.asarray(values, dtype=float))
    return np.nanmean(values, 0) if values.ndim == 2 else values


def line_of(ax, label):
    found = [x for x in ax.lines if x.get_label() == label]
    return found[0] if len(found) == 1 else None


def equal(a, b):
    a, b = (np.ma.filled(np.ma.asarray(x, dtype=float), np.nan) for x in (a, b))
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-15, equal_nan=True)


def check_raw(need, axes, name, data, history, row, titles=True):
    """the scan of a row with its evaluation"""
    if 'evaluator' in data:
        data = data['evaluator'].to_hdf5()
    values = {p: history.get_parameter_values(p).iloc[row] for p in data['parameters'] if p in history.parameter_names}
    if 'sweeping_gates' in data:
        ax = axes[0]
        meshes = [c for c in ax.collections if hasattr(c, 'get_coordinates')]
        if need(len(meshes) == 1, 'no image'):
            need(equal(np.ravel(meshes[0].get_array()), np.ravel(np.squeeze(data['raw_y_data']))), 'the image is not the recorded scan')
        return marks(need, ax, values)
    for i, ax in enumerate(axes):
        many = 'transition_positions' in data
        y, x = (data[k][i] if many else data[k] for k in ('raw_y_data', 'raw_x_data'))
        y = flat(y)
        x = np.arange(len(y)) if x is None else flat(x)
        lines = [r for r in ax.lines if equal(r.get_ydata(), y) and equal(r.get_xdata(), x)]
        need(lines, lambda: '%s, row %d: the recorded scan is not among the lines %r' % (name, row, [list(r.get_ydata()[:3]) for r in ax.lines]))
        if 'fit_results' in data and data['fit_results'] is not None:
            function = {'InterDotTCByLineScan': qt.gui_module.qtune.evaluator.func_inter_dot_coupling, 'LoadTime': qt.gui_module.qtune.evaluator.func_load_time,
                        'LeadTunnelTimeByLeadScan': qt.gui_module.qtune.evaluator.func_lead_times_v1}[data['name']]
            if 'slope_1' in data['fit_results']:
                function = qt.gui_module.qtune.evaluator.func_lead_times_v2
            fit = function(x, **dict(data['fit_results']))
            need(any(equal(r.get_ydata(), fit) and (len(lines) > 1 or r not in lines) for r in ax.lines), lambda: '%s, row %d: the fit is not shown' % (name, row))
        if many:
            # each scan is titled with the parameter it yields
            p = data['transition_positions'].index[i]
            marks(need, ax, {p: values[p]} if p in values else {})
            need(not titles or ax.get_title() == p, lambda: 'axes of %s have the title %r' % (p, ax.get_title()))
        if 'optimal_position' in data:
            marks(need, ax, {'position': data['optimal_position']})


def marks(need, ax, values):
    """straight lines at the recorded positions"""
    at = set()
    for c in ax.collections:
        if hasattr(c, 'get_segments'):
            for s in c.get_segments():
                for k in (0, 1):
                    if len(s) == 2 and s[0][k] == s[1][k]:
                        at.add((k, hist.number(s[0][k])))
    for p, v in values.items():
        if v == v:
            need(any(abs(x - v) < 1e-9 for _, x in at), lambda: '%s = %r is not marked: %r' % (p, v, sorted(at)))

"""Reading a History through its queries, and the set-ups used by the checks of the history."""
import os

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.evaluator import AveragingEvaluator, Evaluator, SensingDot1D, SensingDot2D
from qtune.experiment import Measurement
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NewtonSolver, make_target

from mc import setups
from mc.setups import estimator
from mc.world import Lab, evaluator, series

NAN = float('nan')


def averaging_group(lab, step=NAN, number=1):
    target = make_target(desired=series(dict(p=1., q=-.5)), tolerance=series(dict(p=.05, q=.05)),
                         rescaling_factor=series(dict(p=1., q=2.)))
    start = series({g: lab.voltages[g] for g in ('a', 'b')})
    solver = NewtonSolver(target=target, current_position=start.copy(),
                          gradient_estimators=[estimator('kalman', start, np.array([.8, .4])),
                                               estimator('kalman', start, np.array([.15, -.4]))])
    return SubsetTuner([AveragingEvaluator(evaluator(lab, 'p'), 2), evaluator(lab, 'q')], ['a', 'b'], solver=solver,
                       maximal_step_size=step, maximal_step_number=number)


N, WIDTH = 65, 1.


def line(v):
    x = np.linspace(v['s'] - WIDTH, v['s'] + WIDTH, N)
    return 1. / (1. + np.exp(-8. * (x - .25 * v['a'] - .3)))


def plane(v):
    y = np.linspace(v['x'] - WIDTH, v['x'] + WIDTH, 9)[:, None]
    x = np.linspace(v['s'] - WIDTH, v['s'] + WIDTH, N)[None, :]
    return -(1. + .2 * np.cos(y - 1.1)) / (1. + np.exp(-8. * (x - .25 * v['a'] - .3)))


def scan_group(lab):
    """the shipped evaluators of the sensing dot"""
    one = SensingDot1D(lab, 's', ('position_s', 'current_signal', 'optimal_signal'),
                       (Measurement('line_scan', center=None, range=WIDTH, gate='s', N_points=N),))
    two = SensingDot2D(lab, ('x', 's'), WIDTH, ('position_x', 'position_s'),
                       (Measurement('2d_scan', center=[None, None], range=WIDTH, gate1='x', gate2='s'),))
    target = make_target(minimum=pd.Series([.045], index=['current_signal']),
                         cost_threshold=pd.Series([.025], index=['current_signal']))
    solver = ForwardingSolver(target, pd.Series({'position_s': 's', 'position_x': 'x'}),
                              series({g: lab.voltages[g] for g in ('s', 'x')}))
    return SensingDotTuner([one], [two], ['s', 'x'], solver=solver)


HIERARCHIES = dict(setups.HIERARCHIES)
HIERARCHIES.update({
    'averaging': lambda lab: [averaging_group(lab)],
    'averaging sliced': lambda lab: [averaging_group(lab, .2, 3)],
    'scans+kalman': lambda lab: [scan_group(lab), setups.pq_group(lab, 'kalman', .4, 2)],
    'scans+averaging': lambda lab: [scan_group(lab), averaging_group(lab, .4, 2)],
})


def build(hierarchy, lab_name, **kwargs):
    curved, hole, start = setups.LABS[lab_name]
    response = setups.responses(curved, hole)
    response.update({'line_scan': line, '2d_scan': plane})
    lab = Lab(dict(setups.HOME, **start), response)
    at = Autotuner(lab, HIERARCHIES[hierarchy](lab), **kwargs)
    lab.log.clear()
    lab.calls = 0
    return at, lab


def number(x):
    x = float(x)
    return 'nan' if x != x else round(x, 10) + 0.


def raw(x):
    """plain comparable form of the raw data of an evaluator"""
    if x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, Measurement):
        return ('measurement', x.name, raw(dict(x.options)))
    if isinstance(x, Evaluator):
        return ('evaluator', raw(x.to_hdf5()))
    if isinstance(x, pd.Series):
        return ('labelled',) + tuple(sorted((str(k), raw(v)) for k, v in x.items()))
    if isinstance(x, dict):
        return tuple(sorted((k, raw(v)) for k, v in x.items() if k != 'experiment'))
    if isinstance(x, np.ndarray):
        return raw(x.tolist())
    if isinstance(x, (list, tuple)):
        return tuple(raw(v) for v in x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return number(x)
    return repr(x)


def column(s):
    return tuple(number(v) for v in s)


def frame(df):
    return tuple(sorted((str(c), column(df[c])) for c in df.columns))


def table(history, paths=True):
    """everything the history can be asked for"""
    out = dict(rows=history.number_of_stored_iterations,
               gates=tuple(sorted(history.gate_names)), parameters=tuple(sorted(history.parameter_names)))
    for g in sorted(history.gate_names):
        out['gate ' + g] = column(history.get_gate_values(g))
    for p in sorted(history.parameter_names):
        out['value ' + p] = column(history.get_parameter_values(p))
        out['std ' + p] = column(history.get_parameter_std(p))
        out['gradient ' + p] = frame(history.get_gradients(p))
        out['covariance ' + p] = frame(history.get_gradient_covariances(p))
        out['variance ' + p] = frame(history.get_gradient_variances(p))
    data = history.get_evaluator_data()
    for e in sorted(data.columns):
        out['raw ' + e] = tuple('nan' if not isinstance(v, dict) else raw(v) for v in data[e])
    out['raw rows'] = len(data.index)
    if paths:
        out['paths'] = tuple(os.path.realpath(history.get_reload_path(i)) for i in range(out['rows']))
    return out


def difference(a, b):
    return ['%s: %.300s != %.300s' % (k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:3]

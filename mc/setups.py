"""Closed tuning set-ups made of the shipped tuners, solvers and gradient estimators on a deterministic experiment."""
import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.gradient import (FiniteDifferencesGradientEstimator, KalmanGradientEstimator,
                            SelfInitializingKalmanEstimator)
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NelderMeadSolver, NewtonSolver, make_target

from mc.world import Lab, evaluator, series

NAN = float('nan')
HOME = dict(a=0., b=0., s=0., x=1.)


def responses(curved=False, hole=False):
    """measurement name -> function of the voltages; with `hole` the parameter p cannot be evaluated in a region"""
    def p(v):
        if hole and .24 < v['a'] < .27:
            return NAN, .01
        return v['a'] + .5 * v['b'] + (.2 * v['a'] ** 2 if curved else 0.) + .125 * v['x'], .01

    def q(v):
        return .25 * v['a'] - v['b'] + (.1 * v['b'] ** 2 if curved else 0.), .02

    def r(v):
        return v['x'] + .125 * v['a'], .01

    def signal(v):
        d = v['s'] - .25 * v['a']
        if hole and .12 < v['a'] < .16:
            return NAN, .01
        return 2. - 1.5 * d * d, .01

    def spot(v):
        return v['s'] - .5 * (v['s'] - .25 * v['a']), .01

    def best(v):
        return .25 * v['a'], .01
    return dict(m_p=p, m_q=q, m_r=r, m_signal=signal, m_spot=spot, m_best=best)


def estimator(kind, start, guess, epsilon=.25):
    gates = list(start.index)
    if kind == 'fd':
        return FiniteDifferencesGradientEstimator(current_position=start.copy(), epsilon=epsilon)
    if kind == 'fdsym':
        return FiniteDifferencesGradientEstimator(current_position=start.copy(), epsilon=epsilon, symmetric=True)
    if kind == 'fdlearn':
        return FiniteDifferencesGradientEstimator(epsilon=pd.Series(epsilon, index=gates))
    if kind == 'kalman':
        return KalmanGradientEstimator(
            KalmanGradient(len(gates), 1, initial_gradient=guess, initial_covariance_matrix=np.eye(len(gates)) * .5,
                           process_noise=np.eye(len(gates)) * 1e-3, alpha=1.05),
            current_position=start.copy(), maximum_covariance=.3, epsilon=epsilon)
    if kind == 'self':
        return SelfInitializingKalmanEstimator.from_scratch(start.copy(), pd.Series(epsilon, index=gates), 1.)
    raise KeyError(kind)


def pq_group(lab, kind, step=NAN, number=1, desired=(1., -.5), tolerance=(.05, .05), factor=(1., 2.), names=('p', 'q')):
    target = make_target(desired=series(dict(zip(names, desired))), tolerance=series(dict(zip(names, tolerance))),
                         rescaling_factor=series(dict(zip(names, factor))))
    start = series({g: lab.voltages[g] for g in ('a', 'b')})
    estimators = [estimator(kind, start, np.array([.8, .4]) / factor[0]),
                  estimator(kind, start, np.array([.3, -.8]) / factor[1])]
    solver = NewtonSolver(target=target, gradient_estimators=estimators, current_position=start.copy())
    return SubsetTuner([evaluator(lab, *names)], ['a', 'b'], solver=solver, maximal_step_size=step,
                       maximal_step_number=number)


def simplex_group(lab, step=NAN, number=1):
    target = make_target(desired=series(dict(p=1., q=-.5)), tolerance=series(dict(p=.05, q=.05)))
    start = series({g: lab.voltages[g] for g in ('a', 'b')})
    solver = NelderMeadSolver.from_scratch(target=target, span=series(dict(a=.5, b=.5)), current_position=start,
                                           current_values=series(dict(p=NAN, q=NAN)))
    return SubsetTuner([evaluator(lab, 'p', 'q')], ['a', 'b'], solver=solver, maximal_step_size=step,
                       maximal_step_number=number)


def r_group(lab, kind, step=NAN, number=1):
    target = make_target(desired=pd.Series([2.], index=['r']), tolerance=pd.Series([.05], index=['r']))
    start = series({'x': lab.voltages['x']})
    solver = NewtonSolver(target=target, gradient_estimators=[estimator(kind, start, np.array([.8]))],
                          current_position=start.copy())
    return SubsetTuner([evaluator(lab, 'r')], ['x'], solver=solver, maximal_step_size=step, maximal_step_number=number)


def sensing_group(lab):
    target = make_target(minimum=pd.Series([1.], index=['signal']), cost_threshold=pd.Series([-1.], index=['signal']))
    solver = ForwardingSolver(target, pd.Series({'spot': 's', 'best': 's'}), series({'s': lab.voltages['s']}))
    return SensingDotTuner([evaluator(lab, 'signal', 'spot')], [evaluator(lab, 'best')], ['s'], solver=solver)


def shared_groups(lab, groups=(('p',), ('q', 'r')), step=NAN, number=1, limit=.3):
    """groups using the same gates and the same gradient estimators for all parameters (as in the tutorial)"""
    names = ['q', 'p', 'r']
    guess = dict(p=[.8, .4, .1], q=[.1, -.4, .05], r=[.1, 0., .8])
    desired, factor = dict(p=1., q=-.25, r=1.5), dict(p=1., q=2., r=1.)
    start = series({g: lab.voltages[g] for g in ('a', 'b', 'x')})
    estimators = [KalmanGradientEstimator(
        KalmanGradient(3, 1, initial_gradient=np.array(guess[n]), initial_covariance_matrix=np.eye(3) * .5,
                       process_noise=np.eye(3) * 1e-3, alpha=1.05),
        current_position=start.copy(), maximum_covariance=limit, epsilon=.25) for n in names]
    out = []
    for own in groups:
        target = make_target(desired=series({n: desired[n] if n in own else NAN for n in names}),
                             tolerance=series({n: .05 if n in own else NAN for n in names}),
                             rescaling_factor=series({n: factor[n] for n in names}))
        solver = NewtonSolver(target=target, gradient_estimators=estimators, current_position=start.copy())
        out.append(SubsetTuner([evaluator(lab, *own)], ['a', 'b', 'x'], solver=solver, maximal_step_size=step,
                               maximal_step_number=number))
    return out


# name -> function(lab) -> hierarchy
HIERARCHIES = {
    'fd': lambda lab: [pq_group(lab, 'fd')],
    'fdsym': lambda lab: [pq_group(lab, 'fdsym')],
    'fdlearn': lambda lab: [pq_group(lab, 'fdlearn')],
    'kalman': lambda lab: [pq_group(lab, 'kalman')],
    'self': lambda lab: [pq_group(lab, 'self')],
    'fd sliced': lambda lab: [pq_group(lab, 'fd', .5, 2)],
    'kalman sliced': lambda lab: [pq_group(lab, 'kalman', .3, 3)],
    'simplex': lambda lab: [simplex_group(lab)],
    'simplex sliced': lambda lab: [simplex_group(lab, .3, 3)],
    'sensing': lambda lab: [sensing_group(lab)],
    'sensing+kalman': lambda lab: [sensing_group(lab), pq_group(lab, 'kalman', .4, 2)],
    'fd+self': lambda lab: [r_group(lab, 'fd'), pq_group(lab, 'self')],
    'shared': lambda lab: shared_groups(lab),
    'sensing+shared': lambda lab: [sensing_group(lab)] + shared_groups(lab, (('q',), ('r',), ('p',)), .4, 2),
    'kalman+sensing+fd': lambda lab: [r_group(lab, 'kalman', .2, 3), sensing_group(lab), pq_group(lab, 'fd')],
}

# name -> (curved, hole, start)
LABS = {
    'linear': (False, False, {}),
    'curved': (True, False, {}),
    'hole': (True, True, {}),
    'far': (True, True, dict(a=-1., b=1., s=2.)),
}


def build(hierarchy, lab_name, **kwargs):
    curved, hole, start = LABS[lab_name]
    lab = Lab(dict(HOME, **start), responses(curved, hole))
    at = Autotuner(lab, HIERARCHIES[hierarchy](lab), **kwargs)
    lab.log.clear()
    lab.calls = 0
    return at, lab


def plain(x):
    """a comparable, label-preserving plain form"""
    if x is None:
        return None
    if isinstance(x, pd.DataFrame):
        return tuple(sorted((str(i), str(c), plain(x.loc[i, c])) for i in x.index for c in x.columns))
    if isinstance(x, pd.Series):
        return tuple(sorted((str(i), plain(v)) for i, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(plain(v) for v in x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        x = float(x)
        return 'nan' if x != x else round(x, 9) + 0.
    return str(x)


def observe(at):
    """everything a user can see of the tuner between two steps"""
    out = dict(index=at.current_tuner_index, status=bool(at.current_tuner_status), pending=plain(at.voltages_to_set),
               complete=bool(at.is_tuning_complete()), tuned=tuple(sorted(at.tuned_parameters)))
    for i, t in enumerate(at.tuning_hierarchy):
        values, variances = t.last_parameters_and_variances
        out['group %d' % i] = dict(last=plain(t.last_voltages), values=plain(values), variances=plain(variances),
                                   tuned=plain(t.tuned_voltages), failed=bool(t.last_evaluation_failed),
                                   target=plain(t.target), position=plain(t.solver.current_position))
        if isinstance(t.solver, NewtonSolver):
            out['group %d' % i]['gradients'] = tuple(
                (plain(e.estimate()), plain(e.covariance()), plain(e.current_position))
                for e in t.solver.gradient_estimators)
    return out


def difference(a, b, path=''):
    """first differences between two observations, as text"""
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            if isinstance(a.get(k), dict) and isinstance(b.get(k), dict):
                out += difference(a[k], b[k], path + k + '/')
            else:
                out.append('%s%s: %r != %r' % (path, k, a.get(k), b.get(k)))
    return out[:4]

"""C03: what reaches the voltage setter of the experiment."""
import itertools

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NewtonSolver, make_target

from mc.core import enumerate_tree
from mc.kit import ScriptSolver, close
from mc.world import Lab, evaluator, series

TECHNIQUE = 'exhaustive enumeration of set-ups, undefined-voltage subsets and verdict histories on the real tuner'
LEVEL = 'model_checking'
RULE = ('(nan) every subset of pending gates x every subset of them undefined x position in the hierarchy, refused twice; '
        '(own) every assignment of gate subsets to up to three groups x every verdict history; (name) every place that names '
        'a gate x renamed/additional gate x tuner position; all calls to the experiment are compared with the reference')
BOUNDS = {'quick': '4 gates; ownership: all subsets of 3 gates for 1 and 2 groups (5 evaluations), subsets of size <= 2 for 3 groups '
                   '(4 evaluations)',
          'thorough': '7 evaluations for 1 and 2 groups, all subsets and 5 evaluations for 3 groups'}
ASSUMPTIONS = ['the experiment changes its voltages only when told', 'evaluations succeed (walking back after failures is C05)']

GATES = ['g0', 'g1', 'g2', 'x']
NAN = float('nan')


def subsets(items, low=1):
    return [c for k in range(low, len(items) + 1) for c in itertools.combinations(items, k)]


def chunks(tier):
    for pend in subsets(GATES):
        yield 'nan', pend
    own = subsets(GATES[:3])
    for k in (1, 2):
        for combo in itertools.product(range(len(own)), repeat=k):
            yield 'own', combo, 5 if tier == 'quick' else 7
    few = [i for i, o in enumerate(own) if len(o) <= 2] if tier == 'quick' else range(len(own))
    for combo in itertools.product(few, repeat=3):
        yield 'own', combo, 4 if tier == 'quick' else 5
    for n in (1, 2, 3):
        yield 'name', n
    yield 'solver nan',


def explore(chunk, rec):
    dict(nan=nan, own=own, name=name)[chunk[0]](chunk, rec) if chunk[0] != 'solver nan' else solver_nan(chunk, rec)


def scripted_group(lab, i, gates, move=None):
    p = ['p%d' % i]
    target = make_target(desired=pd.Series(0., index=p), tolerance=pd.Series(.5, index=p))
    solver = ScriptSolver(target, series({g: lab.voltages[g] for g in gates}),
                          move if move is not None else series({g: .25 * (i + 1) for g in gates}))
    return SubsetTuner([evaluator(lab, *p)], list(gates), solver=solver)


def home():
    return {g: .5 * k for k, g in enumerate(GATES)}


def writes(lab):
    return [dict(c[1]) for c in lab.log if c[0] == 'set']


def refused(at, lab, rec, what):
    """the step must be refused without touching the experiment"""
    before = dict(lab.voltages)
    lab.log.clear()
    rec.transition()
    try:
        at.iterate()
    except Exception:
        pass
    else:
        rec.violation('%s: the step was not refused' % what)
    rec.require(lab.voltages == before and all(c[0] == 'read' for c in lab.log),
                lambda: '%s: the experiment was touched: %r' % (what, lab.log))


def nan(chunk, rec):
    pend = chunk[1]
    for bad in subsets(pend, 0):
        for index in (0, 1):
            for kind in ('subset', 'sensing'):
                rec.current = (chunk, bad, index, kind)
                lab = Lab(home(), {'m_p0': lambda v: (1., .1), 'm_p1': lambda v: (1., .1)})
                groups = [scripted_group(lab, 0, ['g0']), scripted_group(lab, 1, ['g1'])]
                pending = series({g: NAN if g in bad else 3. + k for k, g in enumerate(pend)})
                at = Autotuner(lab, groups, current_tuner_index=index, voltage_to_set=pending.copy())
                if bad:
                    for attempt in range(3):
                        refused(at, lab, rec, 'undefined voltages for %r, attempt %d' % (bad, attempt))
                        rec.require(at.current_tuner_index == index and not at.is_tuning_complete(),
                                    'a refused step changed the position')
                        rec.state((pend, bad, index, attempt))
                    # a restart gets rid of them
                    at.restart()
                    lab.log.clear()
                    at.iterate()
                    rec.require(not writes(lab), lambda: 'after a restart the refused voltages were sent: %r' % writes(lab))
                else:
                    lab.log.clear()
                    at.iterate()
                    rec.transition()
                    rec.require(writes(lab) == [dict(pending)],
                                lambda: 'pending %r, voltage writes %r' % (dict(pending), writes(lab)))
                    lab.log.clear()
                    at.iterate()
                    at.iterate()
                    rec.require(not writes(lab), lambda: 'pending voltages were sent again: %r' % writes(lab))
                rec.execution(key=(pend, bad, index, kind), outcome=(len(bad), len(pend)))
                rec.trace()
    rec.sample(repr(rec.current))


def solver_nan(chunk, rec):
    """undefined voltages produced by a solver or by a sensing-dot scan"""
    for owned in subsets(GATES[:3]):
        for bad in subsets(owned):
            rec.current = (chunk, owned, bad)
            lab = Lab(home(), {'m_p0': lambda v: (1., .1)})
            at = Autotuner(lab, [scripted_group(lab, 0, owned, series({g: NAN if g in bad else 1. for g in owned}))])
            at.iterate()
            at.iterate()
            rec.transition(2)
            for attempt in range(3):
                refused(at, lab, rec, 'undefined proposal for %r, attempt %d' % (bad, attempt))
                rec.state((owned, bad, attempt))
            rec.execution(key=(owned, bad), outcome=(len(owned), len(bad)))
            rec.trace()
    for value in (NAN, 1.):
        target = make_target(minimum=pd.Series([1.], index=['signal']), cost_threshold=pd.Series([.5], index=['signal']))
        lab = Lab(home(), {'m_signal': lambda v: (0., .1), 'm_spot': lambda v: (value, .1)})
        solver = ForwardingSolver(target, pd.Series({'spot': 'g1'}), series({g: lab.voltages[g] for g in ('g0', 'g1')}))
        at = Autotuner(lab, [SensingDotTuner([evaluator(lab, 'signal')], [evaluator(lab, 'spot')], ['g0', 'g1'], solver=solver)])
        rec.current = (chunk, 'sensing', value)
        start = dict(lab.voltages)
        at.iterate()
        at.iterate()
        rec.transition(2)
        if value != value:
            for attempt in range(3):
                refused(at, lab, rec, 'undefined sensing dot position, attempt %d' % attempt)
        else:
            lab.log.clear()
            at.iterate()
            rec.require(close(lab.voltages, dict(start, g1=1.)) and len(writes(lab)) == 1,
                        lambda: 'sensing dot: wrote %r' % writes(lab))
        rec.execution(key=('sensing', value))
        rec.trace()
    rec.sample(repr(rec.current))


def own(chunk, rec):
    _, combo, depth = chunk
    all_subsets = subsets(GATES[:3])
    owned = [all_subsets[i] for i in combo]

    def run(choose):
        now = dict(n=0)

        def measure(i):
            now['n'] += 1
            return (0. if choose(2) else 1.), .1
        lab = Lab(home(), {'m_p%d' % i: lambda v, i=i: measure(i) for i in range(len(owned))})
        at = Autotuner(lab, [scripted_group(lab, i, g) for i, g in enumerate(owned)])
        position = dict(lab.voltages)
        history = []
        for _ in range(4 * depth):
            if now['n'] >= depth and at.voltages_to_set is None or at.is_tuning_complete():
                break
            rec.current = (chunk, list(choose.taken), history)
            pending = at.voltages_to_set
            pending = None if pending is None else dict(pending)
            index = at.current_tuner_index
            status = at.current_tuner_status
            lab.log.clear()
            at.iterate()
            rec.transition()
            if pending is not None:
                history.append(('apply', pending))
                rec.require(writes(lab) == [pending], lambda: 'pending %r, voltage writes %r' % (pending, writes(lab)))
                position.update(pending)
            else:
                history.append(('evaluate' if not status else 'propose', index))
                rec.require(not writes(lab), lambda: 'voltages written without being pending: %r' % writes(lab))
                if at.voltages_to_set is not None:
                    foreign = {g: v for g, v in at.voltages_to_set.items() if g not in owned[index] and v != position.get(g)}
                    rec.require(not foreign, lambda: 'group %d owning %r changes foreign gates %r (now at %r)'
                                                     % (index, owned[index], foreign, position))
                    expect = {g: position[g] + .25 * (index + 1) for g in owned[index]}
                    rec.require(close({g: at.voltages_to_set[g] for g in owned[index]}, expect),
                                lambda: 'proposed %r, expected %r' % (dict(at.voltages_to_set), expect))
            rec.require(lab.voltages == position, lambda: 'gates at %r, expected %r' % (lab.voltages, position))
            rec.state((combo, tuple(sorted(position.items())), at.current_tuner_index, at.current_tuner_status))
        rec.execution(key=(combo, tuple(choose.taken)), outcome=tuple(h[0] for h in history))
        rec.trace()
        rec.sample(repr((chunk, history))[:800])

    enumerate_tree(run)


def newton_group(lab, i, gates, kind, spoil, how):
    """a group in which one place (`spoil`) names a gate that the experiment does not have"""
    p = ['p%d' % i]
    target = make_target(desired=pd.Series(0., index=p), tolerance=pd.Series(.5, index=p))

    def position(place, need=()):
        s = {g: 0. for g in gates}
        if place == spoil:
            if how == 'renamed' and len(need) < len(s):
                del s[sorted(s)[-1]]
            s['Ghost'] = 0.
        return series(s)
    owned = gates
    if spoil == 'solver':
        owned = list(position('solver').index)
    solver_position = position('solver')
    est_position = position('estimator')
    if spoil == 'solver':
        est_position = solver_position.copy()      # consistent with each other, unknown to the experiment
    elif spoil == 'estimator' and how == 'renamed':
        est_position = series(dict({g: 0. for g in gates}, Ghost=0.))
    n = len(est_position)
    if kind == 'fd':
        est = FiniteDifferencesGradientEstimator(current_position=est_position, epsilon=.1)
    else:
        est = KalmanGradientEstimator(KalmanGradient(n, 1, initial_covariance_matrix=np.eye(n)), est_position, 1., .1)
    if kind == 'script':
        solver = ScriptSolver(target, solver_position, 0.)
    else:
        solver = NewtonSolver(target=target, gradient_estimators=[est], current_position=solver_position)
    last = None
    if spoil == 'last':
        last = series({g: lab.voltages[g] for g in lab.voltages})
        if how == 'renamed':
            last = last.rename({'x': 'Ghost'})
        else:
            last['Ghost'] = 0.
    return SubsetTuner([evaluator(lab, *p)], owned, solver=solver, last_voltage=last)


def name(chunk, rec):
    n = chunk[1]
    kinds = ['fd', 'kalman', 'script']
    for where in list(range(n)) + ['pending', 'nothing']:
        for spoil in ('solver', 'estimator', 'last') if isinstance(where, int) else (None,):
            for how in ('renamed', 'additional'):
                for kind in kinds:
                    if kind == 'script' and spoil == 'estimator':
                        continue
                    for index, status in [(i, s) for i in range(n + 1) for s in (False, True) if i < n or not s]:
                        for pend in (False, True):
                            if where == 'pending' and not pend:
                                continue
                            rec.current = (chunk, where, spoil, how, kind, index, status, pend)
                            lab = Lab(home(), {'m_p%d' % i: lambda v: (1., .1) for i in range(n)})
                            groups = [newton_group(lab, i, [['g0', 'g1'], ['g2', 'g1'], ['g0', 'x']][i], kind,
                                                   spoil if where == i else None, how) for i in range(n)]
                            pending = series(home()) + 1. if pend else None
                            if where == 'pending':
                                if how == 'renamed':
                                    pending = pending.rename({'g1': 'Ghost'})
                                else:
                                    pending['Ghost'] = 1.
                            at = Autotuner(lab, groups, current_tuner_index=index, current_tuner_status=status,
                                           voltage_to_set=pending)
                            if where == 'nothing':
                                if index == n:
                                    continue
                                at.iterate()       # a coherent set-up is accepted
                                rec.transition()
                            else:
                                for attempt in range(2):
                                    refused(at, lab, rec, 'unknown gate')
                            rec.state(rec.current)
                            rec.execution(key=rec.current, outcome=(where, spoil, how))
                            rec.trace()
    rec.sample(repr(rec.current))

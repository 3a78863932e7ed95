"""C05: recovery from failed evaluations.

Every pattern of successful and failed evaluations (which parameters are undefined is part of the choice) up to the
stated number of evaluations is executed on the real Autotuner with the real SubsetTuner / SensingDotTuner and compared
with a reference that only knows 'most recent good point' and 'present point'.
"""
import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NewtonSolver, make_target

from mc.core import enumerate_tree
from mc.kit import ScriptSolver, close, mid
from mc.world import Lab, evaluator, series

TECHNIQUE = 'exhaustive enumeration of success/failure patterns of the evaluations of the real tuners against a reference'
LEVEL = 'model_checking'
RULE = ('every sequence of evaluation outcomes (tuned, untuned, each subset of relevant parameters undefined, irrelevant '
        'parameter undefined) after a first successful evaluation; completed runs are continued by a manual move and a restart')
BOUNDS = {'quick': 'gate-subset tuner: 5 evaluations with a scripted solver, with and without slicing, 4 with the Newton '
                   'solver on finite differences and Kalman; sensing dot: 5 evaluations',
          'thorough': '6 evaluations (7 for the sensing dot)'}
ASSUMPTIONS = ['relevant parameters are those with desired value and tolerance (gate-subset group), all cheaply measured '
               'values (sensing dot)', 'the first evaluation of a run succeeds']

HOME = dict(a=.25, b=-.5, other=2.)
NAN = float('nan')
KINDS = ['script', 'slicing', 'difference', 'kalman']


def chunks(tier):
    for kind in KINDS:
        n = 6 if tier != 'quick' else 5 if kind in ('script', 'slicing') else 4
        for first in range(2):
            for second in range(6):
                for third in range(6 if tier == 'thorough' else 1):
                    fixed = (first, second, third) if tier == 'thorough' else (first, second)
                    yield 'subset', kind, n, fixed
    n = 5 if tier == 'quick' else 7
    for slot in range(4):
        for second in range(4):
            yield 'sensing', slot, n, (second,)


# outcome -> values of p (relevant), q (relevant), free (no desired value)
OUTCOMES = [('untuned', (1., .25, 3.)), ('tuned', (.25, -.25, 3.)), ('fail p', (NAN, .25, 3.)), ('fail q', (.25, NAN, 3.)),
            ('fail both', (NAN, NAN, NAN)), ('free undefined', (-1., 1., NAN))]


def explore(chunk, rec):
    (subset if chunk[0] == 'subset' else sensing)(chunk, rec)


def solver_for(kind, target, start):
    gates = list(start.index)
    if kind in ('script', 'slicing'):
        move = series(dict(zip(gates, (.75, 1., .5))))
        return ScriptSolver(target, start.copy(), move), move
    estimators = []
    for k, name in enumerate(target.index):
        grad = np.array([[1., .5, 0.], [0., 1., .25], [.5, 0., 1.]])[k]
        if kind == 'difference':
            known = dict(current_estimate=series(dict(zip(gates, grad))),
                         covariance=pd.DataFrame(np.eye(3), index=gates, columns=gates)) if name == 'free' else {}
            estimators.append(FiniteDifferencesGradientEstimator(current_position=start.copy(), epsilon=.5, **known))
        else:
            estimators.append(KalmanGradientEstimator(
                KalmanGradient(len(gates), 1, initial_gradient=grad, initial_covariance_matrix=np.eye(len(gates)) * .01),
                current_position=start.copy(), maximum_covariance=1., epsilon=.5))
    return NewtonSolver(target=target, gradient_estimators=estimators, current_position=start.copy()), None


def learned(solver):
    """what the optimizer and its gradient estimators know"""
    def plain(x):
        return None if x is None else np.round(np.asarray(x, dtype=float), 12).tolist()
    out = [plain(solver.current_position[sorted(solver.current_position.index)])]
    if isinstance(solver, NewtonSolver):
        for e in solver.gradient_estimators:
            out.append((plain(e.estimate()), plain(e.covariance()), plain(e.current_position)))
            d = e.to_hdf5()
            out.append(repr(d.get('current_value')))
            out.append(len(d.get('stored_measurements') or ()))
    return repr(out)


def subset(chunk, rec):
    _, kind, depth, fixed = chunk
    gates = ['a', 'b', 'c']
    home = dict(HOME, c=1.)

    def run(choose):
        names = ['p', 'q', 'free']
        target = make_target(desired=pd.Series([0., 0., NAN], index=names), tolerance=pd.Series([.5, .5, NAN], index=names))
        start = series({g: home[g] for g in gates})
        solver, move = solver_for(kind, target, start)
        now = {}

        def measure(i):
            if i == 0:
                if now['n'] == 0:
                    now['outcome'], now['values'] = choose([OUTCOMES[0], OUTCOMES[5]])
                else:
                    now['outcome'], now['values'] = choose(OUTCOMES)
                now['n'] += 1
            return now['values'][i], .01
        now['n'] = 0
        lab = Lab(home, {'m_' + p: lambda v, i=i: measure(i) for i, p in enumerate(names)})
        limit, number = (.75, 2) if kind == 'slicing' else (np.nan, 1)
        tuner = SubsetTuner([evaluator(lab, 'p', 'q'), evaluator(lab, 'free')], gates, solver=solver,
                            maximal_step_size=limit, maximal_step_number=number)
        at = Autotuner(lab, [tuner])
        position, good, history = dict(home), None, []
        skip = 0
        told = 0
        moves = 0
        while now['n'] < depth or skip:
            before = learned(solver)
            lab.log.clear()
            n = now['n']
            at.iterate()
            rec.transition()
            history.append(('evaluation', now['outcome'] if now['n'] > n else 'skipped', dict(position)))
            rec.current = (chunk, list(choose.taken), history)
            if skip:
                rec.require(now['n'] == n, 'evaluated in the middle of a large move')
                skip -= 1
            else:
                if not rec.require(now['n'] == n + 1, 'no evaluation took place'):
                    return
                outcome = now['outcome']
                failed = outcome.startswith('fail')
                rec.require(at.is_tuning_complete() == (outcome == 'tuned'),
                            lambda: 'evaluation %r: reported complete=%r' % (outcome, at.is_tuning_complete()))
                rec.require(bool(tuner.last_evaluation_failed) == failed, 'wrong failure flag after %r' % outcome)
                if failed:
                    rec.require(learned(solver) == before,
                                lambda: 'a failed evaluation changed what the optimizer knows: %r -> %r'
                                        % (before, learned(solver)))
                    rec.require(not tuner.tuned_voltages or not any(
                        close(v, position) and v is tuner.last_voltages for v in tuner.tuned_voltages[-1:]),
                        'a failed point was recorded as tuned')
                else:
                    good = dict(position)
                    rec.require(close(solver.current_position, {g: position[g] for g in gates}),
                                'the optimizer is not at the evaluated position')
                    told += 1
                if isinstance(solver, ScriptSolver):
                    rec.require(len(solver.log) == told, 'the optimizer was told about %d evaluations instead of %d'
                                % (len(solver.log), told))
                    if not failed:
                        rec.require(close(solver.log[-1][0], position) and close(
                            solver.log[-1][1], dict(zip(names, now['values']))), 'the optimizer was told wrong values')
                # reported values: relevant parameters only
                values, variances = tuner.last_parameters_and_variances
                rec.require(close({k: values[k] for k in ('p', 'q')}, dict(zip(names[:2], now['values']))),
                            lambda: 'reported values %r, measured %r' % (dict(values), now['values']))
                if at.is_tuning_complete():
                    rec.require(close(tuner.tuned_voltages[-1], position), 'tuned point not recorded')
                    # the user moves the gates and starts again
                    moves += 1
                    lab.voltages['a'] += 1.
                    lab.voltages['other'] -= .5
                    at.restart()
                    position = dict(lab.voltages)
                    history.append(('moved and restarted', dict(position)))
                    continue
            failed = now['outcome'].startswith('fail')
            at.iterate()
            rec.transition()
            got = at.voltages_to_set
            got = None if got is None else dict(got)
            history.append(('proposal', got))
            if got is None:
                rec.violation('no voltages were proposed')
                return
            if failed:
                expect = mid(good, position)
                rec.require(close(got, expect), lambda: 'after a failed evaluation: proposed %r, half-way is %r '
                                                        '(last good point %r, failed at %r)' % (got, expect, good, position))
            elif move is not None:
                step = move.copy()
                if np.linalg.norm(step) > limit:
                    slices = min(int(np.linalg.norm(step) / limit), number)
                    if history[-2][1] != 'skipped':
                        skip = slices - 1
                    step *= limit / np.linalg.norm(step)
                expect = dict(position)
                for g in gates:
                    expect[g] += step[g]
                rec.require(close(got, expect), lambda: 'normal tuning did not resume: proposed %r, expected %r'
                                                        % (got, expect))
            else:
                rec.require(not any(v != v for v in got.values()), 'undefined voltages proposed')
                rec.require(got['other'] == position['other'], 'a foreign gate is moved')
                if kind == 'difference' and told < 4:
                    # the optimizer is still measuring its gradient around the last good point
                    rec.require(not close(got, position), 'no move although the gradient is unknown')
            at.iterate()
            rec.transition()
            position = got
            rec.require(close(lab.voltages, position), 'proposed voltages were not applied')
            rec.state((kind, tuple(sorted(position.items())), failed, skip))
        rec.execution(key=(chunk[:2], tuple(choose.taken)), outcome=tuple(h[1] if h[0] == 'evaluation' else '' for h in history))
        rec.trace()
        rec.sample(repr((chunk, history))[:1500])

    enumerate_tree(run, fixed)


SENSING = [('tuned', (2., .5)), ('untuned', (.75, .5)), ('fail signal', (NAN, .5)), ('fail position', (.75, NAN)),
           ('fail both', (NAN, NAN)), ('expensive', (.25, .5))]


def sensing(chunk, rec):
    _, slot, depth, fixed = chunk

    def run(choose):
        names = ['signal', 'spot']
        target = make_target(minimum=pd.Series([1., NAN], index=names),
                             cost_threshold=pd.Series([.5, NAN], index=names))
        now = dict(n=0, expensive=0)

        def measure(i):
            if i == 0:
                if now['n'] == 0:
                    now['outcome'], now['values'] = SENSING[0]
                elif now['n'] == 1 + slot % 2:
                    # always one failure early on
                    now['outcome'], now['values'] = choose(SENSING[2:5] + SENSING[1:2])
                else:
                    now['outcome'], now['values'] = choose(SENSING[:4] + SENSING[5:] if slot >= 2 else SENSING[:4])
                now['n'] += 1
            return now['values'][i], .01

        def expensive(v):
            now['expensive'] += 1
            return .125, .01
        lab = Lab(HOME, {'m_signal': lambda v: measure(0), 'm_spot': lambda v: measure(1)})
        lab.response['m_spot2'] = expensive
        cheap = evaluator(lab, 'signal', 'spot')
        dear = evaluator(lab, 'spot2')
        gates = ['a', 'b']
        solver = ForwardingSolver(target, pd.Series({'spot': 'a', 'spot2': 'b'}),
                                  series({g: HOME[g] for g in gates}))
        tuner = SensingDotTuner([cheap], [dear], gates, solver=solver)
        at = Autotuner(lab, [tuner])
        position, good, history = dict(HOME), None, []
        while now['n'] < depth:
            n, e = now['n'], now['expensive']
            before = dict(solver.current_position)
            at.iterate()
            rec.transition()
            outcome = now['outcome']
            history.append(('evaluation', outcome, dict(position)))
            rec.current = (chunk, list(choose.taken), history)
            if not rec.require(now['n'] == n + 1, 'no evaluation took place'):
                return
            failed = outcome.startswith('fail')
            rec.require(at.is_tuning_complete() == (outcome == 'tuned'), 'evaluation %r: complete=%r'
                        % (outcome, at.is_tuning_complete()))
            rec.require(bool(tuner.last_evaluation_failed) == failed, 'wrong failure flag after %r' % outcome)
            rec.require((now['expensive'] > e) == (outcome == 'expensive'), 'expensive scan after %r: %r' %
                        (outcome, now['expensive'] - e))
            values = dict(tuner.last_parameters_and_variances[0])
            rec.require(close({k: values[k] for k in names}, dict(zip(names, now['values']))),
                        lambda: 'reported %r, measured %r' % (values, now['values']))
            if failed:
                rec.require(close(solver.current_position, before), 'a failed evaluation moved the optimizer')
            if outcome == 'tuned':
                good = dict(position)
                rec.require(close(tuner.tuned_voltages[-1], position), 'tuned point not recorded')
                lab.voltages['a'] += 1.
                lab.voltages['other'] -= .5
                at.restart()
                position = dict(lab.voltages)
                history.append(('moved and restarted', dict(position)))
                continue
            at.iterate()
            rec.transition()
            got = at.voltages_to_set
            got = None if got is None else dict(got)
            history.append(('proposal', got))
            if got is None:
                rec.violation('no voltages were proposed')
                return
            if failed:
                expect = mid(good, position)
                rec.require(close(got, expect), lambda: 'after a failed evaluation: proposed %r, half-way is %r '
                                                        '(last tuned point %r, failed at %r)' % (got, expect, good, position))
            else:
                expect = {'a': .5, 'b': position['b']} if outcome == 'untuned' else {'a': position['a'], 'b': .125}
                rec.require(close({k: got[k] for k in gates if k in got}, expect),
                            lambda: 'normal tuning did not resume: proposed %r, expected %r' % (got, expect))
                rec.require(all(got[k] == position[k] for k in got if k not in gates), 'a foreign gate is moved')
            at.iterate()
            rec.transition()
            position.update(got)
            rec.require(close(lab.voltages, position), 'proposed voltages were not applied')
            rec.state(('sensing', tuple(sorted(position.items())), failed))
        rec.execution(key=(chunk[:2], tuple(choose.taken)), outcome=tuple(h[1] if h[0] == 'evaluation' else '' for h in history))
        rec.trace()
        rec.sample(repr((chunk, history))[:1500])

    enumerate_tree(run, fixed)

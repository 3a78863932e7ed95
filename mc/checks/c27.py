"""C27: the tuner works with the voltages that were really applied.

Every shipped combination of tuner, solver and gradient estimator is run on hardware which applies something else than it is
asked for (finite accuracy, limits, offsets, dead band, crosstalk), with a manual change of a gate after every step of the run.
The monitor knows the voltages the measurements really took place at and compares everything the tuner records, computes with and
requests with references that are fed only with those.
"""
import itertools

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator, SelfInitializingKalmanEstimator
from qtune.history import History
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import ForwardingSolver, NelderMeadSolver, NewtonSolver

from mc import hist, setups
from mc.world import Lab, same

TECHNIQUE = 'exhaustive enumeration of runs of the real loop: hardware behaviours x set-ups x a manual change after every step, monitored with references fed by the true voltages'
LEVEL = 'model_checking'
RULE = ('a state is what a user sees of the tuner plus the true voltages; a transition is one step of the autotuner; an execution is one run with its manual change (or none)')
BOUNDS = {'quick': '17 hierarchies (1-3 groups) x 4 response functions x 8 kinds of hardware, up to 48 steps (120 on linear systems); one manual change of one of 3 gates after each of the first 12 steps '
                   'in a covering selection of (hierarchy, hardware)',
          'thorough': 'manual changes after each of the first 24 steps in every hierarchy x hardware x 2 responses'}
ASSUMPTIONS = ['reading the gates gives the voltages present', 'completion is claimed for linear responses and hardware errors below 2^-6',
               'hardware which ignores a requested measurement (limits, dead band) is only required to leave the records right']
LIMIT = {'quick': 300, 'thorough': 3000}
FINE = ('exact', 'grid', 'single', 'offset', 'creep')


def posterior(mean, cov, h, d, r, noise, alpha):
    """C13 compares the filter with the exact estimate; here the variance may be zero"""
    cov = alpha ** 2 * cov + noise
    gain = cov @ h / (h @ cov @ h + r)
    return mean + gain * (d - h @ mean), cov - np.outer(gain, h @ cov)


class Hardware(Lab):
    """applies not exactly what it is asked for"""
    kind = 'exact'

    def clone(self):
        new = super().clone()
        new.kind = self.kind
        return new

    def apply(self, gate, v):
        if self.kind == 'grid':
            return round(v * 256.) / 256.
        if self.kind == 'coarse':
            return round(v * 12.) / 12.
        if self.kind == 'single':
            return float(np.float32(v))
        if self.kind == 'offset':
            return v + {'a': 2. ** -8, 'b': -2. ** -9, 's': 2. ** -10}.get(gate, 0.)
        if self.kind == 'limits':
            return min(max(v, -.6), 1.25 if gate == 'x' else .6)
        if self.kind == 'dead':
            return v if abs(v - self.voltages[gate]) > .06 else self.voltages[gate]
        return v

    def read_gate_voltages(self):
        now = super().read_gate_voltages()
        if self.kind in ('grid', 'creep'):       # the order of the gates carries no meaning
            k = self.calls % len(now)
            now = now.iloc[list(range(k, len(now))) + list(range(k))]
        return now

    def set_gate_voltages(self, new_gate_voltages):
        asked = {k: float(v) for k, v in new_gate_voltages.items()}
        self._call('set', tuple(sorted(asked.items())))
        real = {k: self.apply(k, v) for k, v in asked.items()}
        if self.kind == 'creep':
            for gate, other in (('a', 'b'), ('b', 'a'), ('s', 'x')):
                real[other] = real.get(other, self.voltages[other]) + (asked.get(gate, self.voltages[gate]) - self.voltages[gate]) * 2. ** -9
            real['spare'] = self.voltages['spare'] + 2. ** -6
        self.voltages.update(real)
        return pd.Series(real)


KINDS = ('exact', 'grid', 'coarse', 'single', 'offset', 'limits', 'dead', 'creep')
NAMES = tuple(h for h in hist.HIERARCHIES if 'shared' not in h)      # (those share their filters: C28)
KNOBS = (('a', .3), ('b', -.2), ('x', .4))


def chunks(tier):
    quick = tier == 'quick'
    for h, lab, kind in itertools.product(NAMES, setups.LABS, KINDS):
        yield h, lab, kind, None, 0
    for i, (h, kind) in enumerate(itertools.product(NAMES, KINDS)):
        for j, lab in enumerate(('linear', 'hole')):
            if not quick or (i + 3 * j) % 7 == 0:
                yield h, lab, kind, 'manual', 12 if quick else 24


def explore(chunk, rec):
    h, lab, kind, manual, steps = chunk
    if manual is None:
        Run(chunk, rec, None).go(120 if lab == 'linear' else 48)
    else:
        for when in range(steps):
            for knob in range(len(KNOBS)):
                Run(chunk, rec, (when, knob)).go(when + 8)
    rec.sample(repr(rec.current))


class Run:
    def __init__(self, chunk, rec, knob):
        self.chunk, self.rec, self.knob = chunk, rec, knob
        h, lab_name, kind = chunk[:3]
        curved, hole, start = setups.LABS[lab_name]
        response = setups.responses(curved, hole)
        response.update({'line_scan': hist.line, '2d_scan': hist.plane})
        self.lab = Hardware(dict(setups.HOME, spare=.125, **start), response)
        self.lab.kind = kind
        self.linear = lab_name == 'linear'
        self.at = Autotuner(self.lab, hist.HIERARCHIES[h](self.lab))
        self.history = History(None)
        self.lab.log.clear()
        self.pairs = {}         # group -> [(true voltages, values, variances)]
        self.filters = {}
        for i, t in enumerate(self.at.tuning_hierarchy):
            self.pairs[i] = []
            for k, e in enumerate(getattr(t.solver, 'gradient_estimators', ())):
                if isinstance(e, KalmanGradientEstimator):
                    kalman = e.to_hdf5()['kalman_gradient'].to_hdf5()
                    self.filters[i, k] = dict(mean=np.array(kalman['initial_gradient'], float).ravel(), cov=np.array(kalman['initial_covariance_matrix'], float),
                                              noise=np.array(kalman['process_noise'], float), alpha=float(kalman['alpha']), gates=list(e.current_position.index), last=None)
        self.turn = 0

    def require(self, cond, message):
        return self.rec.require(cond, message, case=(self.chunk, self.knob, 'step %d' % self.turn))

    def go(self, limit):
        at, lab, rec = self.at, self.lab, self.rec
        rec.current = (self.chunk, self.knob)
        bad = len(rec.violations)
        for self.turn in range(limit):
            if at.is_tuning_complete():
                break
            index, evaluating = at.current_tuner_index, at.voltages_to_set is None and not at.current_tuner_status
            proposing = at.voltages_to_set is None and at.current_tuner_status
            tuner = at.get_current_tuner()
            before = dict(lab.voltages)
            queued = len(lab.log)
            at.iterate()
            rec.transition()
            measured = any(c[0] == 'measure' for c in lab.log[queued:])
            if evaluating:
                self.evaluated(index, tuner, before, measured)
            elif proposing:
                self.proposed(tuner, before)
            rec.state((self.chunk[:3], self.knob, repr(setups.observe(at)), tuple(sorted(lab.voltages.items()))))
            if len(rec.violations) > bad:
                return
            if self.knob is not None and self.turn == self.knob[0]:
                gate, change = KNOBS[self.knob[1]]
                lab.voltages[gate] += change
        else:
            if self.linear and self.chunk[2] in FINE and self.knob is None and not any(isinstance(t.solver, NelderMeadSolver) for t in at.tuning_hierarchy):
                self.require(False, 'not tuned after %d steps: %r' % (limit, lab.voltages))
        rec.execution(key=rec.current, outcome=(tuple(sorted(lab.voltages.items())), at.current_tuner_index))
        rec.trace()

    # -----------------------------------------------------------------------------------------------------------------
    def evaluated(self, index, tuner, truth, measured):
        need = self.require
        need(same(tuner.last_voltages, truth), lambda: 'the last voltages are %r, really %r' % (dict(tuner.last_voltages), truth))
        solver = tuner.solver
        mine = {g: truth[g] for g in solver.current_position.index}
        state = tuner.to_hdf5()
        tuned = self.at.current_tuner_index > index
        if tuned:
            need(same(tuner.tuned_voltages[-1], truth), lambda: 'recorded as tuned at %r, really %r' % (dict(tuner.tuned_voltages[-1]), truth))
        if not measured:
            need(same(solver.current_position, mine), lambda: 'the optimizer is at %r, really %r' % (dict(solver.current_position), mine))
            return
        values, variances = tuner.last_parameters_and_variances
        if index == 0:      # (a row of the history begins with the evaluation of the lowest group)
            self.record(truth)
        if tuner.last_evaluation_failed:
            return
        self.pairs[index].append((truth, values.copy(), variances.copy()))
        if isinstance(tuner, SubsetTuner):
            need(same(state['evaluatable_voltages'][-1], truth), 'the last good voltages are not those of the evaluation')
        if isinstance(tuner, SubsetTuner) or not tuned:
            need(same(solver.current_position, mine), lambda: 'the optimizer is at %r, really %r' % (dict(solver.current_position), mine))
        if isinstance(solver, NelderMeadSolver):
            known = [({g: t[g] for g in mine}, dict(v)) for t, v, _ in self.pairs[index]]
            for position, at_position in solver.simplex:
                if not at_position.isna().any():
                    need(any(same(position, p) and same(at_position, v) for p, v in known), lambda: 'simplex point %r with %r was never measured' % (dict(position), dict(at_position)))
        if isinstance(solver, NewtonSolver):
            self.gradients(index, solver, truth, values, variances)

    def gradients(self, index, solver, truth, values, variances):
        factors = solver.target['rescaling_factor']
        for k, (name, e) in enumerate(zip(solver.target.index, solver.gradient_estimators)):
            if (index, k) in self.filters:
                f = self.filters[index, k]
                here = np.array([truth[g] for g in f['gates']])
                if f['last'] is not None and np.linalg.norm(here - f['last'][0]) >= 1e-7:
                    f['mean'], f['cov'] = posterior(f['mean'], f['cov'], here - f['last'][0], values[name] - f['last'][1], variances[name], f['noise'], f['alpha'])
                f['last'] = (here, values[name])
                want = pd.Series(f['mean'], index=f['gates'])
                self.require(same(e.estimate(), want, 1e-6), lambda: 'gradient of %s is %r, from the real voltages %r' % (name, dict(e.estimate()), dict(want)))
                self.require(same(e.covariance(), pd.DataFrame(f['cov'], index=f['gates'], columns=f['gates']), 1e-6), 'covariance of %s' % name)
                self.require(same(e.current_position, {g: truth[g] for g in f['gates']}), lambda: 'gradient of %s is tracked from %r' % (name, dict(e.current_position)))
            else:
                f = e.finite_difference_estimator if isinstance(e, SelfInitializingKalmanEstimator) else e
                self.differences(index, name, f)

    def differences(self, index, name, estimator):
        """stored points are real evaluations, and the gradient is the one which connects them"""
        state = estimator.to_hdf5()
        stored = state['stored_measurements']
        for position, value, variance in stored:
            known = [(t, v[name], w[name]) for t, v, w in self.pairs[index]]
            self.require(any(same(position, {g: t[g] for g in position.index}) and same(value, v) and same(variance, w) for t, v, w in known),
                         lambda: 'stored for the gradient of %s: %r at %r was never measured' % (name, value, dict(position)))
        gradient = estimator.estimate()
        if gradient is not None:
            order = list(gradient.index)
            points = np.array([[p[g] for g in order] for p, _, _ in stored], dtype=float)
            numbers = np.array([v for _, v, _ in stored], dtype=float)
            if state['symmetric']:
                points, numbers = points[1::2] - points[::2], numbers[1::2] - numbers[::2]
            else:
                points, numbers = points[1:] - points[0], numbers[1:] - numbers[0]
            got = points @ gradient[order].values.astype(float)
            self.require(np.allclose(got, numbers, rtol=1e-6, atol=1e-8), lambda: 'gradient of %s is %r, the real differences are %r over %r' % (name, dict(gradient), numbers, points))

    def proposed(self, tuner, truth):
        need, at, solver = self.require, self.at, tuner.solver
        pending = at.voltages_to_set
        state = tuner.to_hdf5()
        if tuner.last_evaluation_failed:
            good = (tuner.tuned_voltages if not isinstance(tuner, SubsetTuner) else state['evaluatable_voltages'])[-1]
            here = tuner.last_voltages
            need(same(pending, {g: .5 * (good[g] + here[g]) for g in here.index}), lambda: 'after the failure %r' % dict(pending))
            return
        if isinstance(solver, ForwardingSolver):
            return
        moved = {g: pending[g] - tuner.last_voltages[g] for g in pending.index}
        for g in pending.index:
            if g not in solver.current_position.index:
                need(abs(moved[g]) < 1e-9, lambda: '%s is moved by %r' % (g, moved[g]))
        if not isinstance(solver, NewtonSolver) or state['number_queued_steps'] or not len(self.at_values(tuner)):
            return
        own = list(solver.current_position.index)
        step = np.array([moved[g] for g in own])
        size = state['maximal_step_size']
        needed = None
        for e in solver.gradient_estimators:
            ask = e.require_measurement(gates=solver.current_position.index)
            if ask is not None:
                needed = (e, ask)
                break
        if needed is None:
            values, _ = self.at_values(tuner)
            jacobian = np.array([[e.estimate()[g] for g in own] for e in solver.gradient_estimators], dtype=float)
            missing = np.array([solver.target.desired[p] - values[p] for p in solver.target.index])
            want = np.linalg.pinv(jacobian) @ missing
        elif isinstance(needed[0], FiniteDifferencesGradientEstimator) or isinstance(getattr(needed[0], 'active_estimator', None), FiniteDifferencesGradientEstimator):
            return
        else:
            want = np.array([needed[1][g] - truth[g] for g in own]) if truth == dict(tuner.last_voltages) else step
            need(same(np.linalg.norm(want), .25, 1e-6) or truth != dict(tuner.last_voltages), lambda: 'a measurement at distance %r is asked for' % np.linalg.norm(want))
        if size == size and np.linalg.norm(want) > size:
            want = want * size / np.linalg.norm(want)
        need(np.allclose(step, want, rtol=1e-6, atol=1e-8), lambda: 'the move from the real voltages is %r instead of %r' % (dict(zip(own, step)), want))

    def at_values(self, tuner):
        return tuner.last_parameters_and_variances

    def record(self, truth):
        self.history.append_autotuner(self.at)
        last = self.history.number_of_stored_iterations - 1
        for g in truth:
            if g in self.history.gate_names:
                self.require(abs(self.history.get_gate_values(g)[last] - truth[g]) < 1e-9, lambda: 'history has %r for %s, really %r' % (self.history.get_gate_values(g)[last], g, truth[g]))
        self.require(set(truth) <= set(self.history.gate_names), 'gates missing in the history')

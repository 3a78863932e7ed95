"""C28: groups sharing their gates and gradient estimators do not detune each other.

Every small integer response matrix x division of the parameters into groups x configuration is tuned with the real loop, the
groups being optimized over the same gates by solvers which share all Kalman estimators (the documented set-up). Every proposed
move is compared with what the estimates and the true slopes allow.
"""
import itertools
import math

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.gradient import KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NewtonSolver, make_target

from mc.world import Lab, evaluator, clone

TECHNIQUE = 'exhaustive enumeration of linear systems and divisions into groups, each tuned to completion by the real loop with a monitor on every proposed move'
LEVEL = 'model_checking'
RULE = ('a state is (system, configuration, voltages, group); a transition is one step of the autotuner; an execution is one complete tuning run')
BOUNDS = {'quick': '2 and 3 gates, 2 and 3 parameters in 2 and 3 groups; all 2x2 matrices with entries {-1,0,1,2}, 2x3 and 3x3 with {-1,0,1} selected; estimators without knowledge, with wrong and with exact gradients, and with knowledge of some; '
                   '3 step limits, 3 start points (some parameters in order from the start), different orders and rescaling; a drift of the parameters after completion with a restart',
          'thorough': 'four times as many matrices of 3 gates, all combinations'}
ASSUMPTIONS = ['measurement variances are 1e-12, tolerances .01', 'gradients of all parameters are linearly independent', 'one unit for all voltages']
LIMIT = {'quick': 300, 'thorough': 3000}
EPS = .25
VARIANCE = 1e-12
PRIORS = ('none', 'wrong', 'exact', 'mixed')
STEPS = ((np.nan, 1), (.6, 2), (.2, 3))
STARTS = ((.5, -.75, 1.25), (0., 0., 0.), (-2., 1., .5))
FACTORS = ({}, dict(q=4., r=.5), dict(p=-2.))
PARTS = 32


def systems(tier):
    for flat in itertools.product((-1, 0, 1, 2), repeat=4):
        yield ((1, 1),), (flat[:2], flat[2:])
    for i, flat in enumerate(itertools.product((-1, 0, 1), repeat=6)):
        if i % (5 if tier == 'quick' else 1) == 0:
            yield ((1, 1),), (flat[:3], flat[3:])
    for i, flat in enumerate(itertools.product((-1, 0, 1), repeat=9)):
        if i % (101 if tier == 'quick' else 23) == 0:
            yield ((1, 2), (2, 1), (1, 1, 1)), (flat[:3], flat[3:6], flat[6:])


def cases(tier):
    for i, (divisions, rows) in enumerate(systems(tier)):
        if np.linalg.matrix_rank(np.array(rows, float)) < len(rows):
            continue
        for j, (division, prior, step, start, factor) in enumerate(itertools.product(divisions, PRIORS, range(len(STEPS)), range(len(STARTS)), range(len(FACTORS)))):
            if tier == 'quick' and (i * 5 + j) % (23 if len(rows[0]) == 2 else 29):
                continue
            yield rows, division, prior, step, start, factor, i + j


def chunks(tier):
    for k in range(PARTS):
        yield k, tier


def explore(chunk, rec):
    for i, case in enumerate(cases(chunk[1])):
        if i % PARTS == chunk[0]:
            Run(chunk, case, rec).go()
    rec.sample(repr(rec.current))


class Run:
    def __init__(self, chunk, case, rec):
        self.rec, self.case = rec, case
        rec.current = (chunk, case)
        rows, division, prior, step, start, factor, mix = case
        n = len(rows[0])
        self.gates = ['c', 'a', 'b'][:n]
        self.params = ['q', 'p', 'r'][:len(rows)]
        self.slope = {p: dict(zip(self.gates, r)) for p, r in zip(self.params, rows)}
        self.factor = {p: FACTORS[factor].get(p, 1.) for p in self.params}
        self.size, self.number = STEPS[step]
        self.shift = dict.fromkeys(self.params, .5)
        self.desired = {p: -.5 + .75 * i for i, p in enumerate(self.params)}      # of the real values
        if mix % 4 == 1:        # a parameter which is in order from the start
            self.desired[self.params[0]] = .5 + sum(self.slope[self.params[0]][g] * x for g, x in zip(self.gates, STARTS[start]))
        self.lab = Lab(dict(zip(self.gates, STARTS[start]), spare=1.), {'m_' + p: lambda v, p=p: (self.real(p, v), VARIANCE * self.factor[p] ** 2) for p in self.params})
        order = self.gates[::-1] if mix % 2 else self.gates
        position = pd.Series({g: self.lab.voltages[g] for g in order})
        self.estimators = {}
        for i, p in enumerate(self.params):
            slope = np.array([self.slope[p][g] for g in order]) / self.factor[p]
            exact = prior == 'exact' or prior == 'mixed' and (i + mix) % 2
            guess = slope if exact else np.arange(1., n + 1.) * (i + 1) / 2 if prior == 'wrong' else None
            self.estimators[p] = KalmanGradientEstimator(
                KalmanGradient(n, 1, initial_gradient=guess, initial_covariance_matrix=np.eye(n) * (1e-4 if exact else 1e4 if mix % 3 else 4.)),
                position.copy(), 1e-3, EPS)
        tuners, k = [], 0
        self.groups = []
        for i, m in enumerate(division):
            own = self.params[k:k + m]
            names = self.params if (mix + i) % 3 else self.params[::-1]
            target = make_target(desired=pd.Series({p: self.desired[p] / self.factor[p] if p in own else np.nan for p in names}),
                                 tolerance=pd.Series({p: .01 if p in own else np.nan for p in names}),
                                 rescaling_factor=pd.Series({p: self.factor[p] for p in names}))
            solver = NewtonSolver(target, [self.estimators[p] for p in names], pd.Series({g: self.lab.voltages[g] for g in (order if i % 2 else self.gates)}))
            tuners.append(SubsetTuner([evaluator(self.lab, p) for p in own[::-1]], self.gates, solver=solver, maximal_step_size=self.size, maximal_step_number=self.number))
            self.groups.append(own)
            k += m
        self.at = Autotuner(self.lab, tuners)
        self.prior = prior

    def real(self, p, v):
        return self.shift[p] + sum(self.slope[p][g] * v[g] for g in self.gates)

    def scaled(self, p):
        return self.real(p, self.lab.voltages) / self.factor[p]

    def go(self):
        bad = len(self.rec.violations)
        self.tune(first=True)
        if len(self.rec.violations) > bad:
            return
        if self.case[-1] % 2:
            # the device drifts; the gradients are known by now
            for i, p in enumerate(self.params):
                self.shift[p] += .4 * (-1) ** i
            self.at.restart()
            self.tune(first=False)
        self.rec.execution(key=self.case, outcome=self.case)
        self.rec.trace()

    def known(self, p):
        got = self.estimators[p].estimate()
        return all(abs(got[g] * self.factor[p] - self.slope[p][g]) < 1e-5 for g in self.gates)

    def tune(self, first):
        at, lab, rec, need = self.at, self.lab, self.rec, self.rec.require
        n = len(self.gates)
        slices = 1 if self.size != self.size else math.ceil(EPS / self.size)
        # every group measures its gradients in each direction that is left free by the groups below, and moves once (in slices)
        measurements = {i: (n if i == 0 else n - len(sum(self.groups[:i], []))) for i in range(len(self.groups))}
        in_order = [abs(self.scaled(p) - self.desired[p] / self.factor[p]) < .01 for p in self.params]
        regular = not any(in_order)
        safe = set()            # groups tuned by exact gradients: they must stay in order
        asked = dict.fromkeys(measurements, 0)
        changes = 0
        while not at.is_tuning_complete():
            index = at.current_tuner_index
            asking = at.current_tuner_status and at.voltages_to_set is None
            evaluating = not at.current_tuner_status and at.voltages_to_set is None
            here = dict(lab.voltages)
            queued = asking and at.get_current_tuner().to_hdf5()['number_queued_steps']
            at.iterate()
            rec.transition()
            rec.state((self.case, first, tuple(sorted(lab.voltages.items())), at.current_tuner_index, at.current_tuner_status))
            if evaluating:
                if index in safe and not need(at.current_tuner_index > index, lambda: 'group %d (%r) was in order with known gradients and has been detuned by a group above, at %r' % (index, self.groups[index], here)):
                    return
                if at.current_tuner_index > index and all(self.known(p) for p in sum(self.groups[:index + 1], [])):
                    safe.add(index)
                continue
            if not asking:
                continue
            changes += 1
            d = {g: at.voltages_to_set[g] - here[g] for g in here}
            if not need(d['spare'] == 0., 'a foreign gate is moved'):
                return
            length = np.linalg.norm([d[g] for g in self.gates])
            need(not length > self.size * (1 + 1e-9), lambda: 'a move of length %r exceeds the limit' % length)
            below = [p for own in self.groups[:index] for p in own]
            jacobian = self.estimates()
            requested = self.request(index, jacobian, below)
            rows = np.array([[jacobian[p][g] for g in self.gates] for p in self.params])
            spectrum = np.linalg.svd(rows, compute_uv=False)
            if not requested and spectrum[-1] < .05 * spectrum[0] and self.prior == 'wrong':
                # the guessed gradients happen to contradict each other
                rec.note('contradicting guesses')
                return
            # (a group can come in order by chance, before its gradients were measured)
            regular = regular and all(self.known(p) for p in below)
            for p in below:
                if self.known(p):
                    drift = sum(self.slope[p][g] * d[g] for g in self.gates)
                    if not need(abs(drift) < 1e-4, lambda: 'group %d moves by %r, which changes %s of a tuned group by %r' % (index, d, p, drift)):
                        return
            if requested:
                asked[index] += 1
                if not need(abs(length - min(EPS, self.size if self.size == self.size else EPS)) < 1e-9, lambda: 'a measurement of gradients moves by %r' % length):
                    return
                for p in below:
                    drift = sum(jacobian[p][g] * d[g] for g in self.gates)
                    if not need(abs(drift) < 1e-6 * (1 + np.linalg.norm(list(jacobian[p].values()))), lambda: 'a measurement for group %d changes %s of a tuned group by %r' % (index, p, drift)):
                        return
                if regular and self.size != self.size and not need(asked[index] <= measurements[index], lambda: 'group %d asks for more than %d measurements' % (index, measurements[index])):
                    return
            else:
                # the optimizer moves its own parameters to their targets and none of the others
                if not queued and np.linalg.matrix_rank(rows, tol=1e-6) == len(rows):
                    missing = np.array([self.desired[p] / self.factor[p] - self.scaled(p) if p in self.groups[index] else 0. for p in self.params])
                    want = np.linalg.pinv(rows) @ missing
                    if np.linalg.norm(want) > self.size:
                        want *= self.size / np.linalg.norm(want)
                    need(np.allclose([d[g] for g in self.gates], want, rtol=1e-5, atol=1e-6), lambda: 'group %d moves by %r instead of %r' % (index, d, dict(zip(self.gates, want))))
            if len(rec.violations) and rec.violations[-1]['case'] == repr(rec.current):
                return
            if not need(changes <= 400, 'not tuned after 400 changes'):
                return
            if regular and self.size != self.size and first:
                bound = sum(measurements.values()) + len(self.groups)
                if not need(changes <= bound, lambda: 'more than %d changes for %d groups' % (bound, len(self.groups))):
                    return
        for p in self.params:
            need(abs(self.scaled(p) - self.desired[p] / self.factor[p]) < .01 + 1e-9, lambda: 'complete, but %s is really %r instead of %r' % (p, self.real(p, lab.voltages), self.desired[p]))
        rec.note('changes', changes)

    def estimates(self):
        return {p: dict(e.estimate()) for p, e in self.estimators.items()}

    def request(self, index, jacobian, below):
        """whether the group still needs measurements: decided with the covariances in the null space of the tuned gradients"""
        rows = np.array([[jacobian[p][g] for g in self.gates] for p in below]).reshape(len(below), len(self.gates))
        u, s, v = np.linalg.svd(rows) if below else (None, np.array([]), np.eye(len(self.gates)))
        null = v[int(np.sum(s > 1e-9)):]
        for p in self.groups[index]:
            cov = self.estimators[p].covariance().loc[self.gates, self.gates].values
            if len(null) and np.linalg.eigvalsh(null @ cov @ null.T).max() > 1e-3:
                return True
        return False

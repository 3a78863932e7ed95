"""C20: the whole loop on linear systems.

Every small integer response matrix in block-triangular form (invertible blocks) x start points x estimator kinds x step limits
is tuned to completion with the real classes; the number of voltage changes and of steps is compared with what measurements and
slices need, and the final voltages with the targets.
"""
import itertools
import math

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator, SelfInitializingKalmanEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NewtonSolver, make_target

from mc.world import Lab, evaluator

TECHNIQUE = 'exhaustive enumeration of linear systems, start points, estimator kinds and step limits, each tuned to completion by the real loop, with exact step bounds'
LEVEL = 'model_checking'
RULE = ('a state is (system, configuration, voltages, group); a transition is one step of the autotuner; an execution is one complete tuning run')
BOUNDS = {'quick': '1 group: 1 and 2 gates all matrices with entries in {-1,0,1,2}, 2x2 every 3rd, 2x3 and 3x3 selected; 2 groups of 1-2 gates with all couplings in {-1,0,2}, 3 groups of 1 gate; '
                   '5 estimator kinds and mixtures, 4 step limits, 3 start points (every combination for one gate, covering selections otherwise)',
          'thorough': 'all 2x2, entries {-2..2} for one group; all combinations for two groups'}
ASSUMPTIONS = ['measurement variances are 1e-12', 'parameters of a group do not depend on gates of higher groups', 'finite differences use displacements of .25, tolerances are .01']
LIMIT = {'quick': 300, 'thorough': 3000}
EPS = .25
VARIANCE = 1e-12
KINDS = ('one', 'two', 'self', 'selftwo', 'kalman')
STEPS = ((np.nan, 1), (1., 1), (.6, 3), (.2, 2))
PARTS = 8


def estimator(kind, start):
    n = len(start)
    if kind in ('one', 'two'):
        return FiniteDifferencesGradientEstimator(current_position=start.copy(), epsilon=EPS, symmetric=kind == 'two')
    if kind in ('self', 'selftwo'):
        return SelfInitializingKalmanEstimator.from_scratch(start.copy(), pd.Series(EPS, index=start.index), 1e-3, symmetric=kind == 'selftwo')
    return KalmanGradientEstimator(KalmanGradient(n, 1, initial_gradient=np.arange(1., n + 1.) / 2, initial_covariance_matrix=np.diag(np.arange(3., n + 3.))),
                                   start.copy(), 1e-3, EPS)


def systems(tier):
    """(gates per group, parameters per group, rows: parameter -> slopes over all gates)"""
    quick = tier == 'quick'
    wide = (-1, 0, 1, 2) if quick else (-2, -1, 0, 1, 2)
    for n in (1, 2):
        for row in itertools.product(wide, repeat=n):
            yield (n,), (1,), (row,)
    for i, flat in enumerate(itertools.product(wide, repeat=4)):
        if not quick or i % 3 == 0:
            yield (2,), (2,), (flat[:2], flat[2:])
    for i, flat in enumerate(itertools.product((-1, 0, 1), repeat=6)):
        if i % (61 if quick else 7) == 0:
            yield (3,), (2,), (flat[:3], flat[3:])
    for i, flat in enumerate(itertools.product((-1, 0, 1), repeat=9)):
        if i % (1511 if quick else 97) == 0:
            yield (3,), (3,), (flat[:3], flat[3:6], flat[6:])
    for i, (a, b, c) in enumerate(itertools.product((-1, 2), (-1, 0, 2), (-1, 2))):
        yield (1, 1), (1, 1), ((a, 0), (b, c))
    for i, (a, b, c, d, e) in enumerate(itertools.product((-1, 2), (-1, 0, 2), (-1, 0, 2), (0, 1), (-1, 2))):
        if not quick or i % 5 == 0:
            yield (1, 2), (1, 1), ((a, 0, 0), (b, c, e + d))
            yield (2, 1), (1, 1), ((a, d, 0), (b, c, e))
            yield (1, 2), (1, 2), ((a, 0, 0), (b, 1, d), (c, d, e))
    for a, b, c in itertools.product((-1, 0, 2), repeat=3):
        if not quick or (a + b + c) % 2:
            yield (1, 1, 1), (1, 1, 1), ((1, 0, 0), (a, 2, 0), (b, c, -1))


def solvable(gates, params, rows):
    g = p = 0
    for n, m in zip(gates, params):
        block = np.array([r[g:g + n] for r in rows[p:p + m]], dtype=float)
        if m > n or np.linalg.matrix_rank(block) < m:
            return False
        g, p = g + n, p + m
    return True


# the units of the parameters: equal, or one of them very different from the others
UNITS = ({}, dict(q=2. ** -12), dict(r=2. ** 10, p=2. ** -3))
STARTS = ((.5, -.75, 1.25), (0., 0., 0.), (-2., 1., .5))


def cases(tier):
    systems_ = [s for s in systems(tier) if solvable(*s)]
    for i, s in enumerate(systems_):
        for j, (kind, second, (step, number), start) in enumerate(itertools.product(range(len(KINDS)), (0, 1, 3), STEPS, STARTS)):
            total = sum(s[0])
            if tier == 'quick' and total > 1 and (i * 7 + j) % (6 if total == 2 and len(s[0]) == 1 and sum(s[1]) == 1 else 19 if total == 2 else 23):
                continue
            yield s, kind, second, step, number, start, UNITS[0] if (i + j) % 3 else UNITS[1 + (i + j) % 2]


def chunks(tier):
    for k in range(PARTS * 4):
        yield k, tier


def explore(chunk, rec):
    for i, case in enumerate(cases(chunk[1])):
        if i % (PARTS * 4) == chunk[0]:
            run(chunk, case, rec)
    rec.sample(repr(rec.current))


def run(chunk, case, rec):
    (ngates, nparams, rows), kind, second, step, number, begin, units = case
    rec.current = (chunk, case)
    gates = ['c', 'a', 'b'][:sum(ngates)]
    params = ['q', 'r', 'p'][:sum(nparams)]
    unit = lambda p: units.get(p, 1.)
    slope = {p: {g: x * unit(p) for g, x in zip(gates, r)} for p, r in zip(params, rows)}
    real = lambda p, v: .5 * unit(p) + sum(slope[p][g] * v[g] for g in gates)
    lab = Lab(dict(zip(gates, begin), spare=1.), {'m_' + p: lambda v, p=p: (real(p, v), VARIANCE * unit(p) ** 2) for p in params})
    desired = {p: (-.5 + .75 * i) * unit(p) for i, p in enumerate(params)}
    tuners, groups = [], []
    g = p = 0
    allowed = 0
    for n, m in zip(ngates, nparams):
        own, names = gates[g:g + n], params[p:p + m]
        # gates of the optimizer and of the estimators in different orders
        position = pd.Series({x: lab.voltages[x] for x in own})
        kinds = [KINDS[(kind + second * i) % len(KINDS)] for i in range(m)]
        target = make_target(desired=pd.Series({x: desired[x] for x in names}), tolerance=pd.Series({x: .01 * unit(x) for x in names}),
                             rescaling_factor=pd.Series({x: 1. for x in names}))
        solver = NewtonSolver(target, [estimator(k, position[::-1] if i % 2 else position) for i, k in enumerate(kinds)], position.copy())
        tuners.append(SubsetTuner([evaluator(lab, *names[::-1])], own, solver=solver, maximal_step_size=step, maximal_step_number=number))
        # a measurement serves all estimators of the same kind
        measurements = sum(2 * n if k in ('two', 'selftwo') else n for k in set(kinds))
        reach = 2 * EPS * (n + 2)
        allowed += measurements * (1 if step != step else math.ceil(reach / step))
        groups.append((own, names))
        g, p = g + n, p + m
    at = Autotuner(lab, tuners)
    lab.log.clear()
    newton = {}     # group -> voltage changes that are left for its Newton step
    changes = steps = 0
    while not at.is_tuning_complete():
        index = at.current_tuner_index
        solver = at.get_current_tuner().solver
        asking = at.current_tuner_status and at.voltages_to_set is None
        ready = asking and all(e.estimate() is not None and e.require_measurement(solver.current_position.index) is None for e in solver.gradient_estimators)
        lab.log.clear()
        at.iterate()
        steps += 1
        rec.transition()
        rec.state((case, tuple(sorted(lab.voltages.items())), at.current_tuner_index, at.current_tuner_status))
        if asking:
            changes += 1
            if ready:
                if index not in newton:
                    own, names = groups[index]
                    block = np.array([[slope[x][y] for y in own] for x in names], dtype=float)
                    missing = np.array([desired[x] - real(x, lab.voltages) for x in names])
                    length = np.linalg.norm(np.linalg.pinv(block) @ missing)
                    newton[index] = 1 if step != step else math.ceil(length / step - 1e-9) + 1
                newton[index] -= 1
                if not rec.require(newton[index] >= 0, lambda: 'group %d needs more voltage changes than its Newton step has slices' % index):
                    return
            else:
                allowed -= 1
                if not rec.require(allowed >= 0, 'more measurements for gradients than needed'):
                    return
    # between two changes: at most one evaluation per group, one proposal, one write
    rec.require(steps <= changes * (len(groups) + 2) + len(groups), lambda: '%d steps for %d voltage changes of %d groups' % (steps, changes, len(groups)))
    for x in params:
        rec.require(abs(real(x, lab.voltages) - desired[x]) < (.01 + 1e-9) * unit(x), lambda: 'complete, but %s is really %r instead of %r' % (x, real(x, lab.voltages), desired[x]))
    rec.require(lab.voltages['spare'] == 1., 'a foreign gate was moved')
    rec.execution(key=case, outcome=(steps, changes))
    rec.trace()

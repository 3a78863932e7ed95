"""C04: step size limit and re-evaluation of large moves.

The real Autotuner + SubsetTuner are driven through complete slicing histories. The solver is scripted: what move is
required after each evaluation (and whether the required move changes while slices are queued) is a choice point, all
choices are enumerated. Oracle: a five line reference of slicing.
"""
import itertools
import math

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.gradient import FiniteDifferencesGradientEstimator
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NewtonSolver, Solver, make_target

from mc.core import enumerate_tree
from mc.world import Lab, evaluator, series

TECHNIQUE = 'exhaustive enumeration of slicing histories of the real tuner against a reference machine'
LEVEL = 'model_checking'
RULE = ('every history = configuration (gates, size limit, step limit, kind of solver) x every sequence of required moves '
        '(a choice after each evaluation, and a keep/change choice at each queued slice) up to the stated number of '
        'evaluations; each is executed on the real Autotuner/SubsetTuner/solver and every proposal and evaluation is '
        'compared with the reference')
BOUNDS = {'quick': 'move lengths 0..4.5 limits in halves and next to 1 limit, limits 1, 0.5 and none, 1..3 gates, '
                   'step numbers 1,2,3,5; two evaluations, changes of the required move at any slice',
          'thorough': 'as quick with step numbers 1..6 and three evaluations'}
ASSUMPTIONS = ['moves that are an exact multiple of the limit may be evaluated before or after their last slice']

HOME = dict(a=.25, b=-.5, other=2.)


class Aim(Solver):
    """requires whatever move the script says; absolute: the aim stays where it was when it was chosen, relative: the
    same displacement is required from wherever the tuner reports to be"""

    def __init__(self, target, current_position, absolute):
        self._target = target
        self._current_position = current_position
        self.absolute = absolute
        self.move = None
        self.aim = None

    def require(self, move):
        self.move = move
        self.aim = self._current_position + move

    def suggest_next_position(self, tuned_parameters=None):
        return self.aim if self.absolute else self._current_position + self.move

    def update_after_step(self, position, values, variances):
        self._current_position = position[self._current_position.index].copy()

    @property
    def state(self):
        return pd.Series(dtype=float)

    def to_hdf5(self):
        return dict(target=self._target, current_position=self._current_position, absolute=self.absolute)


DIRECTIONS = {1: [(1.,), (-1.,)], 2: [(0., -1.), (.6, .8)]}
LENGTHS = [0., .5, .999, 1., 1.001, 1.5, 2., 2.5, 3., 3.5, 4., 4.5]
CHANGES = [None, .25, 3.25, -1.25]


def chunks(tier):
    numbers = (1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6)
    for limit, number, kind, dim in itertools.product((1., .5, None), numbers, ('absolute', 'relative', 'newton'), (1, 2)):
        if limit is None and number > 2:
            continue
        for d in range(2):
            for k in range(len(LENGTHS)):
                yield limit, number, kind, dim, d, k, 2 if tier == 'quick' else 3


def explore(chunk, rec):
    limit, number, kind, dim, d, first, evaluations = chunk
    gates = ['a', 'b'][:dim]
    names = ['p', 'q'][:dim]
    direction = np.array(DIRECTIONS[dim][d])
    size = math.inf if limit is None else limit
    scale = 1. if limit is None else limit

    def run(choose):
        target = make_target(desired=pd.Series(0., index=names), tolerance=pd.Series(1e-3, index=names))
        start = series({g: HOME[g] for g in gates})
        if kind == 'newton':
            estimators = [FiniteDifferencesGradientEstimator(
                current_position=start.copy(), epsilon=.1, current_estimate=series({g: float(g == h) for g in gates}),
                covariance=pd.DataFrame(np.eye(dim), index=gates, columns=gates)) for h in gates]
            solver = NewtonSolver(target=target, gradient_estimators=estimators, current_position=start.copy())
        else:
            solver = Aim(target, start.copy(), kind == 'absolute')
        m = dict(evaluations=0, move=None)      # the required move of the last evaluation

        def measure(i):
            if i == 0:
                # which move is required is decided at the moment of the evaluation
                length = LENGTHS[first] if m['evaluations'] == 0 else choose(
                    [.5, 1.5, 2.5] if m['evaluations'] == 1 else [.75, 3.])
                move = direction * (length * scale * (-1) ** m['evaluations'])
                if not move.any():
                    move = np.full(dim, 5e-3 if kind == 'newton' else 0.)     # Newton: just not tuned
                m['move'] = move
                m['evaluations'] += 1
            return (-m['move'][i] if kind == 'newton' else 1.), .01

        lab = Lab(HOME, {'m_' + p: lambda v, i=i: measure(i) for i, p in enumerate(names)})
        tuner = SubsetTuner([evaluator(lab, *names)], gates, solver=solver,
                            maximal_step_size=np.nan if limit is None else limit, maximal_step_number=number)
        at = Autotuner(lab, [tuner])
        position = dict(HOME)
        history = []
        remaining = None        # the move still required
        left, optional = 0, False      # slices to be taken before the next evaluation; boundary case
        while not (left == 0 and m['evaluations'] == evaluations):
            # ---- evaluation
            lab.log.clear()
            n = m['evaluations']
            at.iterate()
            rec.transition()
            measured = [c[1] for c in lab.log if c[0] == 'measure']
            history.append(('evaluation', measured, None if not measured else list(m['move'])))
            rec.current = (chunk, list(choose.taken), history)
            if left == 0:
                rec.require(measured, 'not evaluated although the move was done or the step limit was reached')
            elif not (optional and left == 1):
                rec.require(not measured, 'evaluated while slices of a larger move were still to be taken')
            fresh = m['evaluations'] > n
            if fresh:
                rec.require(measured == ['m_' + p for p in names], 'evaluation measured %r' % measured)
                remaining = m['move']
                left, optional = 0, False
                if kind != 'newton':
                    solver.require(series(dict(zip(gates, remaining))))
            elif kind == 'absolute':
                change = choose(CHANGES)
                if change is not None:
                    remaining = direction * change * scale
                    solver.require(series(dict(zip(gates, remaining))))
            rec.require(at.current_tuner_status and not at.is_tuning_complete(), 'the group was reported as tuned')
            # ---- proposal
            lab.log.clear()
            at.iterate()
            rec.transition()
            rec.require(not [c for c in lab.log if c[0] != 'read'], 'a proposal touched the experiment: %r' % lab.log)
            norm = float(np.linalg.norm(remaining))
            step = remaining if norm <= size else remaining * (size / norm)
            expect = dict(position)
            for g, s in zip(gates, step):
                expect[g] += s
            got = at.voltages_to_set
            got = {} if got is None else dict(got)
            history.append(('proposal', got))
            if not rec.require(set(got) == set(expect) and all(abs(got[g] - expect[g]) < 1e-9 for g in expect),
                               lambda: 'proposed %r, expected %r (at %r, required move %r, limit %r)' % (
                                   got, expect, position, list(remaining), limit)):
                return
            if norm > size * (1 + 1e-12):
                if left == 0:
                    q = norm / size
                    k = round(q)
                    optional = abs(q - k) < 1e-6 and 2 <= k <= number
                    left = k if optional else min(int(q + 1e-9), number)
                left -= 1
            else:
                left = 0
            if kind == 'absolute':
                remaining = remaining - step
            at.iterate()
            rec.transition()
            position = expect
            rec.require(all(abs(lab.voltages[g] - position[g]) < 1e-9 for g in position),
                        lambda: 'the gates are at %r instead of %r' % (lab.voltages, position))
            rec.state((limit, number, kind, d, left, tuple(np.round(remaining, 6)), m['evaluations']))
        rec.execution(key=(chunk, tuple(choose.taken)), outcome=tuple(map(repr, history)))
        rec.trace()
        rec.sample(repr((chunk, history))[:1500])

    enumerate_tree(run)

"""C06: verdict, rescaling and book keeping of a gate-subset group, over the full product of positions relative to the
tolerance, presence of tolerance/desired value, rescaling factors, evaluator grouping and orders."""
import itertools

import numpy as np
import pandas as pd

from qtune.evaluator import Evaluator
from qtune.experiment import Measurement
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import make_target

from mc.kit import ScriptSolver, close
from mc.world import Lab, series

TECHNIQUE = 'exhaustive enumeration of a bounded configuration/input space on the real tuner against a reference verdict'
LEVEL = 'model_checking'
RULE = ('one execution = one target configuration x evaluator grouping/order x parameter order x two consecutive '
        'evaluations (the values of the second are the negated distances of the first); verdict, reported values and '
        'variances, values handed to the optimizer and the list of tuned points are compared with the definition')
BOUNDS = {'quick': '1..3 parameters; distances -2,-1,-.5,0,.5,1,2 tolerances (fewer for 3 parameters), factors 1, 2, .25, -2; targets shared by groups (2 and 3 parameters, with conditions, without, evaluated elsewhere), conditions added later, tuner rebuilt from its stored state',
          'thorough': 'as quick, with the full option set for pairs and 12 options per parameter for triples'}
ASSUMPTIONS = ['a group has at least one parameter with conditions (when targets are shared)', 'target columns other than desired, tolerance and rescaling_factor are empty for gate-subset groups']

NAMES = ['a', 'z', 'm']
NAN = float('nan')


class Fixed(Evaluator):
    """returns prepared series; keeps them to verify that nobody alters them"""

    def __init__(self, parameters):
        super().__init__(None, [], parameters, None, None, 'fixed')
        self.result = None

    def evaluate(self):
        return self.result

    def process_raw_data(self, raw_data):
        raise NotImplementedError()

    def to_hdf5(self):
        return dict(parameters=self.parameters)


# option: distance in tolerances, tolerance given, desired given, factor
FULL = list(itertools.product((-2., -1., -.5, 0., .5, 1., 2.), (True, False), (True, False), (1., 2., .25, -2.)))
PAIR = list(itertools.product((-1., -.5, 1., 2.), (True, False), (True, False), (1., 2., -2.)))
TRIPLE = [(-1., True, True, 2.), (-.5, True, True, .25), (.5, True, True, 1.), (1., True, True, 1.), (2., False, True, 4.),
          (-2., True, False, 2.)]
TRIPLE_T = TRIPLE + [(0., True, True, 1.), (-2., True, True, 1.), (2., True, True, -2.), (.5, True, True, -.5),
                     (2., False, False, 2.), (1., False, True, 1.)]


def groupings(n):
    out = []
    for perm in itertools.permutations(range(n)):
        for cuts in itertools.product((False, True), repeat=n - 1):
            groups, cur = [], [perm[0]]
            for cut, i in zip(cuts, perm[1:]):
                if cut:
                    groups.append(cur)
                    cur = []
                cur.append(i)
            out.append(groups + [cur])
    return out


def chunks(tier):
    yield 1, 0
    for i in range(len(FULL if tier == 'thorough' else PAIR)):
        yield 2, i, tier
    for i in range(len(TRIPLE if tier == 'quick' else TRIPLE_T)):
        for j in range(len(TRIPLE if tier == 'quick' else TRIPLE_T)):
            yield 3, i, j, tier


    for n in (2, 3):
        for kinds in itertools.product(('own', 'spare', 'foreign'), repeat=n):
            if 'own' in kinds:
                yield 'shared', n, kinds


def explore(chunk, rec):
    n = chunk[0]
    if n == 'shared':
        return shared(chunk, rec)
    if n == 1:
        combos = [(o,) for o in FULL]
    elif n == 2:
        opts = FULL if chunk[2] == 'thorough' else PAIR
        combos = [(opts[chunk[1]], o) for o in opts]
    else:
        opts = TRIPLE if chunk[3] == 'quick' else TRIPLE_T
        combos = [(opts[chunk[1]], opts[chunk[2]], o) for o in opts]
    for combo in combos:
        for target_order in itertools.permutations(range(n)) if n < 3 else [(2, 0, 1)]:
            for groups in groupings(n):
                rec.current = (combo, target_order, groups)
                case(n, combo, target_order, groups, rec)


def case(n, combo, target_order, groups, rec):
    names = [NAMES[i] for i in target_order]
    opt = dict(zip(NAMES, combo))
    desired = {p: (.5 + .5 * i if opt[p][2] else NAN) for i, p in enumerate(NAMES[:n])}
    tolerance = {p: (.25 * 2 ** i if opt[p][1] else NAN) for i, p in enumerate(NAMES[:n])}
    width = {p: .25 * 2 ** i for i, p in enumerate(NAMES[:n])}
    centre = {p: .5 + .5 * i for i, p in enumerate(NAMES[:n])}
    factor = {p: opt[p][3] for p in NAMES[:n]}
    # the columns of the target are handed over in different orders
    target = make_target(desired=series(desired, names), tolerance=series(tolerance, names[::-1]),
                         rescaling_factor=series(factor, sorted(names)))
    lab = Lab(dict(g0=0., g1=0., g2=0., g3=0.))
    gates = ['g0', 'g1', 'g2'][:n]
    solver = ScriptSolver(target, series(dict.fromkeys(gates, 0.)), 0.)
    evaluators = [Fixed([NAMES[i] for i in g]) for g in groups]
    tuner = SubsetTuner(evaluators, gates, solver=solver)
    tuned_points = []
    for k, sign in enumerate((1., -1.)):
        voltages = series({g: j + .5 * k for j, g in enumerate(lab.voltages)})
        scaled = {p: centre[p] + sign * opt[p][0] * width[p] for p in NAMES[:n]}
        raw = {p: scaled[p] * factor[p] for p in scaled}
        raw_var = {p: .01 * (i + 1 + k) for i, p in enumerate(NAMES[:n])}
        var = {p: raw_var[p] / factor[p] ** 2 for p in raw_var}
        for e in evaluators:
            order = list(e.parameters)
            # an evaluator may deliver its values in any order
            e.result = (series({p: raw[p] for p in reversed(order)}), series({p: raw_var[p] for p in order}))
        expect = all(abs(desired[p] - scaled[p]) < tolerance[p] for p in names
                     if desired[p] == desired[p] and tolerance[p] == tolerance[p])
        verdict = bool(tuner.is_tuned(voltages))
        rec.require(verdict == expect, lambda: 'verdict %r, expected %r: scaled values %r desired %r tolerance %r'
                                               % (verdict, expect, scaled, desired, tolerance))
        if expect:
            tuned_points.append(dict(voltages))
        rec.require(len(tuner.tuned_voltages) == len(tuned_points) and all(
            close(a, b) for a, b in zip(tuner.tuned_voltages, tuned_points)),
            lambda: 'tuned points %r, expected %r' % ([dict(v) for v in tuner.tuned_voltages], tuned_points))
        values, variances = tuner.last_parameters_and_variances
        relevant = {p for p in names if desired[p] == desired[p] and tolerance[p] == tolerance[p]}
        rec.require(relevant <= set(values.index) <= set(names) and close(values, {p: scaled[p] for p in values.index}),
                    lambda: 'reported values %r, expected %r' % (dict(values), scaled))
        rec.require(relevant <= set(variances.index) and close(variances, {p: var[p] for p in variances.index}),
                    lambda: 'reported variances %r, expected %r' % (dict(variances), var))
        rec.require(len(solver.log) == k + 1 and close(solver.log[k][0], voltages) and close(solver.log[k][1], scaled)
                    and close(solver.log[k][2], var), lambda: 'the optimizer was told %r' % (solver.log[k:],))
        rec.require(close(tuner.last_voltages, voltages), 'last voltages %r' % (dict(tuner.last_voltages),))
        for e in evaluators:
            rec.require(close(e.result[0], {p: raw[p] for p in e.parameters})
                        and close(e.result[1], {p: raw_var[p] for p in e.parameters}), 'the result of the evaluator was altered')
        rec.transition()
        rec.state((combo, target_order, groups, k, verdict))
    rec.trace()
    rec.execution(key=(combo, target_order, groups), outcome=(combo, len(tuned_points)))
    rec.sample(repr((combo, target_order, groups, 'tuned %d of 2' % len(tuned_points))))


def shared(chunk, rec):
    """the target contains parameters without conditions, evaluated by this group (spare) or by another one (foreign); later a
    change of the targets gives conditions to the spare ones"""
    _, n, kinds = chunk
    names = NAMES[:n]
    here = [p for p, k in zip(names, kinds) if k != 'foreign']
    own = [p for p, k in zip(names, kinds) if k == 'own']
    steps = (-2., .5, NAN) if n == 2 else (.5, NAN)
    for enabled in itertools.chain.from_iterable(itertools.combinations([p for p in here if p not in own], r) for r in range(n + 1)):
        for first, second in itertools.product(itertools.product(steps, repeat=len(here)), repeat=2):
            for how in ('tuner', 'restored'):
                rec.current = (chunk, enabled, first, second, how)
                desired = {p: (.5 + .5 * i if p in own else NAN) for i, p in enumerate(names)}
                width = {p: .25 * 2 ** i for i, p in enumerate(names)}
                target = make_target(desired=series(desired, names[::-1]), tolerance=series({p: width[p] if p in own else NAN for p in names}, names),
                                     rescaling_factor=series({p: 2. ** i for i, p in enumerate(names)}, names))
                gates = ['g0', 'g1', 'g2'][:n]
                solver = ScriptSolver(target, series(dict.fromkeys(gates, 0.)), 0.)
                evaluators = [Fixed([p]) for p in here]
                tuner = SubsetTuner(evaluators, gates, solver=solver)
                active = set(own)
                for turn, distances in enumerate((first, second)):
                    if turn:
                        change = {p: .5 + .5 * names.index(p) for p in enabled}
                        if enabled:
                            tuner.target = dict(desired=series(change), tolerance=series({p: width[p] for p in enabled}))
                            active |= set(enabled)
                        if how == 'restored':
                            tuner = SubsetTuner(**tuner.to_hdf5())
                    scaled = {p: .5 + .5 * names.index(p) + d * width[p] for p, d in zip(here, distances)}
                    for e in evaluators:
                        q = e.parameters[0]
                        e.result = (series({q: scaled[q] * 2. ** names.index(q)}), series({q: .01}))
                    failed = any(scaled[p] != scaled[p] for p in active)
                    expect = not failed and all(abs(scaled[p] - .5 - .5 * names.index(p)) < width[p] for p in active)
                    verdict = bool(tuner.is_tuned(series({g: turn + .5 for g in gates})))
                    rec.require(verdict == expect and tuner.last_evaluation_failed == failed,
                                lambda: 'tuned %r failed %r, expected %r and %r: values %r, conditions for %r' % (verdict, tuner.last_evaluation_failed, expect, failed, scaled, sorted(active)))
                    values, _ = tuner.last_parameters_and_variances
                    rec.require(active <= set(values.index) and close(values[sorted(active)], {p: scaled[p] for p in active}), lambda: 'reported values %r, expected %r' % (dict(values), scaled))
                    if not failed:
                        told = solver.log[-1][1]
                        rec.require(all(abs(told[p] - scaled[p]) < 1e-9 for p in here if scaled[p] == scaled[p]) and all(told[p] != told[p] for p in names if p not in here), lambda: 'the optimizer was told %r' % told)
                    rec.transition()
                    rec.state((rec.current, turn))
                rec.execution(key=rec.current, outcome=(rec.current, verdict))
                rec.trace()

"""C11: every entry of the history belongs to its row and name.

The real Autotuner, tuners and History; a step-by-step oracle notes what each evaluator returned at which voltages and
which gradients were held afterwards. Every query of the history is compared with it after every step.
"""
import itertools
import math

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.history import History
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NewtonSolver, make_target

from mc.checks.c07 import user_event
from mc.core import enumerate_tree
from mc.hist import HIERARCHIES, build, raw
from mc.setups import LABS, estimator
from mc.world import Lab, evaluator, series

TECHNIQUE = 'exhaustive enumeration of answer patterns, histories of the shipped set-ups and adversarial names, step-by-step oracle on every query'
LEVEL = 'model_checking'
RULE = ('an execution is one run with its history checked after every step: one path of answers (tuned / untuned / failed) and user events through 1 to 3 '
        'groups, or one shipped set-up, or one choice of names')
BOUNDS = {'quick': 'up to 6 evaluations (with a user event: 4) of 1 to 3 groups; 17 set-ups x 3 experiments x 3 user events, up to 20 steps; names: all pairs of '
                   '16 parameter names with 4 pairs of gate names and all pairs of 12 gate names with 4 pairs of parameter names',
          'thorough': 'up to 8 evaluations (with a user event: 7); 17 set-ups x 4 experiments x 9 user events, up to 60 steps; all pairs of parameter names x all pairs of gate names'}
ASSUMPTIONS = ['names contain no # (the separator of the history) and parameters, gates and the tuner index have distinct names',
               'the history is recorded from the start of the run']
LIMIT = {'quick': 400, 'thorough': 3000}
NAN = float('nan')

PARAMETERS = ['p', 'pp', 'p ', ' p', 'p.', '.', '.*', 'p|q', 'p+', '(p)', '[p]', '^p', 'p$', 'var', 'grad', 'p\\d']
GATES = ['a', 'aa', 'a ', 'a.', '.', 'a|b', '[ab]', 'a+', '(a)', '^a', 'grad', 'cov']


def chunks(tier):
    for groups in (1, 2, 3):
        for event in [None] + [(k, e) for k in ((1, 3, 4) if tier == 'quick' else range(1, 8)) for e in ('move', 'retarget', 'restart')]:
            for first in ('u', 't'):
                yield 'answers', groups, event, first, tier
    for h in HIERARCHIES:
        for l in (LABS if tier == 'thorough' else ('curved', 'hole', 'far')):
            yield 'setup', h, l, None, tier
            for k in ((4,) if tier == 'quick' else (2, 4, 5, 9)):
                for e in ('move', 'retarget'):
                    yield 'setup', h, l, (k, e), tier
    for i, n in enumerate(PARAMETERS):
        yield 'names', 'parameters', i, tier
    for i, n in enumerate(GATES):
        yield 'names', 'gates', i, tier


def explore(chunk, rec):
    if chunk[0] == 'answers':
        answers(chunk, rec)
    elif chunk[0] == 'setup':
        setup(chunk, rec)
    else:
        names(chunk, rec)


class Oracle:
    """notes what belongs into each row"""

    def __init__(self, at, lab, rec):
        self.at, self.lab, self.rec = at, lab, rec
        self.rows = []
        self.names = set()
        self.records = []
        for i, t in enumerate(at.tuning_hierarchy):
            for e in t.evaluators:
                self.watch(i, e)
            self.names |= self.relevant(t)

    @staticmethod
    def relevant(t):
        if isinstance(t, SubsetTuner):
            return {str(p) for p in t.target.index[t.target['desired'].notna()]}
        return {str(p) for e in t.evaluators for p in e.parameters}

    def watch(self, i, e):
        original = e.evaluate

        def evaluate():
            values, variances = original()
            self.records.append((i, e, dict(values), dict(variances)))
            return values, variances
        e.evaluate = evaluate

    def gradients(self, i):
        """parameter -> (gradient or None, covariance or None) held now"""
        t = self.at.tuning_hierarchy[i]
        out = {}
        if isinstance(t.solver, NewtonSolver):
            for p, e in zip(t.solver.target.index, t.solver.gradient_estimators):
                g, c = e.estimate(), e.covariance()
                out[str(p)] = (None if g is None else {str(k): float(v) for k, v in g.items()},
                               None if c is None else {(str(x), str(y)): float(c.loc[x, y]) for x in c.index for y in c.columns})
        return out

    def before(self):
        """called before a step"""
        at = self.at
        self.evaluating = at.voltages_to_set is None and not at.current_tuner_status
        self.index = at.current_tuner_index
        self.records.clear()

    def after(self):
        """called after a step"""
        at, first = self.at, not self.rows
        if self.evaluating:
            point = dict(self.lab.voltages)
            if not self.rows or self.rows[-1]['point'] != point:
                self.rows.append(dict(point=point, values={}, variances={}, raw={}, gradients={}, optional={}, all={}))
            row = self.rows[-1]
            t = at.tuning_hierarchy[self.index]
            relevant = self.relevant(t)
            for i, e, values, variances in self.records:
                assert i == self.index
                for p in values:
                    if str(p) in relevant:
                        factor = float(t.target['rescaling_factor'].get(p, 1.)) if p in t.target.index else 1.
                        factor = 1. if math.isnan(factor) else factor
                        row['values'][p] = values[p] / factor
                        row['variances'][p] = variances[p] / factor ** 2
                        row['all'].setdefault(p, []).append((row['values'][p], row['variances'][p]))
                row['raw'][e.name] = raw(e.to_hdf5())
            if self.records:
                for p, g in self.gradients(self.index).items():
                    row['gradients'][p] = [g]
                    row['optional'].pop(p, None)
            else:
                for p, g in self.gradients(self.index).items():
                    if p not in row['gradients']:
                        row['optional'].setdefault(p, []).append(g)
            if first:
                for i in range(len(at.tuning_hierarchy)):
                    if i != self.index:
                        row['optional'].update({p: [g] for p, g in self.gradients(i).items()})
        elif self.rows and self.index < len(at.tuning_hierarchy) and at.voltages_to_set is not None:
            row = self.rows[-1]             # computing the next voltages may ask the estimators
            for p, g in self.gradients(self.index).items():
                if p in row['gradients']:
                    row['gradients'][p].append(g)
                else:
                    row['optional'].setdefault(p, []).append(g)

    def check_sparse(self, history, fed):
        """history: was handed the tuner only after some steps; fed: (row, groups evaluated there) of these"""
        rec = self.rec
        rows = [r for k, (r, _) in enumerate(fed) if not k or fed[k - 1][0] != r]
        if not rec.require(history.number_of_stored_iterations == len(rows), lambda: 'steps left out: %d rows for %d recorded voltages' % (
                history.number_of_stored_iterations, len(rows))):
            return
        for g in self.lab.voltages:
            self.column('steps left out: voltages of %r' % g, history.get_gate_values(g), [self.rows[r]['point'][g] for r in rows])
        for p in sorted(history.parameter_names):
            values, stds = list(history.get_parameter_values(p)), list(history.get_parameter_std(p))
            group = next(i for i, t in enumerate(self.at.tuning_hierarchy) if p in self.relevant(t))
            for k, r in enumerate(rows):
                have, measured = (float(values[k]), float(stds[k])), self.rows[r]['all'].get(p, [])
                known = any(self.eq(have[0], v) and self.eq(have[1], self.root(w)) for v, w in measured)
                rec.require(known or have[0] != have[0], lambda: 'steps left out: row %d: %r is %r, measured at these voltages %r' % (k, p, have, measured))
                last = next(n for row, n in reversed(fed) if row == r)
                if group < last and measured:
                    rec.require(known, lambda: 'steps left out: row %d: %r is %r although %r was measured before the step that was recorded' % (k, p, have, measured))

    def check(self, history):
        rec, n = self.rec, len(self.rows)
        if not rec.require(history.number_of_stored_iterations == n, lambda: '%d rows for %d visited voltages' % (
                history.number_of_stored_iterations, n)):
            return
        rec.require(history.gate_names == set(self.lab.voltages), lambda: 'gates %r' % history.gate_names)
        rec.require({str(p) for p in history.parameter_names} == self.names, lambda: 'parameters %r, tuned are %r' % (
            history.parameter_names, self.names))
        for g in self.lab.voltages:
            self.column('voltages of %r' % g, history.get_gate_values(g), [r['point'][g] for r in self.rows])
        for p in sorted(history.parameter_names):
            self.column('values of %r' % p, history.get_parameter_values(p), [r['values'].get(p, NAN) for r in self.rows])
            self.column('standard deviation of %r' % p, history.get_parameter_std(p),
                        [self.root(r['variances'].get(p, NAN)) for r in self.rows])
        for p in sorted({p for r in self.rows for p in list(r['gradients']) + list(r['optional'])}):
            self.gradient(p, history)
        data = history.get_evaluator_data()
        if rec.require(len(data.index) == n, lambda: '%d rows of raw data for %d rows' % (len(data.index), n)):
            for name in set(data.columns) | {e for r in self.rows for e in r['raw']}:
                for k, r in enumerate(self.rows):
                    have = data[name].iloc[k] if name in data.columns else NAN
                    if name in r['raw']:
                        rec.require(isinstance(have, dict) and raw(have) == r['raw'][name], lambda: 'row %d: raw data of %s: %.300r, measured %.300r' % (
                            k, name, have, r['raw'][name]))
                    else:
                        rec.require(not isinstance(have, dict) or not np.size(have.get('raw_y_data')) or have['raw_y_data'] is None,
                                    lambda: 'row %d: raw data of %s, which was not measured at these voltages: %.300r' % (k, name, have))

    @staticmethod
    def root(x):
        return math.sqrt(x) if x >= 0 else NAN

    def column(self, what, have, want):
        have = [float(x) for x in have]
        self.rec.require(len(have) == len(want) and all(self.eq(a, b) for a, b in zip(have, want)),
                         lambda: '%s: %r instead of %r' % (what, have, want))

    @staticmethod
    def eq(a, b):
        return (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(b))

    def gradient(self, p, history):
        rec = self.rec
        gradients, covariances, variances = history.get_gradients(p), history.get_gradient_covariances(p), history.get_gradient_variances(p)
        known = [g for r in self.rows for g in r['gradients'].get(p, []) + r['optional'].get(p, [])]
        gates = {k for g, c in known if g is not None for k in g}
        pairs = {k for g, c in known if c is not None for k in c}
        rec.require(set(gradients.columns) <= gates and len(set(gradients.columns)) == len(gradients.columns),
                    lambda: 'gradient of %r with respect to %r instead of %r' % (p, list(gradients.columns), gates))
        rec.require(set(covariances.columns) <= pairs and len(set(covariances.columns)) == len(covariances.columns),
                    lambda: 'covariances of %r of %r instead of %r' % (p, list(covariances.columns), pairs))
        rec.require(set(variances.columns) == {a for a, b in covariances.columns if a == b} and len(set(variances.columns)) == len(variances.columns),
                    lambda: 'variances of %r of %r' % (p, list(variances.columns)))
        for k, r in enumerate(self.rows):
            g = {x: float(gradients[x].iloc[k]) for x in gradients.columns}
            c = {x: float(covariances[x].iloc[k]) for x in covariances.columns}
            v = {x: float(variances[x].iloc[k]) for x in variances.columns}
            g = {x: y for x, y in g.items() if y == y}
            c = {x: y for x, y in c.items() if y == y}
            v = {x: y for x, y in v.items() if y == y}
            allowed = r['gradients'].get(p) or [(None, None)] + r['optional'].get(p, [])
            fits = any(self.fits(g, a) and self.fits(c, b) for a, b in allowed)
            rec.require(fits, lambda: 'row %d: gradient of %r: %r, covariance %r; held after the evaluation: %r' % (k, p, g, c, allowed))
            rec.require(self.fits(v, {x: y for (x, z), y in c.items() if x == z}), lambda: 'row %d: variances of the gradient of %r: %r, covariances %r' % (k, p, v, c))

    def fits(self, have, want):
        want = {k: v for k, v in (want or {}).items() if v == v}
        return set(have) == set(want) and all(self.eq(have[k], want[k]) for k in want)


def step(at, lab, oracle, history, rec, event=None):
    """one step with its checks; False when the run is complete"""
    if event == 'restart':
        at.restart()
    elif event is not None:
        user_event(at, lab, event)
    if at.is_tuning_complete():
        return False
    oracle.before()
    at.iterate()
    oracle.after()
    history.append_autotuner(at)
    oracle.check(history)
    rec.transition()
    return True


def setup(chunk, rec):
    _, hierarchy, lab_name, event, tier = chunk
    at, lab = build(hierarchy, lab_name)
    oracle, history = Oracle(at, lab, rec), History(None)
    sparse = [(keep, History(None), []) for keep in (lambda k: k % 2 == 0, lambda k: k % 3 == 0, lambda k: k % 3 != 1)]
    for k in range(20 if tier == 'quick' else 60):
        rec.current = (chunk, 'step', k)
        if not step(at, lab, oracle, history, rec, event[1] if event and event[0] == k else None):
            break
        rec.state((chunk[:3], repr(oracle.rows[-1])))
        for keep, other, fed in sparse:
            if keep(k):
                other.append_autotuner(at)
                fed.append((len(oracle.rows) - 1, at.current_tuner_index + (at.voltages_to_set is not None or at.current_tuner_status)))
                oracle.check_sparse(other, fed)
    rec.execution(key=chunk, outcome=(chunk[:3], len(oracle.rows), repr(oracle.rows[-1])))
    rec.trace()
    rec.sample(repr(rec.current))


class Answers(Lab):
    """answers the measurements as chosen; every value is unique"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.answer = None
        self.count = 0

    def measure(self, measurement):
        self._call('measure', measurement.name, tuple(sorted(self.voltages.items())))
        self.count += 1
        return self.answer(measurement.name, self.count)


def answers(chunk, rec):
    _, groups, event, first, tier = chunk
    depth = (6 if event is None else 4) if tier == 'quick' else (8 if event is None else 7)
    gates = ['g%d' % i for i in range(groups)]

    def run(choose):
        lab = Answers(dict({g: .1 * (i + 1) for i, g in enumerate(gates)}, x=1.), {'m_r%d' % i: None for i in range(groups)})
        hierarchy, evaluated, good, path = [], [0], set(), []
        for i, g in enumerate(gates):
            start = series({g: lab.voltages[g]})
            solver = NewtonSolver(target=make_target(desired=series({'r%d' % i: i + 1.}), tolerance=series({'r%d' % i: .5}),
                                                     rescaling_factor=series({'r%d' % i: 2. ** i})),
                                  gradient_estimators=[estimator('kalman', start, np.array([.8]))], current_position=start.copy())
            hierarchy.append(SubsetTuner([evaluator(lab, 'r%d' % i)], [g], solver=solver, maximal_step_size=.6 if i == 1 else NAN,
                                         maximal_step_number=2))
        at = Autotuner(lab, hierarchy)

        def answer(name, count):
            i = int(name[3:])
            evaluated[0] += 1
            options = 'utf' if i in good else 'ut'
            a = first if evaluated[0] == 1 else choose(options)
            path.append(a)
            desired = float(at.tuning_hierarchy[i].target['desired'].iloc[0]) * 2. ** i
            if a == 'f':
                return NAN, .01 * count
            good.add(i)
            return desired + (.001 if a == 't' else 2. + .1 * count) * (-1) ** count + .0001 * count, .01 * count
        lab.answer = answer
        oracle, history = Oracle(at, lab, rec), History(None)
        k = 0
        while evaluated[0] < depth and k < 3 * depth:
            rec.current = (chunk, 'answers', ''.join(path), 'step', k)
            if not step(at, lab, oracle, history, rec, event[1] if event and event[0] == k else None):
                break
            rec.state((groups, ''.join(path), k, event))
            k += 1
        rec.current = (chunk, 'answers', ''.join(path))
        rec.execution(key=rec.current, outcome=repr(oracle.rows))
        rec.trace()
    rec.note('answer patterns', enumerate_tree(run))
    rec.sample(repr(rec.current))


def names(chunk, rec):
    _, kind, i, tier = chunk
    if tier == 'quick':
        if kind == 'parameters':
            cases = [((PARAMETERS[i], p), g) for p in PARAMETERS if p != PARAMETERS[i]
                     for g in (('a', 'aa'), ('.', 'a'), ('a|b', 'a'), ('grad', 'cov'))]
        else:
            cases = [(p, (GATES[i], g)) for g in GATES if g != GATES[i]
                     for p in (('p', 'pp'), ('.', 'p'), ('p', 'p|q'), ('grad', 'var'))]
    else:
        if kind == 'gates':
            return
        cases = [((PARAMETERS[i], p), g) for p in PARAMETERS if p != PARAMETERS[i] for g in itertools.permutations(GATES, 2)]
    for ps, gs in cases:
        if set(ps) & set(gs):
            continue
        rec.current = (chunk, ps, gs)
        lab = Lab({gs[0]: .25, gs[1]: -.5, 'x': 1.}, {
            'm_' + ps[0]: lambda v: (v[gs[0]] + .5 * v[gs[1]] + .125, .01),
            'm_' + ps[1]: lambda v: (.25 * v[gs[0]] - v[gs[1]], .02),
            'm_third': lambda v: (v['x'] + .1 * v[gs[0]], .03)})
        start = series({g: lab.voltages[g] for g in gs})
        solver = NewtonSolver(target=make_target(desired=series({ps[0]: 1., ps[1]: -.5}), tolerance=series({ps[0]: .05, ps[1]: .05}),
                                                 rescaling_factor=series({ps[0]: 1., ps[1]: 2.})),
                              gradient_estimators=[estimator('kalman', start, np.array([.8, .4])), estimator('kalman', start, np.array([.2, -.4]))],
                              current_position=start.copy())
        one = SubsetTuner([evaluator(lab, *ps)], gs, solver=solver)
        start = series({'x': 1.})
        other = SubsetTuner([evaluator(lab, 'third')], ['x'], solver=NewtonSolver(
            target=make_target(desired=series({'third': 1.5}), tolerance=series({'third': .2})),
            gradient_estimators=[estimator('kalman', start, np.array([.8]))], current_position=start))
        at = Autotuner(lab, [one, other])
        oracle, history = Oracle(at, lab, rec), History(None)
        for k in range(8):
            if not step(at, lab, oracle, history, rec):
                break
            rec.state((ps, gs, k))
        rec.execution(key=rec.current, outcome=(ps, gs, repr(oracle.rows)))
        rec.trace()
    rec.sample(repr(rec.current))

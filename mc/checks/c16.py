"""C16: restart after manual changes, and new targets, at every point of many runs.

For every shipped kind of optimizer and hierarchy the run is interrupted after each of its first steps by a restart (after each
of several manual moves) or by each of several target changes, also twice; the state is compared with what was asked for and
the continuation is monitored.
"""
import os

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner, load_auto_tuner
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NelderMeadSolver, NewtonSolver, make_target

from mc import core, setups
from mc.setups import HIERARCHIES, LABS, NAN, estimator, observe, plain
from mc.world import Lab, clone, evaluator, same, series

TECHNIQUE = 'exhaustive enumeration of restart/target-change points in complete tuning runs of the real Autotuner, monitored against the announced voltages, targets and earlier records'
LEVEL = 'model_checking'
RULE = ('a state is what a user can observe of the tuner between two steps; a transition is one step, restart or target change; an execution is one '
        'interrupted run followed to its end')
BOUNDS = {'quick': '15 hierarchies (finite differences, Kalman, self-initializing, simplex, sensing dot, overlapping gates, with and without slicing) x 2 of 4 experiments each; interrupted after each of '
                   'the first 12 steps by 3 manual moves with restart, 5 target changes; pairs of interruptions 0..4 steps apart; 10 steps followed afterwards',
          'thorough': 'all 4 experiments, the first 24 steps, pairs 0..8 steps apart, 24 steps followed'}
ASSUMPTIONS = ['a group whose very first evaluation fails has no voltages to walk back to (such paths end there)',
               'after a target change partial steps that were queued may be finished before the next evaluation']
LIMIT = {'quick': 300, 'thorough': 3000}


def low_high(kind_low, kind_high, step=NAN, number=1):
    """a lower group moving gates of the higher one"""
    def make(lab):
        low_target = make_target(desired=series(dict(p=1.)), tolerance=series(dict(p=.05)))
        start = series({'a': lab.voltages['a']})
        low = SubsetTuner([evaluator(lab, 'p')], ['a'], solver=NewtonSolver(low_target, [estimator(kind_low, start, np.array([.75]))], start.copy()))
        target = make_target(desired=series(dict(q=-.5)), tolerance=series(dict(q=.05)), rescaling_factor=series(dict(q=2.)))
        start = series({g: lab.voltages[g] for g in ('a', 'b')})
        high = SubsetTuner([evaluator(lab, 'q')], ['a', 'b'], solver=NewtonSolver(target, [estimator(kind_high, start, np.array([.2, -.4]))], start.copy()),
                           maximal_step_size=step, maximal_step_number=number)
        return [low, high]
    return make


ALL = dict(HIERARCHIES, **{'overlap kalman': low_high('kalman', 'kalman', .4, 2), 'overlap self': low_high('fd', 'self')})
MOVES = {'stay': {}, 'one': dict(a=.375, x=-.5), 'all': dict(a=-.625, b=.4375, s=.3, x=.25)}
CHANGES = {'nothing': lambda groups: [{} for _ in groups],
           'desired': lambda groups: [dict(desired=pd.Series({g[0]: .75})) for g in groups[:1]],
           'last tolerance': lambda groups: [{} for _ in groups[:-1]] + [dict(tolerance=pd.Series({groups[-1][-1]: .2}))],
           'both': lambda groups: [dict(tolerance=pd.Series({n: .15 + .01 * i for i, n in reversed(list(enumerate(g)))}),
                                        desired=pd.Series({n: .5 - .25 * i for i, n in reversed(list(enumerate(g)))})) for g in groups],
           'none addressed': lambda groups: []}


def chunks(tier):
    quick = tier == 'quick'
    for i, h in enumerate(ALL):
        for j, l in enumerate(LABS):
            if quick and (i + j) % 2:
                continue
            for part in range(2):
                yield h, l, part, tier


def start(h, l):
    curved, hole, place = LABS[l]
    lab = Lab(dict(setups.HOME, **place), setups.responses(curved, hole))
    at = Autotuner(lab, ALL[h](lab))
    lab.log.clear()
    return lab, at


def names_of(tuner):
    return {m.name for e in tuner.evaluators for m in e.measurements}


class Impossible(Exception):
    """the first evaluation of a group failed"""


class Follow:
    """one run with its monitors"""

    def __init__(self, lab, at, rec, measured=None, fresh=None, first=None):
        self.lab, self.at, self.rec = lab, at, rec
        self.measured = measured if measured is not None else set()
        self.fresh = fresh          # group -> gradients that must not change before its first evaluation since the restart is over
        self.first = first          # the next step must evaluate the lowest group

    def fork(self):
        lab, at = clone(self.lab, self.at)
        return Follow(lab, at, self.rec, set(self.measured), dict(self.fresh) if self.fresh else None, self.first)

    def gradients(self, i):
        solver = self.at.tuning_hierarchy[i].solver
        if not isinstance(solver, NewtonSolver):
            return None
        # (those of parameters without desired value belong to another group)
        return tuple((plain(e.estimate()), plain(e.covariance())) for e, d in zip(solver.gradient_estimators, solver.target['desired']) if d == d)

    def step(self):
        """False when tuning is complete"""
        at, lab, rec = self.at, self.lab, self.rec
        if at.is_tuning_complete():
            return False
        here = dict(lab.voltages)
        lab.log.clear()
        try:
            at.iterate()
        except IndexError:
            t = at.get_current_tuner()
            records = t.tuned_voltages if not isinstance(t, SubsetTuner) else t.to_hdf5()['evaluatable_voltages']
            if t.last_evaluation_failed and not records:
                raise Impossible()
            raise
        rec.transition()
        rec.state(repr(observe(at)))
        names = {c[1] for c in lab.log if c[0] == 'measure'}
        if self.first:
            rec.require(names and names <= names_of(at.tuning_hierarchy[0]) and not any(c[0] == 'set' for c in lab.log),
                        lambda: 'the first step after the restart does not evaluate the lowest group: %r' % lab.log)
            self.first = False
        for i, t in enumerate(at.tuning_hierarchy):
            if not names & names_of(t):
                continue
            if isinstance(t.solver, NelderMeadSolver) and not t.last_evaluation_failed:
                values = t.last_parameters_and_variances[0]
                self.measured.add((plain({g: here[g] for g in t.solver.current_position.index}), plain(values)))
                for position, entry in t.solver.simplex:
                    if not entry.isna().any():
                        rec.require((plain(dict(position)), plain(entry)) in self.measured,
                                    lambda: 'the simplex holds %r at %r, which was never measured' % (dict(entry), dict(position)))
            if self.fresh and i in self.fresh:
                if not t.last_evaluation_failed:
                    old = self.fresh.pop(i)
                    rec.require(self.gradients(i) == old, lambda: 'the first evaluation after the restart was combined with values from before: gradients of group %d %r -> %r'
                                % (i, old, self.gradients(i)))
        return True

    def steps(self, n):
        try:
            for _ in range(n):
                if not self.step():
                    break
        except Impossible:
            self.rec.note('first evaluation failed')

    def restart(self, move):
        at, lab, rec = self.at, self.lab, self.rec
        for g, d in MOVES[move].items():
            lab.voltages[g] += d
        records = plain([t.tuned_voltages for t in at.tuning_hierarchy])
        targets = plain([t.target for t in at.tuning_hierarchy])
        gradients = [self.gradients(i) for i in range(len(at.tuning_hierarchy))]
        lab.log.clear()
        at.restart()
        rec.transition()
        here = dict(lab.voltages)
        rec.require(not any(c[0] != 'read' for c in lab.log), lambda: 'restart acted on the experiment: %r' % lab.log)
        rec.require(at.current_tuner_index == 0 and not at.current_tuner_status and at.voltages_to_set is None,
                    'after a restart: group %r, verdict %r, pending %r' % (at.current_tuner_index, at.current_tuner_status, at.voltages_to_set))
        rec.require(plain([t.tuned_voltages for t in at.tuning_hierarchy]) == records, 'the restart altered records of tuned voltages')
        rec.require(plain([t.target for t in at.tuning_hierarchy]) == targets, 'the restart altered targets')
        rec.require([self.gradients(i) for i in range(len(at.tuning_hierarchy))] == gradients, 'the restart altered gradients')
        for i, t in enumerate(at.tuning_hierarchy):
            self.holds('group %d' % i, t.last_voltages, here, set(here))
            self.holds('optimizer of group %d' % i, t.solver.current_position, here)
            for e in getattr(t.solver, 'gradient_estimators', ()):
                self.holds('gradient estimator of group %d' % i, e.current_position, here)
            if isinstance(t, SubsetTuner):
                rec.require(t.to_hdf5()['number_queued_steps'] == 0, 'partial steps stay queued over a restart')
        self.first = True
        self.fresh = {i: g for i, g in enumerate(gradients) if g is not None}

    def holds(self, who, series, here, gates=None):
        if series is None or series.isna().all() and not gates:
            return      # (an estimator that still waits for its first position)
        self.rec.require((gates is None or set(series.index) == gates) and all(abs(series[g] - here[g]) < 1e-12 for g in series.index),
                         lambda: '%s holds %r after a restart at %r' % (who, dict(series), here))

    def retarget(self, change):
        at, rec = self.at, self.rec
        groups = [[n for n in t.target.index if any(n in e.parameters for e in t.evaluators)] for t in at.tuning_hierarchy]
        changes = CHANGES[change](groups)
        want = []
        for i, t in enumerate(at.tuning_hierarchy):
            table = {(n, c): t.target.loc[n, c] for n in t.target.index for c in t.target.columns}
            for c, values in (changes[i].items() if i < len(changes) else ()):
                for n, v in values.items():
                    table[n, c] = v
            want.append(table)
        before = observe(at)
        queued = [t.to_hdf5().get('number_queued_steps') for t in at.tuning_hierarchy]
        stored = [self.stored(t) for t in at.tuning_hierarchy]
        self.lab.log.clear()
        at.change_targets(changes)
        rec.transition()
        after = observe(at)
        rec.require(not self.lab.log, 'a target change acted on the experiment')
        rec.require(at.current_tuner_index == 0 and not at.current_tuner_status and at.voltages_to_set is None,
                    'after a target change: group %r, verdict %r, pending %r' % (at.current_tuner_index, at.current_tuner_status, at.voltages_to_set))
        for i, t in enumerate(at.tuning_hierarchy):
            got = {(n, c): t.target.loc[n, c] for n in t.target.index for c in t.target.columns}
            rec.require(same(got, want[i]), lambda: 'targets of group %d are %r instead of %r' % (i, got, want[i]))
            a, b = dict(before['group %d' % i]), dict(after['group %d' % i])
            a.pop('target'), b.pop('target')
            rec.require(a == b, lambda: 'the target change altered group %d: %r' % (i, setups.difference(a, b)))
            rec.require(self.stored(t) == stored[i], 'the target change lost measurements')
        self.first = not any(queued)
        # the targets now in force belong to the run, not to the caller
        for c in changes:
            for s in c.values():
                s[:] = -99.
        for i, t in enumerate(at.tuning_hierarchy):
            got = {(n, c): t.target.loc[n, c] for n in t.target.index for c in t.target.columns}
            rec.require(same(got, want[i]), 'the targets follow later changes of the argument')

    @staticmethod
    def stored(t):
        out = []
        for e in getattr(t.solver, 'gradient_estimators', ()):
            d = e.to_hdf5()
            out.append((repr(plain(d.get('stored_measurements'))), repr(d.get('current_value'))))
        if isinstance(t.solver, NelderMeadSolver):
            out.append(repr([(plain(p), plain(v)) for p, v in t.solver.simplex]))
        return out

    def interrupt(self, what, which):
        getattr(self, what)(which)


INTERRUPTIONS = [('restart', m) for m in MOVES] + [('retarget', c) for c in CHANGES]


def explore(chunk, rec):
    h, l, part, tier = chunk
    quick = tier == 'quick'
    length, gap, tail = (12, 5, 10) if quick else (24, 9, 24)
    lab, at = start(h, l)
    run = Follow(lab, at, rec)
    k = 0
    while k <= length:
        for n, (what, which) in enumerate(INTERRUPTIONS):
            if (n + k) % 2 != part:
                continue
            rec.current = (chunk, k, what, which)
            one = run.fork()
            one.interrupt(what, which)
            if what == 'restart':
                # a second restart at the same voltages changes nothing
                seen = observe(one.at)
                one.at.restart()
                rec.require(observe(one.at) == seen, 'a second restart at the same voltages changes something')
            if n % 4 == k % 4:
                resumed(chunk, one, rec, tail, (k, what, which))
            # twice
            if (n + k) % (4 if quick else 2) == 0:
                two = one.fork()
                for j in range(gap):
                    for m, (what2, which2) in enumerate(INTERRUPTIONS):
                        if which2 in ('stay', 'all', 'both') and (m + j + k) % 2 == 0:
                            rec.current = (chunk, k, what, which, j, what2, which2)
                            three = two.fork()
                            three.interrupt(what2, which2)
                            three.steps(tail // 2)
                            done(three, rec)
                    rec.current = (chunk, k, what, which, j)
                    try:
                        if not two.step():
                            break
                    except Impossible:
                        break
            rec.current = (chunk, k, what, which)
            one.steps(tail)
            done(one, rec)
        k += 1
        rec.current = (chunk, k)
        try:
            if not run.step():
                break
        except Impossible:
            break
    rec.sample(repr(rec.current))


def done(run, rec):
    if run.at.is_tuning_complete():
        # whatever happened, the targets in force are met by the values last measured
        for t in run.at.tuning_hierarchy:
            if isinstance(t, SubsetTuner):
                values = t.last_parameters_and_variances[0]
                for n in t.target.index:
                    d, tol = t.target.loc[n, 'desired'], t.target.loc[n, 'tolerance']
                    rec.require(d != d or tol != tol or abs(values[n] - d) < tol, lambda: 'complete, but %s is %r instead of %r +- %r' % (n, values[n], d, tol))
            rec.require(same(t.tuned_voltages[-1], run.lab.voltages), 'complete, but the present voltages are not recorded as tuned')
    rec.execution(key=rec.current, outcome=repr(observe(run.at)))
    rec.trace()


def resumed(chunk, run, rec, tail, case):
    """the interrupted tuner saved, loaded and continued does what the interrupted tuner does"""
    import h5py
    from qtune.storage import from_hdf5, to_hdf5
    a, b = run.fork(), run.fork()
    with h5py.File('mc.hdf5', 'w', driver='core', backing_store=False) as f:
        to_hdf5(f, 'autotuner', b.at, {'experiment': b.lab})
        b.at = from_hdf5(f, {'experiment': b.lab})['autotuner']
    a.lab.log.clear()
    b.lab.log.clear()
    for i in range(tail):
        ended = []
        for r in (a, b):
            try:
                ended.append(r.step())
            except Impossible:
                ended.append('impossible')
        rec.require(ended[0] == ended[1] and a.lab.log == b.lab.log and observe(a.at) == observe(b.at),
                    lambda: 'the run saved and loaded after the interruption continues differently: %r, %r / %r' % (setups.difference(observe(a.at), observe(b.at)), a.lab.log, b.lab.log))
        if ended[0] is not True:
            break
    rec.trace()

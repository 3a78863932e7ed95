"""C01: order of tuning and soundness of completion.

Breadth-first search over the complete reachable state graph of the real Autotuner driven by scripted parameter groups
(each verdict is a branching choice), compared after every operation with an independent reference machine.
"""
import collections

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.parameter_tuner import ParameterTuner
from qtune.solver import Solver, make_target

from mc.canon import canon
from mc.world import Lab, clone, evaluator, series

TECHNIQUE = 'explicit-state search over the real tuner with every verdict as a branch, against a reference machine'
LEVEL = 'model_checking'
RULE = ('breadth-first search to closure (states merged by canonical object graph of tuner + experiment + reference '
        'machine) over operations step/restart/manual move+restart/target change and every verdict; '
        'a trace is one operation history replayed on fresh objects and compared with the reference machine step by step')
BOUNDS = {'quick': 'hierarchies of 1..3 groups, 3 gates, all initial positions, all operations, all verdicts, to closure',
          'thorough': 'hierarchies of 1..4 groups with several parameters, all initial positions, to closure; and all '
                      'operation sequences of length <= 8 without state merging for 2 groups'}
ASSUMPTIONS = ['the groups answer through the public ParameterTuner interface; their verdicts are unconstrained',
               'proposed voltages alternate between two points per group, so that the state space is finite']

GATES = ['a', 'b', 'c']


class Still(Solver):
    """a solver that does nothing; only carries target and position"""

    def __init__(self, target, current_position):
        self._target = target
        self._current_position = current_position

    def suggest_next_position(self, tuned_parameters=None):
        return self._current_position

    def update_after_step(self, position, values, variances):
        self._current_position = position[self._current_position.index]

    @property
    def state(self):
        return pd.Series(dtype=float)

    def to_hdf5(self):
        return dict(target=self._target, current_position=self._current_position)


class Scripted(ParameterTuner):
    """answers are taken from a script shared by the whole hierarchy; every call is logged"""

    def __init__(self, number, script, log, lab, **kwargs):
        super().__init__(**kwargs)
        self.number = number
        self.script = script
        self.calls_log = log
        self.lab = lab

    def is_tuned(self, voltages):
        answer = self.script.popleft()
        self.calls_log.append(('evaluate', self.number, tuple(sorted(voltages.items())), answer))
        self._last_voltage = voltages
        n = len(self._last_parameter_values)
        self._last_parameter_values = pd.Series(np.zeros(n), index=self._last_parameter_values.index)
        return answer

    def get_next_voltages(self, tuned_parameters=None):
        here = dict(self.lab.voltages)
        gate = GATES[self.number % len(GATES)]
        here[gate] = 1. if here[gate] == 0. else 0.
        self.calls_log.append(('suggest', self.number, frozenset(tuned_parameters or ()), tuple(sorted(here.items()))))
        return series(here)

    def to_hdf5(self):
        return dict(super().to_hdf5(), number=self.number)


NPAR = [1, 2, 1, 1]


def target_for(i, variant):
    names = ['p%d%d' % (i, j) for j in range(NPAR[i] + (1 if variant else 0))]
    desired = pd.Series(1., index=names)
    tolerance = pd.Series(.5, index=names)
    if variant and len(names) > 1:
        desired[names[-1]] = np.nan
        tolerance[names[-1]] = np.nan
    return make_target(desired=desired, tolerance=tolerance)


class Machine:
    """reference: bottom-up tuning"""

    def __init__(self, n, index=0, untuned=False, pending=None):
        self.n, self.index, self.untuned, self.pending = n, index, untuned, pending

    def key(self):
        return self.n, self.index, self.untuned, self.pending

    def complete(self):
        return self.index == self.n


def build(cfg):
    n, variant, index, status, pend = cfg
    log = []
    lab = Lab(dict.fromkeys(GATES, 0.))
    answers = collections.deque()
    tuners = []
    for i in range(n):
        t = target_for(i, variant)
        tuners.append(Scripted(i, answers, log, lab,
                               evaluators=[evaluator(lab, *t.index)],
                               solver=Still(t, series(dict.fromkeys(GATES, 0.)))))
    pending = dict(a=1., b=0., c=1.) if pend else None
    at = Autotuner(lab, tuners, current_tuner_index=index, current_tuner_status=status,
                   voltage_to_set=series(pending) if pending else None)
    lab.log.clear()
    m = Machine(n, index, status, tuple(sorted(pending.items())) if pending else None)
    return at, lab, log, answers, m


def names_below(cfg, index):
    names = set()
    for i in range(index):
        t = target_for(i, cfg[1])
        names |= {p for p in t.index if t.desired[p] == t.desired[p]}
    return frozenset(names)


def apply(cfg, world, op, rec):
    """perform op on the real tuner and on the reference; compare"""
    at, lab, log, answers, m = world
    log.clear()
    lab.log.clear()
    before = dict(lab.voltages)
    sets = None
    if op[0] == 'step':
        if m.complete() and m.pending is None:
            try:
                at.iterate()
            except RuntimeError:
                pass
            else:
                rec.violation('a step on a completed tuner was not refused')
            rec.require(not [c for c in lab.log if c[0] != 'read'] and not log and lab.voltages == before,
                        lambda: 'a refused step touched the experiment: %r %r' % (lab.log, log))
            expect = []
        elif m.pending is not None and not m.complete():
            at.iterate()
            sets = m.pending
            m.index, m.pending = 0, None
            expect = []
        elif not m.untuned:
            answers.append(op[1])
            voltages = tuple(sorted(before.items()))
            at.iterate()
            expect = [('evaluate', m.index, voltages, op[1])]
            if op[1]:
                m.index += 1
            else:
                m.untuned = True
        else:
            at.iterate()
            gate = GATES[m.index % len(GATES)]
            want = dict(before)
            want[gate] = 1. if before[gate] == 0. else 0.
            want = tuple(sorted(want.items()))
            expect = [('suggest', m.index, names_below(cfg, m.index), want)]
            m.pending, m.untuned = want, False
    else:
        if op[0] == 'move_restart':
            lab.voltages['a'] = 1. - lab.voltages['a']
        if op[0] in ('restart', 'move_restart'):
            at.restart()
        elif op[0] == 'retarget':
            changes = []
            for i in range(op[1]):
                t = target_for(i, cfg[1])
                changes.append({'desired': t.desired.dropna()})
            at.change_targets(changes)
        m.index, m.pending, m.untuned = 0, None, False
        expect = []
    if sets is not None:
        rec.require([c for c in lab.log if c[0] == 'set'] == [('set', sets)],
                    lambda: 'pending voltages %r: writes were %r' % (sets, [c for c in lab.log if c[0] == 'set']))
    else:
        rec.require(not [c for c in lab.log if c[0] == 'set'],
                    lambda: 'unexpected voltage write %r' % (lab.log,))
    rec.require(log == expect, lambda: 'expected calls %r, observed %r' % (expect, log))
    answers.clear()
    rec.require(at.is_tuning_complete() == m.complete(),
                lambda: 'completion reported %r, expected %r' % (at.is_tuning_complete(), m.complete()))
    rec.require(at.current_tuner_index == m.index,
                lambda: 'position %r, expected %r' % (at.current_tuner_index, m.index))
    rec.require(bool(at.current_tuner_status) == m.untuned,
                lambda: 'evaluated flag %r, expected %r' % (at.current_tuner_status, m.untuned))
    v = at.voltages_to_set
    v = None if v is None else tuple(sorted((k, float(x)) for k, x in v.items()))
    rec.require(v == m.pending, lambda: 'pending voltages %r, expected %r' % (v, m.pending))
    return (tuple(expect), m.key())


def menu(m):
    ops = []
    if (m.complete() and m.pending is None) or m.untuned or m.pending is not None:
        ops.append(('step',))
    else:
        ops += [('step', True), ('step', False)]
    return ops + [('restart',), ('move_restart',), ('retarget', 0)] + [('retarget', m.n)] + \
        ([('retarget', 1)] if m.n > 1 else [])


def chunks(tier):
    out = []
    for n in range(1, 4 if tier == 'quick' else 5):
        for variant in (0, 1):
            out.append(('bfs', n, variant, 0, False, False))
            for index in range(n + 1):
                for status in (False, True):
                    for pend in (False, True):
                        if index == n and (status or pend):
                            continue
                        if status and pend or (index == 0 and not status and not pend):
                            continue
                        if variant and tier == 'quick':
                            continue
                        out.append(('bfs', n, variant, index, status, pend))
    if tier == 'thorough':
        for first in range(2):
            for second in range(6):
                for third in range(6):
                    out.append(('tree', 2, 1, 0, False, False, (first, second, third), 8))
    else:
        for first in range(6):
            out.append(('tree', 2, 1, 0, False, False, (first,), 5))
    return out


def explore(chunk, rec):
    if chunk[0] == 'bfs':
        bfs(chunk[1:], rec)
    else:
        tree(chunk[1:6], chunk[6], chunk[7], rec)


def run(cfg, history, rec):
    rec.current = (cfg, history)
    world = build(cfg)
    obs = None
    for op in history:
        obs = apply(cfg, world, op, rec)
    return world, obs


STATE_CAP = 1500


def state_key(world):
    """everything the Autotuner itself holds, the targets, and the experiment; not the book keeping of the groups
    (their answers come from the script, so it cannot influence the order of calls)"""
    at, lab, _, _, m = world
    own = {}
    for k, v in vars(at).items():
        if v is lab or k in ('_logger',):
            continue
        if isinstance(v, (list, tuple)) and any(isinstance(x, ParameterTuner) for x in v):
            v = [x.target for x in v]
        own[k] = v
    return canon((own, lab.voltages)), m.key()


def fork(world):
    at, lab, log, answers, m = world
    lab, at, log, answers, m = clone(lab, at, log, answers, m)
    return at, lab, log, answers, m


def bfs(cfg, rec):
    world = build(cfg)
    seen = {state_key(world)}
    frontier = collections.deque([((), world)])
    last = ()
    while frontier:
        hist, world = frontier.popleft()
        for op in menu(world[4]):
            nxt = fork(world)
            rec.current = (cfg, hist + (op,))
            obs = apply(cfg, nxt, op, rec)
            rec.transition()
            rec.execution(key=(cfg, hist, op), outcome=obs)
            key = state_key(nxt)
            if key not in seen:
                if len(seen) >= STATE_CAP:
                    rec.note('state cap reached')
                    continue
                seen.add(key)
                rec.state((cfg, key))
                last = hist + (op,)
                frontier.append((last, nxt))
                if len(last) <= 4:
                    run(cfg, last, rec)     # the same history on fresh objects
                    rec.trace()
    run(cfg, last, rec)
    rec.trace()
    rec.sample(repr((cfg, last)))


def tree(cfg, prefix, depth, rec):
    """all operation sequences of exactly `depth` operations whose first choices are `prefix` (no merging)"""
    def rec_tree(hist, world):
        if len(hist) == depth:
            rec.execution(key=hist)
            rec.trace()
            rec.state((cfg, world[4].key(), tuple(sorted(world[1].voltages.items()))))
            return
        ops = menu(world[4])
        if len(hist) < len(prefix):
            k = prefix[len(hist)]
            ops = ops[k:k + 1]
        for op in ops:
            nxt = fork(world)
            rec.current = (cfg, hist + (op,))
            obs = apply(cfg, nxt, op, rec)
            rec.transition()
            rec.execution(outcome=obs)
            rec_tree(hist + (op,), nxt)
    rec_tree((), build(cfg))

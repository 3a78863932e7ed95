"""C21: the simplex optimizer against a textbook Nelder-Mead reference, over all order patterns of the costs."""
import h5py
import numpy as np
import pandas as pd

from qtune.solver import NelderMeadSolver, make_target
from qtune.storage import from_hdf5, to_hdf5

from mc.core import enumerate_tree
from mc.kit import close
from mc.world import series

TECHNIQUE = 'exhaustive enumeration of cost order patterns driving the real optimizer against a reference machine'
LEVEL = 'model_checking'
RULE = ('every evaluation is a branching choice: the rank of the new cost among the costs of the simplex and of the pending '
        'reflected point; all sequences of ranks up to the stated number of evaluations, with and without saving and '
        'reloading the optimizer between any two of them')
BOUNDS = {'quick': '1 gate: 7 evaluations, 2 gates: 6, 3 gates: 6 (one fewer with reloading); from a contraction that fails to the end of the shrinking for 2 and 3 gates',
          'thorough': '1 gate: 10 evaluations, 2 gates: 8, 3 gates: 8 (one fewer with reloading)'}
ASSUMPTIONS = ['costs are pairwise distinct (ties may be broken either way)',
               'coefficients: reflection 1, expansion 2, contraction 1/2, shrinkage 1/2; the outside contraction is accepted '
               'when better than the reflected point, the inside one when better than the worst point']

DEPTH = {'quick': {1: 7, 2: 6, 3: 6}, 'thorough': {1: 10, 2: 8, 3: 8}}


def chunks(tier):
    for n in (1, 2, 3):
        for mode in ('keep', 'reload'):
            for start in ('evaluated', 'known'):
                for first in range(2):
                    for second in range(3):
                        yield n, mode, start, first, second, DEPTH[tier][n] - (mode == 'reload') - (start == 'known')
                        if start == 'known' and n > 1:
                            # straight to a shrinking simplex and to the end of it
                            yield n, mode, 'shrinks', first, second, 2 * n + 3


class Reference:
    """textbook Nelder-Mead on a full simplex of (position, cost)"""

    def __init__(self, simplex):
        self.s = sorted(simplex, key=lambda e: e[1])
        self.phase, self.reflected, self.shrunk = 'reflect', None, []

    def propose(self):
        pos = [np.array(p) for p, _ in self.s]
        m = sum(pos[:-1]) / (len(pos) - 1)
        w = pos[-1]
        return {'reflect': lambda: 2 * m - w, 'expand': lambda: 3 * m - 2 * w, 'outside': lambda: 1.5 * m - .5 * w,
                'inside': lambda: .5 * m + .5 * w,
                'shrink': lambda: .5 * pos[0] + .5 * pos[len(self.shrunk) + 1]}[self.phase]()

    def replace_worst(self, entry):
        self.s = sorted(self.s[:-1] + [entry], key=lambda e: e[1])
        self.phase, self.reflected = 'reflect', None

    def told(self, entry):
        cost = entry[1]
        costs = [c for _, c in self.s]
        if self.phase == 'reflect':
            if cost < costs[0]:
                self.phase, self.reflected = 'expand', entry
            elif cost < costs[-2]:
                self.replace_worst(entry)
            else:
                self.phase, self.reflected = ('outside' if cost < costs[-1] else 'inside'), entry
        elif self.phase == 'expand':
            self.replace_worst(entry if cost < self.reflected[1] else self.reflected)
        elif self.phase == 'outside':
            if cost < self.reflected[1]:
                self.replace_worst(entry)
            else:
                self.phase = 'shrink'
        elif self.phase == 'inside':
            if cost < costs[-1]:
                self.replace_worst(entry)
            else:
                self.phase = 'shrink'
        else:
            self.shrunk.append(entry)
            if len(self.shrunk) == len(self.s) - 1:
                self.s = sorted([self.s[0]] + self.shrunk, key=lambda e: e[1])
                self.phase, self.reflected, self.shrunk = 'reflect', None, []

    def relevant_costs(self):
        return [c for _, c in self.s] + ([self.reflected[1]] if self.reflected else []) + [c for _, c in self.shrunk]


def reload(solver):
    with h5py.File('reload', 'w', driver='core', backing_store=False) as f:
        to_hdf5(f, 'solver', solver)
        return from_hdf5(f, {})['solver']


def explore(chunk, rec):
    n, mode, start, first, second, depth = chunk
    shrinks, start = start == 'shrinks', 'known' if start == 'shrinks' else start
    gates = ['g%d' % i for i in range(n)]
    home = {g: .5 * i - .25 for i, g in enumerate(gates)}

    def run(choose):
        names = ['p', 'free']
        target = make_target(desired=pd.Series([.5, np.nan], index=names))
        solver = NelderMeadSolver.from_scratch(
            target=target, span=series({g: .5 * (1 + i) for i, g in enumerate(gates)}, gates[::-1]), current_position=series(home),
            current_values=series(dict(p=(.5 + 8. if start == 'known' else np.nan), free=1.)))
        known = [(tuple(home.values()), 64.)] if start == 'known' else []
        ref = None
        history, best = [], None
        if known:
            best = known[0][1]
        for step in range(depth):
            rec.current = (chunk, list(choose.taken), history)
            if mode == 'reload':
                solver = reload(solver)
            if not known and ref is None:
                position = dict(home)             # a tuner evaluates the starting point first
            else:
                proposal = solver.suggest_next_position(set())
                if mode == 'reload':
                    solver = reload(solver)
                if step % 3 == 0:
                    again = solver.suggest_next_position(set())
                    rec.require(close(proposal, again), 'asking twice gives different proposals')
                position = dict(proposal)
                if not rec.require(set(position) == set(gates) and all(v == v for v in position.values()),
                                   lambda: 'proposal %r' % (position,)):
                    return
                if ref is not None:
                    expect = dict(zip(gates, ref.propose()))
                    if not rec.require(close(position, expect), lambda: '%s: proposed %r, Nelder-Mead proposes %r for %r' % (
                            ref.phase, position, expect, ref.s)):
                        return
            point = tuple(position[g] for g in gates)
            # the cost: any rank among the costs that matter
            costs = sorted(ref.relevant_costs() if ref else [c for _, c in known])
            options = len(costs) + 1
            if shrinks and ref and step in (n, n + 1):
                rank = options - 1              # nothing helps
            elif shrinks and step > 1 and (n > 2 or mode == 'reload'):
                rank = choose((0, options - 1) if n > 2 else (0, options // 2, options - 1))
            else:
                rank = choose(options) if options > 1 else 0
            if not costs:
                cost = 64.
            elif rank == 0:
                cost = costs[0] * .5
            elif rank == len(costs):
                cost = costs[-1] * 2
            else:
                cost = .5 * (costs[rank - 1] + costs[rank])
            value = .5 + (-1) ** step * np.sqrt(cost)
            solver.update_after_step(series(dict(position, foreign=3.)), series(dict(other=9., free=float(step), p=value)),
                                     series(dict(other=1., free=1., p=.1)))
            rec.transition()
            history.append((ref.phase if ref else 'build up', rank, point, cost))
            best = cost if best is None else min(best, cost)
            entry = (point, cost)
            if ref is None:
                known.append(entry)
                diffs = np.array([np.subtract(p, known[0][0]) for p, _ in known[1:]]).reshape(-1, n)
                rec.require(len(diffs) == 0 or np.linalg.matrix_rank(diffs) == len(diffs),
                            lambda: 'the initial simplex is degenerate: %r' % (known,))
                if len(known) == n + 1:
                    ref = Reference(known)
            else:
                ref.told(entry)
            if ref is not None:
                # the simplex holds what the rules say, hence also the best known point
                got = sorted((round(float(solver.cost_function(v)), 9), tuple(round(float(p[g]), 9) for g in gates))
                             for p, v in solver.simplex)
                want = sorted((round(c, 9), tuple(round(float(x), 9) for x in p)) for p, c in ref.s)
                if ref.phase != 'shrink':
                    rec.require(got == want, lambda: 'simplex %r, expected %r' % (got, want))
                pending = [c for c in ref.relevant_costs()]
                rec.require(min(pending) <= best * (1 + 1e-12), 'the best known point was discarded')
                rec.require(got[0][0] <= best * (1 + 1e-9) or ref.phase in ('expand', 'shrink'),
                            lambda: 'the best known point (%r) was discarded: %r' % (best, got))
                rec.state((n, ref.phase, tuple(np.argsort([c for _, c in ref.s])), want))
            rec.require(close(solver.current_position, position), 'current position %r' % (dict(solver.current_position),))
        rec.execution(key=(chunk, tuple(choose.taken)), outcome=tuple(h[:2] for h in history))
        rec.trace()
        rec.sample(repr((chunk, history)))

    enumerate_tree(run, (first, second))

"""C19: escalation of the sensing-dot group and the positions it moves to.

Every sequence of cheap results (below / at / between / above the thresholds) up to the stated depth is executed on the real
Autotuner, SensingDotTuner and ForwardingSolver in many configurations and compared with a reference of a few lines.
"""
import itertools

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.parameter_tuner import SensingDotTuner
from qtune.solver import ForwardingSolver, make_target

from mc.core import enumerate_tree
from mc.world import Lab, evaluator, same

TECHNIQUE = 'exhaustive enumeration of sequences of cheap and expensive results (every position relative to the thresholds) on the real tuner against a reference'
LEVEL = 'model_checking'
RULE = ('a state is (configuration, voltages, results so far); a transition is one step of the autotuner; an execution is one sequence of results')
BOUNDS = {'quick': '2 cheap signals each below/at/between/above both thresholds, 10 assignments of measured positions to gates, rescaling factors, orders of names and of evaluators, '
                   'thresholds missing; 2 evaluations in every third configuration, 3 in four; a manual move with restart between evaluations',
          'thorough': '3 evaluations in all configurations, 4 in four'}
ASSUMPTIONS = ['at most one value of an evaluation is assigned to a gate', 'all results are defined (undefined ones are C05)']
LIMIT = {'quick': 300, 'thorough': 3000}

LEVELS = [.25, .5, .75, 1., 1.5]        # of the rescaled signals; cost threshold .5, minimum 1.
HOME = dict(t=.25, s=-1., u=3., other=.5)

# positions: name -> (scan, gate or None)
ASSIGN = [
    dict(spot=('cheap', 's'), best=('dear', 's')),
    dict(spot=('cheap', 's'), best=('dear', 't')),
    dict(spot=('cheap', 't'), best=('dear', 's'), best2=('dear', 't')),
    dict(best=('dear', 't'), best2=('dear', 's')),
    dict(spot=('cheap', 's'), spot2=('cheap', 't')),
    dict(spot=('cheap', 's'), spot2=('cheap', None), best=('dear', 's'), best2=('dear', None)),
    dict(spot2=('cheap', 's'), spot=('cheap', 't'), best2=('dear', 's'), best=('dear', 't')),
    dict(spot=('cheap', 't'), best=('dear', None)),
    dict(spot=('cheap', 's'), best=('dear', 's'), best2=('dear', 'u')),
    dict(spot=('cheap', 'u'), spot2=('cheap', 's'), best=('dear', 'u'), best2=('dear', 't')),
]
# which signals have which thresholds: (minimum, cost) per signal
LIMITS = [((1., .5), (1., .5)), ((1., .5), (1., None)), ((1., .5), (None, .5)), ((1., .5), (None, None)), ((1., None), (1., None))]
FACTORS = [dict(), dict(sig=2., spot=4., best=.5), dict(sig=.5, other_sig=4., best2=2., spot2=8.)]


def configurations(tier):
    for i, (a, l, f) in enumerate(itertools.product(range(len(ASSIGN)), range(len(LIMITS)), range(len(FACTORS)))):
        if tier != 'quick' or (a + l + f) % 3 == 0:
            yield a, l, f, (a + l) % 4


def chunks(tier):
    quick = tier == 'quick'
    for c in configurations(tier):
        yield c, 2 if quick else 3
    for c in ((0, 0, 1, 1), (2, 1, 2, 2), (5, 2, 1, 3), (6, 0, 2, 0)):
        for first in range(len(LEVELS)):
            yield c, 3 if quick else 4, first


def explore(chunk, rec):
    (a, l, f, order), depth = chunk[:2]
    fixed = chunk[2:]
    positions, limits, factors = ASSIGN[a], LIMITS[l], FACTORS[f]
    signals = ['sig', 'other_sig']
    cheap = signals + [n for n, (scan, _) in positions.items() if scan == 'cheap']
    dear = [n for n, (scan, _) in positions.items() if scan == 'dear'] or ['unused']
    gates = ['s', 't'] + (['u'] if any(g == 'u' for _, g in positions.values()) else [])
    names = signals + sorted(positions)
    if order % 2:
        names, cheap, gates = names[::-1], cheap[::-1], gates[::-1]
    table = dict(zip(signals, limits))
    nan = np.nan

    def run(choose):
        limit = dict(table)
        if (a + order) % 2:         # thresholds of expensive results decide nothing, whatever was measured before
            limit[dear[0]] = (1e6, 1e6)
        value = lambda n, k: nan if n not in limit or limit[n][k] is None else limit[n][k]
        # (parameters without any target need not appear in it; with a factor they have to)
        listed = names if order < 2 else [n for n in names if n in limit or n in factors]
        target = make_target(minimum=pd.Series([value(n, 0) for n in listed], index=listed), cost_threshold=pd.Series([value(n, 1) for n in listed], index=listed),
                             rescaling_factor=pd.Series([factors.get(n, 1.) for n in listed], index=listed))
        now = {}
        lab = Lab(HOME)
        for n in cheap + dear:
            lab.response['m_' + n] = lambda v, n=n: (now['raw'][n], .01)
        mapping = pd.Series({n: (g if g is not None else nan) for n, (_, g) in positions.items()}, dtype=object)
        if order in (1, 2):
            mapping = mapping[::-1]
        solver = ForwardingSolver(target, mapping, pd.Series({g: HOME[g] for g in gates}))
        split = [evaluator(lab, *cheap)] if order != 3 else [evaluator(lab, n) for n in cheap]
        tuner = SensingDotTuner(split, [evaluator(lab, *dear)] if order != 2 else [evaluator(lab, n) for n in dear], gates, solver=solver)
        at = Autotuner(lab, [tuner])
        place = dict(HOME)
        history = []
        for turn in range(depth):
            first, second = choose(LEVELS), choose(LEVELS if turn == 0 and not fixed else LEVELS[1::2])
            now['raw'] = {n: 10. * (turn + 1) + .125 * i for i, n in enumerate(cheap + dear)}
            scaled = dict(sig=first, other_sig=second)
            for n in signals:
                now['raw'][n] = scaled[n] * factors.get(n, 1.)
            history.append((first, second))
            rec.current = (chunk, list(choose.taken), history)
            lab.log.clear()
            at.iterate()
            rec.transition()
            tuned = not any(table[n][0] is not None and scaled[n] <= table[n][0] for n in signals)
            scan = not tuned and any(table[n][1] is not None and scaled[n] <= table[n][1] for n in signals)
            done = [c[1][2:] for c in lab.log if c[0] == 'measure']
            rec.require(at.is_tuning_complete() == tuned, lambda: 'complete=%r for the signals %r' % (at.is_tuning_complete(), scaled))
            rec.require(sorted(done) == sorted(cheap + (dear if scan else [])), lambda: 'measured %r for the signals %r' % (done, scaled))
            values, variances = tuner.last_parameters_and_variances
            for n in cheap + (dear if scan else []):
                factor = factors.get(n, 1.)
                rec.require(abs(values[n] - now['raw'][n] / factor) < 1e-9 and abs(variances[n] - .01 / factor ** 2) < 1e-9,
                            lambda: '%s reported as %r +- %r, measured %r' % (n, values[n], variances[n], now['raw'][n]))
            rec.state((chunk[0], tuple(sorted(place.items())), tuple(history)))
            if tuned:
                rec.require(same(tuner.tuned_voltages[-1], place), 'the tuned point is not recorded')
                rec.require(same(dict(lab.voltages), place), 'the gates were moved')
                if turn == depth - 1:
                    break
                # the experiment drifts away and tuning starts again
                lab.voltages['t'] += .5
                lab.voltages['other'] -= 1.
                at.restart()
                place = dict(lab.voltages)
                continue
            lab.log.clear()
            at.iterate()
            at.iterate()
            rec.transition(2)
            want = dict(place)
            for n, (kind, g) in positions.items():
                if g is not None and kind == ('dear' if scan else 'cheap'):
                    want[g] = now['raw'][n]
            sets = [dict(c[1]) for c in lab.log if c[0] == 'set']
            rec.require(len(sets) == 1 and not any(c[0] == 'measure' for c in lab.log), lambda: 'calls %r' % lab.log)
            rec.require(same(dict(lab.voltages), want), lambda: 'moved to %r instead of %r (signals %r)' % (lab.voltages, want, scaled))
            place = want
        rec.execution(key=rec.current, outcome=(tuple(history), tuple(sorted(place.items()))))
        rec.trace()

    enumerate_tree(run, fixed)
    rec.sample(repr(rec.current))

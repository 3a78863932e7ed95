"""C23: the simulated experiment.

Every sequence of reads, writes, measurements and alterations of everything handed in or out, up to the stated length, on the
real TestExperiment against a dictionary; the shipped simulations at a grid of voltages.
"""
import copy
import itertools

import numpy as np
import pandas as pd

from qtune import basic_dqd
from qtune.basic_dqd import Simulator, TestExperiment
from qtune.experiment import Measurement

from mc.world import same

TECHNIQUE = 'exhaustive enumeration of sequences of reads, writes, measurements and caller-side alterations on the real simulated experiment against a dictionary'
LEVEL = 'model_checking'
RULE = ('a state is (voltages, handed-out values still held by the caller); a transition is one operation; an execution is one sequence of operations')
BOUNDS = {'quick': 'all sequences of 4 out of 13 operations, 5 initial series (orders, integers, one gate, text-like names); shipped simulations at 16 voltages',
          'thorough': 'all sequences of 5'}
ASSUMPTIONS = ['writes name only gates of the experiment', 'the simulations are deterministic']
LIMIT = {'quick': 200, 'thorough': 3000}
INITIAL = [pd.Series(dict(b=1., a=.5, c=-2.)), pd.Series(dict(a=1., b=2., c=3.)), pd.Series(dict(c=1, a=2, b=3)), pd.Series(dict(a=.25)),
           pd.Series({'RFA': 1., 'RF': 0., 'RFB': -1.})]


def operations(gates):
    g = list(gates)
    first, last = g[0], g[-1]
    return [('read',), ('alter read',), ('write', {first: .75}), ('write', {last: 4., first: -1.5}), ('write', {x: i - .5 for i, x in enumerate(reversed(g))}), ('write', {last: 2}),
            ('write', {}), ('alter written',), ('alter returned',), ('alter initial',), ('measure', 0), ('measure', 1), ('measure unknown',)]


def chunks(tier):
    for i, initial in enumerate(INITIAL):
        for first in range(13):
            yield 'sequence', i, first, 4 if tier == 'quick' else 5
    for name in SHIPPED:
        yield 'shipped', name


def explore(chunk, rec):
    globals()['x_' + chunk[0]](chunk, rec)
    rec.sample(repr(rec.current))


def x_sequence(chunk, rec):
    _, i, first, depth = chunk
    ops = operations(INITIAL[i].index)
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        sequence = [ops[first]] + [ops[k] for k in rest]
        rec.current = (chunk, rest)
        initial = INITIAL[i].copy()
        seen = []

        def simulation(tag):
            def f(voltages, measurement, options):
                seen.append((tag, dict(voltages), measurement, dict(options)))
                result = np.array([tag, float(sum(voltages))])
                voltages[:] = 77.       # a simulation may use its argument as it likes
                return result
            return f
        m = [Measurement('m', gate='x'), Measurement('m', gate='x')]    # (only their identity differs)
        exp = TestExperiment(initial, tuple(m), {id(m[0]): Simulator(simulation(0), o=1), id(m[1]): Simulator(simulation(1), o=2)})
        unknown = Measurement('m', gate='x')
        want = {g: float(v) for g, v in initial.items()}
        held = dict(read=None, written=None, returned=None)
        for op in sequence:
            rec.transition()
            if op[0] == 'read':
                held['read'] = exp.read_gate_voltages()
                rec.require(same(held['read'], want), lambda: 'read %r instead of %r' % (dict(held['read']), want))
            elif op[0] == 'write':
                held['written'] = pd.Series(op[1], dtype=None if op[1] else float)
                held['returned'] = exp.set_gate_voltages(held['written'])
                rec.require(same(held['written'], op[1]), 'the write altered its argument')
                rec.require(same(held['returned'], op[1]), lambda: 'reported as set: %r instead of %r' % (dict(held['returned']), op[1]))
                want.update({g: float(v) for g, v in op[1].items()})
            elif op[0].startswith('alter'):
                target = initial if op[0] == 'alter initial' else held[op[0].split()[1]]
                if target is not None:
                    target[:] = 55.
            elif op[0] == 'measure':
                seen.clear()
                result = exp.measure(m[op[1]])
                rec.require(len(seen) == 1 and seen[0][0] == op[1] and same(seen[0][1], want) and seen[0][2] is m[op[1]] and seen[0][3] == {'o': op[1] + 1},
                            lambda: 'measurement %d ran %r at the voltages %r' % (op[1], seen, want))
                rec.require(list(result) == [op[1], float(sum(want.values()))] or abs(result[1] - sum(want.values())) < 1e-12, 'other data returned')
            else:
                seen.clear()
                try:
                    exp.measure(unknown)
                    rec.violation('an unknown measurement was carried out: %r' % seen)
                except StopIteration:
                    raise
                except Exception:  # noqa  any rejection
                    rec.require(not seen, 'an unknown measurement was simulated')
            now = exp.read_gate_voltages()
            rec.require(same(now, want), lambda: 'after %r the experiment is at %r instead of %r' % (op, dict(now), want))
            rec.require(set(exp.gate_voltage_names) == set(want) and [id(x) for x in exp.measurements] == [id(x) for x in m], 'gates or measurements not listed')
            rec.state((i, tuple(sorted(want.items())), tuple((k, None if v is None else tuple(v)) for k, v in held.items())))
        rec.execution(key=rec.current, outcome=tuple(sorted(want.items())))
        rec.trace()


SHIPPED = {'load_simulation': (dict(gate1='a', gate2='b'), dict()),
           'ss1d_simulation': ({}, {}),
           'ss2d_simulation': (dict(gate1='a', gate2='b'), {}),
           'detune_simulation': (dict(central_upper_gate='a', central_lower_gate='b', left_gate='c', right_gate='d'), dict(center=0., range=2e-3, N_points=100, N_average=10)),
           'transition_simulation': (dict(gate_lead='a', gate_opposite='b'), dict(center=0., range=4e-3, N_points=50))}


def x_shipped(chunk, rec):
    """they use the voltages and alter neither them nor the options; equal conditions give equal data"""
    options, settings = SHIPPED[chunk[1]]
    function = getattr(basic_dqd, chunk[1])
    gates = ['SDB1', 'SDB2', 'N'] if chunk[1] == 'ss1d_simulation' else ['a', 'b', 'c', 'd']
    m = Measurement('scan', **settings)
    exp = TestExperiment(pd.Series(0., index=gates), [m], {id(m): Simulator(function, **options)})
    data = {}
    grid = list(itertools.product((0., 1e-3), repeat=len(gates)))
    for values in grid + grid[::-1]:
        rec.current = (chunk, values)
        exp.set_gate_voltages(pd.Series(dict(zip(gates, values))))
        result = np.asarray(exp.measure(m), dtype=float)
        direct = np.asarray(function(pd.Series(dict(zip(gates, values))), m, dict(options)), dtype=float)
        rec.require(result.size > 1 and np.isfinite(result).all() and np.allclose(result, direct, rtol=1e-12, atol=0), 'the data are not those of the simulation at these voltages')
        rec.require(same(exp.read_gate_voltages(), dict(zip(gates, values))), 'measuring altered the voltages')
        rec.require(m.options == settings, 'measuring altered the options of the measurement')
        if values in data:
            rec.require(np.array_equal(result, data[values]), 'the data depend on the history')
        data[values] = result
        rec.transition(2)
        rec.state(rec.current)
        rec.execution(key=rec.current, outcome=result.tobytes())
        rec.trace()
    rec.require(len({d.tobytes() for d in data.values()}) > 1, 'the data do not depend on the voltages')

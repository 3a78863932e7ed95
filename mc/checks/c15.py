"""C15: the Newton step, and the matching of everything by name.

Every small integer Jacobian, with every choice of parameters with desired value, is given to the real optimizer; the proposed
step is compared with the minimal least-squares solution computed over the rationals. Orders of parameters, of gates (of the
optimizer, of every estimator, of the measured position) and of values, and unrelated entries are enumerated.
"""
import itertools
from fractions import Fraction

import numpy as np
import pandas as pd

from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator, SelfInitializingKalmanEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.solver import NewtonSolver, make_target

from mc.world import same

TECHNIQUE = 'exhaustive enumeration of Jacobians, desired-value patterns, orders of parameters/gates/values and measurement histories on the real optimizer; exact rational least-squares oracle'
LEVEL = 'model_checking'
RULE = ('a state is an optimizer state (Jacobian, position, values, targets, orders of names); a transition is one update or one proposal; an execution '
        'is one proposal decided against the exact solution, or one history followed to its Newton step')
BOUNDS = {'quick': 'all m x n Jacobians, m <= n <= 3, with entries in {-1,0,1,2} (2x3: {-1,0,2}; 3x3: {0,1} and every 41st of {-1,0,1}), all patterns of desired values; regular ones (2x2) also with rows in units that differ by factors of 2^13 and gates by 2^10; '
                   'all orders of 3 gates in position, estimators and measurement, all orders of parameters and values with unrelated entries; '
                   'histories with finite differences, Kalman and self-initializing estimators over 2 and 3 gates up to the second Newton step',
          'thorough': 'entries in {-2..2} up to 2x2, {-1,0,1,2} for 2x3, {-1,0,1} for 3x3'}
ASSUMPTIONS = ['numbers are small dyadic rationals; results are compared within 1e-9 relative',
               'a target change between histories only concerns values (gradients are those of the estimators)']
LIMIT = {'quick': 300, 'thorough': 3000}
GATES = ['b', 'a', 'c']
PARAMS = ['q', 'p', 'r']
HOME = dict(a=.5, b=-1., c=2., x=7.)
DESIRED = dict(p=1.5, q=-.5, r=2.)
CURRENT = dict(p=.25, q=.75, r=-1.)
SHIFT = dict(a=.25, b=-.5, c=1., x=0.)
PARTS = 8


def chunks(tier):
    for k in range(PARTS):
        for what in ('step', 'units', 'names', 'asked', 'loop'):
            yield what, k, tier


def explore(chunk, rec):
    globals()['x_' + chunk[0]](chunk, rec)
    rec.sample(repr(rec.current))


def share(chunk, items):
    return (x for i, x in enumerate(items) if i % PARTS == chunk[1])


def rref(rows):
    m = [list(r) for r in rows]
    pivots, r = [], 0
    for c in range(len(m[0]) if m else 0):
        p = next((i for i in range(r, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        m[r] = [x / m[r][c] for x in m[r]]
        for i in range(len(m)):
            if i != r:
                f = m[i][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        pivots.append(c)
        r += 1
    return m[:r], pivots


def mul(a, b):
    return [[sum((x * y for x, y in zip(row, col)), Fraction(0)) for col in zip(*b)] for row in a]


def inverse(a):
    n = len(a)
    m, pivots = rref([list(row) + [Fraction(i == j) for j in range(n)] for i, row in enumerate(a)])
    assert pivots == list(range(n))
    return [row[n:] for row in m]


def smallest(rows, rhs):
    """the least-squares solution of smallest norm (Moore-Penrose), exactly"""
    j = [[Fraction(x) for x in r] for r in rows]
    n = len(j[0])
    c, pivots = rref(j)
    if not pivots:
        return [Fraction(0)] * n
    b = [[row[p] for p in pivots] for row in j]
    ct, bt = [list(x) for x in zip(*c)], [list(x) for x in zip(*b)]
    pinv = mul(mul(ct, inverse(mul(c, ct))), mul(inverse(mul(bt, b)), bt))
    return [x[0] for x in mul(pinv, [[Fraction(v)] for v in rhs])]


def known(row, gates, current=None):
    """an estimator that knows its gradient (a dict by gate) and never asks"""
    est = KalmanGradientEstimator(KalmanGradient(len(gates), 1, initial_gradient=[row[g] for g in gates]),
                                  pd.Series([HOME[g] for g in gates], index=list(gates)), np.inf, .25, current)
    return est


def newton(params, rows, desired, gates, orders=None, current=CURRENT):
    """rows: dict parameter -> dict gate -> slope"""
    target = make_target(desired=pd.Series([DESIRED[p] if p in desired else np.nan for p in params], index=list(params)),
                         tolerance=pd.Series(.1, index=list(params)))
    estimators = [known(rows[p], orders[p] if orders else gates) for p in params]
    return NewtonSolver(target=target, gradient_estimators=estimators,
                        current_position=pd.Series([HOME[g] for g in gates], index=list(gates)),
                        current_values=pd.Series({p: current[p] for p in params}))


def expected(params, rows, desired, gates, home=HOME, current=CURRENT):
    step = smallest([[rows[p][g] for g in gates] for p in params],
                    [DESIRED[p] - current[p] if p in desired else 0 for p in params])
    return {g: home[g] + float(s) for g, s in zip(gates, step)}


def compare(rec, got, want, what, size=1.):
    ok = isinstance(got, pd.Series) and sorted(got.index) == sorted(want) and all(abs(got[g] - want[g]) <= 1e-9 * (size + abs(want[g])) for g in want)
    rec.require(ok, lambda: '%s: proposed %r instead of %r' % (what, dict(got), want))


def jacobians(tier):
    quick = tier == 'quick'
    wide = (-1, 0, 1, 2) if quick else (-2, -1, 0, 1, 2)
    for m, n, entries in ((1, 1, wide), (1, 2, wide), (1, 3, wide), (2, 2, wide), (2, 3, (-1, 0, 2) if quick else (-1, 0, 1, 2))):
        for flat in itertools.product(entries, repeat=m * n):
            yield m, n, flat
    if quick:
        for flat in itertools.product((0, 1), repeat=9):
            yield 3, 3, flat
    for i, flat in enumerate(itertools.product((-1, 0, 1), repeat=9)):
        if not quick or i % 41 == 0:
            yield 3, 3, flat


def x_step(chunk, rec):
    for m, n, flat in share(chunk, jacobians(chunk[2])):
        params, gates = PARAMS[:m], GATES[:n]
        rows = {p: dict(zip(gates, flat[i * n:(i + 1) * n])) for i, p in enumerate(params)}
        for mask in itertools.product((True, False), repeat=m):
            desired = [p for p, d in zip(params, mask) if d]
            rec.current = (chunk, m, n, flat, mask)
            solver = newton(params, rows, desired, gates)
            want = expected(params, rows, desired, gates)
            compare(rec, solver.suggest_next_position(), want, 'first proposal')
            compare(rec, solver.suggest_next_position({params[0]}), want, 'repeated proposal, with a parameter already tuned')
            rec.require(same(solver.current_position, {g: HOME[g] for g in gates}), 'proposing moved the position')
            rec.transition(2)
            rec.state(rec.current)
            rec.execution(key=rec.current, outcome=(flat, mask))
            rec.trace()


UNITS = (2. ** -13, 1., 2. ** 13)


def x_units(chunk, rec):
    """parameters (and gates) in units of very different size"""
    quick = chunk[2] == 'quick'
    cases = [(m, n, flat) for m, n, flat in jacobians('quick') if m == 2 and (n == 2 or not quick and n == 3)]
    for i, ((m, n, flat), rowunits, gateunit, mask) in enumerate(itertools.product(cases, (u for u in itertools.permutations(UNITS, 2) if 1. in u), (1., 2. ** -10), ((1, 1), (1, 0), (0, 1)))):
        params, gates = PARAMS[:m], GATES[:n]
        if i // PARTS % 3 and quick or i % PARTS != chunk[1]:
            continue
        unit = dict(zip(params, rowunits))
        rows = {p: {g: flat[k * n + j] * unit[p] * (gateunit if j else 1.) for j, g in enumerate(gates)} for k, p in enumerate(params)}
        desired = [p for p, d in zip(params, mask) if d]
        if len(rref([[Fraction(rows[p][g]) for g in gates] for p in params])[1]) < m:
            continue    # singular up to rounding: whether the remaining direction counts is a matter of taste
        rec.current = (chunk, m, n, flat, rowunits, gateunit, mask)
        current = {p: DESIRED[p] - (DESIRED[p] - CURRENT[p]) * unit[p] for p in params}
        solver = newton(params, rows, desired, gates, None, current)
        want = expected(params, rows, desired, gates, HOME, current)
        compare(rec, solver.suggest_next_position(), want, 'proposal', max(abs(x) for x in want.values()))
        rec.transition()
        rec.state(rec.current)
        rec.execution(key=rec.current, outcome=rec.current)
        rec.trace()


SLOPES = [dict(p=dict(a=1, b=2, c=0, x=3), q=dict(a=-1, b=1, c=1, x=1), r=dict(a=0, b=1, c=2, x=-2)),
          dict(p=dict(a=1, b=1, c=0, x=3), q=dict(a=2, b=2, c=0, x=1), r=dict(a=0, b=1, c=1, x=-2)),
          dict(p=dict(a=0, b=0, c=2, x=3), q=dict(a=0, b=-1, c=1, x=1), r=dict(a=0, b=2, c=-2, x=-2))]


def x_names(chunk, rec):
    """every order of everything; unrelated gates and parameters"""
    quick = chunk[2] == 'quick'
    cases = itertools.product(range(len(SLOPES)), (1, 2, 3), itertools.permutations(PARAMS), itertools.permutations(GATES), range(6 if quick else 24), range(4), ((1, 1, 1), (1, 0, 1), (0, 1, 1)))
    cases = (c for c in cases if not (c[1] < 3 and quick and c[3] > tuple(GATES)))
    for s, m, params, gates, e, v, mask in share(chunk, cases):
        if quick and (s + e + v + sum(map(ord, params[0] + gates[0]))) % 3:
            continue
        rows = SLOPES[s]
        params = params[:m]
        desired = [p for p, d in zip(PARAMS, mask) if d and p in params]
        # every estimator has its own order, two of them over one more gate
        options = list(itertools.permutations(GATES + ['x']))
        orders = {p: options[(e * 4 + 7 * i) % 24] if i != 1 else tuple(g for g in options[(e * 4 + 5) % 24] if g != 'x') for i, p in enumerate(PARAMS)}
        rec.current = (chunk, s, params, gates, e, v, mask)
        solver = newton(params, rows, desired, gates, orders)
        compare(rec, solver.suggest_next_position(set()), expected(params, rows, desired, gates), 'proposal')
        # new point, delivered in another order and with unrelated entries
        place = {g: HOME[g] + SHIFT[g] for g in HOME}
        values = {p: CURRENT[p] + sum(rows[p][g] * SHIFT[g] for g in SHIFT) for p in PARAMS}
        noise = {p: .125 * (i + 1) for i, p in enumerate(PARAMS)}
        extra = ['zz', 'p2', 'A'][:v]
        names = list(itertools.permutations(params + tuple(extra)))
        names = names[(e * 5 + v) % len(names)]
        calls = []
        for i, est in enumerate(solver.gradient_estimators):
            def spy(position, value, covariance, is_new_position=False, _i=i, _est=est):
                calls.append((params[_i], {g: float(position[g]) for g in _est.current_position.index}, float(value), float(covariance), is_new_position))
            est.update = spy
        spots = list(options[(e * 3 + v) % 24])
        solver.update_after_step(pd.Series([place[g] for g in spots], index=spots),
                                 pd.Series([values.get(x, 9.) for x in names], index=list(names)),
                                 pd.Series([noise.get(x, 8.) for x in names[::-1]], index=list(names[::-1])))
        want = [(p, {g: place[g] for g in orders[p]}, values[p], noise[p], True) for p in params if p in desired]
        rec.require(sorted(calls, key=str) == sorted(want, key=str), lambda: 'estimators were told %r instead of %r' % (calls, want))
        compare(rec, solver.suggest_next_position(), expected(params, rows, desired, gates, place, values), 'proposal at the new point')
        rec.require(same(solver.current_position, {g: place[g] for g in gates}), lambda: 'position %r' % dict(solver.current_position))
        rec.transition(3)
        rec.state(rec.current)
        rec.execution(key=rec.current, outcome=rec.current)
        rec.trace()


def x_asked(chunk, rec):
    """measurements: the first estimator (of a parameter with desired value) that wants one decides; others are not asked"""
    gates = GATES[:2]
    kinds = ('asks', 'knows', 'empty')
    for m in (1, 2):
        for params in itertools.permutations(PARAMS[:m]):
            for kind, mask, tuned in share(chunk, itertools.product(itertools.product(kinds, repeat=m), itertools.product((0, 1), repeat=m), ((), ('p',), ('q', 'p'), ('r',), None))):
                rec.current = (chunk, params, kind, mask, tuned)
                desired = [p for p, d in zip(params, mask) if d]
                solver = newton(params, SLOPES[0], desired, gates)
                asked = []
                wish = {p: pd.Series({g: HOME[g] + i + 1. for g in gates}) for i, p in enumerate(params)}
                for p, k, est in zip(params, kind, solver.gradient_estimators):
                    def spy(gates=None, tuned_jacobian=None, _p=p, _k=k):
                        asked.append((_p, None if gates is None else list(gates), tuned_jacobian))
                        return {'asks': wish[_p], 'knows': None, 'empty': pd.Series(dtype=float)}[_k]
                    est.require_measurement = spy
                got = solver.suggest_next_position(None if tuned is None else set(tuned))
                first = next((i for i, (p, k) in enumerate(zip(params, kind)) if p in desired and k == 'asks'), None)
                want = [p for p in (params if first is None else params[:first + 1]) if p in desired]
                names = [a[0] for a in asked]
                rec.require(set(want) <= set(names) <= set(desired), lambda: 'asked %r instead of %r' % (names, want))
                told = {p: [SLOPES[0][p][g] for g in gates] for p in params if p in (tuned or ())}
                for _, g, jac in asked:
                    rec.require(g == list(gates), lambda: 'asked about the gates %r' % (g,))
                    if told:
                        ok = jac is not None and sorted(map(list, jac[list(gates)].values.tolist())) == sorted(map(list, [[float(x) for x in r] for r in told.values()]))
                        rec.require(ok, lambda: 'gradients of tuned parameters passed on: %r instead of %r' % (jac, told))
                    else:
                        rec.require(jac is None or len(jac) == 0, lambda: 'gradients of tuned parameters passed on: %r' % jac)
                if first is None:
                    compare(rec, got, expected(params, SLOPES[0], desired, gates), 'proposal')
                else:
                    rec.require(same(got, dict(wish[params[first]])), lambda: 'proposed %r instead of the measurement asked for' % dict(got))
                rec.transition()
                rec.state(rec.current)
                rec.execution(key=rec.current, outcome=rec.current)
                rec.trace()


def estimator(kind, gates):
    position = pd.Series([HOME[g] for g in gates], index=list(gates))
    if kind in ('one', 'two'):
        return FiniteDifferencesGradientEstimator(current_position=position, epsilon=.25, symmetric=kind == 'two')
    if kind in ('self', 'selftwo'):
        return SelfInitializingKalmanEstimator.from_scratch(current_position=position, epsilon=.25, maximum_covariance=np.inf, symmetric=kind == 'selftwo')
    return KalmanGradientEstimator(KalmanGradient(len(gates), 1, initial_gradient=np.zeros(len(gates)), initial_covariance_matrix=np.eye(len(gates)) * 1e6,
                                                  measurement_covariance_matrix=np.eye(1) * 1e-9), position, 1e-2, .25, None)


def x_loop(chunk, rec):
    """measure whatever is asked on an affine system, whatever the orders: the first Newton step is that of the system"""
    quick = chunk[2] == 'quick'
    kinds = ('one', 'two', 'self', 'selftwo', 'kalman')
    cases = itertools.product(range(len(SLOPES)), (2, 3), kinds, kinds, itertools.permutations(PARAMS[:2]), itertools.permutations(GATES), ((1, 1), (1, 0), (0, 1)))
    for s, n, k0, k1, params, order, mask in share(chunk, cases):
        if n == 2 and order[2] != 'c' or quick and n == 3 and (s + kinds.index(k0) + kinds.index(k1) + GATES.index(order[0])) % 3:
            continue
        gates = list(order[:n])
        rows = SLOPES[s]
        desired = [p for p, d in zip(PARAMS[:2], mask) if d]
        rec.current = (chunk, s, n, k0, k1, params, order, mask)
        target = make_target(desired=pd.Series([DESIRED[p] if p in desired else np.nan for p in params], index=list(params)))
        kind = dict(zip(PARAMS[:2], (k0, k1)))
        # the order of the gates differs between the estimators
        estimators = [estimator(kind[p], gates if p == 'p' else gates[::-1]) for p in params]
        solver = NewtonSolver(target=target, gradient_estimators=estimators, current_position=pd.Series({g: HOME[g] for g in gates})[gates])
        place = {g: HOME[g] for g in gates}
        count = 0
        while True:
            at = dict(place)
            values = {p: CURRENT[p] + sum(rows[p][g] * (at[g] - HOME[g]) for g in gates) for p in PARAMS}
            names = (params[::-1] if count % 2 else params) + ('r',)
            solver.update_after_step(pd.Series(at), pd.Series({p: values[p] for p in names}), pd.Series({p: 1e-9 for p in names[::-1]}))
            pending = [e for p, e in zip(params, solver.gradient_estimators) if p in desired and e.require_measurement(gates) is not None]
            proposal = solver.suggest_next_position()
            rec.transition(2)
            rec.state((rec.current, count))
            if not pending:
                break
            rec.require(list(proposal.index) and set(proposal.index) == set(gates), lambda: 'proposed %r' % dict(proposal))
            place = {g: float(proposal[g]) for g in gates}
            count += 1
            if not rec.require(count <= 30, 'the measurements do not end'):
                break
        # parameters without desired value that were never measured impose nothing
        used = [p for p in params if p in desired or solver.gradient_estimators[params.index(p)].estimate() is not None]
        slope = {p: rows[p] if p in desired else dict(solver.gradient_estimators[params.index(p)].estimate()) for p in used}
        step = smallest([[Fraction(slope[p][g]) for g in gates] for p in used], [Fraction(DESIRED[p]) - Fraction(values[p]) if p in desired else 0 for p in used])
        want = {g: place[g] + float(x) for g, x in zip(gates, step)}
        singular = len(rref([[Fraction(rows[p][g]) for g in gates] for p in used])[1]) < len(used)
        # (measured gradients of a singular system are only singular up to rounding)
        if not singular:
            size = max([abs(x) for x in step] + [1])
            rec.require(all(abs(proposal[g] - want[g]) < (1e-4 if 'kalman' in (k0, k1) else 1e-7) * size for g in gates), lambda: 'proposed %r instead of %r' % (dict(proposal), want))
        rec.execution(key=rec.current, outcome=(rec.current, count))
        rec.trace()

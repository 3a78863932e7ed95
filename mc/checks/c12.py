"""C12: finite-difference gradients.

The estimator is driven by its own requests for every affine function of a grid; after every measurement (including
redundant ones inserted at every place of the history) the requests and at the end the estimate and the covariance are compared
with the exact solution.
"""
import copy
import itertools

import numpy as np
import pandas as pd

from qtune.gradient import FiniteDifferencesGradientEstimator, SelfInitializingKalmanEstimator
from qtune.util import (calculate_gradient_non_orthogonal, get_orthogonal_vector, gradient_min_evaluations)

from mc.world import same

TECHNIQUE = 'exhaustive exploration of the request/measure protocol of the real estimator over a grid of affine functions, set-ups and redundant measurements; exact linear algebra as oracle'
LEVEL = 'model_checking'
RULE = ('an execution is one protocol run (number of gates, mode, start, order, step sizes, gradient, place and kind of a redundant '
        'measurement); a state is the set of measurements stored at a moment; a transition is one measurement')
BOUNDS = {'quick': '1 to 3 gates, gradient entries in {-2,0,1,3} (3 gates: {-2,0,1}), one- and two-sided, start known and measured / known / learnt, up to 6 gate '
                   'orders, common or individual step sizes, one redundant measurement at every place; up to 3 displacement vectors with entries in {-1,0,1} for the helper functions',
          'thorough': '1 to 4 gates, gradient entries in {-3..3} (3 gates: {-2,0,1,3}; 4 gates: {-2,0,1}), two redundant measurements'}
ASSUMPTIONS = ['the estimator covers the gates of its optimizer', 'step sizes differ at most by a factor of 8']
LIMIT = {'quick': 300, 'thorough': 3000}
GATES = ['b', 'a', 'd', 'c']
STEPS = dict(a=.25, b=1., c=2., d=.5)
HOME = dict(a=.5, b=-1., c=0., d=2.)
VARIANCES = [1., 4., .25, 9., 2.25, 16., .5, 25., 7.]


def gradients(n, tier):
    values = {1: (-2, 0, 1, 3), 2: (-2, 0, 1, 3), 3: (-2, 0, 1), 4: (-2, 1)} if tier == 'quick' else \
        {1: range(-3, 4), 2: range(-3, 4), 3: (-2, 0, 1, 3), 4: (-2, 0, 1)}
    return itertools.product(values[n], repeat=n)


def chunks(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        orders = list(itertools.permutations(range(n)))
        if n == 4:
            orders = orders[::5]
        for symmetric in (False, True):
            for start in ('measured', 'known', 'learnt'):
                for individual in (False, True):
                    for order in orders:
                        if n >= 3 and order != orders[0] and not individual:
                            continue
                        yield 'protocol', n, symmetric, start, individual, order, tier
    for n in (1, 2, 3):
        for k in range(3):
            yield 'vectors', n, k
    for n in (1, 2):
        yield 'helpers', n
    for n in (1, 2):
        for symmetric in (False, True):
            yield 'selfinit', n, symmetric


def explore(chunk, rec):
    globals()['x_' + chunk[0]](chunk, rec)
    rec.sample(repr(rec.current))


def make(n, symmetric, start, individual, order):
    gates = GATES[:n]
    home = {g: HOME[g] for g in gates}
    index = [gates[i] for i in order]
    epsilon = pd.Series({g: STEPS[g] for g in gates}, index=gates) if individual or start == 'learnt' else .5
    if start == 'learnt':
        est = FiniteDifferencesGradientEstimator(epsilon=epsilon[index], symmetric=symmetric)
    else:
        est = FiniteDifferencesGradientEstimator(current_position=pd.Series(home, index=index), epsilon=epsilon, symmetric=symmetric)
    steps = {g: STEPS[g] if individual or start == 'learnt' else .5 for g in gates}
    return est, gates, home, steps


class Driver:
    def __init__(self, est, gates, home, steps, gradient, offset=5.):
        self.est, self.gates, self.home, self.steps = est, gates, home, steps
        self.gradient = dict(zip(gates, gradient))
        self.offset = offset
        self.count = 0
        self.measured = []      # non-redundant (position, value, variance)

    def value(self, position):
        return self.offset + sum(self.gradient[g] * position[g] for g in self.gates)

    def update(self, position, redundant=False, is_new=True):
        variance = VARIANCES[self.count % len(VARIANCES)]
        self.count += 1
        position = {g: float(position[g]) for g in self.gates}
        # as delivered by an optimizer: more gates, another order
        full = pd.Series(dict(position, z=9., y=-9.))[['z'] + sorted(position) + ['y']]
        self.est.update(full, self.value(position), variance, is_new)
        if not redundant:
            self.measured.append((position, self.value(position), variance))


def scaled(d, a, b):
    return np.array([(a[g] - b[g]) / d.steps[g] for g in d.gates])


def x_protocol(chunk, rec):
    _, n, symmetric, start, individual, order, tier = chunk
    gates = GATES[:n]
    total = (2 * n if symmetric else n + 1)
    needed = total
    extras = [()]
    places = range(total + 1)
    kinds = ('home', 'first', 'last')
    extras += [((p, k),) for p in places for k in kinds]
    if tier == 'thorough' and n < 4:
        extras += [((p, k), (p2, k2)) for p in places for k in kinds for p2 in places if p2 > p for k2 in kinds]
    for extra in extras:
        for gradient in gradients(n, tier):
            if n >= 3 and extra and (sum(map(abs, gradient)) != 4 or tier == 'quick' and order != tuple(range(n))):
                continue
            for ask in ('none', 'own', 'sorted'):
                if ask != 'none' and extra:
                    continue
                rec.current = (chunk, extra, gradient, ask)
                protocol(chunk, extra, gradient, ask, needed, rec)


def protocol(chunk, extra, gradient, ask, needed, rec):
    _, n, symmetric, start, individual, order, tier = chunk
    est, gates, home, steps = make(n, symmetric, start, individual, order)
    d = Driver(est, gates, home, steps, gradient)
    extra = dict(extra)
    argument = dict(none=None, own=[gates[i] for i in order], sorted=sorted(gates))[ask]
    requests = []
    if start in ('measured', 'learnt'):
        d.update(home, redundant=symmetric)
    known_home = bool(d.measured)
    want_requests = needed - len(d.measured)
    step = 0
    while True:
        while step in extra:
            kind = extra.pop(step)
            if kind == 'home' and (known_home or symmetric and len(requests) % 2 == 0):
                d.update(home, redundant=True, is_new=False)
            elif requests and (kind == 'last' or kind == 'first' and not (symmetric and len(requests) % 2)):
                d.update(requests[0 if kind == 'first' else -1], redundant=True)
        rec.state((chunk[1:6], gradient, tuple(tuple(sorted(p.items())) for p, _, _ in d.measured)))
        r = est.require_measurement(argument)
        again = est.require_measurement(argument)
        rec.require(same(r, again), lambda: 'asked twice: %r then %r' % (r, again))
        if r is None:
            break
        if not rec.require(isinstance(r, pd.Series) and set(r.index) == set(gates), lambda: 'request %r' % (r,)):
            return
        rec.require(est.estimate() is None and est.covariance() is None, 'estimate given while measurements are still required')
        x = {g: float(r[g]) for g in gates}
        displacement = scaled(d, x, home)
        length = np.linalg.norm(displacement)
        if not symmetric and not known_home and length < 1e-9:
            known_home = True
        else:
            rec.require(abs(length - 1.) < 1e-9, lambda: 'request %r is displaced by %r steps from %r' % (x, length, home))
        if symmetric and len(requests) % 2:
            rec.require(np.allclose(displacement, -scaled(d, requests[-1], home), atol=1e-9), lambda: 'second of a pair %r is not the mirror image of %r' % (x, requests[-1]))
        requests.append(x)
        if not rec.require(len(requests) <= want_requests, lambda: 'more than %d measurements requested: %r' % (want_requests, requests)):
            return
        d.update(x)
        rec.transition()
        step += 1
    rec.require(len(requests) == want_requests, lambda: '%d requests instead of %d' % (len(requests), want_requests))
    points = np.array([scaled(d, p, home) for p, _, _ in d.measured])
    differences = points[1::2] - points[::2] if symmetric else points[1:] - points[0]
    rec.require(abs(np.linalg.det(differences)) > 1e-3, lambda: 'the requested displacements are not independent: %r' % differences)
    est_g, est_c = est.estimate(), est.covariance()
    if not rec.require(est_g is not None, 'no gradient after all measurements'):
        return
    rec.require(same(est_g, d.gradient, 1e-6), lambda: 'gradient %r instead of %r' % (dict(est_g), d.gradient))
    want = covariance(d, symmetric)
    rec.require(set(est_c.index) == set(gates) == set(est_c.columns) and np.allclose(est_c.loc[gates, gates].values.astype(float), want, rtol=1e-6, atol=1e-9),
                lambda: 'covariance %r instead of %r' % (est_c, want))
    before = copy.deepcopy((est_g, est_c))
    for position in (home, requests[0], {g: 3. * (i + 1) for i, g in enumerate(gates)}):
        d.update(position)
        d.gradient = {g: 7. for g in gates}         # the experiment changes, the estimate is kept
        rec.require(est.require_measurement(argument) is None, 'requests after the gradient is known')
        rec.require(same(est.estimate(), before[0]) and same(est.covariance(), before[1]), 'the estimate changed afterwards')
    rec.execution(key=rec.current, outcome=(n, symmetric, start, gradient, order))
    rec.trace()


def covariance(d, symmetric):
    x = np.array([[p[g] for g in d.gates] for p, _, _ in d.measured])
    v = np.array([v for _, _, v in d.measured])
    if symmetric:
        inverse = np.linalg.inv(x[1::2] - x[::2])
        return inverse @ np.diag(v[1::2] + v[::2]) @ inverse.T
    inverse = np.linalg.inv(np.hstack([np.ones((len(x), 1)), x]))
    return (inverse @ np.diag(v) @ inverse.T)[1:, 1:]


def x_vectors(chunk, rec):
    """orthogonal directions for every set of small integer vectors (also dependent ones, as long as a direction is left)"""
    _, n, k = chunk
    if k >= n and n > 1:
        return
    grid = list(itertools.product((-1, 0, 2) if n == 3 else (-2, -1, 0, 1), repeat=n))
    for vs in itertools.product(grid, repeat=max(k, 1)):
        m = np.array(vs, dtype=float)
        if np.linalg.matrix_rank(m) >= n or (n == 1 and k == 0 and vs != ((0,),)):
            continue
        for as_series in (False, True):
            rec.current = (chunk, vs, as_series)
            arg = [pd.Series(v, index=list('abc')[:n]) for v in m] if as_series else [np.array(v) for v in m]
            out = np.atleast_1d(np.asarray(get_orthogonal_vector(arg), dtype=float))
            rec.require(out.shape == (n,) and abs(np.linalg.norm(out) - 1) < 1e-9 and np.allclose(m @ out, 0, atol=1e-9),
                        lambda: '%r is not a unit vector orthogonal to %r' % (out, vs))
            rec.execution(key=rec.current, outcome=rec.current)
        rec.transition()
        rec.trace()


def x_helpers(chunk, rec):
    """gradient from differences for every set of small displacements"""
    n = chunk[1]
    grid = list(itertools.product((-1, 0, 1) if n == 2 else (-2, -1, 0, 1, 2), repeat=n))
    for points, pairs in [(p, False) for p in itertools.product(grid, repeat=n + 1)] + [(p, True) for p in itertools.product(grid, repeat=2 * n)]:
        if pairs and n == 1:
            continue
        x = np.array(points, dtype=float)
        diff = x[1::2] - x[::2] if pairs else x[1:] - x[0]
        if abs(np.linalg.det(diff)) < .5:
            continue
        for gradient in ((1, -2), (0, 3))if n == 2 else ((2,), (-1,), (0,)):
            rec.current = (chunk, points, pairs, gradient)
            g = np.array(gradient, dtype=float)
            values = list(x @ g + 3.)
            variances = VARIANCES[:len(values)]
            got, cov = calculate_gradient_non_orthogonal(positions=list(x), values=values, variances=variances)
            rec.require(np.allclose(np.ravel(got), g), lambda: 'gradient %r instead of %r' % (got, g))
            d = Driver(None, list(range(n)), None, None, g)
            d.measured = [(dict(enumerate(p)), 0, v) for p, v in zip(x, variances)]
            rec.require(np.allclose(cov, covariance(d, pairs)), lambda: 'covariance %r instead of %r' % (cov, covariance(d, pairs)))
            alone = calculate_gradient_non_orthogonal(positions=list(x), values=values)
            rec.require(np.allclose(np.ravel(alone), g), lambda: 'gradient without variances %r instead of %r' % (alone, g))
            both = gradient_min_evaluations(parameters=[np.array([v, 2. * v]) for v in values], voltage_points=list(x))
            rec.require(np.allclose(both, [g, 2 * g]), lambda: 'gradient %r instead of %r' % (both, g))
            rec.execution(key=rec.current, outcome=rec.current)
        rec.state(rec.current)
        rec.transition()
        rec.trace()


def x_selfinit(chunk, rec):
    """the self-initializing estimator passes through the same protocol and starts the filter with the result"""
    _, n, symmetric = chunk
    gates = GATES[:n]
    for gradient in gradients(n, 'quick'):
        for learnt in (False, True):
            if learnt and symmetric:
                continue
            rec.current = (chunk, gradient, learnt)
            home = {g: HOME[g] for g in gates}
            epsilon = pd.Series(STEPS)[gates]
            est = SelfInitializingKalmanEstimator.from_scratch(None if learnt else pd.Series(home)[gates], epsilon, 1e9, symmetric=symmetric)
            d = Driver(est, gates, home, {g: STEPS[g] for g in gates}, gradient)
            d.update(home, redundant=symmetric)
            number = 0
            while est.require_measurement() is not None and number < 10:
                r = est.require_measurement()
                number += 1
                d.update(r)
                rec.transition()
            rec.require(number == (2 * n if symmetric else n), lambda: '%d requests' % number)
            rec.require(same(est.estimate(), d.gradient, 1e-6), lambda: 'gradient %r instead of %r' % (est.estimate(), d.gradient))
            got = est.covariance().loc[gates, gates].values.astype(float)
            rec.require(np.allclose(got, covariance(d, symmetric), rtol=1e-6), lambda: 'covariance %r instead of %r' % (got, covariance(d, symmetric)))
            rec.execution(key=rec.current, outcome=rec.current)
            rec.state(rec.current)
            rec.trace()

"""C13: the Kalman gradient against the exact posterior.

All sequences of measurements over a grid are fed to the real estimator (depth-first, every prefix compared); the oracle is the
Gaussian posterior in information form, which is a sum over the measurements and therefore blind to their order.
"""
import copy
import itertools

import numpy as np
import pandas as pd

from qtune.gradient import KalmanGradientEstimator, SelfInitializingKalmanEstimator
from qtune.kalman_gradient import KalmanGradient

from mc.world import same

TECHNIQUE = 'exhaustive exploration of measurement histories through the real estimator; exact Bayesian posterior (information form) as oracle'
LEVEL = 'model_checking'
RULE = ('a state is a measurement history (every prefix is one); a transition is one measurement; an execution is a '
        'maximal history; after every transition estimate, covariance and base point are compared with the oracle')
BOUNDS = {'quick': '1 gate: 3 displacements x 2 values x 2 variances x moving or not, up to 3 measurements (restarts included); 2 gates: 5 x 2 x 1-2 x 2, up to 3; 3 gates: 4 x 1 x 1 x 2, up to 4; '
                   '2 priors, 4 dynamics, 2 gate orders; one measurement less with displacements of microvolts and kilovolts; the filter alone with two values: 2 updates',
          'thorough': 'one measurement more'}
ASSUMPTIONS = ['agreement to 1e-7 (floating point)', 'the variance of the base value is not part of the model (convention of the code)']
LIMIT = {'quick': 300, 'thorough': 3000}
GATES = ['b', 'a', 'c']
DYNAMICS = {'static': (None, 1.), 'noise': (.1, 1.), 'fading': (None, 1.25), 'both': (.05, 1.1)}
PRIORS = ('unit', 'correlated')
MOVES = {1: [(1.,), (-.5,), (0.,)], 2: [(1., 0.), (0., -.5), (1., 2.), (-1., 1.), (0., 0.)], 3: [(1., 0., 0.), (0., 1., -1.), (.5, .5, 2.), (0., 0., 0.)]}
VALUES = {1: (1., -2.), 2: (1., -2.), 3: (1.5,)}
VARIANCES = {1: (.25, 4.), 2: (.5,), 3: (.5,)}
LENGTH = {1: 3, 2: 3, 3: 4}


def chunks(tier):
    more = tier == 'thorough'
    for n in (1, 2, 3):
        for prior in PRIORS:
            for dynamics in DYNAMICS:
                for flip in (False, True) if n > 1 else (False,):
                    if not more and (prior == 'unit') != flip:
                        continue
                    for first in range(len(MOVES[n])):
                        yield 'estimator', n, prior, dynamics, flip, first, LENGTH[n] + more
                        if prior == 'correlated':
                            for unit in (2. ** -17, 2. ** 10):      # voltages in V moved by microvolts, in mV by volts
                                yield 'estimator', n, prior, dynamics, flip, first, LENGTH[n] + more - 1 - (n == 3), unit
    for n in (1, 2):
        for dynamics in DYNAMICS:
            yield 'filter', n, dynamics, 2 + more
    for n in (1, 2):
        yield 'after init', n, 2 + more


def explore(chunk, rec):
    globals()['x_' + chunk[0].replace(' ', '_')](chunk, rec)
    rec.sample(repr(rec.current))


def prior_of(name, n):
    mean = np.arange(1., n + 1.)[::-1] / 2
    cov = np.eye(n) * 2. if name == 'unit' else np.eye(n) + .5 * np.ones((n, n)) - .25 * np.diag(np.arange(n))
    return mean, cov


def posterior(mean, cov, h, d, r, noise, alpha, transition=None):
    """one Bayesian step: dynamics, then the observation d = h.g + N(0, r) in information form"""
    n = len(mean)
    f = np.eye(n) if transition is None else transition
    mean = f @ mean
    cov = alpha ** 2 * (f @ cov @ f.T) + noise
    h = np.atleast_2d(h)
    r = np.atleast_2d(r)
    information = np.linalg.inv(cov)
    new = information + h.T @ np.linalg.inv(r) @ h
    vector = information @ mean + h.T @ np.linalg.inv(r) @ np.atleast_1d(d)
    cov = np.linalg.inv(new)
    return cov @ vector, cov


def check_cov(rec, before, after, grows):
    a = np.asarray(after, dtype=float)
    rec.require(np.allclose(a, a.T, atol=1e-9), lambda: 'covariance is not symmetric: %r' % a)
    rec.require(np.linalg.eigvalsh((a + a.T) / 2).min() > -1e-9, lambda: 'covariance is not positive: %r' % a)
    if not grows:
        rec.require(np.linalg.eigvalsh(np.asarray(before, dtype=float) - a).min() > -1e-8, lambda: 'covariance grew from %r to %r' % (before, a))


def x_estimator(chunk, rec):
    _, n, prior, dynamics, flip, first, length = chunk[:7]
    unit = chunk[7] if len(chunk) > 7 else 1.
    gates = GATES[:n]
    index = gates[::-1] if flip else gates
    noise, alpha = DYNAMICS[dynamics]
    mean, cov = prior_of(prior, n)
    q = np.zeros((n, n)) if noise is None else noise * (np.eye(n) + .5 * np.ones((n, n)))
    perm = [gates.index(g) for g in index]
    kalman = KalmanGradient(n, 1, initial_gradient=mean[perm], initial_covariance_matrix=cov[np.ix_(perm, perm)],
                            process_noise=None if noise is None else q[np.ix_(perm, perm)], alpha=alpha)
    base = {g: .5 * i for i, g in enumerate(gates)}
    est = KalmanGradientEstimator(kalman, current_position=pd.Series(base)[index], maximum_covariance=1e9,
                                  epsilon=pd.Series({g: .1 for g in gates})[index])
    moves = [tuple(x * unit for x in m) for m in MOVES[n]]
    kinds = [(m, v * unit, r * unit ** 2, new) for m in moves for v in VALUES[n] for r in VARIANCES[n] for new in (True, False)]
    start = [k for k in kinds if k[0] == moves[first]]

    def compare(est, mean, cov, base):
        got, c = est.estimate(), est.covariance()
        rec.require(same(got, dict(zip(gates, mean)), 1e-7), lambda: 'gradient %r instead of %r' % (dict(got), dict(zip(gates, mean))))
        ok = set(c.index) == set(c.columns) == set(gates) and np.allclose(c.loc[gates, gates].values.astype(float), cov, rtol=1e-7, atol=1e-9)
        rec.require(ok, lambda: 'covariance %r instead of %r' % (c, cov))
        rec.require(same(est.current_position, base), lambda: 'base point %r instead of %r' % (dict(est.current_position), base))
        return c

    def step(est, mean, cov, base, base_value, history, left):
        rec.current = (chunk, history)
        if not left:
            rec.execution(key=rec.current, outcome=(n, dynamics, history))
            rec.trace()
            return
        for kind in start if not history else kinds + (['restart'] if n == 1 or left == 1 else []):
            new = copy.deepcopy(est)
            h = history + (kind,)
            rec.current = (chunk, h)
            rec.state(rec.current)
            rec.transition()
            if kind == 'restart':
                there = {g: base[g] + 1. for g in gates}
                new.restart(pd.Series(dict(there, z=4.)))
                compare(new, mean, cov, there)
                step(new, mean, cov, there, None, h, left - 1)
                continue
            move, value, variance, moved = kind
            position = {g: base[g] + m for g, m in zip(gates, move)}
            before = cov
            full = pd.Series(dict(position, z=7.))[['z'] + sorted(position)]
            new.update(full, value, variance, moved)
            m, c, b, bv = mean, cov, base, base_value
            if base_value is None:
                b, bv = position, value       # the first measurement defines the base
            else:
                if any(move):
                    m, c = posterior(mean, cov, np.array(move), value - base_value, variance, q, alpha)
                if moved:
                    b, bv = position, value
            got = compare(new, m, c, b)
            check_cov(rec, before, got.loc[gates, gates].values, dynamics != 'static')
            step(new, m, c, b, bv, h, left - 1)

    step(est, mean, cov, base, None, (), length)


def x_filter(chunk, rec):
    """the filter itself: two values at once, a given transition and observation noise, prediction on and off"""
    _, n, dynamics, length = chunk
    noise, alpha = DYNAMICS[dynamics]
    dim = 2 * n
    transitions = [None, np.eye(dim) + np.diag([.5] * (dim - 1), 1)]
    r0 = np.array([[1., .25], [.25, .5]])
    for ti, f in enumerate(transitions):
        mean, cov = np.arange(1., dim + 1), np.eye(dim) * 2 + .5
        q = np.zeros((dim, dim)) if noise is None else noise * np.eye(dim)
        kalman = KalmanGradient(n, 2, state_transition_function=f, initial_gradient=mean, initial_covariance_matrix=cov,
                                measurement_covariance_matrix=r0, process_noise=None if noise is None else q, alpha=alpha)
        rec.require(np.allclose(kalman.grad, mean.reshape(2, n)) and np.allclose(kalman.cov, cov), 'prior is not kept')
        kinds = list(itertools.product(MOVES[n][:3], ((1., 2.), (-1., .5)), ('own', 'given', 'number'), (True, False), ('own', 'given')))

        def step(kalman, mean, cov, history, left):
            if not left:
                rec.execution(key=rec.current, outcome=(n, dynamics, history))
                rec.trace()
                return
            for kind in kinds if len(history) < 2 else kinds[::5]:
                move, values, r, predict, given_q = kind
                if given_q == 'given' and not predict:
                    continue
                new = copy.deepcopy(kalman)
                rec.current = (chunk, ti, history + (kind,))
                rec.state(rec.current)
                rec.transition()
                rr = dict(own=r0, given=np.eye(2) * .5 + .125, number=np.eye(2) * .75)[r]
                qq = q if given_q == 'own' else np.eye(dim) * .3
                new.update(list(move), list(values), measurement_covariance=None if r == 'own' else .75 if r == 'number' else rr,
                           process_covariance=None if given_q == 'own' else qq, predict=predict)
                h = np.kron(np.eye(2), np.array([move]))
                m, c = posterior(mean, cov, h, np.array(values), rr, *((qq, alpha, f) if predict else (np.zeros((dim, dim)), 1., None)))
                rec.require(np.allclose(new.grad, m.reshape(2, n), rtol=1e-7, atol=1e-9), lambda: 'gradient %r instead of %r' % (new.grad, m.reshape(2, n)))
                rec.require(np.allclose(new.cov, c, rtol=1e-7, atol=1e-9), lambda: 'covariance %r instead of %r' % (new.cov, c))
                check_cov(rec, cov, new.cov, True)
                step(new, m, c, history + (kind,), left - 1)

        step(kalman, mean, cov, (), length if n == 1 else 2)


def x_after_init(chunk, rec):
    """a self-initializing estimator continues as a filter starting from the finite differences"""
    _, n, length = chunk
    gates = GATES[:n]
    for noise, alpha in DYNAMICS.values():
        q = np.zeros((n, n)) if noise is None else noise * np.eye(n)
        home = {g: .5 for g in gates}
        fresh = SelfInitializingKalmanEstimator.from_scratch(pd.Series(home), pd.Series({g: .5 for g in gates}), 1e9)
        arguments = fresh.to_hdf5()
        arguments['kalman_gradient_args'] = dict(process_noise=None if noise is None else q, alpha=alpha)
        est = SelfInitializingKalmanEstimator(**arguments)
        position, value = dict(home), 1.
        est.update(pd.Series(position), value, .25, True)
        count = 0
        while est.require_measurement() is not None and count < 10:
            count += 1
            position = dict(est.require_measurement())
            value = 1. + sum((i + 1) * (position[g] - .5) for i, g in enumerate(gates))
            est.update(pd.Series(position), value, .25 * (count + 1), True)
        mean = est.estimate()[gates].values.astype(float)
        cov = est.covariance().loc[gates, gates].values.astype(float)
        rec.require(np.allclose(mean, np.arange(1., n + 1)), lambda: 'initial gradient %r' % mean)
        kinds = [(m, v, new) for m in MOVES[n] for v in (1., -2.) for new in (True, False)]

        def step(est, mean, cov, base, base_value, history):
            if len(history) == length:
                rec.execution(key=rec.current, outcome=history)
                rec.trace()
                return
            for kind in kinds:
                new = copy.deepcopy(est)
                rec.current = (chunk, noise, alpha, history + (kind,))
                rec.state(rec.current)
                rec.transition()
                move, v, moved = kind
                p = {g: base[g] + x for g, x in zip(gates, move)}
                new.update(pd.Series(p), v, .5, moved)
                m, c = posterior(mean, cov, np.array(move), v - base_value, .5, q, alpha) if any(move) else (mean, cov)
                rec.require(same(new.estimate(), dict(zip(gates, m)), 1e-7), lambda: 'gradient %r instead of %r' % (dict(new.estimate()), m))
                rec.require(np.allclose(new.covariance().loc[gates, gates].values.astype(float), c, rtol=1e-7), lambda: 'covariance %r instead of %r' % (new.covariance(), c))
                step(new, m, c, p if moved else base, v if moved else base_value, history + (kind,))
        step(est, mean, cov, position, value, ())

"""C14: requests of the Kalman estimator.

Enumerates covariances, limits, gate subsets and gradients of tuned parameters; decides each request with an independent
eigenvalue computation, and follows the request/measure protocol to its end.
"""
import copy
import itertools
from fractions import Fraction

import numpy as np
import pandas as pd

from qtune.gradient import KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.solver import NewtonSolver, make_target

from mc.world import same

TECHNIQUE = 'exhaustive enumeration of estimator states (covariance x limit x gates x tuned gradients) and of request/measure histories on the real code; independent spectral oracle'
LEVEL = 'model_checking'
RULE = ('a state is an estimator state (covariance, limit, steps, gates, gradients of tuned parameters); a transition is one request, '
        'or one measurement at the requested point; an execution is one state decided, or one history followed to its end')
BOUNDS = {'quick': '2 and 3 gates, covariances with diagonal in {.25,.5,1,2} and off-diagonal in {-.25,0,.25}, limits below/between/above/at every '
                   'principal uncertainty, individual and infinite limits, all gate subsets and orders, all gradients of 1 or 2 tuned parameters with entries in {-1,0,1,2}; '
                   '2 estimators in one optimizer; histories up to the end; of the larger families every THIN-th covariance (see THIN)',
          'thorough': 'diagonal in {.25,.5,.75,1,2}, off-diagonal in {-.25,-.125,0,.125,.25}; gradients with entries in {-2..2}'}
ASSUMPTIONS = ['states within 1e-6 of a tie between directions or of the limit are only decided where they can be represented exactly',
               'the gradients of tuned parameters are small integers (the null space is computed exactly)']
LIMIT = {'quick': 300, 'thorough': 3000}
GATES = ['b', 'a', 'c']
STEP = dict(a=.25, b=1., c=.5)
HOME = dict(a=.5, b=-1., c=2.)
OWN = dict(a=.4, b=1.2, c=.8)


def covariances(n, tier):
    diag = (.25, .5, 1., 2.) if tier == 'quick' else (.25, .5, .75, 1., 2.)
    off = (-.25, 0., .25) if tier == 'quick' else (-.25, -.125, 0., .125, .25)
    for d in itertools.product(diag, repeat=n):
        for o in itertools.product(off, repeat=n * (n - 1) // 2):
            m = np.diag(d)
            for (i, j), x in zip(itertools.combinations(range(n), 2), o):
                m[i, j] = m[j, i] = x
            if np.linalg.eigvalsh(m).min() > 1e-3:
                yield m


def chunks(tier):
    for n in (1, 2, 3):
        for what in ('tuned', 'free', 'individual', 'history'):
            for k in range(PARTS(what, n)):
                if n == 1 and what == 'tuned':
                    continue
                yield what, n, k, tier
    for k in range(8):
        yield 'solver', 2, k, tier


def PARTS(what, n):
    return 8 if n == 3 or what == 'solver' or (what, n) == ('tuned', 2) else 1


def share(chunk, items):
    n, k, tier = chunk[1:]
    parts = PARTS(chunk[0], n)
    items = [x for i, x in enumerate(items) if i % parts == k]
    return items[::THIN[chunk[0], n]] if tier == 'quick' and (chunk[0], n) in THIN else items


# the quick tier takes every n-th covariance (or combination) of the larger families
THIN = {('free', 3): 12, ('individual', 3): 12, ('tuned', 3): 240, ('tuned', 2): 7, ('history', 3): 10, ('solver', 2): 6}


def explore(chunk, rec):
    globals()['x_' + chunk[0]](chunk, rec)
    rec.sample(repr(rec.current))


def make(n, cov, limit, epsilon=None, order=None, position=None, value=None):
    gates = GATES[:n]
    index = gates if order is None else [gates[i] for i in order]
    cov = pd.DataFrame(cov, index=gates, columns=gates).loc[index, index].values
    kalman = KalmanGradient(n, 1, initial_gradient=np.arange(1., n + 1.), initial_covariance_matrix=cov)
    return KalmanGradientEstimator(kalman, current_position=pd.Series({g: HOME[g] for g in index}, index=index) if position is None else position,
                                   maximum_covariance=limit if not isinstance(limit, dict) else pd.Series(limit)[sorted(limit)],
                                   epsilon=pd.Series(STEP)[sorted(gates)] if epsilon is None else epsilon, current_value=value)


def direction(rec, request, gates, subset, steps=STEP, home=HOME):
    """the requested direction in units of the steps; the other gates must stay"""
    rec.require(isinstance(request, pd.Series) and set(request.index) == set(gates), lambda: 'request %r' % (request,))
    for g in gates:
        if g not in subset:
            rec.require(abs(request[g] - home[g]) < 1e-12, lambda: 'gate %s is moved by the request %r' % (g, dict(request)))
    v = np.array([(float(request[g]) - home[g]) / steps[g] for g in subset])
    rec.require(abs(np.linalg.norm(v) - 1) < 1e-9, lambda: 'the request %r is not displaced by one step' % dict(request))
    return v


def limits(values):
    values = sorted(set(np.round(values, 12)))
    out = [values[0] * .5, values[-1] * 1.5]
    out += [(a + b) / 2 for a, b in zip(values, values[1:]) if b - a > 1e-3]
    return out


def x_free(chunk, rec):
    _, n, _, tier = chunk
    gates = GATES[:n]
    for cov in share(chunk, list(covariances(n, tier))):
        exact = not np.any(cov - np.diag(np.diag(cov)))
        for r in range(1, n + 1):
            for subset in itertools.permutations(gates, r):
                if r == 3 and tier == 'quick' and subset not in (('b', 'a', 'c'), ('c', 'b', 'a')):
                    continue
                idx = [gates.index(g) for g in subset]
                sub = cov[np.ix_(idx, idx)]
                w, v = np.linalg.eigh(sub)
                for order in itertools.permutations(range(n)):
                    if n == 3 and order not in ((0, 1, 2), (2, 0, 1)):
                        continue
                    for limit in limits(w) + ([max(np.diag(sub))] if exact else []):
                        rec.current = (chunk, cov.tolist(), subset, order, limit)
                        est = make(n, cov, limit, order=order)
                        args = [list(subset), pd.Index(subset)] + ([None] if subset == tuple(gates[i] for i in order) else [])
                        for gates_arg in args:
                            request = est.require_measurement(gates=gates_arg)
                            decide(rec, request, gates, subset, sub, limit, w.max())
                        rec.require(same(est.current_position, {g: HOME[g] for g in gates}), 'asking moved the position')
                        rec.execution(key=rec.current, outcome=(tuple(np.round(w, 6)), limit, request is None))
                        rec.state(rec.current)
                        rec.transition()
                        rec.trace()


def decide(rec, request, gates, subset, cov, limit, worst):
    if worst <= limit:
        rec.require(request is None, lambda: 'requested %r although no uncertainty %r exceeds %r' % (request, worst, limit))
    elif rec.require(request is not None, lambda: 'no request although the uncertainty %r exceeds %r' % (worst, limit)):
        v = direction(rec, request, gates, subset)
        rec.require(np.allclose(cov @ v, worst * v, atol=1e-7), lambda: 'the requested direction %r is not the worst one of %r' % (v, cov))


def x_individual(chunk, rec):
    """limits per gate, also infinite ones"""
    _, n, _, tier = chunk
    gates = GATES[:n]
    for cov in share(chunk, list(covariances(n, tier))):
        w, v = np.linalg.eigh(cov)
        for limit in itertools.product((.2, .7, 1.7, np.inf), repeat=n):
            if n == 3 and len(set(limit)) == 1:
                continue
            lengths = np.linalg.norm(w[None, :] * v / np.array(limit)[:, None], axis=0)
            top = np.sort(lengths)
            if np.any(abs(lengths - 1) < 1e-6) or n > 1 and top[-1] > 1 and top[-1] - top[-2] < 1e-6 or n > 1 and np.min(np.diff(w)) < 1e-6:
                continue
            for order in itertools.permutations(range(n)):
                if n == 3 and order not in ((0, 1, 2), (2, 0, 1)):
                    continue
                rec.current = (chunk, cov.tolist(), limit, order)
                est = make(n, cov, dict(zip(gates, limit)), order=order)
                request = est.require_measurement(gates=gates)
                if top[-1] <= 1:
                    rec.require(request is None, lambda: 'requested %r although no uncertainty exceeds its limit' % (request,))
                elif rec.require(request is not None, 'no request although an uncertainty exceeds its limit'):
                    d = direction(rec, request, gates, gates)
                    rec.require(abs(abs(d @ v[:, np.argmax(lengths)]) - 1) < 1e-7, lambda: 'requested direction %r instead of %r' % (d, v[:, np.argmax(lengths)]))
                rec.execution(key=rec.current, outcome=(tuple(np.round(w, 6)), limit, request is None))
                rec.state(rec.current)
                rec.transition()
                rec.trace()


def tuned_gradients(n, tier):
    grid = list(itertools.product((-1, 0, 1, 2) if tier == 'quick' else (-2, -1, 0, 1, 2), repeat=n))
    for g in grid:
        yield (g,)
    some = [g for g in grid if max(map(abs, g)) <= 1]
    for pair in itertools.combinations(some, 2):
        yield pair


def null_space(rows, n):
    """exact basis of the null space (columns) by elimination over the rationals"""
    m = [[Fraction(x) for x in r] for r in rows]
    pivots, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        m[r] = [x / m[r][c] for x in m[r]]
        for i in range(len(m)):
            if i != r:
                m[i] = [x - m[i][c] * y for x, y in zip(m[i], m[r])]
        pivots.append(c)
        r += 1
    basis = []
    for f in (c for c in range(n) if c not in pivots):
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for i, c in enumerate(pivots):
            v[c] = -m[i][f]
        basis.append([float(x) for x in v])
    return np.array(basis, dtype=float).reshape(len(basis), n).T


def constrained(rec, request, est_cov, gates, subset, rows, limit, steps=STEP, home=HOME):
    """decides a request that must leave the parameters with the gradients `rows` (over subset) unchanged"""
    idx = [gates.index(g) for g in subset]
    sub = est_cov[np.ix_(idx, idx)]
    null = null_space(rows, len(subset))
    if null.shape[1] == 0:
        rec.require(request is None, lambda: 'requested %r although every direction changes a tuned parameter' % (request,))
        return
    q, _ = np.linalg.qr(null)
    w, v = np.linalg.eigh(q.T @ sub @ q)
    v = q @ v
    limits = np.array([limit[g] for g in subset] if isinstance(limit, dict) else [limit] * len(subset))
    lengths = np.linalg.norm(w[None, :] * v / limits[:, None], axis=0)
    top = lengths.max()
    if len(set(limits)) > 1 and len(w) > 1 and np.min(np.diff(w)) < 1e-6:
        return      # the principal directions are not unique
    if top <= 1 + 1e-9:
        if top < 1 - 1e-6 or request is not None and top < 1 - 1e-9:
            rec.require(request is None, lambda: 'requested %r although no uncertainty exceeds %r' % (request, limit))
        return
    if top < 1 + 1e-6:
        return
    if rec.require(request is not None, lambda: 'no request although an uncertainty exceeds %r (%r)' % (limit, top)):
        d = direction(rec, request, gates, subset, steps, home) * np.array([steps[g] for g in subset])
        d = d / np.linalg.norm(d)
        rec.require(np.allclose(np.array(rows, dtype=float) @ d, 0, atol=1e-7), lambda: 'the requested displacement %r changes a tuned parameter %r' % (d, rows))
        parts = abs(d @ v)
        worst = lengths > top - 1e-6
        rec.require(np.all(parts[~worst] < 1e-6), lambda: 'the requested direction %r is not the worst one' % (d,))


def x_tuned(chunk, rec):
    _, n, _, tier = chunk
    gates = GATES[:n]
    covs = share(chunk, list(covariances(n, tier)))
    if n == 3:
        covs = covs[::9] if tier != 'quick' else covs
    for cov in covs:
        subsets = [tuple(gates), tuple(gates[::-1])] + ([('a', 'b'), ('c', 'b')] if n == 3 else [])
        for subset in subsets:
            for rows in tuned_gradients(len(subset), tier if n < 3 else 'quick'):
                if n == 3 and len(subset) == 3 and max(map(abs, rows[0])) > 1 and tier == 'quick':
                    continue
                for limit in (.3, .9, 1.4, OWN):
                    # (gradients may be small numbers: with parameters in SI units)
                    size = 2. ** -20 if limit == 1.4 else 1.
                    jacobian = pd.DataFrame([[x * (size if i == 0 else 1.) for x in r] for i, r in enumerate(rows)], columns=list(subset), index=['t%d' % i for i in range(len(rows))])
                    for order in ((0, 1, 2), (2, 0, 1)) if n == 3 else itertools.permutations(range(n)):
                        if n == 3 and order != (0, 1, 2) and limit != .9:
                            continue
                        rec.current = (chunk, cov.tolist(), subset, rows, limit, order)
                        est = make(n, cov, {g: limit[g] for g in gates} if limit is OWN else limit, order=order)
                        request = est.require_measurement(gates=list(subset), tuned_jacobian=jacobian)
                        constrained(rec, request, cov, gates, subset, rows, limit)
                        rec.require(same(est.current_position, {g: HOME[g] for g in gates}), 'asking moved the position')
                        rec.execution(key=rec.current, outcome=rec.current)
                        rec.state(rec.current)
                        rec.transition()
                        rec.trace()


def x_history(chunk, rec):
    """following the requests ends; with common steps exactly when the last principal uncertainty is small enough"""
    _, n, _, tier = chunk
    gates = GATES[:n]
    home = {g: HOME[g] for g in gates}
    covs = share(chunk, list(covariances(n, tier)))
    if n == 3 and tier != 'quick':
        covs = covs[::4]
    for cov in covs:
        w = np.linalg.eigvalsh(cov)
        for limit, variance, steps in itertools.product((.15, .45, .9), (.1, .5), ('common', 'own')):
            rec.current = (chunk, cov.tolist(), limit, variance, steps)
            e = .5
            est = make(n, cov, limit, epsilon=e if steps == 'common' else None, value=1.)
            count = 0
            while True:
                request = est.require_measurement(gates=gates)
                rec.transition()
                if request is None:
                    break
                count += 1
                if not rec.require(count <= 400, 'the requests do not end'):
                    break
                est.update(request, 1. + .5 * count, variance, is_new_position=False)
                rec.state((rec.current, count))
            if steps == 'common':
                want, near = 0, False
                for x in w:
                    k = 0
                    while x / (1 + k * x * e * e / variance) > limit:
                        near |= abs(x / (1 + k * x * e * e / variance) - limit) < 1e-6
                        k += 1
                    near |= abs(x / (1 + k * x * e * e / variance) - limit) < 1e-6
                    want += k
                rec.require(near or count == want, lambda: '%d requests instead of %d' % (count, want))
            rec.require(np.linalg.eigvalsh(est.covariance().values.astype(float)).max() <= limit * (1 + 1e-9), 'requests ended although an uncertainty exceeds the limit')
            rec.require(same(est.current_position, home), 'the position moved')
            rec.execution(key=rec.current, outcome=(rec.current, count))
            rec.trace()


def x_solver(chunk, rec):
    """the optimizer asks the estimators of parameters with desired value, in order, and passes the tuned gradients on"""
    gates = GATES[:2]
    tier = chunk[3]
    covs = [np.diag([.5, .5]), np.array([[1., .25], [.25, .5]]), np.diag([.25, 2.]), np.array([[2., -.25], [-.25, 2.]])]
    cases = list(itertools.product(range(len(covs)), range(len(covs)), itertools.product((True, False), repeat=2), ((), ('p',), ('q',), ('p', 'q'), ('r',)),
                                   itertools.product((-1, 0, 2), repeat=4), ((0, 1), (1, 0))))
    for c0, c1, desired, tuned, gradient, order in share(chunk, cases):
        if (abs(gradient[0]) == 2) == (abs(gradient[3]) == 2) and tier == 'quick' and c0 == c1:
            continue
        rec.current = (chunk, c0, c1, desired, tuned, gradient, order)
        limit = .9
        rows = [gradient[:2], gradient[2:]]
        names = ['q', 'p'] if (c0 + gradient[1]) % 2 else ['p', 'q']
        index = [gates[i] for i in order]
        estimators = []
        for c, row in zip((c0, c1), rows):
            cov = pd.DataFrame(covs[c], index=gates, columns=gates).loc[index, index].values
            kalman = KalmanGradient(2, 1, initial_gradient=[row[i] for i in order], initial_covariance_matrix=cov)
            estimators.append(KalmanGradientEstimator(kalman, pd.Series({g: HOME[g] for g in index})[index], limit, pd.Series(STEP)[gates], current_value=0.))
        target = make_target(desired=pd.Series([1. if d else np.nan for d in desired], index=names))
        solver = NewtonSolver(target=target, gradient_estimators=estimators, current_position=pd.Series({g: HOME[g] for g in gates}),
                              current_values=pd.Series(dict(p=0., q=0.)))
        asked = []
        for i, e in enumerate(estimators):
            original = e.require_measurement

            def spy(*args, _i=i, _original=original, **kwargs):
                result = _original(*args, **kwargs)
                asked.append((_i, None if result is None else dict(result)))
                return result
            e.require_measurement = spy
        suggestion = solver.suggest_next_position(set(tuned) if tuned or c0 else None)
        rec.require(all(desired[i] for i, _ in asked), lambda: 'asked %r' % asked)
        given = {i: r for i, r in asked if r is not None}
        if given:
            first = min(given)
            rec.require(same(suggestion, dict(given[first])) and set(i for i in range(first) if desired[i]) <= set(i for i, _ in asked),
                        lambda: 'asked %r, suggested %r' % (asked, dict(suggestion)))
        else:
            rec.require(set(i for i, _ in asked) == set(i for i in range(2) if desired[i]), lambda: 'asked only %r' % asked)
        known = [rows[i] for i, name in enumerate(names) if name in tuned]
        for i, result in asked:
            request = None if result is None else pd.Series(result)
            cov = covs[(c0, c1)[i]]
            if known:
                constrained(rec, request, cov, gates, gates, known, limit)
            else:
                decide(rec, request, gates, gates, cov, limit, np.linalg.eigvalsh(cov).max())
        rec.execution(key=rec.current, outcome=rec.current)
        rec.state(rec.current)
        rec.transition()
        rec.trace()

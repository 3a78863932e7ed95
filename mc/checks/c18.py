"""C18: the shipped evaluators.

Each evaluator runs on a deterministic experiment that records every call; features of the synthetic data are placed at every position of
a grid, every experiment call is made to fail once, and every pattern of failed repetitions is averaged.
"""
import itertools
import math
import os
import shutil
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa
import numpy as np  # noqa
import pandas as pd  # noqa
import scipy.optimize  # noqa

from qtune.evaluator import (AveragingEvaluator, Evaluator, InterDotTCByLineScan, LeadTransition, LeadTunnelTimeByLeadScan,  # noqa
                             LeadTunnelTimePrefitVersion, NewLoadTime, SensingDot1D, SensingDot2D, func_lead_times_v1)
from qtune.experiment import Measurement  # noqa
from qtune.storage import from_hdf5, to_hdf5  # noqa

from mc.core import scratch  # noqa
from mc.hist import raw  # noqa
from mc.world import Lab, LabFault  # noqa

TECHNIQUE = 'exhaustive enumeration of configurations x feature positions x failing experiment calls x failed repetitions on the real evaluators'
LEVEL = 'model_checking'
RULE = ('an execution is one evaluator in one configuration on one series of synthetic scans (feature position, kind of unusable data, failing experiment '
        'call, pattern of failed repetitions), also after saving and loading it; a state is the evaluator and its result')
BOUNDS = {'quick': '8 evaluators; every second grid position of the feature; every failing call; 12 kinds of unusable data; all patterns of up to 4 repetitions with 5 outcomes each',
          'thorough': '8 evaluators; every grid position of the feature, more ranges, centres and widths; every failing call; all patterns of up to 6 repetitions'}
ASSUMPTIONS = ['synthetic data are free of noise; positions and fitted values are required to agree within the width of the feature or a few percent']
LIMIT = {'quick': 300, 'thorough': 3000}
NAN = float('nan')
HOME = dict(RFA=.001, RFB=-.002, SDB1=-.01, SDB2=.02, other=.5)


class Scans(Lab):
    """data(measurement name, options, voltages) gives the data of a measurement; everything is logged"""

    def __init__(self, data, voltages=None, faults=()):
        super().__init__(voltages or HOME, {}, faults)
        self.data = data

    def measure(self, measurement):
        self._call('measure', measurement.name, raw(dict(measurement.options)), dict(self.voltages))
        return self.data(measurement.name, dict(measurement.options), dict(self.voltages))


def chunks(tier):
    out = []
    for shift in range(8):
        out.append(('transition', shift, tier))
        out.append(('one', shift, tier))
        out.append(('two', shift, tier))
    for kind in ('tc', 'load', 'prefit', 'lead'):
        for part in range(4):
            out.append(('fit', kind, part, tier))
    for kind in EVALUATORS:
        out.append(('unusable', kind, tier))
        out.append(('fault', kind, tier))
    for n in range(1, 5 if tier == 'quick' else 7):
        for first in (range(5) if n > 2 else (None,)):
            out.append(('average', n, first, tier))
    return out


def explore(chunk, rec):
    warnings.simplefilter('ignore')
    sizes = dict(transition=transition, one=one, two=two, fit=fit, unusable=unusable, fault=fault, average=average)
    sizes[chunk[0]](chunk, rec)
    plt.close('all')
    rec.sample(repr(rec.current))


def calls(lab):
    return [c for c in lab.log if c[0] != 'read']


def declared(rec, evaluator, result):
    """one value and one variance per declared parameter"""
    values, variances = result
    names = sorted(evaluator.parameters)
    return rec.require(sorted(values.index) == names and sorted(variances.index) == names,
                       lambda: '%s returns values of %r and variances of %r, declared are %r' % (
                           evaluator.name, list(values.index), list(variances.index), names))


def restored(rec, lab, before, only_measured=False):
    rec.require(lab.voltages == before, lambda: 'the gates are left at %r, they were found at %r' % (lab.voltages, before))
    if only_measured:
        rec.require(all(c[0] != 'set' for c in lab.log), lambda: 'gates were moved: %r' % (calls(lab),))


def kept(rec, e, xs, ys):
    """the raw data held by the evaluator are the positions and the data of its last scan"""
    have = e.raw_data
    for name, a, b in (('positions', have[0], xs), ('data', have[1], ys)):
        if b is None:
            continue
        ok = len(a) == len(b) if isinstance(b, list) else True
        for u, v in zip(a, b) if isinstance(b, list) and ok else [(a, b)]:
            u, v = np.squeeze(np.asarray(u, dtype=float)), np.squeeze(np.asarray(v, dtype=float))
            ok = ok and u.shape == v.shape and np.allclose(u, v, rtol=1e-9, atol=1e-15, equal_nan=True)
        rec.require(ok, lambda: '%s keeps the %s %.200r, measured %.200r' % (e.name, name, a, b))


def reloaded(evaluator, lab):
    root = scratch('c18')
    try:
        path = os.path.join(root, 'e')
        to_hdf5(path, 'it', evaluator, reserved={'experiment': evaluator.experiment})
        return from_hdf5(path, reserved={'experiment': lab})['it']
    finally:
        shutil.rmtree(root)


# -- scans ------------------------------------------------------------------------------------------------------------

def transition(chunk, rec):
    """LeadTransition: the scans are made with the right gate shifted, and each position is the one of its scan"""
    _, part, tier = chunk
    fine = tier == 'thorough'
    for (gates, width, (n, rng, center), tw, lines) in itertools.product(
            (('RFB', 'RFA'), ('RFA', 'RFB'), ('SDB2', 'RFB'), ('RFA',), ('RFB', 'RFA', 'SDB1')), (4e-3, .1) if fine else (4e-3,),
            ((40, 4e-3, 0.), (64, 1e-2, 3e-3), (25, 2e-3, -1e-3)), (.2e-3, .5e-3, 1e-3), (None, 3)):
        swept = tuple(reversed(gates))
        options = [dict(center=center + 1e-3 * k, range=rng * (1 + k), gate=g, N_points=n + 7 * k) for k, g in enumerate(swept)]
        w = [max(int(tw / o['range'] * o['N_points']), 0) for o in options]
        if min(w) < 1:
            continue
        for position in range(w[0] + 1 + part, n - w[0] - 1, 8 if fine else 16):
            # the further scans have their features elsewhere
            where = [position] + [w[k] + 2 + (position * (k + 2)) % (options[k]['N_points'] - 2 * w[k] - 4) for k in range(1, len(gates))]
            for sign in (1., -1.):
                def data(name, o, v):
                    k = swept.index(o['gate'])
                    y = sign * (np.arange(o['N_points']) >= where[k]) + 0.
                    return y if lines is None else np.repeat(y[None, :], lines, 0) + np.array([-.1, 0., .1])[:, None]
                lab = Scans(data)
                e = LeadTransition(lab, gates, swept, width, [Measurement('line_scan', **o) for o in options],
                                   tuple('position_' + g for g in gates), transition_width=tw)
                rec.current = (chunk, gates, width, (n, rng, center), tw, lines, position, sign)
                if position % 16 == 3:
                    e = reloaded(e, lab)
                for repeat in range(2):
                    lab.log.clear()
                    before = dict(lab.voltages)
                    result = e.evaluate()
                    rec.transition()
                    if not declared(rec, e, result):
                        break
                    restored(rec, lab, before)
                    want = [('measure', 'line_scan', raw(o), dict(before, **{g: before[g] - width})) for o, g in zip(options, gates)]
                    have = [c for c in lab.log if c[0] == 'measure']
                    rec.require(len(have) == len(want) and all(
                        a[:3] == b[:3] and set(a[3]) == set(b[3]) and all(math.isclose(a[3][x], b[3][x], abs_tol=1e-12) for x in b[3])
                        for a, b in zip(have, want)), lambda: 'measured %r instead of %r' % (have, want))
                    kept(rec, e, [np.linspace(o['center'] - o['range'], o['center'] + o['range'], o['N_points']) for o in options],
                         [np.mean(np.atleast_2d(data('', o, {})), 0) for o in options])
                    for k, g in enumerate(gates):
                        o = options[k]
                        x = o['center'] - o['range'] + 2. * o['range'] * where[k] / (o['N_points'] - 1)
                        spacing = 2. * o['range'] / (o['N_points'] - 1)
                        found = float(result[0]['position_' + g])
                        rec.require(abs(found - x) <= (w[k] + 1.5) * spacing, lambda: 'transition of scan %d at %g, found %s = %g' % (k, x, 'position_' + g, found))
                        rec.require(0. < float(result[1]['position_' + g]) < 1., 'variance %r' % result[1]['position_' + g])
                    rec.state((gates, w, where, sign, raw(result[0])))
                rec.execution(key=rec.current, outcome=raw(result[0]))
                rec.trace()


def one(chunk, rec):
    """SensingDot1D: centred at the present voltage; finds the steepest point of the flank it looks for"""
    _, part, tier = chunk
    fine = tier == 'thorough'
    for gate, n, rng, rising, column in itertools.product(('SDB2', 'SDB1'), (160, 320), (4e-3, .02), (None, True, False), (False, True)):
        lo, hi = n // 8, n - n // 8
        for position in range(lo + part * (2 if fine else 4), hi, 16 if fine else 32):
            for start in (.02, -.03):
                def data(name, o, v):
                    x = np.linspace(-1., 1., n)
                    y = np.tanh((x - x[position]) / .4) * (1. if rising in (None, True) else -1.) * (1. + 0. * x)
                    return y[None, :] if column else y
                lab = Scans(data, dict(HOME, **{gate: start}))
                e = SensingDot1D(lab, gate, ('position_' + gate, 'current_signal', 'optimal_signal'),
                                 (Measurement('line_scan', center=None, range=rng, gate='SDB2', N_points=n),), rising_flank=rising)
                rec.current = (chunk, gate, n, rng, rising, column, position, start)
                if position % 64 == lo % 64:
                    e = reloaded(e, lab)
                for repeat in range(2):
                    lab.log.clear()
                    before = dict(lab.voltages)
                    result = e.evaluate()
                    rec.transition()
                    if not declared(rec, e, result):
                        break
                    restored(rec, lab, before, True)
                    have = calls(lab)
                    rec.require(len(have) == 1 and have[0][2] == raw(dict(center=before[gate], range=rng, gate=gate, N_points=n)),
                                lambda: 'measured %r' % have)
                    kept(rec, e, np.linspace(before[gate] - rng, before[gate] + rng, n), data('', {}, {}))
                    spacing = 2. * rng / (n - 1)
                    x = before[gate] - rng + spacing * position
                    found = float(result[0]['position_' + gate])
                    rec.require(abs(found - x) <= max(3., n / 32.) * spacing, lambda: 'steepest point at %g, found at %g' % (x, found))
                    slope = (np.gradient(np.squeeze(data('', {}, {}))))
                    middle, best = slope[n // 2 - 1: n // 2 + 2].mean(), slope[np.argmax(abs(slope))]
                    got = float(result[0]['current_signal']), float(result[0]['optimal_signal'])
                    rec.require(abs(got[0] - middle) <= .2 * abs(best) and abs(got[1] - best) <= .2 * abs(best), lambda: 'signals %r instead of %r' % (
                        got, (middle, best)))
                    lab.voltages[gate] += rng / 4.      # the next scan is centred there
                rec.state((gate, n, rng, rising, position, start))
                rec.execution(key=rec.current, outcome=raw(result[0]))
                rec.trace()


def two(chunk, rec):
    """SensingDot2D"""
    _, part, tier = chunk
    fine = tier == 'thorough'
    n = 60
    for gates, lines, rng, rising in itertools.product((('SDB1', 'SDB2'), ('SDB2', 'SDB1'), ('RFA', 'SDB2')), (2, 5, 9), (1e-2, .05), (None, True, False)):
        for line in range(lines):
            for position in range(12 + part, n - 12, 8 if fine else 16):
                def data(name, o, v):
                    x = np.linspace(-1., 1., n)
                    y = np.tanh((x - x[position]) / .4) * (-1. if rising in (None, True) else 1.)
                    height = 1. - .08 * abs(np.arange(lines) - line)
                    return height[:, None] * y[None, :]
                lab = Scans(data)
                e = SensingDot2D(lab, gates, rng, tuple('position_' + g for g in gates), None if line % 2 else (
                    Measurement('2d_scan', center=[None, None], range=rng, gate1=gates[0], gate2=gates[1], n_lines=lines, n_points=n),), rising_flank=rising)
                rec.current = (chunk, gates, lines, rng, rising, line, position)
                if position == 12 + part:
                    e = reloaded(e, lab)
                for repeat in range(2):
                    lab.log.clear()
                    before = dict(lab.voltages)
                    result = e.evaluate()
                    rec.transition()
                    if not declared(rec, e, result):
                        break
                    restored(rec, lab, before, True)
                    have = calls(lab)
                    ok = len(have) == 1
                    if ok:
                        o = dict(have[0][2])
                        ok = o['center'] == raw([before[g] for g in gates]) and o['range'] == raw(rng) and (o['gate1'], o['gate2']) == gates
                    rec.require(ok, lambda: 'measured %r' % have)
                    kept(rec, e, [np.linspace(before[g] - rng, before[g] + rng, k) for g, k in zip(gates, (lines, n))], data('', {}, {}))
                    y = before[gates[0]] + (-rng + 2. * rng * line / max(lines - 1, 1))
                    x = before[gates[1]] - rng + 2. * rng * position / (n - 1)
                    found = float(result[0]['position_' + gates[0]]), float(result[0]['position_' + gates[1]])
                    rec.require(abs(found[0] - y) <= 1e-9 and abs(found[1] - x) <= 3. * 2. * rng / (n - 1),
                                lambda: 'steepest point at %r, found at %r' % ((y, x), found))
                    lab.voltages[gates[0]] += rng / 4.
                    lab.voltages[gates[1]] -= rng / 8.
                rec.state((gates, lines, rng, rising, line, position))
                rec.execution(key=rec.current, outcome=raw(result[0]))
                rec.trace()


# -- fits -------------------------------------------------------------------------------------------------------------

def lead_data(t_rise, t_fall, begin_rise=70e-9, begin_fall=2070e-9, height=1.):
    x = np.arange(400) / 1e8
    return np.stack([np.zeros(400), func_lead_times_v1(x, height, t_fall, t_rise, begin_rise, begin_fall, .1)])


FITS = {
    'tc': [(w, p, h, lines) for w in (6e-5, 1.3e-4, 2.5e-4) for p in (-4e-4, -1e-4, 0., 2e-4, 5e-4) for h in (1., -.5) for lines in (None, 1, 4, 'nan line')
           if w != 1.3e-4 or p == 0. or lines != 4] + [
        (w, p, h, lines, c, r) for w in (6e-5, 1.3e-4) for p in (-1e-4, 0., 3e-4) for h in (1., -.5) for lines in (None, 3) for c, r in ((1e-3, 2e-3), (-3e-3, 2e-3), (5e-4, 1.5e-3))],
    'load': [(c, h, o, n) for c in (5., 20., 60.) for h in (1., -.5, .2) for o in (0., .3) for n in (40, 100)],
    'prefit': [(r, f, h) for r in (3e-8, 6e-8, 1e-7) for f in (3e-8, 6e-8, 1e-7) for h in (1., -2.)],
    'lead': [(r, f, h) for r in (3e-8, 6e-8, 1e-7) for f in (3e-8, 6e-8, 1e-7) for h in (1., -2., 0.)],   # 0.: flat, the start is kept
}


def fit_case(kind, case):
    """(name of the measurement, data, {parameter: expected}, relative tolerance)"""
    if kind == 'tc':
        w, p, h, lines = case[:4]
        center, width = case[4:] or (0., 2e-3)
        x = np.linspace(center - width, center + width, 100)
        y = .2 + 3. * x + .5 * h * (1 + np.tanh((x - center - p) / w))
        if lines == 'nan line':
            y = np.stack([y, y, y])
            y[1] = np.nan
        elif lines is not None:
            y = np.repeat(y[None, :], lines, 0)
        return y, {'parameter_tunnel_coupling': w}, .02
    if kind == 'load':
        c, h, o, n = case
        x = np.linspace(0., 200., n)
        return np.stack([o + h * np.exp(-x / c), x]), {'parameter_time_load': c}, .02
    r, f, h = case
    return lead_data(r, f, height=h), {'parameter_time_rise': r, 'parameter_time_fall': f}, .15 if kind == 'prefit' else None


def make(kind, lab, rename=None, case=()):
    """the evaluator in a standard configuration"""
    if kind == 'tc':
        scan = None if len(case) < 5 else (Measurement('detune_scan', center=case[4], range=case[5], N_points=100),)
        e = InterDotTCByLineScan(lab, (rename or 'parameter_tunnel_coupling',), scan)
    elif kind == 'load':
        e = NewLoadTime(lab, (rename or 'parameter_time_load',))
    elif kind == 'prefit':
        e = LeadTunnelTimePrefitVersion(lab)
    elif kind == 'lead':
        e = LeadTunnelTimeByLeadScan(lab)
    elif kind == 'transition':
        e = LeadTransition(lab, ('RFB', 'RFA'), ('RFA', 'RFB'), 4e-3)
    elif kind == 'one':
        e = SensingDot1D(lab)
    else:
        e = SensingDot2D(lab)
    return e


NAMES = {'tc': 'detune_scan', 'load': 'load_scan', 'prefit': 'lead_scan', 'lead': 'lead_scan', 'transition': 'line_scan', 'one': 'line_scan', 'two': '2d_scan'}
EVALUATORS = tuple(NAMES)


def good_data(kind, name, o, v):
    if kind in FITS:
        return fit_case(kind, FITS[kind][len(FITS[kind]) // 2])[0]
    if kind == 'transition':
        return (np.arange(o['N_points']) > (100 if o['gate'] == 'RFA' else 200)) * 1.
    if kind == 'one':
        return np.tanh(np.linspace(-2., 3., o['N_points']))
    return -np.tanh(np.linspace(-2., 3., 104))[None, :] * (1. - .01 * abs(np.arange(20) - 12))[:, None]


def fit(chunk, rec):
    _, kind, part, tier = chunk
    for case in FITS[kind][part::4]:
        y, want, tolerance = fit_case(kind, case)
        lab = Scans(lambda name, o, v: y.copy())
        for rename in (None, 'left') if kind in ('tc', 'load') else (None,):
            rec.current = (chunk, case, rename)
            e = make(kind, lab, rename, case)
            if kind == 'lead':      # this fit depends on its start
                e = LeadTunnelTimeByLeadScan(lab, evaluation_arguments=dict(t_rise=case[0], t_fall=case[1], begin_rise=70e-9, begin_fall=2070e-9))
            for variant in ('new', 'again', 'loaded'):
                if variant == 'loaded':
                    e = reloaded(e, lab)
                lab.log.clear()
                before = dict(lab.voltages)
                result = e.evaluate()
                rec.transition()
                if not declared(rec, e, result):
                    break
                restored(rec, lab, before, True)
                have = calls(lab)
                rec.require(len(have) == 1 and have[0][:3] == ('measure', NAMES[kind], raw(dict(e.measurements[0].options))), lambda: 'measured %r' % have)
                for p, value in want.items():
                    got = float(result[0][rename or p])
                    if tolerance is not None:
                        rec.require(abs(got - value) <= tolerance * abs(value), lambda: '%s (%s): %s is %g instead of %g' % (e.name, variant, p, got, value))
                    rec.require(float(result[1][rename or p]) >= 0., lambda: 'variance %r' % result[1])
                if kind == 'lead':          # only the labels of the start are required
                    r, f = float(result[0]['parameter_time_rise']), float(result[0]['parameter_time_fall'])
                    rec.require(math.isfinite(r) and math.isfinite(f) and (r < f) == (case[0] < case[1]) or case[0] == case[1] or case[2] != 0.,
                                lambda: 'times %r for %r' % ((r, f), case[:2]))
                if kind == 'tc':
                    center, width = case[4:] or (0., 2e-3)
                    kept(rec, e, np.linspace(center - width, center + width, 100), y)
                elif kind == 'load':
                    kept(rec, e, y[1], y[0])
                else:
                    kept(rec, e, np.arange(400) / 1e8, y[1] - y[0])
            rec.state((kind, case, rename, raw(result[0])))
            rec.execution(key=rec.current, outcome=raw(result[0]))
            rec.trace()


# -- data that cannot be evaluated ------------------------------------------------------------------------------------

def spoilt(y):
    """kinds of data that cannot be evaluated"""
    yield 'nan', np.full(y.shape, np.nan)
    for k in range(0, y.shape[-1], max(1, y.shape[-1] // 9)):
        for bad in (np.nan, np.inf, -np.inf):
            z = np.array(y, dtype=float)
            z[..., k] = bad
            yield (k, bad), z


class FailingFit:
    """the k-th fit does not converge"""

    def __init__(self, k, error):
        self.k, self.error, self.failed, self.count = k, error, False, 0

    def __enter__(self):
        self.original = scipy.optimize.curve_fit

        def curve_fit(*args, **kwargs):
            self.count += 1
            if self.count == self.k + 1:
                self.failed = True
                raise self.error('injected: no convergence')
            return self.original(*args, **kwargs)
        scipy.optimize.curve_fit = curve_fit
        return self

    def __exit__(self, *exc):
        scipy.optimize.curve_fit = self.original


def unusable(chunk, rec):
    _, kind, tier = chunk
    current = [None]
    lab = Scans(lambda name, o, v: good_data(kind, name, o, v) if current[0] is None else current[0](name, o, v))
    options = dict(N_points=320 if kind == 'transition' else 1280, gate='RFA')
    shape = good_data(kind, '', options, {})
    kinds = [(k, lambda name, o, v, k=k: dict(spoilt(good_data(kind, name, o, v)))[k]) for k, _ in spoilt(shape)] if kind != 'two' else [
        (k, lambda name, o, v, z=z: z.copy()) for k, z in spoilt(shape)]
    if kind == 'tc':
        kinds += [('three dimensions', lambda name, o, v: np.ones((2, 2, 100))), ('four dimensions', lambda name, o, v: np.ones((2, 2, 2, 100)))]
    if kind in FITS:
        kinds += [(('fit fails', k, error), None) for k in (0, 1) for error in (RuntimeError, ValueError)]
    for label, bad in kinds:
        for history in ('b', 'gb', 'gbgb', 'bbg'):
            rec.current = (chunk, label, history)
            e = make(kind, lab)
            for h in history:
                current[0] = bad if h == 'b' else None
                lab.log.clear()
                before = dict(lab.voltages)
                if h == 'b' and bad is None:
                    with FailingFit(*label[1:]) as fits:
                        result = e.evaluate()
                    if not fits.failed:
                        h = 'g'
                else:
                    result = e.evaluate()
                rec.transition()
                if not declared(rec, e, result):
                    break
                restored(rec, lab, before)
                values = [float(x) for x in result[0]]
                if h == 'b':
                    rec.require(all(x != x for x in values), lambda: 'data that cannot be evaluated (%s) give %r' % (label, dict(result[0])))
                else:
                    rec.require(all(x == x for x in values), lambda: 'good data give %r' % dict(result[0]))
                    if history == 'gbgb':
                        fresh = make(kind, lab).evaluate()
                        same = all(abs(float(fresh[0][p]) - float(result[0][p])) <= .05 * abs(float(fresh[0][p])) for p in fresh[0].index)
                        rec.require(same, lambda: 'evaluating good data after unusable ones gives %r instead of %r' % (dict(result[0]), dict(fresh[0])))
            rec.execution(key=rec.current, outcome=(kind, label, history, raw(result[0])))
            rec.state((kind, label, history))
            rec.trace()


def fault(chunk, rec):
    """every experiment call fails once"""
    _, kind, tier = chunk
    lab = Scans(lambda name, o, v: good_data(kind, name, o, v))
    clean = make(kind, lab).evaluate()
    total = lab.calls
    for averaged in (False, True):
        for repeat in range(2):
            for k in range(total * (2 if averaged else 1)):
                lab = Scans(lambda name, o, v: good_data(kind, name, o, v))
                e = make(kind, lab)
                if averaged:
                    e = AveragingEvaluator(e, 2)
                if repeat:
                    e.evaluate()
                before = dict(lab.voltages)
                lab.log.clear()
                rec.current = (chunk, 'averaged' if averaged else '', 'second' if repeat else 'first', 'call', k)
                # a fault of a call that puts the gates back cannot be repaired by the evaluator
                lab.faults = {lab.calls + k}
                try:
                    e.evaluate()
                    failed = False
                except LabFault:
                    failed = True
                kinds = [c for c in lab.log if c[0] == 'fault']
                if not rec.require(failed or not kinds, 'the failure of the experiment did not reach the caller'):
                    continue
                if kinds and kinds[0][1] != 'set':
                    restored(rec, lab, before)
                    lab.faults = set()
                    result = e.evaluate()
                    restored(rec, lab, before)
                    declared(rec, e, result)
                    rec.require(all(abs(float(result[0][p]) - float(clean[0][p])) <= .05 * abs(float(clean[0][p])) for p in clean[0].index),
                                lambda: 'after a failure %r instead of %r' % (dict(result[0]), dict(clean[0])))
                elif kinds:
                    moved = {g for g in before if lab.voltages[g] != before[g]}
                    rec.require(len(moved) <= 1, lambda: 'gates %r are left moved' % moved)
                rec.transition()
                rec.state((kind, averaged, repeat, k))
                rec.execution(key=rec.current, outcome=(kind, k, averaged, repeat, bool(kinds)))
                rec.trace()


# -- averaging --------------------------------------------------------------------------------------------------------

class McScript(Evaluator):
    """returns the scripted values one after another"""

    def __init__(self, experiment=None, measurements=(), parameters=(), script=(), raw_x_data=None, raw_y_data=None, name='McScript'):
        super().__init__(experiment, measurements, parameters, raw_x_data, raw_y_data, name)
        self.script = [[float(x) for x in s] for s in script]
        self.count = 0

    def evaluate(self):
        values = self.script[self.count % len(self.script)]
        self.count += 1
        self._raw_x_data = np.array([float(self.count)])
        self._raw_y_data = np.array(values)
        order = list(self.parameters) if self.count % 2 else list(self.parameters)[::-1]
        return pd.Series(dict(zip(self.parameters, values)))[order], pd.Series({p: .5 for p in self.parameters})[order]

    def to_hdf5(self):
        return dict(super().to_hdf5(), script=self.script)


OUTCOMES = ((1., 10.), (2., NAN), (4.5, -3.), (NAN, 7.), (NAN, NAN))


def average(chunk, rec):
    _, n, first, tier = chunk
    lab = Scans(None)
    for pattern in itertools.product(range(5), repeat=n):
        if first is not None and pattern[0] != first:
            continue
        script = [OUTCOMES[k] for k in pattern]
        rec.current = (chunk, pattern)
        inner = McScript(lab, (), ('p', 'q'), script)
        e = AveragingEvaluator(inner, n)
        for again in range(2):
            result = e.evaluate()
            rec.transition()
            rec.require(inner.count == n * (again + 1), lambda: '%d repetitions instead of %d' % (inner.count, n * (again + 1)))
            if not declared(rec, e, result):
                break
            for i, p in enumerate('pq'):
                good = [s[i] for s in script if s[i] == s[i]]
                mean = sum(good) / len(good) if good else NAN
                variance = sum((x - mean) ** 2 for x in good) / len(good) / len(good) if good else NAN
                have = float(result[0][p]), float(result[1][p])
                rec.require(eq(have[0], mean) and eq(have[1], variance), lambda: '%s: mean and variance %r instead of %r' % (p, have, (mean, variance)))
            ys = e.raw_data[1]
            rec.require(len(ys) == n and all(raw(a) == raw(list(b)) for a, b in zip(ys, script)), lambda: 'raw data %r of %r' % (ys, script))
        if sum(pattern) % 4 == 0:
            f = reloaded(e, lab)
            rec.require(f.n_measurement_repetitions == n and f.name == e.name and sorted(f.parameters) == sorted(e.parameters),
                        'loaded evaluator differs')
            a, b = f.evaluate(), e.evaluate()
            rec.require(raw(a[0]) == raw(b[0]) and raw(a[1]) == raw(b[1]), lambda: 'loaded evaluator gives %r instead of %r' % (a, b))
        rec.state((n, pattern))
        rec.execution(key=rec.current, outcome=(raw(result[0]), raw(result[1])))
        rec.trace()


def eq(a, b):
    return (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(b))

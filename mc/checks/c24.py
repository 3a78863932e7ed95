"""C24: the MATLAB bridge.

There is no MATLAB here. The real Python side runs against a stand-in (mc/matlab.py) that keeps a workspace, interprets what is sent and
records every call; what arrives there and what comes back is compared with what was asked for.
"""
import mc.matlab as matlab  # noqa  (must come first)

import itertools
import os
import shutil
import warnings

import numpy as np
import pandas as pd

from qtune.experiment import Measurement
from qtune.storage import from_hdf5, to_hdf5

from mc.core import scratch
from mc.matlab import Cell, Engine, MatlabExecutionError, Matrix, Struct, Table

try:
    import qtune.mat2py as mat2py
    import qtune.sm as sm
    import qtune.sm_tune_qqd as qqd
    BROKEN = None
except Exception as e:
    BROKEN = repr(e)

TECHNIQUE = 'exhaustive enumeration of indices, gate orders, writes, options, session states and failing calls on the real bridge, against an interpreting stand-in for MATLAB'
LEVEL = 'model_checking'
RULE = 'an execution is one session with the stand-in (connect, read, write, measure, evaluate or index); a transition is one call that arrives there; a state is its workspace and voltages'
BOUNDS = {'quick': 'all integers and slices of steps up to 3 for up to 5 elements; every order of 4 gates x every ordered subset written x number types x every failing call; every subset of options of all measurements; '
                   'all states of a session x connection options; results of all evaluators on grids around their limits',
          'thorough': 'up to 8 elements, 5 gates, two writes in a row'}
ASSUMPTIONS = ['MATLAB is replaced by a stand-in which implements the documented meaning of the expressions that are sent', 'slices stay within the range (MATLAB does not clip)',
               'subscripts of cells are read leniently, "end" also inside of subsref', 'SMQQDPassThru is left out: it needs a session of an older interface']
LIMIT = {'quick': 300, 'thorough': 1500}


def chunks(tier):
    for n in range(1, 6 if tier == 'quick' else 9):
        yield 'indices', n, tier
        yield 'views', n, tier
    gates = 4 if tier == 'quick' else 5
    for which in ('legacy', 'qqd'):
        for order in itertools.permutations('CADBE'[:gates]):
            yield 'voltages', (which, order), tier
        yield 'measure', which, tier
    for kind in sorted(EVALUATORS):
        yield 'evaluators', kind, tier
    yield 'convert', None, tier
    yield 'connect', None, tier


def explore(chunk, rec):
    warnings.simplefilter('ignore')
    if not rec.require(BROKEN is None, 'the modules cannot be imported: %s' % BROKEN):
        return
    sm.SpecialMeasureMatlab.connected_engines.clear()
    dict(indices=indices, views=views, voltages=voltages, measure=measure, evaluators=evaluators, convert=convert, connect=connect)[chunk[0]](chunk, rec)
    rec.sample(repr(rec.current))


def done(rec, key, engine=None, outcome=None):
    rec.execution(key=key, outcome=outcome if outcome is not None else key)
    rec.state((key[0], repr(outcome)) if outcome is not None else key)
    rec.transition(1 if engine is None else max(1, engine.calls))
    rec.trace()


def session(functions, variables=None, name='session'):
    engine = Engine(name, functions, dict({'smdata': Struct({})}, **(variables or {})))
    engine.functions['qtune.find_qtune'] = sm.matlab_files_path
    matlab.ENGINES.clear()
    matlab.ENGINES[name] = engine
    sm.SpecialMeasureMatlab.connected_engines.clear()
    out = sm.SpecialMeasureMatlab(connect=name, silently_overwrite_path=True)
    engine.log.clear()
    engine.calls = 0
    return engine, out


def raised(rec, kind, action, *args):
    try:
        out = action(*args)
    except kind:
        return True
    except Exception as e:
        rec.violation('%r instead of %r' % (e, kind))
        return False
    rec.violation('no error, but %r' % (out,))
    return False


# -- indices -------------------------------------------------------------------------------------------------------

def all_indices(n):
    yield from range(-n, n)
    for step in (None, 1, 2, 3, -1, -2, -3):
        top = n if step is None or step > 0 else n - 1
        ends = (None,) + tuple(range(-n, top + 1))
        for start, stop in itertools.product(ends, ends):
            yield slice(start, stop, step)


def meant(idx, n):
    return [range(n)[idx]] if isinstance(idx, int) else list(range(n)[idx])


def indices(chunk, rec):
    _, n, tier = chunk
    for idx in all_indices(n):
        rec.current = (n, idx)
        text = mat2py.transform_index(idx)
        try:
            got = matlab.positions(text, n)
        except MatlabExecutionError as e:
            got = e
        rec.require(got == meant(idx, n), lambda: 'index %r of %d elements is translated to %r, which is %r instead of %r' % (idx, n, text, got, meant(idx, n)))
        done(rec, ('index', n, repr(idx)))
    if n <= 4:
        some = [i for i in all_indices(n) if isinstance(i, int) or i.step in (None, -2)]
        for pair in itertools.product(some[:2 * n + 30], some[::3]):
            rec.current = (n, pair)
            text = mat2py.transform_index(pair)
            parts = text.split(',')
            ok = len(parts) == 2 and [matlab.positions(p, n) for p in parts] == [meant(i, n) for i in pair]
            rec.require(ok, lambda: 'index %r is translated to %r' % (pair, text))
            done(rec, ('pair', n, repr(pair)))


def contents(view):
    """everything that can be seen through a view"""
    if isinstance(view, mat2py.MATLABCellView):
        return ['cell'] + [contents(v) for v in view]
    return view


def views(chunk, rec):
    _, n, tier = chunk
    array = Struct(*[dict(v=10. + i, t='x%d' % i, inner=Struct(dict(w=100. * i))) for i in range(n)])
    things = [1., 'two', Struct(dict(w=3.)), Cell([4., 'five']), [6., 7.], 8., 'nine', 10.]
    engine = Engine('views', {'f': lambda *a: 0., 'pack.g': lambda *a: list(a)},
                    {'s': array, 'box': Struct(dict(a=array, c=Cell(things[:n]))), 'c': Cell(things[:n]), 't': Table(col=[1., 2.]), 'x': 5.})
    for expression in ('s', 'box.a'):
        view = mat2py.make_view(engine, expression)
        rec.current = (chunk, expression)
        rec.require(isinstance(view, mat2py.MATLABStructView) and len(view) == n, lambda: '%s: %r' % (expression, type(view)))
        rec.require([e.v for e in view] == [10. + i for i in range(n)], lambda: 'iterating: %r' % [e.v for e in view])
        for idx in all_indices(n):
            rec.current = (chunk, expression, idx)
            chosen = meant(idx, n)
            if not chosen:
                continue
            part = view[idx]
            got = ([part.v], [part.t], [part.inner.w]) if len(chosen) == 1 else (list(part.v), list(part.t), [i.w for i in part.inner])
            want = [10. + i for i in chosen], ['x%d' % i for i in chosen], [100. * i for i in chosen]
            rec.require(got == want and len(part) == len(chosen), lambda: '%s[%r]: %r instead of %r' % (expression, idx, got, want))
            done(rec, ('struct', expression, n, repr(idx)))
    for expression in ('c', 'box.c'):
        view = mat2py.make_view(engine, expression)
        rec.current = (chunk, expression)
        rec.require(isinstance(view, mat2py.MATLABCellView) and len(view) == n and list(view.shape) == [1., n], lambda: '%s: %r' % (expression, type(view)))
        for idx in list(range(-n, n)) + [(0, i) for i in range(n)]:
            rec.current = (chunk, expression, idx)
            got, want = view[idx], things[:n][idx if isinstance(idx, int) else idx[1]]
            if isinstance(want, Struct):
                ok = isinstance(got, mat2py.MATLABStructView) and got.w == want.items[0]['w']
            elif isinstance(want, Cell):
                ok = isinstance(got, mat2py.MATLABCellView) and list(got) == list(want)
            else:
                ok = got == want
            rec.require(ok, lambda: '%s[%r]: %r instead of %r' % (expression, idx, got, want))
            done(rec, ('cell', expression, n, repr(idx)))
    rec.current = (chunk, 'others')
    rec.require(mat2py.make_view(engine, 'x') == 5., 'a number')
    rec.require(isinstance(mat2py.make_view(engine, 'f'), mat2py.MATLABFunctionView), 'a function')
    table = mat2py.make_view(engine, 't')
    rec.require(isinstance(table, mat2py.MATLABTableView) and table.col == [1., 2.], 'a table')
    raised(rec, MatlabExecutionError, mat2py.make_view, engine, 'nothing')
    raised(rec, MatlabExecutionError, getattr, mat2py.make_view(engine, 's')[0], 'nothing')
    # functions: values and views are handed over in their order, also when calls are repeated
    call = mat2py.make_view(engine, 'pack.g')
    values = [1., 'a', [2., 3.], mat2py.make_view(engine, 's')[0].inner, mat2py.make_view(engine, 'x')]
    plain = [1., 'a', [2., 3.], array.items[0]['inner'], 5.]
    for k in range(min(n, 3) + 1):
        for order in itertools.permutations(range(len(values)), k):
            rec.current = (chunk, 'call', order)
            engine.log.clear()
            engine.calls = 0
            call(*[values[i] for i in order])
            want = ('pack.g',) + tuple(plain[i] for i in order)
            rec.require(engine.log == [want], lambda: 'called %r instead of %r' % (engine.log, want))
            done(rec, ('call', order), engine)


# -- conversion ----------------------------------------------------------------------------------------------------

def convert(chunk, rec):
    engine, session_ = session({})

    def check(value, want):
        rec.current = ('convert', repr(value), type(value))
        got = session_.to_matlab(value)
        rec.require(alike(got, want), lambda: '%r is converted to %r' % (value, got))
        rec.require(matlab.plain(got), lambda: '%r is converted to %r, which cannot be sent' % (value, got))
        done(rec, ('convert', repr(value), str(type(value))))

    numbers = [(v, v) for v in (0, 3, -7, .1, -1e-9, 1e300)]
    numbers += [(t(v), float(t(v))) for t in (np.float64, np.float32, np.int32, np.int64, np.uint8) for v in (0, 1, 7)] + [(np.float64(.1), .1), (np.bool_(True), 1.)]
    for value, want in numbers:
        check(value, want)
    for (a, x), (b, y) in itertools.product(numbers, numbers[::3]):
        check([a, b], [x, y])
        check((a, b), (x, y))
        check(dict(p=a, q=[b, a]), dict(p=x, q=[y, x]))
        check(pd.Series([a, b], ['z', 'k']), dict(z=float(a), k=float(b)))
        check({a, b}, {x, y})
    for rows, columns, kind, form in itertools.product(range(1, 4), range(1, 4), ('float64', 'float32', 'int32', 'uint64'), ('C', 'F', 'strided')):
        values = (np.arange(rows * columns * 4).reshape(2 * rows, 2 * columns) * 3 % 17 + 1)
        a = values[::2, ::2] if form == 'strided' else values[:rows, :columns]
        a = np.array(a, dtype=kind, order='F' if form == 'F' else 'C') if form != 'strided' else values.astype(kind)[::2, ::2]
        rec.current = ('array', rows, columns, kind, form)
        got = session_.to_matlab(a)
        rec.require(isinstance(got, Matrix) and got.rows() == a.tolist(), lambda: '%r is converted to the rows %r' % (a, got.rows()))
        row = a[0]
        got = session_.to_matlab(row)
        rec.require(got.rows() in ([row.tolist()], [[v] for v in row.tolist()]), lambda: '%r is converted to the rows %r' % (row, got.rows()))
        done(rec, rec.current)
    for value in (object(), object):
        rec.current = ('convert', repr(type(value)))
        raised(rec, NotImplementedError, session_.to_matlab, value)


def alike(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(alike(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(alike, a, b))
    if isinstance(b, set):
        return a == b
    return type(a) in (int, float) and a == b


# -- voltages ------------------------------------------------------------------------------------------------------

class Gates:
    """the gates of the session: what is set is rounded (as the converters do)"""

    def __init__(self, order):
        self.order = order
        self.at = {g: -.1 * (i + 1) for i, g in enumerate(sorted(order))}
        self.sets = []

    def read(self, gates=None):
        return {g: self.at[g] for g in self.order}

    def set(self, new):
        self.sets.append(dict(new))
        for g, v in new.items():
            self.at[g] = round(v, 4)
        return self.read()


NAMES = dict(legacy=('qtune.read_gate_voltages', 'qtune.set_gates_v_pretuned'), qqd=('qtune.read_qqd_gate_voltages', 'qtune.set_qqd_gate_voltages'))


def experiment(which, gates, **more):
    names = NAMES[which]
    engine, session_ = session(dict({names[0]: gates.read, names[1]: gates.set}, **more))
    return engine, (sm.LegacyDQDRefactored if which == 'legacy' else qqd.SMTuneQQD)(session_)


def voltages(chunk, rec):
    _, (which, order), tier = chunk
    kinds = (float, np.float64, 'object')
    for k in range(0, len(order) + 1):
        for subset in itertools.permutations(sorted(order), k):
            for kind in kinds if k < 3 else kinds[1:2]:
                for second in (None,) if tier == 'quick' else (None, subset[::-1][:2]):
                    rec.current = (which, order, subset, str(kind), second)
                    gates = Gates(order)
                    engine, e = experiment(which, gates)
                    names = e.gate_voltage_names
                    names = names() if callable(names) else names
                    rec.require(list(names) == sorted(order), lambda: 'gates %r' % (names,))
                    for written in (subset, second):
                        if written is None:
                            continue
                        before = dict(gates.at)
                        now = e.read_gate_voltages()
                        rec.require(now.to_dict() == before and list(now.index) == sorted(order), lambda: 'reads %r instead of %r' % (now.to_dict(), before))
                        values = [-.20004 - .01 * i for i in range(len(written))]
                        new = pd.Series(values, index=list(written), dtype=object if kind == 'object' else float)
                        given = new.copy()
                        count = len(gates.sets)
                        got = e.set_gate_voltages(new)
                        want = dict(before, **dict(zip(written, values)))
                        rec.require(new.equals(given) and list(new.index) == list(given.index), 'the voltages handed in are changed')
                        rec.require(len(gates.sets) == count + 1, lambda: '%d writes' % (len(gates.sets) - count))
                        sent = gates.sets[-1]
                        rec.require(sent == want, lambda: 'writes %r instead of %r' % (sent, want))
                        rec.require(all(isinstance(v, float) for v in sent.values()), lambda: 'writes %r' % sent)
                        actual = {g: round(v, 4) for g, v in want.items()}
                        rec.require(got.to_dict() == actual, lambda: 'returns %r, set are %r' % (got.to_dict(), actual))
                    done(rec, rec.current, engine)
    # calls that fail are reported, and nothing is set
    for failing in NAMES[which]:
        gates = Gates(order)
        engine, e = experiment(which, gates)
        rec.current = (which, order, 'failing', failing)
        engine.failing = {failing}
        before = dict(gates.at)
        raised(rec, MatlabExecutionError, e.set_gate_voltages, pd.Series([-.3], [order[0]]))
        rec.require(gates.at == before, 'voltages are set')
        if failing == NAMES[which][0]:
            raised(rec, MatlabExecutionError, e.read_gate_voltages)
        engine.failing = set()
        got = e.set_gate_voltages(pd.Series([-.3], [order[0]]))
        rec.require(got.to_dict() == gates.at == {g: round(v, 4) for g, v in dict(before, **{order[0]: -.3}).items()}, lambda: 'after a failed call: sets %r' % gates.at)
        done(rec, rec.current, engine)
    gates = Gates(order)
    engine, e = experiment(which, gates)
    rec.current = (which, order, 'unknown gate')
    raised(rec, KeyError, e.set_gate_voltages, pd.Series([-.3, -.4], [order[0], 'nobody']))
    rec.require(not gates.sets, 'voltages are set')
    done(rec, rec.current, engine)


# -- measurements ----------------------------------------------------------------------------------------------------

OPTIONS = dict(center=.25, range=3e-3, gate='RFA', N_points=100, ramptime=.02, N_average=10, AWGorDecaDAC='AWG')
SCANS = {'line_scan': 'qtune.PythonChargeLineScan', 'detune_scan': 'qtune.PythonLineScan', 'lead_scan': 'qtune.LeadScan', 'load_scan': 'qtune.LoadScan', '2d_scan': 'qtune.PythonQPCScan2D'}


def subsets(options):
    for k in range(len(options) + 1):
        yield from itertools.combinations(options, k)


def measure(chunk, rec):
    _, which, tier = chunk
    (legacy if which == 'legacy' else tune)(chunk, rec)


def legacy(chunk, rec):
    scans = {f: (lambda options, i=i: [[1. + i, 2.], [3., 4. + i]]) for i, f in enumerate(sorted(SCANS.values()))}
    results = {f: [[1. + i, 2.], [3., 4. + i]] for i, f in enumerate(sorted(SCANS.values()))}
    for name, function in sorted(SCANS.items()):
        for chosen in subsets(sorted(OPTIONS) if name != '2d_scan' else ()):
            for kind in ('plain', 'numpy'):
                if kind == 'numpy' and name in ('lead_scan', 'load_scan'):
                    continue
                rec.current = (name, chosen, kind)
                options = {k: OPTIONS[k] for k in chosen} if name != '2d_scan' else dict(range=4e-3, n_points=50)
                options = {k: np.asarray(v)[()] if kind == 'numpy' and not isinstance(v, str) else v for k, v in options.items()}
                engine, e = experiment('legacy', Gates('AB'), **scans)
                m = Measurement(name, **options)
                before = dict(m.options)
                got = e.measure(m)
                rec.require(np.array_equal(got, results[function]) and isinstance(got, np.ndarray), lambda: '%s returns %r' % (name, got))
                if rec.require(len(engine.log) == 1 and engine.log[0][0] == function and len(engine.log[0]) == 2, lambda: '%s calls %r' % (name, engine.log)):
                    sent = dict(engine.log[0][1])
                    file_name = sent.pop('file_name', None)
                    rec.require(isinstance(file_name, str) and file_name, lambda: 'file name %r' % (file_name,))
                    rec.require(sent == options and all(isinstance(v, (int, float, str)) for v in sent.values()), lambda: '%s: sends %r instead of %r' % (name, sent, options))
                rec.require(m.options == before, 'the options are changed')
                engine.failing = {function}
                raised(rec, MatlabExecutionError, e.measure, m)
                done(rec, rec.current, engine)
    engine, e = experiment('legacy', Gates('AB'), **scans)
    rec.current = ('unknown',)
    raised(rec, ValueError, e.measure, Measurement('nothing'))
    rec.require(not engine.log, 'MATLAB is called')
    for m in e.measurements:
        rec.current = ('default', m.name)
        e.measure(m)
        rec.require(engine.log[-1][0] == SCANS[m.name], lambda: '%s calls %r' % (m.name, engine.log[-1]))
        done(rec, rec.current, engine)


QQD_OPTIONS = dict(range=3e-3, loadFile='a.mat', n=np.int64(5), center=np.float64(.5))


def result(value):
    """what tune.tune returns"""
    return Struct(dict(ana=value, args=Struct(dict(fullFile='file.mat')), successful=True))


def tune(chunk, rec):
    point = Struct(dict(STp_x=1., STp_y=2., Tp_x=3., Tp_y=4., width=5.))
    gates = Gates('AB')
    engine, e = experiment('qqd', gates, **{'tune.tune': lambda *args: result(point)})
    known = e.measurements
    known = known() if callable(known) else known
    for name in sorted(m.name for m in known):
        for index in (1, 2, np.int64(3)):
            for chosen in [order for some in subsets(sorted(QQD_OPTIONS)) for order in sorted({some, some[::-1]})]:
                rec.current = (name, index, chosen)
                engine.variables.pop('MATLABViewFromPythonData', None)          # (earlier calls)
                options = {k: QQD_OPTIONS[k] for k in chosen}
                m = Measurement(name, index=index, **options)
                first = None
                for repeat in range(3):
                    engine.log.clear()
                    engine.calls = 0
                    point.items[0]['width'] = 5. + repeat
                    got = e.measure(m)
                    if rec.require(len(engine.log) == 1, lambda: '%d calls' % len(engine.log)):
                        call = engine.log[0]
                        rec.require(call[:3] == ('tune.tune', name, float(index)), lambda: 'calls %r' % (call,))
                        pairs = list(zip(call[3::2], call[4::2]))
                        rec.require(len(call) % 2 and len(pairs) == len(options) and dict(pairs) == options, lambda: 'options %r are sent as %r' % (options, call[3:]))
                        rec.require(all(type(v) in (float, str) for v in call[4::2]), lambda: 'sends %r' % (call,))
                    if name in ('stp', 'tl'):
                        want = [1., 2.] if name == 'stp' else [3., 4.]
                        rec.require(np.array_equal(got, want), lambda: '%s returns %r' % (name, got))
                    else:
                        rec.require(got['data'].ana.width == 5. + repeat and got['data'].args.fullFile == 'file.mat', lambda: '%s returns %r' % (name, got))
                        first = got if first is None else first
                        rec.require(first['data'].ana.width == 5., 'the result of an earlier measurement changes')
                    rec.require(m.options == dict(options, index=index), lambda: 'the options are changed to %r' % m.options)
                engine.failing = {'tune.tune'}
                raised(rec, MatlabExecutionError, e.measure, m)
                engine.failing = set()
                done(rec, (name, int(index), chosen), engine)
    rec.current = ('unknown',)
    engine.log.clear()
    raised(rec, ValueError, e.measure, Measurement('nothing', index=1))
    rec.require(not engine.log, 'MATLAB is called')


# -- evaluators --------------------------------------------------------------------------------------------------------

NAN = float('nan')


def limited(v, low, high):
    return NAN if v < low or v > high else v


def cases_line(make):
    for n in (1, 2, 3):
        for widths in itertools.product((1., 2.5, 4.), repeat=n):
            for low, high in ((-np.inf, np.inf), (2.5, np.inf), (-np.inf, 2.5), (2., 3.)):
                mean = sum(widths) / n
                variance = sum((w - mean) ** 2 for w in widths) / n / n
                yield make(qqd.QQDLine, minimal_value=low, maximal_value=high), Struct(*[dict(width=w) for w in widths]), [limited(mean, low, high)], [variance]


def cases_lead(make):
    for value, residuals, error, reference in itertools.product((1., 2., 3.), (.5, 2.), (1., 3.), (1., 4.)):
        for low, high in ((-np.inf, np.inf), (2., np.inf), (-np.inf, 2.)):
            ana = Struct(dict(fitParams=[[9., 9., 9., 9., 9.], [7., 7., 7., value, 7.]], sumResiduals=residuals))
            yield (make(qqd.QQDLead, error=error, reference_residual_sum=reference, minimal_value=low, maximal_value=high), ana, [limited(value, low, high)], [error * residuals / reference])


def cases_sensor1(make):
    for x, slope in itertools.product((-1., 0., 2.), (-3., 3.)):
        yield make(qqd.QQDSensor1D), Struct(dict(xVal=x, yVal=8., minGradData=slope)), [x, 3.], [NAN, NAN]


def cases_sensor2(make):
    for x, y, slope in itertools.product((-1., 0., 2.), (-4., 5.), (-3., 3.)):
        yield make(qqd.QQDSensor2D), Struct(dict(xVal=x, yVal=y, minGradData=slope)), [x, y, 3.], [NAN] * 3


def cases_charge(make):
    for x, y, error in itertools.product((-1., 0., 2.), (-4., 5.), (1., 3.)):
        yield make(qqd.QQDCharge, error=error), Struct(dict(O=[[x, y]])), [x, y], [error] * 2


def cases_distance(make):
    for (a, b), (c, d), error in itertools.product(((0., 0.), (1., -2.)), ((3., 4.), (-3., 2.)), (1., 3.)):
        yield make(qqd.QQDDistTP, error=error), Struct(dict(triplePointRight=[a, b], triplePointLeft=[c, d])), [np.hypot(a - c, b - d)], [error]


def cases_resp(make):
    for positions in itertools.product((-1., 0., 2.), repeat=2):
        for visible in itertools.product((.5, 1.), repeat=2):
            for height in (-np.inf, .75, 1.):
                for low, high in ((None, None), (-1., 1.), (0., 2.), (pd.Series([0., -2.], ['p0', 'p1']), pd.Series([1., 3.], ['p0', 'p1']))):
                    e = make(qqd.QQDResp, error=2., min_transition_height=height, min_position=low, max_position=high)
                    lows, highs = ([-np.inf] * 2, [np.inf] * 2) if low is None else (list(low), list(high)) if isinstance(low, pd.Series) else ([low] * 2, [high] * 2)
                    want = [NAN if v < height else limited(p, a, b) for p, v, a, b in zip(positions, visible, lows, highs)]
                    yield e, Struct(*[dict(position=p, visiblity=v) for p, v in zip(positions + (77.,), visible + (9.,))]), want, [2., 2.]


EVALUATORS = dict(line=('line', 1, cases_line), lead=('lead', 1, cases_lead), sensor1=('sensor', 2, cases_sensor1), sensor2=('sensor 2d', 3, cases_sensor2), charge=('chrg', 2, cases_charge),
                  distance=('chrg', 1, cases_distance), resp=('resp', 2, cases_resp))


def evaluators(chunk, rec):
    name, count, cases = EVALUATORS[chunk[1]]
    names = ['p%d' % i for i in range(count)]
    ana = []
    engine, e = experiment('qqd', Gates('AB'), **{'tune.tune': lambda *args: result(ana[0])})
    root = scratch('c24')
    try:
        for k, (evaluator, value, want, errors) in enumerate(cases(lambda cls, **more: cls(e, [Measurement(name, index=1)], names, 'E', **more))):
            rec.current = (chunk[1], k, value, want)
            ana[:] = [value]
            engine.log.clear()
            if k % 3 == 0:
                engine.variables.pop('MATLABViewFromPythonData', None)          # (earlier calls)
            engine.calls = 0
            for which in (evaluator,) if k % 5 else (evaluator, again(root, evaluator, e)):
                got, variance = which.evaluate()
                rec.require(list(got.index) == names and list(variance.index) == names, lambda: 'results of %r and %r' % (list(got.index), list(variance.index)))
                rec.require(np.allclose(got.values.astype(float), want, equal_nan=True, rtol=1e-12), lambda: 'value %r instead of %r' % (got.values, want))
                rec.require(np.allclose(variance.values.astype(float), errors, equal_nan=True, rtol=1e-12), lambda: 'variance %r instead of %r' % (variance.values, errors))
            engine.failing = {'tune.tune'}
            raised(rec, MatlabExecutionError, evaluator.evaluate)
            engine.failing = set()
            done(rec, (chunk[1], k), engine, outcome=repr((want, errors)))
    finally:
        shutil.rmtree(root)


def again(root, evaluator, e):
    path = os.path.join(root, 'e')
    to_hdf5(path, 'it', evaluator, reserved={'experiment': e})
    out = from_hdf5(path, reserved={'experiment': e})['it']
    for f in os.listdir(root):
        os.remove(os.path.join(root, f))
    return out


# -- connecting --------------------------------------------------------------------------------------------------------

def connect(chunk, rec):
    here = sm.matlab_files_path()
    other = scratch('c24')
    try:
        for prepared, script, path, overwrite, how in itertools.product((False, True), (None, 'good', 'bad'), (None, here, other, 'broken'), (None, False, True), ('start', 'name', 'first', 'again')):
            rec.current = (prepared, script, path == here, path, overwrite, how) if path != other else (prepared, script, 'other', overwrite, how)
            engine = Engine('mine', {}, {'smdata': Struct({})} if prepared else {})
            engine.functions['good'] = lambda: engine.variables.__setitem__('smdata', Struct({}))
            engine.functions['bad'] = lambda: None
            if path not in (None, 'broken'):
                engine.functions['qtune.find_qtune'] = lambda: path
            matlab.ENGINES.clear()
            matlab.ENGINES['started' if how == 'start' else 'mine'] = engine
            engine.broken = path == 'broken'
            sm.SpecialMeasureMatlab.connected_engines.clear()
            if how == 'again':
                sm.SpecialMeasureMatlab.connected_engines['mine'] = engine
                matlab.ENGINES.clear()               # one cannot connect twice
            kind = None
            try:
                got = sm.SpecialMeasureMatlab(connect=dict(start=None, name='mine', first=True, again='mine')[how], special_measure_setup_script=script, silently_overwrite_path=overwrite)
            except RuntimeError as e:
                kind, got = e, None
            fails = not prepared and script == 'bad' or path == 'broken'
            rec.require((kind is not None) == fails, lambda: 'error %r' % (kind,))
            ran = [c[0] for c in engine.log if c[0] in ('good', 'bad')]
            rec.require(ran == ([script] if script and not prepared else []), lambda: 'scripts %r' % ran)
            if not fails:
                added = [c[1] for c in engine.log if c[0] == 'addpath']
                rec.require(added == ([] if path == here or path == other and overwrite is False else [here]), lambda: 'added to the path: %r' % added)
                rec.require(got.engine is engine and got.workspace is engine.workspace, 'another engine')
                if how != 'start':
                    matlab.ENGINES.clear()           # (one cannot connect twice)
                    second = sm.SpecialMeasureMatlab(connect='mine' if how != 'first' else True, silently_overwrite_path=overwrite)
                    rec.require(second.engine is engine, 'another engine')
                engine.workspace['number'] = 17.
                rec.require(got.get_variable('number') == 17., 'the variable is not read')
            done(rec, rec.current, engine)
        rec.current = ('unknown session',)
        matlab.ENGINES.clear()
        raised(rec, matlab.EngineError, sm.SpecialMeasureMatlab, 'nobody')
    finally:
        shutil.rmtree(other)

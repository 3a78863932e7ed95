"""C08: save / load of value graphs.

Every "program" that builds an object graph (a sequence of nodes, each a leaf or a container over earlier nodes, so that all
trees and all sharing patterns occur) up to a bound is executed, saved with the real writer and loaded with the real
reader; the result must be isomorphic, including the sharing. Leaves, values that must be rejected, external
objects and temporaries produced while saving are enumerated likewise.
"""
import itertools
import os
import shutil

import h5py
import numpy as np
import pandas as pd

from qtune.experiment import Measurement
from qtune.storage import HDF5Serializable, from_hdf5, to_hdf5

from mc.core import scratch
from mc.setups import HIERARCHIES, build

TECHNIQUE = 'exhaustive enumeration of object graphs (bounded construction programs) through the real writer and reader, isomorphism oracle'
LEVEL = 'model_checking'
RULE = ('a state is a constructed object graph; an execution saves it to an HDF5 file and loads it again; the transition is '
        'the round trip; every execution runs the implementation, so all of them are validated traces')
BOUNDS = {'quick': 'all construction programs of up to 4 nodes (3 leaf kinds, 4 container kinds, up to 2 children), all leaf kinds at all '
                   'positions and in pairs, up to 5 temporaries, external objects at all positions of 3 slots, checkpoints of 13 tuner set-ups after each of 6 steps',
          'thorough': 'up to 5 nodes over 2 leaf kinds and 4 nodes over 6 leaf kinds with up to 3 children; otherwise as quick, 16 steps'}
ASSUMPTIONS = ['names of series and of indices are not part of the claim', 'sharing of NumPy arrays is not part of the claim',
               'object graphs without cycles']
LIMIT = {'quick': 300, 'thorough': 3000}


class McBox(metaclass=HDF5Serializable):
    """holds a value"""

    def __init__(self, content=None, extra=None):
        self.content, self.extra = content, extra

    def to_hdf5(self):
        return dict(content=self.content, extra=self.extra)


class McMaker(metaclass=HDF5Serializable):
    """creates temporary objects whenever it is saved"""

    def __init__(self, kind=None, number=None, made=None):
        self.kind, self.number = kind, number
        if made is not None:
            self.number = made
        self.loaded = made

    def to_hdf5(self):
        return dict(kind=self.kind, made=TEMPORARIES[self.kind](self.number))


TEMPORARIES = {
    'list': lambda n: [float(n), [n + .5]],
    'tuple': lambda n: (float(n), (n + .5,)),
    'dict': lambda n: dict(a=dict(b=float(n))),
    'series': lambda n: pd.Series([float(n)], index=['g%d' % n]),
    'frame': lambda n: pd.DataFrame([[float(n)]], index=['g%d' % n], columns=['h%d' % n]),
    'array': lambda n: np.array([float(n)]),
    'str': lambda n: 'text %d' % n,
    'object': lambda n: Measurement('m%d' % n, opt=[float(n)]),
    'listed': lambda n: [pd.Series([float(n)], index=['g%d' % n]), np.array([float(n)]), (float(n),)],
}


LEAVES = {
    'true': lambda: True, 'false': lambda: False, 'zero': lambda: 0, 'int': lambda: -7, 'big': lambda: 2 ** 62,
    'float': lambda: 1.5, 'tiny': lambda: 5e-324, 'precise': lambda: 1 / 3, 'nan': lambda: float('nan'), 'inf': lambda: float('-inf'),
    'negzero': lambda: -0., 'complex': lambda: 1. - 2.5j, 'npfloat': lambda: np.float64(.1), 'npint': lambda: np.int64(5), 'npbool': lambda: np.bool_(True),
    'none': lambda: None,
    'empty text': lambda: '', 'text': lambda: 'RFA', 'blank text': lambda: ' a b ', 'unicode': lambda: 'ä→µ', 'lines': lambda: 'a\nb/#type', 'digits': lambda: '12', 'text None': lambda: 'None',
    'array': lambda: np.array([1., np.nan, -np.inf]), 'array2': lambda: np.array([[1., 2., 3.], [4., 5., 6.]]), 'array3': lambda: np.arange(8.).reshape(2, 2, 2),
    'array1': lambda: np.array([3.5]), 'array0': lambda: np.zeros((0,)), 'array20': lambda: np.zeros((2, 0)), 'int array': lambda: np.array([3, -1]), 'bool array': lambda: np.array([True, False]),
    'complex array': lambda: np.array([1j, 2.]), 'fortran': lambda: np.asfortranarray([[1., 2.], [3., 4.]]), 'strided': lambda: np.arange(6.)[::2],
    'series': lambda: pd.Series([1.5, np.nan], index=['b', 'a']), 'series1': lambda: pd.Series([1.5], index=['b']), 'empty series': lambda: pd.Series([], index=pd.Index([], dtype=object), dtype=float),
    'int series': lambda: pd.Series([3, 2], index=['x', 'y']), 'bool series': lambda: pd.Series([True, False], index=['x', 'y']), 'text series': lambda: pd.Series(['u', 'ü '], index=['x y', 'z/#']),
    'int index': lambda: pd.Series([1., 2.], index=[5, 3]), 'range index': lambda: pd.Series([1., 2.]), 'float index': lambda: pd.Series([1., 2.], index=[.5, -1.]), 'double label': lambda: pd.Series([1., 2.], index=['a', 'a']),
    'frame': lambda: pd.DataFrame([[1., 2., 3.], [4., 5., np.nan]], index=['r', 'q'], columns=['c', 'b', 'a']), 'frame11': lambda: pd.DataFrame([[1.]], index=['r'], columns=['c']),
    'int frame': lambda: pd.DataFrame([[1, 2], [3, 4]], index=[3, 1], columns=['b', 'a']), 'square': lambda: pd.DataFrame([[1., 2.], [3., 4.]], index=['a', 'b'], columns=['a', 'b']),
    'range frame': lambda: pd.DataFrame([[1., 2.], [3., 4.]]), 'bool frame': lambda: pd.DataFrame([[True, False]], index=['a'], columns=['x', 'y']),
    'mixed frame': lambda: pd.DataFrame({'b': [1.5, 2.], 'a': [1, 2]}, index=['y', 'x']),
    'empty list': lambda: [], 'empty tuple': lambda: (), 'empty dict': lambda: {}, 'measurement': lambda: Measurement('line scan', center=1., gate='RFA', N_points=10),
    'long list': lambda: list(range(12)), 'long tuple': lambda: tuple('abcdefghijkl'), 'odd keys': lambda: {'b': 1, 'a b': 2, 'ä': 3, '#k': 4, '0': 5, 'B': 6}, 'object': lambda: McBox(1.5, 'x'),
}

# values that are not supported: rejected (or, if accepted, loaded equal)
STRANGE = {
    'bytes': lambda: b'ab', 'set': lambda: {1}, 'function': lambda: len, 'object': lambda: object(), 'huge': lambda: 2 ** 70,
    'object array': lambda: np.array([1, 'a', None], dtype=object), 'text array': lambda: np.array(['a', 'b']), 'mixed series': lambda: pd.Series([1, 'a'], index=['x', 'y']),
    'mixed text frame': lambda: pd.DataFrame({'a': [1., 2.], 'b': ['u', 'v']}), 'none series': lambda: pd.Series([None, 'a'], index=['x', 'y']),
    'int keys': lambda: {1: 2}, 'none key': lambda: {None: 1}, 'slash key': lambda: {'a/b': 1}, 'empty key': lambda: {'': 1}, 'dot key': lambda: {'.': 1}, 'dots key': lambda: {'..': 1}, 'tuple key': lambda: {('a', 'b'): 1}, 'float key': lambda: {.5: 1},
    'mixed index': lambda: pd.Series([1., 2.], index=['a', 1]), 'tuple index': lambda: pd.Series([1., 2.], index=pd.MultiIndex.from_tuples([('a', 'b'), ('a', 'c')])),
    'date index': lambda: pd.Series([1., 2.], index=pd.date_range('2019', periods=2)), 'nul text': lambda: 'a\0b', 'surrogate': lambda: '\udc80', 'generator': lambda: (i for i in range(3)),
    'date': lambda: pd.Timestamp('2019-01-02'), 'slice': lambda: slice(1, 2), 'type': lambda: float,
    'colliding keys': lambda: {'a': 1, 'a/b': 2}, 'nested key': lambda: {'a': {'b': 1}, 'a/b': 2}, 'mixed keys': lambda: {'1': 1, 1: 2},
}

SHARED = (dict, list, tuple, pd.Series, pd.DataFrame)


def is_object(x):
    return isinstance(type(x), HDF5Serializable)


def kind(x):
    if isinstance(x, (bool, np.bool_)):
        return 'bool'
    if isinstance(x, (int, np.integer)):
        return 'int'
    if isinstance(x, (float, np.floating)):
        return 'float'
    if isinstance(x, (complex, np.complexfloating)):
        return 'complex'
    return type(x).__name__


def values_equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    if a.dtype.kind in 'fc':
        return bool(np.all((a == b) | ((a != a) & (b != b)))) and (a.dtype.kind == 'c' or bool(np.all(np.signbit(a) == np.signbit(b))))
    return bool(np.all(a == b))


def labels_equal(a, b):
    return len(a) == len(b) and all(x == y and isinstance(x, str) == isinstance(y, str) for x, y in zip(a, b))


def iso(a, b, there=None, back=None, path='value', sharing=True, temporary=False):
    """None if b equals a with the same sharing, else a description of the first difference"""
    there = {} if there is None else there
    back = {} if back is None else back
    if kind(a) != kind(b):
        return '%s: %s became %s (%r)' % (path, kind(a), kind(b), b)
    if (isinstance(a, SHARED) or is_object(a)) and not temporary and not (isinstance(a, tuple) and not a):
        if sharing and (id(a) in there or id(b) in back):
            if there.get(id(a)) != id(b):
                return '%s: %s' % (path, 'not shared as before' if id(a) in there else 'shared, but distinct before')
            return None
        if sharing:
            there[id(a)], back[id(b)] = id(b), id(a)
    if isinstance(a, dict):
        if set(a) != set(b):
            return '%s: keys %r became %r' % (path, sorted(map(repr, a)), sorted(map(repr, b)))
        for k in a:
            d = iso(a[k], b[k], there, back, '%s[%r]' % (path, k), sharing)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d became %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = iso(x, y, there, back, '%s[%d]' % (path, i), sharing)
            if d:
                return d
        return None
    if isinstance(a, pd.DataFrame):
        ok = labels_equal(a.index, b.index) and labels_equal(a.columns, b.columns) and (
            values_equal(a.values, b.values))
        return None if ok else '%s: %r became %r' % (path, a, b)
    if isinstance(a, pd.Series):
        ok = labels_equal(a.index, b.index) and values_equal(a.values, b.values)
        return None if ok else '%s: %r became %r' % (path, a, b)
    if isinstance(a, np.ndarray):
        return None if values_equal(a, b) else '%s: %r became %r' % (path, a, b)
    if isinstance(a, (McBox, McMaker)):
        return iso([a.content, a.extra], [b.content, b.extra], there, back, path + '.', sharing, True) if isinstance(a, McBox) else \
            iso(TEMPORARIES[a.kind](a.number), b.loaded, path=path + '.made')
    if is_object(a):
        if type(a) is not type(b):
            return '%s: %s became %s' % (path, type(a).__name__, type(b).__name__)
        d = iso(a.to_hdf5(), b.to_hdf5(), there, back, path + '.', False)
        return d or iso(public(a), public(b), there, back, path + '.', False)
    if a is b:
        return None
    if isinstance(a, (int, float, complex, np.generic)):
        return None if values_equal(a, b) else '%s: %r became %r' % (path, a, b)
    return None if type(a) is type(b) and a == b else '%s: %r became %r' % (path, a, b)


def public(obj):
    """public properties holding plain data"""
    out = {}
    for name in dir(type(obj)):
        if name.startswith('_') or not isinstance(getattr(type(obj), name), property):
            continue
        try:
            value = getattr(obj, name)
        except Exception as err:
            value = type(err).__name__
        if isinstance(value, (int, float, complex, str, type(None), np.generic, np.ndarray, pd.Series, pd.DataFrame)):
            out[name] = value
    return out


class Store:
    def __init__(self):
        self.root = scratch('c08')
        self.n = 0

    def memory(self, name='mem', **kw):
        self.n += 1
        return h5py.File('%s%d' % (name, self.n), 'w', driver='core', backing_store=False)

    def path(self):
        self.n += 1
        return os.path.join(self.root, 'f%d.hdf5' % self.n)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def round_trip(store, obj, reserved=None, reserved_load=None, on_disk=False, name='it'):
    if on_disk:
        path = store.path()
        to_hdf5(path, name, obj, reserved=reserved)
        loaded = from_hdf5(path, reserved=reserved_load or {})
        os.remove(path)
        return loaded[name]
    with store.memory() as f:
        to_hdf5(f, name, obj, reserved=reserved)
        loaded = from_hdf5(f, reserved=reserved_load or {})
        return loaded[name]


# ---------------------------------------------------------------------------------------------------------------------
LEAF_SETS = {3: ('float', 'series', 'text'), 2: ('float', 'frame'), 6: ('int', 'none', 'text', 'array', 'frame', 'series')}
CONTAINERS = ('list', 'tuple', 'dict', 'box')


def chunks(tier):
    programs = [(4, 3, 2)] if tier == 'quick' else [(4, 6, 2), (3, 3, 3), (5, 2, 2)]
    for length, leaves, width in programs:
        first = ['leaf ' + l for l in LEAF_SETS[leaves]] + list(CONTAINERS)
        for a in first:
            for b in node_choices(1, leaves, width):
                yield 'programs', length, leaves, width, a, b
    for k in LEAVES:
        yield 'leaf', k
    for k in STRANGE:
        yield 'strange', k
    yield 'temporaries',
    yield 'external',
    for h in HIERARCHIES:
        yield 'tuner', h, 6 if tier == 'quick' else 16


def node_choices(earlier, leaves, width):
    out = ['leaf ' + l for l in LEAF_SETS[leaves]]
    for c in CONTAINERS:
        for n in range(width + 1):
            out += [(c,) + ch for ch in itertools.product(range(earlier), repeat=n)]
    return out


def make(nodes):
    built = []
    for node in nodes:
        if isinstance(node, str) and node.startswith('leaf '):
            built.append(LEAVES[node[5:]]())
            continue
        c, *children = (node,) if isinstance(node, str) else node
        ch = [built[i] for i in children]
        built.append(list(ch) if c == 'list' else tuple(ch) if c == 'tuple' else {'k%d' % i: v for i, v in enumerate(ch)} if c == 'dict'
                     else McBox(*ch[:2]) if len(ch) < 3 else McBox(ch[0], ch[1:]))
    return built


def used(nodes):
    """all nodes reachable from the last one"""
    need = {len(nodes) - 1}
    for i in range(len(nodes) - 1, -1, -1):
        if i not in need:
            return False
        if not isinstance(nodes[i], str):
            need |= set(nodes[i][1:])
    return True


def explore(chunk, rec):
    store = Store()
    try:
        globals()['x_' + chunk[0]](chunk, rec, store)
    finally:
        store.close()


def check(rec, store, obj, where, **kw):
    rec.current = where
    rec.state(where)
    loaded = round_trip(store, obj, **kw)
    d = iso(obj, loaded)
    rec.require(d is None, lambda: '%s' % d)
    rec.execution(key=where, outcome=where)
    rec.transition()
    rec.trace()
    return loaded


def x_programs(chunk, rec, store):
    _, length, leaves, width, first, second = chunk
    start = [first, second]
    for n in range(2, length + 1):
        levels = [node_choices(i, leaves, width) for i in range(2, n)]
        for rest in itertools.product(*levels):
            nodes = start + list(rest)
            if used(nodes):
                check(rec, store, make(nodes)[-1], nodes)
    rec.sample(repr(rec.current))


def positions(x):
    """the value at every kind of position"""
    yield 'itself', x
    yield 'list', [x]
    yield 'tuple', (x,)
    yield 'dict', {'k': x}
    yield 'object', McBox(x)
    yield 'option', Measurement('m', opt=x)
    yield 'tail', [1, 'a', x]
    yield 'tuple in list', [(1, x)]
    yield 'list in dict', {'a': [x], 'b': 1}
    yield 'object in tuple', (McBox([x]),)
    yield 'dict in object', McBox({'k': x}, x)
    yield 'twice', [x, x]
    yield 'twice in dict', {'a': x, 'b': (x,)}
    yield 'after object', [McBox(x), x]


def x_leaf(chunk, rec, store):
    f = LEAVES[chunk[1]]
    for where, v in positions(f()):
        check(rec, store, v, (chunk[1], where))
        check(rec, store, v, (chunk[1], where, 'disk'), on_disk=True)
        check(rec, store, v, (chunk[1], where, 'named'), name='2019_01_01')
    for k, g in LEAVES.items():
        x, y = f(), g()
        for where, v in (('list', [x, y]), ('equal twins', [x, y, f()]), ('dict', {'b': x, 'a': y}), ('box', McBox((x,), [y])),
                         ('shared', [x, {'y': y}, [x, y]])):
            check(rec, store, v, (chunk[1], k, where))
    rec.sample(repr(rec.current))


def x_strange(chunk, rec, store):
    """rejected, or loaded equal; the unsupported value is never dropped or changed"""
    f = STRANGE[chunk[1]]
    for where, v in positions(f()):
        for disk in (False, True):
            rec.current = (chunk[1], where, disk)
            rec.execution(key=rec.current)
            rec.transition()
            rec.trace()
            path = store.path() if disk else None
            handle = None if disk else store.memory()
            try:
                to_hdf5(path or handle, 'it', v)
            except Exception as err:
                rec.execution(outcome=(chunk[1], where, type(err).__name__))
                if handle is not None:
                    handle.close()
                continue
            loaded = from_hdf5(path or handle, reserved={})['it']
            d = iso(v, loaded)
            rec.require(d is None, lambda: 'accepted, but loaded differently: %s' % d)
            rec.state(rec.current)
            if handle is not None:
                handle.close()
    rec.sample(repr(rec.current))


def x_temporaries(chunk, rec, store):
    for n in range(1, 5):
        for kinds in itertools.product(TEMPORARIES, repeat=n):
            if n == 4 and len(set(kinds)) > 2:
                continue
            check(rec, store, [McMaker(k, i) for i, k in enumerate(kinds)], kinds)
    for k in TEMPORARIES:
        check(rec, store, {'x%d' % i: McBox([McMaker(k, i)], McMaker(k, i + 50)) for i in range(20)}, ('many', k))
    rec.sample(repr(rec.current))


def x_external(chunk, rec, store):
    """externals are replaced by the objects given when loading, wherever and however often they occur"""
    class External:
        pass
    e1, e2, n1, n2 = External(), External(), External(), External()
    options = ('e1', 'e2', 'box', 'num', 'pair')
    for slots in itertools.product(options, repeat=3):
        for wrap in ('list', 'tuple', 'dict', 'box'):
            for disk in (False, True):
                if disk and wrap != 'box':
                    continue
                rec.current = (slots, wrap, disk)

                def fill(a, b):
                    out = [a if s == 'e1' else b if s == 'e2' else McBox(a, [b]) if s == 'box' else (a, a, b) if s == 'pair' else 4.5 for s in slots]
                    return out if wrap == 'list' else tuple(out) if wrap == 'tuple' else dict(zip('cab', out)) if wrap == 'dict' else McBox(out[0], {'z': out[1:]})
                loaded = round_trip(store, fill(e1, e2), reserved={'one': e1, 'two': e2}, reserved_load={'one': n1, 'two': n2, 'other': 5},
                                    on_disk=disk)
                d = external_iso(fill(n1, n2), loaded)
                rec.require(d is None, lambda: 'loaded %r' % (d,))
                rec.execution(key=rec.current, outcome=rec.current)
                rec.state(rec.current)
                rec.transition()
                rec.trace()
    # not declared: rejected
    for wrap in (lambda x: x, lambda x: [x], lambda x: McBox(x), lambda x: {'a': (x,)}):
        with store.memory() as f:
            try:
                to_hdf5(f, 'it', wrap(e1), reserved={'two': e2})
            except Exception:
                pass
            else:
                rec.violation('an undeclared external object was saved')
        rec.execution(key='undeclared')
    rec.sample(repr(rec.current))


def external_iso(want, got):
    if isinstance(want, McBox):
        return external_iso([want.content, want.extra], [got.content, got.extra]) if isinstance(got, McBox) else got
    if isinstance(want, dict):
        return external_iso([want[k] for k in sorted(want)], [got[k] for k in sorted(got)]) if isinstance(got, dict) and set(want) == set(got) else got
    if isinstance(want, (list, tuple)):
        if not isinstance(got, type(want)) or len(want) != len(got):
            return got
        for a, b in zip(want, got):
            d = external_iso(a, b)
            if d is not None:
                return d
        return None
    if isinstance(want, float):
        return None if want == got else got
    return None if want is got else got


def x_tuner(chunk, rec, store):
    """complete tuners in the middle of a run, shared between the tuner and a second slot"""
    _, hierarchy, steps = chunk
    at, lab = build(hierarchy, 'hole')
    for step in range(steps):
        for t in at.tuning_hierarchy:
            pieces = {'tuner': t, 'solver': t.solver, 'evaluators': list(getattr(t, '_evaluators', ())), 'target': t.target}
            rec.current = (hierarchy, step)
            loaded = round_trip(store, {'all': at, 'pieces': pieces}, reserved={'experiment': lab}, reserved_load={'experiment': lab})
            d = iso(pieces['tuner'], loaded['pieces']['tuner'], sharing=False)
            rec.require(d is None, lambda: d)
            rec.require(any(loaded['pieces']['tuner'] is x for x in loaded['all'].tuning_hierarchy)
                        and loaded['pieces']['solver'] is loaded['pieces']['tuner'].solver, 'tuner or optimizer not shared as before')
            rec.execution(key=rec.current, outcome=rec.current)
            rec.state(rec.current)
            rec.transition()
            rec.trace()
        if at.is_tuning_complete():
            break
        at.iterate()
    rec.sample(repr(rec.current))

"""A stand-in for the MATLAB engine: the modules matlab and matlab.engine, and an engine which keeps a workspace and interprets the
small part of the language which qtune sends (structures, cells, subsref, subsasgn, indices with end, calls of known functions).

Values: numbers, text, nested lists (matrices), Struct (a 1 x n array of structures), Cell (1 x n), anything else is opaque.
Values are copied whenever they are passed, as MATLAB does."""
import copy
import re
import sys
import types


class MatlabExecutionError(Exception):
    pass


class Struct:
    def __init__(self, *items):
        self.items = [dict(i) for i in items]

    def __eq__(self, other):
        return isinstance(other, Struct) and self.items == other.items

    def __repr__(self):
        return 'Struct%r' % (tuple(self.items),)


class Cell(list):
    pass


class Table(dict):
    pass


class Expand(list):
    """a comma separated list"""


TOKENS = re.compile(r"\s*(?:(\d+\.?\d*(?:e[-+]?\d+)?)|('(?:[^']|'')*')|([A-Za-z]\w*(?:\.[A-Za-z]\w*)*)|(.))")


def tokens(text):
    out = []
    for number, string, name, other in TOKENS.findall(text):
        out.append(('number', float(number)) if number else ('text', string[1:-1].replace("''", "'")) if string else ('name', name) if name else ('sign', other))
    return [t for t in out if t != ('sign', ' ')] + [('sign', '')]


class Parser:
    def __init__(self, text):
        self.text, self.tokens, self.at = text, tokens(text), 0

    def error(self):
        raise MatlabExecutionError('cannot interpret %r' % self.text)

    def peek(self, sign=None):
        t = self.tokens[self.at]
        return t if sign is None else t == ('sign', sign)

    def take(self, sign=None):
        t = self.tokens[self.at]
        if sign is not None and t != ('sign', sign):
            self.error()
        self.at += 1
        return t

    def finish(self, out):
        while self.peek(';'):
            self.take()
        if not self.peek(''):
            self.error()
        return out

    def range(self):
        parts = [self.sum()]
        while self.peek(':') and len(parts) < 3:
            self.take()
            parts.append(self.sum())
        if len(parts) == 1:
            return parts[0]
        return ('range', parts[0], parts[1] if len(parts) == 3 else ('value', 1.), parts[-1])

    def sum(self):
        out = self.unary()
        while self.peek('+') or self.peek('-'):
            sign = self.take()[1]
            out = (sign, out, self.unary())
        return out

    def unary(self):
        if self.peek('-'):
            self.take()
            return ('-', ('value', 0.), self.unary())
        if self.peek('+'):
            self.take()
            return self.unary()
        return self.primary()

    def items(self, closing):
        out = []
        while not self.peek(closing):
            if self.peek(':') and self.tokens[self.at + 1] in (('sign', closing), ('sign', ',')):
                self.take()
                out.append(('value', ':'))
            else:
                out.append(self.range())
            if not self.peek(closing):
                self.take(',')
        self.take(closing)
        return out

    def primary(self):
        kind, value = self.take()
        if kind in ('number', 'text'):
            return ('value', value)
        if kind == 'name':
            out = ('end',) if value == 'end' else ('name', value)
            while self.peek('(') or self.peek('{'):
                if self.take()[1] == '(':
                    out = ('call', out, self.items(')'))
                else:
                    out = ('cell index', out, self.items('}'))
            return out
        if value == '(':
            out = self.range()
            self.take(')')
            return out
        if value == '{':
            return ('cell', self.items('}'))
        if value == '[':
            return ('matrix', self.items(']'))
        if value == '@':
            return ('handle', self.take()[1])
        self.error()


def positions(text, n, parser=Parser):
    """the (zero based) elements which an index selects from n"""
    p = parser(text)
    return select(Engine().value(p.finish(p.range()), n), n)


def select(index, n):
    if index == ':':
        return list(range(n))
    out = [index] if not isinstance(index, list) else index
    if any(not isinstance(i, float) or i != int(i) or not 1 <= i <= n for i in out):
        raise MatlabExecutionError('Index exceeds the number of array elements (%r of %d).' % (index, n))
    return [int(i) - 1 for i in out]


class Namespace:
    def __init__(self, engine, path):
        self._engine, self._path = engine, path

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Namespace(self._engine, self._path + '.' + name)

    def __call__(self, *args, stdout=None, stderr=None, nargout=1):
        return self._engine.call(self._path, *args)


class Workspace:
    def __init__(self, variables):
        self._variables = variables

    def __getitem__(self, name):
        if name not in self._variables:
            raise MatlabExecutionError('Undefined variable %r' % name)
        return copy.deepcopy(self._variables[name])

    def __setitem__(self, name, value):
        if isinstance(value, types.GeneratorType):
            raise TypeError('unsupported Python data type: generator')
        self._variables[name] = copy.deepcopy(value)


def plain(value):
    """only what can be sent to MATLAB"""
    if isinstance(value, dict):
        return all(isinstance(k, str) and plain(v) for k, v in value.items())
    if isinstance(value, (list, tuple, set)):
        return all(plain(v) for v in value)
    return value is None or type(value) in (float, int, str, bool, bytes, complex) or isinstance(value, (Struct, Cell, Matrix, Table))


class Matrix(list):
    """columns of numbers (as typecast, reshape and transpose make it)"""

    def __init__(self, columns, vector=None):
        super().__init__(columns)
        self.vector = vector

    def rows(self):
        return [list(r) for r in zip(*self)]


class Engine:
    def __init__(self, name='engine', functions=None, variables=None):
        self.engine_name = name
        self.log = []
        self.variables = dict(variables or {})
        self.functions = dict(functions or {})
        self.workspace = Workspace(self.variables)
        self.failing = set()          # functions which fail
        self.calls = 0
        self.broken = False

    def __getattr__(self, name):
        if name.startswith('_') or name in ('functions', 'variables', 'log'):
            raise AttributeError(name)
        return Namespace(self, name)

    def __deepcopy__(self, memo):
        return self

    # -- functions called from Python ------------------------------------------------------------------------------

    def call(self, path, *args):
        own = getattr(Engine, 'm_' + path.replace('.', '_'), None)
        if own is not None:
            return own(self, *args)
        if not all(plain(a) for a in args):
            raise TypeError('unsupported Python data type in %r' % (args,))
        return self.run(path, copy.deepcopy(args))

    def run(self, path, args):
        if path not in self.functions:
            raise MatlabExecutionError("Undefined function '%s'" % path)
        self.log.append((path,) + tuple(args))
        self.calls += 1
        if path in self.failing:
            raise MatlabExecutionError('the call fails')
        return copy.deepcopy(self.functions[path](*args))

    def m_matlab_engine_engineName(self):
        return self.engine_name

    def m_feature(self, what):
        return 4711.

    def m_exist(self, name, kind=None):
        return 1. if name in self.variables else 0.

    def m_struct(self, *args):
        return Struct({})

    def m_addpath(self, path):
        self.log.append(('addpath', path))
        if not self.broken:
            self.functions['qtune.find_qtune'] = lambda: path

    def m_typecast(self, raw, kind):
        import numpy as np
        if not isinstance(raw, bytes):
            raise TypeError('not bytes')
        kinds = dict(double='f8', single='f4', int32='i4', uint64='u8')
        if kind not in kinds:
            raise MatlabExecutionError('typecast to %r' % kind)
        values = np.frombuffer(raw, kinds[kind]).tolist()
        return Matrix([[v] for v in values], vector=values)

    def m_reshape(self, m, rows, columns, *more):
        flat = [v for column in m for v in column]
        if more or rows * columns != len(flat):
            raise MatlabExecutionError('reshape')
        return Matrix([flat[c * rows:(c + 1) * rows] for c in range(columns)])

    def m_transpose(self, m):
        return Matrix(m.rows())

    def m_util_py_get_from_workspace(self, name):
        return self.workspace[name]

    def m_util_py_my_eval(self, text):
        return self.execute(text)

    def m_eval(self, text):
        return self.execute(text)

    def m_evalc(self, text):
        found = re.match(r'disp\((.*)\)$', text)
        return '<strong>%r</strong>\n' % (self.execute(found.group(1)),)

    # -- statements ----------------------------------------------------------------------------------------------------

    def execute(self, text):
        found = re.match(r'\s*([A-Za-z][\w.]*)(\{end\+1\})?\s*=(?!=)\s*(.*)$', text, re.S)
        parser = Parser(found.group(3) if found else text)
        result = self.value(parser.finish(parser.range()))
        if not found:
            return self.outside(result)
        path, append, _ = found.groups()
        path = path.split('.')
        if len(path) == 1 and not append:
            self.variables[path[0]] = copy.deepcopy(result)
            return None
        at = self.variables[path[0]]
        for p in path[1:-1]:
            at = at.items[0][p]
        if append:
            at.items[0][path[-1]] = Cell(at.items[0][path[-1]] + [copy.deepcopy(result)])
        else:
            at.items[0][path[-1]] = copy.deepcopy(result)
        return None

    def outside(self, value):
        """what Python gets"""
        if isinstance(value, Struct) and len(value.items) != 1:
            raise MatlabExecutionError('only a scalar struct can be returned from MATLAB')
        return copy.deepcopy(value)

    def lookup(self, name):
        parts = name.split('.')
        if parts[0] not in self.variables:
            raise KeyError(name)
        value = self.variables[parts[0]]
        for p in parts[1:]:
            if isinstance(value, Table):
                value = value[p]
                continue
            if not isinstance(value, Struct) or len(value.items) != 1 or p not in value.items[0]:
                raise MatlabExecutionError('Reference to non-existent field %r' % p)
            value = value.items[0][p]
        return value

    def value(self, node, end=None):
        kind = node[0]
        if kind == 'value':
            return node[1]
        if kind == 'end':
            if end is None:
                raise MatlabExecutionError('end outside of an index')
            return float(end)
        if kind in '+-':
            a, b = self.value(node[1], end), self.value(node[2], end)
            return a + b if kind == '+' else a - b
        if kind == 'range':
            start, step, stop = (self.value(n, end) for n in node[1:])
            out = []
            while step > 0 and start <= stop or step < 0 and start >= stop:
                out.append(start)
                start += step
            return out
        if kind == 'cell':
            return Cell(self.values(node[1], end))
        if kind == 'matrix':
            return list(self.values(node[1], end))
        if kind == 'handle':
            return ('handle', node[1])
        if kind == 'name':
            try:
                return self.lookup(node[1])
            except KeyError:
                return self.run(node[1], ())
        if kind == 'cell index':
            cell = self.value(node[1])
            if not isinstance(cell, Cell):
                raise MatlabExecutionError('Brace indexing is not supported')
            return Expand(cell[i] for i in select(self.value(node[2][0], len(cell)), len(cell)))
        if kind == 'call':
            return self.function(node[1][1], node[2], end)
        raise MatlabExecutionError('cannot interpret %r' % (node,))

    def values(self, nodes, end=None):
        out = []
        for n in nodes:
            v = self.value(n, end)
            out.extend(v) if isinstance(v, Expand) else out.append(v)
        return out

    def function(self, name, nodes, end):
        if name in ('subsref', 'subsasgn'):
            target = self.value(nodes[0], end)
            if isinstance(target, Expand):
                target, = target
            n = len(target.items) if isinstance(target, Struct) else len(target) if isinstance(target, (list, Cell)) else 1
            how = self.value(nodes[1], n).items
            if len(how) != 1:
                raise MatlabExecutionError(name)
            kind, subs = how[0]['type'], how[0]['subs']
            if name == 'subsasgn':
                if kind != '.' or not isinstance(target, Struct) or len(target.items) != 1:
                    raise MatlabExecutionError(name)
                out = copy.deepcopy(target)
                out.items[0][subs] = copy.deepcopy(self.value(nodes[2], end))
                return out
            if kind == '.':
                if isinstance(target, Table) and subs in target:
                    return target[subs]
                if not isinstance(target, Struct) or len(target.items) != 1 or subs not in target.items[0]:
                    raise MatlabExecutionError('Reference to non-existent field %r' % subs)
                return target.items[0][subs]
            if isinstance(subs, str) and subs != ':':
                p = Parser('{' + subs + '}')
                subs = self.value(p.finish(p.range()), n)
            subs = [subs] if not isinstance(subs, Cell) else list(subs)
            if len(subs) == 2 and subs[0] == 1.:
                subs = subs[1:]               # (rows of one)
            if len(subs) != 1:
                raise MatlabExecutionError('Index in position 1 exceeds array bounds')
            chosen = select(subs[0], n)
            if kind == '()' and isinstance(target, Struct):
                return Struct(*[target.items[i] for i in chosen])
            if kind == '{}' and isinstance(target, Cell):
                return target[chosen[0]] if len(chosen) == 1 else Expand(target[i] for i in chosen)
            raise MatlabExecutionError('%s of %r' % (kind, type(target)))
        if name == 'functions':
            handle = self.value(nodes[0])[1]
            if any(not isinstance(n, tuple) or n[0] != 'handle' for n in nodes):
                raise MatlabExecutionError('not a handle')
            return {'function': handle, 'type': 'simple', 'file': handle + '.m' if handle in self.functions else ''}
        args = self.values(nodes, end)
        if name == 'struct':
            out = {}
            for k, v in zip(args[::2], args[1::2]):
                if isinstance(v, Cell):
                    if len(v) != 1:
                        raise MatlabExecutionError('an array of structures')
                    v = v[0]
                out[k] = v
            return Struct(out)
        v = args[0] if args else None
        if name == 'isstruct':
            return isinstance(v, Struct)
        if name == 'iscell':
            return isinstance(v, Cell)
        if name == 'istable':
            return isinstance(v, Table)
        if name in ('isscalar', 'numel', 'size'):
            n = len(v.items) if isinstance(v, Struct) else len(v) if isinstance(v, list) else 1
            return n == 1 if name == 'isscalar' else float(n) if name == 'numel' else [1., float(n)]
        if name == 'fieldnames':
            return list(v if isinstance(v, Table) else v.items[0])
        if name == 'clear':
            self.variables.pop(v, None)
            return None
        return self.run(name, tuple(args))


ENGINES = {}


def start_matlab(option='-nodesktop'):
    return connect_matlab('started')


def connect_matlab(name=None):
    if name is None:
        name = sorted(ENGINES)[0]
    if name not in ENGINES:
        raise EngineError('Unable to connect to %r' % name)
    return ENGINES[name]


class EngineError(Exception):
    pass


def install():
    m, e = types.ModuleType('matlab'), types.ModuleType('matlab.engine')
    m.engine = e
    e.MatlabExecutionError, e.MatlabEngine, e.EngineError = MatlabExecutionError, Engine, EngineError
    e.start_matlab, e.connect_matlab = start_matlab, connect_matlab
    sys.modules['matlab'], sys.modules['matlab.engine'] = m, e


install()

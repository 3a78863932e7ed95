"""Canonical form of an object graph: values plus aliasing structure of mutable objects, independent of identities."""
import enum
import types

import numpy as np
import pandas as pd


def num(x):
    if isinstance(x, (bool, np.bool_)):
        return 'T' if x else 'F'
    if isinstance(x, (int, np.integer)):
        return '%d' % x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return 'nan'
        return repr(round(x, 12) + 0.)
    return repr(x)


def canon(obj, skip=(), memo=None):
    memo = {} if memo is None else memo
    if obj is None or isinstance(obj, (str, bytes)):
        return repr(obj)
    if isinstance(obj, (bool, int, float, complex, np.generic)):
        return num(obj)
    if isinstance(obj, (type, types.FunctionType, types.BuiltinFunctionType, types.MethodType, enum.Enum)):
        return getattr(obj, '__qualname__', repr(obj))
    if id(obj) in memo:
        return '@%d' % memo[id(obj)][0]
    memo[id(obj)] = (len(memo), obj)
    if isinstance(obj, pd.Series):
        return ('S', tuple(canon(i, skip, memo) for i in obj.index), tuple(canon(v, skip, memo) for v in obj.tolist()))
    if isinstance(obj, pd.DataFrame):
        return ('D', tuple(map(str, obj.index)), tuple(map(str, obj.columns)),
                tuple(canon(v, skip, memo) for v in obj.values.ravel().tolist()))
    if isinstance(obj, pd.Index):
        return ('I', tuple(map(str, obj)))
    if isinstance(obj, np.ndarray):
        return ('A', obj.shape, tuple(canon(v, skip, memo) for v in obj.ravel().tolist()))
    if isinstance(obj, dict):
        return ('d', tuple(sorted((repr(k), canon(v, skip, memo)) for k, v in obj.items())))
    if isinstance(obj, (list, tuple)) or type(obj).__name__ == 'deque':
        return (type(obj).__name__[0], tuple(canon(v, skip, memo) for v in obj))
    if isinstance(obj, (set, frozenset)):
        return ('s', tuple(sorted(repr(canon(v, skip, memo)) for v in obj)))
    state = getattr(obj, '__dict__', None)
    if state is not None:
        return ('O', type(obj).__name__,
                tuple((k, canon(v, skip, memo)) for k, v in sorted(state.items()) if k not in skip))
    return ('?', type(obj).__name__)

"""Scripted components shared by several checks."""
import numpy as np
import pandas as pd

from qtune.solver import Solver


class ScriptSolver(Solver):
    """always requires the same displacement from its current position; logs what it is told"""

    def __init__(self, target, current_position, move, log=None):
        self._target = target
        self._current_position = current_position
        self._move = move
        self.log = log if log is not None else []

    def suggest_next_position(self, tuned_parameters=None):
        return self._current_position + self._move

    def update_after_step(self, position, values, variances):
        self.log.append((dict(position), dict(values), dict(variances)))
        self._current_position = position[self._current_position.index].copy()

    @property
    def state(self):
        return pd.Series(dtype=float)

    def to_hdf5(self):
        return dict(target=self._target, current_position=self._current_position, move=self._move)


def close(a, b, tol=1e-9):
    """dict-likes equal within tol, NaN equal NaN"""
    a, b = dict(a), dict(b)
    return set(a) == set(b) and all(
        (a[k] != a[k] and b[k] != b[k]) or abs(float(a[k]) - float(b[k])) <= tol * (1 + abs(float(b[k]))) for k in a)


def mid(a, b):
    return {g: .5 * (a[g] + b[g]) for g in a}

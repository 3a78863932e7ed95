"""The closed world around the code under test: a deterministic experiment with a call log and fault injection, and
small serializable evaluators. Only public interfaces of qtune are used."""
import copy

import pandas as pd
import numpy as np

from qtune.experiment import Experiment, Measurement
from qtune.evaluator import Evaluator


class LabFault(Exception):
    """the failure injected into an experiment call"""


class Lab(Experiment):
    """A deterministic experiment. `response` maps measurement name -> function(dict of voltages) -> value(s)."""

    def __init__(self, voltages: dict, response=None, faults=(), log=None):
        self.voltages = {k: float(v) for k, v in voltages.items()}
        self.response = response or {}
        self.faults = set(faults)
        self.calls = 0
        self.log = log if log is not None else []
        self.fired = 0

    def clone(self):
        new = type(self)(self.voltages, self.response, self.faults, list(self.log))
        new.calls, new.fired = self.calls, self.fired
        return new

    def _call(self, *what):
        n = self.calls
        self.calls += 1
        if n in self.faults:
            self.fired += 1
            self.log.append(('fault',) + what)
            raise LabFault('injected at experiment call %d: %s' % (n, what[0]))
        self.log.append(what)

    @property
    def measurements(self):
        return tuple(Measurement(name) for name in self.response)

    @property
    def gate_voltage_names(self):
        return tuple(self.voltages)

    def read_gate_voltages(self):
        self._call('read')
        return pd.Series(self.voltages, dtype=float)

    def set_gate_voltages(self, new_gate_voltages):
        new = {k: float(v) for k, v in new_gate_voltages.items()}
        self._call('set', tuple(sorted(new.items())))
        self.voltages.update(new)
        return new_gate_voltages.copy()

    def measure(self, measurement):
        self._call('measure', measurement.name, tuple(sorted(self.voltages.items())))
        return self.response[measurement.name](dict(self.voltages))


class McEvaluator(Evaluator):
    """Measures each of its measurements once; measurement i yields the value (value, variance) of parameter i."""

    def __init__(self, experiment, measurements, parameters, raw_x_data=None, raw_y_data=None, name='McEvaluator'):
        super().__init__(experiment=experiment, measurements=measurements, parameters=parameters,
                         raw_x_data=raw_x_data, raw_y_data=raw_y_data, name=name)

    def evaluate(self):
        values, variances, raw = [], [], []
        for m in self.measurements:
            value, variance = self.experiment.measure(m)
            values.append(value)
            variances.append(variance)
            raw.append([value, variance])
        self._raw_y_data = np.array(raw, dtype=float)
        self._raw_x_data = np.arange(len(raw), dtype=float)
        return (pd.Series(values, index=list(self.parameters), dtype=float),
                pd.Series(variances, index=list(self.parameters), dtype=float))

    def process_raw_data(self, raw_data):
        raise NotImplementedError()

    def to_hdf5(self):
        return dict(experiment=self.experiment, measurements=self.measurements, parameters=self.parameters,
                    raw_x_data=self._raw_x_data, raw_y_data=self._raw_y_data, name=self.name)


def clone(lab, *objects):
    """independent copy of the experiment and of everything using it (aliasing between the objects is kept)"""
    new = lab.clone()
    return (new,) + copy.deepcopy(objects, {id(lab): new})


def evaluator(lab, *parameters, name=None):
    return McEvaluator(lab, [Measurement('m_' + p) for p in parameters], parameters,
                       name=name or 'eval_' + '_'.join(parameters))


def series(d, order=None):
    return pd.Series([float(d[k]) for k in (order or d)], index=list(order or d), dtype=float)


def same(a, b, tol=1e-9):
    """equality of scalars / series (by label) / None, NaN equal to NaN"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, pd.DataFrame):
        return (isinstance(b, pd.DataFrame) and set(a.index) == set(b.index) and set(a.columns) == set(b.columns)
                and np.allclose(a.values.astype(float), b.loc[a.index, a.columns].values.astype(float), rtol=tol, atol=tol,
                                equal_nan=True))
    if isinstance(a, (pd.Series, dict)):
        a = dict(a)
        b = dict(b)
        if set(a) != set(b):
            return False
        return all(same(a[k], b[k], tol) for k in a)
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))

"""fifth batch: the MATLAB bridge"""
HEAD = '''
import standin
from standin import Engine, Struct, Cell, MatlabExecutionError, ENGINES
import numpy as np
import pandas as pd
import qtune.sm as sm
import qtune.sm_tune_qqd as qqd
import qtune.mat2py as mat2py
from qtune.experiment import Measurement
at = dict(C=-.1, A=-.2, B=-.3)
def write(new):
    at.update(new)
    return dict(at)
asked = []
def tune(*args):
    asked.append(args)
    return Struct(dict(ana=Struct(dict(width=float(len(asked)), position=1., visiblity=1.)), args=Struct(dict(fullFile='f'))))
scans = []
def scan(options):
    scans.append(options)
    return [[1.]]
engine = Engine('mine', {'qtune.find_qtune': sm.matlab_files_path, 'qtune.read_gate_voltages': lambda: dict(at), 'qtune.set_gates_v_pretuned': write,
                         'qtune.read_qqd_gate_voltages': lambda: dict(at), 'qtune.set_qqd_gate_voltages': write, 'tune.tune': tune,
                         'qtune.PythonChargeLineScan': scan}, {'smdata': Struct({})})
ENGINES['mine'] = engine
session = sm.SpecialMeasureMatlab(connect='mine', silently_overwrite_path=True)
'''


def bug(id, file, edits, needs, breaks, demo):
    return dict(id=id, property='C24', file=file, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo)


BUGS = [
    bug('C24-write-order', 'qtune/sm.py', [("        current_gate_voltages[new_gate_voltages.index] = new_gate_voltages[new_gate_voltages.index]\n        current_gate_voltages = self._matlab",
                                            "        current_gate_voltages[current_gate_voltages.index.isin(new_gate_voltages.index)] = new_gate_voltages.values\n        current_gate_voltages = self._matlab")],
        'voltages handed in in an order which is not alphabetical', 'voltages are written to the wrong gates', '''
sm.LegacyDQDRefactored(session).set_gate_voltages(pd.Series([-.5, -.6], ['C', 'A']))
assert at == dict(C=-.5, A=-.6, B=-.3), at
'''),
    bug('C24-pair-order', 'qtune/sm_tune_qqd.py', [("            keys = list(options.keys())\n", "            keys = sorted(options)\n")],
        'options given in an order which is not alphabetical', 'the values of the options are sent under each other\'s names', '''
e = qqd.SMTuneQQD(session)
e.measure(Measurement('line', index=1, range=2., center=3.))
sent = asked[0][2:]
assert dict(zip(sent[::2], sent[1::2])) == dict(range=2., center=3.), sent
'''),
    bug('C24-array-layout', 'qtune/sm.py', [("            raw = bytes(obj)\n", "            raw = obj.tobytes(order='A')\n")],
        'an array in the column order of Fortran (e.g. transposed)', 'the elements of the array are rearranged', '''
a = np.arange(6.).reshape(2, 3).T
assert session.to_matlab(a).rows() == a.tolist(), session.to_matlab(a).rows()
'''),
    bug('C24-call-id', 'qtune/mat2py.py', [("    return time_part + '_' + unique_part[:8]\n", "    return time_part[:20]\n")],
        'two calls within a second, and the result of the first being read after the second call', 'the result of a measurement is overwritten by the next one', '''
e = qqd.SMTuneQQD(session)
for _ in range(6):
    one = e.measure(Measurement('line', index=1))
    n = len(asked)
    two = e.measure(Measurement('line', index=2))
    assert one['data'].ana.width == n and two['data'].ana.width == n + 1., (one['data'].ana.width, n)
'''),
    bug('C24-upper-limit', 'qtune/sm_tune_qqd.py', [("positions[i] < self._min_position.iloc[i] or positions[i] > self._max_position.iloc[i]",
                                                     "positions[i] < self._min_position.iloc[0] or positions[i] > self._max_position.iloc[0]")],
        'different limits for the two positions', 'the second position is checked against the limits of the first', '''
f = engine.functions['tune.tune'] = lambda *args: Struct(dict(ana=Struct(dict(position=1., visiblity=1.), dict(position=5., visiblity=1.)), args=Struct(dict(fullFile='f'))))
r = qqd.QQDResp(qqd.SMTuneQQD(session), [Measurement('resp', index=1)], ['a', 'b'], 'r', min_position=pd.Series([0., 4.], ['a', 'b']), max_position=pd.Series([2., 6.], ['a', 'b']))
assert list(r.evaluate()[0]) == [1., 5.], r.evaluate()[0]
'''),
    bug('C24-options-kept', 'qtune/sm.py', [("""        if measurement.name == 'line_scan':
            parameters = measurement.options.copy()
""", """        if measurement.name == 'line_scan':
            parameters = measurement.options
""")],
        'a measurement that is used twice or stored', 'the options of the measurement grow by the name of a file', '''
m = Measurement('line_scan', center=0., range=1.)
sm.LegacyDQDRefactored(session).measure(m)
assert m.options == dict(center=0., range=1.), m.options
'''),
    bug('C24-connect-twice', 'qtune/sm.py', [("                engine = matlab.engine.connect_matlab(connect)\n", "                return matlab.engine.connect_matlab(connect)\n")],
        'connecting twice to the same session by its name', 'the second connection is refused, as MATLAB allows only one', '''
ENGINES.clear()
again = sm.SpecialMeasureMatlab(connect='mine', silently_overwrite_path=True)
assert again.engine is engine
'''),
    bug('C24-failed-write', 'qtune/sm_tune_qqd.py', [("""        self._matlab.engine.qtune.set_qqd_gate_voltages(gate_voltages_to_matlab)

        return self.read_gate_voltages()  # set_qqd_gate_voltages
""", """        try:
            self._matlab.engine.qtune.set_qqd_gate_voltages(gate_voltages_to_matlab)
        finally:
            return self.read_gate_voltages()  # set_qqd_gate_voltages
""")],
        'a write that MATLAB refuses (e.g. too large a step)', 'the refusal is not reported', '''
def refuse(new):
    raise MatlabExecutionError('too far')
engine.functions['qtune.set_qqd_gate_voltages'] = refuse
try:
    qqd.SMTuneQQD(session).set_gate_voltages(pd.Series([-.5], ['A']))
except MatlabExecutionError:
    pass
else:
    raise SystemExit('no error')
'''),
]

"""C22: parallel reading under every schedule of the worker threads.

The real reader and the real thread pool run under the controlled scheduler; every loaded object decides in its constructor
(by an explored choice) which thread goes on, so that every order in which the reads can finish occurs; on top
of that preemptions at synchronisation operations are enumerated.
"""
import mc.sched as sched  # noqa  (must come first)

import itertools
import multiprocessing
import os
import shutil
import sys

from qtune.storage import HDF5Serializable, ParallelHDF5Reader, from_hdf5, to_hdf5

from mc.core import enumerate_tree, scratch
from mc.setups import HIERARCHIES  # noqa  (imports every module the reader imports)
import qtune.evaluator  # noqa

TECHNIQUE = 'stateless model checking of the real code: exhaustive enumeration of the schedules of the reading threads x failing files'
LEVEL = 'model_checking'
RULE = ('an execution is one list of files (with missing, damaged or unreadable ones) read with one number of workers under one schedule; '
        'a state is the sequence of contents obtained so far; a transition is one switch of threads')
BOUNDS = {'quick': 'every completion order of up to 4 files with 1 to 4 workers, with every failing subset (4 files: one failing); in addition 1 deviating switch '
                   'for up to 2 files (3 files: 2 workers, one failing), 2 for 1 file (2 files: 2 workers); every request order of 3 files',
          'thorough': 'the same with every failing subset, 1 deviating switch for 3 files (4 files: 2 workers, one failing), 2 for 2 files (3 files: 2 workers, one failing)'}
ASSUMPTIONS = ['the threaded mode is explored; the multi-process mode runs every order of 3 files once', 'switches inside h5py are not explored']
LIMIT = {'quick': 300, 'thorough': 3000}
ORDER = []


class McSlow(metaclass=HDF5Serializable):
    """loading takes an arbitrary time"""

    def __init__(self, number=None, fail=False):
        self.number = number
        self.fail = fail
        task = sched.current_task()
        if task is not None:
            task.sched.block(task, lambda: True, free=True)
        ORDER.append(int(number))
        if fail:
            raise LookupError('cannot be created')

    def to_hdf5(self):
        return dict(number=self.number, fail=self.fail)


def chunks(tier):
    out = []
    for n in range(0, 5):
        for workers in range(1, 5):
            for kinds in itertools.product('gmdc', repeat=n):      # good, missing, damaged, constructor raises
                bad = sum(k != 'g' for k in kinds)
                if n < 4 or bad < 2 or tier == 'thorough':
                    out.append((n, workers, ''.join(kinds), 0))
                if n < 3 or n == 3 and bad < 2 and workers < 3 or tier == 'thorough' and (n == 3 or workers < 3 and bad < 2):
                    out.append((n, workers, ''.join(kinds), 1))
                if n < 2 or tier == 'thorough' and (n == 2 or n == 3 and workers < 3 and bad < 2):
                    out.append((n, workers, ''.join(kinds), 2))
                if n == 2 and tier == 'quick' and workers == 2:
                    out.append((n, workers, ''.join(kinds), 2))
    out += [('order', p) for p in itertools.product(range(3), repeat=3)]
    out.append(('processes',))
    return out


def explore(chunk, rec):
    sys.unraisablehook = lambda *a: None
    root = scratch('c22')
    try:
        if chunk[0] == 'order':
            return x_order(chunk, rec, root)
        if chunk[0] == 'processes':
            return x_processes(chunk, rec, root)
        n, workers, kinds, preemptions = chunk
        files = [os.path.join(root, 'f%d' % i) for i in range(n)]
        for i, (f, k) in enumerate(zip(files, kinds)):
            write(f, i, k)

        def run(choose):
            execute(files, list(range(n)), kinds, workers, preemptions, choose, rec)
        rec.note('schedules', enumerate_tree(run))
        rec.sample(repr(rec.current))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def write(f, i, kind='g'):
    if kind == 'd':
        with open(f, 'wb') as x:
            x.write(b'this is not an HDF5 file')
    elif kind != 'm':
        to_hdf5(f, 'it', make(i, kind == 'c'))


def make(i, fail):
    obj = McSlow.__new__(McSlow)
    obj.number, obj.fail = i, fail
    return obj


def execute(files, numbers, kinds, workers, preemptions, choose, rec):
    ORDER.clear()
    got, error = [], []
    external = object()

    def main():
        with ParallelHDF5Reader(reserved={'ext': external}, multiprocess=False, max_workers=workers) as reader:
            try:
                for x in reader.read_iter(iter(files)):
                    got.append(x)
                    rec.state((kinds, numbers, workers, tuple(ORDER), len(got)))
            except Exception as err:  # noqa
                error.append(err)

    s = sched.Scheduler(choose, preemptions, files=('qtune/storage.py',), skip=lambda code: 'hdf5' in code.co_name.lower() or 'import' in code.co_name, free=False)
    task = s.run(main)
    rec.current = (files and [os.path.basename(f) for f in files], kinds, workers, tuple(ORDER), tuple(s.decisions))
    rec.transition(s.switches)
    if s.failure:
        rec.violation(s.failure)
    elif task.error is not None:
        rec.violation('%s: %s' % (type(task.error).__name__, task.error))
    else:
        first = next((i for i, k in enumerate(kinds) if k != 'g'), None)
        want = [dict(it=i) for i in numbers[:first]]
        have = [{k: getattr(v, 'number', v) for k, v in x.items()} for x in got]
        rec.require(have == want, lambda: 'obtained %r instead of %r' % (have, want))
        if first is None:
            rec.require(not error, lambda: 'unexpected error %r' % error)
        else:
            ok = error and (isinstance(error[0], LookupError) if kinds[first] == 'c' else isinstance(error[0], OSError))
            rec.require(ok, lambda: 'file %d cannot be read (%s), but the error is %r' % (first, kinds[first], error))
        alive = [t.name for t in s.tasks if not t.finished]
        rec.require(not alive, lambda: 'still running: %r' % alive)
    rec.execution(key=rec.current, outcome=(kinds, workers, tuple(ORDER)))
    rec.trace()


def x_order(chunk, rec, root):
    """files requested in any order, also repeatedly"""
    files = [os.path.join(root, 'f%d' % i) for i in range(3)]
    for i, f in enumerate(files):
        write(f, i)
    order = chunk[1]

    def run(choose):
        execute([files[i] for i in order], list(order), 'ggg', 2, 0, choose, rec)
    enumerate_tree(run)


def x_processes(chunk, rec, root):
    multiprocessing.current_process()._config['daemon'] = False
    files = [os.path.join(root, 'f%d' % i) for i in range(3)]
    for i, f in enumerate(files):
        to_hdf5(f, 'it', {'n': i, 'x': [float(i)]})
    for workers in (1, 2, 3):
        with ParallelHDF5Reader(reserved={}, multiprocess=True, max_workers=workers) as reader:
            for order in itertools.product(range(3), repeat=3):
                rec.current = ('processes', workers, order)
                got = list(reader.read_iter([files[i] for i in order]))
                rec.require([g['it']['n'] for g in got] == list(order), lambda: 'obtained %r' % got)
                rec.require(all(g == from_hdf5(files[i], reserved={}) for g, i in zip(got, order)), 'not equal to reading the file alone')
                rec.execution(key=rec.current, outcome=rec.current)
                rec.transition(3)
                rec.trace()
    rec.sample(repr(rec.current))

"""C09: the background writer under every schedule.

Caller programs (submissions followed by changes of the submitted object, failing submissions, waiting, restarting,
disposing) run against the real writer; caller and background thread are real threads switched by a controlled scheduler
at every synchronisation operation and before every line of the writer; all schedules within the preemption bound are
executed.
"""
import mc.sched as sched  # noqa  (must come first)

import gc
import itertools
import logging
import multiprocessing
import os
import sys
import warnings

import h5py
import pandas as pd

from qtune.storage import AsynchronousHDF5Writer, HDF5Serializable, from_hdf5

from mc.core import enumerate_tree, scratch

TECHNIQUE = 'stateless model checking of the real code: exhaustive enumeration of thread schedules (preemption bounded) x caller programs with injected write failures'
LEVEL = 'model_checking'
RULE = ('an execution is one caller program under one schedule; a state is a (program, schedule prefix) outcome: what is written and reported '
        'when the program has ended; a transition is one switch of threads')
BOUNDS = {'quick': 'all programs of up to 3 operations out of write+change, failing write, wait, restart (then wait or dispose) with 2 preemptions, 1 operation with 3, 4 operations with 1 preemption',
          'thorough': 'programs of up to 4 operations with 2 preemptions, up to 2 operations with 3, 1 with 4, 5 operations with 1, 6 with 0'}
ASSUMPTIONS = ['the threaded mode of the writer, which is the one the tuner uses, is explored; the multi-process mode only runs its operation '
               'sequences once', 'switches inside h5py and copy are not explored']
LIMIT = {'quick': 300, 'thorough': 3000}
QUIET = False

OPS = 'WFJR'
WRITTEN = []      # appended by the objects when they are written
REPORTED = []     # error messages


class McPayload(metaclass=HDF5Serializable):
    def __init__(self, number=None, content=None, fail=False, external=None):
        self.number, self.content, self.fail, self.external = number, content, fail, external

    def to_hdf5(self):
        WRITTEN.append((self.number, [float(v) for v in self.content['x']], list(self.content['y'])))
        if self.fail:
            raise OSError('disk full')
        return dict(number=self.number, content=self.content, external=self.external)


class McExternal:
    """stands for an experiment"""


class Handler(logging.Handler):
    def emit(self, record):
        if record.levelno >= logging.ERROR:
            REPORTED.append(record.getMessage())


def chunks(tier):
    plans = [(1, 3), (2, 2), (3, 2), (4, 1)] if tier == 'quick' else [(1, 4), (2, 3), (3, 2), (4, 2), (5, 1), (6, 0)]
    for length, preemptions in plans:
        for ops in itertools.product(OPS, repeat=length):
            if 'W' not in ops and 'F' not in ops and length > 2:
                continue
            for end in ('J', 'D'):
                if length >= 5 and end == 'D':
                    continue
                yield 'threads', ''.join(ops), end, preemptions
    yield 'processes',


def explore(chunk, rec):
    globals()['x_' + chunk[0]](chunk, rec)


def setup():
    logger = logging.getLogger('qtune')
    if not any(isinstance(h, Handler) for h in logger.handlers):
        logger.addHandler(Handler(level=logging.ERROR))
        logger.propagate = False
    sys.unraisablehook = lambda *a: None
    import qtune.storage
    if hasattr(qtune.storage, 'get_version'):
        qtune.storage.get_version = lambda: 'model-checking'
    warnings.simplefilter('ignore')


def x_threads(chunk, rec):
    setup()
    _, ops, end, preemptions = chunk

    def run(choose):
        execute(ops, end, preemptions, choose, rec)
    rec.note('schedules', enumerate_tree(run))
    rec.sample(repr(rec.current))


def execute(ops, end, preemptions, choose, rec):
    WRITTEN.clear()
    REPORTED.clear()
    handles = [h5py.File('c09_%d' % i, 'w', driver='core', backing_store=False) for i in range(len(ops))]
    external = McExternal()
    accepted, events, problems = [], [], []
    s = sched.Scheduler(choose, preemptions, files=('qtune/storage.py',), skip=lambda code: 'hdf5' in code.co_name.lower())
    rec.current = (ops, end, s.decisions)

    def waited(what):
        """called when waiting for the writer has returned"""
        failed = [n for n, f in accepted if f]
        if failed and failed[0] in [w[0] for w in WRITTEN]:
            if not REPORTED:
                problems.append('%s returned, a write failed and nothing was reported' % what)
        elif [n for n, _ in accepted] != [w[0] for w in WRITTEN]:
            if failed and REPORTED:
                return
            problems.append('%s returned, accepted %r but written only %r' % (what, accepted, [w[0] for w in WRITTEN]))

    def main():
        writer = AsynchronousHDF5Writer(reserved={'external': external}, multiprocess=False)
        stopped = False
        for i, op in enumerate(ops):
            if op in 'WF':
                payload = McPayload(i, {'x': pd.Series([i + .25, i + .5], index=['a', 'b']), 'y': [i]}, op == 'F', external)
                try:
                    writer.write(payload, handles[i], name='n%d' % i)
                except RuntimeError as err:
                    events.append('refused %d' % i)
                    if not stopped and not any(f for _, f in accepted):
                        problems.append('write %d refused although the writer is running: %s' % (i, err))
                else:
                    events.append('accepted %d' % i)
                    accepted.append((i, op == 'F'))
                    if stopped:
                        problems.append('write %d accepted by a stopped writer' % i)
                # the caller goes on changing its object
                payload.content['x']['a'] = -1.
                payload.content['y'].append(-1.)
                payload.content['y'][0] = -1.
                payload.fail = False
                payload.number = -1
            elif op == 'J':
                writer.join()
                waited('join')
                stopped = True
            elif op == 'R':
                writer.restart()
                waited('restart')
                stopped = False
                accepted[:] = [a for a in accepted if a[0] in [w[0] for w in WRITTEN] and not a[1]]  # failures are over
                if len(accepted) != len(WRITTEN):
                    WRITTEN[:] = [w for w in WRITTEN if w[0] in [a[0] for a in accepted]]
        if end == 'J':
            writer.join()
            waited('join')
        del writer
        gc.collect() if end == 'D' and len(s.tasks) > 1 and not s.tasks[1].finished else None
        waited('disposal')

    task = s.run(main)
    rec.current = (ops, end, tuple(s.decisions))
    rec.transition(s.switches)
    if s.failure:
        rec.violation(s.failure)
    elif task.error is not None:
        rec.violation('%s: %s' % (type(task.error).__name__, task.error))
    for p in problems:
        rec.violation(p)
    if not s.failure:
        alive = [t.name for t in s.tasks if not t.finished]
        rec.require(not alive, lambda: 'still running: %r' % alive)
        numbers = [w[0] for w in WRITTEN]
        rec.require(numbers == sorted(set(numbers)), lambda: 'written in the order %r' % numbers)
        fails = {i for i, op in enumerate(ops) if op == 'F'}
        for number, x, y in WRITTEN:
            rec.require(x == [number + .25, number + .5] and y == [number],
                        lambda: 'object %d was written with the content %r %r' % (number, x, y))
        good = [n for n in numbers if n not in fails]
        if good:
            for n in good:
                loaded, name = from_hdf5(handles[n], reserved={'external': external}), 'n%d' % n
                ok = name in loaded and (loaded[name].number == n and list(loaded[name].content['x']) == [n + .25, n + .5]
                                         and loaded[name].external is external)
                rec.require(ok, lambda: 'object %d is not in the file' % n)
    for h in handles:
        h.close()
    rec.execution(key=rec.current, outcome=(ops, end, tuple(events), tuple(map(str, WRITTEN)), len(REPORTED)))
    rec.state((ops, end, tuple(events), tuple(map(str, WRITTEN)), tuple(s.decisions)))
    rec.trace()


def x_processes(chunk, rec):
    """the multi-process mode: every operation sequence once, without failing writes"""
    setup()
    multiprocessing.current_process()._config['daemon'] = False      # allow the writer to start its process
    root = scratch('c09')
    for n in range(1, 4):
        for ops in itertools.product('WJR', repeat=n):
            rec.current = ('processes', ops)
            writer = AsynchronousHDF5Writer(reserved={}, multiprocess=True)
            stopped, want = False, {}
            for i, op in enumerate(ops):
                if op == 'W':
                    path = os.path.join(root, '%s_%d.hdf5' % (''.join(ops), i))
                    payload = {'x': pd.Series([i + .25], index=['a']), 'y': [i]}
                    try:
                        writer.write(payload, path, name='it')
                    except RuntimeError:
                        rec.require(stopped, 'refused by a running writer')
                    else:
                        rec.require(not stopped, 'accepted by a stopped writer')
                        want[path] = i
                    payload['x']['a'] = -1.
                    payload['y'].append(1)
                elif op == 'J':
                    writer.join()
                    stopped = True
                else:
                    writer.restart()
                    stopped = False
            writer.join()
            for path, i in want.items():
                rec.require(os.path.exists(path), 'not written')
                got = from_hdf5(path, reserved={})['it']
                rec.require(got['x']['a'] == i + .25 and got['y'] == [i], lambda: 'wrong content %r' % got)
            del writer
            rec.execution(key=rec.current, outcome=rec.current)
            rec.state(rec.current)
            rec.transition(len(ops))
            rec.trace()

"""C10: the history recorded live and the history loaded from the checkpoints.

Real runs with real checkpoint files. After every step the tuner is handed to a live history; the table obtained by adding
the checkpoint files one by one is compared after every step, the one obtained from the directory for prefixes of
the run, for every order in which the files can be read, and for resumed runs.
"""
import concurrent.futures
import itertools
import os
import shutil
from unittest import mock

import qtune.history
from qtune.autotuner import load_auto_tuner
from qtune.history import History

from mc.checks.c07 import user_event
from mc.core import scratch
from mc.hist import HIERARCHIES, build, difference, number, table
from mc.setups import LABS

TECHNIQUE = 'exhaustive enumeration of bounded tuning histories with real checkpoint files x reading orders x interruption points, differential oracle'
LEVEL = 'model_checking'
RULE = ('an execution is one run (set-up x experiment x user events) followed to one length, or one order of reading its files, or one '
        'interruption point; a state is the table of the history')
BOUNDS = {'quick': '17 set-ups x 2 experiments, runs of up to 14 steps, user event after 4 steps; all 24 completion orders of the first 4 files (4 set-ups), 3 orders of the whole '
                   'directory; interruption at every fourth step',
          'thorough': '17 set-ups x 4 experiments, runs of up to 40 steps, user event at 8 positions; all 120 completion orders of the first 5 files, interruption at every step'}
ASSUMPTIONS = ['names of parameters, gates and evaluators are distinct and contain no #',
               'the completion order of reads is controlled through the thread pool; schedules inside one read are covered by C22']
LIMIT = {'quick': 400, 'thorough': 3000}


def chunks(tier):
    for h in HIERARCHIES:
        for l in (LABS if tier == 'thorough' else ('curved', 'far')):
            for at in ((None, 4) if tier == 'quick' else (None, 1, 2, 3, 4, 5, 6, 8, 11)):
                for what in (('move', 'retarget') if at is not None else (None,)):
                    if tier == 'quick' and at is not None and l != 'far':
                        continue
                    yield h, l, at, what, tier


class OrderedPool(concurrent.futures.Executor):
    """runs the submitted reads one after another in a given order, as late as possible"""
    order = ()

    def __init__(self, *args, **kwargs):
        self.tasks = []

    def submit(self, fn, *args, **kwargs):
        pool = self

        class Late(concurrent.futures.Future):
            def result(self, timeout=None):
                pool.run_until(self)
                return super().result(0)
        future = Late()
        self.tasks.append([future, fn, args, kwargs])
        return future

    def run_until(self, future):
        n = len(self.tasks)
        order = [i for i in self.order if i < n] + [i for i in range(n) if i not in self.order]
        for i in order:
            if future.done():
                return
            f, fn, args, kwargs = self.tasks[i]
            if not f.done():
                try:
                    f.set_result(fn(*args, **kwargs))
                except BaseException as err:  # noqa
                    f.set_exception(err)

    def shutdown(self, wait=True, **kwargs):
        for f, _, _, _ in self.tasks:
            self.run_until(f)


def explore(chunk, rec):
    root = scratch('c10')
    try:
        runs(chunk, rec, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def runs(chunk, rec, root):
    hierarchy, lab_name, event_at, what, tier = chunk
    quick = tier == 'quick'
    run_root = os.path.join(root, 'run')
    at, lab = build(hierarchy, lab_name, hdf5_storage_path=run_root)
    live = History(None, lab)
    file_by_file = History(None, lab)
    beforehand = History(None, lab)
    beforehand.append_autotuner(at)         # (as the control window does for a new tuner)
    tables, paths, labs, points, reload_paths = [], [], [], [], []

    def step(at, lab, k, history):
        if k == event_at:
            user_event(at, lab, what)
        if at.is_tuning_complete():
            return False
        evaluating = at.voltages_to_set is None and not at.current_tuner_status
        at.iterate()
        if evaluating:
            point = tuple(sorted(lab.voltages.items()))
            if not points or points[-1] != point:
                points.append(point)
        at.asynchrone_writer.restart()
        history.append_autotuner(at)
        rec.transition()
        return True

    for k in range(14 if quick else 40):
        rec.current = (chunk, 'after step', k)
        if not step(at, lab, k, live):
            break
        paths.append(at.last_save_file)
        labs.append(lab.clone())
        tables.append(table(live))
        reload_paths[len(points) - 1:] = [os.path.realpath(paths[-1])]
        rec.require(tables[-1]['paths'] == tuple(reload_paths), lambda: 'reload paths %r, the last states at these voltages were saved to %r' % (tables[-1]['paths'], reload_paths))
        at_time = 1e9 - 1000. * k if k % 2 else 1e9 + 1000. * k
        os.utime(paths[-1], (at_time, at_time))         # (a copied library: the times of the files say nothing)
        rec.state((chunk[:2], tuple(sorted(tables[-1].items()))))
        file_by_file.load_file(paths[-1])
        got = table(file_by_file)
        rec.require(got == tables[-1], lambda: 'recorded live / file by file: %s' % difference(tables[-1], got))
        beforehand.append_autotuner(at)
        got = table(beforehand)
        rec.require(got == tables[-1], lambda: 'recorded from the first step / already before it: %s' % difference(tables[-1], got))
        rec.require(tables[-1]['rows'] == len(points) == tables[-1]['raw rows'], lambda: '%d rows (%d of raw data) for %d visited points' % (
            tables[-1]['rows'], tables[-1]['raw rows'], len(points)))
        for g in tables[-1]['gates']:
            want = tuple(number(dict(p)[g]) for p in points)
            rec.require(tables[-1]['gate ' + g] == want, lambda: 'voltages of %s: %r, visited %r' % (g, tables[-1]['gate ' + g], want))
        if k % 4 == 1:
            live.append_autotuner(at)
            rec.require(table(live) == tables[-1], lambda: 'adding the same state again changes the history: %s' % difference(tables[-1], table(live)))
        rec.execution(key=rec.current, outcome=tuple(sorted(tables[-1].items())))
        rec.trace()
    total = len(tables)
    if not total:
        return

    def directory(n):
        path = os.path.join(root, 'first%d' % n)
        os.makedirs(path)
        os.makedirs(os.path.join(path, 'something else'))
        for p in paths[:n]:
            os.link(p, os.path.join(path, os.path.basename(p)))
        return path

    def compare(history, k, name):
        got = table(history)
        want = dict(tables[k])
        got['paths'] = tuple(os.path.basename(p) for p in got['paths'])
        want['paths'] = tuple(os.path.basename(p) for p in want['paths'])
        rec.require(got == want, lambda: 'recorded live / %s: %s' % (name, difference(want, got)))
        rec.execution(key=rec.current)
        rec.trace()

    rec.current = (chunk, 'the files, read one after another')
    entries = qtune.history.read_files(paths, {'experiment': lab})
    rec.require([n for n, _ in entries] == ['autotuner'] * total, lambda: 'entries of the files: %r' % [n for n, _ in entries])
    together = History(None, lab)
    for path, (_, tuner) in zip(paths, entries):
        together.append_autotuner(tuner, path)
    compare(together, total - 1, 'entries of the files')
    one = qtune.history.read_files(paths[0], {'experiment': lab})
    rec.require(len(one) == 1, lambda: 'entries of one file: %r' % one)

    # the directory, read for real
    listdir = os.listdir
    for n in sorted({1, total // 2, total} - {0} if quick else set(range(1, total + 1))):
        rec.current = (chunk, 'directory of', n)
        path = directory(n) if n < total else os.path.dirname(paths[0])
        compare(History(path, lab), n - 1, 'directory')
    # every order in which the reads of the first files can finish, every order in which the directory can list them
    few = min(total, 4 if quick else 5)
    if quick and (lab_name != 'curved' or hierarchy not in ('kalman', 'sensing', 'fd+self', 'scans+averaging')):
        orders = []
    else:
        orders = [(few, p) for p in itertools.permutations(range(few))]
    if not quick or event_at is None:
        orders += [(total, tuple(reversed(range(total)))), (total, tuple(range(1, total)) + (0,))]
    for n, order in orders:
        rec.current = (chunk, 'files read in the order', order)
        path = os.path.join(root, 'first%d' % n)
        path = path if os.path.isdir(path) else directory(n)

        def shuffled(p='.'):
            names = sorted(listdir(p))
            return [names[i] for i in order if i < len(names)] + [x for i, x in enumerate(names) if i not in order]
        with mock.patch('concurrent.futures.ThreadPoolExecutor', OrderedPool), mock.patch.object(OrderedPool, 'order', order), \
                mock.patch('os.listdir', shuffled):
            history = History(path, lab)
        compare(history, n - 1, 'directory')
    # resumed runs: the checkpoints of the continuation lie in a directory of their own
    for k in range(0, total, 1) if not quick else range(1, total, 4 if event_at is None else 7):
        rec.current = (chunk, 'interrupted after step', k)
        if os.path.isdir(os.path.join(root, 'first%d' % (k + 1))):
            shutil.rmtree(os.path.join(root, 'first%d' % (k + 1)))
        first = directory(k + 1)
        lab2 = labs[k].clone()
        at2 = load_auto_tuner(paths[k], reserved={'experiment': lab2})
        continued = History(first, lab2)
        compare(continued, k, 'directory')
        last = k
        for j in range(k + 1, min(total, k + 4) if quick else total):
            if not step(at2, lab2, j, continued):
                break
            last = j
            got, want = table(continued, False), {x: v for x, v in tables[j].items() if x != 'paths'}
            if not rec.require(got == want, lambda: 'uninterrupted / resumed run, step %d: %s' % (j, difference(want, got))):
                break
        if last > k:
            both = History(first, lab2)
            both.load_directory(os.path.dirname(at2.last_save_file))
            got, want = table(both), table(continued)
            rec.require(got == want, lambda: 'resumed run recorded live / both directories: %s' % difference(want, got))
        at2.asynchrone_writer.join()
        shutil.rmtree(first)
        rec.execution(key=rec.current)
        rec.trace()
    rec.sample(repr(rec.current))

"""C07: resuming from any checkpoint.

Runs of the real Autotuner with real checkpoint files; the interruption point (and a second one) is enumerated over every
step, the resumed run is compared step by step with the uninterrupted one. Checkpoint files are hashed when written and
at the end.
"""
import datetime
import glob
import hashlib
import os
import shutil
import time
from unittest import mock

import numpy as np
import pandas as pd

import qtune.util
from qtune.autotuner import load_auto_tuner

from mc.core import scratch
from mc.setups import HIERARCHIES, LABS, build, difference, observe
from mc.world import clone, series

TECHNIQUE = 'exhaustive enumeration of interruption points of real runs with real checkpoint files, differential oracle'
LEVEL = 'model_checking'
RULE = ('an execution is one run (set-up x experiment x user events at stated steps) x one interruption point, continued '
        'to the end (quick: up to 8 steps) and compared after every step; or a chain of interruptions after every step; or a pair of '
        'interruption points (all pairs in the thorough tier, distance <= 2 in the quick tier)')
BOUNDS = {'quick': '13 set-ups x 3 experiments, with and without a move+restart or target change, runs of up to 24 steps',
          'thorough': '13 set-ups x 4 experiments, user events at several steps, runs of up to 60 steps, all pairs of interruption points'}
ASSUMPTIONS = ['the background writer has written a checkpoint before the process is interrupted (C09)',
               'wall clock and performance counter of the machine do not run backwards']
LIMIT = {'quick': 400, 'thorough': 3000}


def events_of(tier):
    out = [()]
    for m in ((4, 9) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 9, 12)):
        out += [((m, 'move'),), ((m, 'retarget'),)]
    return out


def chunks(tier):
    for h in HIERARCHIES:
        for l in (LABS if tier == 'thorough' else ('curved', 'hole', 'far')):
            for events in events_of(tier):
                if tier == 'quick' and events and l != 'hole':
                    continue
                yield h, l, events, tier
    yield 'names', tier


def explore(chunk, rec):
    if chunk[0] == 'names':
        return names(chunk, rec)
    root = scratch('c07')
    try:
        runs(chunk, rec, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def digest_of(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def touched(log):
    return [c for c in log if c[0] in ('set', 'measure')]


def user_event(at, lab, what):
    if what == 'move':
        for k, g in enumerate(sorted(lab.voltages)):
            lab.voltages[g] += .05 * (k + 1)
        at.restart()
    else:
        changes = []
        for t in at.tuning_hierarchy:
            d = t.target['desired']
            changes.append({'desired': d.dropna() + .25, 'tolerance': t.target['tolerance'].dropna() * .5}
                           if d.notna().any() else {'minimum': t.target['minimum'] + .25})
        at.change_targets(changes)


class Files:
    """checkpoints seen so far"""

    def __init__(self, root, rec):
        self.root, self.rec, self.known, self.order = root, rec, {}, []

    def step(self, at):
        """exactly one new, later named checkpoint; nothing else altered. Returns its path."""
        at.asynchrone_writer.restart()      # waits until it is written
        present = {p for p in glob.glob(os.path.join(self.root, '**', '*'), recursive=True) if os.path.isfile(p)}
        new = present - set(self.known)
        self.rec.require(set(self.known) <= present, 'a checkpoint disappeared')
        if not self.rec.require(len(new) == 1 and at.last_save_file in new,
                                lambda: 'new files %r, reported checkpoint %r' % (new, at.last_save_file)):
            return None
        path, = new
        if self.order:
            self.rec.require(os.path.basename(path) > os.path.basename(self.order[-1]),
                             lambda: 'checkpoint %s written after %s' % (path, self.order[-1]))
        self.order.append(path)
        self.known[path] = digest_of(path)
        return path

    def unaltered(self):
        for p, d in self.known.items():
            self.rec.require(os.path.isfile(p) and digest_of(p) == d, 'checkpoint %s was altered by later steps' % p)


def runs(chunk, rec, root):
    hierarchy, lab_name, events, tier = chunk
    events = dict(events)
    horizon = 24 if tier == 'quick' else 60
    rec.current = (chunk, 'uninterrupted')
    at, lab = build(hierarchy, lab_name, hdf5_storage_path=root)
    files = Files(root, rec)
    labs, paths, observed, logs = [], [], [], []
    while len(logs) < horizon:
        k = len(logs)
        if k in events:
            user_event(at, lab, events[k])
        if at.is_tuning_complete():
            break
        lab.log.clear()
        at.iterate()
        rec.transition()
        logs.append(touched(lab.log))
        observed.append(observe(at))
        rec.state((chunk[:2], observed[-1]))
        path = files.step(at)
        if path is None:
            return
        paths.append(path)
        labs.append(lab.clone())
        lab.log.clear()
    files.unaltered()
    total = len(logs)

    def load(path, lab):
        lab.log.clear()
        at = load_auto_tuner(path, reserved={'experiment': lab})
        rec.require(all(c[0] == 'read' for c in lab.log), lambda: 'loading touched the experiment: %r' % lab.log)
        return at

    def compare(at, j):
        got = observe(at)
        return rec.require(got == observed[j], lambda: 'resumed run differs after step %d: %s' % (
            j, '; '.join(difference(got, observed[j]))))

    def step(at, lab, j):
        if j in events:
            user_event(at, lab, events[j])
        lab.log.clear()
        at.iterate()
        rec.transition()
        return rec.require(touched(lab.log) == logs[j], lambda: 'resumed run, step %d: calls %r, uninterrupted %r'
                           % (j, touched(lab.log), logs[j])) and compare(at, j)

    for k in range(total):
        rec.current = (chunk, 'interrupted after step', k)
        lab = labs[k].clone()
        at = load(paths[k], lab)
        if not compare(at, k):
            continue
        at.save_current_status = lambda: None         # plain continuation; continuation with saving below
        for j in range(k + 1, min(total, k + 9) if tier == 'quick' else total):
            if not step(at, lab, j):
                break
        rec.execution(key=rec.current, outcome=(hierarchy, lab_name, k))
        rec.trace()
    files.unaltered()
    # a new interruption after every step, resumed from the checkpoint of the resumed run
    rec.current = (chunk, 'interrupted after every step')
    lab = labs[0].clone()
    path = paths[0]
    for j in range(1, total):
        at = load(path, lab)
        if not step(at, lab, j):
            break
        path = files.step(at)
        if path is None:
            break
        at.asynchrone_writer.join()
    files.unaltered()
    rec.execution(key=rec.current)
    rec.trace()
    # pairs of interruption points
    for k in range(0, total, 1 if tier == 'thorough' else 3):
        lab = labs[k].clone()
        at = load(paths[k], lab)
        for j in range(k + 1, total if tier == 'thorough' else min(total, k + 3)):
            rec.current = (chunk, 'interrupted after steps', k, j)
            if not step(at, lab, j):
                break
            path = files.step(at)
            if path is None:
                break
            lab2 = lab.clone()
            at2 = load(path, lab2)
            if not compare(at2, j):
                break
            at2.save_current_status = lambda: None
            for i in range(j + 1, min(total, j + 4)):
                if not step(at2, lab2, i):
                    break
            rec.execution(key=rec.current, outcome=(hierarchy, lab_name, k, j))
            rec.trace()
        at.asynchrone_writer.join()
    files.unaltered()
    rec.sample(repr(rec.current))


def names(chunk, rec):
    """names of checkpoints written at any two later and later points in time sort in this order"""
    if not isinstance(getattr(getattr(qtune.util, 'high_res_datetime', None), 'start', None), tuple):
        rec.note('clock cannot be controlled')
        return
    base = datetime.datetime(2019, 9, 9, 9, 9, 9, 99998)
    starts = [base, datetime.datetime(2019, 12, 31, 23, 59, 59, 999990), datetime.datetime(2020, 2, 29, 11, 59, 59, 999999),
              datetime.datetime(2020, 9, 30, 12, 0, 0, 1), datetime.datetime(2019, 10, 9, 0, 59, 59, 9)]
    deltas = [0., 1e-6, 2e-6, 1e-5, 1e-4, 1e-3, .1, .5, 1., 9., 59., 60., 3600., 12 * 3600., 13 * 3600., 86400., 30 * 86400.,
              31 * 86400., 365 * 86400.]
    for start in starts:
        seen = []
        now = [0.]
        with mock.patch.object(qtune.util.high_res_datetime, 'start', (0., start)), \
                mock.patch('time.perf_counter', lambda: now[0]):
            for d in deltas:
                now[0] = d
                seen.append((d, qtune.util.time_string()))
        for i in range(len(seen)):
            for j in range(i + 1, len(seen)):
                rec.current = (chunk, str(start), seen[i], seen[j])
                rec.require(seen[i][1] < seen[j][1], lambda: 'written at +%rs: %s, at +%rs: %s' % (seen[i] + seen[j]))
                rec.execution(key=rec.current, outcome=rec.current)
                rec.transition()
    rec.sample(repr(rec.current))

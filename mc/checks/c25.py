"""C25: reloading earlier states from the reload window.

The real windows run on the real Qt library; every sequence of user actions is performed by clicking and typing. A reference
tuner without windows is led through the documented composition (set the recorded voltages and restart; load the stored state and
restart) and has to agree with the tuner of the control window after every action, as do the experiments.
"""
import mc.qt as qt  # noqa  (must come first)

import copy
import itertools
import logging
import os
import shutil

from qtune.autotuner import Autotuner
from qtune.history import History

from mc import hist, setups
from mc.core import scratch
from mc.world import Lab, clone, same

QUIET = False
TECHNIQUE = 'exhaustive enumeration of sequences of user actions (bounded depth) on the real windows, in lockstep with a reference tuner without windows'
LEVEL = 'model_checking'
RULE = 'a state is what a user sees of the tuner, the voltages and the numbers in the reload windows; a transition is one user action; an execution is one sequence of actions'
BOUNDS = {'quick': '4 hierarchies x runs of 3 and 8 steps x all sequences of up to 4 actions (step, three steps, manual voltage change, open a second window, choose a row, reload voltages, reload state, damaged file, close) '
                   'after opening a reload window; texts 0, 1, 2, -1, 99, x, empty; without tuner, without checkpoints, with an empty history',
          'thorough': '8 hierarchies, runs of 3, 8 and 14 steps, up to 5 actions'}
ASSUMPTIONS = ['the tuning is paused while a state is reloaded and the checkpoint has been written', 'a manual voltage change is followed by a reload or a restart']
LIMIT = {'quick': 300, 'thorough': 3000}
PARTS = 16
QUICK = ('kalman sliced', 'sensing+kalman', 'simplex', 'scans+averaging')
TEXTS = ('0', '2', '1', '-1', '99', 'x', '')


def names(tier):
    all_names = [h for h in hist.HIERARCHIES]
    picked = [h for h in all_names if h in QUICK]
    for h in all_names:
        if h not in picked and len(picked) < (4 if tier == 'quick' else 8):
            picked.append(h)
    return picked


def sequences(depth):
    """actions after one reload window was opened (window 0)"""
    def extend(seq, windows, closed):
        if seq and seq[-1][0] in ('step', 'volt', 'state'):
            yield seq
        if len(seq) == depth:
            return
        last = seq[-1] if seq else None
        options = [('step', 1), ('step', 3)] if not last or last[0] not in ('step', 'hand') else []
        if windows == 1:
            options.append(('open',))
        if not last or last[0] != 'hand':
            options.append(('hand',))
        if not any(s[0] == 'damage' for s in seq):
            options.append(('damage',))
        for w in range(windows):
            if w in closed:
                continue
            options += [('volt', w), ('state', w)]
            if not last or last[0] not in ('type', 'damage', 'hand'):
                options += [('type', w, t) for t in ('2', '0')]
            if windows == 2 and w == 0:
                options.append(('close', w))
        for o in options:
            yield from extend(seq + (o,), windows + (o[0] == 'open'), closed | ({o[1]} if o[0] == 'close' else set()))
    yield from extend((), 1, frozenset())


def chunks(tier):
    for k in range(PARTS):
        yield 'actions', k, tier
    for h in names(tier)[:2]:
        yield 'texts', h, tier
    yield 'nothing', None, tier


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    every = list(sequences(depth))
    for i, h in enumerate(names(tier)):
        for j, steps in enumerate((3, 8) if tier == 'quick' else (3, 8, 14)):
            for k, seq in enumerate(every):
                if len(seq) < depth - 1 or (k + 3 * i + 5 * j) % (12 if tier == 'quick' else 16) == 0:
                    yield h, steps, seq


def explore(chunk, rec):
    logging.disable(logging.NOTSET)
    import qtune.storage
    qtune.storage.get_version = lambda: 'model-checking'
    qt.application()
    root = scratch('c25')
    try:
        if chunk[0] == 'actions':
            for i, (h, steps, seq) in enumerate(cases(chunk[2])):
                if i % PARTS == chunk[1]:
                    run(chunk, rec, root, h, steps, seq)
        elif chunk[0] == 'texts':
            for steps in (1, 2, 8):
                for texts in itertools.product(TEXTS, repeat=2):
                    run(chunk, rec, root, chunk[1], steps, tuple(('type', 0, t) for t in texts) + (('volt', 0), ('step', 1), ('state', 0)))
        else:
            nothing(chunk, rec, root)
        rec.sample(repr(rec.current))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(chunk, rec, root, *case):
    rec.current = (chunk[:2],) + case
    if (root, case[0], case[1]) not in START:
        START.clear()
        START[root, case[0], case[1]] = prepare(rec, os.path.join(root, '%s %d' % case[:2]), *case[:2])
    r = Run(rec, START[root, case[0], case[1]])
    try:
        r.go(case[2])
    finally:
        for file, content in r.damaged_files.items():
            with open(file, 'wb') as f:
                f.write(content)
        qt.dispose(*([r.gui] + r.windows))
    rec.execution(key=rec.current, outcome=r.outcome())
    rec.trace()


START = {}


def prepare(rec, path, hierarchy, steps):
    """the state after the first steps, done with the control window"""
    at, lab = hist.build(hierarchy, 'far', hdf5_storage_path=path)
    ref, ref_lab = hist.build(hierarchy, 'far')
    r = Run(rec, (lab, ref_lab, at, History(None, lab), ref, []))
    try:
        for _ in range(steps):
            r.step()
    finally:
        qt.dispose(r.gui)
    return r.lab, r.ref_lab, r.gui.auto_tuner, r.history, r.ref, r.rows


class Run:
    def __init__(self, rec, start):
        self.rec = rec
        self.windows, self.numbers = [], []
        lab, ref_lab, at, history, ref, rows = start
        # rows: (voltages, reference lab, reference tuner)
        self.lab, at, self.history = clone(lab, at, history)
        self.ref_lab, self.ref = clone(ref_lab, ref)
        self.rows = list(rows)
        self.damaged, self.damaged_files = set(), {}
        self.gui = qt.control_window(at, self.history)
        qt.LOG.errors()

    def outcome(self):
        return repr(setups.observe(self.ref)), tuple(sorted(self.ref_lab.voltages.items())), tuple(self.numbers)

    def step(self):
        complete = self.ref.is_tuning_complete()
        count = self.history.number_of_stored_iterations
        qt.button(self.gui, 'Step').click()
        qt.work(self.gui)
        if complete:
            return
        self.gui.auto_tuner.asynchrone_writer.restart()
        self.ref.iterate()
        row = (dict(self.ref.tuning_hierarchy[0].last_voltages),) + clone(self.ref_lab, self.ref)
        if self.history.number_of_stored_iterations == count:
            self.rows[-1] = row
            self.damaged.discard(count - 1)
        else:
            self.rows.append(row)

    def go(self, seq):
        bad = len(self.rec.violations)
        self.open()
        for self.action in seq:
            self.rec.transition()
            calls = len(self.lab.log)
            tuner = self.gui.auto_tuner
            allowed = False
            kind = self.action[0]
            if kind == 'step':
                for _ in range(self.action[1]):
                    self.step()
            elif kind == 'open':
                self.open()
            elif kind == 'hand':
                for lab in (self.lab, self.ref_lab):
                    lab.voltages['a'] += .3
            elif kind == 'damage':
                file = self.history.get_reload_path(0)
                with open(file, 'r+b') as f:
                    self.damaged_files.setdefault(file, f.read())
                    f.truncate(700)
                self.damaged.add(0)
            elif kind == 'close':
                self.windows[self.action[1]].close()
                qt.APP[0].processEvents()
            elif kind == 'type':
                self.type(*self.action[1:])
            elif kind == 'volt':
                i = self.numbers[self.action[1]]
                qt.button(self.windows[self.action[1]], 'Reload Voltages').click()
                sets = [c for c in self.lab.log[calls:] if c[0] != 'read']
                self.need(sets == [('set', tuple(sorted(self.rows[i][0].items())))], lambda: 'reloading the voltages of row %d (%r) did %r' % (i, self.rows[i][0], sets))
                self.ref_lab.voltages.update(self.rows[i][0])
                self.ref.restart()
            elif kind == 'state':
                i = self.numbers[self.action[1]]
                qt.button(self.windows[self.action[1]], 'Reload Entire State!').click()
                if i in self.damaged:
                    allowed = True
                    self.need(self.gui.auto_tuner is tuner, 'a failed reload replaced the tuner')
                else:
                    _, lab, at = self.rows[i]
                    self.ref = copy.deepcopy(at, {id(lab): self.ref_lab})
                    self.ref.restart()
            errors = qt.LOG.errors()
            if not allowed:
                self.need(not errors, lambda: 'error: %r' % errors[:2])
            if kind not in ('step', 'volt'):
                self.need(all(c[0] == 'read' for c in self.lab.log[calls:]), lambda: 'the experiment is touched: %r' % self.lab.log[calls:])
            self.compare()
            self.rec.state((self.outcome(), tuple(sorted(self.damaged))))
            if len(self.rec.violations) > bad:
                return

    def open(self):
        window = qt.new_window(qt.button(self.gui, 'Load').click)
        if window is None:
            self.rec.violation('no reload window appears')
            return
        self.windows.append(window)
        self.numbers.append(0)
        shown = self.line(len(self.windows) - 1).text()
        self.need(shown == '0', lambda: 'the new window shows row %s, but reloads row 0' % shown)

    def line(self, w):
        return self.windows[w].findChildren(qt.QtWidgets.QLineEdit)[0]

    def type(self, w, text):
        line = self.line(w)
        line.setText(text)
        line.editingFinished.emit()
        try:
            want = int(text)
        except ValueError:
            want = 0
        self.numbers[w] = want = max(0, min(want, len(self.rows) - 1))
        self.need(line.text() == str(want), lambda: 'typed %r (%d rows): shows %r' % (text, len(self.rows), line.text()))

    def compare(self):
        at = self.gui.auto_tuner
        self.need(same(self.lab.voltages, self.ref_lab.voltages), lambda: 'voltages %r instead of %r' % (self.lab.voltages, self.ref_lab.voltages))
        got, want = setups.observe(at), setups.observe(self.ref)
        self.need(got == want, lambda: 'the tuner differs from the expected one: %s' % setups.difference(got, want))
        self.need(at.reserved['experiment'] is self.lab, 'the tuner works with another experiment')

    def need(self, cond, message):
        return self.rec.require(cond, message, case=(self.rec.current, getattr(self, 'action', 'start')))


def nothing(chunk, rec, root):
    """nothing to reload: no tuner, no checkpoints, no rows"""
    for kind, buttons in itertools.product(('no tuner', 'no checkpoints', 'no rows'), itertools.product(('Reload Voltages', 'Reload Entire State!'), repeat=2)):
        rec.current = (kind, buttons)
        at, lab = hist.build(names('quick')[0], next(iter(setups.LABS)))
        history = History(None, lab)
        if kind != 'no rows':
            for _ in range(3):
                at.iterate()
                history.append_autotuner(at)
        gui = qt.control_window(None if kind == 'no tuner' else at, history)
        window = qt.new_window(qt.button(gui, 'Load').click)
        for text in buttons:
            lab.log.clear()
            before = setups.observe(at)
            qt.button(window, text).click()
            rec.transition()
            if kind == 'no checkpoints' and text == 'Reload Voltages':
                continue
            rec.require(gui.auto_tuner is (None if kind == 'no tuner' else at), 'the tuner was replaced')
            rec.require(setups.observe(at) == before and not [c for c in lab.log if c[0] != 'read'], lambda: '%s with %s did %r' % (text, kind, lab.log))
            rec.require(not qt.ESCAPED, lambda: 'escaped: %r' % qt.ESCAPED[:1])
            qt.LOG.errors()
        qt.dispose(gui, window)
        rec.execution(key=rec.current, outcome=rec.current)
        rec.state(rec.current)
        rec.trace()

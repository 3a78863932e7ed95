"""C17: the control window under every schedule of its worker thread.

The real GUI class (on stand-ins of the Qt widgets, which only remember whether a button is enabled) runs under the
controlled scheduler: the user and the worker are real threads, switched before every line of the control methods, sleeping
on a virtual clock. Sequences of user events are enumerated together with the fate of every tuning step; a monitor of the log of
user events, steps and history entries decides.
"""
import mc.sched as sched  # noqa  (must come first)

import itertools
import logging
import sys
import types

from mc.core import enumerate_tree


class Signal:
    def __init__(self, *args, **kwargs):
        self.slots = []

    def connect(self, slot, *args):
        self.slots.append(slot)

    def disconnect(self, *args):
        if not self.slots:
            raise TypeError('nothing connected')

    def emit(self, *args):
        pass


class PyqtSignal:
    """pyqtSignal of a class: one signal for each instance"""

    def __init__(self, *args, **kwargs):
        pass

    def __set_name__(self, owner, name):
        self.name = '_signal_' + name

    def __get__(self, obj, owner):
        if obj is None:
            return self
        return obj.__dict__.setdefault(self.name, Signal())


class Anything:
    """any Qt object"""

    def __init__(self, *args, **kwargs):
        self.__dict__['qt_text'] = args[0] if args and isinstance(args[0], str) else ''
        self.__dict__['qt_enabled'] = True

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_'):
            raise AttributeError(name)
        if name in ('clicked', 'triggered', 'toggled', 'currentIndexChanged', 'editingFinished', 'destroyed', 'pressed', 'released'):
            self.__dict__[name] = Signal()
            return self.__dict__[name]
        return Anything()

    def __call__(self, *args, **kwargs):
        return Anything()

    def __or__(self, other):
        return self

    __ror__ = __and__ = __rand__ = __or__

    def setEnabled(self, value):
        self.__dict__['qt_enabled'] = bool(value)

    def setDisabled(self, value):
        self.__dict__['qt_enabled'] = not value

    def isEnabled(self):
        return self.__dict__['qt_enabled']

    def setText(self, text):
        self.__dict__['qt_text'] = text

    def text(self):
        return self.__dict__['qt_text']

    def count(self):
        return 1

    def close(self):
        return True


class Button(Anything):
    made = []

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        Button.made.append(self)

    def click(self):
        if self.isEnabled():
            for slot in list(self.clicked.slots):
                slot()
        return self.isEnabled()


class Namespace(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        value = type(name, (Button if name == 'QPushButton' else Anything,), {})
        setattr(self, name, value)
        return value


def install():
    import IPython
    IPython.get_ipython = lambda: Anything()
    pg, tree, widgets, mpl, qt = [Namespace(n) for n in ('pyqtgraph', 'pyqtgraph.parametertree', 'pyqtgraph.widgets',
                                                         'pyqtgraph.widgets.MatplotlibWidget', 'pyqtgraph.Qt')]
    for module in (pg, widgets):
        module.__path__ = []
    pg.parametertree, pg.widgets, pg.Qt, widgets.MatplotlibWidget = tree, widgets, qt, mpl
    qt.QtCore, qt.QtWidgets, qt.QtGui = core, _, _ = [Namespace(n) for n in ('QtCore', 'QtWidgets', 'QtGui')]
    core.pyqtSignal = core.Signal = PyqtSignal
    core.pyqtSlot = core.Slot = lambda *a, **k: (lambda f: f)
    core.Qt = Anything()
    for module in (pg, tree, widgets, mpl, qt):
        sys.modules[module.__name__] = module


install()
import qtune.gui as gui_module  # noqa
from qtune.gui import GUI  # noqa

TECHNIQUE = ('stateless model checking of the real code: exhaustive enumeration of user event sequences x fates of the steps x thread schedules '
             '(preemption bounded, virtual clock), decided by a monitor')
LEVEL = 'model_checking'
RULE = ('an execution is one sequence of user events with given fates of the steps under one schedule; a state is the log of events so far; a '
        'transition is one switch between the user and the worker')
ASSUMPTIONS = ['the user commands come from one thread (the Qt main thread)', 'widgets are stand-ins: text, enabled state and clicks; signals to other windows are not delivered',
               'switches inside one source line are not explored']
QUIET = False
LIMIT = {'quick': 300, 'thorough': 3000}
STEP = 0.2      # duration of a tuning step
WAIT = 1.
BOUNDS = {'quick': 'sequences of up to 3 of start/step/pause/close/wait with every fate script of 9 (4 events: 3 scripts), 1 preemption at any line; '
                   'up to 2 events with 2 preemptions',
          'thorough': 'up to 5 events with 1 preemption, up to 3 with 2, up to 2 with 3'}

# fates: o ok, r step raises, h history raises, q completeness raises, b step raises SystemExit, c complete; afterwards ok
SCRIPTS = ('', 'r', 'or', 'h', 'q', 'c', 'oc', 'oocr', 'b')
SPECIAL = ('no tuner', 'no history')


class Recorder(logging.Handler):
    def __init__(self, log):
        super().__init__()
        self.lock = None
        self.log = log

    def createLock(self):
        self.lock = None

    def emit(self, record):
        if record.levelno >= logging.WARNING and record.exc_info:
            self.log.append('logged')


class Tuner:
    def __init__(self, script, log):
        self.script, self.log, self.steps = list(script), log, 0

    def fate(self):
        return self.script[self.steps] if self.steps < len(self.script) else 'o'

    def is_tuning_complete(self):
        if self.fate() == 'q':
            self.steps += 1
            self.log.append('raised')
            raise LookupError('cannot tell')
        if self.fate() == 'c':
            self.log.append('complete')
            return True
        return False

    def iterate(self):
        fate = self.fate()
        self.log.append('begin')
        sched.sleep(STEP)
        self.steps += 1
        if fate in 'rb':
            self.log.append('raised' if fate == 'r' else 'killed')
            raise (LookupError if fate == 'r' else SystemExit)('step failed')
        self.log.append('end')
        self.history_fails = fate == 'h'

    def restart(self):
        self.log.append('restart')


class Store:
    def __init__(self, log, tuner):
        self.log, self.tuner = log, tuner

    def append_autotuner(self, tuner, *args, **kwargs):
        if tuner is not self.tuner:
            self.log.append('wrong tuner')
        if self.tuner.history_fails:
            self.log.append('raised')
            raise LookupError('history failed')
        self.log.append('append')


def sequences(n, alphabet='STPCW'):
    for seq in itertools.product(alphabet, repeat=n):
        s = ''.join(seq)
        if 'WW' not in s and 'CC' not in s and 'PP' not in s:
            yield s


def chunks(tier):
    out = []
    deep = tier == 'thorough'
    for n in range(1, 6 if deep else 4):
        for s in sequences(n):
            for script in SCRIPTS + (SPECIAL if n < 3 else ()):
                for mode in ('call', 'click') if n < 3 or deep else ('click' if n % 2 else 'call',):
                    out.append((s, script, mode, 1))
                    if n < 2 or n < 3 and mode == 'call' or deep and n < 4:
                        out.append((s, script, mode, 2))
                    if deep and n < 3:
                        out.append((s, script, mode, 3))
    if not deep:
        for s in sequences(4):
            out += [(s, script, 'call', 1) for script in ('', 'r', 'oc')]
    group = 40 if deep else 12
    return [out[i::max(1, len(out) // group)] for i in range(max(1, len(out) // group))]


def explore(chunk, rec):
    sys.unraisablehook = lambda *a: None
    logger = logging.getLogger('qtune')
    logger.setLevel(logging.DEBUG)
    logger.propagate = False
    for item in chunk:
        def run(choose):
            execute(item, choose, rec, logger)
        rec.note('schedules', enumerate_tree(run))
    rec.sample(repr(rec.current)[:600])


def execute(item, choose, rec, logger):
    events, script, mode, preemptions = item
    log = []
    handler = Recorder(log)
    logger.handlers[:] = [handler]
    tuner = Tuner('' if script in SPECIAL else script, log)
    store = Store(log, tuner)
    Button.made.clear()
    keep = []

    def main():
        gui = GUI(None if script == 'no tuner' else tuner, None if script == 'no history' else store)
        keep.append(gui)
        buttons = {b.text(): b for b in Button.made}
        for e in events + 'W':
            if e == 'W':
                sched.sleep(WAIT)
                log.append('W:' + ','.join(t for t in ('Start', 'Pause', 'Step') if buttons[t].isEnabled()))
                continue
            if mode == 'click' and e != 'C':
                b = buttons[dict(S='Start', P='Pause', T='Step')[e]]
                if not b.isEnabled():
                    log.append('disabled')
                    continue
                log.append(e + '<')
                b.click()
            else:
                log.append(e + '<')
                getattr(gui, dict(S='start', P='pause', T='step', C='close')[e])()
            log.append(e + '>')
        log.append('C<')
        gui.close()
        log.append('C>')

    skip = lambda code: code.co_name in ('__init__', 'log_exceptions', 'emit', 'logger', 'auto_tuner', 'history', '__del__', 'log')  # noqa
    s = sched.Scheduler(choose, preemptions, files=('qtune/gui.py',), skip=skip, max_points=4000)
    task = s.run(main)
    rec.current = (events, script, mode, tuple(log), tuple(s.decisions))
    rec.transition(s.switches)
    rec.state((events, script, mode, tuple(log)))
    rec.execution(key=(item, tuple(s.decisions)), outcome=(script, tuple(log)))
    rec.trace()
    if s.failure:
        rec.violation('the window does not come to an end: ' + s.failure)
    elif task.error is not None:
        rec.violation('a user command raises %s: %s' % (type(task.error).__name__, task.error))
    else:
        for t in s.tasks:
            if t.error is not None and not isinstance(t.error, SystemExit):
                rec.violation('the worker thread ended by %s: %s' % (type(t.error).__name__, t.error))
        problem = monitor(log, script)
        rec.require(problem is None, lambda: problem)
    keep.clear()


def monitor(log, script):
    """decides one log; returns what is wrong"""
    continuous = maybe = closed = active = unsaved = starting = False
    due = 0                 # single steps that may still begin
    raised = logged = 0
    killed = False          # the worker thread died before the buttons were set
    since = []              # user commands since the window was known to be idle
    idle = True             # the window is known to be idle
    begun = 0               # steps begun since then
    ended = False           # complete or failed since then
    after_start = 0         # steps begun since the last start
    for i, e in enumerate(log):
        if e == 'S<':
            continuous, closed, maybe, after_start, starting = True, False, False, 0, True
            since.append('S')
        elif e == 'S>':
            maybe, continuous, starting = not continuous, True, False       # after a failure during the command both is right
        elif e == 'T<':
            due += 1
            closed = False
            since.append('T')
        elif e in ('P<', 'C<'):
            since.append(e[0])
        elif e == 'P>':
            due = min(due + continuous, 1)
            continuous = maybe = False
        elif e == 'C>':
            if active:
                return 'the window is closed while a step is in progress'
            closed, continuous, maybe, due = True, False, False, 0
            killed = True        # the buttons stay as they were
        elif e == 'begin':
            if active:
                return 'two steps at the same time'
            if closed:
                return 'a step begins after closing'
            if unsaved and script != 'no history':
                return 'a step begins before the previous one is in the history'
            if not continuous and not starting and due < 1:
                return 'a step begins that was not requested'
            due = max(due - 1, 0)
            active = True
            begun += 1
            after_start += 1
        elif e == 'end':
            active, unsaved = False, True
        elif e == 'append':
            if active or not unsaved:
                return 'a history entry without a finished step'
            unsaved = False
        elif e in ('raised', 'killed', 'complete'):
            active = unsaved = continuous = False
            ended = True
            raised += e == 'raised'
            if e == 'killed':
                due, killed = 0, True
        elif e == 'logged':
            logged += 1
        elif e == 'wrong tuner':
            return 'another tuner is put into the history'
        elif e.startswith('W:'):
            if not ('Start' in e or 'Pause' in e):
                return 'neither Start nor Pause can be pressed'
            if not killed and not maybe and script != 'no tuner':
                if continuous and not ended and 'Pause' not in e:
                    return 'running, but Pause cannot be pressed'
                if not continuous and not ('Start' in e and 'Step' in e):
                    return 'idle, but Start and Step cannot be pressed'
            if not continuous and active:
                return 'a step is in progress though none was requested'
            if logged < raised:
                return 'a failure was not logged'
            if not continuous and unsaved and script != 'no history':
                return 'the last step is not in the history'
            if script != 'no tuner':
                commands = ''.join(since)
                if not ended and not maybe:
                    if idle and commands in ('T', 'PT', 'CT') and begun != 1:
                        return '%d steps instead of one' % begun
                    if idle and commands == 'TT' and not 1 <= begun <= 2:
                        return '%d steps instead of one or two' % begun
                    if commands.endswith('S') and after_start < 2:
                        return 'started, but %d steps begun' % after_start
                    if continuous and not commands and begun < 2:
                        return 'running, but no further steps'
            maybe = maybe or continuous and ended       # (started while the worker was about to pause)
            idle = not continuous
            since, begun, ended = [], 0, False
    if not closed:
        return 'not closed'
    return None

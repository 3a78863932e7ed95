"""The real windows on the real Qt library, without a screen. The worker thread of the control window is replaced: its loop is
run in place whenever the window has been told to do a step."""
import os
import sys
import time as real_time

os.environ['QT_QPA_PLATFORM'] = 'offscreen'
os.environ.setdefault('QT_LOGGING_RULES', '*=false')
os.environ.setdefault('MPLCONFIGDIR', os.path.join(os.environ.get('QTMC_SCRATCH') or '/tmp', 'mpl'))

import IPython  # noqa


class _Shell:
    class events:
        @staticmethod
        def register(*args):
            pass

        @staticmethod
        def unregister(*args):
            pass

    @staticmethod
    def magic(*args):
        pass


IPython.get_ipython = lambda: _Shell

import logging  # noqa
import threading  # noqa


class Idle(BaseException):
    """the worker has nothing to do"""


def _idle():
    """a worker which waits has nothing to do"""
    if sys._getframe(2).f_globals.get('__name__') == 'qtune.gui' and threading.current_thread() is threading.main_thread():
        raise Idle()


_sleep, _event_wait, _condition_wait = real_time.sleep, threading.Event.wait, threading.Condition.wait


def _new_sleep(seconds):
    _idle()
    _sleep(seconds)


def _new_event_wait(self, timeout=None):
    if not self.is_set():
        _idle()
    return _event_wait(self, timeout)


def _new_condition_wait(self, timeout=None):
    _idle()
    return _condition_wait(self, timeout)


real_time.sleep = _new_sleep
threading.Event.wait = _new_event_wait
threading.Condition.wait = _new_condition_wait

import qtune.gui as gui_module  # noqa
IPython.get_ipython = lambda: None
from pyqtgraph.Qt import QtWidgets  # noqa


class NoThread:
    def __init__(self, *args, target=None, **kwargs):
        pass

    def start(self):
        pass

    def join(self, *args):
        pass

    @staticmethod
    def is_alive():
        return True


def control_window(*args, **kwargs):
    """a control window without thread"""
    real = threading.Thread
    if hasattr(gui_module, 'Thread'):
        gui_module.Thread = NoThread
    threading.Thread = NoThread
    try:
        return gui_module.GUI(*args, **kwargs)
    finally:
        threading.Thread = real


sys.unraisablehook = lambda *args: None      # (windows are deleted explicitly)
APP = []
ESCAPED = []


def application():
    if not APP:
        APP.append(QtWidgets.QApplication.instance() or QtWidgets.QApplication(['qtune']))
        sys.excepthook = lambda *error: ESCAPED.append(error)       # (Qt ends the process otherwise)
    return APP[0]


class Log(logging.Handler):
    """everything logged by the code under test"""

    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage(), record.exc_info[1] if record.exc_info else None))

    def errors(self):
        out = [r[1:] for r in self.records if r[0] >= logging.ERROR] + [('escaped', e[1]) for e in ESCAPED]
        self.records.clear()
        ESCAPED.clear()
        return out


LOG = Log()
for _name in ('qtune', 'plotting'):
    logging.getLogger(_name).addHandler(LOG)
    logging.getLogger(_name).propagate = False
    logging.getLogger(_name).setLevel(logging.WARNING)


def work(gui):
    """the worker does what it has been told"""
    try:
        gui._work()
    except Idle:
        pass


def new_window(action):
    """the top level window opened by an action"""
    before = {id(w): w for w in QtWidgets.QApplication.topLevelWidgets()}
    action()
    new = [w for w in QtWidgets.QApplication.topLevelWidgets() if id(w) not in before and w.isVisible()]
    return new[0] if len(new) == 1 else None


def button(window, text):
    found = [b for b in window.findChildren(QtWidgets.QPushButton) if b.text() == text]
    return found[0] if len(found) == 1 else None


def dispose(*windows):
    for w in windows:
        try:
            w.close()
            w.deleteLater()
        except RuntimeError:
            pass
    # (deferred deletions)
    from pyqtgraph.Qt import QtCore
    APP[0].sendPostedEvents(None, QtCore.QEvent.DeferredDelete)
    APP[0].processEvents()

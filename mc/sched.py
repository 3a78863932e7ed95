"""Controlled scheduler: runs real Python threads one at a time and lets an exploration decide every switch.

Importing this module (before the code under test) replaces the primitives of `threading`, `queue` and `time` by versions
that behave as usual outside of an exploration. Inside `Scheduler.run` every thread started by the code under test is a
task; tasks are switched only at yield points: blocking lock operations (on which queues, events, conditions and executors are
built), thread start/join, sleeping, and (optionally) before every line of selected source files. Waits with a
timeout and sleeps use a virtual clock that advances when no task can run, or by an explicit choice.
"""
import _thread
import gc
import queue
import sys
import threading
import time

REAL_LOCK = _thread.allocate_lock
REAL_MONOTONIC = time.monotonic
REAL_SLEEP = time.sleep
_local = threading.local()


class Abort(BaseException):
    """ends a task of an aborted execution"""


def current_task():
    return getattr(_local, 'task', None)


class Task:
    def __init__(self, sched, number, name):
        self.sched, self.number, self.name = sched, number, name
        self.go = REAL_LOCK()
        self.go.acquire()
        self.finished = False
        self.ready = None        # predicate that enables the blocked task
        self.deadline = None
        self.error = None
        self.where = 'start'


class Scheduler:
    """one execution"""
    frozen = False
    runs = 0

    def __init__(self, choose, preemptions, files=(), skip=lambda code: False, max_points=20000, early_time=False, free=True):
        self.choose = choose
        self.preemptions = preemptions
        self.files = tuple(files)
        self.skip = skip
        self.max_points = max_points
        self.early_time = early_time
        self.free = free             # switches at blocking operations do not count as preemptions
        self.tasks = []
        self.clock = 0.
        self.points = 0
        self.switches = 0
        self.threads = 0
        self.failure = None          # deadlock / livelock
        self.aborting = False
        self.over = REAL_LOCK()
        self.over.acquire()
        self.decisions = []

    # -- running ------------------------------------------------------------------------------------------------------
    def run(self, main):
        if not Scheduler.frozen:
            Scheduler.frozen = True
            gc.collect()
            gc.freeze()
        gc.disable()       # finalizers must not run at arbitrary places
        task = self.new_task('main')
        _thread.start_new_thread(self._body, (task, main, None))
        task.go.release()
        self.over.acquire()
        Scheduler.runs += 1
        if Scheduler.runs % 40 == 0 or self.aborting:
            gc.collect()
        return task

    def new_task(self, name):
        task = Task(self, len(self.tasks), name)
        self.tasks.append(task)
        return task

    def _body(self, task, function, thread):
        task.go.acquire()
        _local.task = task
        if thread is not None:
            thread._ident = _thread.get_ident()
            threading._active[thread._ident] = thread
        try:
            if self.aborting:
                raise Abort()
            if self.files:
                sys.settrace(self._trace)
            function()
        except Abort:
            pass
        except BaseException as err:  # noqa
            task.error = err
            err.__traceback__ = None
        finally:
            sys.settrace(None)
            if thread is not None:
                threading._active.pop(thread._ident, None)
            _local.task = None
            task.finished = True
            self._leave(task)

    def _trace(self, frame, event, arg):
        code = frame.f_code
        if event == 'call' and code.co_filename.endswith(self.files) and not self.skip(code):
            return self._lines
        return None

    def _lines(self, frame, event, arg):
        if event == 'line':
            task = current_task()
            if task is not None:
                task.where = '%s:%d' % (frame.f_code.co_name, frame.f_lineno)
                self.point(task)
        return self._lines

    # -- switching ----------------------------------------------------------------------------------------------------
    def enabled(self, task):
        if task.finished:
            return False
        if task.ready is None:
            return True
        return bool(task.ready()) or (task.deadline is not None and task.deadline <= self.clock)

    def _runnable(self, first=None):
        out = [t for t in self.tasks if t is not first and self.enabled(t)]
        return [first] + out if first is not None and self.enabled(first) else out

    def _timed(self):
        return sorted((t for t in self.tasks if not t.finished and t.ready is not None and t.deadline is not None
                       and t.deadline > self.clock), key=lambda t: (t.deadline, t.number))

    def point(self, task):
        """a place where another task may run"""
        if self.aborting:
            raise Abort()
        self.points += 1
        if self.points > self.max_points:
            self._abort('no end after %d yield points' % self.points)
            raise Abort()
        if self.preemptions <= 0:
            return
        options = self._runnable(task)
        timed = self._timed() if self.early_time else []
        n = len(options) + bool(timed)
        if n < 2:
            return
        k = self.choose(n)
        if k:
            self.preemptions -= 1
            if k == len(options):
                self.clock = timed[0].deadline
                self._switch(task, timed[0])
            else:
                self._switch(task, options[k])

    def block(self, task, ready, timeout=None, free=None):
        """suspend until ready() holds; returns False if the timeout passed first"""
        if self.aborting:
            raise Abort()
        task.ready = ready
        task.deadline = None if timeout is None else self.clock + max(timeout, 0.)
        self._next(task, self.free if free is None else free)
        ok = bool(ready())
        task.ready = task.deadline = None
        return ok

    def _pick(self, free):
        options = self._runnable()
        if not options:
            timed = self._timed()
            if not timed:
                return None
            self.clock = timed[0].deadline
            options = self._runnable()
        if len(options) == 1:
            return options[0]
        if free:
            return options[self.choose(len(options))]
        if self.preemptions <= 0:
            return options[0]
        k = self.choose(len(options))
        self.preemptions -= bool(k)
        return options[k]

    def _next(self, task, free):
        """the current task cannot continue"""
        target = self._pick(free)
        if target is None:
            self._abort('deadlock: ' + ', '.join('%s at %s' % (t.name, t.where) for t in self.tasks if not t.finished))
            raise Abort()
        if target is not task:
            self._switch(task, target)

    def _switch(self, task, target):
        self.switches += 1
        self.decisions.append((task.name, task.where, target.name))
        target.go.release()
        task.go.acquire()
        if self.aborting:
            raise Abort()

    def _leave(self, task):
        """the task has finished"""
        if self.aborting:
            rest = [t for t in self.tasks if not t.finished]
            if rest:
                rest[0].go.release()
            else:
                self.over.release()
            return
        if all(t.finished for t in self.tasks):
            self.over.release()
            return
        try:
            target = self._pick(self.free)
        except BaseException as err:  # noqa  (non-deterministic replay)
            self.failure = 'scheduler: %r' % err
            target = None
        if target is None:
            self._abort(self.failure or 'deadlock: ' + ', '.join('%s at %s' % (t.name, t.where) for t in self.tasks if not t.finished))
            rest = [t for t in self.tasks if not t.finished]
            rest[0].go.release()
        else:
            self.switches += 1
            target.go.release()

    def _abort(self, reason):
        self.aborting = True
        self.failure = self.failure or reason


# -- replacements -------------------------------------------------------------------------------------------------------
class SLock:
    """threading.Lock"""

    def __init__(self):
        self._inner = REAL_LOCK()

    def acquire(self, blocking=True, timeout=-1):
        task = current_task()
        if task is None:
            return self._inner.acquire(blocking, timeout)
        if not blocking:
            return self._inner.acquire(False)
        task.sched.point(task)
        limit = None if timeout is None or timeout < 0 else task.sched.clock + timeout
        while not self._inner.acquire(False):
            left = None if limit is None else limit - task.sched.clock
            if left is not None and left <= 0:
                return False
            task.sched.block(task, lambda: not self._inner.locked(), left)
        return True

    def release(self):
        self._inner.release()

    def locked(self):
        return self._inner.locked()

    def _at_fork_reinit(self):
        self._inner = REAL_LOCK()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()


_original = {name: getattr(threading.Thread, name) for name in ('__init__', '__hash__', 'start', 'is_alive', 'join')}


def _init(self, *args, **kwargs):
    self._mc_task = self._mc_hash = None
    _original['__init__'](self, *args, **kwargs)
    task = current_task()
    if task is not None:       # sets of threads are iterated in a reproducible order
        task.sched.threads += 1
        self._mc_hash = task.sched.threads


def _hash(self):
    number = self.__dict__.get('_mc_hash')
    return _original['__hash__'](self) if number is None else number


def _start(self):
    task = current_task()
    if task is None:
        return _original['start'](self)
    if self._mc_task is not None:
        raise RuntimeError('threads can only be started once')
    self._mc_task = task.sched.new_task('thread %d' % len(task.sched.tasks))
    _thread.start_new_thread(task.sched._body, (self._mc_task, self.run, self))
    task.sched.point(task)


def _is_alive(self):
    own = self.__dict__.get('_mc_task')
    return not own.finished if own is not None else _original['is_alive'](self)


def _join(self, timeout=None):
    own = self.__dict__.get('_mc_task')
    if own is None:
        return _original['join'](self, timeout)
    task = current_task()
    if task is None:
        return
    if task is own:
        raise RuntimeError('cannot join current thread')
    task.sched.point(task)
    if not own.finished:
        task.sched.block(task, lambda: own.finished, timeout)


def monotonic():
    task = current_task()
    return REAL_MONOTONIC() if task is None else task.sched.clock


def sleep(seconds):
    task = current_task()
    if task is None:
        return REAL_SLEEP(seconds)
    task.sched.point(task)
    task.sched.block(task, lambda: False, seconds)


def install():
    threading._allocate_lock = threading.Lock = SLock
    threading.RLock = threading._PyRLock
    for name, function in dict(__init__=_init, __hash__=_hash, start=_start, is_alive=_is_alive, join=_join).items():
        setattr(threading.Thread, name, function)
    queue.SimpleQueue = queue._PySimpleQueue
    threading._time = queue.time = time.monotonic = monotonic
    time.sleep = sleep


install()

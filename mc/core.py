"""Shared machinery of the checks: recording what was explored, running exploration chunks in parallel worker
processes, reporting violations and known findings, writing evidence.

A check module (mc/checks/cNN.py) defines

    LEVEL, RULE, ASSUMPTIONS             texts for the evidence file
    chunks(tier)   -> iterable of picklable descriptors; each stands for one exhaustively enumerated sub-space
    explore(chunk, rec)                  enumerates that sub-space completely, reporting to `rec`

`rec` counts states (distinct canonical states), transitions, executions, and collects violations.
Everything is deterministic; VERIF_SEED only rotates the order in which chunks are started.
"""
import collections
import hashlib
import importlib
import json
import logging
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')
MAX_KEEP = 5


class Hang(BaseException):
    """The code under test did not come back (raised by the per-chunk watchdog)."""


class StopChunk(Exception):
    """Enough violations in this chunk."""


def digest(obj) -> bytes:
    return hashlib.blake2b(repr(obj).encode('utf8', 'replace'), digest_size=8).digest()


class Rec:
    def __init__(self, chunk=None):
        self.chunk = chunk
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.executions = 0
        self.distinct = set()
        self.traces = 0
        self.violations = []
        self.samples = []
        self.notes = collections.Counter()
        self.current = None

    # -- coverage -------------------------------------------------------------------------------------------------
    def state(self, key):
        """returns True when the (canonical) state is new in this chunk"""
        d = digest(key)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def transition(self, n=1):
        self.transitions += n

    def execution(self, key=None, outcome=None):
        self.executions += 1
        if key is not None:
            self.distinct.add(digest(key))
        if outcome is not None:
            self.outcomes.add(digest(outcome))

    def trace(self, n=1):
        self.traces += n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def note(self, name, n=1):
        self.notes[name] += n

    # -- violations -----------------------------------------------------------------------------------------------
    def violation(self, message, case=None, key=None):
        """message: what is wrong; case: the concrete history/input; key: stable identity for known findings."""
        case = case if case is not None else self.current
        self.violations.append(dict(message=str(message), case=repr(case), key=str(key or ''),
                                    chunk=repr(self.chunk)))
        if len(self.violations) >= MAX_KEEP:
            raise StopChunk()

    def require(self, cond, message, case=None, key=None):
        if not cond:
            self.violation(message() if callable(message) else message, case, key)
        return bool(cond)

    def export(self):
        return dict(states=self.states, outcomes=self.outcomes, transitions=self.transitions,
                    executions=self.executions, distinct=self.distinct, traces=self.traces,
                    violations=self.violations, samples=self.samples, notes=self.notes)

    def merge(self, d):
        self.states |= d['states']
        self.outcomes |= d['outcomes']
        self.distinct |= d['distinct']
        self.transitions += d['transitions']
        self.executions += d['executions']
        self.traces += d['traces']
        self.violations += d['violations']
        self.notes.update(d['notes'])
        for s in d['samples']:
            if len(self.samples) < 6:
                self.samples.append(s)


def quiet():
    """Silence logging of the code under test and take `git` out of the save path."""
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    import qtune.storage
    if hasattr(qtune.storage, 'get_version'):
        qtune.storage.get_version = lambda: 'model-checking'


def _alarm(signum, frame):
    raise Hang('no progress within the time limit')


def run_chunk(module_name, chunk, limit):
    module = importlib.import_module(module_name)
    rec = Rec(chunk)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        module.explore(chunk, rec)
    except StopChunk:
        rec.note('stopped early: violations')
    except Hang:
        rec.violations.append(dict(message='the code under test did not terminate within %ds' % limit,
                                   case=repr(rec.current), key='', chunk=repr(chunk)))
    except BaseException as err:  # noqa  an unexpected failure of the code under test is a violation, not a crash
        rec.violations.append(dict(message='unexpected %s: %s\n%s' % (type(err).__name__, err,
                                                                    traceback.format_exc(limit=-8)),
                                   case=repr(rec.current), key='', chunk=repr(chunk)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return rec.export()


def _worker(module_name, limit, conn):
    try:
        module = importlib.import_module(module_name)
        if getattr(module, 'QUIET', True):
            quiet()
        while True:
            task = conn.recv()
            if task is None:
                break
            idx, chunk = task
            conn.send((idx, run_chunk(module_name, chunk, limit)))
    except (EOFError, KeyboardInterrupt):
        pass
    finally:
        sys.stdout.flush()
        os._exit(0)


def explore_all(module_name, chunks, jobs, limit, total_limit, rec, stop_on_violation=True):
    """run every chunk in `jobs` worker processes"""
    ctx = multiprocessing.get_context('fork')
    chunks = list(chunks)
    pending = collections.deque(enumerate(chunks))
    workers = {}
    t0 = time.monotonic()
    done = 0

    def spawn():
        a, b = ctx.Pipe()
        proc = ctx.Process(target=_worker, args=(module_name, limit, b), daemon=True)
        proc.start()
        b.close()
        workers[a] = [proc, None, None]
        return a

    def give(conn):
        if pending:
            idx, chunk = pending.popleft()
            workers[conn][1:] = [idx, time.monotonic()]
            conn.send((idx, chunk))
        else:
            workers[conn][1:] = [None, None]

    for _ in range(min(jobs, len(chunks))):
        give(spawn())
    while done < len(chunks):
        if stop_on_violation and len(rec.violations) >= 3 * MAX_KEEP:
            rec.note('stopped early: violations')
            break
        if time.monotonic() - t0 > total_limit:
            rec.violations.append(dict(message='exploration did not finish within %ds; %d of %d sub-spaces done'
                                       % (total_limit, done, len(chunks)), case='', key='',
                                       chunk=repr([chunks[w[1]] for w in workers.values() if w[1] is not None])))
            break
        ready = multiprocessing.connection.wait([c for c, w in workers.items() if w[1] is not None], timeout=1.)
        for conn in ready:
            try:
                idx, result = conn.recv()
            except (EOFError, ConnectionResetError):
                proc, idx, _ = workers.pop(conn)
                rec.violations.append(dict(message='the process exploring this sub-space died (exit code %s)'
                                           % proc.exitcode, case='', key='', chunk=repr(chunks[idx])))
                done += 1
                if pending:
                    give(spawn())
                continue
            rec.merge(result)
            done += 1
            give(conn)
        now = time.monotonic()
        for conn, (proc, idx, since) in list(workers.items()):
            if idx is not None and now - since > limit + 30:
                proc.kill()
                workers.pop(conn)
                rec.violations.append(dict(message='the code under test hangs (uninterruptible, > %ds)' % limit,
                                           case='', key='', chunk=repr(chunks[idx])))
                done += 1
                if pending:
                    give(spawn())
    for conn, (proc, _, _) in workers.items():
        try:
            proc.kill()
        except Exception:
            pass
    return done == len(chunks)


def load_known(prop):
    """known_findings.txt: lines `known: property=<id> key=<key> <text>` and `fixed: property=<id> <commit> <text>`"""
    known = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            parts = line.split()
            if len(parts) > 3 and parts[0] == 'known:' and parts[1] == 'property=' + prop:
                assert parts[2].startswith('key=')
                known[parts[2][4:]] = ' '.join(parts[3:])
    return known


def jobs_available():
    try:
        return max(1, len(os.sched_getaffinity(0)))
    except AttributeError:
        return 4


def scratch(prefix='d'):
    return tempfile.mkdtemp(prefix=prefix, dir=os.environ.get('QTMC_SCRATCH'))


class Chooser:
    """one path through a tree of choices; choices beyond `prefix` take the first option"""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []      # (index, number of options)

    def __call__(self, options):
        options = list(range(options)) if isinstance(options, int) else list(options)
        k = self.prefix[len(self.taken)] if len(self.taken) < len(self.prefix) else 0
        if not 0 <= k < len(options):
            raise RuntimeError('choice %d of %d while replaying %r: the exploration is not deterministic'
                               % (k, len(options), self.prefix))
        self.taken.append((k, len(options)))
        return options[k]


def enumerate_tree(run, fixed=()):
    """stateless exhaustive exploration: run(choose) is executed once per path through its tree of choices.
    `fixed`: the first choices are pinned (used to split a tree over several chunks). Returns the number of paths."""
    fixed = list(fixed)
    prefix = list(fixed)
    paths = 0
    while True:
        choose = Chooser(prefix)
        run(choose)
        paths += 1
        taken = choose.taken
        k = len(taken) - 1
        while k >= len(fixed) and taken[k][0] + 1 >= taken[k][1]:
            k -= 1
        if k < len(fixed):
            return paths
        prefix = [c for c, _ in taken[:k]] + [taken[k][0] + 1]
